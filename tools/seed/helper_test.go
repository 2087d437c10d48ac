package server_test

import (
	"context"
	"io"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/go-ldap/ldap/v3"
	"github.com/sirupsen/logrus"

	"github.com/libregraph/idm/pkg/ldbbolt"
	"github.com/libregraph/idm/server"
	"github.com/libregraph/idm/server/handler"
)

const (
	base    = "o=demo"
	adminDN = "cn=admin,o=demo"
	adminPw = "admin-pw"
)

func quiet() logrus.FieldLogger {
	l := logrus.New()
	l.SetOutput(io.Discard)
	return l
}

type demo struct {
	t    *testing.T
	addr string
	s    *server.Server
	h    handler.Handler
	dir  string
}

func serve(t *testing.T, dir string, cfg *server.Config) *demo {
	cfg.Logger = quiet()
	cfg.LDAPBaseDN = base
	if cfg.LDAPAdminDN == "" {
		cfg.LDAPAdminDN = adminDN
	}
	s, err := server.NewServer(cfg)
	if err != nil {
		t.Fatal(err)
	}
	ctx, cancel := context.WithCancel(context.Background())
	h := s.LDAPHandler.WithContext(ctx)
	s.LDAPServer.AddFunc("", h)
	s.LDAPServer.BindFunc("", h)
	s.LDAPServer.DeleteFunc("", h)
	s.LDAPServer.ModifyFunc("", h)
	s.LDAPServer.ModifyDNFunc("", h)
	s.LDAPServer.PasswordExOpFunc("", h)
	s.LDAPServer.SearchFunc("", h)
	s.LDAPServer.CloseFunc("", h)
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	go s.LDAPServer.Serve(ln)
	t.Cleanup(func() { close(s.LDAPServer.Quit); cancel() })
	return &demo{t: t, addr: ln.Addr().String(), s: s, h: h, dir: dir}
}

func entry(dn string, kv ...string) *ldap.Entry {
	m := map[string][]string{}
	for i := 0; i+1 < len(kv); i += 2 {
		m[kv[i]] = append(m[kv[i]], kv[i+1])
	}
	return ldap.NewEntry(dn, m)
}

// startBolt serves a new database holding the base, the administrator and es.
func startBolt(t *testing.T, cfg *server.Config, es ...*ldap.Entry) *demo {
	dir := t.TempDir()
	file := filepath.Join(dir, "idm.db")
	b := &ldbbolt.LdbBolt{}
	if err := b.Configure(quiet(), base, file, nil); err != nil {
		t.Fatal(err)
	}
	if err := b.Initialize(); err != nil {
		t.Fatal(err)
	}
	all := append([]*ldap.Entry{
		entry(base, "objectClass", "organization", "o", "demo"),
		entry(adminDN, "objectClass", "person", "cn", "admin", "userPassword", adminPw),
	}, es...)
	for _, e := range all {
		if err := b.EntryPut(e); err != nil {
			t.Fatal(err)
		}
	}
	b.Close()
	if cfg == nil {
		cfg = &server.Config{}
	}
	cfg.LDAPHandler = "boltdb"
	cfg.BoltDBFile = file
	return serve(t, dir, cfg)
}

// startLDIF serves an LDIF file; the base and an administrator are added.
func startLDIF(t *testing.T, cfg *server.Config, text string) *demo {
	dir := t.TempDir()
	file := filepath.Join(dir, "main.ldif")
	writeLDIF(t, file, text)
	if cfg == nil {
		cfg = &server.Config{}
	}
	cfg.LDAPHandler = "ldif"
	cfg.LDIFMain = file
	return serve(t, dir, cfg)
}

func writeLDIF(t *testing.T, file, text string) {
	head := "dn: o=demo\nobjectClass: organization\no: demo\n\ndn: cn=admin,o=demo\nobjectClass: person\ncn: admin\nuserPassword: admin-pw\n\n"
	if err := os.WriteFile(file, []byte(head+text), 0o600); err != nil {
		t.Fatal(err)
	}
}

func (d *demo) dial() *ldap.Conn {
	c, err := ldap.DialURL("ldap://" + d.addr)
	if err != nil {
		d.t.Fatal(err)
	}
	d.t.Cleanup(func() { c.Close() })
	return c
}

func (d *demo) admin() *ldap.Conn {
	c := d.dial()
	if err := c.Bind(adminDN, adminPw); err != nil {
		d.t.Fatal(err)
	}
	return c
}

// search returns the sorted DNs found in the subtree of the base.
func search(t *testing.T, c *ldap.Conn, filter string) []string {
	r, err := c.Search(ldap.NewSearchRequest(base, ldap.ScopeWholeSubtree, 0, 0, 0, false, filter, nil, nil))
	if err != nil {
		t.Fatal(err)
	}
	var out []string
	for _, e := range r.Entries {
		out = append(out, strings.ToLower(e.DN))
	}
	sort.Strings(out)
	return out
}

func same(a, b []string) bool { return strings.Join(a, "|") == strings.Join(b, "|") }
