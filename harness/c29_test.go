package vh

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"os"
	"os/exec"
	"sort"
	"strings"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// writeCert makes a self-signed certificate; it returns its raw bytes.
func writeCert(dir, name string) []byte {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	must(err)
	tpl := &x509.Certificate{SerialNumber: big.NewInt(time.Now().UnixNano()), Subject: pkix.Name{CommonName: name}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour)}
	der, err := x509.CreateCertificate(rand.Reader, tpl, tpl, &key.PublicKey, key)
	must(err)
	kb, err := x509.MarshalECPrivateKey(key)
	must(err)
	must(os.WriteFile(join(dir, name+".crt"), pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0o644))
	must(os.WriteFile(join(dir, name+".key"), pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb}), 0o600))
	return der
}

// rawChild starts idmd with exactly the given arguments.
func rawChild(dir string, env []string, args ...string) *child {
	c := &child{done: make(chan struct{})}
	c.cmd = exec.Command(idmdPath(), args...)
	c.cmd.Dir = dir
	c.cmd.Env = append([]string{"PATH=/usr/bin:/bin", "HOME=" + dir, "GOTRACEBACK=single"}, env...)
	c.cmd.Stdout, c.cmd.Stderr = &c.out, &c.out
	if err := c.start(); err != nil {
		infra("starting idmd: %v", err)
	}
	return c
}

// waitListen waits until addr accepts connections; false when the process ended.
func (c *child) waitListen(addr string) bool {
	for end := time.Now().Add(replyTimeout()); time.Now().Before(end); time.Sleep(3 * time.Millisecond) {
		conn, err := net.DialTimeout("tcp", addr, time.Second)
		if err == nil {
			conn.Close()
			return true
		}
		if c.ended() {
			return false
		}
	}
	hung.Store(true)
	return false
}

// waitEnd waits for the end of the process; false when it goes on.
func (c *child) waitEnd() bool {
	select {
	case <-c.done:
		return true
	case <-time.After(replyTimeout()):
		hung.Store(true)
		return false
	}
}

func listens(addr string) bool {
	conn, err := net.DialTimeout("tcp", addr, 10*time.Second)
	if err == nil {
		conn.Close()
	}
	return err == nil
}

// settings collects the command line and the environment of a server.
type settings struct {
	env, args []string
	log       []string
}

// set passes a setting by flag, by environment or by both, with the flag
// winning over a different value in the environment.
func (s *settings) set(rt *rapid.T, flag, env, value, decoy string) {
	how := rapid.SampledFrom([]string{"flag", "env", "both"}).Draw(rt, flag)
	if env == "" {
		how = "flag"
	}
	switch how {
	case "flag":
		s.args = append(s.args, "--"+flag+"="+value)
	case "env":
		s.env = append(s.env, "IDMD_DEFAULT_"+env+"="+value)
	case "both":
		s.args = append(s.args, "--"+flag, value)
		s.env = append(s.env, "IDMD_DEFAULT_"+env+"="+decoy)
	}
	s.log = append(s.log, how+":"+flag)
}

func entryLines(entries []Entry) string {
	var out []string
	for _, e := range entries {
		var as []string
		for n, vs := range e.byName() {
			as = append(as, fmt.Sprintf("%s=%q", n, vs))
		}
		sort.Strings(as)
		out = append(out, strings.ToLower(e.DN)+" "+strings.Join(as, " "))
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

// TestC29: the server does what its settings say.
func TestC29(t *testing.T) {
	leg(t, "settings", 60, func(rt *rapid.T) {
		dir := scratchDir("serve")
		defer os.RemoveAll(dir)
		base, company, mail := "dc=lg,dc=local", "Default", "lg.local"
		s := &settings{}
		chance := func(label string) bool { return rapid.Bool().Draw(rt, "with "+label) }
		if chance("base") {
			base = rapid.SampledFrom([]string{"o=corp", "dc=ex,dc=org", "ou=a,o=b"}).Draw(rt, "base")
			s.set(rt, "ldap-base-dn", "LDAP_BASEDN", base, "o=decoy")
		}
		handler := rapid.SampledFrom([]string{"ldif", "boltdb"}).Draw(rt, "handler")
		if handler == "boltdb" || chance("handler") {
			s.set(rt, "ldap-handler", "", handler, "")
		}
		userDN, ownerDN, adminDN, ouDN := "uid=u,"+base, "uid=owner,"+base, "", "ou=x,"+base
		if chance("admin") {
			adminDN = ownerDN
			s.set(rt, "ldap-admin-dn", "LDAP_ADMINDN", adminDN, userDN)
		}
		svcDN := ""
		if handler == "ldif" {
			text := "dn: {{.BaseDN}}\nobjectClass: top\n\ndn: ou=x,{{.BaseDN}}\nou: x\ndescription: {{.Company}}\nmail: a@{{.MailDomain}}\n\ndn: uid=u,{{.BaseDN}}\nuid: u\nuserPassword: pw\n\ndn: uid=owner,{{.BaseDN}}\nuid: owner\nuserPassword: pw\n"
			must(os.WriteFile(join(dir, "main.ldif"), []byte(text), 0o644))
			must(os.WriteFile(join(dir, "decoy.ldif"), []byte("dn: {{.BaseDN}}\nobjectClass: decoy\n"), 0o644))
			s.set(rt, "ldif-main", "LDIF_MAIN_PATH", "main.ldif", "decoy.ldif")
			if chance("config") {
				svcDN = "cn=svc," + base
				must(os.WriteFile(join(dir, "config.ldif"), []byte("dn: cn=svc,{{.BaseDN}}\ncn: svc\nuserPassword: svcpw\n"), 0o644))
				s.set(rt, "ldif-config", "LDIF_CONFIG_PATH", "config.ldif", "decoy.ldif")
			}
			if chance("company") {
				company = rapid.SampledFrom([]string{"Corp", "A & B"}).Draw(rt, "company")
				s.set(rt, "ldif-template-default-company", "LDIF_TEMPLATE_COMPANY", company, "Decoy")
			}
			if chance("mail") {
				mail = rapid.SampledFrom([]string{"corp.example", "x.org"}).Draw(rt, "mail")
				s.set(rt, "ldif-template-default-mail-domain", "LDIF_TEMPLATE_MAIL_DOMAIN", mail, "decoy.org")
			}
		} else {
			file := "idmbolt.db"
			if chance("boltdb") {
				file = "my.db"
				s.set(rt, "boltdb-file", "BOLTDB_FILE", file, "decoy.db")
			}
			seedBolt(rt, join(dir, file), base, []Entry{{base, []Attr{{"objectClass", []string{"top"}}}},
				{ouDN, []Attr{{"ou", []string{"x"}}, {"description", []string{company}}, {"mail", []string{"a@" + mail}}}},
				{userDN, []Attr{{"uid", []string{"u"}}, {"userPassword", []string{"pw"}}}},
				{ownerDN, []Attr{{"uid", []string{"owner"}}, {"userPassword", []string{"pw"}}}}})
		}
		anon := chance("anonymous")
		if anon {
			s.set(rt, "ldap-allow-local-anonymous", "", "true", "")
		} else if rapid.Bool().Draw(rt, "said") {
			s.set(rt, "ldap-allow-local-anonymous", "", "false", "")
		}
		addr, decoyAddr, tlsAddr := freeAddr(), freeAddr(), ""
		s.set(rt, "ldap-listen", "LDAP_LISTEN", addr, decoyAddr)
		var der []byte
		if chance("tls") {
			tlsAddr = freeAddr()
			der = writeCert(dir, "real")
			writeCert(dir, "decoy")
			s.set(rt, "ldaps-listen", "LDAPS_LISTEN", tlsAddr, decoyAddr)
			s.set(rt, "tls-cert-file", "TLS_CERT_FILE", "real.crt", "decoy.crt")
			s.set(rt, "tls-key-file", "TLS_KEY_FILE", "real.key", "decoy.key")
		}
		metricsAddr, pprofAddr := freeAddr(), freeAddr()
		metrics, pprof := chance("metrics"), rapid.IntRange(0, 3).Draw(rt, "pprof") == 0
		s.args = append(s.args, "--metrics-listen", metricsAddr, "--pprof-listen", pprofAddr)
		if metrics {
			s.args = append(s.args, rapid.SampledFrom([]string{"--with-metrics", "--with-metrics=true"}).Draw(rt, "how"))
		} else if rapid.Bool().Draw(rt, "said") {
			s.args = append(s.args, "--with-metrics=false")
		}
		if pprof {
			s.args = append(s.args, rapid.SampledFrom([]string{"--with-pprof", "--with-pprof=true"}).Draw(rt, "how"))
		} else if rapid.Bool().Draw(rt, "said") {
			s.args = append(s.args, "--with-pprof=false")
		}
		level := rapid.SampledFrom([]string{"error", "info", "debug"}).Draw(rt, "level")
		s.args = append(s.args, "--log-level", level)
		var notify *net.UnixConn
		notified := chance("notify")
		if notified || rapid.Bool().Draw(rt, "socket") {
			path := join(dir, "notify")
			n, err := net.ListenUnixgram("unixgram", &net.UnixAddr{Name: path, Net: "unixgram"})
			must(err)
			defer n.Close()
			notify = n
			s.env = append(s.env, "NOTIFY_SOCKET="+path)
			if rapid.Bool().Draw(rt, "unit") { // as in a service started by systemd
				s.env = append(s.env, "INVOCATION_ID=0123456789abcdef0123456789abcdef", "JOURNAL_STREAM=8:12345", "SYSTEMD_EXEC_PID=1")
			}
			if notified {
				s.args = append(s.args, "--systemd-notify")
			} else if rapid.Bool().Draw(rt, "said") {
				s.args = append(s.args, "--systemd-notify=false")
			}
		}
		what := fmt.Sprintf("settings %q %q", strings.ReplaceAll(strings.Join(s.args, " "), dir, "$ROOT"), strings.ReplaceAll(strings.Join(s.env, " "), dir, "$ROOT"))
		ch := rawChild(dir, s.env, append([]string{"serve"}, s.args...)...)
		defer ch.kill()
		if !ch.waitListen(addr) {
			rt.Fatalf("%s: the server does not listen on %s\n%s", what, addr, ch.out.String())
		}
		plain := func() *Client {
			conn, err := net.DialTimeout("tcp", addr, replyTimeout())
			if err != nil {
				rt.Fatalf("%s: %v", what, err)
			}
			return newClient(conn)
		}
		dials := map[string]func() *Client{"plain": plain}
		if tlsAddr != "" {
			if !ch.waitListen(tlsAddr) {
				rt.Fatalf("%s: the server does not listen on %s\n%s", what, tlsAddr, ch.out.String())
			}
			dials["tls"] = func() *Client {
				conn, err := tls.DialWithDialer(&net.Dialer{Timeout: replyTimeout()}, "tcp", tlsAddr, &tls.Config{InsecureSkipVerify: true})
				if err != nil {
					rt.Fatalf("%s: TLS connection fails: %v\n%s", what, err, ch.out.String())
				}
				if got := conn.ConnectionState().PeerCertificates[0].Raw; !bytes.Equal(got, der) {
					rt.Fatalf("%s: another certificate is used", what)
				}
				return newClient(conn)
			}
		}
		if listens(decoyAddr) {
			rt.Fatalf("%s: the server also listens on %s", what, decoyAddr)
		}
		all := SearchReq{Base: base, Scope: 2, Filter: pCtx(7, "objectClass")}
		all.Filter = pCtx(7, "ou")
		want := fmt.Sprintf("%s description=%q mail=%q ou=%q", ouDN, []string{company}, []string{"a@" + mail}, []string{"x"})
		for _, kind := range []string{"plain", "tls"} {
			if dials[kind] == nil {
				continue
			}
			dial := dials[kind]
			do := func(dn, pw string) *Client {
				cl := dial()
				b, err := cl.Do(opBind(dn, pw))
				if err != nil || b.Code != 0 {
					rt.Fatalf("%s: bind as %q over %s: %v %+v\n%s", what, dn, kind, err, b, ch.out.String())
				}
				return cl
			}
			look := func(cl *Client, who string) {
				defer cl.Close()
				r, err := cl.Do(opSearch(all))
				if err != nil || r.Code != 0 {
					rt.Fatalf("%s: search as %s over %s: %v %+v", what, who, kind, err, r)
				}
				if got := entryLines(r.Entries); got != want {
					rt.Fatalf("%s: search as %s over %s finds\n%s\nmust be\n%s", what, who, kind, got, want)
				}
			}
			look(do(userDN, "pw"), "user")
			if svcDN != "" {
				look(do(svcDN, "svcpw"), "config user")
			}
			if b, err := dial().Do(opBind(userDN, "bad")); err != nil || b.Code != 49 {
				rt.Fatalf("%s: bind with a wrong password over %s: %v %+v", what, kind, err, b)
			}
			cl := dial()
			r, err := cl.Do(opSearch(all))
			if anon {
				if err != nil || r.Code != 0 || entryLines(r.Entries) != want {
					rt.Fatalf("%s: anonymous search over %s: %v %+v", what, kind, err, r)
				}
			} else if err == nil && (r.Code == 0 || len(r.Entries) > 0) {
				rt.Fatalf("%s: anonymous search over %s answered with %+v", what, kind, r)
			}
			cl.Close()
			if handler == "boltdb" {
				for _, who := range []string{userDN, ownerDN} {
					cl := do(who, "pw")
					r, err := cl.Do(opAdd("cn=new-"+kind+","+base, []Attr{{"cn", []string{"new"}}}))
					if err != nil {
						rt.Fatalf("%s: add: %v", what, err)
					}
					if (r.Code == 0) != (who == adminDN) {
						rt.Fatalf("%s: add as %s over %s (administrator is %q): %+v", what, who, kind, adminDN, r)
					}
					cl.Close()
				}
			}
		}
		web := func(addr, path string) (string, error) {
			cl := http.Client{Timeout: replyTimeout()}
			resp, err := cl.Get("http://" + addr + path)
			if err != nil {
				return "", err
			}
			defer resp.Body.Close()
			b, err := io.ReadAll(resp.Body)
			if resp.StatusCode != 200 {
				return "", fmt.Errorf("status %d", resp.StatusCode)
			}
			return string(b), err
		}
		for _, o := range []struct {
			on               bool
			name, addr, path string
			text             string
		}{{metrics, "metrics", metricsAddr, "/metrics", "kidm_"}, {pprof, "pprof", pprofAddr, "/debug/pprof/", "goroutine"}} {
			if !o.on {
				if listens(o.addr) {
					rt.Fatalf("%s: %s is not enabled but listens", what, o.name)
				}
				continue
			}
			if !ch.waitListen(o.addr) {
				rt.Fatalf("%s: %s does not listen on %s\n%s", what, o.name, o.addr, ch.out.String())
			}
			if body, err := web(o.addr, o.path); err != nil || !strings.Contains(body, o.text) {
				rt.Fatalf("%s: %s: %v %q", what, o.name, err, body)
			}
		}
		if notified {
			buf := make([]byte, 100)
			notify.SetReadDeadline(time.Now().Add(60 * time.Second))
			n, err := notify.Read(buf)
			if err != nil || !strings.Contains(string(buf[:n]), "READY=1") {
				rt.Fatalf("%s: no ready notification: %v %q", what, err, buf[:n])
			}
		}
		if log := ch.out.String(); level == "error" && strings.Contains(log, "level=info") || level != "debug" && strings.Contains(log, "level=debug") {
			rt.Fatalf("%s: log holds more than asked for\n%s", what, log)
		}
		if ch.ended() {
			rt.Fatalf("%s: %s", what, ch.crashText())
		}
		if notify != nil && !notified {
			ch.kill() // what it sent is in the socket
			buf := make([]byte, 100)
			notify.SetReadDeadline(time.Now().Add(50 * time.Millisecond))
			if n, err := notify.Read(buf); err == nil {
				rt.Fatalf("%s: notification %q without being asked to", what, buf[:n])
			}
		}
		ev.Case(len(s.log) >= 4, handler+" "+strings.Join(s.log, " ")+base+company+mail, "handler="+handler, fmt.Sprintf("tls=%v", tlsAddr != ""), fmt.Sprintf("anonymous=%v", anon))
	})
	// Settings the server can not honour end it with an error.
	leg(t, "refused", 50, func(rt *rapid.T) {
		dir := scratchDir("serve")
		defer os.RemoveAll(dir)
		must(os.WriteFile(join(dir, "main.ldif"), []byte("dn: dc=lg,dc=local\nobjectClass: top\n"), 0o644))
		must(os.WriteFile(join(dir, "bad.pem"), []byte("no certificate"), 0o644))
		must(os.WriteFile(join(dir, "no.db"), bytes.Repeat([]byte("not a database "), 1000), 0o644))
		must(os.WriteFile(join(dir, "bad.ldif"), []byte("dn: dc=lg,dc=local\nthis is no LDIF\n"), 0o644))
		writeCert(dir, "a")
		writeCert(dir, "b")
		busy, err := net.Listen("tcp", freeAddr())
		must(err)
		defer busy.Close()
		addr, tlsAddr, taken := freeAddr(), freeAddr(), busy.Addr().String()
		tlsArgs := func(crt, key string) []string {
			return []string{"--ldaps-listen", tlsAddr, "--tls-cert-file", crt, "--tls-key-file", key}
		}
		cases := []struct {
			name string
			args []string
		}{
			{"occupied address", []string{"--ldap-listen", taken}},
			{"occupied TLS address", []string{"--ldaps-listen", taken, "--tls-cert-file", "a.crt", "--tls-key-file", "a.key"}},
			{"impossible address", []string{"--ldap-listen", "127.0.0.1:99999"}},
			{"no certificate", []string{"--ldaps-listen", tlsAddr}},
			{"no key", []string{"--ldaps-listen", tlsAddr, "--tls-cert-file", "a.crt"}},
			{"absent certificate", tlsArgs("absent.crt", "a.key")},
			{"absent key", tlsArgs("a.crt", "absent.key")},
			{"bad certificate", tlsArgs("bad.pem", "a.key")},
			{"bad key", tlsArgs("a.crt", "bad.pem")},
			{"certificate and key differ", tlsArgs("a.crt", "b.key")},
			{"unknown handler", []string{"--ldap-handler", "other"}},
			{"absent main", []string{"--ldif-main", "absent.ldif"}},
			{"bad main", []string{"--ldif-main", "bad.ldif"}},
			{"no main", []string{"--ldif-main", ""}},
			{"absent config", []string{"--ldif-config", "absent.ldif"}},
			{"bad config", []string{"--ldif-config", "bad.ldif"}},
			{"bad base", []string{"--ldap-handler", "boltdb", "--ldap-base-dn", "no dn"}},
			{"bad database", []string{"--ldap-handler", "boltdb", "--boltdb-file", "no.db"}},
			{"database in absent folder", []string{"--ldap-handler", "boltdb", "--boltdb-file", "absent/x.db"}},
			{"occupied metrics address", []string{"--with-metrics", "--metrics-listen", taken}},
			{"impossible metrics address", []string{"--with-metrics", "--metrics-listen", "127.0.0.1:99999"}},
			{"occupied profiling address", []string{"--with-pprof", "--pprof-listen", taken}},
			{"bad administrator", []string{"--ldap-admin-dn", "no dn"}},
			{"bad administrator of database", []string{"--ldap-handler", "boltdb", "--ldap-admin-dn", "no dn"}},
			{"log level", []string{"--log-level", "loud"}},
			{"unknown flag", []string{"--nothing"}},
		}
		c := cases[rapid.IntRange(0, len(cases)-1).Draw(rt, "case")]
		args := append([]string{"serve", "--ldap-listen", addr, "--ldif-main", "main.ldif"}, c.args...)
		ch := rawChild(dir, nil, args...)
		defer ch.kill()
		if !ch.waitEnd() {
			rt.Fatalf("idmd %q (%s) goes on\n%s", args, c.name, ch.out.String())
		}
		if code := ch.cmd.ProcessState.ExitCode(); code <= 0 || strings.Contains(ch.out.String(), "goroutine ") {
			rt.Fatalf("idmd %q (%s) ends with %v\n%s", args, c.name, ch.cmd.ProcessState, ch.out.String())
		}
		if c.name == "bad database" {
			if b, err := os.ReadFile(join(dir, "no.db")); err != nil || !bytes.Equal(b, bytes.Repeat([]byte("not a database "), 1000)) {
				rt.Fatalf("the file that is not a database was changed")
			}
		}
		ev.Case(true, c.name, "refused: "+c.name)
	})
}

// TestC30: a running server stops in an orderly way when it is told to.
func TestC30(t *testing.T) {
	// run reports whether the signal ended the process without being handled.
	run := func(rt *rapid.T, sig syscall.Signal, settle time.Duration, last bool) bool {
		dir := scratchDir("stop")
		defer os.RemoveAll(dir)
		base := "dc=lg,dc=local"
		root := []Entry{{base, []Attr{{"objectClass", []string{"top"}}}}, {"uid=admin," + base, []Attr{{"uid", []string{"admin"}}, {"userPassword", []string{"pw"}}}}}
		addr, tlsAddr := freeAddr(), ""
		args := []string{"serve", "--ldap-admin-dn", "uid=admin," + base}
		bolt := rapid.Bool().Draw(rt, "bolt")
		fill := rapid.SampledFrom([]int{0, 20, 50, 1000}).Draw(rt, "fill")
		if bolt && fill > 50 {
			fill = 50
		}
		for i := 0; i < fill; i++ {
			root = append(root, Entry{fmt.Sprintf("ou=f%d,%s", i, base), []Attr{{"ou", []string{fmt.Sprintf("f%d", i)}}}})
		}
		if bolt {
			seedBolt(rt, join(dir, "x.db"), base, root)
			args = append(args, "--ldap-handler", "boltdb", "--boltdb-file", "x.db")
		} else {
			must(os.WriteFile(join(dir, "main.ldif"), []byte(ldifText(root)), 0o644))
			args = append(args, "--ldif-main", "main.ldif")
		}
		listeners := rapid.SampledFrom([]string{"plain", "both", "both", "tls"}).Draw(rt, "listeners")
		if listeners != "plain" {
			writeCert(dir, "a")
			tlsAddr = freeAddr()
			args = append(args, "--ldaps-listen", tlsAddr, "--tls-cert-file", "a.crt", "--tls-key-file", "a.key")
		}
		if listeners == "tls" {
			addr = ""
		}
		args = append(args, "--ldap-listen", addr)
		if rapid.IntRange(0, 3).Draw(rt, "extras") == 0 {
			args = append(args, "--with-metrics", "--metrics-listen", freeAddr(), "--with-pprof", "--pprof-listen", freeAddr())
		}
		dial := func() (net.Conn, error) {
			if addr == "" || tlsAddr != "" && rapid.Bool().Draw(rt, "by tls") {
				return tls.DialWithDialer(&net.Dialer{Timeout: replyTimeout()}, "tcp", tlsAddr, &tls.Config{InsecureSkipVerify: true})
			}
			return net.DialTimeout("tcp", addr, replyTimeout())
		}
		up := func(c *child) bool {
			return (addr == "" || c.waitListen(addr)) && (tlsAddr == "" || c.waitListen(tlsAddr))
		}
		ch := rawChild(dir, nil, args...)
		defer ch.kill()
		if !up(ch) {
			rt.Fatalf("idmd %q does not listen\n%s", args, ch.out.String())
		}
		var log []string
		acked := map[string]bool{}
		var writers []*Client
		searchers, short := 0, make(chan int, 10)
		for n := rapid.IntRange(0, 6).Draw(rt, "clients"); n > 0; n-- {
			kind := rapid.SampledFrom([]string{"idle", "bound", "half", "gone", "writer", "writer", "silent tls", "deaf", "searcher", "searcher"}).Draw(rt, "kind")
			var conn net.Conn
			var err error
			if kind == "silent tls" && tlsAddr != "" {
				conn, err = net.DialTimeout("tcp", tlsAddr, replyTimeout())
			} else {
				conn, err = dial()
			}
			if err != nil {
				rt.Fatalf("idmd %q: %v\n%s", args, err, ch.out.String())
			}
			defer conn.Close()
			log = append(log, kind)
			switch kind {
			case "gone":
				conn.Close()
			case "half":
				must(func() error { _, err := conn.Write([]byte{0x30, 0x20, 2, 1}); return err }())
			case "deaf":
				// Sends requests and never reads an answer.
				req := envelope(2, opSearch(SearchReq{Base: base, Scope: 2, Filter: pCtx(7, "objectClass")})).Bytes()
				go func() {
					for k := 0; k < 20000; k++ {
						if _, err := conn.Write(req); err != nil {
							return
						}
					}
				}()
			case "bound", "writer", "searcher":
				cl := newClient(conn)
				if b, err := cl.Do(opBind("uid=admin,"+base, "pw")); err != nil || b.Code != 0 {
					rt.Fatalf("bind: %v %+v", err, b)
				}
				if kind == "writer" && bolt {
					writers = append(writers, cl)
				}
				if kind == "searcher" {
					searchers++
					go func() {
						// Every search answered with success is complete, to the end.
						for {
							r, err := cl.Do(opSearch(SearchReq{Base: base, Scope: 2, Filter: pCtx(7, "ou")}))
							if err != nil {
								short <- -1
								return
							}
							if r.Code == 0 && len(r.Entries) != fill {
								short <- len(r.Entries)
								return
							}
						}
					}()
				}
			}
		}
		type done struct{ dns []string }
		results := make(chan done, len(writers))
		started := make(chan struct{}, len(writers))
		for i, cl := range writers {
			go func(i int, cl *Client) {
				var d done
				for k := 0; k < 100000; k++ {
					dn := fmt.Sprintf("cn=w%d-%d,%s", i, k, base)
					r, err := cl.Do(opAdd(dn, []Attr{{"cn", []string{fmt.Sprintf("w%d-%d", i, k)}}}))
					if k == 0 {
						started <- struct{}{}
					}
					if err != nil || r.Code != 0 {
						break
					}
					d.dns = append(d.dns, dn)
				}
				results <- d
			}(i, cl)
		}
		for range writers {
			<-started
		}
		time.Sleep(time.Duration(rapid.IntRange(0, 30).Draw(rt, "after")) * time.Millisecond)
		if len(writers) == 0 {
			time.Sleep(100 * time.Millisecond) // The signal handler is installed after the listener.
		}
		time.Sleep(settle)
		what := fmt.Sprintf("bolt=%v listeners=%s signal=%d clients=%q", bolt, listeners, sig, log)
		if ch.ended() {
			rt.Fatalf("%s: %s", what, ch.crashText())
		}
		if rapid.IntRange(0, 3).Draw(rt, "reload") == 0 {
			log = append(log, "reload")
			ch.cmd.Process.Signal(syscall.SIGHUP)
		}
		ch.cmd.Process.Signal(sig)
		if !ch.waitEnd() {
			rt.Fatalf("%s: the server does not stop\n%s", what, ch.out.String())
		}
		if ws, ok := ch.cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() && !last && (ws.Signal() == sig || ws.Signal() == syscall.SIGHUP) {
			return true
		}
		if code := ch.cmd.ProcessState.ExitCode(); code != 0 {
			rt.Fatalf("%s: the stopped server ends with %v\n%s", what, ch.cmd.ProcessState, ch.out.String())
		}
		for ; searchers > 0; searchers-- {
			if k := <-short; k >= 0 {
				rt.Fatalf("%s: a search is answered with success and %d entries instead of %d", what, k, fill)
			}
		}
		n := 0
		for range writers {
			for _, dn := range (<-results).dns {
				acked[dn] = true
				n++
			}
		}
		// It starts again in the same place with everything that was acknowledged.
		again := rawChild(dir, nil, args...)
		defer again.kill()
		if !up(again) {
			rt.Fatalf("%s: the server does not start again\n%s", what, again.out.String())
		}
		conn, err := dial()
		if err != nil {
			rt.Fatalf("%s: after the restart: %v\n%s", what, err, again.out.String())
		}
		cl := newClient(conn)
		defer cl.Close()
		if b, err := cl.Do(opBind("uid=admin,"+base, "pw")); err != nil || b.Code != 0 {
			rt.Fatalf("%s: bind after the restart: %v %+v", what, err, b)
		}
		r, err := cl.Do(opSearch(SearchReq{Base: base, Scope: 2, Filter: pCtx(7, "cn")}))
		if err != nil || r.Code != 0 {
			rt.Fatalf("%s: search after the restart: %v %+v", what, err, r)
		}
		found := map[string]bool{}
		for _, e := range r.Entries {
			found[e.DN] = true
		}
		for dn := range acked {
			if !found[dn] {
				rt.Fatalf("%s: the acknowledged entry %s is lost", what, dn)
			}
		}
		if len(found) > n+len(writers) {
			rt.Fatalf("%s: %d entries found, %d acknowledged", what, len(found), n)
		}
		ev.Note("writes_before_stop", n)
		ev.Case(len(log) > 0, what+fmt.Sprint(n), fmt.Sprintf("bolt=%v", bolt), fmt.Sprintf("writers=%v", len(writers) > 0), "listeners="+listeners)
		return false
	}
	leg(t, "stop", 40, func(rt *rapid.T) {
		sig := rapid.SampledFrom([]syscall.Signal{syscall.SIGTERM, syscall.SIGINT}).Draw(rt, "signal")
		// A signal right after the start may come before the process is
		// prepared for it; one that comes much later may not.
		for _, settle := range []time.Duration{0, 2 * time.Second, 10 * time.Second} {
			if !run(rt, sig, settle, settle > 5*time.Second) {
				return
			}
			ev.Note("signalled before being ready", 1)
		}
	})
}
