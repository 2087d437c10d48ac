package vh

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"testing"

	ber "github.com/go-asn1-ber/asn1-ber"
	"github.com/libregraph/idm/server"
	"pgregory.net/rapid"
)

// resKey renders everything a search told the client.
func resKey(r *Res) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "code %d diag %q more %v\n", r.Code, r.Diag, len(r.Cookie) > 0)
	s := snapshot(r.Entries)
	var ls []string
	for _, e := range r.Entries {
		ls = append(ls, e.DN+" "+s[e.DN]+"\n")
	}
	sort.Strings(ls)
	return sb.String() + strings.Join(ls, "")
}

// TestC19: an LDIF source is read-only and its passwords cannot be found out by
// searching.
func TestC19(t *testing.T) {
	leg(t, "passwords", 130, func(rt *rapid.T) {
		base := someBase(rt, true)
		entries, pool := filterEntries(rt, base, rapid.IntRange(1, 8).Draw(rt, "n"), 1, []string{"cn", "mail", "objectClass", "description"})
		pool.names = append(pool.names, "userPassword", "userPassword", "userpassword")
		pwName := func() string {
			return rapid.SampledFrom([]string{"userPassword", "userpassword", "USERPASSWORD", "UserPassword"}).Draw(rt, "pwn")
		}
		// Two directories that differ only in the passwords.
		var a, b []Entry
		for i, e := range entries {
			ea := Entry{e.DN, append([]Attr(nil), e.Attrs...)}
			eb := Entry{e.DN, append([]Attr(nil), e.Attrs...)}
			if i == 0 {
				// A common reader.
			} else {
				n := pwName()
				if rapid.IntRange(0, 4).Draw(rt, "haspw") > 0 {
					v := rapid.SampledFrom([]string{"secret", "a", "{SSHA}abc", genText(rt, "pv", 1, 8)}).Draw(rt, "pv1")
					pool.values = append(pool.values, v)
					vs := []string{v}
					if rapid.IntRange(0, 4).Draw(rt, "two") == 0 {
						vs = append(vs, "second")
					}
					at := rapid.IntRange(0, len(ea.Attrs)).Draw(rt, "at")
					ea.Attrs = append(ea.Attrs[:at:at], append([]Attr{{n, vs}}, ea.Attrs[at:]...)...)
					if n2 := pwName(); n2 != n {
						// The same attribute again, spelled differently.
						pool.values = append(pool.values, "third")
						at := rapid.IntRange(0, len(ea.Attrs)).Draw(rt, "at2")
						ea.Attrs = append(ea.Attrs[:at:at], append([]Attr{{n2, []string{"third"}}}, ea.Attrs[at:]...)...)
					}
				}
				if rapid.IntRange(0, 4).Draw(rt, "haspw") > 0 {
					eb.Attrs = append(eb.Attrs, Attr{pwName(), []string{rapid.SampledFrom([]string{"other", "secret", "b", genText(rt, "pv", 1, 8)}).Draw(rt, "pv2")}})
				}
			}
			a, b = append(a, ea), append(b, eb)
		}
		reader := Entry{base.Child(RDN{{"uid", "reader"}}).String(), []Attr{{"uid", []string{"reader"}}, {"userPassword", []string{"readerpw"}}}}
		a, b = append(a, reader), append(b, reader)
		wa, wb := startLdif(rt, base.String(), a, nil), startLdif(rt, base.String(), b, nil)
		defer wa.stop()
		defer wb.stop()
		ca, cb := wa.srv.Dial("127.0.0.1"), wb.srv.Dial("127.0.0.1")
		if rapid.Bool().Draw(rt, "authed") {
			bindAs(rt, ca, reader.DN, "readerpw")
			bindAs(rt, cb, reader.DN, "readerpw")
		}
		visible := withoutPasswords(a)
		steps(rt, 12, func(rt *rapid.T) {
			f := pool.gen(rt, 1, 2)
			req := SearchReq{Base: base.String(), Scope: rapid.IntRange(1, 2).Draw(rt, "sc"), Filter: f.Packet()}
			for i := rapid.IntRange(0, 3).Draw(rt, "nreq"); i > 0; i-- {
				req.Attrs = append(req.Attrs, rapid.SampledFrom([]string{"*", "+", "userPassword", "userpassword", "USERPASSWORD", "cn", "uid", "1.1", "2.5.4.35", "userPassword;binary"}).Draw(rt, "req"))
			}
			if rapid.IntRange(0, 3).Draw(rt, "lim") == 0 {
				req.Size = int64(rapid.IntRange(1, 4).Draw(rt, "size"))
			}
			ra, rb := search(rt, ca, req), search(rt, cb, req)
			if ra.Code != 0 {
				ca, cb = wa.srv.Dial("127.0.0.1"), wb.srv.Dial("127.0.0.1")
			}
			for _, r := range []*Res{ra, rb} {
				for _, e := range r.Entries {
					for _, at := range e.Attrs {
						if strings.Contains(fold(at.N), "userpassword") {
							rt.Fatalf("search %s attributes %q returned the password of %q", f, req.Attrs, e.DN)
						}
					}
				}
			}
			touches := false
			f.walk(func(x *Filt) { touches = touches || fold(x.Attr) == "userpassword" })
			if req.Size == 0 {
				if x, y := resKey(ra), resKey(rb); x != y {
					rt.Fatalf("search %s attributes %q tells directories with different passwords apart:\n%s---\n%s", f, req.Attrs, x, y)
				}
				if d := diffKeys(ra.Entries, matchKeys(visible, base, req.Scope, f)); d != "" {
					rt.Fatalf("search %s: %s", f, d)
				}
			} else if ra.Code != rb.Code || len(ra.Entries) != len(rb.Entries) {
				rt.Fatalf("limited search %s tells directories with different passwords apart: %d/%d and %d/%d", f, ra.Code, len(ra.Entries), rb.Code, len(rb.Entries))
			}
			ev.Case(touches || len(req.Attrs) > 0, fmt.Sprintf("%s %q", f, req.Attrs), fmt.Sprintf("filter-on-password=%v", touches))
		})
	})
	leg(t, "readonly", 60, func(rt *rapid.T) {
		base := someBase(rt, true)
		entries, _ := filterEntries(rt, base, rapid.IntRange(1, 8).Draw(rt, "n"), 0, []string{"cn", "mail"})
		admin := base.Child(RDN{{"cn", "admin"}})
		entries = append(entries, Entry{admin.String(), []Attr{{"cn", []string{"admin"}}, {"userPassword", []string{"pw"}}}})
		var mut func(c *server.Config)
		withConfig := rapid.Bool().Draw(rt, "config")
		d := scratchDir("cfg")
		defer os.RemoveAll(d)
		cf := join(d, "config.ldif")
		must(os.WriteFile(cf, []byte(ldifText([]Entry{{base.Child(RDN{{"cn", "svc"}}).String(), []Attr{{"cn", []string{"svc"}}, {"userPassword", []string{"svcpw"}}}}})), 0o644))
		mut = func(c *server.Config) {
			c.LDAPAdminDN = admin.String()
			if withConfig {
				c.LDIFConfig = cf
			}
		}
		w := startLdif(rt, base.String(), entries, mut)
		defer w.stop()
		file0, _ := os.ReadFile(w.file)
		cl := w.srv.Dial("127.0.0.1")
		switch rapid.IntRange(0, 2).Draw(rt, "who") {
		case 0:
			bindAs(rt, cl, admin.String(), "pw")
		case 1:
			if withConfig {
				bindAs(rt, cl, base.Child(RDN{{"cn", "svc"}}).String(), "svcpw")
			}
		}
		tree := newTree(base)
		for _, e := range entries {
			dn, _ := ParseDN(e.DN)
			n, _ := tree.add(dn, e.Attrs)
			tree = n
		}
		steps(rt, 8, func(rt *rapid.T) {
			dn := tree.genTarget(rt, 0, 3)
			var op *ber.Packet
			kind := rapid.SampledFrom([]string{"add", "delete", "modify", "rename", "password"}).Draw(rt, "op")
			switch kind {
			case "add":
				op = opAdd(dn.String(), []Attr{{"cn", []string{"x"}}})
			case "delete":
				op = opDel(dn.String())
			case "modify":
				op = opModify(dn.String(), tree.genChanges(rt, dn, 0, 2))
			case "rename":
				op = opModDN(dn.String(), "cn=renamed", rapid.Bool().Draw(rt, "del"))
			case "password":
				s, np := dn.String(), "newpw"
				op = opPwMod(&s, nil, &np)
			}
			journal("%s %q", kind, dn)
			r, err := cl.Do(op)
			if err != nil {
				rt.Fatalf("%s on an LDIF source got no answer: %v", kind, err)
			}
			if r.Code == 0 {
				rt.Fatalf("%s of %q on an LDIF source answered success", kind, dn)
			}
			c := w.srv.Dial("127.0.0.1")
			sr := search(rt, c, SearchReq{Base: base.String(), Scope: 2, Filter: filterAll()})
			want := matchKeys(withoutPasswords(entries), base, 2, nil)
			if d := diffKeys(sr.Entries, want); d != "" {
				rt.Fatalf("after a refused %s: %s", kind, d)
			}
			for _, e := range sr.Entries {
				if d := diffEntry(e, &mEntry{attrs: attrsToMap(want[dnKeyOf(e.DN)].Attrs)}); d != "" {
					rt.Fatalf("after a refused %s entry %q: %s", kind, e.DN, d)
				}
			}
			c.Close()
			ev.Case(tree.has(dn), kind+" "+dn.String(), "write-"+kind)
		})
		file1, _ := os.ReadFile(w.file)
		if string(file0) != string(file1) {
			rt.Fatalf("the LDIF file was changed")
		}
	})
}
