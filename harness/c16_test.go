package vh

import (
	"fmt"
	"os"
	"strings"
	"testing"

	ber "github.com/go-asn1-ber/asn1-ber"
	"github.com/libregraph/idm/server"
	"pgregory.net/rapid"
)

type session struct {
	cl  *Client
	who int // index of the bound user, -1 anonymous
}

// genBindForm makes a bind request of unusual form, without valid credentials.
func genBindForm(rt *rapid.T, dn string) (*ber.Packet, string) {
	p := pApp(tagBindReq)
	version := rapid.SampledFrom([]int64{3, 3, 3, 0, 1, 4, 127, -1, 1 << 40}).Draw(rt, "version")
	p.AppendChild(pInt(version))
	p.AppendChild(pStr(dn))
	tag := rapid.SampledFrom([]ber.Tag{0, 0, 0, 1, 2, 3, 4, 7, 10, 30}).Draw(rt, "method")
	pw := rapid.SampledFrom([]string{"", "wrong", "\x00"}).Draw(rt, "pw")
	shape := rapid.SampledFrom([]string{"simple", "constructed", "universal"}).Draw(rt, "shape")
	switch shape {
	case "simple":
		p.AppendChild(pCtx(int(tag), pw))
	case "constructed":
		a := ber.Encode(ber.ClassContext, ber.TypeConstructed, tag, nil, "")
		a.AppendChild(pStr(rapid.SampledFrom([]string{"EXTERNAL", "PLAIN", "", "ANONYMOUS"}).Draw(rt, "mech")))
		p.AppendChild(a)
	case "universal":
		p.AppendChild(pStr(pw))
	}
	more := rapid.IntRange(-1, 2).Draw(rt, "more")
	for i := 0; i < more; i++ {
		if rapid.Bool().Draw(rt, "ctx") {
			p.AppendChild(pCtx(i, "x"))
		} else {
			p.AppendChild(pStr(""))
		}
	}
	if more < 0 {
		p.Children = p.Children[:2]
		q := pApp(tagBindReq)
		for _, c := range p.Children {
			q.AppendChild(c)
		}
		p = q
	}
	return p, fmt.Sprintf("(version %d, method %d %s %q, %d more elements)", version, tag, shape, pw, more)
}

// TestC16: what a connection may do follows the outcome of its own last bind.
func TestC16(t *testing.T) {
	cheapArgon()
	leg(t, "sessions", 250, func(rt *rapid.T) {
		base := someBase(rt, false)
		allow := rapid.Bool().Draw(rt, "allow")
		users := []DN{base.Child(RDN{{"cn", "admin"}}), base.Child(RDN{{"uid", "u1"}}), base.Child(RDN{{"uid", "u2"}}), base.Child(RDN{{"cn", "Ädmin, x"}})}
		pws := []string{adminPw, "p1", "p2", "p3"}
		var extra []Entry
		for i, u := range users[1:] {
			extra = append(extra, Entry{u.String(), []Attr{{u[0][0].T, []string{u[0][0].V}}, {"userPassword", []string{pws[i+1]}}}})
		}
		w := newBoltWorldAt(rt, base, func(c *server.Config) { c.LDAPAllowLocalAnonymousBind = allow }, extra...)
		defer w.stop()
		var ss []*session
		for i := 0; i < 3; i++ {
			ss = append(ss, &session{w.srv.Dial("127.0.0.1"), -1})
		}
		name := func(i int) string {
			if i < 0 {
				return "anonymous"
			}
			return users[i].String()
		}
		fail := func(format string, args ...interface{}) {
			rt.Fatalf("%s\nhistory:\n%s", fmt.Sprintf(format, args...), strings.Join(w.log, "\n"))
		}
		binds, drops, probes, gen, forms := 0, 0, 0, 0, 0
		steps(rt, 22, func(rt *rapid.T) {
			si := rapid.IntRange(0, len(ss)-1).Draw(rt, "session")
			s := ss[si]
			u := rapid.IntRange(0, len(users)-1).Draw(rt, "user")
			switch rapid.SampledFrom([]string{"bind", "bind", "bind", "fail", "fail", "anon", "odd", "form", "other", "other", "write", "write", "self", "self", "search", "search", "reconnect"}).Draw(rt, "act") {
			case "bind":
				w.logf("#%d bind as %s", si, name(u))
				bindAs(rt, s.cl, users[u].Respell(rt), pws[u])
				s.who = u
				binds++
			case "fail":
				pw := rapid.SampledFrom([]string{"wrong", "", pws[u] + "x", pws[(u+1)%len(pws)]}).Draw(rt, "badpw")
				dn := users[u].Respell(rt)
				switch rapid.IntRange(0, 3).Draw(rt, "badname") {
				case 0:
					dn = users[u].Child(RDN{{"cn", "missing"}}).String()
				case 1:
					dn, pw = "not a dn", pws[u]
				}
				w.logf("#%d bind as %q with wrong credentials", si, dn)
				r, err := s.cl.Do(opBind(dn, pw))
				if err != nil || r.Code == 0 {
					fail("bind as %q with %q: %v %+v", dn, pw, err, r)
				}
				if s.who >= 0 {
					drops++
				}
				s.who = -1
			case "anon":
				w.logf("#%d anonymous bind", si)
				if _, err := s.cl.Do(opBind("", "")); err != nil {
					fail("anonymous bind: %v", err)
				}
				if s.who >= 0 {
					drops++
				}
				s.who = -1
			case "odd":
				op := opSASL(users[u].String(), "PLAIN")
				if rapid.Bool().Draw(rt, "v2") {
					op = opBindV(2, users[u].String(), pws[u])
				}
				w.logf("#%d bind with unsupported method", si)
				r, err := s.cl.Do(op)
				if err != nil || r.Code == 0 {
					fail("unsupported bind: %v %+v", err, r)
				}
				s.who = -1
			case "form":
				// The credentials are wrong, so no form may lead to success.
				op, what := genBindForm(rt, users[u].String())
				w.logf("#%d bind as %s %s", si, name(u), what)
				r, err := s.cl.Do(op)
				if err == nil && r.Code == 0 {
					fail("bind as %s %s answered success", name(u), what)
				}
				forms++
				s.who = -1
				if err != nil {
					ss[si] = &session{w.srv.Dial("127.0.0.1"), -1} // closed by the server
				}
			case "write":
				gen++
				dn := fmt.Sprintf("cn=e%d,%s", gen, base)
				w.logf("#%d (%s) adds an entry", si, name(s.who))
				r, err := s.cl.Do(opAdd(dn, []Attr{{"cn", []string{fmt.Sprint("e", gen)}}}))
				if err != nil {
					fail("add: %v", err)
				}
				if (r.Code == 0) != (s.who == 0) {
					fail("connection #%d, last bound as %s: add answered %d", si, name(s.who), r.Code)
				}
				probes++
			case "other":
				// Requests of other kinds and failing ones leave the identity alone.
				var op *ber.Packet
				kind := rapid.SampledFrom([]string{"abandon", "compare", "extended", "whoami", "delete", "modify", "rename", "filter"}).Draw(rt, "kind")
				switch kind {
				case "abandon":
					s.cl.sendRaw(envelope(int64(rapid.IntRange(1, 2000).Draw(rt, "id")), opAbandon(int64(rapid.IntRange(0, 5).Draw(rt, "aid")))).Bytes())
				case "compare":
					op = opCompare(users[u].String(), "cn", "x")
				case "extended":
					op = opExt("1.3.6.1.4.1.1466.20037", nil)
				case "whoami":
					op = opExt("1.3.6.1.4.1.4203.1.11.3", nil)
				case "delete":
					op = opDel("cn=missing," + base.String())
				case "modify":
					op = opModify("cn=missing,"+base.String(), []Change{{2, Attr{"cn", []string{"x"}}}})
				case "rename":
					op = opModDN("cn=missing,"+base.String(), "cn=y", true)
				case "filter":
					op = opCompare("", "", "")
				}
				w.logf("#%d (%s) sends %s", si, name(s.who), kind)
				if op != nil {
					if r, err := s.cl.Do(op); err != nil || r.Code == 0 {
						fail("%s: %v %+v", kind, err, r)
					}
				}
			case "self":
				// Changing one's own password shows who one is.
				gen++
				np := fmt.Sprintf("new-%d", gen)
				w.logf("#%d (%s) sets its password to %s", si, name(s.who), np)
				r, err := s.cl.Do(opPwMod(nil, nil, &np))
				if err != nil {
					fail("password change: %v", err)
				}
				if (r.Code == 0) != (s.who >= 0) {
					fail("connection #%d, last bound as %s: own password change answered %d", si, name(s.who), r.Code)
				}
				if s.who >= 0 {
					pws[s.who] = np
				}
				for i := range users {
					c := w.srv.Dial("127.0.0.1")
					r, err := c.Do(opBind(users[i].String(), np))
					if err != nil || (r.Code == 0) != (i == s.who) {
						fail("connection #%d, last bound as %s, set its own password to %q: bind as %s with it answered %+v (%v)", si, name(s.who), np, name(i), r, err)
					}
					c.Close()
				}
				probes++
			case "search":
				w.logf("#%d (%s) searches", si, name(s.who))
				r, err := s.cl.Do(opSearch(SearchReq{Base: base.String(), Scope: 0, Filter: filterAll()}))
				if err != nil {
					fail("search: %v", err)
				}
				may := s.who >= 0 || allow
				if (r.Code == 0 && len(r.Entries) == 1) != may || (!may && len(r.Entries) > 0) {
					fail("connection #%d, last bound as %s, anonymous access %v: search answered %d with %d entries", si, name(s.who), allow, r.Code, len(r.Entries))
				}
				if r.Code != 0 {
					ss[si] = &session{w.srv.Dial("127.0.0.1"), -1} // may be closed now
				}
				probes++
			case "reconnect":
				w.logf("#%d reconnects", si)
				if rapid.Bool().Draw(rt, "unbind") {
					s.cl.sendRaw(envelope(999, opUnbind()).Bytes())
					if !s.cl.waitClosed(replyTimeout()) {
						fail("connection stays open after unbind")
					}
				}
				s.cl.Close()
				ss[si] = &session{w.srv.Dial("127.0.0.1"), -1}
			}
		})
		ev.Note("probes", probes)
		ev.Note("binds", binds)
		ev.Note("binds of unusual form", forms)
		ev.Note("authentications dropped by a failed or anonymous bind", drops)
		ev.Case(binds > 0 && probes > 1, strings.Join(w.log, "\n"), fmt.Sprintf("dropped=%v", drops > 0))
	})
	leg(t, "source", 60, func(rt *rapid.T) {
		base := someBase(rt, true)
		allow := rapid.Bool().Draw(rt, "allow")
		users := []DN{base.Child(RDN{{"cn", "admin"}}), base.Child(RDN{{"uid", "u1"}}), base.Child(RDN{{"cn", "svc"}})}
		pws := []string{adminPw, "p1", "p2"}
		text := func(i int) Entry {
			u := users[i]
			return Entry{u.String(), []Attr{{u[0][0].T, []string{u[0][0].V}}, {"userPassword", []string{pws[i]}}}}
		}
		d := scratchDir("cfg")
		defer os.RemoveAll(d)
		cf := join(d, "config.ldif")
		must(os.WriteFile(cf, []byte(ldifText([]Entry{text(2)})), 0o644))
		w := startLdif(rt, base.String(), []Entry{{base.String(), []Attr{{"objectClass", []string{"top"}}}}, text(0), text(1)}, func(c *server.Config) {
			c.LDAPAllowLocalAnonymousBind = allow
			c.LDAPAdminDN = users[0].String()
			c.LDIFConfig = cf
		})
		defer w.stop()
		var log []string
		var ss []*session
		for i := 0; i < 3; i++ {
			ss = append(ss, &session{w.srv.Dial("127.0.0.1"), -1})
		}
		fail := func(format string, args ...interface{}) {
			rt.Fatalf("%s\nhistory:\n%s", fmt.Sprintf(format, args...), strings.Join(log, "\n"))
		}
		binds, probes, forms := 0, 0, 0
		steps(rt, 16, func(rt *rapid.T) {
			si := rapid.IntRange(0, len(ss)-1).Draw(rt, "session")
			s := ss[si]
			u := rapid.IntRange(0, len(users)-1).Draw(rt, "user")
			switch rapid.SampledFrom([]string{"bind", "bind", "fail", "anon", "form", "search", "search"}).Draw(rt, "act") {
			case "bind":
				log = append(log, fmt.Sprintf("#%d bind as %d", si, u))
				bindAs(rt, s.cl, users[u].String(), pws[u])
				s.who = u
				binds++
			case "fail":
				pw := rapid.SampledFrom([]string{"wrong", "", pws[u] + "x", pws[(u+1)%len(pws)]}).Draw(rt, "badpw")
				log = append(log, fmt.Sprintf("#%d bind as %d with %q", si, u, pw))
				r, err := s.cl.Do(opBind(users[u].String(), pw))
				if err != nil || r.Code == 0 {
					fail("bind as %s with %q: %v %+v", users[u], pw, err, r)
				}
				s.who = -1
			case "anon":
				log = append(log, fmt.Sprintf("#%d anonymous bind", si))
				if _, err := s.cl.Do(opBind("", "")); err != nil {
					fail("anonymous bind: %v", err)
				}
				s.who = -1
			case "form":
				op, what := genBindForm(rt, users[u].String())
				log = append(log, fmt.Sprintf("#%d bind as %d %s", si, u, what))
				r, err := s.cl.Do(op)
				if err == nil && r.Code == 0 {
					fail("bind as %s %s answered success", users[u], what)
				}
				forms++
				s.who = -1
				if err != nil {
					ss[si] = &session{w.srv.Dial("127.0.0.1"), -1}
				}
			case "search":
				log = append(log, fmt.Sprintf("#%d (%d) searches", si, s.who))
				r, err := s.cl.Do(opSearch(SearchReq{Base: base.String(), Scope: 2, Filter: filterAll()}))
				if err != nil {
					fail("search: %v", err)
				}
				may := s.who >= 0 || allow
				if (r.Code == 0) != may || (len(r.Entries) > 0) != may {
					fail("connection #%d, last bound as %d, anonymous access %v: search answered %d with %d entries", si, s.who, allow, r.Code, len(r.Entries))
				}
				if r.Code != 0 {
					ss[si] = &session{w.srv.Dial("127.0.0.1"), -1}
				}
				probes++
			}
		})
		ev.Note("probes", probes)
		ev.Note("binds", binds)
		ev.Note("binds of unusual form", forms)
		ev.Case(binds > 0 && probes > 1, strings.Join(log, "\n"), "source")
	})
}
