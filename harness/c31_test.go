package vh

import (
	"context"
	"errors"
	"fmt"
	"net"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/go-ldap/ldap/v3"
	"github.com/go-logr/logr"
	"github.com/libregraph/idm/pkg/ldapserver"
	"github.com/libregraph/idm/server"
	"pgregory.net/rapid"
)

// reply is what a recording handler answers.
type reply struct {
	code    int
	msg     string
	panics  bool
	entries []Entry
}

// recorder is a set of handlers that keep what they are called with.
type recorder struct {
	mu       sync.Mutex
	calls    []string
	closed   []string
	closeErr error
	next     reply
}

func (r *recorder) take() []string {
	r.mu.Lock()
	defer r.mu.Unlock()
	c := r.calls
	r.calls = nil
	return c
}

func (r *recorder) call(format string, args ...interface{}) (ldapserver.LDAPResultCode, error) {
	r.mu.Lock()
	r.calls = append(r.calls, fmt.Sprintf(format, args...))
	n := r.next
	r.mu.Unlock()
	if n.panics {
		panic("handler panic")
	}
	if n.msg != "" {
		return ldapserver.LDAPResultCode(n.code), errors.New(n.msg)
	}
	return ldapserver.LDAPResultCode(n.code), nil
}

// part is the handler registered for one suffix.
type part struct {
	r    *recorder
	name string
}

func (p part) Add(b string, q *ldap.AddRequest, c net.Conn) (ldapserver.LDAPResultCode, error) {
	return p.r.call("add %q by %q: %s %q", p.name, b, q.DN, attrText(q.Attributes))
}
func (p part) Bind(dn, pw string, c net.Conn) (ldapserver.LDAPResultCode, error) {
	return p.r.call("bind %q: %s %q", p.name, dn, pw)
}
func (p part) Delete(b string, q *ldap.DelRequest, c net.Conn) (ldapserver.LDAPResultCode, error) {
	return p.r.call("delete %q by %q: %s", p.name, b, q.DN)
}
func (p part) Modify(b string, q *ldap.ModifyRequest, c net.Conn) (ldapserver.LDAPResultCode, error) {
	s := ""
	for _, ch := range q.Changes {
		s += fmt.Sprintf("%d %s %q;", ch.Operation, ch.Modification.Type, ch.Modification.Vals)
	}
	return p.r.call("modify %q by %q: %s %s", p.name, b, q.DN, s)
}
func (p part) ModifyDN(b string, q *ldap.ModifyDNRequest, c net.Conn) (ldapserver.LDAPResultCode, error) {
	return p.r.call("rename %q by %q: %s %s %v", p.name, b, q.DN, q.NewRDN, q.DeleteOldRDN)
}
func (p part) ModifyPasswordExop(b string, q *ldap.PasswordModifyRequest, c net.Conn) (ldapserver.LDAPResultCode, error) {
	return p.r.call("password %q by %q: %s %q", p.name, b, q.UserIdentity, q.OldPassword)
}
func (p part) Search(b string, q *ldap.SearchRequest, c net.Conn) (ldapserver.ServerSearchResult, error) {
	code, err := p.r.call("search %q by %q: %s %d %d %q", p.name, b, q.BaseDN, q.Scope, q.SizeLimit, q.Attributes)
	res := ldapserver.ServerSearchResult{ResultCode: code}
	for _, e := range p.r.next.entries {
		res.Entries = append(res.Entries, ldapEntry(e.DN, e.Attrs))
	}
	return res, err
}
func (p part) Close(b string, c net.Conn) error {
	p.r.mu.Lock()
	p.r.closed = append(p.r.closed, fmt.Sprintf("%q %q", p.name, b))
	err := p.r.closeErr
	p.r.mu.Unlock()
	return err
}

func attrText(as []ldap.Attribute) string {
	s := ""
	for _, a := range as {
		s += fmt.Sprintf("%s=%q;", a.Type, a.Vals)
	}
	return s
}

func plainAttrText(as []Attr) string {
	s := ""
	for _, a := range as {
		s += fmt.Sprintf("%s=%q;", a.N, a.V)
	}
	return s
}

// route is the most specific of the suffixes the DN lies in.
func route(dn string, suffixes []string) (string, bool) {
	best, found := "", false
	for _, s := range suffixes {
		in := s == ""
		parts, sp := strings.Split(dn, ","), strings.Split(s, ",")
		if !in && len(parts) >= len(sp) {
			in = strings.Join(parts[len(parts)-len(sp):], ",") == s
		}
		if in && (!found || len(s) > len(best)) {
			best, found = s, true
		}
	}
	return best, found
}

// TestC31: the protocol library hands every request to the handler responsible for it and the handler's answer to the client.
func TestC31(t *testing.T) {
	cheapArgon()
	ldapserver.Logger(logr.Discard())
	leg(t, "dispatch", 250, func(rt *rapid.T) {
		rec := &recorder{}
		if rapid.IntRange(0, 2).Draw(rt, "closefails") == 0 {
			rec.closeErr = errors.New("close failed")
		}
		ls := ldapserver.NewServer()
		ls.EnforceLDAP = rapid.Bool().Draw(rt, "enforce")
		pool := []string{"", "o=a", "dc=x,o=a", "dc=y,o=a", "ou=p,dc=x,o=a", "o=b", "ou=p,o=b"}
		suffixes := map[string][]string{}
		for _, op := range []string{"add", "bind", "delete", "modify", "rename", "password", "search", "close"} {
			var l []string
			for _, s := range pool {
				if rapid.IntRange(0, 2).Draw(rt, op+s) > 0 {
					l = append(l, s)
				}
			}
			suffixes[op] = l
			for _, s := range l {
				p := part{rec, s}
				switch op {
				case "add":
					ls.AddFunc(s, p)
				case "bind":
					ls.BindFunc(s, p)
				case "delete":
					ls.DeleteFunc(s, p)
				case "modify":
					ls.ModifyFunc(s, p)
				case "rename":
					ls.ModifyDNFunc(s, p)
				case "password":
					ls.PasswordExOpFunc(s, p)
				case "search":
					ls.SearchFunc(s, p)
				case "close":
					ls.CloseFunc(s, p)
				}
			}
		}
		srv := &Srv{S: &server.Server{LDAPServer: ls}, ln: newMemListener(), port: 40000, served: make(chan struct{})}
		_, srv.cancel = context.WithCancel(context.Background())
		go func() {
			ls.Serve(srv.ln)
			close(srv.served)
		}()
		stopped := false
		defer func() {
			if !stopped {
				srv.Stop()
			}
		}()
		type session struct {
			cl    *Client
			bound string
		}
		var open []*session
		var ended []string
		// An answered request shows that the server handles the connection.
		dial := func() {
			cl := srv.Dial("127.0.0.1")
			if r, err := cl.Do(opDel("cn=n,o=a")); err != nil || r.Code == 0 {
				rt.Fatalf("anonymous delete: %v %+v", err, r)
			}
			open = append(open, &session{cl: cl})
		}
		for i := rapid.IntRange(1, 3).Draw(rt, "sessions"); i > 0; i-- {
			dial()
		}
		var log []string
		reached, refused := 0, 0
		for i := rapid.IntRange(1, 25).Draw(rt, "steps"); i > 0; i-- {
			if len(open) == 0 {
				dial()
			}
			s := open[rapid.IntRange(0, len(open)-1).Draw(rt, "who")]
			drop := func() {
				for k := range open {
					if open[k] == s {
						open = append(open[:k:k], open[k+1:]...)
						ended = append(ended, s.bound)
						return
					}
				}
			}
			suffix := rapid.SampledFrom([]string{"o=a", "dc=x,o=a", "dc=y,o=a", "ou=p,dc=x,o=a", "o=b", "ou=p,o=b", "o=c", "ou=q,dc=x,o=a", "ao=a", "xdc=x,o=a", "co=b"}).Draw(rt, "suffix")
			dn := suffix
			if rapid.IntRange(0, 4).Draw(rt, "exact") > 0 {
				dn = rapid.SampledFrom([]string{"cn=n", "uid=o", "cn=k1"}).Draw(rt, "rdn") + "," + suffix
			}
			op := rapid.SampledFrom([]string{"add", "bind", "bind", "delete", "modify", "rename", "password", "search", "search", "leave"}).Draw(rt, "op")
			n := reply{}
			if rapid.IntRange(0, 2).Draw(rt, "fails") == 0 {
				n.code = rapid.SampledFrom([]int{1, 16, 19, 20, 32, 34, 49, 50, 53, 64, 66, 68, 71, 80}).Draw(rt, "code")
				if op != "bind" && rapid.Bool().Draw(rt, "hasmsg") {
					n.msg = rapid.SampledFrom([]string{"no", "not änow", "100%s", "No Such Entry: CN=A,dc=x", " padded ", "two\nlines", "It ends here.", strings.Repeat("long text ", 60), "LDAP Result Code 32 \"No Such Object\": x"}).Draw(rt, "msg")
				}
			} else if rapid.IntRange(0, 24).Draw(rt, "panics") == 0 {
				n.panics = true
			}
			var entries []Entry
			if op == "search" {
				for k := rapid.IntRange(0, 5).Draw(rt, "entries"); k > 0; k-- {
					e := Entry{DN: fmt.Sprintf("cn=e%d,%s", k, rapid.SampledFrom([]string{dn, dn, "ou=sub," + dn, "o=elsewhere"}).Draw(rt, "at"))}
					if rapid.IntRange(0, 4).Draw(rt, "base") == 0 {
						e.DN = dn
					}
					e.Attrs = []Attr{{"cn", []string{fmt.Sprintf("e%d", k)}}}
					if rapid.Bool().Draw(rt, "more") {
						e.Attrs = append(e.Attrs, Attr{"mail", []string{rapid.SampledFrom([]string{"a@b", "x\x00y", "\xff"}).Draw(rt, "v"), "second"}})
					}
					entries = append(entries, e)
				}
				n.entries = entries
			}
			rec.mu.Lock()
			rec.next = n
			rec.mu.Unlock()
			handler, has := route(dn, suffixes[op])
			var res *Res
			var err error
			want := ""
			denied := false // refused by the library itself
			var wantEntries []Entry
			wantCode := n.code
			switch op {
			case "leave":
				s.cl.Close()
				s.cl.waitClosed(replyTimeout())
				drop()
				log = append(log, "leave")
				continue
			case "bind":
				pw := rapid.SampledFrom([]string{"pw", "p w", "\x00", "é"}).Draw(rt, "pw")
				want = fmt.Sprintf("bind %q: %s %q", handler, dn, pw)
				res, err = s.cl.Do(opBind(dn, pw))
			case "add":
				as := []Attr{{"cn", []string{"n"}}, {"Mail", rapid.SampledFrom([][]string{{"a", "\x00b"}, {"", "b"}, {"b", ""}, {"b", "b"}}).Draw(rt, "vals")}}[:rapid.IntRange(0, 2).Draw(rt, "attrs")]
				want = fmt.Sprintf("add %q by %q: %s %q", handler, s.bound, dn, plainAttrText(as))
				res, err = s.cl.Do(opAdd(dn, as))
			case "delete":
				want = fmt.Sprintf("delete %q by %q: %s", handler, s.bound, dn)
				res, err = s.cl.Do(opDel(dn))
			case "modify":
				var ch []Change
				txt := ""
				for k := rapid.IntRange(1, 3).Draw(rt, "changes"); k > 0; k-- {
					c := Change{Op: rapid.IntRange(0, 2).Draw(rt, "cop"), A: Attr{rapid.SampledFrom([]string{"cn", "Mail"}).Draw(rt, "ca"), rapid.SampledFrom([][]string{{"a"}, {"b", "a", "\xff"}, {"", "a"}, {"a", ""}, {"a", "a"}}).Draw(rt, "cv")}}
					ch = append(ch, c)
					txt += fmt.Sprintf("%d %s %q;", c.Op, c.A.N, c.A.V)
				}
				want = fmt.Sprintf("modify %q by %q: %s %s", handler, s.bound, dn, txt)
				res, err = s.cl.Do(opModify(dn, ch))
			case "rename":
				del := rapid.Bool().Draw(rt, "del")
				want = fmt.Sprintf("rename %q by %q: %s %s %v", handler, s.bound, dn, "cn=new", del)
				res, err = s.cl.Do(opModDN(dn, "cn=new", del))
			case "password":
				o, nw := "old", "new"
				want = fmt.Sprintf("password %q by %q: %s %q", handler, s.bound, dn, o)
				res, err = s.cl.Do(opPwMod(&dn, &o, &nw))
			case "search":
				q := SearchReq{Base: dn, Scope: rapid.IntRange(0, 2).Draw(rt, "scope"), Size: int64(rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(rt, "size")), Filter: pCtx(7, rapid.SampledFrom([]string{"cn", "mail"}).Draw(rt, "filter")), Attrs: []string{}}
				filter := q.Filter.Data.String()
				if rapid.IntRange(0, 2).Draw(rt, "sel") == 0 {
					q.Attrs = []string{"cn"}
				}
				want = fmt.Sprintf("search %q by %q: %s %d %d %q", handler, s.bound, dn, q.Scope, q.Size, q.Attrs)
				res, err = s.cl.Do(opSearch(q))
				if n.msg != "" || !has {
					break
				}
				if !ls.EnforceLDAP {
					wantEntries = entries
					break
				}
				base := mustDN(dn)
				for _, e := range entries {
					d := mustDN(e.DN)
					if len(e.get(filter)) == 0 || !inScope(d, base, q.Scope) {
						continue
					}
					if q.Size > 0 && int64(len(wantEntries)) == q.Size {
						wantCode = 4
						break
					}
					e.Attrs = selectAttrs(e.Attrs, q.Attrs)
					wantEntries = append(wantEntries, e)
				}
			}
			log = append(log, fmt.Sprintf("%s -> %+v", want, n))
			hist := strings.Join(log, "\n")
			calls := rec.take()
			if op != "bind" && op != "search" && s.bound == "" {
				denied = true
			}
			if err != nil && !(n.panics && errors.Is(err, errClosed)) {
				rt.Fatalf("%s: %v\n%s", op, err, hist)
			}
			switch {
			case denied || !has:
				refused++
				if len(calls) > 0 {
					rt.Fatalf("called %q for a request nobody is responsible for\n%s", calls, hist)
				}
				if err != nil {
					rt.Fatalf("no answer\n%s", hist)
				}
				if (res.Code == 0) != (op == "search") || len(res.Entries) > 0 {
					rt.Fatalf("answer %+v to a request nobody is responsible for\n%s", res, hist)
				}
			default:
				reached++
				if len(calls) != 1 || calls[0] != want {
					rt.Fatalf("calls are %q, must be %q\n%s", calls, want, hist)
				}
				if n.panics {
					if err == nil && res.Code == 0 {
						rt.Fatalf("success although the handler panicked\n%s", hist)
					}
					break
				}
				if res.Code != int64(wantCode) || wantCode == n.code && op != "search" && op != "bind" && res.Diag != n.msg {
					rt.Fatalf("the answer is %d %q, must be %d %q\n%s", res.Code, res.Diag, wantCode, n.msg, hist)
				}
				if len(res.Entries) != len(wantEntries) {
					rt.Fatalf("%d entries, must be %d\n%s", len(res.Entries), len(wantEntries), hist)
				}
				for k, e := range res.Entries {
					if e.DN != wantEntries[k].DN || plainAttrText(e.Attrs) != plainAttrText(wantEntries[k].Attrs) {
						rt.Fatalf("entry %+v, must be %+v\n%s", e, wantEntries[k], hist)
					}
				}
			}
			if err != nil {
				if op == "bind" {
					s.bound = ""
				}
				drop()
				continue
			}
			if op == "bind" {
				s.bound = ""
				if res.Code == 0 {
					s.bound = dn
				}
			}
		}
		for _, s := range open {
			ended = append(ended, s.bound)
		}
		srv.Stop()
		stopped = true
		// Every connection is reported as closed, once, to everybody who asked for it.
		wantClosed := map[string]int{}
		total := 0
		for _, b := range ended {
			for _, s := range suffixes["close"] {
				wantClosed[fmt.Sprintf("%q %q", s, b)]++
				total++
			}
		}
		end := time.Now().Add(replyTimeout())
		for ; time.Now().Before(end); time.Sleep(2 * time.Millisecond) {
			rec.mu.Lock()
			n := len(rec.closed)
			rec.mu.Unlock()
			if n >= total {
				break
			}
		}
		if time.Now().After(end) {
			hung.Store(true)
		}
		rec.mu.Lock()
		defer rec.mu.Unlock()
		for _, c := range rec.closed {
			wantClosed[c]--
		}
		for k, v := range wantClosed {
			if v != 0 {
				rt.Fatalf("close of %s (handler, session): %+d calls missing\n%s", k, v, strings.Join(log, "\n"))
			}
		}
		ev.Note("requests_handled", reached)
		ev.Note("requests_without_handler", refused)
		ev.Case(reached > 2, strings.Join(log, "\n"), fmt.Sprintf("enforce=%v", ls.EnforceLDAP))
	})
}

func mustDN(s string) DN {
	d, err := ParseDN(s)
	must(err)
	return d
}

func inScope(d, base DN, scope int) bool {
	switch scope {
	case 0:
		return d.Key() == base.Key()
	case 1:
		return len(d) == len(base)+1 && d.Under(base)
	}
	return d.Under(base)
}
