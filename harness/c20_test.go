package vh

import (
	"fmt"
	"net"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	ber "github.com/go-asn1-ber/asn1-ber"
	"github.com/libregraph/idm/server"
	"pgregory.net/rapid"
)

const fuzzBase = "o=fuzz"

func fuzzEntries(n int, pad int) []Entry {
	es := []Entry{
		{fuzzBase, []Attr{{"o", []string{"fuzz"}}, {"objectClass", []string{"top"}}}},
		{"cn=admin," + fuzzBase, []Attr{{"cn", []string{"admin"}}, {"objectClass", []string{"top"}}, {"userPassword", []string{adminPw}}}},
	}
	for i := 0; i < n; i++ {
		u := fmt.Sprintf("u%d", i)
		es = append(es, Entry{"uid=" + u + "," + fuzzBase, []Attr{{"uid", []string{u}}, {"cn", []string{"User " + u}}, {"mail", []string{u + "@x"}},
			{"objectClass", []string{"top", "person"}}, {"description", []string{"d" + strings.Repeat("x", pad)}}, {"userPassword", []string{"pw"}}}})
	}
	return es
}

// victim is a running server process with a connection that watches it.
type victim struct {
	kind  string
	dir   string
	ch    *child
	watch *Client
	want  string
	cases int
	spent bool // passwords may have changed, not to be used for another case
}

func startVictim(rt *rapid.T, kind string, n, pad int, prefix ...string) *victim {
	v := &victim{kind: kind, dir: scratchDir("victim")}
	es := fuzzEntries(n, pad)
	args := []string{"--ldap-base-dn", fuzzBase, "--ldap-admin-dn", "cn=admin," + fuzzBase, "--log-level", "error"}
	if strings.Contains(kind, "debug") {
		args[len(args)-1] = "debug"
	}
	if strings.HasPrefix(kind, "bolt") {
		seedBolt(rt, join(v.dir, "db"), fuzzBase, es)
		args = append(args, "--ldap-handler", "boltdb", "--boltdb-file", join(v.dir, "db"))
	} else {
		must(os.WriteFile(join(v.dir, "main.ldif"), []byte(ldifText(es)), 0o644))
		args = append(args, "--ldap-handler", "ldif", "--ldif-main", join(v.dir, "main.ldif"), "--ldap-allow-local-anonymous")
		if strings.Contains(kind, "config") {
			must(os.WriteFile(join(v.dir, "config.ldif"), []byte("dn: cn=svc,"+fuzzBase+"\nuserPassword: svc\n"), 0o644))
			args = append(args, "--ldif-config", join(v.dir, "config.ldif"))
		}
	}
	if strings.Contains(kind, "metrics") {
		args = append(args, "--with-metrics", "--metrics-listen", freeAddr())
	}
	ch, err := startChildPrefix(v.dir, nil, prefix, args...)
	if err != nil {
		rt.Fatalf("the server does not start: %v", err)
	}
	v.ch = ch
	v.watch, err = ch.dial()
	must(err)
	bindAs(rt, v.watch, "cn=admin,"+fuzzBase, adminPw)
	v.want = v.dump(rt)
	return v
}

func (v *victim) stop() {
	v.watch.Close()
	v.ch.kill()
	os.RemoveAll(v.dir)
}

func (v *victim) dump(rt *rapid.T) string {
	r, err := v.watch.Do(opSearch(SearchReq{Base: fuzzBase, Scope: 2, Filter: pCtx(7, "objectClass")}))
	if err != nil {
		v.fail(rt, "a client that was connected before gets no answer: %v", err)
	}
	if r.Code != 0 {
		v.fail(rt, "a client that was connected before gets the result %d", r.Code)
	}
	var ls []string
	for _, e := range r.Entries {
		if e.DN == "uid=u4,"+fuzzBase {
			// The attacker's own password is theirs to change.
			var as []Attr
			for _, a := range e.Attrs {
				if !strings.EqualFold(a.N, "userPassword") {
					as = append(as, a)
				}
			}
			e.Attrs = as
		}
		ls = append(ls, e.DN+" "+showAttrs(e.Attrs))
	}
	sort.Strings(ls)
	return strings.Join(ls, "\n")
}

func (v *victim) fail(rt *rapid.T, format string, args ...interface{}) {
	// A crashing process takes a moment to be reaped.
	for i := 0; i < 200 && !v.ch.ended() && !strings.Contains(v.ch.out.String(), "goroutine "); i++ {
		time.Sleep(time.Millisecond)
	}
	if strings.Contains(v.ch.out.String(), "goroutine ") {
		select {
		case <-v.ch.done:
		case <-time.After(5 * time.Second):
		}
	}
	rt.Fatalf("%s\n%s", fmt.Sprintf(format, args...), v.ch.crashText())
}

// check: the process lives, old and new connections are served.
func (v *victim) check(rt *rapid.T, content bool) {
	got := v.dump(rt)
	if content && got != v.want {
		v.fail(rt, "the directory changed:\n%s\nwas\n%s", got, v.want)
	}
	c, err := v.ch.dial()
	if err != nil {
		v.fail(rt, "new connections are not accepted: %v", err)
	}
	defer c.Close()
	r, err := c.Do(opBind("cn=admin,"+fuzzBase, adminPw))
	if err != nil {
		v.fail(rt, "a new client gets no answer: %v", err)
	}
	if r.Code != 0 {
		if content {
			v.fail(rt, "a new client can not bind any more: %d", r.Code)
		}
		v.spent = true
	}
}

var fuzzOIDs = []string{pagingOID, pagingOID, "1.3.6.1.4.1.42.2.27.8.5.1", "2.16.840.1.113730.3.4.4", "2.16.840.1.113730.3.4.5", "2.16.840.1.113730.3.4.2",
	"1.3.6.1.4.1.4203.1.11.3", "1.2.840.113556.1.4.805", "1.2.840.113556.1.4.473", "1.2.840.113556.1.4.474", "1.2.840.113556.1.4.841",
	"1.2.840.113556.1.4.528", "1.2.840.113556.1.4.417", "1.2.840.113556.1.4.1504", "1.3.6.1.4.1.4203.1.9.1.1", "1.3.6.1.4.1.4203.1.9.1.2", "1.3.6.1.4.1.4203.1.9.1.3", "1.3.6.1.4.1.4203.1.9.1.4", "1.2.3.4"}

func fuzzControl(rt *rapid.T) *ber.Packet {
	c := pSeq()
	c.AppendChild(pStr(rapid.SampledFrom(fuzzOIDs).Draw(rt, "oid")))
	if rapid.IntRange(0, 3).Draw(rt, "crit") == 0 {
		c.AppendChild(pBool(rapid.Bool().Draw(rt, "critical")))
	}
	switch rapid.IntRange(0, 5).Draw(rt, "ctlvalue") {
	case 0:
	case 1:
		c.AppendChild(pStr(""))
	case 2:
		c.AppendChild(pStr(string(rapid.SliceOfN(rapid.Byte(), 0, 10).Draw(rt, "ctlbytes"))))
	default:
		s := pSeq()
		for i := rapid.IntRange(0, 4).Draw(rt, "nelem"); i > 0; i-- {
			switch rapid.IntRange(0, 3).Draw(rt, "elem") {
			case 0:
				s.AppendChild(pInt(rapid.Int64().Draw(rt, "int")))
			case 1:
				s.AppendChild(pStr(rapid.SampledFrom([]string{"", "x", "cookie"}).Draw(rt, "str")))
			case 2:
				s.AppendChild(pCtx(rapid.IntRange(0, 3).Draw(rt, "ctx"), "z"))
			default:
				s.AppendChild(pSeq())
			}
		}
		n := toNode(s)
		if rapid.Bool().Draw(rt, "damaged") {
			n.damage(rt)
		}
		c.AppendChild(pStr(string(n.bytes())))
	}
	return c
}

func fuzzFilter(rt *rapid.T, depth int) *ber.Packet {
	kind := rapid.SampledFrom([]string{"eq", "pres", "sub", "and", "or", "not", "ge", "approx", "ext"}).Draw(rt, "fkind")
	if depth == 0 && (kind == "and" || kind == "or" || kind == "not") {
		kind = "eq"
	}
	con := func(tag int, kids ...*ber.Packet) *ber.Packet {
		p := ber.Encode(ber.ClassContext, ber.TypeConstructed, ber.Tag(tag), nil, "")
		for _, k := range kids {
			p.AppendChild(k)
		}
		return p
	}
	attr := rapid.SampledFrom([]string{"uid", "cn", "objectClass", "mail", "", "x;y", "(", "userPassword"}).Draw(rt, "fattr")
	val := rapid.SampledFrom([]string{"u1", "", "*", "\\", "(", "\x00", "\xff\xfe", "User"}).Draw(rt, "fval")
	switch kind {
	case "eq":
		return con(3, pStr(attr), pStr(val))
	case "pres":
		return pCtx(7, attr)
	case "sub":
		s := pSeq()
		for i := rapid.IntRange(0, 3).Draw(rt, "nsub"); i > 0; i-- {
			s.AppendChild(pCtx(rapid.IntRange(0, 3).Draw(rt, "subtag"), val))
		}
		return con(4, pStr(attr), s)
	case "ge":
		return con(rapid.IntRange(5, 6).Draw(rt, "cmp"), pStr(attr), pStr(val))
	case "approx":
		return con(8, pStr(attr), pStr(val))
	case "ext":
		p := con(9)
		for i := 1; i <= 4; i++ {
			if rapid.Bool().Draw(rt, "extpart") {
				p.AppendChild(pCtx(i, val))
			}
		}
		return p
	case "not":
		return con(2, fuzzFilter(rt, depth-1))
	}
	p := con(map[string]int{"and": 0, "or": 1}[kind])
	for i := rapid.IntRange(0, 3).Draw(rt, "nkids"); i > 0; i-- {
		p.AppendChild(fuzzFilter(rt, depth-1))
	}
	return p
}

// fuzzOp builds a request of any kind; writes stay away from admin and base.
func fuzzOp(rt *rapid.T) (string, *ber.Packet) {
	dn := rapid.SampledFrom([]string{"uid=u1," + fuzzBase, "uid=u2," + fuzzBase, fuzzBase, "uid=new," + fuzzBase, "", "=", "uid", ",", "uid=\\zz," + fuzzBase, "uid=#04," + fuzzBase, "uid=#zz", "uid=a+", "\xff=\xff", "uid=x,o=y", "uid=\"q\"," + fuzzBase}).Draw(rt, "dn")
	val := rapid.SampledFrom([]string{"v", "", "\x00", "\xff", strings.Repeat("L", 3000)}).Draw(rt, "val")
	name := rapid.SampledFrom([]string{"sn", "", "uid", "userPassword", "x y", "\xff"}).Draw(rt, "name")
	kind := rapid.SampledFrom([]string{"bind", "search", "search", "add", "del", "modify", "modify", "moddn", "compare", "ext", "pwmod", "pwmod", "abandon", "unbind", "other"}).Draw(rt, "op")
	switch kind {
	case "bind":
		if rapid.IntRange(0, 3).Draw(rt, "sasl") == 0 {
			return kind, opSASL(dn, "PLAIN")
		}
		return kind, opBindV(rapid.SampledFrom([]int64{3, 3, 2, 0, -1, 300}).Draw(rt, "version"), dn, val)
	case "search":
		return kind, opSearch(SearchReq{Base: dn, Scope: rapid.SampledFrom([]int{0, 1, 2, 3, -1, 100}).Draw(rt, "scope"), Size: rapid.SampledFrom([]int64{0, 1, -1, 1 << 40, 2147483647}).Draw(rt, "size"),
			Filter: fuzzFilter(rt, 3), Attrs: rapid.SliceOfN(rapid.SampledFrom([]string{"uid", "*", "+", "1.1", "", "\xff"}), 0, 3).Draw(rt, "attrs")})
	case "add":
		return kind, opAdd(dn, []Attr{{name, []string{val}}, {"uid", nil}})
	case "del":
		return kind, opDel(dn)
	case "modify":
		return kind, opModify(dn, []Change{{rapid.IntRange(0, 2).Draw(rt, "mod"), Attr{name, []string{val}}}, {rapid.IntRange(0, 2).Draw(rt, "mod"), Attr{"sn", nil}}})
	case "moddn":
		return kind, opModDN(dn, rapid.SampledFrom([]string{"uid=r", "", "uid", "uid=a,uid=b", "uid=a+cn=b", "\xff"}).Draw(rt, "newrdn"), rapid.Bool().Draw(rt, "delold"))
	case "compare":
		return kind, opCompare(dn, name, val)
	case "ext":
		var b *string
		if rapid.Bool().Draw(rt, "hasbody") {
			x := string(rapid.SliceOfN(rapid.Byte(), 0, 10).Draw(rt, "body"))
			b = &x
		}
		return kind, opExt(rapid.SampledFrom([]string{"1.3.6.1.4.1.1466.20037", "1.3.6.1.4.1.4203.1.11.3", "", "x"}).Draw(rt, "exop"), b)
	case "pwmod":
		b := pwModBody(&dn, &val, nil)
		switch rapid.IntRange(0, 3).Draw(rt, "pwbody") {
		case 0:
			b = string(rapid.SliceOfN(rapid.Byte(), 0, 14).Draw(rt, "body"))
		case 1:
			n := pSeq()
			n.AppendChild(pCtx(0, dn))
			n.AppendChild(pCtx(2, val))
			x := toNode(n)
			x.damage(rt)
			b = string(x.bytes())
		}
		return kind, opExt(pwModOID, &b)
	case "abandon":
		return kind, opAbandon(rapid.Int64Range(-1, 5).Draw(rt, "abandon"))
	case "unbind":
		return kind, opUnbind()
	}
	return kind, pApp(rapid.IntRange(0, 30).Draw(rt, "apptag"))
}

// fuzzMessage returns bytes that are nearly, or not at all, an LDAP message.
func fuzzMessage(rt *rapid.T) (string, []byte) {
	if rapid.IntRange(0, 9).Draw(rt, "raw") == 9 {
		b := rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(rt, "bytes")
		return fmt.Sprintf("bytes %x", b), b
	}
	what, op := fuzzOp(rt)
	var ctl []*ber.Packet
	for i := rapid.IntRange(0, 5).Draw(rt, "nctl") - 3; i > 0; i-- {
		ctl = append(ctl, fuzzControl(rt))
	}
	n := toNode(envelope(rapid.SampledFrom([]int64{1, 2, 0, -1, 1 << 31, 1<<62 + 1}).Draw(rt, "id"), op, ctl...))
	for i := rapid.IntRange(0, 5).Draw(rt, "ndamage"); i > 0; i-- {
		what += "; " + n.damage(rt)
		if len(n.bytes()) > 200000 {
			break
		}
	}
	b := n.bytes()
	for i := rapid.IntRange(0, 9).Draw(rt, "nbytes") - 7; i > 0 && len(b) > 0; i-- {
		k := rapid.IntRange(0, len(b)-1).Draw(rt, "at")
		b[k] = rapid.Byte().Draw(rt, "byte")
		what += fmt.Sprintf("; byte %d", k)
	}
	return what, b
}

// TestC20: nothing a client sends ends the server or hurts other clients.
func TestC20(t *testing.T) {
	cheapArgon()
	type legDef struct {
		name, kind string
		auth       []string
		n          int
	}
	for _, l := range []legDef{
		{"bolt-outsider", "bolt", []string{"", "user"}, 700},
		{"bolt-admin", "bolt", []string{"", "user", "admin"}, 700},
		{"bolt-metrics", "bolt metrics debug", []string{"", "admin"}, 250},
		{"ldif", "ldif", []string{"", "user"}, 600},
		{"ldif-config", "ldif config debug", []string{"", "user", "admin"}, 250},
	} {
		l := l
		var v *victim
		leg(t, l.name, l.n, func(rt *rapid.T) {
			outsider := l.auth[len(l.auth)-1] == "user"
			if v != nil && (v.ch.ended() || v.spent || v.cases > 60 && !outsider) {
				v.stop()
				v = nil
			}
			if v == nil {
				v = startVictim(rt, l.kind, 5, 0)
			}
			v.cases++
			ok := false
			defer func() {
				if !ok { // a failed server is not used again
					v.stop()
					v = nil
				}
			}()
			var shown []string
			whole := 0
			for c := rapid.IntRange(1, 3).Draw(rt, "conns"); c > 0; c-- {
				conn, err := net.DialTimeout("tcp", v.ch.addr, replyTimeout())
				if err != nil {
					v.fail(rt, "new connections are not accepted: %v", err)
				}
				cl := newClient(conn)
				auth := rapid.SampledFrom(l.auth).Draw(rt, "auth")
				switch auth {
				case "user":
					// The password may be gone by an earlier request.
					if r, err := cl.Do(opBind("uid=u4,"+fuzzBase, "pw")); err != nil || r.Code != 0 && !v.spent {
						v.fail(rt, "bind with the right password: %v %+v", err, r)
					}
				case "admin": // may be changed by earlier requests
					if r, err := cl.Do(opBind("cn=admin,"+fuzzBase, adminPw)); err != nil {
						v.fail(rt, "bind: %v %+v", err, r)
					}
				}
				var buf []byte
				for m := rapid.IntRange(1, 4).Draw(rt, "messages"); m > 0; m-- {
					what, b := fuzzMessage(rt)
					if strings.HasPrefix(what, "pwmod") && auth == "user" {
						v.spent = true
					}
					journal("conn %d (%s): %s: %x", c, auth, what, b)
					shown = append(shown, fmt.Sprintf("[%s] %s", auth, what))
					buf = append(buf, b...)
					whole++
				}
				cut := rapid.IntRange(0, len(buf)).Draw(rt, "cut")
				cl.sendRaw(buf[:cut])
				cl.sendRaw(buf[cut:])
				switch rapid.IntRange(0, 3).Draw(rt, "end") {
				case 0: // reset without waiting for anything
					conn.(*net.TCPConn).SetLinger(0)
					conn.Close()
				default: // no more requests: the server has to end the connection
					conn.(*net.TCPConn).CloseWrite()
					if !cl.waitClosed(replyTimeout()) {
						hung.Store(true)
						v.fail(rt, "the server neither answers nor ends a connection without further requests\n%s", strings.Join(shown, "\n"))
					}
					conn.Close()
				}
			}
			v.check(rt, outsider)
			ok = true
			ev.Case(whole > 0, strings.Join(shown, " | "), l.name)
		})
		if v != nil {
			v.stop()
		}
	}

	// Clients that do not read their results or do not finish their requests.
	leg(t, "stalled", 4, func(rt *rapid.T) {
		kind := rapid.SampledFrom([]string{"bolt", "ldif"}).Draw(rt, "kind")
		// Far more than the network buffers hold.
		v := startVictim(rt, kind, 150, 10000)
		defer v.stop()
		n := rapid.IntRange(2, 12).Draw(rt, "clients")
		var conns []net.Conn
		for i := 0; i < n; i++ {
			conn, err := net.DialTimeout("tcp", v.ch.addr, replyTimeout())
			if err != nil {
				v.fail(rt, "new connections are not accepted: %v", err)
			}
			conns = append(conns, conn)
			conn.(*net.TCPConn).SetReadBuffer(4096)
			conn.SetWriteDeadline(time.Now().Add(2 * time.Second))
			var buf []byte
			buf = append(buf, envelope(1, opBind("cn=admin,"+fuzzBase, adminPw)).Bytes()...)
			for k := rapid.IntRange(8, 60).Draw(rt, "requests"); k > 0; k-- {
				buf = append(buf, envelope(2, opSearch(SearchReq{Base: fuzzBase, Scope: 2, Filter: pCtx(7, "objectClass")})).Bytes()...)
			}
			if rapid.Bool().Draw(rt, "unfinished") {
				buf = buf[:len(buf)-rapid.IntRange(1, 20).Draw(rt, "missing")]
			}
			conn.Write(buf)
		}
		v.check(rt, true)
		time.Sleep(500 * time.Millisecond) // the buffers are full by now
		v.check(rt, true)
		if kind == "bolt" {
			r, err := v.watch.Do(opAdd("uid=w,"+fuzzBase, []Attr{{"uid", []string{"w"}}}))
			if err != nil || r.Code != 0 {
				v.fail(rt, "write with stalled clients present: %v %+v", err, r)
			}
			r, err = v.watch.Do(opDel("uid=w," + fuzzBase))
			if err != nil || r.Code != 0 {
				v.fail(rt, "write with stalled clients present: %v %+v", err, r)
			}
		}
		for _, c := range conns {
			c.(*net.TCPConn).SetLinger(0)
			c.Close()
		}
		v.check(rt, true)
		ev.Case(true, fmt.Sprint(kind, n), "stalled")
	})

	// Deep nesting, far beyond any filter but below the known limit.
	leg(t, "deep", 2, func(rt *rapid.T) {
		v := startVictim(rt, rapid.SampledFrom([]string{"bolt", "ldif"}).Draw(rt, "kind"), 3, 0)
		defer v.stop()
		depth := rapid.IntRange(1000, 100000).Draw(rt, "depth")
		conn, err := net.DialTimeout("tcp", v.ch.addr, replyTimeout())
		must(err)
		cl := newClient(conn)
		cl.sendRaw([]byte(strings.Repeat("\x30\x80", depth)))
		conn.(*net.TCPConn).CloseWrite()
		if !cl.waitClosed(replyTimeout()) {
			v.fail(rt, "connection with a deeply nested message not ended")
		}
		v.check(rt, true)
		ev.Case(true, fmt.Sprint("nesting ", depth), "deep")
	})

	// The known finding: far deeper nesting overflows the stack of the decoder.
	if shard == 0 {
		leg(t, "known", 1, func(rt *rapid.T) {
			v := startVictim(rt, "bolt", 1, 0)
			defer v.stop()
			conn, err := net.DialTimeout("tcp", v.ch.addr, replyTimeout())
			must(err)
			cl := newClient(conn)
			cl.sendRaw([]byte(strings.Repeat("\x30\x80", 2500000)))
			conn.(*net.TCPConn).CloseWrite()
			cl.waitClosed(replyTimeout())
			select {
			case <-v.ch.done:
			case <-time.After(300 * time.Millisecond):
			}
			out := v.ch.out.String()
			if v.ch.ended() && strings.Contains(out, "stack exceeds") && strings.Contains(out, "asn1-ber") {
				ev.Note("known finding reproduced", 1)
				return
			}
			v.check(rt, true)
			ev.Note("known finding not reproduced", 1)
		})
	}

	// Failures of accepting a connection are passing events.
	leg(t, "accept", 60, func(rt *rapid.T) {
		dir := scratchDir("accept")
		defer os.RemoveAll(dir)
		seedBolt(rt, join(dir, "db"), fuzzBase, fuzzEntries(2, 0))
		srv, err := startServerOn(&server.Config{LDAPHandler: "boltdb", LDAPBaseDN: fuzzBase, LDAPAdminDN: "cn=admin," + fuzzBase, BoltDBFile: join(dir, "db")}, func(l *memListener) net.Listener {
			return &faultyListener{memListener: l}
		})
		if err != nil {
			rt.Fatalf("server does not start: %v", err)
		}
		defer srv.Stop()
		fl := srv.netLn.(*faultyListener)
		faults := 0
		for i := rapid.IntRange(1, 5).Draw(rt, "rounds"); i > 0; i-- {
			n := rapid.IntRange(0, 3).Draw(rt, "faults")
			faults += n
			fl.inject(n, rapid.SampledFrom([]error{syscall.EMFILE, syscall.ENFILE, syscall.EINTR}).Draw(rt, "errno"))
			cl, ok := srv.tryDial("10.0.0.1", replyTimeout())
			if !ok {
				hung.Store(true)
				rt.Fatalf("after %d failed accept calls the server takes no connections any more", faults)
			}
			bindAs(rt, cl, "cn=admin,"+fuzzBase, adminPw)
			cl.Close()
		}
		ev.Case(faults > 0, fmt.Sprint("accept faults ", faults), "accept")
	})

	// Connections that are left open do not keep others out.
	leg(t, "idle", 25, func(rt *rapid.T) {
		dir := scratchDir("idle")
		defer os.RemoveAll(dir)
		seedBolt(rt, join(dir, "db"), fuzzBase, fuzzEntries(2, 0))
		srv, err := startServer(&server.Config{LDAPHandler: "boltdb", LDAPBaseDN: fuzzBase, LDAPAdminDN: "cn=admin," + fuzzBase, BoltDBFile: join(dir, "db")})
		if err != nil {
			rt.Fatalf("server does not start: %v", err)
		}
		defer srv.Stop()
		host := rapid.SampledFrom([]string{"10.0.0.1", "127.0.0.1"}).Draw(rt, "host")
		part := envelope(1, opBind("cn=admin,"+fuzzBase, adminPw)).Bytes()
		n := bigSize(rt, "idle", 2500)
		var idle []*Client
		for i := 0; i < n; i++ {
			cl, ok := srv.tryDial(host, replyTimeout())
			if !ok {
				hung.Store(true)
				rt.Fatalf("with %d open connections the server takes no further one", i)
			}
			switch i % 5 {
			case 1: // an unfinished request
				cl.sendRaw(part[:len(part)/2])
			case 2:
				bindAs(rt, cl, "cn=admin,"+fuzzBase, adminPw)
			}
			idle = append(idle, cl)
		}
		cl := srv.Dial("10.0.0.2")
		bindAs(rt, cl, "cn=admin,"+fuzzBase, adminPw)
		for _, i := range []int{0, n / 2, n - 1} {
			if i%5 == 1 {
				idle[i].sendRaw(part[len(part)/2:])
				continue
			}
			bindAs(rt, idle[i], "cn=admin,"+fuzzBase, adminPw)
		}
		ev.Case(n > 20, fmt.Sprint("idle connections ", n), "idle")
	})

	// The same with a real shortage of file descriptors.
	leg(t, "descriptors", 1, func(rt *rapid.T) {
		if _, err := exec.LookPath("prlimit"); err != nil {
			ev.Note("descriptor shortage not exercised", 1)
			return
		}
		lim := rapid.IntRange(30, 60).Draw(rt, "limit")
		v := startVictim(rt, rapid.SampledFrom([]string{"bolt", "ldif"}).Draw(rt, "kind"), 2, 0, "prlimit", fmt.Sprintf("--nofile=%d", lim))
		defer v.stop()
		var conns []net.Conn
		for i := 0; i < lim+30; i++ {
			c, err := net.DialTimeout("tcp", v.ch.addr, 2*time.Second)
			if err != nil {
				break
			}
			conns = append(conns, c)
		}
		if v.dump(rt) != v.want {
			v.fail(rt, "wrong answer while out of descriptors")
		}
		for _, c := range conns {
			c.Close()
		}
		v.check(rt, true)
		ev.Case(true, fmt.Sprint("descriptor limit ", lim), "descriptors")
	})
}

// faultyListener fails on demand, as accept(2) may.
type faultyListener struct {
	*memListener
	left atomic.Int64
	err  atomic.Value
}

func (l *faultyListener) inject(n int, err error) {
	l.err.Store(errBox{err})
	l.left.Store(int64(n))
}

type errBox struct{ error }

func (l *faultyListener) Accept() (net.Conn, error) {
	for {
		c, err := l.memListener.Accept()
		if err != nil {
			return nil, err
		}
		if l.left.Load() > 0 {
			// The connection stays in the backlog, accept fails.
			l.left.Add(-1)
			go func() {
				select {
				case l.memListener.ch <- c:
				case <-l.memListener.done:
				}
			}()
			e := l.err.Load().(errBox).error
			return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.Addr(), Err: os.NewSyscallError("accept4", e)}
		}
		return c, nil
	}
}
