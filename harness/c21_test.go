package vh

import (
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"

	ber "github.com/go-asn1-ber/asn1-ber"
	"github.com/libregraph/idm/server"
	"pgregory.net/rapid"
)

// piped is one request of a pipeline and what must come back for it.
type piped struct {
	id    int64
	what  string
	op    *ber.Packet
	ctl   []*ber.Packet
	final int   // tag of the final response, 0 for none
	code  []int // allowed result codes, nil for any
	names []string
}

// genIDs gives n distinct message ids.
func genIDs(rt *rapid.T, n int) []int64 {
	style := rapid.IntRange(0, 2).Draw(rt, "idstyle")
	seen := map[int64]bool{}
	var out []int64
	for i := 0; len(out) < n; i++ {
		var id int64
		switch style {
		case 0:
			id = int64(i + 1)
		case 1:
			id = rapid.SampledFrom([]int64{1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 8388607, 8388608, 1 << 30, 1<<31 - 1}).Draw(rt, "id") - int64(i)
		default:
			id = rapid.Int64Range(1, 1<<31-1).Draw(rt, "id")
		}
		for id < 1 || seen[id] {
			id = id%(1<<31-1) + 1
		}
		seen[id] = true
		out = append(out, id)
	}
	return out
}

func junkControls(rt *rapid.T) []*ber.Packet {
	var out []*ber.Packet
	for i := rapid.IntRange(0, 6).Draw(rt, "nctl") - 4; i > 0; i-- {
		c := pSeq()
		c.AppendChild(pStr(rapid.SampledFrom([]string{"1.2.3.4", "2.16.840.1.113730.3.4.2", "1.3.6.1.4.1.4203.1.10.1"}).Draw(rt, "oid")))
		if rapid.Bool().Draw(rt, "withvalue") {
			c.AppendChild(pStr("xyz"))
		}
		out = append(out, c)
	}
	return out
}

// TestC21: every request is answered once, in kind, under its own id.
func TestC21(t *testing.T) {
	cheapArgon()
	// Long conversations and many of them.
	leg(t, "big", 12, func(rt *rapid.T) {
		base := DN{{{"o", "p"}}}
		admin := base.Child(RDN{{"cn", "admin"}})
		var es []Entry
		for i := 0; i < 8; i++ {
			es = append(es, Entry{base.Child(RDN{{"uid", fmt.Sprintf("u%d", i)}}).String(), []Attr{{"uid", []string{fmt.Sprintf("u%d", i)}}, {"userPassword", []string{"pw"}}}})
		}
		backend := rapid.SampledFrom([]string{"bolt", "ldif"}).Draw(rt, "backend")
		var srv *Srv
		if backend == "bolt" {
			w := newBoltWorldAt(rt, base, nil, es...)
			defer w.stop()
			srv = w.srv
		} else {
			w := startLdif(rt, base.String(), append([]Entry{{base.String(), []Attr{{"o", []string{"p"}}}},
				{admin.String(), []Attr{{"cn", []string{"admin"}}, {"userPassword", []string{adminPw}}}}}, es...), nil)
			defer w.stop()
			srv = w.srv
		}
		nconn := bigSize(rt, "conns", 150)
		per := bigSize(rt, "requests", 1500)
		if nconn > 20 {
			per = 20
		}
		kinds := rapid.SliceOfN(rapid.SampledFrom([]string{"search", "search", "bind", "compare", "ext", "modify", "none"}), 1, 6).Draw(rt, "kinds")
		inFlight := rapid.SampledFrom([]int{1, 1, 8, 1500}).Draw(rt, "inflight")
		var cls []*Client
		for c := 0; c < nconn; c++ {
			cl := srv.Dial("127.0.0.1")
			bindAs(rt, cl, admin.String(), adminPw)
			cls = append(cls, cl)
		}
		one := func(cl *Client, c int) error {
			tags := map[int64]int{}
			names := map[int64]string{}
			open, id := 0, int64(1)
			for i := 0; i < per || open > 0; {
				var buf []byte
				for ; i < per && open < inFlight; i++ {
					id++
					var op *ber.Packet
					switch kinds[(i+c)%len(kinds)] {
					case "search":
						names[id] = es[i%8].DN
						op, tags[id] = opSearch(SearchReq{Base: es[i%8].DN, Scope: 0, Filter: pCtx(7, "uid"), Attrs: []string{"uid"}}), tagDone
					case "bind":
						op, tags[id] = opBind(admin.String(), adminPw), tagBindResp
					case "compare":
						op, tags[id] = opCompare(es[i%8].DN, "uid", "u1"), tagCmpResp
					case "ext":
						op, tags[id] = opExt("1.2.3", nil), tagExtResp
					case "modify":
						op, tags[id] = opModify(es[i%8].DN, []Change{{modReplace, Attr{"sn", []string{"y"}}}}), tagModResp
					case "none":
						op, tags[id] = opSearch(SearchReq{Base: es[i%8].DN, Scope: 0, Filter: pCtx(7, "absent")}), tagDone
					}
					buf = append(buf, envelope(id, op).Bytes()...)
					open++
				}
				go cl.sendRaw(buf)
				for ok := true; ok && open > 0; ok = open >= inFlight || i >= per {
					m, err := cl.next(replyTimeout())
					if err != nil {
						return fmt.Errorf("%d requests sent, %d of them unanswered: %w", i, open, err)
					}
					if n, ok := names[m.ID]; ok && m.Tag == tagEntry && dnKeyOf(m.Ent.DN) == dnKeyOf(n) {
						delete(names, m.ID)
						continue
					}
					if tags[m.ID] != m.Tag || names[m.ID] != "" {
						return fmt.Errorf("after %d requests: message id %d type %d, expected type %d and entry %q", i, m.ID, m.Tag, tags[m.ID], names[m.ID])
					}
					if m.Tag == tagBindResp && m.Code != 0 {
						return fmt.Errorf("bind answered %d", m.Code)
					}
					delete(tags, m.ID)
					open--
				}
			}
			return nil
		}
		errs := make(chan error, nconn)
		for c, cl := range cls {
			go func(cl *Client, c int) { errs <- one(cl, c) }(cl, c)
		}
		for range cls {
			if err := <-errs; err != nil {
				rt.Fatalf("%s, %d connections, %d requests each (%v, %d at a time): %v", backend, nconn, per, kinds, inFlight, err)
			}
		}
		ev.Note("requests", nconn*per)
		ev.Case(nconn*per > 50, fmt.Sprint(backend, nconn, per, kinds, inFlight), "big")
	})
	start := func(rt *rapid.T, base DN) (*Srv, string, func()) {
		backend := rapid.SampledFrom([]string{"bolt", "ldif"}).Draw(rt, "backend")
		if backend == "bolt" {
			w := newBoltWorldAt(rt, base, nil)
			return w.srv, backend, w.stop
		}
		w := startLdif(rt, base.String(), []Entry{{base.String(), []Attr{{"o", []string{"p"}}}},
			{base.Child(RDN{{"cn", "admin"}}).String(), []Attr{{"cn", []string{"admin"}}, {"userPassword", []string{adminPw}}}}}, nil)
		return w.srv, backend, w.stop
	}
	// A client may be silent for long, at any point of the conversation. The
	// clock the server sets its read deadlines by runs a thousand times as fast.
	leg(t, "silent", 4, func(rt *rapid.T) {
		base := DN{{{"o", "p"}}}
		srv, backend, stop := start(rt, base)
		defer stop()
		srv.hurry = 1000
		bound, half := rapid.Bool().Draw(rt, "bound"), rapid.Bool().Draw(rt, "half")
		cl := srv.Dial("127.0.0.1")
		if bound {
			bindAs(rt, cl, base.Child(RDN{{"cn", "admin"}}).String(), adminPw)
		}
		raw := envelope(77, opBind(base.Child(RDN{{"cn", "admin"}}).String(), adminPw)).Bytes()
		if half {
			cl.sendRaw(raw[:len(raw)/2])
			raw = raw[len(raw)/2:]
		}
		pause := rapid.IntRange(100, 400).Draw(rt, "pause")
		time.Sleep(time.Duration(pause) * time.Millisecond)
		cl.sendRaw(raw)
		m, err := cl.next(replyTimeout())
		what := fmt.Sprintf("%s, bound=%v, in the middle of a request=%v, pause=%d", backend, bound, half, pause)
		if err != nil || m.ID != 77 || m.Tag != tagBindResp || m.Code != 0 {
			rt.Fatalf("request after a silence (%s): %v %+v", what, err, m)
		}
		ev.Case(true, what, "silent")
	})
	// Requests of many megabytes are requests like all others.
	leg(t, "heavy", 3, func(rt *rapid.T) {
		base := DN{{{"o", "p"}}}
		srv, backend, stop := start(rt, base)
		defer stop()
		cl := srv.Dial("127.0.0.1")
		admin := base.Child(RDN{{"cn", "admin"}}).String()
		bindAs(rt, cl, admin, adminPw)
		size := rapid.SampledFrom([]int{70000, 300000, 1 << 20, 3 << 20, 9 << 20, 17 << 20}).Draw(rt, "size") + rapid.IntRange(0, 1000).Draw(rt, "more")
		kind := rapid.SampledFrom([]string{"add", "compare", "ext", "search", "bind"}).Draw(rt, "kind")
		v := strings.Repeat("v", size)
		var op *ber.Packet
		tag := tagAddResp
		switch kind {
		case "add":
			op = opAdd(base.Child(RDN{{"cn", "heavy"}}).String(), []Attr{{"cn", []string{"heavy"}}, {"description", []string{v}}})
		case "compare":
			op, tag = opCompare(admin, "cn", v), tagCmpResp
		case "ext":
			op, tag = opExt("1.2.3", &v), tagExtResp
		case "search":
			op, tag = opSearch(SearchReq{Base: base.String(), Scope: 2, Filter: (&Filt{Op: "eq", Attr: "cn", Val: v}).Packet()}), tagDone
		case "bind":
			op, tag = opBind(admin, v), tagBindResp
		}
		what := fmt.Sprintf("%s of %d bytes (%s)", kind, size, backend)
		go cl.sendRaw(envelope(5, op).Bytes())
		m, err := cl.next(replyTimeout())
		if err != nil || m.ID != 5 || m.Tag != tag {
			rt.Fatalf("%s: %v %+v", what, err, m)
		}
		bindAs(rt, cl, admin, adminPw)
		ev.Case(size > 100000, what, "heavy")
	})
	for _, backend := range []string{"bolt", "ldif"} {
		backend := backend
		leg(t, backend, 250, func(rt *rapid.T) {
			base := DN{{{"o", "p"}}}
			admin := base.Child(RDN{{"cn", "admin"}})
			var es []Entry
			for i := 0; i < 8; i++ {
				es = append(es, Entry{base.Child(RDN{{"uid", fmt.Sprintf("u%d", i)}}).String(),
					[]Attr{{"uid", []string{fmt.Sprintf("u%d", i)}}, {"cn", []string{"same"}}, {"userPassword", []string{"pw"}}}})
			}
			allow := rapid.Bool().Draw(rt, "allow")
			var srv *Srv
			if backend == "bolt" {
				w := newBoltWorldAt(rt, base, func(c *server.Config) { c.LDAPAllowLocalAnonymousBind = allow }, es...)
				defer w.stop()
				srv = w.srv
			} else {
				all := append([]Entry{{base.String(), []Attr{{"o", []string{"p"}}}},
					{admin.String(), []Attr{{"cn", []string{"admin"}}, {"userPassword", []string{adminPw}}}}}, es...)
				w := startLdif(rt, base.String(), all, func(c *server.Config) { c.LDAPAllowLocalAnonymousBind = allow })
				defer w.stop()
				srv = w.srv
			}
			nconn := rapid.IntRange(1, 3).Draw(rt, "conns")
			var cls []*Client
			var plans [][]piped
			kinds := map[string]bool{}
			serial := 0
			for c := 0; c < nconn; c++ {
				cl := srv.Dial("127.0.0.1")
				cls = append(cls, cl)
				bound := rapid.Bool().Draw(rt, "bound")
				if bound {
					bindAs(rt, cl, admin.String(), adminPw)
				}
				var plan []piped
				n := rapid.IntRange(1, 18).Draw(rt, "requests")
				ids := genIDs(rt, n+1)
				authed := bound
				for i := 0; i < n; i++ {
					serial++
					p := piped{id: ids[i]}
					u := rapid.IntRange(0, 7).Draw(rt, "u")
					dn := es[u].DN
					fresh := base.Child(RDN{{"cn", fmt.Sprintf("new%d", serial)}})
					badDN := rapid.IntRange(0, 5).Draw(rt, "baddn") == 0
					if badDN {
						dn = rapid.SampledFrom([]string{"no dn", "uid=u1,o=elsewhere", ",,", "uid=missing,o=p", ""}).Draw(rt, "dn")
					}
					p.what = rapid.SampledFrom([]string{"bind", "badbind", "sasl", "search", "search", "search", "searchall", "limit", "badsearch", "add", "del", "modify", "moddn", "newsuperior", "compare", "ext", "pwmod", "abandon"}).Draw(rt, "kind")
					kinds[p.what] = true
					switch p.what {
					case "bind":
						p.op, p.final, p.code = opBind(admin.String(), adminPw), tagBindResp, []int{0}
						authed = true
					case "badbind":
						p.op, p.final = opBind(dn, "wrong"), tagBindResp
						authed = false
					case "sasl":
						p.op, p.final = opSASL("", "PLAIN"), tagBindResp
						authed = false
					case "search":
						p.op, p.final = opSearch(SearchReq{Base: dn, Scope: rapid.SampledFrom([]int{0, 2}).Draw(rt, "scope"), Filter: pCtx(7, "uid"), Attrs: []string{"uid"}}), tagDone
						if !badDN && (authed || allow) {
							p.names = []string{dn}
						}
					case "searchall":
						p.op, p.final = opSearch(SearchReq{Base: base.String(), Scope: 2, Filter: filterAll()}), tagDone
					case "limit":
						p.op, p.final = opSearch(SearchReq{Base: base.String(), Scope: 2, Size: int64(rapid.IntRange(1, 3).Draw(rt, "limit")), Filter: filterAll()}), tagDone
					case "badsearch":
						f := ber.Encode(ber.ClassContext, ber.TypeConstructed, ber.Tag(rapid.SampledFrom([]int{5, 6, 8}).Draw(rt, "ftag")), nil, "")
						f.AppendChild(pStr("uid"))
						f.AppendChild(pStr("u"))
						p.op, p.final = opSearch(SearchReq{Base: base.String(), Scope: 2, Filter: f}), tagDone
					case "add":
						p.op, p.final = opAdd(fresh.String(), []Attr{{"cn", []string{"x"}}}), tagAddResp
						if badDN {
							p.op = opAdd(dn, []Attr{{"cn", []string{"x"}}})
						}
					case "del":
						p.op, p.final = opDel(dn), tagDelResp
					case "modify":
						p.op, p.final = opModify(dn, []Change{{modReplace, Attr{"sn", []string{"y"}}}}), tagModResp
					case "moddn":
						p.op, p.final = opModDN(dn, fmt.Sprintf("uid=r%d", serial), true), tagModDNResp
					case "newsuperior":
						p.op, p.final = opModDN(dn, "uid=zz", true), tagModDNResp
						p.op.AppendChild(pCtx(0, "ou=x,"+base.String()))
					case "compare":
						p.op, p.final = opCompare(dn, "uid", "u1"), tagCmpResp
					case "ext":
						var body *string
						if rapid.Bool().Draw(rt, "body") {
							b := "zz"
							body = &b
						}
						p.op, p.final = opExt(rapid.SampledFrom([]string{"1.2.3", "1.3.6.1.4.1.1466.20037", "1.3.6.1.4.1.4203.1.11.3"}).Draw(rt, "oid"), body), tagExtResp
					case "pwmod":
						np := "newpw"
						if dn == "" {
							dn = "no dn" // the admin needs to keep the password
						}
						p.op, p.final = opPwMod(&dn, nil, &np), tagExtResp
					case "abandon":
						p.op = opAbandon(rapid.SampledFrom(ids).Draw(rt, "abandoned"))
					}
					if backend == "bolt" && p.names != nil {
						p.names = []string{"?" + dn} // other requests may have removed it
					}
					p.ctl = junkControls(rt)
					plan = append(plan, p)
				}
				plans = append(plans, plan)
			}
			show := func(c int) string {
				var sb strings.Builder
				for _, p := range plans[c] {
					fmt.Fprintf(&sb, "  id %d: %s\n", p.id, p.what)
				}
				return sb.String()
			}
			// Send every pipeline in arbitrary pieces, all connections at once.
			errs := make([]error, nconn)
			done := make(chan struct{}, nconn)
			for c := range plans {
				var buf []byte
				for _, p := range plans[c] {
					buf = append(buf, envelope(p.id, p.op, p.ctl...).Bytes()...)
					journal("conn %d id %d %s", c, p.id, p.what)
				}
				var cuts []int
				for k := rapid.IntRange(0, 4).Draw(rt, "ncuts"); k > 0; k-- {
					cuts = append(cuts, rapid.IntRange(0, len(buf)).Draw(rt, "cut"))
				}
				sort.Ints(cuts)
				cuts = append(cuts, len(buf))
				go func(c int) {
					at := 0
					for _, e := range cuts {
						if e > at {
							if err := cls[c].sendRaw(buf[at:e]); err != nil {
								errs[c] = err
								break
							}
							at = e
						}
					}
					done <- struct{}{}
				}(c)
			}
			for c := range plans {
				cl := cls[c]
				open := map[int64]piped{}
				got := map[int64][]Entry{}
				for _, p := range plans[c] {
					if p.final != 0 {
						open[p.id] = p
					}
				}
				for len(open) > 0 {
					m, err := cl.next(replyTimeout())
					if err != nil {
						var miss []string
						for id, p := range open {
							miss = append(miss, fmt.Sprintf("%d (%s)", id, p.what))
						}
						sort.Strings(miss)
						rt.Fatalf("connection %d: %v while waiting for the answers to %s\nsent:\n%s", c, err, strings.Join(miss, ", "), show(c))
					}
					p, ok := open[m.ID]
					if !ok {
						rt.Fatalf("connection %d: message with id %d and type %d belongs to no unanswered request\nsent:\n%s", c, m.ID, m.Tag, show(c))
					}
					if m.Tag == tagEntry && p.final == tagDone {
						got[m.ID] = append(got[m.ID], *m.Ent)
						continue
					}
					if m.Tag != p.final {
						rt.Fatalf("connection %d: request %d (%s) answered with message type %d instead of %d\nsent:\n%s", c, m.ID, p.what, m.Tag, p.final, show(c))
					}
					if p.code != nil && int(m.Code) != p.code[0] {
						rt.Fatalf("connection %d: request %d (%s) answered with code %d instead of %d\nsent:\n%s", c, m.ID, p.what, m.Code, p.code[0], show(c))
					}
					if p.names != nil {
						es := got[m.ID]
						want := strings.TrimPrefix(p.names[0], "?")
						opt := want != p.names[0]
						if len(es) > 1 || len(es) == 1 && dnKeyOf(es[0].DN) != dnKeyOf(want) || len(es) == 0 && !opt {
							rt.Fatalf("connection %d: request %d for %s was answered with the entries %v\nsent:\n%s", c, m.ID, want, es, show(c))
						}
					}
					delete(open, m.ID)
				}
			}
			for range plans {
				<-done
			}
			for c, cl := range cls {
				if errs[c] != nil {
					rt.Fatalf("connection %d: sending failed: %v\nsent:\n%s", c, errs[c], show(c))
				}
				// Still usable, and ended by the client's unbind alone.
				r, err := cl.DoID(1<<31-1, opBind(admin.String(), adminPw))
				if err != nil || r.Code != 0 {
					rt.Fatalf("connection %d is not usable after the requests: %v %+v\nsent:\n%s", c, err, r, show(c))
				}
				cl.sendRaw(envelope(5, opUnbind()).Bytes())
				if m, err := cl.next(replyTimeout()); err != errClosed {
					rt.Fatalf("connection %d: unbind answered with %+v %v", c, m, err)
				}
			}
			ev.Case(len(kinds) >= 3, fmt.Sprint(backend, show(0)), backend)
		})
	}
}
