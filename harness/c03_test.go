package vh

import (
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/anishathalye/porcupine"
	ber "github.com/go-asn1-ber/asn1-ber"
	"github.com/libregraph/idm/server"
	"github.com/prometheus/client_golang/prometheus"
	"pgregory.net/rapid"
)

// call is one request of a concurrent history, and its answer.
type call struct {
	kind  string // add, del, mod, ren, search, bind, pw
	dn    DN
	scope int
	attrs []Attr
	ch    []Change
	rdn   RDN
	old   bool
	pw    string
}

func (c call) String() string {
	switch c.kind {
	case "add":
		return fmt.Sprintf("add %s %s", c.dn, showAttrs(c.attrs))
	case "mod":
		return fmt.Sprintf("modify %s %s", c.dn, showChanges(c.ch))
	case "ren":
		return fmt.Sprintf("rename %s to %s deleteold=%v", c.dn, c.rdn, c.old)
	case "search":
		return fmt.Sprintf("search %s scope %d", c.dn, c.scope)
	case "bind":
		return fmt.Sprintf("bind %s with %q", c.dn, c.pw)
	case "pw":
		return fmt.Sprintf("password of %s to %q", c.dn, c.pw)
	}
	return c.kind + " " + c.dn.String()
}

func (c call) packet() *ber.Packet {
	s := c.dn.String()
	switch c.kind {
	case "add":
		return opAdd(s, c.attrs)
	case "del":
		return opDel(s)
	case "mod":
		return opModify(s, c.ch)
	case "ren":
		return opModDN(s, c.rdn.String(), c.old)
	case "bind":
		return opBind(s, c.pw)
	case "pw":
		return opPwMod(&s, nil, &c.pw)
	}
	return opSearch(SearchReq{Base: s, Scope: c.scope, Filter: filterAll()})
}

type answer struct {
	code    int64
	entries []Entry
	err     error
}

// cstate is the directory and the password of the user in it.
type cstate struct {
	t   *Tree
	pw  string
	sum string // content of t
}

func (t *Tree) canon() string {
	var b strings.Builder
	for _, k := range t.keys() {
		e := t.m[k]
		fmt.Fprintf(&b, "%s|%s{", k, e.dn)
		var ns []string
		for n := range e.attrs {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			vs := append([]string(nil), e.attrs[n]...)
			sort.Strings(vs)
			fmt.Fprintf(&b, "%q=%q;", n, vs)
		}
		b.WriteString("}\n")
	}
	return b.String()
}

// stepModel says whether the answer is possible in this state.
func stepModel(st cstate, c call, a answer) (bool, cstate) {
	t, v := st.t, mustFail
	next := t
	switch c.kind {
	case "add":
		next, v = t.add(c.dn, c.attrs)
	case "del":
		next, v = t.del(c.dn)
	case "mod":
		next, v = t.modify(c.dn, c.ch)
	case "ren":
		next, v = t.rename(c.dn, c.rdn, c.old)
	case "pw":
		return a.code == 0, cstate{t, c.pw, st.sum}
	case "bind":
		return (a.code == 0) == (st.pw == c.pw), st
	case "search":
		if a.code != 0 {
			return !t.has(c.dn) && a.code == 32, st
		}
		want := t.inScope(c.dn, c.scope)
		if len(want) != len(a.entries) {
			return false, st
		}
		return t.diffEntries(a.entries, want) == "", st
	}
	if a.code == 0 {
		return v != mustFail, cstate{next, st.pw, next.canon()}
	}
	return v != mustSucceed, st
}

var treeModel = porcupine.Model{
	Step: func(st, in, out interface{}) (bool, interface{}) {
		ok, n := stepModel(st.(cstate), in.(call), out.(answer))
		return ok, n
	},
	Equal: func(a, b interface{}) bool {
		x, y := a.(cstate), b.(cstate)
		return x.pw == y.pw && x.sum == y.sum
	},
	DescribeOperation: func(in, out interface{}) string {
		a := out.(answer)
		s := fmt.Sprintf("%s -> %d", in.(call), a.code)
		for _, e := range a.entries {
			s += fmt.Sprintf(" [%s %s]", e.DN, showAttrs(e.Attrs))
		}
		return s
	},
}

// genCall draws a request that is likely to collide with others.
func genCall(rt *rapid.T, area DN, seq *int) call {
	names := []string{"a", "b", "c"}
	leaf := func() DN {
		d := area
		if rapid.IntRange(0, 2).Draw(rt, "deep") == 0 {
			d = d.Child(RDN{{"ou", rapid.SampledFrom(names[:2]).Draw(rt, "ou")}})
		}
		return d.Child(RDN{{"ou", rapid.SampledFrom(names).Draw(rt, "name")}})
	}
	user := area.Child(RDN{{"uid", "user"}})
	*seq++
	uniq := fmt.Sprintf("v%d", *seq)
	c := call{kind: rapid.SampledFrom([]string{"add", "add", "add", "del", "mod", "mod", "mod", "ren", "search", "search", "search", "pw", "bind"}).Draw(rt, "kind"), dn: leaf()}
	switch c.kind {
	case "add":
		c.attrs = []Attr{{"ou", []string{c.dn[0][0].V}}, {"description", []string{uniq}}, {"l", []string{uniq}}}
	case "mod":
		if rapid.IntRange(0, 2).Draw(rt, "who") == 0 {
			c.dn = user
		}
		switch rapid.IntRange(0, 2).Draw(rt, "change") {
		case 0:
			c.ch = []Change{{2, Attr{"description", []string{uniq}}}, {2, Attr{"l", []string{uniq}}}}
		case 1: // every one of these leaves a value
			c.ch = []Change{{0, Attr{"member", []string{uniq}}}}
		default: // fails as a whole if the second part does
			c.ch = []Change{{0, Attr{"member", []string{uniq}}}, {1, Attr{"member", []string{fmt.Sprintf("v%d", rapid.IntRange(1, *seq).Draw(rt, "old"))}}}}
		}
	case "ren":
		c.rdn = RDN{{"ou", rapid.SampledFrom(names).Draw(rt, "newname")}}
		c.old = rapid.Bool().Draw(rt, "deleteold")
		if c.dn.Parent().Child(c.rdn).Key() == c.dn.Key() {
			c.rdn = RDN{{"ou", "z"}}
		}
	case "search":
		c.scope = rapid.IntRange(0, 2).Draw(rt, "scope")
		if rapid.IntRange(0, 1).Draw(rt, "whole") == 0 {
			c.dn = area
		}
	case "pw", "bind":
		c.dn = user
		c.pw = rapid.SampledFrom([]string{"one", "two", "three"}).Draw(rt, "pw")
	}
	return c
}

// TestC03: concurrent clients see some sequential order of their requests.
func TestC03(t *testing.T) {
	cheapArgon()
	base := DN{{{"dc", "lg"}}, {{"dc", "local"}}}
	dir := scratchDir("conc")
	defer os.RemoveAll(dir)
	admin := base.Child(RDN{{"cn", "admin"}})
	area0 := 0
	var srv *Srv
	snapshots(t)
	leg(t, "linear", 100, func(rt *rapid.T) {
		if srv == nil {
			// One server serves all cases, each has its own part of the tree.
			seedBolt(rt, join(dir, "db"), base.String(), []Entry{
				{base.String(), []Attr{{"dc", []string{"lg"}}}},
				{admin.String(), []Attr{{"cn", []string{"admin"}}, {"userPassword", []string{adminPw}}}}})
			var err error
			srv, err = startServer(&server.Config{LDAPHandler: "boltdb", LDAPBaseDN: base.String(), LDAPAdminDN: admin.String(), BoltDBFile: join(dir, "db"), Metrics: prometheus.NewRegistry(), Logger: debugLogger()})
			if err != nil {
				rt.Fatalf("server does not start: %v", err)
			}
		}
		area0++
		area := base.Child(RDN{{"ou", fmt.Sprintf("case%d", area0)}})
		user := area.Child(RDN{{"uid", "user"}})
		seq := 0
		pipeline := rapid.IntRange(0, 3).Draw(rt, "pipelined") == 0
		nc, nr := rapid.IntRange(2, 5).Draw(rt, "clients"), 10
		if pipeline {
			nc, nr = minInt(nc, 3), 4
		}
		plans := make([][]call, nc)
		total := 0
		for i := range plans {
			for k := rapid.IntRange(2, nr).Draw(rt, "requests"); k > 0; k-- {
				plans[i] = append(plans[i], genCall(rt, area, &seq))
				total++
			}
		}
		procs := rapid.SampledFrom([]int{1, 2, 4, 8}).Draw(rt, "procs")
		defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(procs))
		setup := srv.Dial("127.0.0.1")
		bindAs(rt, setup, admin.String(), adminPw)
		init := newTree(base)
		for _, c := range []call{
			{kind: "add", dn: area, attrs: []Attr{{"ou", []string{area[0][0].V}}}},
			{kind: "add", dn: user, attrs: []Attr{{"uid", []string{"user"}}, {"member", []string{"v1"}}}},
		} {
			r, err := setup.Do(c.packet())
			if err != nil || r.Code != 0 {
				rt.Fatalf("%s: %v %+v", c, err, r)
			}
		}
		one := "one"
		us := user.String()
		if r, err := setup.Do(opPwMod(&us, nil, &one)); err != nil || r.Code != 0 {
			rt.Fatalf("password modify: %v %+v", err, r)
		}
		init, _ = init.add(base, nil)
		init, _ = init.add(area, []Attr{{"ou", []string{area[0][0].V}}})
		init, _ = init.add(user, []Attr{{"uid", []string{"user"}}, {"member", []string{"v1"}}})

		clients := make([]*Client, nc)
		for i := range clients {
			clients[i] = srv.Dial("127.0.0.1")
			bindAs(rt, clients[i], admin.String(), adminPw)
		}
		binders := make([]*Client, nc) // binds go over connections of their own
		for i := range binders {
			binders[i] = srv.Dial("127.0.0.1")
		}
		t0 := time.Now()
		ops := make([][]porcupine.Operation, nc)
		var wg sync.WaitGroup
		gate := make(chan struct{})
		for i := range plans {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-gate
				rec := func(c call, from time.Duration, r *Res, err error) {
					a := answer{err: err}
					if err == nil {
						a.code, a.entries = r.Code, stripPw(r.Entries)
					}
					ops[i] = append(ops[i], porcupine.Operation{ClientId: i, Input: c, Call: int64(from), Output: a, Return: int64(time.Since(t0))})
				}
				if !pipeline {
					for _, c := range plans[i] {
						cl := clients[i]
						if c.kind == "bind" {
							cl = binders[i]
						}
						from := time.Since(t0)
						r, err := cl.Do(c.packet())
						rec(c, from, r, err)
					}
					return
				}
				// All requests at once: each is open from the start.
				var buf []byte
				var sent []call
				for _, c := range plans[i] {
					if c.kind != "bind" {
						sent = append(sent, c)
						buf = append(buf, envelope(int64(1000+len(sent)), c.packet()).Bytes()...)
					}
				}
				from := time.Since(t0)
				go clients[i].sendRaw(buf)
				for k, c := range sent {
					r := &Res{}
					for {
						m, err := clients[i].next(replyTimeout())
						if err == nil && m.ID != int64(1001+k) {
							err = fmt.Errorf("message id %d instead of %d", m.ID, 1001+k)
						}
						if err != nil {
							rec(c, from, nil, err)
							return
						}
						if m.Tag == tagEntry {
							r.Entries = append(r.Entries, *m.Ent)
							continue
						}
						r.Code = m.Code
						break
					}
					rec(c, from, r, nil)
				}
			}(i)
		}
		close(gate)
		wg.Wait()
		// What is there in the end belongs to the history as well.
		var all []porcupine.Operation
		for _, o := range ops {
			all = append(all, o...)
		}
		last := call{kind: "search", dn: area, scope: 2}
		from := time.Since(t0)
		r, err := setup.Do(last.packet())
		a := answer{err: err}
		if err == nil {
			a.code, a.entries = r.Code, stripPw(r.Entries)
		}
		all = append(all, porcupine.Operation{ClientId: nc, Input: last, Call: int64(from), Output: a, Return: int64(time.Since(t0))})
		for _, cl := range append(append(clients, binders...), setup) {
			cl.Close()
		}
		show := func() string {
			sort.Slice(all, func(i, j int) bool { return all[i].Call < all[j].Call })
			var s []string
			for _, o := range all {
				s = append(s, fmt.Sprintf("client %d [%d..%d µs] %s", o.ClientId, o.Call/1000, o.Return/1000, treeModel.DescribeOperation(o.Input, o.Output)))
			}
			return strings.Join(s, "\n")
		}
		overlap := false
		for i := range all {
			if a := all[i].Output.(answer); a.err != nil {
				rt.Fatalf("%s: %v\n%s", all[i].Input, a.err, show())
			}
			for j := range all {
				overlap = overlap || all[i].ClientId != all[j].ClientId && all[i].Call < all[j].Return && all[j].Call < all[i].Return
			}
		}
		m := treeModel
		m.Init = func() interface{} { return cstate{init, one, init.canon()} }
		switch porcupine.CheckOperationsTimeout(m, all, 10*time.Second) {
		case porcupine.Illegal:
			rt.Fatalf("no sequential order of the requests explains the answers:\n%s", show())
		case porcupine.Unknown:
			ev.Note("histories_not_decided_in_time", 1)
		}
		var sig []string
		for _, p := range plans {
			sig = append(sig, fmt.Sprint(p))
		}
		ev.Note("requests", total)
		ev.Case(overlap, strings.Join(sig, "\n"), fmt.Sprintf("procs%d", procs))
	})
	if srv != nil {
		srv.Stop()
	}
}

func stripPw(es []Entry) []Entry {
	for i := range es {
		var as []Attr
		for _, a := range es[i].Attrs {
			if !strings.EqualFold(a.N, "userPassword") {
				as = append(as, a)
			}
		}
		es[i].Attrs = as
	}
	return es
}
