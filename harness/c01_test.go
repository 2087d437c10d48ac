package vh

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"testing"

	ber "github.com/go-asn1-ber/asn1-ber"
	"github.com/libregraph/idm/server"
	"pgregory.net/rapid"
)

var boltBases = []DN{
	{{{"dc", "lg"}}, {{"dc", "local"}}},
	{{{"o", "libregraph-idm"}}},
	{{{"ou", "Übung"}}, {{"o", "a, b"}}},
	{{{"dc", "x"}, {"o", "y"}}, {{"c", "de"}}},
}

// someBase draws a base. LDIF sources take names as text, so there it is a plain one.
func someBase(rt *rapid.T, text bool) DN {
	if text {
		return rapid.SampledFrom(boltBases[:2]).Draw(rt, "base")
	}
	return rapid.SampledFrom(boltBases).Draw(rt, "base")
}

// rootAttrs gives the attributes of the base entry.
func rootAttrs(base DN) []Attr {
	var out []Attr
	for _, a := range base[0] {
		out = append(out, Attr{a.T, []string{a.V}})
	}
	return append(out, Attr{"objectClass", []string{"top"}})
}

const adminPw = "admin-secret"

// boltWorld is a write-capable server with its model.
type boltWorld struct {
	srv    *Srv
	tree   *Tree
	admin  DN
	file   string
	base   DN
	dir    string
	log    []string
	writes int
	fails  int
	denied bool // the requester may not write
	keep   bool // writes leave the administrator's entry alone
	seen   []DN // names that came or went
	mixed  bool // attributes may come in several spellings
}

// mergeSpellings joins the attributes of an entry that have the same name.
func mergeSpellings(e Entry) Entry {
	at := map[string]int{}
	out := Entry{DN: e.DN}
	for _, a := range e.Attrs {
		i, ok := at[fold(a.N)]
		if !ok {
			at[fold(a.N)] = len(out.Attrs)
			out.Attrs = append(out.Attrs, Attr{a.N, append([]string(nil), a.V...)})
			continue
		}
		out.Attrs[i].V = append(out.Attrs[i].V, a.V...)
	}
	return out
}

// newBoltWorld starts a server on a fresh database holding base and admin.
func newBoltWorld(rt *rapid.T, mutate func(c *server.Config), extra ...Entry) *boltWorld {
	base := rapid.SampledFrom(boltBases).Draw(rt, "base")
	return newBoltWorldAt(rt, base, mutate, extra...)
}

func newBoltWorldAt(rt *rapid.T, base DN, mutate func(c *server.Config), extra ...Entry) *boltWorld {
	w := newBoltFile(rt, base, extra...)
	cfg := &server.Config{LDAPHandler: "boltdb", LDAPBaseDN: base.String(), LDAPAdminDN: w.admin.String(), BoltDBFile: w.file}
	if mutate != nil {
		mutate(cfg)
	}
	srv, err := startServer(cfg)
	if err != nil {
		rt.Fatalf("server does not start on a valid database: %v", err)
	}
	w.srv = srv
	return w
}

// newBoltFile creates the database and its model, but no server.
func newBoltFile(rt *rapid.T, base DN, extra ...Entry) *boltWorld {
	w := &boltWorld{base: base, dir: scratchDir("bolt")}
	w.file = join(w.dir, "t.db")
	w.admin = base.Child(RDN{{"cn", "admin"}})
	w.tree = newTree(base)
	init := []Entry{
		{base.String(), rootAttrs(base)},
		{w.admin.String(), []Attr{{"cn", []string{"admin"}}, {"objectClass", []string{"person"}}, {"userPassword", []string{adminPw}}}},
	}
	init = append(init, extra...)
	seedBolt(rt, w.file, base.String(), init)
	for _, e := range init {
		d, err := ParseDN(e.DN)
		must(err)
		n, v := w.tree.add(d, e.Attrs)
		if v != mustSucceed {
			infra("bad initial entry %s", e.DN)
		}
		w.tree = n
	}
	return w
}

func (w *boltWorld) stop() {
	w.srv.Stop()
	os.RemoveAll(w.dir)
}

func (w *boltWorld) logf(format string, args ...interface{}) {
	s := fmt.Sprintf(format, args...)
	w.log = append(w.log, s)
	journal("%s", s)
}

func bindAs(rt *rapid.T, cl *Client, dn, pw string) {
	r, err := cl.Do(opBind(dn, pw))
	if err != nil {
		rt.Fatalf("bind as %q: %v", dn, err)
	}
	if r.Code != 0 {
		rt.Fatalf("bind as %q with the right password refused: code %d %s", dn, r.Code, r.Diag)
	}
}

func search(rt *rapid.T, cl *Client, r SearchReq, controls ...*ber.Packet) *Res {
	res, err := cl.Do(opSearch(r), controls...)
	if err != nil {
		rt.Fatalf("search base=%q scope=%d: %v", r.Base, r.Scope, err)
	}
	return res
}

// dump compares the complete tree seen by cl with the model.
func (w *boltWorld) dump(rt *rapid.T, cl *Client) {
	r := search(rt, cl, SearchReq{Base: w.base.String(), Scope: 2, Filter: filterAll()})
	if r.Code != 0 {
		rt.Fatalf("search of the whole tree failed: code %d %s\nhistory:\n%s", r.Code, r.Diag, strings.Join(w.log, "\n"))
	}
	if w.mixed {
		for i, e := range r.Entries {
			r.Entries[i] = mergeSpellings(e)
		}
	}
	if d := w.tree.diffEntries(r.Entries, w.tree.inScope(w.base, 2)); d != "" {
		rt.Fatalf("tree differs from the history of accepted writes: %s\nhistory:\n%s", d, strings.Join(w.log, "\n"))
	}
}

// settle applies the outcome of a write to the model according to its verdict.
func (w *boltWorld) settle(rt *rapid.T, what string, code int64, next *Tree, v verdict) {
	if w.denied {
		v = mustFail
	}
	switch {
	case v == mustSucceed && code != 0:
		rt.Fatalf("%s must be accepted, got code %d\nhistory:\n%s", what, code, strings.Join(w.log, "\n"))
	case v == mustFail && code == 0:
		rt.Fatalf("%s must be refused, was accepted\nhistory:\n%s", what, strings.Join(w.log, "\n"))
	}
	if code == 0 {
		w.tree = next
		w.writes++
	} else {
		w.fails++
	}
}

// write is a generated write request and what the model says about it.
type write struct {
	what   string
	op     *ber.Packet
	next   *Tree
	v      verdict
	exists bool // if refused, then because the name is taken
}

// genWrite draws one write request against the tree.
func (t *Tree) genWrite(rt *rapid.T, wild int) write {
	k := rapid.IntRange(0, 11).Draw(rt, "op")
	switch {
	case k < 5:
		d := t.genTarget(rt, wild, 7)
		if t.has(d) && rapid.IntRange(0, 2).Draw(rt, "dupadd") > 0 {
			d = d.Child(genRDN(rt, wild))
		}
		attrs := genEntryAttrs(rt, d, wild)
		s := d.Respell(rt)
		next, v := t.add(d, attrs)
		return write{fmt.Sprintf("add %q %s", s, showAttrs(attrs)), opAdd(s, attrs), next, v, t.has(d)}
	case k < 7:
		d := t.genTarget(rt, wild, 1)
		s := d.Respell(rt)
		next, v := t.del(d)
		return write{fmt.Sprintf("delete %q", s), opDel(s), next, v, false}
	case k < 10:
		d := t.genTarget(rt, wild, 1)
		ch := t.genChanges(rt, d, wild, 4)
		s := d.Respell(rt)
		next, v := t.modify(d, ch)
		return write{fmt.Sprintf("modify %q: %s", s, showChanges(ch)), opModify(s, ch), next, v, false}
	}
	d := t.genTarget(rt, wild, 1)
	var nr RDN
	switch rapid.IntRange(0, 4).Draw(rt, "newrdn") {
	case 0:
		nr = t.genExisting(rt)[0]
	case 1:
		nr = append(RDN{}, d[0]...)
		nr[0].V += "2"
	default:
		nr = genRDN(rt, wild)
	}
	if d.Key() == d.Parent().Child(nr).Key() {
		nr = append(RDN{}, nr...)
		nr[0].V += "3"
	}
	del := rapid.Bool().Draw(rt, "deloldrdn")
	if rapid.IntRange(0, 7).Draw(rt, "self") == 0 {
		// To the name it has: refused or not, the entry stays as it is.
		s, ns := d.Respell(rt), d[0].String()
		next, v := t.rename(d, d[0], del)
		return write{fmt.Sprintf("rename %q to %q deleteold=%v", s, ns, del), opModDN(s, ns, del), next, v, false}
	}
	s, ns := d.Respell(rt), nr.Respell(rt)
	spelled, err := ParseDN(ns)
	must(err)
	next, v := t.rename(d, spelled[0], del)
	return write{fmt.Sprintf("rename %q to %q deleteold=%v", s, ns, del), opModDN(s, ns, del), next, v, t.has(d) && t.has(d.Parent().Child(nr))}
}

// spare replaces writes that would change the administrator's entry.
func (w *boltWorld) spare(g write) write {
	k := w.admin.Key()
	if e := g.next.m[k]; e != nil && diffEntry(Entry{w.admin.String(), mapToAttrs(e.attrs)}, w.tree.m[k]) == "" {
		return g
	}
	dn := w.base.Child(RDN{{"uid", "no such entry"}})
	return write{"delete a missing entry", opDel(dn.String()), w.tree, mustFail, false}
}

func mapToAttrs(m map[string][]string) []Attr {
	var as []Attr
	for k, v := range m {
		as = append(as, Attr{k, v})
	}
	return as
}

// step performs one random write through cl (bound as admin).
func (w *boltWorld) step(rt *rapid.T, cl *Client, wild int) {
	g := w.tree.genWrite(rt, wild)
	if w.keep {
		g = w.spare(g)
	}
	w.logf("%s", g.what)
	r, err := cl.Do(g.op)
	if err != nil {
		rt.Fatalf("%v\nhistory:\n%s", err, strings.Join(w.log, "\n"))
	}
	w.log[len(w.log)-1] += fmt.Sprintf(" -> %d", r.Code)
	w.settle(rt, g.what, r.Code, g.next, g.v)
	if g.exists && r.Code != 0 && r.Code != 68 && !w.denied {
		rt.Fatalf("%s answered %d instead of entryAlreadyExists\nhistory:\n%s", g.what, r.Code, strings.Join(w.log, "\n"))
	}
}

// probe runs one search and compares it with the model.
func (w *boltWorld) probe(rt *rapid.T, cl *Client, wild int) {
	w.lookAt(rt, cl, w.tree.genTarget(rt, wild, 1))
}

// revisit looks at the names that came or went since the tree was before, and at
// one of those that were seen at any time.
func (w *boltWorld) revisit(rt *rapid.T, cl *Client, before *Tree) {
	var changed []string
	dns := map[string]DN{}
	note := func(a, b *Tree) {
		for k, e := range a.m {
			if b.m[k] == nil {
				changed = append(changed, k)
				dns[k] = e.dn
			}
		}
	}
	note(before, w.tree)
	note(w.tree, before)
	sort.Strings(changed)
	for _, k := range changed {
		w.lookAt(rt, cl, dns[k])
		w.seen = append(w.seen, dns[k])
	}
	if len(w.seen) > 0 {
		w.lookAt(rt, cl, w.seen[rapid.IntRange(0, len(w.seen)-1).Draw(rt, "seen")])
	}
}

func (w *boltWorld) lookAt(rt *rapid.T, cl *Client, d DN) {
	sc := rapid.IntRange(0, 2).Draw(rt, "scope")
	s := d.Respell(rt)
	r := search(rt, cl, SearchReq{Base: s, Scope: sc, Filter: filterAll()})
	if r.Code != 0 && (w.tree.has(d) || r.Code != 32) {
		rt.Fatalf("search %q scope %d: code %d\nhistory:\n%s", s, sc, r.Code, strings.Join(w.log, "\n"))
	}
	if df := w.tree.diffEntries(r.Entries, w.tree.inScope(d, sc)); df != "" {
		rt.Fatalf("search %q scope %d: %s\nhistory:\n%s", s, sc, df, strings.Join(w.log, "\n"))
	}
}

// TestC01: any history of writes leaves exactly the tree the history describes.
func TestC01(t *testing.T) {
	run := func(rt *rapid.T, wild, mean int) {
		w := newBoltWorld(rt, nil)
		defer w.stop()
		cls := []*Client{w.srv.Dial("127.0.0.1"), w.srv.Dial("127.0.0.1")}
		for _, c := range cls {
			bindAs(rt, c, w.admin.Respell(rt), adminPw)
		}
		n := 0
		steps(rt, mean, func(rt *rapid.T) {
			before := w.tree
			w.step(rt, cls[n%2], wild)
			w.dump(rt, cls[(n+1)%2])
			w.revisit(rt, cls[n%2], before)
			if rapid.IntRange(0, 2).Draw(rt, "probe") == 0 {
				w.probe(rt, cls[0], wild)
			}
			n++
		})
		ev.Note("writes_accepted", w.writes)
		ev.Note("writes_refused", w.fails)
		ev.Note("tree_comparisons", n)
		ev.Case(w.writes >= 2, strings.Join(w.log, "\n"), fmt.Sprintf("wild%d", wild))
	}
	leg(t, "plain", 100, func(rt *rapid.T) { run(rt, 0, 15) })
	leg(t, "escapes", 150, func(rt *rapid.T) { run(rt, 2, 15) })
	leg(t, "long", 10, func(rt *rapid.T) { run(rt, 1, 80) })
	leg(t, "big", 15, func(rt *rapid.T) {
		w := newBoltWorld(rt, nil)
		defer w.stop()
		cls := []*Client{w.srv.Dial("127.0.0.1"), w.srv.Dial("127.0.0.1")}
		for _, c := range cls {
			bindAs(rt, c, w.admin.String(), adminPw)
		}
		es, shape := bigEntries(rt, w.base)
		w.logf("adding %d entries, %s", len(es), shape)
		for _, e := range es {
			d, err := ParseDN(e.DN)
			must(err)
			next, v := w.tree.add(d, e.Attrs)
			r, err := cls[0].Do(opAdd(e.DN, e.Attrs))
			if err != nil {
				rt.Fatalf("adding entry %d: %v", w.writes, err)
			}
			w.settle(rt, fmt.Sprintf("adding entry %d (%.200q)", w.writes, e.DN), r.Code, next, v)
		}
		w.dump(rt, cls[1])
		steps(rt, 8, func(rt *rapid.T) {
			w.step(rt, cls[0], 1)
			w.dump(rt, cls[1])
			w.probe(rt, cls[0], 1)
		})
		ev.Note("writes_accepted", w.writes)
		ev.Note("writes_refused", w.fails)
		ev.Case(w.writes > 20 || shape != "many", fmt.Sprintf("%d entries, %s, then\n%.4000s", len(es), shape, strings.Join(w.log[1:], "\n")), "big-"+shape)
	})
}
