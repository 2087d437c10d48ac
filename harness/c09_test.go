package vh

import (
	"fmt"
	"testing"

	"pgregory.net/rapid"
)

// indexedNames are attributes directory clients search by; the server keeps
// lookup tables for some kinds of terms on most of them.
var indexedNames = []string{"cn", "mail", "sn", "givenName", "objectClass", "memberUid", "ou", "uidNumber", "gidNumber", "uniqueMember",
	"mailAlternateAddress", "entryUUID", "samAccountName", "description", "title"}

// TestC09: the shape of a filter does not change what a search on an LDIF source
// finds: looking entries up is the same as examining every entry.
func TestC09(t *testing.T) {
	not := func(f *Filt) *Filt { return &Filt{Op: "not", Kids: []*Filt{f}} }
	run := func(rt *rapid.T, n, wild, depth int) {
		base := someBase(rt, true)
		k := rapid.IntRange(2, len(indexedNames)).Draw(rt, "nnames")
		off := rapid.IntRange(0, len(indexedNames)-1).Draw(rt, "noff")
		var names []string
		for i := 0; i < k; i++ {
			names = append(names, indexedNames[(off+i)%len(indexedNames)])
		}
		entries, pool := filterEntries(rt, base, rapid.IntRange(1, n).Draw(rt, "n"), wild, names)
		w := startLdif(rt, base.String(), entries, nil)
		defer w.stop()
		cl := w.srv.Dial("127.0.0.1")
		find := func(f *Filt, sb DN, scope int) []Entry {
			r := search(rt, cl, SearchReq{Base: sb.String(), Scope: scope, Filter: f.Packet()})
			if r.Code != 0 {
				rt.Fatalf("filter %s refused with code %d", f, r.Code)
			}
			return r.Entries
		}
		steps(rt, 12, func(rt *rapid.T) {
			f := pool.gen(rt, wild, depth)
			if depth == 2 && rapid.IntRange(0, 3).Draw(rt, "bigf") == 0 {
				f = bigFilter(rt, pool, wild)
			}
			sb, scope := base, 2
			if rapid.IntRange(0, 3).Draw(rt, "narrow") == 0 {
				d, err := ParseDN(entries[rapid.IntRange(0, len(entries)-1).Draw(rt, "nb")].DN)
				must(err)
				sb, scope = d, rapid.IntRange(0, 2).Draw(rt, "nsc")
			}
			want := matchKeys(entries, sb, scope, f)
			forms := map[string]*Filt{
				"as is":            f,
				"doubly negated":   not(not(f)),
				"and with true":    {Op: "and", Kids: []*Filt{f, {Op: "pres", Attr: "uid"}}},
				"or with itself":   {Op: "or", Kids: []*Filt{f, f}},
				"and with itself":  {Op: "and", Kids: []*Filt{f, f}},
				"below and and or": {Op: "and", Kids: []*Filt{{Op: "or", Kids: []*Filt{f, {Op: "eq", Attr: "cn", Val: "no such value"}}}}},
			}
			for _, name := range []string{"as is", "doubly negated", "and with true", "or with itself", "and with itself", "below and and or"} {
				g := forms[name]
				w2 := want
				if name == "and with true" {
					w2 = matchKeys(entries, sb, scope, g)
				}
				journal("%s", g)
				if d := diffKeys(find(g, sb, scope), w2); d != "" {
					rt.Fatalf("filter %s (%s of %s) base %q scope %d: %s\nentries:\n%s", g, name, f, sb, scope, d, ldifText(entries))
				}
			}
			var cls []string
			switch {
			case depth == 0:
				cls = append(cls, "leaf-"+f.Op)
			case f.has("not"):
				cls = append(cls, "with-not")
			case f.has("or"):
				cls = append(cls, "with-or")
			default:
				cls = append(cls, "and-only")
			}
			ev.Case(len(want) > 0 && len(want) < len(entries), fmt.Sprintf("%s on %d entries -> %d", f, len(entries), len(want)), cls...)
		})
	}
	leg(t, "leaf", 120, func(rt *rapid.T) { run(rt, 12, 1, 0) })
	leg(t, "tree", 160, func(rt *rapid.T) { run(rt, 12, 1, 3) })
	leg(t, "large", 12, func(rt *rapid.T) { run(rt, 120, 1, 2) })
}
