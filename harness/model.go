package vh

import (
	"fmt"
	"sort"
	"strings"

	ber "github.com/go-asn1-ber/asn1-ber"
	"pgregory.net/rapid"
)

// ---- reference model of the directory tree -----------------------------------

type mEntry struct {
	dn    DN
	attrs map[string][]string // folded name -> values
}

func (e *mEntry) clone() *mEntry {
	n := &mEntry{dn: e.dn, attrs: map[string][]string{}}
	for k, v := range e.attrs {
		n.attrs[k] = append([]string(nil), v...)
	}
	return n
}

type Tree struct {
	base DN
	m    map[string]*mEntry
}

func newTree(base DN) *Tree { return &Tree{base: base, m: map[string]*mEntry{}} }

func (t *Tree) clone() *Tree {
	n := newTree(t.base)
	for k, e := range t.m {
		n.m[k] = e.clone()
	}
	return n
}

func (t *Tree) keys() []string {
	var ks []string
	for k := range t.m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (t *Tree) has(d DN) bool { return t.m[d.Key()] != nil }

func (t *Tree) children(d DN) int {
	n := 0
	for _, e := range t.m {
		if len(e.dn) == len(d)+1 && e.dn.Parent().Key() == d.Key() {
			n++
		}
	}
	return n
}

// inScope lists the keys of the entries a search from base returns.
func (t *Tree) inScope(base DN, scope int) []string {
	var out []string
	if !t.has(base) {
		return nil
	}
	for k, e := range t.m {
		switch scope {
		case 0:
			if k == base.Key() {
				out = append(out, k)
			}
		case 1:
			if len(e.dn) == len(base)+1 && e.dn.Under(base) {
				out = append(out, k)
			}
		case 2:
			if e.dn.Under(base) {
				out = append(out, k)
			}
		}
	}
	sort.Strings(out)
	return out
}

// verdict says what the specification allows for an operation.
type verdict int

const (
	mustFail verdict = iota
	mustSucceed
	mayEither // succeed with the modelled effect or be refused without effect
)

func attrsToMap(attrs []Attr) map[string][]string {
	m := map[string][]string{}
	for _, a := range attrs {
		m[fold(a.N)] = append(m[fold(a.N)], a.V...)
	}
	return m
}

func (t *Tree) add(d DN, attrs []Attr) (*Tree, verdict) {
	if len(d) == 0 || !d.Under(t.base) || t.has(d) {
		return t, mustFail
	}
	if d.Key() != t.base.Key() && !t.has(d.Parent()) {
		return t, mustFail
	}
	n := t.clone()
	n.m[d.Key()] = &mEntry{dn: d, attrs: attrsToMap(attrs)}
	return n, mustSucceed
}

func (t *Tree) del(d DN) (*Tree, verdict) {
	if !t.has(d) || t.children(d) > 0 || d.Key() == t.base.Key() {
		return t, mustFail
	}
	n := t.clone()
	delete(n.m, d.Key())
	return n, mustSucceed
}

func indexFold(vals []string, v string) int {
	for i, x := range vals {
		if fold(x) == fold(v) {
			return i
		}
	}
	return -1
}

// applyChanges applies a modify request to one entry.
func applyChanges(e *mEntry, changes []Change) (*mEntry, verdict) {
	n := e.clone()
	res := mustSucceed
	rdn := e.dn[0]
	for _, c := range changes {
		k := fold(c.A.N)
		switch c.Op {
		case modAdd:
			if len(c.A.V) == 0 {
				res = mayEither
			}
			for _, v := range c.A.V {
				if indexFold(n.attrs[k], v) >= 0 {
					res = mayEither
					continue
				}
				n.attrs[k] = append(n.attrs[k], v)
			}
		case modReplace:
			n.attrs[k] = append([]string(nil), c.A.V...)
		case modDelete:
			if len(c.A.V) == 0 {
				if len(n.attrs[k]) == 0 {
					res = mayEither
				}
				n.attrs[k] = nil
			}
			for _, v := range c.A.V {
				i := indexFold(n.attrs[k], v)
				if i < 0 {
					res = mayEither
					continue
				}
				n.attrs[k] = append(append([]string(nil), n.attrs[k][:i]...), n.attrs[k][i+1:]...)
			}
		}
		// An intermediate state without a naming value may be refused.
		for _, a := range rdn {
			if indexFold(n.attrs[fold(a.T)], a.V) < 0 {
				res = mayEither
			}
		}
		if len(n.attrs[k]) == 0 {
			delete(n.attrs, k)
		}
	}
	for _, a := range rdn {
		had := indexFold(e.attrs[fold(a.T)], a.V) >= 0
		if had && indexFold(n.attrs[fold(a.T)], a.V) < 0 {
			return e, mustFail
		}
	}
	return n, res
}

func (t *Tree) modify(d DN, changes []Change) (*Tree, verdict) {
	e := t.m[d.Key()]
	if e == nil {
		return t, mustFail
	}
	ne, v := applyChanges(e, changes)
	if v == mustFail {
		return t, mustFail
	}
	n := t.clone()
	n.m[d.Key()] = ne
	return n, v
}

func (t *Tree) rename(d DN, newRDN RDN, deleteOld bool) (*Tree, verdict) {
	e := t.m[d.Key()]
	if e == nil || t.children(d) > 0 || d.Key() == t.base.Key() {
		return t, mustFail
	}
	nd := d.Parent().Child(newRDN)
	if t.has(nd) {
		if nd.Key() == d.Key() {
			return t, mayEither
		}
		return t, mustFail
	}
	ne := e.clone()
	ne.dn = nd
	inNew := func(a AVA) bool {
		for _, b := range newRDN {
			if fold(a.T) == fold(b.T) && fold(a.V) == fold(b.V) {
				return true
			}
		}
		return false
	}
	if deleteOld {
		for _, a := range d[0] {
			k := fold(a.T)
			if i := indexFold(ne.attrs[k], a.V); i >= 0 && !inNew(a) {
				ne.attrs[k] = append(append([]string(nil), ne.attrs[k][:i]...), ne.attrs[k][i+1:]...)
				if len(ne.attrs[k]) == 0 {
					delete(ne.attrs, k)
				}
			}
		}
	}
	for _, a := range newRDN {
		k := fold(a.T)
		if indexFold(ne.attrs[k], a.V) < 0 {
			ne.attrs[k] = append(ne.attrs[k], a.V)
		}
	}
	n := t.clone()
	delete(n.m, d.Key())
	n.m[nd.Key()] = ne
	return n, mustSucceed
}

// ---- comparison --------------------------------------------------------------

func showVals(v []string) string {
	s := fmt.Sprintf("%q", v)
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

// diffEntry compares what the server returned with the model entry.
func diffEntry(got Entry, want *mEntry) string {
	g := got.byName()
	seen := map[string]bool{}
	for _, a := range got.Attrs {
		if seen[fold(a.N)] {
			return fmt.Sprintf("attribute %q returned more than once", a.N)
		}
		seen[fold(a.N)] = true
		if len(a.V) == 0 {
			return fmt.Sprintf("attribute %q returned without values", a.N)
		}
	}
	for k, w := range want.attrs {
		w = append([]string(nil), w...)
		sort.Strings(w)
		if strings.Join(w, "\x00,") != strings.Join(g[k], "\x00,") || len(w) != len(g[k]) {
			return fmt.Sprintf("attribute %q: got %s, want %s", k, showVals(g[k]), showVals(w))
		}
	}
	for k := range g {
		if len(want.attrs[k]) == 0 {
			return fmt.Sprintf("unexpected attribute %q = %s", k, showVals(g[k]))
		}
	}
	return ""
}

// diffEntries compares a result list with the expected keys of the model.
func (t *Tree) diffEntries(got []Entry, want []string) string {
	seen := map[string]bool{}
	w := map[string]bool{}
	for _, k := range want {
		w[k] = true
	}
	for _, e := range got {
		k := dnKeyOf(e.DN)
		if seen[k] {
			return fmt.Sprintf("entry %q returned twice", e.DN)
		}
		seen[k] = true
		if !w[k] {
			return fmt.Sprintf("entry %q must not be in the result", e.DN)
		}
		if d := diffEntry(e, t.m[k]); d != "" {
			return fmt.Sprintf("entry %q: %s", e.DN, d)
		}
	}
	for _, k := range want {
		if !seen[k] {
			return fmt.Sprintf("entry %q is missing from the result", t.m[k].dn.String())
		}
	}
	return ""
}

// filterAll matches every entry.
func filterAll() *ber.Packet {
	n := ber.Encode(ber.ClassContext, ber.TypeConstructed, 2, nil, "")
	n.AppendChild(pCtx(7, "noSuchAttribute"))
	return n
}

// ---- generators for attributes and operations ----------------------------------

var attrPool = []string{"objectClass", "cn", "sn", "uid", "mail", "description", "member", "displayName",
	"telephoneNumber", "x-Custom_1", "title;lang-de", "ou", "entryUUID", "jpegPhoto", "a"}

func genAttrName(t *rapid.T) string {
	n := rapid.SampledFrom(attrPool).Draw(t, "attr")
	if rapid.IntRange(0, 3).Draw(t, "attrcase") == 0 {
		n = flipCase(t, n)
	}
	return n
}

var commonValues = []string{"a", "b", "c", "A", "ab", "person", "top", "x y", "Ä", "ä"}

func genValue(t *rapid.T, wild int) string {
	switch rapid.IntRange(0, 11).Draw(t, "vk") {
	case 0, 1, 2, 3, 4:
		return rapid.SampledFrom(commonValues).Draw(t, "vc")
	case 5, 6, 7:
		return genText(t, "vt", wild, 12)
	case 8:
		return genText(t, "vl", wild, 60)
	case 9:
		return "L" + strings.Repeat(rapid.SampledFrom([]string{"xy", "Zé", "0"}).Draw(t, "rep"), rapid.IntRange(10, 3000).Draw(t, "replen"))
	case 10:
		if wild < 2 {
			return genText(t, "vt", wild, 4)
		}
		// Binary, not valid UTF-8.
		b := rapid.SliceOfN(rapid.Byte(), 1, 24).Draw(t, "bin")
		for i, c := range b {
			if c >= 'A' && c <= 'z' {
				b[i] = c | 0x80
			}
		}
		return "\xff\xfe\x00" + string(b)
	default:
		return rapid.SampledFrom([]string{" lead", "trail ", " ", "with\nnewline", ":colon", "<lt", "#hash", "{SSHA}x", "x\x00y", "", ""}).Draw(t, "edge")
	}
}

// genValues draws values that are pairwise different ignoring case.
func genValues(t *rapid.T, wild, min, max int) []string {
	n := rapid.IntRange(min, max).Draw(t, "nv")
	var out []string
	for len(out) < n {
		v := genValue(t, wild)
		for i := 0; indexFold(out, v) >= 0; i++ {
			v = fmt.Sprintf("%s%d", v, i)
		}
		out = append(out, v)
	}
	return out
}

// genEntryAttrs draws the attributes of a new entry, including its RDN values.
func genEntryAttrs(t *rapid.T, d DN, wild int) []Attr {
	var out []Attr
	seen := map[string]int{}
	for _, a := range d[0] {
		k := fold(a.T)
		if i, ok := seen[k]; ok {
			if indexFold(out[i].V, a.V) < 0 {
				out[i].V = append(out[i].V, a.V)
			}
			continue
		}
		seen[k] = len(out)
		out = append(out, Attr{a.T, []string{a.V}})
	}
	n := rapid.IntRange(0, 5).Draw(t, "nattr")
	for i := 0; i < n; i++ {
		name := genAttrName(t)
		if j, ok := seen[fold(name)]; ok {
			for _, v := range genValues(t, wild, 1, 2) {
				if indexFold(out[j].V, v) < 0 {
					out[j].V = append(out[j].V, v)
				}
			}
			continue
		}
		seen[fold(name)] = len(out)
		max := 3
		if rapid.IntRange(0, 15).Draw(t, "many") == 0 {
			max = 40
		}
		out = append(out, Attr{name, genValues(t, wild, 1, max)})
	}
	return out
}

// genExisting picks an entry of the model.
func (t *Tree) genExisting(rt *rapid.T) DN {
	ks := t.keys()
	return t.m[ks[rapid.IntRange(0, len(ks)-1).Draw(rt, "pick")]].dn
}

// genTarget picks a DN: existing, a possible new child, or elsewhere.
func (t *Tree) genTarget(rt *rapid.T, wild int, newBias int) DN {
	k := rapid.IntRange(0, 9).Draw(rt, "target")
	switch {
	case k < newBias:
		return t.genExisting(rt).Child(genRDN(rt, wild))
	case k < 8:
		return t.genExisting(rt)
	case k == 8:
		// Missing parent.
		return t.genExisting(rt).Child(genRDN(rt, wild)).Child(genRDN(rt, wild))
	default:
		switch rapid.IntRange(0, 3).Draw(rt, "outside") {
		case 0:
			return DN{genRDN(rt, wild)}
		case 1:
			return t.base.Parent().Child(genRDN(rt, wild))
		case 2:
			return append(DN{genRDN(rt, wild)}, t.base.Parent()...)
		default:
			return DN{{{"cn", "x"}}, {{"dc", "elsewhere"}}}
		}
	}
}

// genChanges draws a modify request against an entry (which may be absent).
func (t *Tree) genChanges(rt *rapid.T, d DN, wild, max int) []Change {
	e := t.m[d.Key()]
	n := rapid.IntRange(1, max).Draw(rt, "nch")
	var out []Change
	cur := e
	for i := 0; i < n; i++ {
		var name string
		if cur != nil && len(cur.attrs) > 0 && rapid.IntRange(0, 3).Draw(rt, "exattr") > 0 {
			var ks []string
			for k := range cur.attrs {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			name = ks[rapid.IntRange(0, len(ks)-1).Draw(rt, "exa")]
			if rapid.Bool().Draw(rt, "exflip") {
				name = flipCase(rt, name)
			}
		} else {
			name = genAttrName(rt)
		}
		var have []string
		if cur != nil {
			have = cur.attrs[fold(name)]
		}
		c := Change{Op: rapid.IntRange(0, 2).Draw(rt, "modop"), A: Attr{N: name}}
		existing := func() []string {
			if len(have) == 0 {
				return nil
			}
			k := rapid.IntRange(1, minInt(3, len(have))).Draw(rt, "nex")
			st := rapid.IntRange(0, len(have)-k).Draw(rt, "stex")
			vs := append([]string(nil), have[st:st+k]...)
			for i := range vs {
				if rapid.IntRange(0, 2).Draw(rt, "flipv") == 0 {
					vs[i] = flipCase(rt, vs[i])
				}
			}
			return vs
		}
		switch c.Op {
		case modAdd:
			c.A.V = genValues(rt, wild, 1, 3)
		case modReplace:
			c.A.V = genValues(rt, wild, 0, 3)
			// Often keep naming values so that the change is legal.
			if d != nil && rapid.IntRange(0, 3).Draw(rt, "keeprdn") > 0 {
				for _, a := range d[0] {
					if fold(a.T) == fold(name) && indexFold(c.A.V, a.V) < 0 {
						c.A.V = append(c.A.V, a.V)
					}
				}
			}
		case modDelete:
			switch rapid.IntRange(0, 3).Draw(rt, "delk") {
			case 0:
			case 1:
				c.A.V = genValues(rt, wild, 1, 2)
			default:
				c.A.V = existing()
			}
		}
		out = append(out, c)
		if cur != nil {
			if ne, v := applyChanges(cur, []Change{c}); v != mustFail {
				cur = ne
			}
		}
	}
	return out
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func showAttrs(a []Attr) string {
	var p []string
	for _, x := range a {
		p = append(p, x.N+"="+showVals(x.V))
	}
	return strings.Join(p, " ")
}

func showChanges(c []Change) string {
	var p []string
	for _, x := range c {
		s := x.String()
		if len(s) > 200 {
			s = s[:200] + "..."
		}
		p = append(p, s)
	}
	return strings.Join(p, "; ")
}
