package vh

import (
	"encoding/hex"
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// bigSize draws a size of any order of magnitude up to max, so that limits
// hidden somewhere below it are crossed by a good part of the cases.
func bigSize(rt *rapid.T, label string, max int) int {
	top := 0
	for 8<<top < max {
		top++
	}
	hi := 8 << rapid.IntRange(0, top).Draw(rt, label+"mag")
	if hi > max {
		hi = max
	}
	return rapid.IntRange(hi/2, hi).Draw(rt, label)
}

// bulk makes n entries below base (or below each other every fan entries) from
// few drawn numbers.
func bulk(rt *rapid.T, base DN, n int) []Entry {
	fan := rapid.SampledFrom([]int{0, 0, 7, 1}).Draw(rt, "fan")
	mod := rapid.IntRange(2, 9).Draw(rt, "mod")
	var out []Entry
	p := base
	for i := 0; i < n; i++ {
		d := p.Child(RDN{{"uid", fmt.Sprintf("w%d", i)}})
		e := Entry{d.String(), []Attr{{"uid", []string{fmt.Sprintf("w%d", i)}}, {"cn", []string{fmt.Sprintf("N%d", i%mod), fmt.Sprintf("all %d", i)}}, {"objectClass", []string{"person"}}}}
		if i%3 == 0 {
			e.Attrs = append(e.Attrs, Attr{"mail", []string{fmt.Sprintf("m%d@x%d.test", i, i%mod)}})
		}
		out = append(out, e)
		if fan == 7 && i%7 == 6 || fan == 1 && len(d) < 70 {
			p = d
		}
	}
	return out
}

var bulkPool = &filtPool{names: []string{"cn", "uid", "mail", "objectClass", "absent"}, values: []string{"N0", "N1", "n2", "all 1", "all 13", "w1", "w20", "person", "m3@x1.test", "x1.test"}}

func pathOf(base DN, n int) DN {
	d := base
	for i := 0; i < n; i++ {
		d = d.Child(RDN{{"ou", fmt.Sprintf("L%d", i)}})
	}
	return d
}

// longNames makes sibling names that are long and differ in a single place.
func longNames(rt *rapid.T, parent DN) []DN {
	n := bigSize(rt, "namelen", 3000)
	unit := rapid.SampledFrom([]string{"a", "xY", "é", "a,b", " +", "\\"}).Draw(rt, "unit")
	v := "q" + strings.Repeat(unit, n/len(unit)+1) + "q"
	typ := rapid.SampledFrom([]string{"cn", "uid", "ou"}).Draw(rt, "ltype")
	out := []DN{parent.Child(RDN{{typ, v}}), parent.Child(RDN{{typ, "z" + v}}), parent.Child(RDN{{typ, v + "z"}}), parent.Child(RDN{{typ, v[:1] + "z" + v[1:]}}),
		parent.Child(RDN{{typ, v[:len(v)-1] + "z" + v[len(v)-1:]}}), parent.Child(RDN{{typ, v + unit + "q"}})}
	for i, r := range v {
		// One in the middle, at the start of a character.
		if i > len(v)/2 && r != 0xfffd {
			out = append(out, parent.Child(RDN{{typ, v[:i] + "z" + v[i:]}}))
			break
		}
	}
	return append(out, out[1].Child(RDN{{typ, v}}))
}

// bigEntries draws a tree that is large in one respect.
func bigEntries(rt *rapid.T, base DN) ([]Entry, string) {
	named := func(d DN, more ...Attr) Entry {
		return Entry{d.String(), append([]Attr{{d[0][0].T, []string{d[0][0].V}}}, more...)}
	}
	switch rapid.IntRange(0, 3).Draw(rt, "shape") {
	case 0:
		return bulk(rt, base, bigSize(rt, "entries", 700)), "many"
	case 1:
		var out []Entry
		n := bigSize(rt, "levels", 90)
		for i := 1; i <= n; i++ {
			out = append(out, named(pathOf(base, i)))
		}
		return append(out, named(pathOf(base, n/2).Child(RDN{{"cn", "side"}}))), "deep"
	case 2:
		var out []Entry
		for _, d := range longNames(rt, base) {
			out = append(out, named(d))
		}
		return out, "long names"
	}
	var vs []string
	n := bigSize(rt, "values", 600)
	for i := 0; i < n; i++ {
		vs = append(vs, fmt.Sprintf("value %d", i))
	}
	attrs := []Attr{{"member", vs}}
	for i := bigSize(rt, "attributes", 400); i > 0; i-- {
		attrs = append(attrs, Attr{fmt.Sprintf("x-attr-%d", i), []string{fmt.Sprint(i)}})
	}
	sz := bigSize(rt, "size", 300000)
	b := make([]byte, sz)
	x := uint32(sz)
	for j := range b {
		x = x*1664525 + 1013904223
		b[j] = byte(x >> 24)
	}
	attrs = append(attrs, Attr{"jpegPhoto", []string{"\xff" + string(b), strings.Repeat("v", sz/2)}})
	d := base.Child(RDN{{"cn", "heavy"}})
	return []Entry{named(d, attrs...), named(d.Child(RDN{{"cn", "below"}}))}, "heavy"
}

// bigFilter draws a filter that is wide or deep.
func bigFilter(rt *rapid.T, p *filtPool, wild int) *Filt {
	f := p.gen(rt, wild, 1)
	n := bigSize(rt, "width", 300)
	never := func(i int) *Filt { return &Filt{Op: "eq", Attr: "cn", Val: fmt.Sprintf("nobody %d", i)} }
	always := &Filt{Op: "not", Kids: []*Filt{{Op: "pres", Attr: "noSuchAttribute"}}}
	switch rapid.IntRange(0, 3).Draw(rt, "bigf") {
	case 0: // f is one of many alternatives
		g := &Filt{Op: "or"}
		at := rapid.IntRange(0, n-1).Draw(rt, "at")
		for i := 0; i < n; i++ {
			if i == at {
				g.Kids = append(g.Kids, f)
			} else {
				g.Kids = append(g.Kids, never(i))
			}
		}
		return g
	case 1: // f is one of many conditions
		g := &Filt{Op: "and"}
		at := rapid.IntRange(0, n-1).Draw(rt, "at")
		for i := 0; i < n; i++ {
			if i == at {
				g.Kids = append(g.Kids, f)
			} else if i%2 == 0 {
				g.Kids = append(g.Kids, always)
			} else {
				g.Kids = append(g.Kids, &Filt{Op: "not", Kids: []*Filt{never(i)}})
			}
		}
		return g
	case 2: // negated many times
		for i := 0; i < n; i++ {
			f = &Filt{Op: "not", Kids: []*Filt{f}}
		}
		return f
	}
	for i := 0; i < n; i++ {
		if i%2 == 0 {
			f = &Filt{Op: "or", Kids: []*Filt{never(i), f}}
		} else {
			f = &Filt{Op: "and", Kids: []*Filt{always, f}}
		}
	}
	return f
}

// respellBig is Respell for DNs too long to draw every character's spelling.
func (d DN) respellBig(rt *rapid.T) string {
	mode := rapid.IntRange(0, 3).Draw(rt, "respellbig")
	sep := rapid.SampledFrom([]string{",", ", ", " ,"}).Draw(rt, "sep")
	var p []string
	for _, r := range d {
		var q []string
		for _, a := range r {
			v := a.V
			if mode&1 != 0 {
				v = flipCase(rt, v)
			}
			if mode == 2 {
				h := ""
				for i := 0; i < len(v); i++ {
					h += "\\" + hex.EncodeToString([]byte{v[i]})
				}
				v = h
			} else {
				v = escapeDNValue(v)
			}
			q = append(q, flipCase(rt, a.T)+"="+v)
		}
		p = append(p, strings.Join(q, "+"))
	}
	return strings.Join(p, sep)
}
