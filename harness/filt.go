package vh

import (
	"fmt"
	"strings"

	ber "github.com/go-asn1-ber/asn1-ber"
	"pgregory.net/rapid"
)

// Filt is a search filter with its own evaluator.
type Filt struct {
	Op   string // and or not eq pres sub, ge le approx ext
	Kids []*Filt
	Attr string
	Val  string
	Init *string
	Any  []string
	Fin  *string
}

func (f *Filt) String() string {
	switch f.Op {
	case "and", "or":
		s := "(" + map[string]string{"and": "&", "or": "|"}[f.Op]
		for _, k := range f.Kids {
			s += k.String()
		}
		return s + ")"
	case "not":
		return "(!" + f.Kids[0].String() + ")"
	case "eq":
		return fmt.Sprintf("(%s=%q)", f.Attr, f.Val)
	case "pres":
		return "(" + f.Attr + "=*)"
	case "sub":
		s := "(" + f.Attr + "="
		if f.Init != nil {
			s += fmt.Sprintf("%q", *f.Init)
		}
		s += "*"
		for _, a := range f.Any {
			s += fmt.Sprintf("%q*", a)
		}
		if f.Fin != nil {
			s += fmt.Sprintf("%q", *f.Fin)
		}
		return s + ")"
	}
	return fmt.Sprintf("(%s %s %q)", f.Attr, f.Op, f.Val)
}

// Packet encodes the filter as RFC 4511 demands.
func (f *Filt) Packet() *ber.Packet {
	ctx := func(tag int) *ber.Packet {
		return ber.Encode(ber.ClassContext, ber.TypeConstructed, ber.Tag(tag), nil, "")
	}
	switch f.Op {
	case "and", "or", "not":
		p := ctx(map[string]int{"and": 0, "or": 1, "not": 2}[f.Op])
		for _, k := range f.Kids {
			p.AppendChild(k.Packet())
		}
		return p
	case "pres":
		return pCtx(7, f.Attr)
	case "sub":
		p := ctx(4)
		p.AppendChild(pStr(f.Attr))
		s := pSeq()
		if f.Init != nil {
			s.AppendChild(pCtx(0, *f.Init))
		}
		for _, a := range f.Any {
			s.AppendChild(pCtx(1, a))
		}
		if f.Fin != nil {
			s.AppendChild(pCtx(2, *f.Fin))
		}
		p.AppendChild(s)
		return p
	case "ext":
		p := ctx(9)
		p.AppendChild(pCtx(2, f.Attr))
		p.AppendChild(pCtx(3, f.Val))
		return p
	}
	p := ctx(map[string]int{"eq": 3, "ge": 5, "le": 6, "approx": 8}[f.Op])
	p.AppendChild(pStr(f.Attr))
	p.AppendChild(pStr(f.Val))
	return p
}

// Eval decides whether an entry matches.
func (f *Filt) Eval(attrs map[string][]string) bool {
	switch f.Op {
	case "and":
		for _, k := range f.Kids {
			if !k.Eval(attrs) {
				return false
			}
		}
		return true
	case "or":
		for _, k := range f.Kids {
			if k.Eval(attrs) {
				return true
			}
		}
		return false
	case "not":
		return !f.Kids[0].Eval(attrs)
	case "pres":
		return len(attrs[fold(f.Attr)]) > 0
	case "eq":
		return indexFold(attrs[fold(f.Attr)], f.Val) >= 0
	case "sub":
		for _, v := range attrs[fold(f.Attr)] {
			if f.subMatch(fold(v)) {
				return true
			}
		}
	}
	return false
}

func (f *Filt) subMatch(v string) bool {
	if f.Init != nil {
		i := fold(*f.Init)
		if !strings.HasPrefix(v, i) {
			return false
		}
		v = v[len(i):]
	}
	for _, a := range f.Any {
		i := strings.Index(v, fold(a))
		if i < 0 {
			return false
		}
		v = v[i+len(fold(a)):]
	}
	return f.Fin == nil || strings.HasSuffix(v, fold(*f.Fin))
}

func (f *Filt) walk(g func(*Filt)) {
	g(f)
	for _, k := range f.Kids {
		k.walk(g)
	}
}

func (f *Filt) has(ops ...string) bool {
	found := false
	f.walk(func(x *Filt) {
		for _, o := range ops {
			if x.Op == o {
				found = true
			}
		}
	})
	return found
}

// filtPool says which attribute names and values filters are drawn from.
type filtPool struct {
	names  []string
	values []string
	pairs  [][2]string // attributes with values they have somewhere
}

// value draws a value that is likely to be near stored ones.
func (p *filtPool) value(t *rapid.T, wild int, stored *string) string {
	if stored != nil {
		if rapid.IntRange(0, 2).Draw(t, "fvflip") == 0 {
			return flipCase(t, *stored)
		}
		return *stored
	}
	if len(p.values) > 0 && rapid.IntRange(0, 4).Draw(t, "fvk") > 0 {
		v := rapid.SampledFrom(p.values).Draw(t, "fv")
		if rapid.IntRange(0, 2).Draw(t, "fvflip") == 0 {
			v = flipCase(t, v)
		}
		return v
	}
	return genText(t, "fvt", wild, 5)
}

func runeCut(s string, i, j int) string {
	r := []rune(s)
	if i > len(r) {
		i = len(r)
	}
	if j > len(r) {
		j = len(r)
	}
	if i >= j {
		return ""
	}
	return string(r[i:j])
}

func (p *filtPool) leaf(t *rapid.T, wild int) *Filt {
	a := rapid.SampledFrom(p.names).Draw(t, "fa")
	var stored *string
	if len(p.pairs) > 0 && rapid.IntRange(0, 1).Draw(t, "fpair") == 0 {
		pair := rapid.SampledFrom(p.pairs).Draw(t, "fp")
		a, stored = pair[0], &pair[1]
	}
	if rapid.IntRange(0, 2).Draw(t, "faflip") == 0 {
		a = flipCase(t, a)
	}
	switch rapid.IntRange(0, 6).Draw(t, "leaf") {
	case 0, 1, 2:
		if rapid.IntRange(0, 14).Draw(t, "fempty") == 0 {
			return &Filt{Op: "eq", Attr: a}
		}
		return &Filt{Op: "eq", Attr: a, Val: p.value(t, wild, stored)}
	case 3:
		return &Filt{Op: "pres", Attr: a}
	default:
		f := &Filt{Op: "sub", Attr: a}
		v := p.value(t, wild, stored)
		n := len([]rune(v))
		// Cut the value into ordered pieces; sometimes disturb their order.
		cuts := rapid.SliceOfN(rapid.IntRange(0, n), 2, 6).Draw(t, "cuts")
		kind := rapid.IntRange(0, 7).Draw(t, "subkind")
		if rapid.IntRange(0, 4).Draw(t, "sortcuts") > 0 {
			for i := range cuts {
				for j := i + 1; j < len(cuts); j++ {
					if cuts[j] < cuts[i] {
						cuts[i], cuts[j] = cuts[j], cuts[i]
					}
				}
			}
		}
		piece := func(i, j int) *string {
			s := runeCut(v, i, j)
			if s == "" {
				return nil
			}
			return &s
		}
		if kind&1 != 0 {
			f.Init = piece(0, cuts[0])
		}
		if kind&2 != 0 {
			for i := 0; i+1 < len(cuts); i++ {
				if s := piece(cuts[i], cuts[i+1]); s != nil && len(f.Any) < 3 {
					f.Any = append(f.Any, *s)
				}
			}
		}
		if kind&4 != 0 {
			f.Fin = piece(cuts[len(cuts)-1], n)
		}
		if f.Init == nil && f.Fin == nil && len(f.Any) == 0 {
			s := runeCut(v, 0, 1)
			f.Init = &s
		}
		return f
	}
}

func (p *filtPool) gen(t *rapid.T, wild, depth int) *Filt {
	k := rapid.IntRange(0, 5).Draw(t, "fop")
	if depth == 0 || k < 2 {
		return p.leaf(t, wild)
	}
	if k == 5 {
		return &Filt{Op: "not", Kids: []*Filt{p.gen(t, wild, depth-1)}}
	}
	f := &Filt{Op: []string{"and", "or"}[k%2]}
	n := rapid.IntRange(1, 3).Draw(t, "fn")
	for i := 0; i < n; i++ {
		f.Kids = append(f.Kids, p.gen(t, wild, depth-1))
	}
	return f
}
