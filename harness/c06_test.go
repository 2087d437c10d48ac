package vh

import (
	"fmt"
	"testing"
	"unicode"

	ber "github.com/go-asn1-ber/asn1-ber"
	"github.com/libregraph/idm/pkg/ldapdn"
	"pgregory.net/rapid"
)

func genDN(rt *rapid.T, wild, max int) DN {
	n := rapid.IntRange(1, max).Draw(rt, "depth")
	var d DN
	for i := 0; i < n; i++ {
		d = append(d, genRDN(rt, wild))
	}
	return d
}

// nearMiss changes d into a different DN that looks similar.
func nearMiss(rt *rapid.T, d DN) DN {
	n := make(DN, len(d))
	for i := range d {
		n[i] = append(RDN{}, d[i]...)
	}
	i := rapid.IntRange(0, len(n)-1).Draw(rt, "nmi")
	a := &n[i][rapid.IntRange(0, len(n[i])-1).Draw(rt, "nma")]
	switch rapid.IntRange(0, 7).Draw(rt, "nm") {
	case 0:
		a.V += rapid.SampledFrom([]string{"a", " ", ",", "+", "=", "\\", "\x00", "é"}).Draw(rt, "nmv")
	case 1:
		a.V = rapid.SampledFrom([]string{"a", " ", ",", "#", "\\", "\""}).Draw(rt, "nmp") + a.V
	case 2:
		a.T = map[string]string{"cn": "sn", "uid": "uidx", "ou": "o", "o": "ou", "dc": "d", "sn": "cn"}[fold(a.T)]
	case 3:
		// Two RDNs into one value: cn=a,ou=b -> cn="a,ou=b".
		if len(n) > 1 {
			v := n[0].String()
			n = append(DN{{{n[0][0].T, n[0][0].V + "," + n[1].String()}}}, n[2:]...)
			_ = v
		} else {
			a.V += ",o=x"
		}
	case 4:
		// Multi-valued into plain: cn=a+sn=b -> cn="a+sn=b".
		if len(n[i]) > 1 {
			n[i] = RDN{{n[i][0].T, n[i][0].V + "+" + n[i][1].T + "=" + n[i][1].V}}
		} else {
			n[i] = append(n[i], AVA{"title", "t"})
		}
	case 5:
		if len(n) > 1 {
			n = n[1:]
		} else {
			n = append(n, RDN{{"dc", "extra"}})
		}
	case 6:
		if len(n) > 1 && n[0].Key() != n[1].Key() {
			n[0], n[1] = n[1], n[0]
		} else {
			a.V = a.V + a.V + "x"
		}
	default:
		// The spelled-out escape as a literal value.
		e := escapeDNValue(a.V)
		if e == a.V {
			e = "\\" + a.V
		}
		a.V = e
	}
	return n
}

// manyForms holds letters that have more than two forms differing in case.
var manyForms = []rune("ςΣσſKkÅåµμϐβǅǆẛṡθϑẞß")

// TestC06: spellings of one DN are one name; different DNs are different names.
func TestC06(t *testing.T) {
	leg(t, "canonical", 12000, func(rt *rapid.T) {
		wild := rapid.IntRange(0, 2).Draw(rt, "wild")
		d := genDN(rt, wild, 4)
		s1, s2 := d.Respell(rt), d.Respell(rt)
		e := nearMiss(rt, d)
		s3 := e.Respell(rt)
		same := e.Key() == d.Key()
		n1, err1 := ldapdn.ParseNormalize(s1)
		n2, err2 := ldapdn.ParseNormalize(s2)
		n3, err3 := ldapdn.ParseNormalize(s3)
		if err1 != nil || err2 != nil || err3 != nil {
			rt.Fatalf("valid DN refused: %q %v / %q %v / %q %v", s1, err1, s2, err2, s3, err3)
		}
		if n1 != n2 {
			rt.Fatalf("%q and %q are the same DN but get names %q and %q", s1, s2, n1, n2)
		}
		if !same && n1 == n3 {
			rt.Fatalf("%q and %q are different DNs but get the same name %q", s1, s3, n1)
		}
		again, err := ldapdn.ParseNormalize(n1)
		if err != nil || again != n1 {
			rt.Fatalf("name %q of %q is not stable: %q %v", n1, s1, again, err)
		}
		back, err := ParseDN(n1)
		if err != nil || back.Key() != d.Key() {
			rt.Fatalf("name %q no longer denotes %q (%v)", n1, s1, err)
		}
		ev.Case(s1 != s2 && !same, fmt.Sprintf("%q ~ %q, /~ %q", s1, s2, s3), fmt.Sprintf("canonical-wild%d", wild))
	})
	leg(t, "store", 100, func(rt *rapid.T) {
		w := newBoltWorld(rt, nil)
		defer w.stop()
		cl := w.srv.Dial("127.0.0.1")
		bindAs(rt, cl, w.admin.Respell(rt), adminPw)
		do := func(what string, want int64, r *Res, err error) {
			if err != nil || r.Code != want {
				code := int64(-1)
				if r != nil {
					code = r.Code
				}
				rt.Fatalf("%s: code %d (%v), expected %d", what, code, err, want)
			}
		}
		d := w.base.Child(genRDN(rt, 2))
		if w.tree.has(d) {
			d = w.base.Child(RDN{{"cn", "other"}})
		}
		// A sibling that only resembles d.
		e := w.base.Child(nearMiss(rt, DN{d[0]})[0])
		if e.Key() == d.Key() || w.tree.has(e) {
			e = w.base.Child(RDN{{"cn", "yet another"}})
		}
		s := []string{d.Respell(rt), d.Respell(rt), d.Respell(rt), d.Respell(rt), d.Respell(rt)}
		z := e.Respell(rt)
		at := func(x DN, tag string) []Attr {
			var as []Attr
			for _, a := range x[0] {
				as = append(as, Attr{a.T, []string{a.V}})
			}
			return append(as, Attr{"description", []string{tag}})
		}
		r, err := cl.Do(opAdd(s[0], at(d, "first")))
		do("add "+s[0], 0, r, err)
		r, err = cl.Do(opAdd(z, at(e, "second")))
		do(fmt.Sprintf("add of the different DN %q beside %q", z, s[0]), 0, r, err)
		r, err = cl.Do(opAdd(s[1], at(d, "again")))
		do(fmt.Sprintf("add of %q spelled %q", s[0], s[1]), 68, r, err)
		for i, x := range []struct{ dn, tag string }{{s[2], "first"}, {e.Respell(rt), "second"}} {
			r := search(rt, cl, SearchReq{Base: x.dn, Scope: 0, Filter: filterAll()})
			if r.Code != 0 || len(r.Entries) != 1 || len(r.Entries[0].get("description")) != 1 || r.Entries[0].get("description")[0] != x.tag {
				rt.Fatalf("search %d for %q did not return the entry added as %q: code %d, %v", i, x.dn, []string{s[0], z}[i], r.Code, r.Entries)
			}
		}
		child := d.Child(RDN{{"cn", "kid"}})
		ks := child.Respell(rt)
		r, err = cl.Do(opAdd(ks, at(child, "kid")))
		do(fmt.Sprintf("add of a child %q below %q", ks, s[0]), 0, r, err)
		r, err = cl.Do(opDel(child.Respell(rt)))
		do("delete of the child", 0, r, err)
		r, err = cl.Do(opModify(s[3], []Change{{modReplace, Attr{"title", []string{"t"}}}}))
		do(fmt.Sprintf("modify %q as %q", s[0], s[3]), 0, r, err)
		r, err = cl.Do(opDel(s[4]))
		do(fmt.Sprintf("delete %q as %q", s[0], s[4]), 0, r, err)
		q := search(rt, cl, SearchReq{Base: e.Respell(rt), Scope: 0, Filter: filterAll()})
		if q.Code != 0 || len(q.Entries) != 1 {
			rt.Fatalf("%q vanished with %q", z, s[4])
		}
		ev.Case(true, fmt.Sprintf("%q %q | %q", s[0], s[1], z), "store")
	})
	leg(t, "letters", 80, func(rt *rapid.T) {
		// Letters with more than two forms, in any of these.
		w := newBoltWorld(rt, nil)
		defer w.stop()
		cl := w.srv.Dial("127.0.0.1")
		bindAs(rt, cl, w.admin.String(), adminPw)
		v := []rune(genText(rt, "v", 1, 6))
		for i := range v {
			if rapid.Bool().Draw(rt, "many") {
				v[i] = rapid.SampledFrom(manyForms).Draw(rt, "letter")
			}
		}
		v = append(v, rapid.SampledFrom(manyForms).Draw(rt, "letter"))
		spell := func() string {
			u := make([]rune, len(v))
			for i, c := range v {
				for k := rapid.IntRange(0, 3).Draw(rt, "form"); k > 0; k-- {
					c = unicode.SimpleFold(c)
				}
				u[i] = c
			}
			return DN{{{"cn", string(u)}}}.String() + "," + w.base.String()
		}
		s := []string{spell(), spell(), spell(), spell(), spell()}
		do := func(what string, want int64, op *ber.Packet) *Res {
			r, err := cl.Do(op)
			if err != nil || r.Code != want {
				rt.Fatalf("%s: code %+v (%v), expected %d; spellings %q", what, r, err, want, s)
			}
			return r
		}
		do("add", 0, opAdd(s[0], []Attr{{"cn", []string{string(v)}}, {"userPassword", []string{"letters"}}}))
		do("second add", 68, opAdd(s[1], []Attr{{"cn", []string{string(v)}}}))
		do("modify", 0, opModify(s[2], []Change{{modReplace, Attr{"title", []string{"t"}}}}))
		if r := do("search", 0, opSearch(SearchReq{Base: s[3], Scope: 0, Filter: filterAll()})); len(r.Entries) != 1 {
			rt.Fatalf("search returned %d entries; spellings %q", len(r.Entries), s)
		}
		b, err := w.srv.Dial("127.0.0.1").Do(opBind(s[4], "letters"))
		if err != nil || b.Code != 0 {
			rt.Fatalf("bind: %+v (%v); spellings %q", b, err, s)
		}
		do("delete", 0, opDel(spell()))
		ev.Case(s[0] != s[1], fmt.Sprintf("%q ~ %q", s[0], s[1]), "letters")
	})
	leg(t, "long", 25, func(rt *rapid.T) {
		w := newBoltWorld(rt, nil)
		defer w.stop()
		cl := w.srv.Dial("127.0.0.1")
		bindAs(rt, cl, w.admin.String(), adminPw)
		dns := longNames(rt, pathOf(w.base, 0))
		for i, d := range dns {
			as := []Attr{{d[0][0].T, []string{d[0][0].V}}, {"description", []string{fmt.Sprint(i)}}}
			s := d.respellBig(rt)
			r, err := cl.Do(opAdd(s, as))
			if err != nil || r.Code != 0 {
				rt.Fatalf("long name %d of %d bytes cannot be added beside the others: %v %+v", i, len(s), err, r)
			}
			s2 := d.respellBig(rt)
			r, err = cl.Do(opAdd(s2, as))
			if err != nil || r.Code != 68 {
				rt.Fatalf("long name %d of %d bytes can be added twice: %v %+v", i, len(s), err, r)
			}
		}
		for k := 0; k < 2*len(dns); k++ {
			i := rapid.IntRange(0, len(dns)-1).Draw(rt, "i")
			s := dns[i].respellBig(rt)
			r := search(rt, cl, SearchReq{Base: s, Scope: 0, Filter: filterAll()})
			if r.Code != 0 || len(r.Entries) != 1 || dnKeyOf(r.Entries[0].DN) != dns[i].Key() || r.Entries[0].get("description")[0] != fmt.Sprint(i) {
				rt.Fatalf("search for long name %d of %d bytes: code %d, %d entries", i, len(s), r.Code, len(r.Entries))
			}
			n1, err := ldapdn.ParseNormalize(s)
			if err != nil {
				rt.Fatalf("long name %d: %v", i, err)
			}
			for j, o := range dns {
				n2, err := ldapdn.ParseNormalize(o.respellBig(rt))
				if err != nil || (n1 == n2) != (i == j) {
					rt.Fatalf("long names %d and %d: %v, same name %v", i, j, err, n1 == n2)
				}
			}
			ev.Case(true, fmt.Sprintf("%d bytes: %.80q... name %d", len(s), s, i), "long")
		}
	})
}
