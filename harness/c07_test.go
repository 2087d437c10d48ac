package vh

import (
	"fmt"
	"testing"

	"pgregory.net/rapid"
)

// filterEntries draws entries whose values are close to each other.
func filterEntries(rt *rapid.T, base DN, n, wild int, names []string) ([]Entry, *filtPool) {
	pool := &filtPool{names: append([]string{"absent"}, names...)}
	val := func() string {
		k := rapid.IntRange(0, 9).Draw(rt, "pv")
		switch {
		case k == 9 && rapid.IntRange(0, 1).Draw(rt, "empty") == 0:
			return ""
		case k < 5 && len(pool.values) > 0:
			v := rapid.SampledFrom(pool.values).Draw(rt, "pvs")
			switch k {
			case 0:
				return v
			case 1:
				return flipCase(rt, v)
			case 2:
				return v + genText(rt, "pvx", 0, 2)
			case 3:
				return genText(rt, "pvx", 0, 2) + v
			default:
				return v + v
			}
		default:
			return genText(rt, "pvt", wild, 6)
		}
	}
	var out []Entry
	dns := []DN{base}
	out = append(out, Entry{base.String(), rootAttrs(base)})
	for i := 0; i < n; i++ {
		d := dns[rapid.IntRange(0, len(dns)-1).Draw(rt, "par")].Child(RDN{{"uid", fmt.Sprintf("u%d", i)}})
		e := Entry{d.String(), []Attr{{"uid", []string{fmt.Sprintf("u%d", i)}}}}
		used := map[string]bool{"uid": true}
		for j := rapid.IntRange(0, 4).Draw(rt, "na"); j > 0; j-- {
			a := rapid.SampledFrom(names).Draw(rt, "an")
			if used[fold(a)] {
				continue
			}
			used[fold(a)] = true
			if rapid.IntRange(0, 3).Draw(rt, "anflip") == 0 {
				a = flipCase(rt, a)
			}
			var vs []string
			for k := rapid.IntRange(1, 3).Draw(rt, "nv"); k > 0; k-- {
				v := val()
				if indexFold(vs, v) < 0 {
					vs = append(vs, v)
					if len(v) > 0 && len(v) < 60 {
						pool.values = append(pool.values, v)
						pool.pairs = append(pool.pairs, [2]string{a, v})
					}
				}
			}
			e.Attrs = append(e.Attrs, Attr{a, vs})
		}
		out = append(out, e)
		dns = append(dns, d)
	}
	if len(pool.values) == 0 {
		pool.values = []string{"a"}
	}
	return out, pool
}

var filterNames = []string{"cn", "sn", "mail", "objectClass", "description", "givenName", "member", "x-y", "c", "mailbox", "x-y-z"}

// TestC07: a search returns exactly the entries its filter selects.
func TestC07(t *testing.T) {
	run := func(rt *rapid.T, wild, depth int, ldifBackend bool) {
		base := someBase(rt, ldifBackend)
		entries, pool := filterEntries(rt, base, rapid.IntRange(1, 10).Draw(rt, "n"), wild, filterNames)
		var srv *Srv
		var cl *Client
		if ldifBackend {
			w := startLdif(rt, base.String(), entries, nil)
			defer w.stop()
			srv = w.srv
			cl = srv.Dial("127.0.0.1")
		} else {
			w := newBoltWorldAt(rt, base, nil, entries[1:]...)
			defer w.stop()
			srv = w.srv
			entries = append(entries, Entry{w.admin.String(), []Attr{{"cn", []string{"admin"}}, {"objectClass", []string{"person"}}, {"userPassword", []string{adminPw}}}})
			cl = srv.Dial("127.0.0.1")
			bindAs(rt, cl, w.admin.String(), adminPw)
		}
		steps(rt, 12, func(rt *rapid.T) {
			f := pool.gen(rt, wild, depth)
			want := matchKeys(entries, base, 2, f)
			journal("%s", f)
			r := search(rt, cl, SearchReq{Base: base.String(), Scope: 2, Filter: f.Packet()})
			if r.Code != 0 {
				rt.Fatalf("filter %s refused with code %d", f, r.Code)
			}
			if d := diffKeys(r.Entries, want); d != "" {
				rt.Fatalf("filter %s: %s\nentries:\n%s", f, d, ldifText(entries))
			}
			cls := []string{"backend-bolt"}
			if ldifBackend {
				cls[0] = "backend-ldif"
			}
			for _, o := range []string{"and", "or", "not", "sub", "pres", "eq"} {
				if f.has(o) {
					cls = append(cls, "with-"+o)
				}
			}
			ev.Case(len(want) > 0 && len(want) < len(entries), f.String()+" on "+fmt.Sprint(len(entries))+" entries -> "+fmt.Sprint(len(want)), cls...)
		})
	}
	leg(t, "simple", 60, func(rt *rapid.T) { run(rt, 1, 0, false) })
	leg(t, "nested", 120, func(rt *rapid.T) { run(rt, 2, 4, false) })
	leg(t, "ldif", 60, func(rt *rapid.T) { run(rt, 2, 3, true) })
	leg(t, "big", 15, func(rt *rapid.T) {
		base := boltBases[0]
		entries := append([]Entry{{base.String(), []Attr{{"dc", []string{"lg"}}, {"objectClass", []string{"top"}}}}}, bulk(rt, base, bigSize(rt, "entries", 300))...)
		backend := rapid.SampledFrom([]string{"bolt", "ldif"}).Draw(rt, "backend")
		var cl *Client
		if backend == "bolt" {
			w := newBoltWorldAt(rt, base, nil, entries[1:]...)
			defer w.stop()
			entries = append(entries, Entry{w.admin.String(), []Attr{{"cn", []string{"admin"}}, {"objectClass", []string{"person"}}}})
			cl = w.srv.Dial("127.0.0.1")
			bindAs(rt, cl, w.admin.String(), adminPw)
		} else {
			w := startLdif(rt, base.String(), entries, nil)
			defer w.stop()
			cl = w.srv.Dial("127.0.0.1")
		}
		steps(rt, 8, func(rt *rapid.T) {
			f := bigFilter(rt, bulkPool, 0)
			want := matchKeys(entries, base, 2, f)
			r := search(rt, cl, SearchReq{Base: base.String(), Scope: 2, Filter: f.Packet()})
			if r.Code != 0 {
				rt.Fatalf("filter %.2000s refused with code %d", f, r.Code)
			}
			if d := diffKeys(r.Entries, want); d != "" {
				rt.Fatalf("%s: filter %.2000s on %d entries: %.1000s", backend, f, len(entries), d)
			}
			ev.Case(len(want) > 0 && len(want) < len(entries), fmt.Sprintf("%.300s on %d entries -> %d", f, len(entries), len(want)), "big-"+f.Op, "backend-"+backend)
		})
	})
	leg(t, "unsupported", 25, func(rt *rapid.T) {
		base := boltBases[0]
		w := newBoltWorldAt(rt, base, nil, Entry{"uid=u," + base.String(), []Attr{{"uid", []string{"u"}}, {"sn", []string{"m"}}}})
		defer w.stop()
		cl := w.srv.Dial("127.0.0.1")
		bindAs(rt, cl, w.admin.String(), adminPw)
		f := &Filt{Op: rapid.SampledFrom([]string{"ge", "le", "ext", "approx"}).Draw(rt, "op"), Attr: "sn", Val: rapid.SampledFrom([]string{"a", "z"}).Draw(rt, "v")}
		matches := (f.Op == "ge" && f.Val == "a") || (f.Op == "le" && f.Val == "z")
		r := search(rt, cl, SearchReq{Base: base.String(), Scope: 2, Filter: f.Packet()})
		// Either evaluated properly or refused; never a silently wrong answer.
		if r.Code == 0 && f.Op != "approx" && (len(r.Entries) == 1) != matches {
			rt.Fatalf("filter %s answered with success and %d entries", f, len(r.Entries))
		}
		ev.Case(r.Code != 0 || matches, f.String(), "unsupported-matching-rule")
	})
}
