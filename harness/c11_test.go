package vh

import (
	"fmt"
	"sort"
	"testing"

	"pgregory.net/rapid"
)

// selectAttrs is what a search with this attribute list may show of an entry.
func selectAttrs(attrs []Attr, req []string) []Attr {
	if len(req) == 0 {
		return attrs
	}
	var out []Attr
	for _, a := range attrs {
		for _, r := range req {
			if r == "*" || fold(r) == fold(a.N) {
				out = append(out, a)
				break
			}
		}
	}
	return out
}

// TestC11: a search returns the requested attributes with all their values, byte for byte.
func TestC11(t *testing.T) {
	run := func(rt *rapid.T, backend string) {
		base := someBase(rt, backend != "bolt")
		names := []string{"objectClass", "cn", "sn", "mail", "description", "member", "displayName", "x-Custom-1", "jpegPhoto", "a", "givenName", "note;lang-en", "note;lang-de;x-y"}
		var entries []Entry
		for i := rapid.IntRange(1, 4).Draw(rt, "n"); i > 0; i-- {
			d := base.Child(RDN{{"uid", fmt.Sprintf("u%d", i)}})
			e := Entry{d.String(), []Attr{{"uid", []string{fmt.Sprintf("u%d", i)}}}}
			for _, n := range names {
				if rapid.IntRange(0, 2).Draw(rt, "has") > 0 {
					continue
				}
				max := 4
				if rapid.IntRange(0, 9).Draw(rt, "many") == 0 {
					max = 60
				}
				if rapid.IntRange(0, 3).Draw(rt, "nflip") == 0 {
					n = flipCase(rt, n)
				}
				vs := genValues(rt, 2, 1, max)
				if rapid.IntRange(0, 11).Draw(rt, "big") == 0 {
					b := make([]byte, rapid.IntRange(1000, 70000).Draw(rt, "bigl"))
					x := rapid.Uint32().Draw(rt, "bigs")
					for j := range b {
						x = x*1664525 + 1013904223
						b[j] = byte(x >> 24)
					}
					vs = append(vs, "\xff"+string(b))
				}
				e.Attrs = append(e.Attrs, Attr{n, vs})
			}
			entries = append(entries, e)
		}
		var cl *Client
		if backend == "bolt" {
			w := newBoltWorldAt(rt, base, nil)
			defer w.stop()
			cl = w.srv.Dial("127.0.0.1")
			bindAs(rt, cl, w.admin.String(), adminPw)
			for _, e := range entries {
				r, err := cl.Do(opAdd(e.DN, e.Attrs))
				if err != nil || r.Code != 0 {
					rt.Fatalf("add %q refused: %v %v", e.DN, r, err)
				}
			}
		} else {
			w := startLdif(rt, base.String(), append([]Entry{{base.String(), []Attr{{"dc", []string{"lg"}}}}}, entries...), nil)
			defer w.stop()
			cl = w.srv.Dial("127.0.0.1")
		}
		one := func(e Entry, req []string, scope int) {
			b := e.DN
			if scope == 2 {
				b = base.String()
			}
			f := &Filt{Op: "eq", Attr: "uid", Val: e.Attrs[0].V[0]}
			r := search(rt, cl, SearchReq{Base: b, Scope: scope, Filter: f.Packet(), Attrs: req})
			if r.Code != 0 || len(r.Entries) != 1 {
				rt.Fatalf("search for %q: code %d, %d entries", e.DN, r.Code, len(r.Entries))
			}
			got := r.Entries[0]
			want := &mEntry{attrs: attrsToMap(selectAttrs(e.Attrs, req))}
			if d := diffEntry(got, want); d != "" {
				rt.Fatalf("entry %q with attribute list %q: %s", e.DN, req, d)
			}
			if dnKeyOf(got.DN) != dnKeyOf(e.DN) {
				rt.Fatalf("entry %q returned as %q", e.DN, got.DN)
			}
			kind := backend + "-all"
			switch {
			case len(req) > 0 && len(want.attrs) == 0:
				kind = backend + "-none"
			case len(req) > 0:
				kind = backend + "-some"
			}
			var ks []string
			for k, v := range want.attrs {
				ks = append(ks, fmt.Sprintf("%s:%d", k, len(v)))
			}
			sort.Strings(ks)
			ev.Case(len(e.Attrs) > 1, fmt.Sprintf("%q -> %v", req, ks), kind)
		}
		for _, e := range entries {
			one(e, nil, 0)
			for k := rapid.IntRange(1, 4).Draw(rt, "nreq"); k > 0; k-- {
				var req []string
				for j := rapid.IntRange(1, 5).Draw(rt, "nr"); j > 0; j-- {
					switch rapid.IntRange(0, 9).Draw(rt, "rk") {
					case 0:
						req = append(req, "*")
					case 1:
						req = append(req, "1.1")
					case 2:
						req = append(req, "noSuchAttr")
					default:
						n := rapid.SampledFrom(names).Draw(rt, "rn")
						if rapid.Bool().Draw(rt, "rflip") {
							n = flipCase(rt, n)
						}
						req = append(req, n)
					}
				}
				if rapid.IntRange(0, 2).Draw(rt, "dup") == 0 {
					req = append(req, flipCase(rt, req[0]))
				}
				one(e, req, rapid.SampledFrom([]int{0, 2}).Draw(rt, "sc"))
				one(e, nil, 2) // asking for less never takes anything away from the store
			}
		}
	}
	leg(t, "big", 25, func(rt *rapid.T) {
		base := boltBases[0]
		backend := rapid.SampledFrom([]string{"bolt", "ldif"}).Draw(rt, "backend")
		na := bigSize(rt, "attributes", 400)
		e := Entry{"uid=heavy," + base.String(), []Attr{{"uid", []string{"heavy"}}}}
		for i := 0; i < na; i++ {
			e.Attrs = append(e.Attrs, Attr{fmt.Sprintf("x-Attr-%d", i), []string{fmt.Sprint("v", i)}})
		}
		a := &e.Attrs[rapid.IntRange(1, na-1).Draw(rt, "many")]
		for i := bigSize(rt, "values", 1100); i > 0; i-- {
			a.V = append(a.V, fmt.Sprintf("value %d", i))
		}
		a = &e.Attrs[rapid.IntRange(1, na-1).Draw(rt, "long")]
		a.V = append(a.V, fmt.Sprintf("%0*d", bigSize(rt, "size", 400000), 7)+"\xff")
		entries := []Entry{{base.String(), []Attr{{"dc", []string{"lg"}}}}, e}
		var cl *Client
		if backend == "bolt" {
			w := newBoltWorldAt(rt, base, nil)
			defer w.stop()
			cl = w.srv.Dial("127.0.0.1")
			bindAs(rt, cl, w.admin.String(), adminPw)
			if r, err := cl.Do(opAdd(e.DN, e.Attrs)); err != nil || r.Code != 0 {
				rt.Fatalf("add of an entry with %d attributes: %v %+v", na, err, r)
			}
		} else {
			w := startLdif(rt, base.String(), entries, nil)
			defer w.stop()
			cl = w.srv.Dial("127.0.0.1")
		}
		steps(rt, 6, func(rt *rapid.T) {
			var req []string
			stride := rapid.IntRange(1, 9).Draw(rt, "stride")
			for i := rapid.IntRange(0, 9).Draw(rt, "first"); i < 2*na && len(req) < 500; i += stride {
				req = append(req, fmt.Sprintf("X-attr-%d", i)) // every other one is missing
			}
			if rapid.IntRange(0, 4).Draw(rt, "none") == 0 {
				req = nil
			}
			r := search(rt, cl, SearchReq{Base: base.String(), Scope: 2, Filter: (&Filt{Op: "eq", Attr: "uid", Val: "heavy"}).Packet(), Attrs: req})
			if r.Code != 0 || len(r.Entries) != 1 {
				rt.Fatalf("search with %d attributes requested: code %d, %d entries", len(req), r.Code, len(r.Entries))
			}
			want := &mEntry{attrs: attrsToMap(selectAttrs(e.Attrs, req))}
			if d := diffEntry(r.Entries[0], want); d != "" {
				rt.Fatalf("%s: entry with %d attributes, %d requested: %.1000s", backend, na, len(req), d)
			}
			ev.Case(true, fmt.Sprintf("%d attributes, %d requested (%.60q)", na, len(req), req), backend+"-big")
		})
	})
	leg(t, "bolt", 90, func(rt *rapid.T) { run(rt, "bolt") })
	leg(t, "ldif", 60, func(rt *rapid.T) { run(rt, "ldif") })
}
