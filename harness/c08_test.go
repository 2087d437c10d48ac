package vh

import (
	"fmt"
	"testing"

	"pgregory.net/rapid"
)

// TestC08: base, one-level and subtree scope select exactly their part of the tree.
func TestC08(t *testing.T) {
	leg(t, "bolt", 130, func(rt *rapid.T) {
		base := rapid.SampledFrom(boltBases).Draw(rt, "base")
		wild := rapid.IntRange(0, 2).Draw(rt, "wild")
		dns := []DN{base}
		seen := map[string]bool{base.Key(): true, base.Child(RDN{{"cn", "admin"}}).Key(): true}
		var extra []Entry
		for i := rapid.IntRange(1, 14).Draw(rt, "n"); i > 0; i-- {
			p := dns[rapid.IntRange(0, len(dns)-1).Draw(rt, "par")]
			if rapid.IntRange(0, 2).Draw(rt, "deep") == 0 {
				p = dns[len(dns)-1]
			}
			r := genRDN(rt, wild)
			if rapid.IntRange(0, 3).Draw(rt, "looks") == 0 {
				// A value that looks like the DN of another entry.
				o := dns[rapid.IntRange(0, len(dns)-1).Draw(rt, "like")]
				r = RDN{{"cn", "x," + o.String()}}
				if rapid.Bool().Draw(rt, "suffix") {
					r = RDN{{"cn", "x" + o[0].String()}}
				}
			}
			d := p.Child(r)
			if seen[d.Key()] || len(d) > 9 {
				continue
			}
			seen[d.Key()] = true
			dns = append(dns, d)
			extra = append(extra, Entry{d.String(), genEntryAttrs(rt, d, 0)})
		}
		w := newBoltWorldAt(rt, base, nil, extra...)
		defer w.stop()
		cl := w.srv.Dial("127.0.0.1")
		bindAs(rt, cl, w.admin.String(), adminPw)
		check := func(d DN) {
			for sc := 0; sc < 3; sc++ {
				s := d.Respell(rt)
				want := w.tree.inScope(d, sc)
				r := search(rt, cl, SearchReq{Base: s, Scope: sc, Filter: filterAll()})
				if r.Code != 0 && (w.tree.has(d) || r.Code != 32) {
					rt.Fatalf("search %q scope %d: code %d", s, sc, r.Code)
				}
				if df := w.tree.diffEntries(r.Entries, want); df != "" {
					rt.Fatalf("search %q scope %d: %s\ntree: %q", s, sc, df, w.tree.keys())
				}
				ev.Case(len(want) > 0 && len(want) < len(w.tree.m), fmt.Sprintf("%q scope %d of %d entries", s, sc, len(w.tree.m)), fmt.Sprintf("scope%d", sc))
				if r.Code != 0 {
					cl = w.srv.Dial("127.0.0.1")
					bindAs(rt, cl, w.admin.String(), adminPw)
				}
			}
		}
		for _, d := range dns {
			check(d)
		}
		for i := 0; i < 3; i++ {
			check(w.tree.genTarget(rt, wild, 5))
		}
	})
	leg(t, "big", 10, func(rt *rapid.T) {
		base := rapid.SampledFrom(boltBases).Draw(rt, "base")
		backend := rapid.SampledFrom([]string{"bolt", "bolt", "ldif"}).Draw(rt, "backend")
		if backend == "ldif" {
			base = boltBases[0] // taken as text
		}
		extra, shape := bigEntries(rt, base)
		all := append([]Entry{{base.String(), []Attr{{base[0][0].T, []string{base[0][0].V}}}}}, extra...)
		var cl *Client
		if backend == "bolt" {
			w := newBoltWorldAt(rt, base, nil, extra...)
			defer w.stop()
			cl = w.srv.Dial("127.0.0.1")
			bindAs(rt, cl, w.admin.String(), adminPw)
			all = append(all, Entry{w.admin.String(), nil})
		} else {
			w := startLdif(rt, base.String(), all, nil)
			defer w.stop()
			cl = w.srv.Dial("127.0.0.1")
		}
		step := len(all)/25 + 1
		for i := 0; i < len(all); i += step {
			d, err := ParseDN(all[i].DN)
			must(err)
			for sc := 0; sc < 3; sc++ {
				s := d.String()
				if backend == "bolt" {
					s = d.Respell(rt)
				} else {
					s = flipCase(rt, s)
				}
				want := matchKeys(all, d, sc, nil)
				r := search(rt, cl, SearchReq{Base: s, Scope: sc, Filter: filterAll()})
				if r.Code != 0 {
					rt.Fatalf("%s: search %.300q scope %d among %d entries (%s): code %d", backend, s, sc, len(all), shape, r.Code)
				}
				if df := diffKeys(r.Entries, want); df != "" {
					rt.Fatalf("%s: search %.300q scope %d among %d entries (%s): %.1000s", backend, s, sc, len(all), shape, df)
				}
				ev.Case(len(want) > 0 && len(want) < len(all), fmt.Sprintf("%s %.100q scope %d of %d entries, %s", backend, s, sc, len(all), shape), "big-"+shape, fmt.Sprintf("scope%d", sc))
			}
		}
	})
	leg(t, "ldif", 60, func(rt *rapid.T) {
		base := DN{{{"dc", "lg"}}, {{"dc", "local"}}}
		entries, _ := filterEntries(rt, base, rapid.IntRange(1, 12).Draw(rt, "n"), 0, []string{"cn", "description"})
		// Entries whose DN only ends with the text of another DN.
		entries = append(entries, Entry{"cn=x\\,uid=u0,dc=lg,dc=local", []Attr{{"cn", []string{"x,uid=u0"}}}},
			Entry{"cn=xuid=u0,dc=lg,dc=local", []Attr{{"cn", []string{"xuid=u0"}}}},
			Entry{"cn=a\\,b,uid=u0,dc=lg,dc=local", []Attr{{"cn", []string{"a,b"}}}})
		w := startLdif(rt, base.String(), entries, nil)
		defer w.stop()
		cl := w.srv.Dial("127.0.0.1")
		for _, e := range entries {
			d, err := ParseDN(e.DN)
			must(err)
			for sc := 0; sc < 3; sc++ {
				s := flipCase(rt, e.DN)
				want := matchKeys(entries, d, sc, nil)
				r := search(rt, cl, SearchReq{Base: s, Scope: sc, Filter: filterAll()})
				if r.Code != 0 {
					rt.Fatalf("search %q scope %d: code %d", s, sc, r.Code)
				}
				if df := diffKeys(r.Entries, want); df != "" {
					rt.Fatalf("search %q scope %d: %s\n%s", s, sc, df, ldifText(entries))
				}
				ev.Case(len(want) > 0 && len(want) < len(entries), fmt.Sprintf("ldif %q scope %d of %d entries", s, sc, len(entries)), fmt.Sprintf("ldif-scope%d", sc))
			}
		}
	})
}
