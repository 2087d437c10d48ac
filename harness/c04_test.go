package vh

import (
	"fmt"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

// splitSpellings spreads the values of attributes over several spellings.
func splitSpellings(rt *rapid.T, attrs []Attr) []Attr {
	var first, more []Attr
	for _, a := range attrs {
		n := rapid.IntRange(0, len(a.V)-1).Draw(rt, "split")
		other := strings.ToUpper(a.N)
		if other == a.N {
			other = strings.ToLower(a.N)
		}
		if n == 0 || other == a.N {
			first = append(first, a)
			continue
		}
		first = append(first, Attr{a.N, a.V[:n]})
		more = append(more, Attr{other, a.V[n:]})
	}
	return append(first, more...)
}

// TestC04: a modify request applies its changes in order, all or nothing.
func TestC04(t *testing.T) {
	run := func(rt *rapid.T, wild, max int, mixed bool) {
		base := rapid.SampledFrom(boltBases).Draw(rt, "base")
		var extra []Entry
		n := rapid.IntRange(1, 3).Draw(rt, "entries")
		seen := map[string]bool{}
		var targets []DN
		for i := 0; i < n; i++ {
			d := base.Child(genRDN(rt, wild))
			if seen[d.Key()] || (fold(d[0][0].T) == "cn" && fold(d[0][0].V) == "admin") {
				continue
			}
			seen[d.Key()] = true
			attrs := genEntryAttrs(rt, d, wild)
			if mixed {
				attrs = splitSpellings(rt, attrs)
			}
			extra = append(extra, Entry{d.String(), attrs})
			targets = append(targets, d)
		}
		w := newBoltWorldAt(rt, base, nil, extra...)
		defer w.stop()
		w.mixed = mixed
		for _, e := range extra {
			w.logf("loaded %q %s", e.DN, showAttrs(e.Attrs))
		}
		cl := w.srv.Dial("127.0.0.1")
		bindAs(rt, cl, w.admin.String(), adminPw)
		accepted, refused, multi := 0, 0, 0
		steps(rt, 8, func(rt *rapid.T) {
			d := targets[rapid.IntRange(0, len(targets)-1).Draw(rt, "target")]
			ch := w.tree.genChanges(rt, d, wild, max)
			s := d.Respell(rt)
			w.logf("modify %q: %s", s, showChanges(ch))
			next, v := w.tree.modify(d, ch)
			r, err := cl.Do(opModify(s, ch))
			if err != nil {
				rt.Fatalf("%v\n%s", err, strings.Join(w.log, "\n"))
			}
			w.log[len(w.log)-1] += fmt.Sprintf(" -> %d", r.Code)
			w.settle(rt, "modify", r.Code, next, v)
			w.dump(rt, cl)
			if r.Code == 0 {
				accepted++
				if len(ch) > 1 {
					multi++
				}
			} else {
				refused++
			}
		})
		ev.Note("accepted", accepted)
		ev.Note("refused", refused)
		ev.Note("accepted_with_several_changes", multi)
		ev.Case(accepted > 0, strings.Join(w.log, "\n"), fmt.Sprintf("wild%d", wild), fmt.Sprintf("mixed=%v", mixed), fmt.Sprintf("refused=%v", refused > 0))
	}
	leg(t, "short", 300, func(rt *rapid.T) { run(rt, 1, 2, false) })
	leg(t, "lists", 500, func(rt *rapid.T) { run(rt, 2, 9, false) })
	// Entries from a loaded file that spells the same attribute differently.
	leg(t, "spellings", 120, func(rt *rapid.T) { run(rt, 1, 3, true) })
	// Many changes, many values and large values.
	leg(t, "big", 20, func(rt *rapid.T) {
		base := boltBases[0]
		d := base.Child(RDN{{"cn", "heavy"}})
		w := newBoltWorldAt(rt, base, nil, Entry{d.String(), []Attr{{"cn", []string{"heavy"}}, {"member", []string{"m0", "m1"}}}})
		defer w.stop()
		cl := w.srv.Dial("127.0.0.1")
		bindAs(rt, cl, w.admin.String(), adminPw)
		accepted := 0
		steps(rt, 6, func(rt *rapid.T) {
			var ch []Change
			have := len(w.tree.m[d.Key()].attrs["member"])
			n := bigSize(rt, "n", 600)
			what := rapid.SampledFrom([]string{"add values", "add one by one", "delete values", "delete one by one", "replace", "large", "attributes"}).Draw(rt, "what")
			var vs []string
			switch what {
			case "add values", "add one by one":
				for i := 0; i < n; i++ {
					vs = append(vs, fmt.Sprintf("m%d", have+i))
				}
			case "delete values", "delete one by one":
				stride := rapid.IntRange(1, 5).Draw(rt, "stride")
				all := w.tree.m[d.Key()].attrs["member"]
				for i := 0; i < len(all) && len(vs) < n; i += stride {
					vs = append(vs, flipCase(rt, all[i]))
				}
			case "replace":
				for i := 0; i < n; i++ {
					vs = append(vs, fmt.Sprintf("m%d", i*3))
				}
				ch = append(ch, Change{modReplace, Attr{"member", vs}})
			case "large":
				size := bigSize(rt, "size", 300000)
				ch = append(ch, Change{modReplace, Attr{"jpegPhoto", []string{fmt.Sprintf("%0*d", size, 1) + "\xff", fmt.Sprintf("%0*d", size, 2)}}})
			case "attributes":
				for i := 0; i < n; i++ {
					ch = append(ch, Change{modReplace, Attr{fmt.Sprintf("x-%d", i), []string{fmt.Sprint(i)}}})
				}
			}
			op := modAdd
			if strings.HasPrefix(what, "delete") {
				op = modDelete
			}
			switch {
			case len(ch) > 0:
			case strings.HasSuffix(what, "values") && len(vs) > 0:
				ch = append(ch, Change{op, Attr{"member", vs}})
			default:
				for _, v := range vs {
					ch = append(ch, Change{op, Attr{"member", []string{v}}})
				}
			}
			if len(ch) == 0 {
				return
			}
			if rapid.IntRange(0, 3).Draw(rt, "fail") == 0 {
				// The last change cannot be applied, so none is.
				ch = append(ch, Change{modDelete, Attr{"noSuchAttribute", []string{"x"}}})
			}
			w.logf("%s: %d changes, %d values", what, len(ch), len(vs))
			next, v := w.tree.modify(d, ch)
			r, err := cl.Do(opModify(d.String(), ch))
			if err != nil {
				rt.Fatalf("%v\n%s", err, strings.Join(w.log, "\n"))
			}
			w.log[len(w.log)-1] += fmt.Sprintf(" -> %d", r.Code)
			w.settle(rt, "modify", r.Code, next, v)
			w.dump(rt, cl)
			if r.Code == 0 {
				accepted++
			}
		})
		ev.Note("accepted", accepted)
		ev.Case(accepted > 0, strings.Join(w.log, "\n"), "big")
	})
}
