package vh

import (
	"fmt"
	"testing"

	ber "github.com/go-asn1-ber/asn1-ber"
	"pgregory.net/rapid"
)

// TestC12: the client's size limit is honoured and overruns are reported.
func TestC12(t *testing.T) {
	run := func(rt *rapid.T, backend string, base DN, entries []Entry, pool *filtPool) {
		var srv *Srv
		var dial func() *Client
		if backend == "bolt" {
			w := newBoltWorldAt(rt, base, nil, entries[1:]...)
			defer w.stop()
			entries = append(entries, Entry{w.admin.String(), []Attr{{"cn", []string{"admin"}}, {"objectClass", []string{"person"}}}})
			srv = w.srv
			dial = func() *Client {
				c := srv.Dial("127.0.0.1")
				bindAs(rt, c, w.admin.String(), adminPw)
				return c
			}
		} else {
			w := startLdif(rt, base.String(), entries, nil)
			defer w.stop()
			srv = w.srv
			dial = func() *Client { return srv.Dial("127.0.0.1") }
		}
		cl := dial()
		steps(rt, 10, func(rt *rapid.T) {
			f := pool.gen(rt, 0, 2)
			if rapid.IntRange(0, 2).Draw(rt, "all") == 0 {
				f = &Filt{Op: "not", Kids: []*Filt{{Op: "pres", Attr: "noSuchAttribute"}}}
			}
			want := matchKeys(entries, base, 2, f)
			var lim int
			switch rapid.IntRange(0, 5).Draw(rt, "lk") {
			case 0:
				lim = len(want)
			case 1:
				lim = len(want) - 1
			case 2:
				lim = len(want) + 1
			case 3:
				// Limits as clients send them that want everything.
				lim = minInt(1<<31-1, 1<<rapid.IntRange(5, 31).Draw(rt, "bits")+rapid.IntRange(-1, len(want)).Draw(rt, "more"))
			default:
				lim = rapid.IntRange(0, 18).Draw(rt, "lim")
				if len(entries) > 18 {
					lim = rapid.IntRange(0, len(entries)+10).Draw(rt, "lim")
				}
			}
			if lim < 0 {
				lim = 0
			}
			var ctl []*ber.Packet
			if lim > 0 && rapid.IntRange(0, 5).Draw(rt, "paged") == 0 {
				// Pages at least as large as the limit: the limit alone counts.
				ctl = append(ctl, pagingControl(int64(lim+rapid.SampledFrom([]int{0, 0, 1, 100}).Draw(rt, "page")), nil, rapid.Bool().Draw(rt, "crit")))
			}
			// The limit counts entries, whatever is left of them.
			attrs := rapid.SampledFrom([][]string{nil, nil, {"cn"}, {"mail", "objectClass"}, {"1.1"}, {"noSuchAttribute"}}).Draw(rt, "attrs")
			r := search(rt, cl, SearchReq{Base: base.String(), Scope: 2, Filter: f.Packet(), Size: int64(lim), Attrs: attrs}, ctl...)
			over := lim > 0 && len(want) > lim
			seen := map[string]bool{}
			for _, e := range r.Entries {
				k := dnKeyOf(e.DN)
				if _, ok := want[k]; !ok || seen[k] {
					rt.Fatalf("limit %d filter %s: unexpected entry %q", lim, f, e.DN)
				}
				seen[k] = true
			}
			switch {
			case over && (r.Code != 4 || len(r.Entries) != lim):
				rt.Fatalf("%s: %d entries match filter %s, limit %d: got %d entries and code %d", backend, len(want), f, lim, len(r.Entries), r.Code)
			case !over && (r.Code != 0 || len(r.Entries) != len(want)):
				rt.Fatalf("%s: %d entries match filter %s, limit %d is not exceeded: got %d entries and code %d", backend, len(want), f, lim, len(r.Entries), r.Code)
			}
			kind := "within"
			if over {
				kind = "exceeded"
			} else if lim == len(want) {
				kind = "exact"
			}
			if len(ctl) > 0 {
				kind += "-paged"
			}
			ev.Case(lim > 0 && len(want) > 0, fmt.Sprintf("%s limit %d of %d, filter %s", backend, lim, len(want), f), backend+"-"+kind)
			if r.Code != 0 {
				cl = dial() // the connection may be closed after an overrun
			}
		})
	}
	small := func(rt *rapid.T, backend string) {
		base := someBase(rt, backend != "bolt")
		entries, pool := filterEntries(rt, base, rapid.IntRange(1, 14).Draw(rt, "n"), 0, []string{"cn", "mail", "objectClass", "description"})
		run(rt, backend, base, entries, pool)
	}
	leg(t, "bolt", 90, func(rt *rapid.T) { small(rt, "bolt") })
	leg(t, "ldif", 90, func(rt *rapid.T) { small(rt, "ldif") })
	leg(t, "big", 5, func(rt *rapid.T) {
		for _, backend := range []string{"bolt", "ldif"} {
			es := bulk(rt, boltBases[0], bigSize(rt, "entries", 1100))
			run(rt, backend, boltBases[0], append([]Entry{{boltBases[0].String(), rootAttrs(boltBases[0])}}, es...), bulkPool)
		}
	})
}
