package vh

import (
	"fmt"
	"os"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
)

type pagedSearch struct {
	cl     *Client
	req    SearchReq
	want   map[string]Entry
	cookie []byte
	got    []Entry
	pages  int
	size   int
	f      *Filt
	over   bool
}

// TestC10: a paged search delivers what the unpaged search would have, page by page.
func TestC10(t *testing.T) {
	run := func(rt *rapid.T, reload bool) {
		base := someBase(rt, true)
		entries, pool := filterEntries(rt, base, rapid.IntRange(0, 25).Draw(rt, "n"), 1, []string{"cn", "mail", "objectClass", "description", "sn"})
		w := startLdif(rt, base.String(), entries, nil)
		defer w.stop()
		cls := []*Client{w.srv.Dial("127.0.0.1"), w.srv.Dial("127.0.0.1")}
		var log []string
		note := func(format string, args ...interface{}) {
			log = append(log, fmt.Sprintf(format, args...))
			journal("%s", log[len(log)-1])
		}
		fail := func(format string, args ...interface{}) {
			rt.Fatalf("%s\nhistory:\n%s", fmt.Sprintf(format, args...), strings.Join(log, "\n"))
		}
		var live []*pagedSearch
		finished, multi, version := 0, 0, 0
		page := func(p *pagedSearch) {
			r, err := p.cl.Do(opSearch(p.req), pagingControl(int64(p.size), p.cookie, rapid.Bool().Draw(rt, "crit")))
			if err != nil {
				fail("page %d of %s size %d: %v", p.pages, p.f, p.size, err)
			}
			note("page %d of %s size %d -> code %d, %d entries, more=%v", p.pages, p.f, p.size, r.Code, len(r.Entries), len(r.Cookie) > 0)
			if r.Code != 0 {
				fail("page refused with code %d", r.Code)
			}
			if len(r.Entries) > p.size {
				fail("page of size %d holds %d entries", p.size, len(r.Entries))
			}
			if !r.HasPage {
				fail("no paging control in the answer")
			}
			p.pages++
			p.got = append(p.got, r.Entries...)
			p.cookie = r.Cookie
			if len(r.Cookie) == 0 {
				p.over = true
				if d := diffKeys(p.got, p.want); d != "" {
					fail("pages of %s (size %d) together: %s", p.f, p.size, d)
				}
				finished++
				if p.pages > 1 {
					multi++
				}
				return
			}
			if p.pages > len(p.want)+2 {
				fail("paged search does not end: %d pages of size %d for %d entries", p.pages, p.size, len(p.want))
			}
		}
		current := entries
		begin := func() {
			p := &pagedSearch{cl: cls[rapid.IntRange(0, 1).Draw(rt, "cl")], f: pool.gen(rt, 1, 2)}
			if rapid.IntRange(0, 1).Draw(rt, "all") == 0 {
				p.f = &Filt{Op: "not", Kids: []*Filt{{Op: "pres", Attr: "noSuchAttribute"}}}
			}
			p.want = matchKeys(current, base, 2, p.f)
			switch rapid.IntRange(0, 3).Draw(rt, "szk") {
			case 0:
				p.size = len(p.want)
			case 1:
				p.size = (len(p.want) + 1) / 2
			default:
				p.size = rapid.IntRange(1, 12).Draw(rt, "sz")
			}
			if p.size < 1 {
				p.size = 1
			}
			p.req = SearchReq{Base: base.String(), Scope: 2, Filter: p.f.Packet()}
			page(p)
			if !p.over {
				live = append(live, p)
			}
		}
		drop := func(i int) { live = append(live[:i:i], live[i+1:]...) }
		steps(rt, 14, func(rt *rapid.T) {
			k := rapid.IntRange(0, 9).Draw(rt, "act")
			switch {
			case len(live) == 0 || k < 2:
				if len(live) < 4 {
					begin()
				}
			case k < 7:
				i := rapid.IntRange(0, len(live)-1).Draw(rt, "which")
				if rapid.IntRange(0, 9).Draw(rt, "resize") == 0 {
					live[i].size = rapid.IntRange(1, 8).Draw(rt, "newsize")
				}
				page(live[i])
				if live[i].over {
					drop(i)
				}
			case k == 7:
				// Abandon by asking for zero entries.
				i := rapid.IntRange(0, len(live)-1).Draw(rt, "which")
				p := live[i]
				drop(i)
				r, err := p.cl.Do(opSearch(p.req), pagingControl(0, p.cookie, true))
				if err != nil {
					fail("abandoning a paged search: %v", err)
				}
				note("abandon -> %d", r.Code)
				if r.Code != 0 || len(r.Entries) > 0 {
					fail("abandoning a paged search: code %d, %d entries", r.Code, len(r.Entries))
				}
				// Its cookie is void now.
				c := w.srv.Dial("127.0.0.1")
				r, err = c.Do(opSearch(p.req), pagingControl(5, p.cookie, true))
				if err != nil {
					fail("using the cookie of an abandoned search: %v", err)
				}
				if r.Code == 0 {
					fail("the cookie of an abandoned search is still accepted")
				}
			case k == 8:
				// An unpaged search in between.
				f := pool.gen(rt, 1, 1)
				r := search(rt, cls[rapid.IntRange(0, 1).Draw(rt, "cl")], SearchReq{Base: base.String(), Scope: 2, Filter: f.Packet()})
				note("search %s -> %d, %d entries", f, r.Code, len(r.Entries))
				if d := diffKeys(r.Entries, matchKeys(current, base, 2, f)); r.Code != 0 || d != "" {
					fail("search %s in between: code %d %s", f, r.Code, d)
				}
			default:
				if !reload {
					return
				}
				// New content: searches under way go on with the old one.
				version++
				next := append([]Entry(nil), entries[:1]...)
				for i, e := range entries[1:] {
					if (i+version)%3 != 0 {
						next = append(next, e)
					}
				}
				// Children of dropped entries stay: the source is a flat list.
				next = append(next, Entry{fmt.Sprintf("uid=new%d,%s", version, base), []Attr{{"uid", []string{fmt.Sprint("new", version)}}, {"cn", []string{"a"}}}})
				must(os.WriteFile(w.file, []byte(ldifText(next)), 0o644))
				if err := w.srv.H.Reload(nil); err != nil {
					fail("reload: %v", err)
				}
				current = next
				note("reload with %d entries", len(next))
			}
		})
		for len(live) > 0 {
			page(live[0])
			if live[0].over {
				drop(0)
			}
		}
		ev.Note("finished searches", finished)
		ev.Note("searches with several pages", multi)
		ev.Case(multi > 0, strings.Join(log, "\n"), fmt.Sprintf("reload=%v", version > 0))
	}
	leg(t, "plain", 250, func(rt *rapid.T) { run(rt, false) })
	leg(t, "reload", 150, func(rt *rapid.T) { run(rt, true) })
	big := func(rt *rapid.T, pause bool) {
		base := boltBases[0]
		entries := append([]Entry{{base.String(), []Attr{{"dc", []string{"lg"}}}}}, bulk(rt, base, bigSize(rt, "entries", 1100))...)
		w := startLdif(rt, base.String(), entries, nil)
		defer w.stop()
		var cls []*Client
		for i := rapid.IntRange(1, 4).Draw(rt, "conns"); i > 0; i-- {
			cls = append(cls, w.srv.Dial("127.0.0.1"))
		}
		var live []*pagedSearch
		total := bigSize(rt, "simultaneous", 300)
		for i := total; i > 0; i-- {
			p := &pagedSearch{cl: cls[i%len(cls)], size: bigSize(rt, "size", 700), f: &Filt{Op: "pres", Attr: "uid"}}
			if i%2 == 0 {
				p.f = bulkPool.gen(rt, 0, 1)
			}
			pages := 40
			if total > 60 {
				pages = 3
			}
			if m := len(entries) / pages; p.size < m {
				p.size = m // bounds the number of pages
			}
			p.want = matchKeys(entries, base, 2, p.f)
			p.req = SearchReq{Base: base.String(), Scope: 2, Filter: p.f.Packet()}
			live = append(live, p)
		}
		n, multi, sig := len(live), 0, fmt.Sprint(len(entries))
		stride := rapid.IntRange(1, 7).Draw(rt, "stride")
		idle := -1
		if pause {
			idle = n / 2
		}
		for k := 0; len(live) > 0; k += stride {
			if k/stride == idle {
				time.Sleep(3 * time.Second)
			}
			i := k % len(live)
			p := live[i]
			r, err := p.cl.Do(opSearch(p.req), pagingControl(int64(p.size), p.cookie, true))
			if err != nil {
				rt.Fatalf("page %d of %s size %d with %d searches under way: %v", p.pages, p.f, p.size, len(live), err)
			}
			if r.Code != 0 || len(r.Entries) > p.size || !r.HasPage {
				rt.Fatalf("page %d of %s size %d with %d searches under way: code %d %s, %d entries, paging control %v", p.pages, p.f, p.size, len(live), r.Code, r.Diag, len(r.Entries), r.HasPage)
			}
			p.pages++
			p.got = append(p.got, r.Entries...)
			p.cookie = r.Cookie
			if len(r.Cookie) == 0 {
				if d := diffKeys(p.got, p.want); d != "" {
					rt.Fatalf("%d pages of %s (size %d, %d searches, %d entries) together: %.1000s", p.pages, p.f, p.size, n, len(entries), d)
				}
				if p.pages > 1 {
					multi++
					sig += fmt.Sprintf(" %d*%d", p.pages, p.size)
				}
				live = append(live[:i:i], live[i+1:]...)
			} else if p.pages > len(p.want)+2 {
				rt.Fatalf("paged search does not end")
			}
		}
		ev.Note("searches with several pages", multi)
		ev.Case(multi > 1, sig, "big")
	}
	leg(t, "big", 5, func(rt *rapid.T) { big(rt, false) })
	// A client may take its time between pages.
	leg(t, "pause", 1, func(rt *rapid.T) { big(rt, true) })
	leg(t, "bolt", 40, func(rt *rapid.T) {
		// A store may answer everything at once, but never lose entries.
		base := boltBases[0]
		entries, pool := filterEntries(rt, base, rapid.IntRange(1, 12).Draw(rt, "n"), 1, []string{"cn", "mail", "objectClass"})
		w := newBoltWorldAt(rt, base, nil, entries[1:]...)
		defer w.stop()
		all := append(append([]Entry(nil), entries...), Entry{w.admin.String(), []Attr{{"cn", []string{"admin"}}, {"objectClass", []string{"person"}}, {"userPassword", []string{adminPw}}}})
		cl := w.srv.Dial("127.0.0.1")
		bindAs(rt, cl, w.admin.String(), adminPw)
		f := pool.gen(rt, 1, 1)
		want := matchKeys(all, base, 2, f)
		var got []Entry
		var cookie []byte
		for i := 0; ; i++ {
			r, err := cl.Do(opSearch(SearchReq{Base: base.String(), Scope: 2, Filter: f.Packet()}), pagingControl(int64(rapid.IntRange(1, 5).Draw(rt, "sz")), cookie, false))
			if err != nil || r.Code != 0 {
				rt.Fatalf("paged search: %v %+v", err, r)
			}
			got = append(got, r.Entries...)
			cookie = r.Cookie
			if len(cookie) == 0 {
				break
			}
			if i > 20 {
				rt.Fatalf("paged search does not end")
			}
		}
		if d := diffKeys(got, want); d != "" {
			rt.Fatalf("pages of %s together: %s", f, d)
		}
		ev.Case(len(want) > 1, f.String(), "bolt")
	})
}
