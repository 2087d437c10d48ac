package vh

import (
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"

	"pgregory.net/rapid"
)

// snapshots lets one client write a known sequence of states while others search:
// every search must show one of the states, never an earlier one than a search
// before it or than the writes answered before it was sent.
func snapshots(t *testing.T) {
	leg(t, "snapshots", 8, func(rt *rapid.T) {
		w := newBoltWorldAt(rt, DN{{{"dc", "lg"}}, {{"dc", "local"}}}, nil)
		defer w.stop()
		defer os.RemoveAll(w.dir)
		area := w.base.Child(RDN{{"ou", "area"}})
		names := rapid.IntRange(2, 40).Draw(rt, "names")
		cur := map[string]string{}
		show := func(m map[string]string) string {
			var s []string
			for k, v := range m {
				s = append(s, k+"="+v)
			}
			sort.Strings(s)
			return strings.Join(s, " ")
		}
		setup := w.srv.Dial("127.0.0.1")
		bindAs(rt, setup, w.admin.String(), adminPw)
		if r, err := setup.Do(opAdd(area.String(), []Attr{{"ou", []string{"area"}}})); err != nil || r.Code != 0 {
			rt.Fatalf("add: %v %+v", err, r)
		}
		// The sequence of states and the requests leading from one to the next.
		states := []string{show(cur)}
		var reqs []byte
		x := rapid.Uint64().Draw(rt, "plan")
		rnd := func(n int) int {
			x = x*6364136223846793005 + 1442695040888963407
			return int(x>>33) % n
		}
		total := rapid.IntRange(60, 250).Draw(rt, "writes")
		for i := 1; i <= total; i++ {
			n, v := fmt.Sprintf("n%d", rnd(names)), fmt.Sprint(i)
			dn := area.Child(RDN{{"uid", n}}).String()
			op := opAdd(dn, []Attr{{"uid", []string{n}}, {"description", []string{v}}})
			switch _, ok := cur[n]; {
			case ok && rnd(3) == 0:
				op = opDel(dn)
				delete(cur, n)
			case ok:
				op = opModify(dn, []Change{{2, Attr{"description", []string{v}}}})
				cur[n] = v
			default:
				cur[n] = v
			}
			reqs = append(reqs, envelope(int64(1000+i), op).Bytes()...)
			states = append(states, show(cur))
		}
		at := map[string][]int{}
		for i, s := range states {
			at[s] = append(at[s], i)
		}
		readers := rapid.IntRange(1, 6).Draw(rt, "readers")
		procs := rapid.SampledFrom([]int{1, 2, 4, 8}).Draw(rt, "procs")
		scopes := make([]int, readers)
		for i := range scopes {
			scopes[i] = rapid.IntRange(1, 2).Draw(rt, "scope")
		}
		defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(procs))
		var acked, searches atomic.Int64
		var done atomic.Bool
		var mu sync.Mutex
		problem := ""
		fail := func(format string, args ...interface{}) {
			mu.Lock()
			defer mu.Unlock()
			if problem == "" {
				problem = fmt.Sprintf(format, args...)
			}
			done.Store(true)
		}
		var wg sync.WaitGroup
		clients := make([]*Client, readers)
		for i := range clients {
			clients[i] = w.srv.Dial("127.0.0.1")
			bindAs(rt, clients[i], w.admin.String(), adminPw)
		}
		for i := range clients {
			wg.Add(1)
			go func(cl *Client, scope int) {
				defer wg.Done()
				last := 0
				for more := true; more; {
					more = !done.Load()
					from := int(acked.Load())
					r, err := cl.Do(opSearch(SearchReq{Base: area.String(), Scope: scope, Filter: filterAll()}))
					if err != nil || r.Code != 0 {
						fail("search: %v %+v", err, r)
						return
					}
					searches.Add(1)
					got := map[string]string{}
					for _, e := range r.Entries {
						if n := e.get("uid"); len(n) == 1 {
							got[n[0]] = strings.Join(e.get("description"), "|")
						}
					}
					if from < last {
						from = last
					}
					s, found := show(got), false
					for _, k := range at[s] {
						if k >= from {
							last, found = k, true
							break
						}
					}
					if !found {
						fail("a search of scope %d shows a content that is none of the states after %d to %d writes:\n%s\nstates it is like: %v", scope, from, total, s, at[s])
						return
					}
				}
			}(clients[i], scopes[i])
		}
		go setup.sendRaw(reqs)
		for i := 1; i <= total; i++ {
			m, err := setup.next(replyTimeout())
			if err != nil || m.ID != int64(1000+i) || m.Code != 0 {
				fail("write %d: %v %+v", i, err, m)
				break
			}
			acked.Store(int64(i))
		}
		done.Store(true)
		wg.Wait()
		if problem != "" {
			rt.Fatalf("%s", problem)
		}
		ev.Note("searches_during_writes", int(searches.Load()))
		ev.Case(searches.Load() > int64(2*readers), fmt.Sprintf("%d writes to %d names, plan %d, %d readers, %d processors", total, names, x, readers, procs), fmt.Sprintf("procs=%d", procs))
	})
}
