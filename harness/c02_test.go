package vh

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"regexp"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"time"

	ber "github.com/go-asn1-ber/asn1-ber"
	"github.com/go-ldap/ldap/v3"
	"github.com/libregraph/idm/pkg/ldbbolt"
	"github.com/libregraph/idm/server"
	"pgregory.net/rapid"
)

var c02Base = DN{{{"dc", "lg"}}, {{"dc", "local"}}}

// c02Users are entries whose password is changed by password modify requests.
func c02Users() []Entry {
	var es []Entry
	for i := 0; i < 2; i++ {
		u := fmt.Sprintf("pw%d", i)
		es = append(es, Entry{c02Base.Child(RDN{{"uid", u}}).String(), []Attr{{"uid", []string{u}}, {"userPassword", []string{"first"}}}})
	}
	return es
}

// c02Bulk draws entries for a database that is already large when the server starts.
func c02Bulk(rt *rapid.T) []Entry {
	if rapid.IntRange(0, 3).Draw(rt, "large") > 0 {
		return nil
	}
	var es []Entry
	total := rapid.SampledFrom([]int{60000, 240000}).Draw(rt, "bytes")
	for i, n := 0, rapid.SampledFrom([]int{2, 8, 50}).Draw(rt, "bulk"); i < n; i++ {
		u := fmt.Sprintf("bulk%d", i)
		es = append(es, Entry{c02Base.Child(RDN{{"uid", u}}).String(), []Attr{{"uid", []string{u}}, {"description", []string{strings.Repeat("d", total/n)}}}})
	}
	return es
}

func (w *boltWorld) args() []string {
	return []string{"--ldap-handler", "boltdb", "--boltdb-file", w.file, "--ldap-base-dn", w.base.String(), "--ldap-admin-dn", w.admin.String(), "--log-level", "error"}
}

// write2 is step plus password changes; it returns the message id of the write.
func (w *boltWorld) write2(rt *rapid.T, cl *Client, wild int) int64 {
	if rapid.IntRange(0, 5).Draw(rt, "pwmod") > 0 {
		w.step(rt, cl, wild)
		return cl.id
	}
	dn := c02Base.Child(RDN{{"uid", fmt.Sprintf("pw%d", rapid.IntRange(0, 1).Draw(rt, "user"))}})
	if !w.tree.has(dn) {
		w.step(rt, cl, wild)
		return cl.id
	}
	s, pw := dn.String(), rapid.SampledFrom([]string{"second", "third", "x"}).Draw(rt, "newpw")
	w.logf("password of %q", s)
	r, err := cl.Do(opPwMod(&s, nil, &pw))
	if err != nil || r.Code != 0 {
		rt.Fatalf("password modify: %v %+v\nhistory:\n%s", err, r, strings.Join(w.log, "\n"))
	}
	id := cl.id
	// The stored value is the server's choice.
	sr := search(rt, cl, SearchReq{Base: s, Scope: 0, Filter: filterAll()})
	if len(sr.Entries) != 1 {
		rt.Fatalf("entry %s gone after a password change", s)
	}
	next, _ := w.tree.modify(dn, []Change{{2, Attr{"userPassword", sr.Entries[0].get("userPassword")}}})
	w.tree = next
	w.writes++
	return id
}

// image is what a database file shows: the whole tree and what each name leads to.
type image struct {
	all    []Entry
	byName map[string][]Entry
}

// readImage opens a database file the way a restarted server does and looks up
// every name that any of the states knows.
func readImage(file, base string, states []*Tree) (*image, error) {
	b := &ldbbolt.LdbBolt{}
	if err := b.Configure(quietLogger(), base, file, nil); err != nil {
		return nil, err
	}
	defer b.Close()
	if err := b.Initialize(); err != nil {
		return nil, err
	}
	es, err := dumpBolt(b, base)
	if err != nil {
		return nil, err
	}
	img := &image{es, map[string][]Entry{}}
	for _, st := range states {
		for k, e := range st.m {
			if _, done := img.byName[k]; done {
				continue
			}
			img.byName[k] = []Entry{}
			found, _ := b.Search(e.dn.String(), ldap.ScopeBaseObject)
			for _, f := range found {
				img.byName[k] = append(img.byName[k], fromLdapEntry(f))
			}
		}
	}
	return img, nil
}

// matches tells which of the states the image is; -1 if none.
func matches(states []*Tree, from, to int, img *image) (int, string) {
	why := ""
	for i := from; i <= to && i < len(states); i++ {
		st := states[i]
		d := st.diffEntries(img.all, st.inScope(st.base, 2))
		for k, es := range img.byName {
			if d != "" {
				break
			}
			var want []string
			if st.m[k] != nil {
				want = append(want, k)
			}
			if d = st.diffEntries(es, want); d != "" {
				d = fmt.Sprintf("looking up %s: %s", k, d)
			}
		}
		if d == "" {
			return i, ""
		}
		why += fmt.Sprintf("\nnot the state after write %d: %s", i, d)
	}
	return -1, why
}

// carryOn starts a server on the file, whose content is w.tree, and writes more.
func (w *boltWorld) carryOn(rt *rapid.T, file string, n int) {
	srv, err := startServer(&server.Config{LDAPHandler: "boltdb", LDAPBaseDN: w.base.String(), LDAPAdminDN: w.admin.String(), BoltDBFile: file})
	if err != nil {
		rt.Fatalf("server does not start after a crash: %v\nhistory:\n%s", err, strings.Join(w.log, "\n"))
	}
	defer srv.Stop()
	keep := w.keep
	w.keep = true
	defer func() { w.keep = keep }()
	cl := srv.Dial("127.0.0.1")
	defer cl.Close()
	bindAs(rt, cl, w.admin.String(), adminPw)
	w.logf("after the crash:")
	for ; n > 0; n-- {
		w.step(rt, cl, 1)
	}
	w.dump(rt, cl)
}

func copyFile(dst, src string) {
	b, err := os.ReadFile(src)
	must(err)
	must(os.WriteFile(dst, b, 0o600))
}

// event is something a traced server did.
type event struct {
	kind string // write, trunc, sync, ack
	off  int64
	data []byte
	id   int64
}

var (
	reCall   = regexp.MustCompile(`^(\d+) +(.*)$`)
	reUnfin  = regexp.MustCompile(`^(.*) <unfinished \.\.\.>$`)
	reResume = regexp.MustCompile(`^<\.\.\. (\w+) resumed>(.*)$`)
	reArgs   = regexp.MustCompile(`^(\w+)\(\d+<([^>]*)>(?:\(deleted\))?(?:, (.*))?\) += (-?\d+)`)
)

func unhex(s string) []byte {
	s = strings.Trim(s, `"`)
	out := make([]byte, 0, len(s)/4)
	for i := 0; i+3 < len(s); i += 4 {
		n, err := strconv.ParseUint(s[i+2:i+4], 16, 8)
		if err != nil {
			return nil
		}
		out = append(out, byte(n))
	}
	return out
}

// parseTrace reads what a traced server did to its database and its clients.
func parseTrace(log, file string) []event {
	var evs []event
	pending := map[string]string{}
	for _, line := range strings.Split(log, "\n") {
		m := reCall.FindStringSubmatch(line)
		if m == nil {
			continue
		}
		pid, call := m[1], m[2]
		if u := reUnfin.FindStringSubmatch(call); u != nil {
			pending[pid] = u[1]
			continue
		}
		if r := reResume.FindStringSubmatch(call); r != nil {
			call = pending[pid] + r[2]
		}
		a := reArgs.FindStringSubmatch(call)
		if a == nil {
			continue
		}
		name, path, rest, ret := a[1], a[2], a[3], a[4]
		n, _ := strconv.ParseInt(ret, 10, 64)
		if n < 0 {
			continue
		}
		path = string(unhexPath(path))
		isDB := path == file
		args := strings.Split(rest, ", ")
		switch {
		case isDB && name == "pwrite64" && len(args) == 3:
			off, _ := strconv.ParseInt(args[2], 10, 64)
			d := unhex(args[0])
			if int64(len(d)) < n {
				return nil
			}
			evs = append(evs, event{kind: "write", off: off, data: d[:n]})
		case isDB && name == "ftruncate":
			sz, _ := strconv.ParseInt(args[0], 10, 64)
			evs = append(evs, event{kind: "trunc", off: sz})
		case isDB && (name == "fdatasync" || name == "fsync"):
			evs = append(evs, event{kind: "sync"})
		case isDB:
			return nil // something this reader does not know
		case strings.HasPrefix(path, "socket:") || strings.HasPrefix(path, "TCP"):
			d := unhex(args[0])
			for len(d) > 0 {
				p, err := ber.DecodePacketErr(d)
				if err != nil {
					break
				}
				if m, err := decodeMsg(p); err == nil && m.Tag != tagEntry {
					evs = append(evs, event{kind: "ack", id: m.ID})
				}
				l := len(p.Bytes())
				if l > len(d) {
					break
				}
				d = d[l:]
			}
		}
	}
	return evs
}

func unhexPath(s string) []byte {
	if strings.HasPrefix(s, `\x`) {
		return unhex(s)
	}
	return []byte(s)
}

// apply plays events onto a file image.
func apply(img []byte, evs []event) []byte {
	for _, e := range evs {
		switch e.kind {
		case "write":
			if need := int(e.off) + len(e.data); need > len(img) {
				img = append(img, make([]byte, need-len(img))...)
			}
			copy(img[e.off:], e.data)
		case "trunc":
			if int(e.off) > len(img) {
				img = append(img, make([]byte, int(e.off)-len(img))...)
			} else {
				img = img[:e.off]
			}
		}
	}
	return img
}

// TestC02: an acknowledged write survives, an unacknowledged one is all or nothing.
func TestC02(t *testing.T) {
	cheapArgon()
	// Restarts between writes, on exactly the bytes in the file.
	leg(t, "restart", 60, func(rt *rapid.T) {
		w := newBoltFile(rt, c02Base, append(c02Users(), c02Bulk(rt)...)...)
		w.keep = true
		start := func() *Client {
			srv, err := startServer(&server.Config{LDAPHandler: "boltdb", LDAPBaseDN: w.base.String(), LDAPAdminDN: w.admin.String(), BoltDBFile: w.file})
			if err != nil {
				rt.Fatalf("server does not start on its own database: %v\nhistory:\n%s", err, strings.Join(w.log, "\n"))
			}
			w.srv = srv
			cl := srv.Dial("127.0.0.1")
			bindAs(rt, cl, w.admin.String(), adminPw)
			return cl
		}
		cl := start()
		defer func() { w.stop() }()
		restarts := 0
		steps(rt, 14, func(rt *rapid.T) {
			w.write2(rt, cl, 1)
			if rapid.IntRange(0, 3).Draw(rt, "restart") > 0 {
				return
			}
			restarts++
			w.logf("crash and restart")
			next := join(w.dir, fmt.Sprintf("r%d.db", restarts))
			copyFile(next, w.file) // the process may die right now
			w.srv.Stop()
			os.Remove(w.file)
			w.file = next
			cl = start()
			w.dump(rt, cl)
		})
		ev.Note("restarts", restarts)
		ev.Case(w.writes > 1 && restarts > 0, strings.Join(w.log, "\n"), "restart")
	})

	// A server process killed in the middle of its work.
	leg(t, "kill", 25, func(rt *rapid.T) {
		w := newBoltFile(rt, c02Base, c02Bulk(rt)...)
		defer os.RemoveAll(w.dir)
		states := []*Tree{w.tree}
		var buf []byte
		cur := w.tree
		n := rapid.IntRange(1, 25).Draw(rt, "writes")
		for i := 0; i < n; {
			g := cur.genWrite(rt, 1)
			if g.v == mayEither {
				g = write{"nothing", opDel("uid=none," + w.base.String()), cur, mustFail, false}
			}
			if g.v == mustSucceed {
				cur = g.next
			}
			i++
			buf = append(buf, envelope(int64(100+i), g.op).Bytes()...)
			states = append(states, cur)
			w.logf("%d: %s", i, g.what)
		}
		after := rapid.IntRange(0, n).Draw(rt, "killafter")
		spin := rapid.IntRange(0, 400).Draw(rt, "delay")
		ch, err := startChild(w.dir, nil, w.args()...)
		if err != nil {
			rt.Fatalf("server does not start: %v", err)
		}
		cl, err := ch.dial()
		must(err)
		bindAs(rt, cl, w.admin.String(), adminPw)
		go cl.sendRaw(buf)
		acks := 0
		killed := false
		for {
			if acks >= after && !killed {
				for end := time.Now().Add(time.Duration(spin) * time.Microsecond); time.Now().Before(end); {
				}
				ch.kill()
				killed = true
			}
			if _, err := cl.next(replyTimeout()); err != nil {
				break
			}
			acks++
		}
		cl.Close()
		es, err := readImage(w.file, w.base.String(), states)
		if err != nil {
			rt.Fatalf("database unreadable after a kill with %d acknowledged writes: %v\n%s", acks, err, strings.Join(w.log, "\n"))
		}
		at, why := matches(states, acks, len(states)-1, es)
		if at < 0 {
			rt.Fatalf("after a kill with %d of %d writes acknowledged the content is no later state: %s\nwrites:\n%s", acks, n, why, strings.Join(w.log, "\n"))
		}
		if k := w.admin.Key(); states[at].m[k] != nil && diffEntry(Entry{w.admin.String(), mapToAttrs(states[at].m[k].attrs)}, w.tree.m[k]) == "" {
			w.tree = states[at]
			w.carryOn(rt, w.file, 3)
			ev.Note("continued_after_a_crash", 1)
		}
		ev.Note("kills_with_writes_in_flight", boolInt(acks < n))
		ev.Case(acks < n && acks > 0, strings.Join(w.log, "\n")+fmt.Sprint(after), "kill")
	})

	// Every crash point of a history, taken from a trace of the server process.
	strace, _ := exec.LookPath("strace")
	traceable := strace != ""
	leg(t, "crashpoints", 12, func(rt *rapid.T) {
		if !traceable {
			ev.Note("histories_not_traced", 1)
			return
		}
		w := newBoltFile(rt, c02Base, append(c02Users(), c02Bulk(rt)...)...)
		w.keep = true
		defer os.RemoveAll(w.dir)
		img0, err := os.ReadFile(w.file)
		must(err)
		logf := join(w.dir, "trace")
		ch, err := startChildPrefix(w.dir, nil, []string{strace, "-D", "-f", "-y", "-xx", "-s", "10000000", "--seccomp-bpf", "-o", logf,
			"-e", "trace=pwrite64,pwritev,pwritev2,ftruncate,fdatasync,fsync,write,writev,sendto,sendmsg,fallocate,sync_file_range"}, w.args()...)
		if err != nil {
			if !strings.Contains(err.Error(), "ptrace") && !strings.Contains(err.Error(), "strace") {
				rt.Fatalf("server does not start: %v", err)
			}
			traceable = false
			ev.Note("histories_not_traced", 1)
			return
		}
		cl, err := ch.dial()
		must(err)
		bindAs(rt, cl, w.admin.String(), adminPw)
		states := []*Tree{w.tree}
		ids := map[int64]int{}
		for i, n := 1, rapid.IntRange(1, 8).Draw(rt, "writes"); i <= n; i++ {
			ids[w.write2(rt, cl, 1)] = i
			states = append(states, w.tree)
		}
		cl.Close()
		ch.cmd.Process.Signal(syscall.SIGTERM)
		select {
		case <-ch.done:
		case <-time.After(30 * time.Second):
			ch.kill()
		}
		raw, err := os.ReadFile(logf)
		must(err)
		evs := parseTrace(string(raw), w.file)
		final, err := os.ReadFile(w.file)
		must(err)
		if !bytes.Equal(apply(append([]byte(nil), img0...), evs), final) {
			ev.Note("histories_not_traced", 1)
			return // the trace does not explain the file: no crash points known
		}
		conts, wrote := 0, w.writes
		check := func(what string, img []byte, from, to int) {
			f := join(w.dir, "image.db")
			must(os.WriteFile(f, img, 0o600))
			journal("image: %s", what)
			es, err := readImage(f, w.base.String(), states)
			if err != nil {
				rt.Fatalf("%s: database unreadable: %v\nhistory:\n%s", what, err, strings.Join(w.log, "\n"))
			}
			at, why := matches(states, from, to, es)
			if at < 0 {
				rt.Fatalf("%s: content is none of the states after %d to %d writes: %s\nhistory:\n%s", what, from, to, why, strings.Join(w.log, "\n"))
			}
			if rapid.IntRange(0, 24).Draw(rt, "carryon") == 0 {
				log := w.log
				w.log = append(append([]string(nil), w.log...), what)
				w.tree = states[at]
				conts++
				f := join(w.dir, fmt.Sprintf("cont%d.db", conts))
				must(os.WriteFile(f, img, 0o600))
				w.carryOn(rt, f, 2)
				w.log = log
				ev.Note("continued_after_a_crash", 1)
			}
		}
		acked, synced, points, lost := 0, 0, 0, 0
		for k := 0; k <= len(evs); k++ {
			if k > 0 {
				switch e := evs[k-1]; e.kind {
				case "ack":
					if n := ids[e.id]; n > acked {
						acked = n
					}
				case "sync":
					synced = k
				}
			}
			to := minInt(acked+1, len(states)-1)
			img := apply(append([]byte(nil), img0...), evs[:k])
			check(fmt.Sprintf("process killed after %d of %d file operations", k, len(evs)), img, acked, to)
			points++
			if synced == k {
				continue
			}
			// Power loss: any part of what was not synchronised may be missing.
			for r := 0; r < 2; r++ {
				img := apply(append([]byte(nil), img0...), evs[:synced])
				var kept []string
				for j := synced; j < k; j++ {
					e := evs[j]
					switch rapid.IntRange(0, 3).Draw(rt, "fate") {
					case 0, 1:
						img = apply(img, []event{e})
						kept = append(kept, strconv.Itoa(j))
					case 2:
						if e.kind == "write" && len(e.data) > 512 {
							e.data = e.data[:512*rapid.IntRange(1, (len(e.data)-1)/512).Draw(rt, "sectors")]
							img = apply(img, []event{e})
							kept = append(kept, fmt.Sprintf("%d in part", j))
						}
					}
				}
				check(fmt.Sprintf("power lost after %d of %d file operations, %d synchronised, of the others kept: %v", k, len(evs), synced, kept), img, acked, to)
				lost++
			}
		}
		ev.Note("crash_points", points)
		ev.Note("power_loss_images", lost)
		ev.Note("file_operations", len(evs))
		ev.Case(wrote > 0, strings.Join(w.log, "\n"), "crashpoints")
	})

	// A full disk: refused writes leave no trace, accepted ones stay.
	prlimit, _ := exec.LookPath("prlimit")
	leg(t, "diskfull", 8, func(rt *rapid.T) {
		if prlimit == "" {
			ev.Note("full disk not exercised", 1)
			return
		}
		w := newBoltFile(rt, c02Base, c02Bulk(rt)...)
		defer os.RemoveAll(w.dir)
		st, err := os.Stat(w.file)
		must(err)
		limit := st.Size() + int64(rapid.IntRange(0, 40).Draw(rt, "pages"))*4096
		ch, err := startChildPrefix(w.dir, nil, []string{prlimit, fmt.Sprintf("--fsize=%d", limit)}, w.args()...)
		if err != nil {
			return // not even the start fits
		}
		defer ch.kill()
		cl, err := ch.dial()
		must(err)
		bindAs(rt, cl, w.admin.String(), adminPw)
		refused, accepted := 0, 0
		for i, n := 0, rapid.IntRange(2, 25).Draw(rt, "writes"); i < n; i++ {
			g := w.spare(w.tree.genWrite(rt, 1))
			if g.v == mustSucceed && rapid.IntRange(0, 2).Draw(rt, "big") == 0 {
				d := w.base.Child(RDN{{"cn", fmt.Sprintf("big%d", i)}})
				as := []Attr{{"cn", []string{fmt.Sprintf("big%d", i)}}, {"description", []string{strings.Repeat("b", rapid.IntRange(1000, 30000).Draw(rt, "len"))}}}
				next, v := w.tree.add(d, as)
				g = write{"add big " + d.String(), opAdd(d.String(), as), next, v, false}
			}
			w.logf("%s", g.what)
			r, err := cl.Do(g.op)
			if err != nil {
				rt.Fatalf("no answer on a full disk: %v\n%s", err, strings.Join(w.log, "\n"))
			}
			w.log[len(w.log)-1] += fmt.Sprintf(" -> %d", r.Code)
			if r.Code == 0 {
				if g.v == mustFail {
					rt.Fatalf("%s accepted", g.what)
				}
				w.tree = g.next
				accepted++
			} else if g.v == mustSucceed {
				refused++
			}
			w.dump(rt, cl)
		}
		cl.Close()
		ch.kill()
		es, err := readImage(w.file, w.base.String(), []*Tree{w.tree})
		if err != nil {
			rt.Fatalf("database unreadable after the disk was full: %v\n%s", err, strings.Join(w.log, "\n"))
		}
		if at, why := matches([]*Tree{w.tree}, 0, 0, es); at < 0 {
			rt.Fatalf("after a restart the content is not what was accepted: %s\n%s", why, strings.Join(w.log, "\n"))
		}
		ev.Note("writes_refused_by_full_disk", refused)
		ev.Case(refused > 0 && accepted > 0, strings.Join(w.log, "\n"), "diskfull")
	})

	// An orderly stop and start of the process on the same file.
	leg(t, "stopstart", 3, func(rt *rapid.T) {
		w := newBoltFile(rt, c02Base, append(c02Users(), c02Bulk(rt)...)...)
		w.keep = true
		defer os.RemoveAll(w.dir)
		runs := rapid.IntRange(2, 4).Draw(rt, "runs")
		for i := 0; i < runs; i++ {
			ch, err := startChild(w.dir, nil, w.args()...)
			if err != nil {
				rt.Fatalf("server does not start again: %v\nhistory:\n%s", err, strings.Join(w.log, "\n"))
			}
			cl, err := ch.dial()
			must(err)
			bindAs(rt, cl, w.admin.String(), adminPw)
			w.dump(rt, cl)
			for k := rapid.IntRange(1, 8).Draw(rt, "writes"); k > 0; k-- {
				w.write2(rt, cl, 1)
			}
			sig := rapid.SampledFrom([]syscall.Signal{syscall.SIGTERM, syscall.SIGINT}).Draw(rt, "signal")
			w.logf("stopped by signal %d", sig)
			ch.cmd.Process.Signal(sig)
			select {
			case <-ch.done:
			case <-time.After(replyTimeout()):
				ch.kill()
				rt.Fatalf("the server does not stop on signal %d", sig)
			}
			cl.Close()
		}
		es, err := readImage(w.file, w.base.String(), []*Tree{w.tree})
		if err != nil {
			rt.Fatalf("database unreadable: %v", err)
		}
		if at, why := matches([]*Tree{w.tree}, 0, 0, es); at < 0 {
			rt.Fatalf("content lost: %s\n%s", why, strings.Join(w.log, "\n"))
		}
		ev.Case(w.writes > 1, strings.Join(w.log, "\n"), "stopstart")
	})
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}
