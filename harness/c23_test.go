package vh

import (
	"context"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/libregraph/idm/server"
	"pgregory.net/rapid"
)

var reloadBase = DN{{{"dc", "lg"}}, {{"dc", "local"}}}

// ver is the content of the source at one time. Every entry names its version.
type ver struct {
	no      int
	entries []Entry
	logins  []Entry // of the second source
	broken  string
	cache   map[string]string
}

var verNo int

func genVer(rt *rapid.T) *ver {
	verNo++
	v := &ver{no: verNo, cache: map[string]string{}}
	tag := fmt.Sprintf("v%d", verNo)
	base := reloadBase.String()
	v.entries = []Entry{{base, []Attr{{"dc", []string{"lg"}}, {"description", []string{tag}}}},
		{"uid=bob," + base, []Attr{{"uid", []string{"bob"}}, {"description", []string{tag}}, {"userPassword", []string{"pw-" + tag}}}}}
	n := rapid.SampledFrom([]int{1, 5, 20, 60, 200}).Draw(rt, "n")
	skip := rapid.IntRange(2, 9).Draw(rt, "skip")
	for i := 0; i < n; i++ {
		if i%skip == 0 {
			continue
		}
		u := fmt.Sprintf("u%d", i)
		v.entries = append(v.entries, Entry{"uid=" + u + "," + base, []Attr{{"uid", []string{u}}, {"description", []string{tag}},
			{"cn", []string{fmt.Sprintf("c%d", (i+verNo)%4)}}, {"mail", []string{u + "@" + tag}}}})
	}
	v.logins = []Entry{{"cn=svc," + base, []Attr{{"cn", []string{"svc"}}, {"userPassword", []string{"cfg-" + tag}}}}}
	return v
}

// rq is a request whose answer depends on the version served.
type rq struct {
	kind  string
	scope int
	base  string
	f     *Filt
	page  int64
	guess int // version whose password is tried
}

func (r rq) String() string {
	if r.kind == "bind" || r.kind == "svc" {
		return fmt.Sprintf("%s with the password of version %d", r.kind, r.guess)
	}
	return fmt.Sprintf("search %q scope %d %s pages of %d", r.base, r.scope, r.f, r.page)
}

func canonEntries(es []Entry) string {
	s := snapshot(es)
	ls := make([]string, 0, len(es))
	for _, e := range es {
		ls = append(ls, strings.ToLower(e.DN)+" "+s[e.DN])
	}
	sort.Strings(ls)
	return strings.Join(ls, "\n")
}

// want is the answer a server with this version gives.
func (v *ver) want(r rq) string {
	switch r.kind {
	case "bind", "svc":
		return fmt.Sprint(v.no == r.guess)
	}
	k := r.String()
	if c, ok := v.cache[k]; ok {
		return c
	}
	b, err := ParseDN(r.base)
	must(err)
	var es []Entry
	for _, e := range matchKeys(withoutPasswords(v.entries), b, r.scope, r.f) {
		es = append(es, e)
	}
	v.cache[k] = canonEntries(es)
	return v.cache[k]
}

// genReloadFilter draws a filter the answer to which changes from version to version.
func genReloadFilter(rt *rapid.T, deep int) *Filt {
	k := rapid.IntRange(0, 8).Draw(rt, "f")
	if deep == 0 && k > 5 {
		k -= 4
	}
	switch k {
	case 0, 1:
		return &Filt{Op: "eq", Attr: "cn", Val: fmt.Sprintf("c%d", rapid.IntRange(0, 3).Draw(rt, "c"))}
	case 2:
		return &Filt{Op: "eq", Attr: "uid", Val: fmt.Sprintf("u%d", rapid.IntRange(0, 20).Draw(rt, "u"))}
	case 3:
		i := rapid.SampledFrom([]string{"u", "u1", "u2"}).Draw(rt, "init")
		return &Filt{Op: "sub", Attr: rapid.SampledFrom([]string{"mail", "uid"}).Draw(rt, "a"), Init: &i}
	case 4, 5:
		return &Filt{Op: "pres", Attr: rapid.SampledFrom([]string{"mail", "uid", "cn", "description"}).Draw(rt, "a")}
	case 6:
		return &Filt{Op: "and", Kids: []*Filt{genReloadFilter(rt, deep-1), genReloadFilter(rt, deep-1)}}
	}
	f := &Filt{Op: "or"}
	for n := rapid.IntRange(2, 3).Draw(rt, "kids"); n > 0; n-- {
		f.Kids = append(f.Kids, genReloadFilter(rt, deep-1))
	}
	return f
}

func genRq(rt *rapid.T, versions []*ver) rq {
	base := reloadBase.String()
	switch rapid.IntRange(0, 9).Draw(rt, "rq") {
	case 8, 9:
		return rq{kind: "search", base: base, scope: 2, f: genReloadFilter(rt, 2), page: int64(rapid.SampledFrom([]int{0, 1, 3, 10, 50}).Draw(rt, "page"))}
	case 0, 1:
		return rq{kind: "bind", guess: rapid.SampledFrom(versions).Draw(rt, "guess").no}
	case 2:
		return rq{kind: "svc", guess: rapid.SampledFrom(versions).Draw(rt, "guess").no}
	case 3:
		return rq{kind: "search", base: base, scope: 2, f: &Filt{Op: "eq", Attr: "cn", Val: fmt.Sprintf("c%d", rapid.IntRange(0, 3).Draw(rt, "c"))}}
	case 4:
		return rq{kind: "search", base: fmt.Sprintf("uid=u%d,%s", rapid.IntRange(0, 10).Draw(rt, "u"), base), scope: 0, f: &Filt{Op: "pres", Attr: "uid"}}
	case 5:
		return rq{kind: "search", base: base, scope: 2, f: &Filt{Op: "pres", Attr: "description"}, page: int64(rapid.SampledFrom([]int{1, 3, 10, 50}).Draw(rt, "page"))}
	case 6:
		return rq{kind: "search", base: base, scope: 1, f: &Filt{Op: "pres", Attr: "mail"}}
	}
	return rq{kind: "search", base: base, scope: 2, f: &Filt{Op: "pres", Attr: "description"}}
}

// ask sends r and renders the answer like want.
func (r rq) ask(cl *Client) (string, error) { return r.askWith(cl, nil) }

// askWith calls between after every page but the last.
func (r rq) askWith(cl *Client, between func(page int)) (string, error) {
	switch r.kind {
	case "bind", "svc":
		dn, pw := "uid=bob,", fmt.Sprintf("pw-v%d", r.guess)
		if r.kind == "svc" {
			dn, pw = "cn=svc,", fmt.Sprintf("cfg-v%d", r.guess)
		}
		res, err := cl.Do(opBind(dn+reloadBase.String(), pw))
		if err != nil {
			return "", err
		}
		if res.Code != 0 && res.Code != 49 {
			return "", fmt.Errorf("bind answered %d", res.Code)
		}
		return fmt.Sprint(res.Code == 0), nil
	}
	var es []Entry
	var cookie []byte
	for n := 0; ; n++ {
		req := opSearch(SearchReq{Base: r.base, Scope: r.scope, Filter: r.f.Packet()})
		var res *Res
		var err error
		if r.page > 0 {
			res, err = cl.Do(req, pagingControl(r.page, cookie, false))
		} else {
			res, err = cl.Do(req)
		}
		if err != nil {
			return "", err
		}
		if res.Code == 32 && r.scope == 0 {
			return "", nil
		}
		if res.Code != 0 {
			return "", fmt.Errorf("search answered %d %q", res.Code, res.Diag)
		}
		es = append(es, res.Entries...)
		if cookie = res.Cookie; r.page == 0 || len(cookie) == 0 {
			return canonEntries(es), nil
		}
		if n > 10000 {
			return "", fmt.Errorf("paged search does not end")
		}
		if between != nil {
			between(n)
		}
	}
}

// srcFiles is where the source lives.
type srcFiles struct {
	kind              string // file, folder or config (file and second source)
	dir, main, config string
}

func newSrcFiles(kind string) *srcFiles {
	s := &srcFiles{kind: kind, dir: scratchDir("reload")}
	s.main = join(s.dir, "main.ldif")
	if kind == "folder" {
		s.main = join(s.dir, "ldif.d")
		must(os.Mkdir(s.main, 0o755))
	}
	if kind == "config" {
		s.config = join(s.dir, "config.ldif")
	}
	return s
}

func swapFile(path, text string) {
	must(os.WriteFile(path+".new", []byte(text), 0o644))
	must(os.Rename(path+".new", path))
}

// write puts a version in place; parts tells how a folder is split. A broken
// version never is in place without its flaw.
func (s *srcFiles) write(v *ver, parts int) {
	if v.broken == "config" {
		if s.config != "" {
			swapFile(s.config, ldifText(v.logins)+"\n\ngarbage\n")
			return
		}
		v.broken = "garbage"
	}
	os.RemoveAll(s.main + ".away")
	if v.broken == "missing" {
		if err := os.Rename(s.main, s.main+".away"); !os.IsNotExist(err) {
			must(err)
		}
		return
	}
	flaw := map[string]string{
		"garbage":   "\n\ngarbage\n",
		"duplicate": "\n\ndn: UID=bob," + reloadBase.String() + "\nuid: bob\n",
		"template":  "\n\n{{end}}\n",
		"cut":       "\n\ndn: uid=cut," + reloadBase.String() + "\n",
	}[v.broken]
	if s.kind == "folder" {
		must(os.MkdirAll(s.main, 0o755))
		for i := 0; i < 4; i++ {
			if i >= parts {
				os.Remove(join(s.main, fmt.Sprintf("%d.ldif", i)))
				continue
			}
			a, b := len(v.entries)*i/parts, len(v.entries)*(i+1)/parts
			text := ldifText(v.entries[a:b])
			if i == parts/2 {
				text += flaw
			}
			swapFile(join(s.main, fmt.Sprintf("%d.ldif", i)), text)
		}
	} else {
		swapFile(s.main, ldifText(v.entries)+flaw)
	}
	if s.config != "" {
		swapFile(s.config, ldifText(v.logins))
	}
}

var breakages = []string{"missing", "garbage", "duplicate", "template", "cut", "config"}

// TestC23: reloading replaces the served content at once or not at all.
func TestC23(t *testing.T) {
	kind := []string{"file", "folder", "config"}[shard%3]
	src := newSrcFiles(kind)
	defer os.RemoveAll(src.dir)
	var srv *Srv
	var cur *ver
	// begin serves a new version.
	begin := func(rt *rapid.T) {
		cur = genVer(rt)
		src.write(cur, 1)
		if srv == nil {
			var err error
			srv, err = startServer(&server.Config{LDAPHandler: "ldif", LDAPBaseDN: reloadBase.String(), LDIFMain: src.main, LDIFConfig: src.config, LDAPAllowLocalAnonymousBind: true, Logger: debugLogger()})
			if err != nil {
				rt.Fatalf("server does not start: %v", err)
			}
		} else if err := srv.H.Reload(context.Background()); err != nil {
			rt.Fatalf("reload of a valid source returned %v", err)
		}
	}
	leg(t, "schedules", 60, func(rt *rapid.T) {
		begin(rt)
		versions := []*ver{cur}
		var parts []int
		valid := 0
		for n := rapid.IntRange(1, 6).Draw(rt, "reloads"); n > 0; n-- {
			v := genVer(rt)
			if rapid.IntRange(0, 3).Draw(rt, "broken") == 0 {
				v.broken = rapid.SampledFrom(breakages).Draw(rt, "how")
			} else {
				valid++
			}
			versions = append(versions, v)
			parts = append(parts, rapid.IntRange(1, 4).Draw(rt, "parts"))
		}
		plans := make([][]rq, rapid.IntRange(1, 4).Draw(rt, "clients"))
		for i := range plans {
			for k := rapid.IntRange(1, 8).Draw(rt, "requests"); k > 0; k-- {
				plans[i] = append(plans[i], genRq(rt, versions))
			}
		}
		procs := rapid.SampledFrom([]int{1, 2, 4, 8}).Draw(rt, "procs")
		defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(procs))
		type seen struct {
			r      rq
			got    string
			err    error
			lo, hi int
		}
		var started, completed, stop atomic.Int64 // indexes into versions
		hist := make([][]seen, len(plans))
		var wg sync.WaitGroup
		for i := range plans {
			cl := srv.Dial("127.0.0.1")
			binder := srv.Dial("127.0.0.1")
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				defer cl.Close()
				defer binder.Close()
				for n := 0; n < 300; n++ {
					ending := stop.Load() == 1
					r := plans[i][n%len(plans[i])]
					s := seen{r: r, lo: int(completed.Load())}
					c := cl
					if r.kind != "search" {
						c = binder
					}
					s.got, s.err = r.ask(c)
					s.hi = int(started.Load())
					hist[i] = append(hist[i], s)
					if s.err != nil || ending && n >= len(plans[i]) {
						return
					}
				}
			}(i)
		}
		fail := ""
		for k, v := range versions[1:] {
			src.write(v, parts[k])
			started.Store(int64(k + 1))
			err := srv.H.Reload(context.Background())
			if (err == nil) != (v.broken == "") {
				fail = fmt.Sprintf("reload of version %d (broken: %q) returned %v", v.no, v.broken, err)
				break
			}
			if v.broken == "" {
				completed.Store(int64(k + 1))
				cur = v
			}
		}
		stop.Store(1)
		wg.Wait()
		if fail != "" {
			rt.Fatalf("%s (source: %s)", fail, kind)
		}
		// A last look after everything.
		final := srv.Dial("127.0.0.1")
		for _, r := range []rq{{kind: "search", base: reloadBase.String(), scope: 2, f: &Filt{Op: "pres", Attr: "description"}}, {kind: "bind", guess: cur.no}, {kind: "svc", guess: cur.no}} {
			if r.kind == "svc" && src.config == "" {
				continue
			}
			got, err := r.ask(final)
			if err != nil || got != cur.want(r) {
				rt.Fatalf("after reloads (source: %s) up to version %d: %s is answered with %v %.300s, must be %.300s", kind, cur.no, r, err, got, cur.want(r))
			}
		}
		final.Close()
		spread := map[int]bool{}
		total := 0
		for i, h := range hist {
			last := 0
			for n, s := range h {
				total++
				if s.err != nil {
					rt.Fatalf("client %d request %d (%s) during reloads: %v", i, n, s.r, s.err)
				}
				if s.r.kind == "svc" && src.config == "" {
					if s.got != "false" {
						rt.Fatalf("a login that does not exist works")
					}
					continue
				}
				ok := -1
				for k := s.lo; k <= s.hi && k < len(versions); k++ {
					if versions[k].broken == "" && (s.r.kind != "search" || k >= last) && versions[k].want(s.r) == s.got {
						ok = k
						break
					}
				}
				if ok < 0 {
					var all []string
					for k, v := range versions {
						if v.want(s.r) == s.got {
							all = append(all, fmt.Sprintf("version %d (#%d, broken %q)", v.no, k, v.broken))
						}
					}
					rt.Fatalf("client %d request %d (%s), sent when version #%d was in place and answered when #%d was being loaded, the same client having seen #%d before, got an answer that belongs to none of these versions (it fits %v), source %s:\n%.1500s", i, n, s.r, s.lo, s.hi, last, all, kind, s.got)
				}
				if s.r.kind == "search" && s.r.scope == 2 && s.r.page == 0 {
					last = ok
				}
				spread[ok] = true
			}
		}
		ev.Note("answers", total)
		ev.Note("reloads", len(versions)-1)
		var sig []string
		for _, v := range versions[1:] {
			sig = append(sig, fmt.Sprintf("%d%s", len(v.entries), v.broken))
		}
		ev.Case(len(spread) > 1 && valid > 0, fmt.Sprint(kind, sig, plans), "source="+kind, fmt.Sprintf("versions-seen=%d", minInt(len(spread), 4)))
	})
	// Reloads between the pages of searches.
	leg(t, "pages", 40, func(rt *rapid.T) {
		begin(rt)
		reload := func(v *ver, parts int) {
			src.write(v, parts)
			if err := srv.H.Reload(context.Background()); (err == nil) != (v.broken == "") {
				rt.Fatalf("reload of version %d (broken: %q) returned %v", v.no, v.broken, err)
			}
			if v.broken == "" {
				cur = v
			}
		}
		cl := srv.Dial("127.0.0.1")
		defer cl.Close()
		crossed := 0
		var sig []string
		for n := rapid.IntRange(1, 4).Draw(rt, "searches"); n > 0; n-- {
			r := rq{kind: "search", base: reloadBase.String(), scope: rapid.IntRange(1, 2).Draw(rt, "scope"), f: genReloadFilter(rt, 2), page: int64(rapid.SampledFrom([]int{1, 2, 3, 10}).Draw(rt, "page"))}
			first := cur
			versions := []*ver{cur}
			got, err := r.askWith(cl, func(page int) {
				if page > 12 || rapid.IntRange(0, 2).Draw(rt, "reload") > 0 {
					return
				}
				v := genVer(rt)
				if rapid.IntRange(0, 3).Draw(rt, "broken") == 0 {
					v.broken = rapid.SampledFrom(breakages).Draw(rt, "how")
				}
				reload(v, rapid.IntRange(1, 4).Draw(rt, "parts"))
				versions = append(versions, v)
				crossed++
			})
			if err != nil {
				rt.Fatalf("%s with %d reloads between pages: %v", r, len(versions)-1, err)
			}
			sig = append(sig, fmt.Sprint(r, len(versions)))
			fits := false
			for _, v := range versions {
				fits = fits || v.broken == "" && v.want(r) == got
			}
			if !fits {
				rt.Fatalf("%s, started on version %d, with %d reloads between pages (source %s), gives the content of none of the versions:\n%.1000s\nthe first version has\n%.1000s", r, first.no, len(versions)-1, kind, got, first.want(r))
			}
		}
		ev.Note("reloads_between_pages", crossed)
		ev.Case(crossed > 0, fmt.Sprint(kind, sig), "pages: "+kind)
	})
	// A signal that comes while the previous one is being served.
	leg(t, "overlap", 4, func(rt *rapid.T) {
		src := newSrcFiles("file")
		defer os.RemoveAll(src.dir)
		n := rapid.SampledFrom([]int{500, 2000, 5000}).Draw(rt, "entries")
		pad := ""
		for i := 0; i < n; i++ {
			pad += fmt.Sprintf("dn: uid=p%d,%s\nuid: p%d\ncn: pad\nmail: p%d@lg.local\n\n", i, reloadBase, i, i)
		}
		no := 0
		put := func() string {
			no++
			swapFile(src.main, fmt.Sprintf("dn: %s\ndc: lg\ndescription: %d\n\n%sdn: uid=last,%s\nuid: last\ndescription: %d\n", reloadBase, no, pad, reloadBase, no))
			return fmt.Sprint(no)
		}
		put()
		ch, err := startChild(src.dir, nil, "--ldap-base-dn", reloadBase.String(), "--log-level", "error", "--ldap-allow-local-anonymous", "--ldap-handler", "ldif", "--ldif-main", src.main)
		if err != nil {
			rt.Fatalf("server does not start: %v", err)
		}
		defer ch.kill()
		cl, err := ch.dial()
		must(err)
		time.Sleep(100 * time.Millisecond) // signals are handled from here on
		serves := func() []string {
			r := search(rt, cl, SearchReq{Base: reloadBase.String(), Scope: 2, Filter: pCtx(7, "description")})
			var out []string
			for _, e := range r.Entries {
				out = append(out, e.get("description")...)
			}
			return out
		}
		var sig []string
		for k := rapid.IntRange(3, 8).Draw(rt, "rounds"); k > 0; k-- {
			newest := ""
			var gaps []int
			for i := rapid.IntRange(2, 4).Draw(rt, "signals"); i > 0; i-- {
				newest = put()
				must(ch.cmd.Process.Signal(syscall.SIGHUP))
				gap := rapid.IntRange(0, 60).Draw(rt, "gap")
				gaps = append(gaps, gap)
				time.Sleep(time.Duration(gap) * time.Millisecond / 2)
			}
			sig = append(sig, fmt.Sprint(gaps))
			end := time.Now().Add(replyTimeout())
			for got := serves(); strings.Join(got, " ") != newest+" "+newest; got = serves() {
				if len(got) != 2 || got[0] != got[1] {
					rt.Fatalf("content of two versions is served at once: %q", got)
				}
				if time.Now().After(end) {
					hung.Store(true)
					rt.Fatalf("signals %v half milliseconds apart after each new version of %d entries: version %s was followed by a signal but version %s stays in service %s", gaps, n, newest, got[0], ch.out.String())
				}
				time.Sleep(2 * time.Millisecond)
			}
		}
		cl.Close()
		ev.Case(true, fmt.Sprint(n, sig), "overlapping signals")
	})
	leg(t, "signal", 6, func(rt *rapid.T) {
		kind := rapid.SampledFrom([]string{"file", "folder", "config", "boltdb"}).Draw(rt, "kind")
		src := newSrcFiles(kind)
		defer os.RemoveAll(src.dir)
		cur := genVer(rt)
		args := []string{"--ldap-base-dn", reloadBase.String(), "--log-level", "error", "--ldap-allow-local-anonymous"}
		if kind == "boltdb" {
			seedBolt(rt, join(src.dir, "db"), reloadBase.String(), withoutPasswords(cur.entries))
			args = append(args, "--ldap-handler", "boltdb", "--boltdb-file", join(src.dir, "db"))
		} else {
			src.write(cur, 1)
			args = append(args, "--ldap-handler", "ldif", "--ldif-main", src.main)
			if src.config != "" {
				args = append(args, "--ldif-config", src.config)
			}
		}
		ch, err := startChild(src.dir, nil, args...)
		if err != nil {
			rt.Fatalf("server does not start: %v", err)
		}
		defer ch.kill()
		cl, err := ch.dial()
		must(err)
		all := rq{kind: "search", base: reloadBase.String(), scope: 2, f: &Filt{Op: "pres", Attr: "description"}}
		time.Sleep(100 * time.Millisecond) // signals are handled from here on
		ask := func(r rq) string {
			got, err := r.ask(cl)
			if err != nil {
				rt.Fatalf("%s after a reload signal (%s source): %v %s", r, kind, err, ch.crashText())
			}
			return got
		}
		var sig []string
		steps(rt, 5, func(rt *rapid.T) {
			v := genVer(rt)
			if kind != "folder" && rapid.IntRange(0, 3).Draw(rt, "broken") == 0 {
				v.broken = rapid.SampledFrom(breakages).Draw(rt, "how")
			}
			if kind != "boltdb" {
				src.write(v, rapid.IntRange(1, 4).Draw(rt, "parts"))
			}
			burst := rapid.SampledFrom([]int{1, 1, 2, 5, 20}).Draw(rt, "burst")
			for i := 0; i < burst; i++ {
				must(ch.cmd.Process.Signal(syscall.SIGHUP))
			}
			sig = append(sig, fmt.Sprintf("%d%s*%d", len(v.entries), v.broken, burst))
			if v.broken != "" || kind == "boltdb" {
				for i := rapid.IntRange(1, 4).Draw(rt, "looks"); i > 0; i-- {
					if got := ask(all); got != cur.want(all) {
						rt.Fatalf("a reload that cannot work (%s, source %s) changed the content:\n%.500s\nmust be\n%.500s", v.broken, kind, got, cur.want(all))
					}
				}
				return
			}
			end := time.Now().Add(replyTimeout())
			for got := ask(all); got != v.want(all); got = ask(all) {
				if got != cur.want(all) {
					rt.Fatalf("during a reload by signal (%s source) the content is neither the old nor the new:\n%.800s", kind, got)
				}
				if time.Now().After(end) {
					hung.Store(true)
					rt.Fatalf("the content of a %s source does not change after a reload signal %s", kind, ch.out.String())
				}
				time.Sleep(2 * time.Millisecond)
			}
			for i := 0; i < 3; i++ {
				if got := ask(all); got != v.want(all) {
					rt.Fatalf("after a reload by signal (%s source) the content went back:\n%.800s", kind, got)
				}
			}
			cur = v
			binder, err := ch.dial()
			must(err)
			defer binder.Close()
			if got, err := (rq{kind: "bind", guess: v.no}).ask(binder); err != nil || got != "true" {
				rt.Fatalf("the new password does not work after a reload by signal: %v", err)
			}
		})
		cl.Close()
		if c := ch.crashText(); c != "" {
			rt.Fatalf("%s", c)
		}
		ev.Case(true, fmt.Sprint(kind, sig), "signal: "+kind)
	})
	if srv != nil {
		srv.Stop()
	}
}
