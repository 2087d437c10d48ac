// Package vh holds property-based checks for libregraph/idm. The code under
// test is only reached through its exported Go API, over the LDAP wire protocol
// or through the idmd binary.
package vh

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/sirupsen/logrus"
	"pgregory.net/rapid"
)

// ---- environment ----------------------------------------------------------

func envInt(name string, def int) int {
	if v := os.Getenv(name); v != "" {
		if n, err := strconv.Atoi(v); err == nil {
			return n
		}
	}
	return def
}

var (
	shard    = envInt("VH_SHARD", 0)
	shards   = envInt("VH_SHARDS", 1)
	scalePct = envInt("VH_SCALE", 100) // percentage applied to every budget
	thorough = os.Getenv("VERIF_TIER") == "thorough"
	scratch  = os.Getenv("VH_SCRATCH")
)

// idmdPath is the idmd binary built from the current tree by the runner.
func idmdPath() string {
	p := os.Getenv("VH_IDMD")
	if p == "" {
		infra("VH_IDMD not set")
	}
	return p
}

// infra reports an error of the check itself: it is never a violation.
func infra(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "VH-INFRA-ERROR: "+format+"\n", args...)
	os.Exit(3)
}

func must(err error) {
	if err != nil {
		infra("%v", err)
	}
}

// scratchDir returns a new directory below the run's scratch area.
func scratchDir(name string) string {
	base := scratch
	if base == "" {
		base = os.TempDir()
	}
	d, err := os.MkdirTemp(base, name+"-")
	must(err)
	return d
}

func budget(n int) int {
	n = n * scalePct / 100
	if n < 1 {
		n = 1
	}
	return n
}

const caseTimeout = 240 * time.Second

// leg runs one rapid property with its own case budget.
func leg(t *testing.T, name string, n int, f func(rt *rapid.T)) {
	t.Helper()
	must(flag.Set("rapid.checks", strconv.Itoa(budget(n))))
	t.Run(name, func(t *testing.T) {
		rapid.Check(t, func(rt *rapid.T) {
			journalReset(t.Name())
			// No case takes more than some seconds; one that does not end is
			// stuck in the code under test or in the check (see check.py).
			guard := time.AfterFunc(caseTimeout, func() {
				buf := make([]byte, 4<<20)
				fmt.Fprintf(os.Stderr, "VH-HANG: a case of %s does not end\n%s\n", t.Name(), buf[:runtime.Stack(buf, true)])
				os.Exit(4)
			})
			defer guard.Stop()
			f(rt)
		})
	})
}

// steps runs f a generated number of times (geometric with the given mean); the
// shrinker can drop single steps.
func steps(rt *rapid.T, mean int, f func(rt *rapid.T)) {
	must(flag.Set("rapid.steps", strconv.Itoa(mean)))
	rt.Repeat(map[string]func(*rapid.T){"step": f})
}

// quietLogger is the logger handed to the code under test.
func quietLogger() logrus.FieldLogger {
	l := logrus.New()
	l.SetOutput(io.Discard)
	l.SetLevel(logrus.PanicLevel)
	return l
}

// debugLogger formats every debug line, like a server run with debug level.
func debugLogger() logrus.FieldLogger {
	l := logrus.New()
	l.SetOutput(io.Discard)
	l.SetLevel(logrus.DebugLevel)
	return l
}

// ---- journal: the case in progress, for crashes that kill the process -----

var (
	journalMu sync.Mutex
	journalF  *os.File
)

func journalReset(name string) {
	journalMu.Lock()
	defer journalMu.Unlock()
	if journalF == nil {
		p := os.Getenv("VH_JOURNAL")
		if p == "" {
			return
		}
		f, err := os.Create(p)
		must(err)
		journalF = f
	}
	journalF.Truncate(0)
	journalF.Seek(0, 0)
	fmt.Fprintln(journalF, "case of", name)
}

func journal(format string, args ...interface{}) {
	journalMu.Lock()
	defer journalMu.Unlock()
	if journalF != nil {
		fmt.Fprintf(journalF, format+"\n", args...)
	}
}

// ---- evidence -------------------------------------------------------------

type evidence struct {
	mu          sync.Mutex
	Evaluations int64
	Nontrivial  int64
	hashes      map[uint64]struct{}
	Classes     map[string]int64
	Samples     []string
	perClass    map[string]int
	Notes       map[string]int64
}

var ev = &evidence{hashes: map[uint64]struct{}{}, Classes: map[string]int64{}, perClass: map[string]int{}, Notes: map[string]int64{}}

// Case records one evaluated case. fp identifies its content.
func (e *evidence) Case(nontrivial bool, fp string, classes ...string) {
	h := fnv.New64a()
	h.Write([]byte(fp))
	e.mu.Lock()
	defer e.mu.Unlock()
	e.Evaluations++
	for _, c := range classes {
		e.Classes[c]++
	}
	if !nontrivial {
		e.Classes["trivial"]++
		return
	}
	e.Nontrivial++
	if _, seen := e.hashes[h.Sum64()]; seen {
		return
	}
	e.hashes[h.Sum64()] = struct{}{}
	key := ""
	if len(classes) > 0 {
		key = classes[0]
	}
	if e.perClass[key] < 2 && len(e.Samples) < 12 {
		e.perClass[key]++
		s := fp
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		e.Samples = append(e.Samples, strings.ToValidUTF8(strings.TrimSpace(key+": "+s), "?"))
	}
}

// Note counts something that is not a case, e.g. operations or comparisons.
func (e *evidence) Note(name string, n int) {
	e.mu.Lock()
	e.Notes[name] += int64(n)
	e.mu.Unlock()
}

func (e *evidence) write() {
	p := os.Getenv("VH_OUT")
	if p == "" {
		return
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	hs := make([]string, 0, len(e.hashes))
	for h := range e.hashes {
		hs = append(hs, strconv.FormatUint(h, 16))
	}
	sort.Strings(hs)
	b, err := json.Marshal(map[string]interface{}{
		"evaluations": e.Evaluations, "nontrivial": e.Nontrivial, "hashes": hs,
		"classes": e.Classes, "samples": e.Samples, "notes": e.Notes,
	})
	must(err)
	must(os.WriteFile(p, b, 0o644))
}

// RunMain is called from TestMain.
func RunMain(m *testing.M) int {
	code := m.Run()
	ev.write()
	return code
}

func join(parts ...string) string { return filepath.Join(parts...) }
