package vh

import (
	"encoding/base64"
	"fmt"
	"strings"
	"testing"

	"github.com/alexedwards/argon2id"
	"github.com/libregraph/idm/pkg/ldappassword"
	"pgregory.net/rapid"
)

// cheapArgon makes hashes created by this process fast.
func cheapArgon() {
	ldappassword.Argon2DefaultParams = &argon2id.Params{Memory: 64, Iterations: 1, Parallelism: 1, SaltLength: 16, KeyLength: 32}
}

// accepts calls the code under test and turns a panic into a failure.
func accepts(rt *rapid.T, pw, val string) (ok bool) {
	defer func() {
		if r := recover(); r != nil && !strings.HasPrefix(fmt.Sprintf("%T", r), "rapid") {
			rt.Fatalf("validating %q against stored value %q panics: %v", pw, val, r)
		}
	}()
	ok, err := ldappassword.Validate(pw, val)
	return ok && err == nil
}

// TestC14: stored passwords accept exactly the password they were made from.
func TestC14(t *testing.T) {
	cheapArgon()
	check := func(rt *rapid.T, s stored, others []stored) {
		right, wrong := 0, 0
		for i := 0; i < 5; i++ {
			g := genGuess(rt, s, others)
			if strings.HasPrefix(s.scheme, "crypt") && strings.Contains(g, "\x00") {
				continue // the C library ends passwords there
			}
			want := s.accept(g)
			journal("validate %q %q", g, s.val)
			if got := accepts(rt, g, s.val); got != want {
				rt.Fatalf("%s: stored value %q made from %q: password %q accepted=%v, must be %v", s.scheme, s.val, s.pw, g, got, want)
			}
			if want {
				right++
			} else {
				wrong++
			}
		}
		ev.Case(right > 0 && wrong > 0 || s.scheme == "broken", fmt.Sprintf("%q of %q", s.val, s.pw), s.scheme)
	}
	leg(t, "schemes", 1500, func(rt *rapid.T) {
		s := genStored(rt, genPw(rt))
		check(rt, s, []stored{genStored(rt, genPw(rt))})
	})
	leg(t, "broken", 400, func(rt *rapid.T) {
		s := genBroken(rt)
		if rapid.Bool().Draw(rt, "cut") {
			// A hash that was cut short or changed.
			o := genStored(rt, genPw(rt))
			if o.scheme != "plain" {
				n := rapid.IntRange(0, len(o.val)-1).Draw(rt, "at")
				st := strings.Index(o.val, "}") + 1
				if n > st {
					// The scheme stays, the rest is cut: nothing is accepted.
					v := o.val[:n]
					if o.scheme == "ssha" && rapid.Bool().Draw(rt, "longer") {
						// A value that holds more than it should.
						b, err := base64.StdEncoding.DecodeString(o.val[st:])
						must(err)
						k := rapid.SampledFrom([]int{0, 0, len(b), rapid.IntRange(0, len(b)).Draw(rt, "where")}).Draw(rt, "into")
						v = o.val[:st] + base64.StdEncoding.EncodeToString([]byte(string(b[:k])+strings.Repeat("j", rapid.IntRange(1, 30).Draw(rt, "junk"))+string(b[k:])))
					}
					if strings.HasPrefix(o.scheme, "crypt") || o.scheme == "ssha" || o.scheme == "argon2" {
						s = stored{v, "broken", o.pw, never}
					}
				}
			}
		}
		check(rt, s, nil)
	})
	leg(t, "any", 1500, func(rt *rapid.T) {
		// Arbitrary stored text must never crash the check; only plain text accepts.
		v := strings.Join(rapid.SliceOfN(rapid.SampledFrom([]string{"{", "}", "SSHA", "ssha", "CRYPT", "ARGON2", "$", "6", "a", "=", "x", " ", "$argon2id$", "v=19", "$m=64,t=1,p=1$", "YWJj", "\x00", "é"}), 0, 9).Draw(rt, "v"), "")
		g := rapid.SampledFrom([]string{"", "a", v, "secret"}).Draw(rt, "g")
		schemed := strings.HasPrefix(v, "{") && strings.Contains(v, "}")
		got := accepts(rt, g, v)
		if v == "" && got {
			rt.Fatalf("an empty stored value accepts password %q", g)
		}
		if v != "" && !schemed && got != (g == v) {
			rt.Fatalf("stored text %q without scheme: password %q accepted=%v", v, g, got)
		}
		if schemed && got {
			rt.Fatalf("stored text %q accepts password %q", v, g)
		}
		ev.Case(schemed, v, "arbitrary")
	})
	leg(t, "hash", 250, func(rt *rapid.T) {
		pw := genPw(rt)
		if rapid.IntRange(0, 3).Draw(rt, "wildpw") == 0 {
			pw = genText(rt, "pw", 2, 40)
		}
		alg := rapid.SampledFrom([]string{"{ARGON2}", "{ARGON2}", "{CLEARTEXT}", ""}).Draw(rt, "alg")
		if alg != "{ARGON2}" && strings.HasPrefix(pw, "{") {
			pw = "p" + pw // plain text that looks like a scheme cannot be stored as plain text
		}
		h1, err := ldappassword.Hash(pw, alg)
		if err != nil {
			rt.Fatalf("hashing %q as %s: %v", pw, alg, err)
		}
		h2, _ := ldappassword.Hash(pw, alg)
		if alg == "{ARGON2}" {
			if !strings.HasPrefix(h1, "{ARGON2}") {
				rt.Fatalf("hash %q does not carry its scheme", h1)
			}
			if h1 == h2 {
				rt.Fatalf("hashing %q twice gives the same value: no salt", pw)
			}
			if len(pw) > 4 && strings.Contains(h1, pw) {
				rt.Fatalf("hash %q contains the password", h1)
			}
		}
		if !accepts(rt, pw, h1) || !accepts(rt, pw, h2) {
			rt.Fatalf("password %q is refused by its own hash %q", pw, h1)
		}
		for _, g := range []string{"", pw + "x", strings.ToUpper(pw) + "1", h1} {
			if g != pw && accepts(rt, g, h1) && !(alg != "{ARGON2}" && g == h1) {
				rt.Fatalf("hash %q of %q accepts %q", h1, pw, g)
			}
		}
		ev.Case(alg == "{ARGON2}", pw, "hash"+alg)
	})
	leg(t, "generate", 60, func(rt *rapid.T) {
		n := rapid.IntRange(1, 64).Draw(rt, "len")
		a, err := ldappassword.GenerateRandomPassword(n)
		b, err2 := ldappassword.GenerateRandomPassword(n)
		if err != nil || err2 != nil || len(a) != n || len(b) != n {
			rt.Fatalf("generated passwords of length %d: %q %q %v %v", n, a, b, err, err2)
		}
		if n >= 12 && a == b {
			rt.Fatalf("two generated passwords are the same: %q", a)
		}
		for _, c := range []byte(a) {
			if c <= ' ' || c > '~' {
				rt.Fatalf("generated password %q holds unprintable characters", a)
			}
		}
		ev.Case(n >= 12, fmt.Sprint("length ", n), "generate")
	})
	// Statistics with bounds so wide that a generator drawing evenly from thirty
	// characters passes them with a probability above 1-1e-12.
	leg(t, "guess", 5, func(rt *rapid.T) {
		n := rapid.IntRange(12, 64).Draw(rt, "len")
		const rounds = 600
		seen := map[string]bool{}
		at := make([]map[byte]int, n)
		pairs := make([]int, n)
		for i := 0; i < rounds; i++ {
			p, err := ldappassword.GenerateRandomPassword(n)
			if err != nil || len(p) != n {
				rt.Fatalf("generated password of length %d: %q %v", n, p, err)
			}
			if seen[p] {
				rt.Fatalf("password %q was generated twice in %d", p, i)
			}
			seen[p] = true
			for j := range p {
				if at[j] == nil {
					at[j] = map[byte]int{}
				}
				at[j][p[j]]++
				if j > 0 && p[j] == p[j-1] {
					pairs[j]++
				}
			}
		}
		all := map[byte]bool{}
		for _, m := range at {
			for c := range m {
				all[c] = true
			}
		}
		if len(all) < 20 {
			rt.Fatalf("only %d different characters in %d generated passwords of length %d", len(all), rounds, n)
		}
		for j, m := range at {
			if len(m) < 8 {
				rt.Fatalf("only %d different characters at position %d of %d generated passwords", len(m), j, rounds)
			}
			for c, k := range m {
				if k > rounds/4 {
					rt.Fatalf("character %q is at position %d of %d in %d generated passwords", c, j, k, rounds)
				}
			}
			if pairs[j] > rounds/4 {
				rt.Fatalf("position %d repeats the one before in %d of %d generated passwords", j, pairs[j], rounds)
			}
		}
		ev.Case(true, fmt.Sprint("length ", n), "guess")
	})
}
