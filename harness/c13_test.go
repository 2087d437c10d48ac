package vh

import (
	"fmt"
	"os"
	"strings"
	"testing"

	"github.com/libregraph/idm/server"
	"pgregory.net/rapid"
)

type account struct {
	dn DN
	st *stored // nil: no password
}

func genAccounts(rt *rapid.T, base DN, n int, wild int) []account {
	var out []account
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		r := RDN{{"uid", fmt.Sprintf("u%d", i)}}
		if wild > 0 && rapid.Bool().Draw(rt, "wilduser") {
			r = genRDN(rt, wild)
		}
		d := base.Child(r)
		if seen[d.Key()] {
			continue
		}
		seen[d.Key()] = true
		a := account{dn: d}
		switch rapid.IntRange(0, 9).Draw(rt, "pwkind") {
		case 0:
		case 1:
			s := genBroken(rt)
			a.st = &s
		default:
			s := genStored(rt, genPw(rt))
			a.st = &s
		}
		out = append(out, a)
	}
	return out
}

func accountEntries(as []account) []Entry {
	var out []Entry
	for _, a := range as {
		at := []Attr{}
		for _, v := range a.dn[0] {
			if len(at) > 0 && fold(at[len(at)-1].N) == fold(v.T) {
				at[len(at)-1].V = append(at[len(at)-1].V, v.V)
				continue
			}
			at = append(at, Attr{v.T, []string{v.V}})
		}
		at = append(at, Attr{"description", []string{"d"}})
		if a.st != nil {
			at = append(at, Attr{"userPassword", []string{a.st.val}})
		}
		out = append(out, Entry{a.dn.String(), at})
	}
	return out
}

func storedOf(as []account) []stored {
	var out []stored
	for _, a := range as {
		if a.st != nil {
			out = append(out, *a.st)
		}
	}
	return out
}

// TestC13: a simple bind succeeds exactly with the password of the named entry.
func TestC13(t *testing.T) {
	cheapArgon()
	// attempt tries one bind; want is decided by the model.
	attempt := func(rt *rapid.T, cl *Client, name, pw string, want bool, why, backend string, st *stored) {
		journal("bind %q %q", name, pw)
		r, err := cl.Do(opBind(name, pw))
		if err != nil {
			rt.Fatalf("%s: bind as %q with password %q got no answer: %v", backend, name, pw, err)
		}
		if (r.Code == 0) != want {
			rt.Fatalf("%s: bind as %q with password %q (%s): code %d, success must be %v", backend, name, pw, why, r.Code, want)
		}
		cls := []string{backend + "-refused"}
		scheme := "none"
		if st != nil {
			scheme = st.scheme
		}
		if want {
			cls[0] = backend + "-accepted-" + scheme
		}
		ev.Case(want || (st != nil && pw != ""), fmt.Sprintf("%s %q %q stored %s", name, pw, why, scheme), cls...)
	}
	run := func(rt *rapid.T, backend string) {
		base := boltBases[0]
		wild := 0
		if backend == "bolt" {
			base = rapid.SampledFrom(boltBases).Draw(rt, "base")
			wild = 2
		}
		as := genAccounts(rt, base, rapid.IntRange(1, 6).Draw(rt, "n"), wild)
		rest := accountEntries(as)
		if rapid.IntRange(0, 2).Draw(rt, "pwcase") == 0 {
			for _, e := range rest {
				if l := &e.Attrs[len(e.Attrs)-1]; l.N == "userPassword" {
					l.N = rapid.SampledFrom([]string{"userpassword", "USERPASSWORD", "UserPassword"}).Draw(rt, "pwname")
				}
			}
		}
		baseEntry := Entry{base.String(), []Attr{{base[0][0].T, []string{base[0][0].V}}}}
		var srv *Srv
		effective := map[string]*stored{}
		for _, a := range as {
			effective[a.dn.Key()] = a.st
		}
		switch backend {
		case "bolt":
			w := newBoltWorldAt(rt, base, nil, rest...)
			defer w.stop()
			srv = w.srv
		case "ldif":
			w := startLdif(rt, base.String(), append([]Entry{baseEntry}, rest...), nil)
			defer w.stop()
			srv = w.srv
		case "ldif-config":
			// Service accounts in a second file go first.
			cs := genAccounts(rt, base, rapid.SampledFrom([]int{1, 2, 3, 4, 12}).Draw(rt, "nc"), 0)
			for i := range cs {
				if rapid.Bool().Draw(rt, "svc") {
					cs[i].dn = base.Child(RDN{{"cn", fmt.Sprintf("svc%d", i)}})
				}
			}
			var uniq []account
			for _, c := range cs {
				dup := false
				for _, u := range uniq {
					dup = dup || u.dn.Key() == c.dn.Key()
				}
				if !dup {
					uniq = append(uniq, c)
				}
			}
			cs = uniq
			for _, c := range cs {
				effective[c.dn.Key()] = c.st
			}
			d := scratchDir("cfg")
			defer os.RemoveAll(d)
			cf := join(d, "config.ldif")
			must(os.WriteFile(cf, []byte(ldifText(accountEntries(cs))), 0o644))
			w := startLdif(rt, base.String(), append([]Entry{baseEntry}, rest...), func(c *server.Config) { c.LDIFConfig = cf })
			defer w.stop()
			srv = w.srv
			as = append(as, cs...)
		}
		cl := srv.Dial("127.0.0.1")
		steps(rt, 14, func(rt *rapid.T) {
			a := as[rapid.IntRange(0, len(as)-1).Draw(rt, "acc")]
			st := effective[a.dn.Key()]
			spell := func(d DN) string {
				if backend == "bolt" {
					return d.Respell(rt)
				}
				return flipCase(rt, d.String())
			}
			var guess string
			if st != nil {
				guess = genGuess(rt, *st, storedOf(as))
			} else {
				guess = rapid.SampledFrom([]string{"", "x", "secret", " "}).Draw(rt, "np")
			}
			switch rapid.IntRange(0, 11).Draw(rt, "what") {
			default:
				if st != nil && strings.HasPrefix(st.scheme, "crypt") && strings.Contains(guess, "\x00") {
					return
				}
				want := st != nil && guess != "" && st.accept(guess)
				attempt(rt, cl, spell(a.dn), guess, want, "an account", backend, st)
			case 8:
				// A neighbour: wrong parent, longer or shorter name.
				d := rapid.SampledFrom([]DN{a.dn.Child(a.dn[0]), append(DN{a.dn[0]}, base.Parent()...), append(DN{a.dn[0], {{"ou", "x"}}}, base...), base,
					base.Child(RDN{{a.dn[0][0].T, a.dn[0][0].V + "x"}}), base.Child(RDN{{"x" + a.dn[0][0].T, a.dn[0][0].V}}), {a.dn[0]}}).Draw(rt, "neighbour")
				if _, exists := effective[d.Key()]; exists {
					return
				}
				attempt(rt, cl, d.String(), guess, false, "not an account", backend, st)
			case 9:
				s := a.dn.String()
				bad := rapid.SampledFrom([]string{",", "+", "=", "\\", ",,", s[:len(s)/2], s + ",", "x" + s + "x", s + ",dc=other"}).Draw(rt, "bad")
				attempt(rt, cl, bad, guess, false, "not a name", backend, st)
			case 10:
				// Other ways to bind are not offered.
				op := opSASL(a.dn.String(), rapid.SampledFrom([]string{"PLAIN", "EXTERNAL", ""}).Draw(rt, "mech"))
				if rapid.Bool().Draw(rt, "v2") {
					op = opBindV(int64(rapid.SampledFrom([]int{0, 1, 2, 4, 127}).Draw(rt, "ver")), a.dn.String(), guess)
				}
				r, err := cl.Do(op)
				if err != nil || r.Code == 0 {
					rt.Fatalf("%s: bind with unsupported method or version: %v %+v", backend, err, r)
				}
			case 11:
				attempt(rt, cl, "", guess+"x", false, "no name but a password", backend, st)
			}
		})
	}
	leg(t, "bolt", 120, func(rt *rapid.T) { run(rt, "bolt") })
	leg(t, "ldif", 80, func(rt *rapid.T) { run(rt, "ldif") })
	leg(t, "ldif-config", 80, func(rt *rapid.T) { run(rt, "ldif-config") })
}
