package vh

import (
	"fmt"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

// TestC17: the password modify operation changes exactly the intended password,
// for those who may, to exactly the intended value.
func TestC17(t *testing.T) {
	cheapArgon()
	leg(t, "bolt", 160, func(rt *rapid.T) {
		base := rapid.SampledFrom(boltBases[:3]).Draw(rt, "base")
		admin := base.Child(RDN{{"cn", "admin"}})
		users := []DN{admin, base.Child(RDN{{"uid", "u1"}}), base.Child(RDN{{"uid", "u2"}}), base.Child(RDN{{"cn", "A, B"}})}
		// Accounts whose names resemble those of others or that are kept below them.
		kin := []DN{users[1].Child(RDN{{"uid", "below"}}), users[1].Child(RDN{{"uid", "u1"}}), users[2].Child(RDN{{"cn", "deep"}, {"sn", "er"}}), base.Child(RDN{{"uid", "u11"}}), base.Child(RDN{{"uid", "xu1"}}),
			base.Child(RDN{{"cn", "u1"}}), base.Child(RDN{{"uid", "u1"}, {"cn", "u1"}}), base.Child(RDN{{"uid", "u1," + base[0].Respell(rt)}}), admin.Child(RDN{{"cn", "admin"}}), base.Child(RDN{{"cn", "administrator"}})}
		for i := rapid.IntRange(0, 3).Draw(rt, "kin"); i > 0; i-- {
			k := rapid.SampledFrom(kin).Draw(rt, "kind")
			dup := false
			for _, u := range users {
				dup = dup || u.Key() == k.Key()
			}
			if !dup {
				users = append(users, k)
			}
		}
		cur := map[string]stored{admin.Key(): {adminPw, "plain", adminPw, func(p string) bool { return p == adminPw }}}
		// Accounts may start with several stored passwords.
		others := map[string][]string{}
		var extra []Entry
		for i, u := range users[1:] {
			s := genStored(rt, genPw(rt))
			for strings.Contains(s.pw, "\x00") {
				s = stored{"p", "plain", "p", func(p string) bool { return p == "p" }}
			}
			cur[u.Key()] = s
			vals := []string{s.val}
			if rapid.IntRange(0, 4).Draw(rt, "several") == 0 {
				for k := rapid.IntRange(1, 2).Draw(rt, "others"); k > 0; k-- {
					p := fmt.Sprintf("other password %d", k)
					vals = append(vals, p)
					others[u.Key()] = append(others[u.Key()], p)
				}
			}
			extra = append(extra, Entry{u.String(), []Attr{{u[0][0].T, []string{u[0][0].V}}, {"description", []string{fmt.Sprint("keep", i)}}, {rapid.SampledFrom([]string{"userPassword", "userpassword", "UserPassword"}).Draw(rt, "pwname"), vals}}})
		}
		nopw := base.Child(RDN{{"uid", "nopw"}})
		extra = append(extra, Entry{nopw.String(), []Attr{{"uid", []string{"nopw"}}}})
		w := newBoltWorldAt(rt, base, nil, extra...)
		defer w.stop()
		fail := func(format string, args ...interface{}) {
			rt.Fatalf("%s\nhistory:\n%s", fmt.Sprintf(format, args...), strings.Join(w.log, "\n"))
		}
		adm := w.srv.Dial("127.0.0.1")
		bindAs(rt, adm, admin.String(), adminPw)
		look := func() map[string]string {
			r := search(rt, adm, SearchReq{Base: base.String(), Scope: 2, Filter: filterAll()})
			m := map[string]string{}
			for _, e := range r.Entries {
				d, _ := ParseDN(e.DN)
				if pv := e.get("userPassword"); len(pv) > 1+len(others[d.Key()]) {
					fail("entry %q has %d passwords", e.DN, len(pv))
				}
				m[d.Key()] = snapshot(withoutPasswords([]Entry{e}))[e.DN]
			}
			return m
		}
		before := look()
		try := func(u DN, pw string) bool {
			c := w.srv.Dial("127.0.0.1")
			defer c.Close()
			r, err := c.Do(opBind(u.String(), pw))
			if err != nil {
				fail("bind: %v", err)
			}
			return r.Code == 0
		}
		conns := map[int]*Client{}
		generated := map[string]bool{}
		changed, refused, gens := 0, 0, 0
		steps(rt, 9, func(rt *rapid.T) {
			req := rapid.IntRange(-1, len(users)-1).Draw(rt, "requester")
			cl := conns[req]
			if cl == nil {
				cl = w.srv.Dial("127.0.0.1")
				if req >= 0 {
					bindAs(rt, cl, users[req].Respell(rt), cur[users[req].Key()].pw)
				}
				conns[req] = cl
			}
			var target DN
			var id, old, np *string
			ptr := func(s string) *string { return &s }
			tk := rapid.IntRange(0, 9).Draw(rt, "target")
			switch {
			case tk < 3:
				if req >= 0 {
					target = users[req]
				}
			case tk == 3 && req >= 0:
				target = users[req]
				id = ptr(target.Respell(rt))
			case tk == 4:
				target = base.Child(RDN{{"uid", "missing"}})
				id = ptr(target.Respell(rt))
			case tk == 5:
				target = nopw
				id = ptr(target.Respell(rt))
			default:
				target = users[rapid.IntRange(0, len(users)-1).Draw(rt, "tu")]
				id = ptr(target.Respell(rt))
			}
			tcur, exists := cur[target.Key()]
			if target != nil && target.Key() == nopw.Key() {
				exists = true
			}
			oldOK := true
			switch rapid.IntRange(0, 4).Draw(rt, "old") {
			case 0, 1:
			case 2:
				if tcur.pw != "" {
					old = ptr(tcur.pw)
				}
			case 3:
				old = ptr("wrong old password")
				oldOK = false
			case 4:
				// The requester's own password does not count for others.
				if req >= 0 {
					old = ptr(cur[users[req].Key()].pw)
					oldOK = tcur.accept != nil && tcur.accept(*old)
				}
			}
			switch rapid.IntRange(0, 3).Draw(rt, "new") {
			case 0:
			case 1:
				np = ptr("")
			default:
				np = ptr(genPw(rt))
				if rapid.IntRange(0, 5).Draw(rt, "wildnew") == 0 {
					np = ptr(genText(rt, "np", 2, 20))
				} else if rapid.IntRange(0, 5).Draw(rt, "marked") == 0 {
					// Looks like a stored value, but is what the user types.
					np = ptr(rapid.SampledFrom([]string{"{SSHA}x", "{CLEARTEXT}", "{ARGON2}", "{x", "{CRYPT}$6$a$b", "{", "$6$salt$hash"}).Draw(rt, "mark") + genPw(rt))
				}
			}
			show := func(p *string) string {
				if p == nil {
					return "-"
				}
				return fmt.Sprintf("%q", *p)
			}
			who := "anonymous"
			if req >= 0 {
				who = users[req].String()
			}
			w.logf("%s: password of %s old %s new %s", who, show(id), show(old), show(np))
			op := opPwMod(id, old, np)
			if id == nil && old == nil && np == nil && rapid.Bool().Draw(rt, "nobody") {
				op = opExt(pwModOID, nil)
			}
			r, err := cl.Do(op)
			if err != nil {
				fail("password modify got no answer: %v", err)
			}
			w.log[len(w.log)-1] += fmt.Sprintf(" -> %d", r.Code)
			want := req >= 0 && exists && (req == 0 || users[req].Key() == target.Key()) && oldOK
			if (r.Code == 0) != want {
				fail("password modify by %s for %v answered %d, success must be %v", who, target, r.Code, want)
			}
			g, isGen := genPassword(r)
			if want {
				changed++
				prev := tcur
				newpw := ""
				if np == nil || *np == "" {
					if !isGen {
						fail("no generated password in the answer (value %q)", r.ExtValue)
					}
					if len(g) < 8 || generated[g] {
						fail("generated password %q is too short or was given before", g)
					}
					generated[g] = true
					gens++
					newpw = g
				} else {
					newpw = *np
					if isGen {
						fail("a password was generated although one was given")
					}
				}
				if !try(target, newpw) {
					fail("the new password %q of %s is refused", newpw, target)
				}
				if prev.pw != "" && prev.pw != newpw && try(target, prev.pw) {
					fail("the old password %q of %s is still accepted", prev.pw, target)
				}
				for _, p := range others[target.Key()] {
					if p != newpw && try(target, p) {
						fail("the old password %q of %s is still accepted", p, target)
					}
				}
				delete(others, target.Key())
				cur[target.Key()] = stored{"", "set", newpw, func(p string) bool { return p == newpw }}
				if prev.pw == "" {
					// The entry without password has one now: leave it alone from here on.
					users = append(users, nopw)
				}
				// Passwords are not kept in clear text.
				rr := search(rt, adm, SearchReq{Base: target.String(), Scope: 0, Filter: filterAll()})
				for _, e := range rr.Entries {
					for _, v := range e.get("userPassword") {
						if v == newpw || (len(newpw) > 5 && strings.Contains(v, newpw)) {
							fail("the new password %q of %s is stored in clear text", newpw, target)
						}
					}
				}
			} else {
				refused++
				if isGen {
					fail("a refused request returned a generated password")
				}
			}
			for _, u := range users {
				if s := cur[u.Key()]; s.pw != "" && !try(u, s.pw) {
					fail("after that request the password %q of %s is refused", s.pw, u)
				}
			}
			if d := sameSnap(before, look()); d != "" {
				fail("other data changed: %s", d)
			}
		})
		ev.Note("changed", changed)
		ev.Note("refused", refused)
		ev.Note("generated", gens)
		ev.Case(changed > 0, strings.Join(w.log, "\n"), fmt.Sprintf("generated=%v", gens > 0), fmt.Sprintf("refused=%v", refused > 0))
	})
	leg(t, "ldif", 15, func(rt *rapid.T) {
		base := boltBases[0]
		u := base.Child(RDN{{"uid", "u"}})
		w := startLdif(rt, base.String(), []Entry{{base.String(), []Attr{{"dc", []string{"lg"}}}}, {u.String(), []Attr{{"uid", []string{"u"}}, {"userPassword", []string{"pw"}}}}}, nil)
		defer w.stop()
		cl := w.srv.Dial("127.0.0.1")
		bindAs(rt, cl, u.String(), "pw")
		np := "new"
		r, err := cl.Do(opPwMod(nil, nil, &np))
		if err != nil || r.Code == 0 {
			rt.Fatalf("password modify on a read-only source: %v %+v", err, r)
		}
		bindAs(rt, cl, u.String(), "pw")
		ev.Case(true, "ldif", "ldif")
	})
}
