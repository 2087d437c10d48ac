package vh

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"testing"

	ber "github.com/go-asn1-ber/asn1-ber"
	"golang.org/x/text/cases"
	"pgregory.net/rapid"
)

// snapshot maps every returned DN to a rendering of its attributes.
func snapshot(es []Entry) map[string]string {
	m := map[string]string{}
	for _, e := range es {
		var p []string
		for k, v := range e.byName() {
			p = append(p, fmt.Sprintf("%s=%q", k, v))
		}
		sort.Strings(p)
		m[e.DN] = strings.Join(p, ";")
	}
	return m
}

func sameSnap(a, b map[string]string) string {
	for k, v := range a {
		w, ok := b[k]
		if !ok {
			return fmt.Sprintf("%q disappeared", k)
		}
		if v != w {
			return fmt.Sprintf("%q changed from %s to %s", k, v, w)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			return fmt.Sprintf("%q appeared", k)
		}
	}
	return ""
}

var dnFrags = []string{"cn", "CN", "uid", "ou", "dc", "o", "=", "=", "=", ",", ",", "+", "\\", "\\,", "\\2c", "\\+", "\\\\", "\\00", "\\0", "\\zz",
	"#", "#0401ff", "\"", "a", "b", "A", " ", "  ", "ß", "ss", "SS", "İ", "i̇", "ſ", "s", "K", "k", "é", "\xff", "\x00", ";", "<", ">", "lg", "local",
	"dc=lg,dc=local", ",dc=lg,dc=local", ",DC=LG,dc=Local", ", dc=lg , dc=local", ",ou=x,dc=lg,dc=local", "1.2.3", "*", "(", "}"}

func genWeirdDN(rt *rapid.T, known []string) string {
	pick := func() string { return rapid.SampledFrom(known).Draw(rt, "kdn") }
	switch rapid.IntRange(0, 9).Draw(rt, "wk") {
	case 0, 1:
		return pick()
	case 2, 3:
		return "cn=" + strings.Join(rapid.SliceOfN(rapid.SampledFrom(dnFrags), 1, 4).Draw(rt, "fr"), "") + "," + pick()
	case 4:
		return rapid.SampledFrom([]string{"cn=a,", "ou=x,", "uid=b+cn=a,", "cn=\\ a\\ ,", "cn=\\,,", "o=ß,", "o=SS,", "cn=,"}).Draw(rt, "pre") + pick()
	case 5:
		// Damage a known DN.
		s := pick()
		i := rapid.IntRange(0, len(s)).Draw(rt, "at")
		j := rapid.IntRange(i, minInt(len(s), i+3)).Draw(rt, "to")
		return s[:i] + rapid.SampledFrom(append([]string{""}, dnFrags...)).Draw(rt, "ins") + s[j:]
	case 6:
		return flipCase(rt, strings.ToValidUTF8(pick(), "?"))
	case 7:
		return rapid.SampledFrom([]string{"", ",", "=", "cn", "cn=", "=x", ",dc=lg,dc=local", "dc=lg", "dc=local", "xdc=lg,dc=local", "cn=xdc=lg,dc=local", "lg,dc=local"}).Draw(rt, "edge")
	default:
		return strings.Join(rapid.SliceOfN(rapid.SampledFrom(dnFrags), 0, 7).Draw(rt, "frs"), "")
	}
}

// wideKey is the name of an entry under full Unicode case folding, where for
// example the sharp s equals ss. Bytes that are not UTF-8 are not valid in names
// and may all be taken for the replacement character.
func wideKey(d DN) string {
	full := func(s string) string { return cases.Fold().String(string([]rune(s))) }
	var p []string
	for _, r := range d {
		for _, a := range r {
			p = append(p, full(a.T)+"\x01"+full(a.V))
		}
		p = append(p, "\x02")
	}
	return strings.Join(p, "\x03")
}

// TestC05: whatever DNs requests name, the tree stays a tree.
func TestC05(t *testing.T) {
	run := func(rt *rapid.T, mean int) {
		base := boltBases[0]
		if rapid.IntRange(0, 3).Draw(rt, "otherbase") == 0 {
			base = rapid.SampledFrom(boltBases).Draw(rt, "base")
		}
		w := newBoltWorldAt(rt, base, nil, Entry{"ou=x," + base.String(), []Attr{{"ou", []string{"x"}}}})
		defer w.stop()
		adm := func() *Client {
			c := w.srv.Dial("127.0.0.1")
			bindAs(rt, c, w.admin.String(), adminPw)
			return c
		}
		cl := adm()
		fail := func(format string, args ...interface{}) {
			rt.Fatalf(format+"\nhistory:\n%s", append(args, strings.Join(w.log, "\n"))...)
		}
		look := func(dn string, scope int) []Entry {
			r := search(rt, cl, SearchReq{Base: dn, Scope: scope, Filter: filterAll()})
			if r.Code != 0 {
				fail("search of %q scope %d failed with code %d", dn, scope, r.Code)
			}
			return r.Entries
		}
		known := []string{base.String(), w.admin.String(), "ou=x," + base.String()}
		before := snapshot(look(base.String(), 2))
		ok, refused := 0, 0
		steps(rt, mean, func(rt *rapid.T) {
			dn := strings.ReplaceAll(genWeirdDN(rt, known), boltBases[0].String(), base.String())
			var op *ber.Packet
			kind := rapid.SampledFrom([]string{"add", "add", "add", "delete", "modify", "rename", "rename", "search"}).Draw(rt, "op")
			switch kind {
			case "add":
				op = opAdd(dn, []Attr{{"cn", []string{"a", "b"}}, {"description", []string{dn + "."}}})
				w.logf("add %q", dn)
			case "delete":
				op = opDel(dn)
				w.logf("delete %q", dn)
			case "modify":
				op = opModify(dn, []Change{{modReplace, Attr{"title", []string{fmt.Sprint(len(w.log))}}}})
				w.logf("modify %q", dn)
			case "rename":
				nr := rapid.SampledFrom([]string{"cn=c", "cn=d", "cn=a", "", "cn=", "x", "cn=e,ou=x", "cn=f+uid=b", "CN=A", "cn=\\,", "cn=ß", "cn=ss", "ou=x", "cn=g,"}).Draw(rt, "nrdn")
				del := rapid.Bool().Draw(rt, "del")
				op = opModDN(dn, nr, del)
				w.logf("rename %q to %q %v", dn, nr, del)
			case "search":
				w.logf("search %q", dn)
				r, err := cl.Do(opSearch(SearchReq{Base: dn, Scope: rapid.IntRange(0, 2).Draw(rt, "sc"), Filter: filterAll()}))
				if err != nil {
					fail("search: %v", err)
				}
				if r.Code != 0 {
					cl = adm() // a refused search may end the connection
				}
				return
			}
			r, err := cl.Do(op)
			if err != nil {
				fail("%s got no answer: %v", kind, err)
			}
			w.log[len(w.log)-1] += fmt.Sprintf(" -> %d", r.Code)
			all := look(base.String(), 2)
			after := snapshot(all)
			if len(after) != len(all) {
				fail("two entries are returned under the same DN")
			}
			if r.Code != 0 {
				refused++
				if d := sameSnap(before, after); d != "" {
					fail("refused %s changed the tree: %s", kind, d)
				}
				return
			}
			ok++
			// An accepted request touches exactly one entry.
			gone, came, changed := 0, 0, 0
			for k, v := range before {
				if x, there := after[k]; !there {
					gone++
				} else if x != v {
					changed++
				}
			}
			for k := range after {
				if _, there := before[k]; !there {
					came++
				}
			}
			good := false
			switch kind {
			case "add":
				good = came == 1 && gone == 0 && changed == 0
			case "delete":
				good = came == 0 && gone == 1 && changed == 0
			case "modify":
				good = came == 0 && gone == 0 && changed <= 1
			case "rename":
				good = came == gone && came+changed <= 1
			}
			if !good {
				fail("accepted %s of %q: %d entries appeared, %d disappeared, %d changed", kind, dn, came, gone, changed)
			}
			if kind == "add" || kind == "modify" {
				if got := look(dn, 0); len(got) != 1 {
					fail("entry %q is not found after its %s was accepted", dn, kind)
				}
			}
			if kind == "delete" {
				if r, err := cl.Do(opDel(dn)); err != nil || r.Code == 0 {
					fail("entry %q can be deleted twice (%v)", dn, err)
				}
			}
			// The tree is connected, and each entry is found under its name.
			keys := map[string]string{}
			for _, e := range all {
				d, err := ParseDN(e.DN)
				if err != nil {
					fail("returned DN %q is not a DN: %v", e.DN, err)
				}
				if o, dup := keys[wideKey(d)]; dup {
					fail("%q and %q name the same entry", e.DN, o)
				}
				keys[wideKey(d)] = e.DN
				self := look(e.DN, 0)
				if len(self) != 1 || self[0].DN != e.DN {
					fail("entry %q is listed but not found by its name", e.DN)
				}
			}
			kids := 0
			for _, e := range all {
				d, _ := ParseDN(e.DN)
				if wideKey(d) != wideKey(base) {
					if _, there := keys[wideKey(d.Parent())]; !there {
						fail("entry %q has no parent", e.DN)
					}
				}
				for _, c := range look(e.DN, 1) {
					kids++
					cd, _ := ParseDN(c.DN)
					if wideKey(cd.Parent()) != wideKey(d) {
						fail("%q is listed as a child of %q", c.DN, e.DN)
					}
				}
			}
			if kids != len(all)-1 {
				fail("%d entries, but %d are listed as children", len(all), kids)
			}
			known = known[:0]
			for k := range after {
				known = append(known, k)
			}
			sort.Strings(known)
			before = after
		})
		// The same tree is there after reopening a copy of the file.
		b, err := os.ReadFile(w.file)
		must(err)
		cp := join(w.dir, "copy.db")
		must(os.WriteFile(cp, b, 0o600))
		db := openBolt(cp, base.String())
		es, err := dumpBolt(db, base.String())
		db.Close()
		if err != nil {
			fail("reopened database cannot be read: %v", err)
		}
		if d := sameSnap(before, snapshot(es)); d != "" {
			fail("reopened database differs: %s", d)
		}
		// The base stays, also when it is all there is.
		if rapid.IntRange(0, 3).Draw(rt, "strip") == 0 {
			for left := len(before); left > 1; {
				for _, e := range look(base.String(), 2) {
					if r, err := cl.Do(opDel(e.DN)); err != nil {
						fail("delete of %q: %v", e.DN, err)
					} else if r.Code == 0 {
						w.logf("delete %q", e.DN)
					}
				}
				now := len(look(base.String(), 2))
				if now == left {
					fail("none of %d entries can be deleted", left)
				}
				left = now
			}
			for i := 0; i < 3; i++ {
				s := base.Respell(rt)
				op, what := opDel(s), "delete"
				if i == 1 {
					op, what = opModDN(s, base[0].Respell(rt), rapid.Bool().Draw(rt, "del")), "rename"
				} else if i == 2 {
					op, what = opModDN(s, "o=other", rapid.Bool().Draw(rt, "del")), "rename"
				}
				r, err := cl.Do(op)
				if err != nil || (r.Code == 0 && i != 1) {
					fail("%s of the base alone as %q: %v %+v", what, s, err, r)
				}
			}
			if all := look(base.String(), 2); len(all) != 1 || dnKeyOf(all[0].DN) != base.Key() {
				fail("the base alone became %v", all)
			}
			ev.Note("stripped", 1)
		}
		ev.Note("accepted", ok)
		ev.Note("refused", refused)
		ev.Case(ok > 0 && refused > 0, strings.Join(w.log, "\n"), "history")
	}
	leg(t, "weird", 220, func(rt *rapid.T) { run(rt, 12) })
	leg(t, "long", 20, func(rt *rapid.T) { run(rt, 50) })
}
