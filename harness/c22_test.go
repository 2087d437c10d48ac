package vh

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"testing"

	"github.com/libregraph/idm/server"
	"pgregory.net/rapid"
)

var ldifBases = []DN{
	{{{"dc", "lg"}}, {{"dc", "local"}}},
	{{{"o", "libregraph-idm"}}},
	{{{"ou", "Unit"}}, {{"o", "Org"}}},
}

// genTreeEntries draws a tree of entries with arbitrary values.
func genTreeEntries(rt *rapid.T, base DN, n, wild int) []Entry {
	t := newTree(base)
	dns := []DN{base}
	out := []Entry{{base.String(), []Attr{{base[0][0].T, []string{base[0][0].V}}, {"objectClass", []string{"top"}}}}}
	t.m[base.Key()] = &mEntry{dn: base}
	for i := 0; i < n; i++ {
		d := dns[rapid.IntRange(0, len(dns)-1).Draw(rt, "par")].Child(genRDN(rt, 1)[:1])
		if t.has(d) {
			continue
		}
		t.m[d.Key()] = &mEntry{dn: d}
		dns = append(dns, d)
		var as []Attr
		for _, a := range genEntryAttrs(rt, d, wild) {
			if strings.Contains(a.N, "_") {
				continue // not a name LDIF knows
			}
			if rapid.IntRange(0, 30).Draw(rt, "empty") == 0 {
				a.V = append(a.V, "")
			}
			if rapid.IntRange(0, 60).Draw(rt, "huge") == 0 {
				a.V = append(a.V, strings.Repeat("0123456789abcde ", rapid.SampledFrom([]int{256, 4096, 4097, 9000}).Draw(rt, "hugelen"))+"e")
			}
			as = append(as, a)
		}
		if rapid.IntRange(0, 2).Draw(rt, "pw") == 0 {
			pw := Attr{rapid.SampledFrom([]string{"userPassword", "userpassword"}).Draw(rt, "pwname"), []string{fmt.Sprintf("pw-%d%s", i, genText(rt, "pwx", 0, 20))}}
			at := rapid.IntRange(0, len(as)).Draw(rt, "pwat")
			as = append(as[:at:at], append([]Attr{pw}, as[at:]...)...)
		}
		out = append(out, Entry{d.String(), as})
	}
	return out
}

// ldifSource is an LDIF file or folder on disk and what it describes.
type ldifSource struct {
	root, path string
	want       []Entry
	files      []string // text of every file
	names      []string
	features   []string
}

// genSource renders entries as LDIF.
func genSource(rt *rapid.T, v tplVars, entries []Entry, folder bool) *ldifSource {
	s := &ldifSource{root: scratchDir("src")}
	nfiles := 1
	s.path = join(s.root, "main.ldif")
	if folder {
		nfiles = rapid.IntRange(1, 4).Draw(rt, "nfiles")
		s.path = join(s.root, rapid.SampledFrom([]string{"ldif.d", "with space", "a[1]", "st*r", "q?", "back\\slash"}).Draw(rt, "dirname"))
		must(os.Mkdir(s.path, 0o755))
	}
	feats := map[string]bool{}
	order := []string{"00-base.ldif", "10.ldif", "a.ldif", "z z.ldif"}
	if rapid.IntRange(0, 2).Draw(rt, "names") == 0 {
		order = []string{"+1.ldif", "B.c.ldif", "_a.ldif", "ä-x.ldif"}
	}
	at := 0
	for i := 0; i < nfiles; i++ {
		n := len(entries) - at
		if i < nfiles-1 {
			n = rapid.IntRange(0, n).Draw(rt, "nin")
		}
		w := newLdifWriter(rt, s.root, v)
		w.noise(true)
		if w.chance(3, "version") {
			w.features["version"] = true
			w.raw("version: 1")
			if w.chance(2, "vblank") || n == 0 {
				w.raw("")
			}
		}
		for _, e := range entries[at : at+n] {
			w.entry(e)
		}
		at += n
		s.want = append(s.want, w.out...)
		s.files = append(s.files, w.text())
		s.names = append(s.names, order[i])
		for f := range w.features {
			feats[f] = true
		}
	}
	if folder {
		feats["folder"] = true
		if nfiles > 1 {
			feats["several files"] = true
		}
	}
	for f := range feats {
		s.features = append(s.features, f)
	}
	return s
}

func (s *ldifSource) write() {
	if s.path == join(s.root, "main.ldif") {
		must(os.WriteFile(s.path, []byte(s.files[0]), 0o644))
		return
	}
	for i, n := range s.names {
		must(os.WriteFile(join(s.path, n), []byte(s.files[i]), 0o644))
	}
	// Things that are not part of the source.
	must(os.WriteFile(join(s.path, "old.ldif.bak"), []byte("garbage"), 0o644))
	must(os.WriteFile(join(s.path, "README"), []byte("{{"), 0o644))
	must(os.MkdirAll(join(s.path, "sub"), 0o755))
	must(os.WriteFile(join(s.path, "sub", "x.ldif"), []byte("dn: cn=sub,o=sub\ncn: sub\n"), 0o644))
}

func (s *ldifSource) String() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "source %q\n", s.path)
	for i, f := range s.files {
		if len(f) > 3000 {
			f = f[:3000] + "..."
		}
		fmt.Fprintf(&sb, "--- %s\n%q\n", s.names[i], f)
	}
	return strings.ReplaceAll(sb.String(), s.root, "$ROOT")
}

// Values of settings that are left out.
const (
	defaultCompany = "Default"
	defaultMail    = "lg.local"
)

func genVars(rt *rapid.T, base DN) tplVars {
	return tplVars{
		company: rapid.SampledFrom([]string{"Corp", "A & B <c>", "Größe \"1\"", "x y", defaultCompany}).Draw(rt, "company"),
		mail:    rapid.SampledFrom([]string{defaultMail, "ex-ample.org"}).Draw(rt, "mail"),
		base:    base.String(),
		extra:   map[string]interface{}{"Extra": rapid.SampledFrom([]string{"e", "<&>", "ä"}).Draw(rt, "extra")},
	}
}

func (v tplVars) config(base DN, path string) *server.Config {
	c := &server.Config{LDAPHandler: "ldif", LDAPBaseDN: base.String(), LDIFMain: path, LDAPAllowLocalAnonymousBind: true,
		LDIFDefaultCompany: v.company, LDIFDefaultMailDomain: v.mail, LDIFTemplateExtraVars: v.extra}
	if v.company == defaultCompany {
		c.LDIFDefaultCompany = ""
	}
	if v.mail == defaultMail {
		c.LDIFDefaultMailDomain = ""
	}
	return c
}

// TestC22: an LDIF source is served exactly as written or refused.
func TestC22(t *testing.T) {
	leg(t, "content", 400, func(rt *rapid.T) {
		base := rapid.SampledFrom(ldifBases).Draw(rt, "base")
		v := genVars(rt, base)
		entries := genTreeEntries(rt, base, rapid.IntRange(0, 8).Draw(rt, "n"), 2)
		if rapid.IntRange(0, 19).Draw(rt, "nothing") == 0 {
			entries = nil
		}
		s := genSource(rt, v, entries, rapid.Bool().Draw(rt, "folder"))
		defer os.RemoveAll(s.root)
		s.write()
		srv, err := startServer(v.config(base, s.path))
		if err != nil {
			rt.Fatalf("a valid LDIF source is refused: %v\n%s", err, s)
		}
		defer srv.Stop()
		cl := srv.Dial("127.0.0.1")
		r := search(rt, cl, SearchReq{Base: base.String(), Scope: 2, Filter: filterAll()})
		if r.Code != 0 && !(r.Code == 32 && len(entries) == 0) {
			rt.Fatalf("search answered %d", r.Code)
		}
		if d := sameContent(r.Entries, withoutPasswords(s.want)); d != "" {
			rt.Fatalf("LDIF source not served as written: %s\n%s", d, s)
		}
		for _, e := range s.want {
			pw := e.get("userPassword")
			if len(pw) == 0 {
				continue
			}
			ev.Note("passwords_tried", 1)
			c := srv.Dial("127.0.0.1")
			b, err := c.Do(opBind(e.DN, pw[0]))
			if err != nil || b.Code != 0 {
				rt.Fatalf("the password of %q given in the LDIF source does not work: %v %+v\n%s", e.DN, err, b, s)
			}
		}
		ev.Note("values_compared", countValues(s.want))
		ev.Case(len(s.features) >= 2 && len(s.want) > 1, s.String(), s.features...)
	})
	leg(t, "big", 25, func(rt *rapid.T) {
		base := ldifBases[0]
		es, shape := bigEntries(rt, base)
		es = append([]Entry{{base.String(), []Attr{{"dc", []string{"lg"}}}}}, es...)
		if rapid.IntRange(0, 5).Draw(rt, "megabytes") == 0 {
			// Large as a whole, not by one value.
			shape += ", megabytes"
			for i := rapid.IntRange(20, 90).Draw(rt, "more"); i > 0; i-- {
				es = append(es, Entry{fmt.Sprintf("cn=filler%d,%s", i, base), []Attr{{"cn", []string{fmt.Sprintf("filler%d", i)}}, {"description", []string{strings.Repeat(fmt.Sprintf("text %d ", i), 6000)}}}})
			}
		}
		w := startLdif(rt, base.String(), es, nil)
		defer w.stop()
		r := search(rt, w.srv.Dial("127.0.0.1"), SearchReq{Base: base.String(), Scope: 2, Filter: filterAll()})
		if d := sameContent(r.Entries, es); r.Code != 0 || d != "" {
			rt.Fatalf("LDIF source of %d entries (%s) not served as written: code %d %.2000s", len(es), shape, r.Code, d)
		}
		ev.Note("values_compared", countValues(es))
		ev.Case(true, fmt.Sprintf("%d entries, %d values, %s: %.200q", len(es), countValues(es), shape, es[len(es)-1].DN), "big-"+shape)
	})
	leg(t, "refusal", 250, func(rt *rapid.T) {
		base := rapid.SampledFrom(ldifBases).Draw(rt, "base")
		v := genVars(rt, base)
		entries := genTreeEntries(rt, base, rapid.IntRange(1, 5).Draw(rt, "n"), 2)
		s := genSource(rt, v, entries, rapid.Bool().Draw(rt, "folder"))
		defer os.RemoveAll(s.root)
		victim := s.want[rapid.IntRange(0, len(s.want)-1).Draw(rt, "victim")].DN
		newDN := "cn=flawed-entry," + base.String()
		flaws := map[string]string{
			"duplicate name":             "dn: " + rapid.SampledFrom([]string{victim, strings.ToUpper(victim), strings.ToLower(victim)}).Draw(rt, "dup") + "\ncn: x\n",
			"repeated name in one file":  "dn: " + newDN + "\ncn: x\n\ndn: " + strings.ToUpper(newDN) + "\ncn: y\n",
			"broken base64":              "dn: " + newDN + "\ncn:: " + rapid.SampledFrom([]string{"YQ", "!!!!", "YWJj*", "YWJjZ"}).Draw(rt, "b64") + "\n",
			"line without colon":         "dn: " + newDN + "\ncn: x\ngarbage\nsn: y\n",
			"record without a name":      "cn: x\nsn: y\n",
			"broken name encoding":       "dn:: %%%\ncn: x\n",
			"attribute name not allowed": "dn: " + newDN + "\nc_n!: x\n",
			"missing file":               "dn: " + newDN + "\ncn:< file://" + join(s.root, "absent") + "\n",
			"unknown directive":          "dn: " + newDN + "\ncn: {{nope}}\n",
			"open directive":             "dn: " + newDN + "\ncn: {{.Company\n",
			"open block":                 "{{with .}}\ndn: " + newDN + "\ncn: x\n",
			"failing directive":          "dn: " + newDN + "\ncn: {{index .Company 1000}}\n",
			"missing template file":      "dn: " + newDN + "\ncn:: {{formatAsFileBase64 \"absent\"}}\n",
			"not a number":               "dn: " + newDN + "\ncn: {{AutoIncrement \"x\"}}\n",
			"change record":              "dn: " + newDN + "\nchangetype: add\ncn: x\n",
			"deletion record":            "dn: " + newDN + "\nchangetype: delete\n",
		}
		names := make([]string, 0, len(flaws))
		for n := range flaws {
			names = append(names, n)
		}
		sort.Strings(names)
		unreadable := []string{"link to nothing", "folder instead of file", "source missing"}
		name := rapid.SampledFrom(append(names, unreadable...)).Draw(rt, "flaw")
		flaw := flaws[name]
		if name == "duplicate name" && !ldifPlain(victim) {
			flaw = flaws["repeated name in one file"]
		}
		cfg := v.config(base, s.path)
		refused := func() {
			srv, err := startServer(cfg)
			if err == nil {
				defer srv.Stop()
				r := search(rt, srv.Dial("127.0.0.1"), SearchReq{Base: base.String(), Scope: 2, Filter: filterAll()})
				rt.Fatalf("an LDIF source with a flaw (%s) is served as %d entries instead of being refused\n%s", name, len(r.Entries), s)
			}
			ev.Case(true, name+"\n"+s.String(), "refused: "+name)
		}
		if flaw == "" {
			s.write()
			bad := s.path
			if info, err := os.Stat(s.path); err == nil && info.IsDir() && name != "source missing" {
				bad = join(s.path, rapid.SampledFrom([]string{"0.ldif", "b.ldif", "zzz.ldif"}).Draw(rt, "badname"))
			} else if rapid.Bool().Draw(rt, "logins") {
				bad = join(s.root, "logins.ldif")
				cfg.LDIFConfig = bad
			} else {
				must(os.RemoveAll(s.path))
			}
			switch name {
			case "link to nothing":
				must(os.Symlink(join(s.root, "absent"), bad))
			case "folder instead of file":
				if bad == s.path {
					bad = join(s.path, "x.ldif")
				}
				must(os.MkdirAll(bad, 0o755))
			}
			refused()
			return
		}
		if name != "change record" && rapid.IntRange(0, 3).Draw(rt, "inlogins") == 0 {
			// The same flaw in the source of the logins.
			if name == "duplicate name" {
				flaw = flaws["repeated name in one file"]
			}
			s.write()
			cfg.LDIFConfig = join(s.root, "logins.ldif")
			text := "dn: cn=login," + base.String() + "\nuserPassword: x\n\n" + flaw
			must(os.WriteFile(cfg.LDIFConfig, []byte(text), 0o600))
			refused()
			return
		}
		at := rapid.IntRange(0, len(s.files)-1).Draw(rt, "flawat")
		s.files[at] = strings.TrimRight(s.files[at], "\r\n") + "\n\n" + flaw
		// Sound records after the flaw must not hide it.
		if !strings.HasPrefix(name, "open") && rapid.Bool().Draw(rt, "after") {
			s.files[at] += "\ndn: cn=after-the-flaw," + base.String() + "\ncn: after-the-flaw\n"
		}
		s.write()
		srv, err := startServer(cfg)
		if err == nil {
			defer srv.Stop()
			r := search(rt, srv.Dial("127.0.0.1"), SearchReq{Base: base.String(), Scope: 2, Filter: filterAll()})
			// A reader may know more than plain records, as long as nothing is lost.
			if name == "change record" && hasDN(r.Entries, newDN) && (!strings.Contains(s.files[at], "after-the-flaw") || hasDN(r.Entries, "cn=after-the-flaw,"+base.String())) {
				return
			}
			rt.Fatalf("an LDIF source with a %s is served as %d entries instead of being refused\n%s", name, len(r.Entries), s)
		}
		ev.Case(true, name+"\n"+s.String(), "refused: "+name)
	})
}

func hasDN(es []Entry, dn string) bool {
	for _, e := range es {
		if dnKeyOf(e.DN) == dnKeyOf(dn) {
			return true
		}
	}
	return false
}

func countValues(es []Entry) (n int) {
	for _, e := range es {
		for _, a := range e.Attrs {
			n += len(a.V)
		}
	}
	return
}
