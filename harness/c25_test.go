package vh

import (
	"bytes"
	"context"
	"encoding/base64"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

// runTool runs idmd with the given arguments to its end.
func runTool(dir, stdin string, args ...string) (code int, stdout, stderr string) {
	ctx, cancel := context.WithTimeout(context.Background(), 2*replyTimeout())
	defer cancel()
	c := exec.CommandContext(ctx, idmdPath(), args...)
	c.Dir = dir
	c.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + dir}
	c.Stdin = strings.NewReader(stdin)
	var o, e bytes.Buffer
	c.Stdout, c.Stderr = &o, &e
	err := c.Run()
	if ctx.Err() != nil {
		hung.Store(true)
		panic(fmt.Sprintf("idmd %q does not end", args))
	}
	var ee *exec.ExitError
	if err != nil && !errors.As(err, &ee) {
		infra("idmd %q: %v", args, err)
	}
	return c.ProcessState.ExitCode(), o.String(), e.String()
}

// readLdif is an independent reader for plain LDIF records.
func readLdif(text string) (out []Entry, err error) {
	text = strings.ReplaceAll(text, "\r\n", "\n")
	var lines []string
	for _, l := range strings.Split(text, "\n") {
		if strings.HasPrefix(l, " ") {
			if len(lines) == 0 || lines[len(lines)-1] == "" {
				return nil, fmt.Errorf("continuation of nothing: %q", l)
			}
			lines[len(lines)-1] += l[1:]
			continue
		}
		lines = append(lines, l)
	}
	var cur *Entry
	for _, l := range lines {
		if strings.HasPrefix(l, "#") || cur == nil && len(out) == 0 && strings.HasPrefix(l, "version:") {
			continue
		}
		if l == "" {
			cur = nil
			continue
		}
		i := strings.Index(l, ":")
		if i < 1 {
			return nil, fmt.Errorf("no attribute in line %q", l)
		}
		name, v := l[:i], l[i+1:]
		if strings.HasPrefix(v, ":") {
			b, err := base64.StdEncoding.DecodeString(strings.TrimLeft(v[1:], " "))
			if err != nil {
				return nil, fmt.Errorf("line %q: %w", l, err)
			}
			v = string(b)
		} else if v = strings.TrimLeft(v, " "); v != "" {
			for j := 0; j < len(v); j++ {
				if v[j] == 0 || v[j] == '\r' {
					return nil, fmt.Errorf("character not allowed in line %q", l)
				}
			}
		}
		if cur == nil {
			if name != "dn" {
				return nil, fmt.Errorf("record starts with %q", l)
			}
			out = append(out, Entry{DN: v})
			cur = &out[len(out)-1]
			continue
		}
		cur.Attrs = append(cur.Attrs, Attr{name, []string{v}})
	}
	return out, nil
}

// genStoreEntries draws entries for a database, parents first, with names and
// values that need care in LDIF.
func genStoreEntries(rt *rapid.T, base DN, n int) []Entry {
	t := newTree(base)
	t.m[base.Key()] = &mEntry{dn: base}
	dns := []DN{base}
	out := []Entry{{base.String(), []Attr{{base[0][0].T, []string{base[0][0].V}}}}}
	for i := 0; i < n; i++ {
		r := genRDN(rt, 2)
		nl := rapid.IntRange(0, 9).Draw(rt, "newline") == 0
		if nl {
			r[0].V = "a\n" + r[0].V
		}
		d := dns[rapid.IntRange(0, len(dns)-1).Draw(rt, "par")].Child(r)
		if t.has(d) {
			continue
		}
		t.m[d.Key()] = &mEntry{dn: d}
		dns = append(dns, d)
		text := d.String()
		if nl && rapid.Bool().Draw(rt, "rawnl") {
			text = strings.ReplaceAll(strings.ReplaceAll(text, `\0a`, "\n"), `\0A`, "\n")
		}
		var as []Attr
		for _, a := range genEntryAttrs(rt, d, 2) {
			if strings.Contains(a.N, "_") {
				continue // not a name LDIF knows
			}
			if rapid.IntRange(0, 20).Draw(rt, "edge") == 0 {
				a.V = append(a.V, rapid.SampledFrom([]string{"", "  two", " lead and trail ", "\n", " \n", ":", "<", "\r", "::x", "\ttab", strings.Repeat("long ", 20000)}).Draw(rt, "ev"))
			}
			as = append(as, a)
		}
		out = append(out, Entry{text, as})
	}
	return out
}

// TestC25: loading LDIF into a database and exporting it again keeps everything.
func TestC25(t *testing.T) {
	load := func(dir, db, base, ldif string) (int, string) {
		code, _, e := runTool(dir, "", "boltdb", "load", "--boltdb-file", db, "--ldap-base-dn", base, "--input-file", ldif, "--log-level", "error")
		return code, e
	}
	export := func(dir, db, base string) (int, string, string) {
		return runTool(dir, "", "boltdb", "export", "--boltdb-file", db, "--ldap-base-dn", base, "--log-level", "error")
	}
	content := func(rt *rapid.T, db, base string) []Entry {
		b := openBolt(db, base)
		defer b.Close()
		es, err := dumpBolt(b, base)
		if err != nil {
			rt.Fatalf("the database can not be read: %v", err)
		}
		return es
	}
	leg(t, "roundtrip", 80, func(rt *rapid.T) {
		base := rapid.SampledFrom(boltBases).Draw(rt, "base")
		dir := scratchDir("export")
		defer os.RemoveAll(dir)
		es := genStoreEntries(rt, base, rapid.IntRange(0, 8).Draw(rt, "n"))
		db := join(dir, "a.db")
		seedBolt(rt, db, base.String(), es)
		before, err := os.ReadFile(db)
		must(err)
		code, text, errText := export(dir, db, base.String())
		if code != 0 {
			rt.Fatalf("export of %s fails: %s", showEntries(es), errText)
		}
		after, err := os.ReadFile(db)
		must(err)
		if !bytes.Equal(before, after) {
			rt.Fatalf("export changed the database")
		}
		got, err := readLdif(text)
		if err != nil {
			rt.Fatalf("the export of %s is not LDIF: %v\n%q", showEntries(es), err, text)
		}
		if d := sameContent(got, es); d != "" {
			rt.Fatalf("the export does not describe the content: %s\n%q", d, text)
		}
		in := join(dir, "a.ldif")
		must(os.WriteFile(in, []byte(text), 0o644))
		db2 := join(dir, "b.db")
		if code, e := load(dir, db2, base.String(), in); code != 0 {
			rt.Fatalf("the export can not be loaded: %s\n%q", e, text)
		}
		if d := sameContent(content(rt, db2, base.String()), es); d != "" {
			rt.Fatalf("export and load change the content: %s\n%q", d, text)
		}
		// A part of the tree can be exported as well.
		part, err := ParseDN(rapid.SampledFrom(es).Draw(rt, "part").DN)
		must(err)
		var want []Entry
		for _, e := range es {
			if d, err := ParseDN(e.DN); err == nil && d.Under(part) {
				want = append(want, e)
			}
		}
		if code, text, e := export(dir, db2, part.String()); code == 0 {
			got, err := readLdif(text)
			if err != nil {
				rt.Fatalf("the export of %q is not LDIF: %v\n%q", part.String(), err, text)
			}
			if d := sameContent(got, want); d != "" {
				rt.Fatalf("the export of the part %q does not describe its content: %s\n%q", part.String(), d, text)
			}
		} else if part.Key() == base.Key() {
			rt.Fatalf("second export fails: %s", e)
		}
		edge := strings.Contains(text, "::") || strings.Contains(text, "\n ")
		ev.Note("values_compared", countValues(es))
		ev.Case(edge && len(es) > 1, showEntries(es), "roundtrip")
	})
	leg(t, "big", 6, func(rt *rapid.T) {
		base := boltBases[0]
		dir := scratchDir("export")
		defer os.RemoveAll(dir)
		es, shape := bigEntries(rt, base)
		es = append([]Entry{{base.String(), []Attr{{"dc", []string{"lg"}}}}}, es...)
		in := join(dir, "a.ldif")
		must(os.WriteFile(in, []byte(ldifText(es)), 0o644))
		db := join(dir, "a.db")
		if code, e := load(dir, db, base.String(), in); code != 0 {
			rt.Fatalf("LDIF of %d entries (%s) is not loaded: %s", len(es), shape, e)
		}
		if d := sameContent(content(rt, db, base.String()), es); d != "" {
			rt.Fatalf("LDIF of %d entries (%s) is not loaded as written: %.2000s", len(es), shape, d)
		}
		code, text, e := export(dir, db, base.String())
		if code != 0 {
			rt.Fatalf("export of %d entries (%s) fails: %s", len(es), shape, e)
		}
		got, err := readLdif(text)
		if err != nil {
			rt.Fatalf("the export of %d entries (%s) is not LDIF: %v", len(es), shape, err)
		}
		if d := sameContent(got, es); d != "" {
			rt.Fatalf("the export of %d entries (%s) does not describe the content: %.2000s", len(es), shape, d)
		}
		ev.Note("values_compared", 2*countValues(es))
		ev.Case(true, fmt.Sprintf("%d entries, %d values, %s: %.200q", len(es), countValues(es), shape, es[len(es)-1].DN), "big-"+shape)
	})
	leg(t, "load", 80, func(rt *rapid.T) {
		base := rapid.SampledFrom(ldifBases).Draw(rt, "base")
		dir := scratchDir("load")
		defer os.RemoveAll(dir)
		w := newLdifWriter(rt, dir, tplVars{base: base.String()})
		w.tpl = false
		if w.chance(3, "version") {
			w.raw("version: 1")
		}
		es := genTreeEntries(rt, base, rapid.IntRange(0, 6).Draw(rt, "n"), 2)
		for _, e := range es {
			w.entry(e)
		}
		text := w.text()
		flawed := rapid.IntRange(0, 3).Draw(rt, "flawed") == 0
		flaw := ""
		if flawed {
			newDN := "cn=flawed-entry," + base.String()
			flaw = rapid.SampledFrom([]string{
				"dn: " + newDN + "\ncn:: !!!\n",
				"dn: " + newDN + "\ncn: x\ngarbage\n",
				"cn: x\n",
				"dn: cn=a,cn=missing-parent," + base.String() + "\ncn: a\n",
				"dn: cn=a,o=elsewhere\ncn: a\n",
				"dn: " + newDN + "\ncn: x\n\ndn: " + strings.ToUpper(newDN) + "\ncn: y\n",
				"dn: not a name\ncn: x\n",
				"dn: " + newDN + "\nchangetype: add\ncn: x\n",
				"dn: " + newDN + "\nchangetype: delete\n",
			}).Draw(rt, "flaw")
			text = strings.TrimRight(text, "\r\n") + "\n\n" + flaw
			if rapid.Bool().Draw(rt, "after") {
				text += "\ndn: cn=after-the-flaw," + base.String() + "\ncn: after-the-flaw\n"
			}
		}
		in, db := join(dir, "in.ldif"), join(dir, "new.db")
		must(os.WriteFile(in, []byte(text), 0o644))
		code, errText := load(dir, db, base.String(), in)
		switch {
		case flawed && code == 0:
			got := content(rt, db, base.String())
			if strings.Contains(flaw, "changetype: add") && hasDN(got, "cn=flawed-entry,"+base.String()) && (!strings.Contains(text, "after-the-flaw") || hasDN(got, "cn=after-the-flaw,"+base.String())) {
				return
			}
			rt.Fatalf("loading LDIF with a flaw succeeds with %d entries:\n%q", len(got), text)
		case flawed:
			ev.Case(true, text, "flawed load")
			return
		case code != 0:
			rt.Fatalf("valid LDIF is not loaded: %s\n%q", errText, text)
		}
		if d := sameContent(content(rt, db, base.String()), w.out); d != "" {
			rt.Fatalf("LDIF is not loaded as written: %s\n%q", d, text)
		}
		ev.Note("values_compared", countValues(es))
		ev.Case(len(w.features) > 1 && len(es) > 1, text, "load")
	})
	leg(t, "absent", 4, func(rt *rapid.T) {
		dir := scratchDir("absent")
		defer os.RemoveAll(dir)
		if code, out, _ := export(dir, join(dir, "no.db"), "dc=lg"); code == 0 {
			rt.Fatalf("export of a database that does not exist succeeds: %q", out)
		}
		if code, _ := load(dir, join(dir, "new.db"), "dc=lg", join(dir, "no.ldif")); code == 0 {
			rt.Fatalf("load of a file that does not exist succeeds")
		}
		ev.Case(true, "absent files", "absent")
	})
}

func showEntries(es []Entry) string {
	var ls []string
	for _, e := range es {
		s := fmt.Sprintf("%q: %s", e.DN, showAttrs(e.Attrs))
		if len(s) > 500 {
			s = s[:500] + "..."
		}
		ls = append(ls, s)
	}
	return strings.Join(ls, "\n")
}
