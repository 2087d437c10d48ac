package vh

import (
	"encoding/base64"
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// tplVars is what templates of one file can refer to; it changes as the file is
// evaluated from top to bottom.
type tplVars struct {
	company, base, mail string
	extra               map[string]interface{}
	auto                uint64
}

// seg is a piece of an LDIF line. Fixed pieces must not be folded.
type seg struct {
	text  string
	fixed bool
}

// ldifWriter renders entries as LDIF text in one of the many ways the format
// allows and keeps what the text describes.
type ldifWriter struct {
	rt       *rapid.T
	dir      string // for values kept in files of their own
	tpl      bool   // use template directives
	nl       string
	v        tplVars
	sb       strings.Builder
	out      []Entry
	features map[string]bool
}

var valueFiles int

func newLdifWriter(rt *rapid.T, dir string, v tplVars) *ldifWriter {
	w := &ldifWriter{rt: rt, dir: dir, v: v, nl: "\n", features: map[string]bool{}}
	w.v.auto = 1000
	if rapid.IntRange(0, 2).Draw(rt, "crlf") == 0 {
		w.nl = "\r\n"
		w.features["crlf"] = true
	}
	w.tpl = rapid.Bool().Draw(rt, "tpl")
	return w
}

func (w *ldifWriter) chance(n int, label string) bool {
	return rapid.IntRange(0, n-1).Draw(w.rt, label) == n-1
}

func (w *ldifWriter) raw(lines ...string) {
	for _, l := range lines {
		w.sb.WriteString(l + w.nl)
	}
}

// noise writes lines that mean nothing.
func (w *ldifWriter) noise(between bool) {
	for w.chance(5, "noise") {
		if between && w.chance(2, "blank") {
			w.raw("")
			continue
		}
		w.features["comment"] = true
		w.raw("#" + rapid.SampledFrom([]string{"", " x", "# cn: y", "dn: cn=ghost,o=ghost", "{{end}} {{", "{{AutoIncrement}}", ": ::"}).Draw(w.rt, "comment"))
		for w.chance(3, "cfold") {
			w.features["folded comment"] = true
			w.raw(" " + rapid.SampledFrom([]string{"", "more", " cn: z", "#", "{{nope}}"}).Draw(w.rt, "ccont"))
		}
	}
}

// line writes one logical line, folded anywhere outside fixed pieces.
func (w *ldifWriter) line(segs ...seg) {
	mode := rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3}).Draw(w.rt, "fold")
	var sb strings.Builder
	col := 0
	brk := func() { sb.WriteString(w.nl + " "); col = 1; w.features["folded"] = true }
	for _, s := range segs {
		if s.fixed {
			if mode == 2 && col > 0 && w.chance(3, "foldfix") {
				brk()
			}
			sb.WriteString(s.text)
			col += len(s.text)
			continue
		}
		switch mode {
		case 1: // at a width
			width := rapid.SampledFrom([]int{76, 78, 10}).Draw(w.rt, "width")
			for t := s.text; len(t) > 0; {
				room := width - col
				if room <= 0 && col > 0 {
					brk()
					continue
				}
				if room > len(t) {
					room = len(t)
				}
				sb.WriteString(t[:room])
				t = t[room:]
				col += room
			}
		case 2, 3: // at a few random places
			t := s.text
			for n := rapid.IntRange(1, 3).Draw(w.rt, "nfold"); n > 0 && len(t) > 1; n-- {
				k := rapid.IntRange(1, len(t)-1).Draw(w.rt, "at")
				sb.WriteString(t[:k])
				brk()
				t = t[k:]
			}
			sb.WriteString(t)
			col += len(t)
		default:
			sb.WriteString(s.text)
			col += len(s.text)
		}
	}
	w.raw(sb.String())
}

// ldifPlain tells whether a reader takes the value as it is after "name:".
func ldifPlain(v string) bool {
	return utf8.ValidString(v) && v != "" && !strings.ContainsAny(v[:1], " :<") && !strings.ContainsAny(v, "\r\n\x00") && !strings.Contains(v, "{{")
}

func quoteTpl(s string) string {
	if utf8.ValidString(s) && !strings.ContainsAny(s, "`\r\n") && len(s)%2 == 0 {
		return "`" + s + "`"
	}
	return strconv.Quote(s)
}

// value writes the line for an attribute. What the line stands for is returned:
// v, or something made by the template.
func (w *ldifWriter) value(name, v string) string {
	sp := rapid.SampledFrom([]string{" ", " ", " ", "", "   "}).Draw(w.rt, "sp")
	kind := rapid.IntRange(0, 9).Draw(w.rt, "vkind")
	switch {
	case w.tpl && kind >= 7:
		w.features["template"] = true
		// A mixture of text and directives; the text in front keeps it plain.
		segs := []seg{{name + ":" + sp + "v", false}}
		val := "v"
		for n := rapid.IntRange(1, 3).Draw(w.rt, "nparts"); n > 0; n-- {
			text, out := w.directive(v)
			segs = append(segs, seg{text, true}, seg{".", false})
			val += out + "."
		}
		w.line(segs...)
		return val
	case w.tpl && kind == 6:
		w.features["template"] = true
		w.line(seg{name + "::" + sp, false}, seg{"{{" + quoteTpl(v) + " | formatAsBase64}}", true})
		return v
	case kind == 5 && name != "dn" && w.chance(3, "url"):
		w.features["url"] = true
		valueFiles++
		fn := join(w.dir, fmt.Sprintf("value-%d.bin", valueFiles))
		must(os.WriteFile(fn, []byte(v), 0o644))
		w.line(seg{name + ":<" + sp + "file://" + fn, false})
		return v
	case kind >= 3 && ldifPlain(v):
		w.line(seg{name + ":" + sp + v, false})
		return v
	case kind >= 3 && v == "":
		w.features["empty"] = true
		w.line(seg{name + ": ", false})
		return v
	}
	w.features["base64"] = true
	w.line(seg{name + "::" + sp + base64.StdEncoding.EncodeToString([]byte(v)), false})
	return v
}

// directive draws a template directive together with what it prints.
func (w *ldifWriter) directive(v string) (string, string) {
	k := rapid.IntRange(0, 8).Draw(w.rt, "dir")
	switch k {
	case 0:
		return "{{.Company}}", w.v.company
	case 1:
		return "{{.BaseDN}}", w.v.base
	case 2:
		return "{{ .MailDomain }}", w.v.mail
	case 3, 4:
		w.v.auto++
		return "{{AutoIncrement}}", strconv.FormatUint(w.v.auto, 10)
	case 5:
		w.v.auto = uint64(rapid.IntRange(0, 100000).Draw(w.rt, "auto"))
		return fmt.Sprintf("{{AutoIncrement %d}}", w.v.auto), strconv.FormatUint(w.v.auto, 10)
	case 6:
		return "{{.Extra}}", fmt.Sprint(w.v.extra["Extra"])
	case 7:
		return `{{"{{"}}`, "{{"
	default:
		if ldifPlain(v) {
			return "{{" + quoteTpl(v) + "}}", v
		}
		return `{{/* note */}}`, ""
	}
}

// setting writes a line that changes the template variables.
func (w *ldifWriter) setting() {
	val := rapid.SampledFrom([]string{"Acme", "A & B <x>", "Füße \"q\"", "z"}).Draw(w.rt, "set")
	w.features["template"] = true
	switch rapid.IntRange(0, 2).Draw(w.rt, "which") {
	case 0:
		w.v.company = val
		w.raw("", "{{WithCompany "+strconv.Quote(val)+"}}", "")
	case 1:
		w.v.mail = val
		w.raw("", "{{WithMailDomain "+strconv.Quote(val)+"}}", "")
	default:
		w.v.base = val
		w.raw("", "{{WithBaseDN "+strconv.Quote(val)+"}}", "")
	}
}

func (w *ldifWriter) entry(e Entry) {
	for w.tpl && w.chance(6, "setting") {
		w.setting()
	}
	w.noise(true)
	with := w.tpl && w.chance(5, "with")
	if with {
		w.raw("{{with .}}")
	}
	if w.tpl && w.chance(5, "var") {
		w.raw("{{$v := \"x\" -}}")
	}
	r := Entry{DN: e.DN}
	if ldifPlain(e.DN) && w.chance(2, "dnplain") {
		// The base part of a name is usually written as a directive.
		if w.tpl && strings.HasSuffix(e.DN, w.v.base) && w.chance(2, "dntpl") {
			w.features["template"] = true
			w.line(seg{"dn: " + strings.TrimSuffix(e.DN, w.v.base), false}, seg{"{{.BaseDN}}", true})
		} else {
			w.line(seg{"dn: " + e.DN, false})
		}
	} else {
		w.features["base64"] = true
		w.line(seg{"dn:: " + base64.StdEncoding.EncodeToString([]byte(e.DN)), false})
	}
	for _, a := range e.Attrs {
		n := Attr{N: a.N}
		for _, v := range a.V {
			w.noise(false)
			name := a.N
			if w.chance(6, "respell") {
				name = flipCase(w.rt, name)
			}
			if fold(a.N) == "userpassword" {
				name = a.N
				if ldifPlain(v) && w.chance(2, "pwplain") {
					w.line(seg{name + ": " + v, false})
				} else {
					w.line(seg{name + ":: " + base64.StdEncoding.EncodeToString([]byte(v)), false})
				}
				n.V = append(n.V, v)
				continue
			}
			n.V = append(n.V, w.value(name, v))
		}
		r.Attrs = append(r.Attrs, n)
	}
	w.noise(false)
	if with {
		w.raw("{{end}}")
	}
	w.raw("")
	w.out = append(w.out, r)
}

// text ends the file; the last line may lack its end.
func (w *ldifWriter) text() string {
	s := w.sb.String()
	if w.chance(3, "noeol") {
		w.features["no final newline"] = true
		s = strings.TrimRight(s, "\r\n")
	}
	return s
}

func (w *ldifWriter) used() []string {
	var fs []string
	for f := range w.features {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	return fs
}

// sameContent compares entries by name and by the values of every attribute.
func sameContent(got, want []Entry) string {
	g := map[string]Entry{}
	for _, e := range got {
		k := dnKeyOf(e.DN)
		if _, twice := g[k]; twice {
			return fmt.Sprintf("entry %q appears twice", e.DN)
		}
		g[k] = e
	}
	for _, e := range want {
		k := dnKeyOf(e.DN)
		o, ok := g[k]
		if !ok {
			return fmt.Sprintf("entry %q is missing", e.DN)
		}
		delete(g, k)
		a, b := o.byName(), e.byName()
		for n, v := range b {
			sort.Strings(v)
			x := append([]string(nil), a[n]...)
			sort.Strings(x)
			if len(x) != len(v) || strings.Join(x, "\x00,") != strings.Join(v, "\x00,") {
				return fmt.Sprintf("entry %q attribute %q is %s, must be %s", e.DN, n, showVals(x), showVals(v))
			}
		}
		for n := range a {
			if _, ok := b[n]; !ok {
				return fmt.Sprintf("entry %q has an attribute %q = %s that is not in the source", e.DN, n, showVals(a[n]))
			}
		}
	}
	for _, e := range g {
		return fmt.Sprintf("entry %q is not in the source", e.DN)
	}
	return ""
}
