package vh

import (
	"encoding/hex"
	"fmt"
	"strings"
	"unicode"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// AVA is one attribute=value pair of an RDN. DNs are generated structurally and
// rendered; the code under test is never used to interpret them.
type AVA struct{ T, V string }

type RDN []AVA

// DN is leaf first.
type DN []RDN

// fold is the harness's own case-insensitive key. Generated text only uses
// characters for which upper/lower case mapping is one-to-one. Text that is not
// UTF-8 holds no letters and stands for itself.
func fold(s string) string {
	if !utf8.ValidString(s) {
		return s
	}
	return strings.ToLower(s)
}

func (r RDN) Key() string {
	var p []string
	for _, a := range r {
		p = append(p, fold(a.T)+"\x01"+fold(a.V))
	}
	return strings.Join(p, "\x02")
}

// Key identifies the entry a DN names.
func (d DN) Key() string {
	var p []string
	for _, r := range d {
		p = append(p, r.Key())
	}
	return strings.Join(p, "\x03")
}

func (d DN) Parent() DN { return d[1:] }

func (d DN) Child(r RDN) DN { return append(DN{r}, d...) }

// Under reports whether d is base or below it.
func (d DN) Under(base DN) bool {
	if len(d) < len(base) {
		return false
	}
	return d[len(d)-len(base):].Key() == base.Key()
}

const dnSpecial = ",+\"\\<>;"

// String renders the plain RFC 4514 form.
func (d DN) String() string {
	var p []string
	for _, r := range d {
		p = append(p, r.String())
	}
	return strings.Join(p, ",")
}

func (r RDN) String() string {
	var p []string
	for _, a := range r {
		p = append(p, a.T+"="+escapeDNValue(a.V))
	}
	return strings.Join(p, "+")
}

func escapeDNValue(v string) string {
	var b strings.Builder
	for i := 0; i < len(v); {
		c, n := utf8.DecodeRuneInString(v[i:])
		switch {
		case c == utf8.RuneError && n == 1:
			fmt.Fprintf(&b, "\\%02X", v[i])
		case strings.ContainsRune(dnSpecial, c):
			b.WriteByte('\\')
			b.WriteRune(c)
		case (c == ' ' && (i == 0 || i+n == len(v))) || (c == '#' && i == 0):
			b.WriteByte('\\')
			b.WriteRune(c)
		case c < 0x20 || c == 0x7f:
			fmt.Fprintf(&b, "\\%02X", c)
		default:
			b.WriteRune(c)
		}
		i += n
	}
	return b.String()
}

func flipCase(t *rapid.T, s string) string {
	if !utf8.ValidString(s) {
		return s
	}
	mask := rapid.Uint64().Draw(t, "case")
	i := 0
	return strings.Map(func(c rune) rune {
		bit := mask>>(uint(i)%64)&1 == 1
		i++
		if !bit {
			return c
		}
		if unicode.IsUpper(c) {
			return unicode.ToLower(c)
		}
		return unicode.ToUpper(c)
	}, s)
}

// Respell renders d in another spelling of the same DN: letter case, optional
// spaces and escaping style vary.
func (d DN) Respell(t *rapid.T) string {
	if len(d.String()) > 400 {
		return d.respellBig(t)
	}
	mode := rapid.IntRange(0, 5).Draw(t, "respell")
	if mode == 0 {
		return d.String()
	}
	doCase, doSpace, doEsc := mode&1 != 0 || mode == 5, mode&2 != 0 || mode == 5, mode >= 4
	var b strings.Builder
	sp := func() {
		if doSpace {
			b.WriteString(strings.Repeat(" ", rapid.IntRange(0, 2).Draw(t, "sp")))
		}
	}
	for i, r := range d {
		if i > 0 {
			b.WriteByte(',')
		}
		for j, a := range r {
			if j > 0 {
				b.WriteByte('+')
			}
			typ, val := a.T, a.V
			if doCase {
				typ, val = flipCase(t, typ), flipCase(t, val)
			}
			sp()
			b.WriteString(typ)
			sp()
			b.WriteByte('=')
			sp()
			if doEsc {
				b.WriteString(escapeVariant(t, val))
			} else {
				b.WriteString(escapeDNValue(val))
			}
			if !strings.HasSuffix(val, "\\") && !strings.HasSuffix(val, " ") && val != "" {
				sp()
			}
		}
	}
	return b.String()
}

func (r RDN) Respell(t *rapid.T) string { return DN{r}.Respell(t) }

func escapeVariant(t *rapid.T, v string) string {
	var b strings.Builder
	upper := rapid.Bool().Draw(t, "hexcase")
	h := func(s string) {
		for i := 0; i < len(s); i++ {
			x := hex.EncodeToString([]byte{s[i]})
			if upper {
				x = strings.ToUpper(x)
			}
			b.WriteString("\\" + x)
		}
	}
	for i, c := range v {
		n := utf8.RuneLen(c)
		edge := (c == ' ' && (i == 0 || i+n == len(v))) || (c == '#' && i == 0)
		needs := strings.ContainsRune(dnSpecial, c) || edge
		ctl := c < 0x20 || c == 0x7f
		pick := rapid.IntRange(0, 3).Draw(t, "esc")
		switch {
		case ctl || pick == 0 || (n > 1 && pick == 1):
			h(v[i : i+n])
		case needs:
			b.WriteByte('\\')
			b.WriteRune(c)
		case (c == '=' || c == '#' || c == ' ') && pick == 2:
			b.WriteByte('\\')
			b.WriteRune(c)
		default:
			b.WriteRune(c)
		}
	}
	return b.String()
}

// ParseDN is the harness's own RFC 4514 parser, used on DNs the server returns.
func ParseDN(s string) (DN, error) {
	if strings.TrimSpace(s) == "" {
		return DN{}, nil
	}
	var dn DN
	var rdn RDN
	i := 0
	for {
		for i < len(s) && s[i] == ' ' {
			i++
		}
		st := i
		for i < len(s) && s[i] != '=' {
			i++
		}
		if i >= len(s) {
			return nil, fmt.Errorf("no '=' in %q", s)
		}
		typ := strings.TrimRight(s[st:i], " ")
		i++
		for i < len(s) && s[i] == ' ' {
			i++
		}
		var val []byte
		keep := 0 // length that may not be trimmed
		escaped := false
	value:
		for i < len(s) {
			switch c := s[i]; c {
			case '\\':
				escaped = true
				if i+1 >= len(s) {
					return nil, fmt.Errorf("trailing backslash in %q", s)
				}
				if i+2 < len(s) && isHex(s[i+1]) && isHex(s[i+2]) {
					x, _ := hex.DecodeString(s[i+1 : i+3])
					val = append(val, x[0])
					i += 3
				} else {
					val = append(val, s[i+1])
					i += 2
				}
				keep = len(val)
			case ',', '+', ';':
				break value
			default:
				val = append(val, c)
				if c != ' ' {
					keep = len(val)
				}
				i++
			}
		}
		v := string(val[:keep])
		if !escaped && strings.HasPrefix(v, "#") {
			// #hex holds the BER encoding of the value.
			if raw, err := hex.DecodeString(v[1:]); err == nil && len(raw) >= 2 && int(raw[1]) == len(raw)-2 {
				v = string(raw[2:])
			}
		}
		rdn = append(rdn, AVA{typ, v})
		if i >= len(s) {
			return append(dn, rdn), nil
		}
		if s[i] != '+' {
			dn = append(dn, rdn)
			rdn = nil
		}
		i++
	}
}

func isHex(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
}

// dnKeyOf is the key of a DN string returned by the server.
func dnKeyOf(s string) string {
	d, err := ParseDN(s)
	if err != nil {
		return "unparsable:" + s
	}
	return d.Key()
}

// ---- generators -----------------------------------------------------------

var plainRunes = []rune("aAbBcCdDeEzZ019-_.@")
var tameRunes = append([]rune("   '!?:/*()&|=#éÄüЯж日本😀Ωλ"), plainRunes...)
var wildRunes = append([]rune(",,++\"\\<>;;##==  \x00\x01\t\x7f"), tameRunes...)

// genText draws a non-empty string. wild 0: ASCII words, 1: printable and
// unicode, 2: everything that needs escaping somewhere.
func genText(t *rapid.T, label string, wild, max int) string {
	n := rapid.IntRange(1, max).Draw(t, label+"#")
	set := plainRunes
	if wild == 1 {
		set = tameRunes
	} else if wild >= 2 {
		set = wildRunes
	}
	r := make([]rune, n)
	for i := range r {
		r[i] = rapid.SampledFrom(set).Draw(t, label)
	}
	return string(r)
}

var rdnTypes = []string{"cn", "uid", "ou", "o", "dc", "sn", "CN", "Uid"}

// genRDN draws an RDN; small favours collisions.
func genRDN(t *rapid.T, wild int) RDN {
	one := func() AVA {
		typ := rapid.SampledFrom(rdnTypes).Draw(t, "rdnT")
		var v string
		switch rapid.IntRange(0, 5).Draw(t, "rdnV") {
		case 0, 1:
			v = rapid.SampledFrom([]string{"a", "b", "c", "A", "ab", "x y"}).Draw(t, "rdnS")
		case 2, 3:
			v = genText(t, "rdnW", wild, 6)
		case 4:
			v = genText(t, "rdnW", wild, 3)
		default:
			v = genText(t, "rdnL", wild, 24)
		}
		return AVA{typ, v}
	}
	r := RDN{one()}
	if wild > 0 && rapid.IntRange(0, 7).Draw(t, "multi") == 0 {
		b := one()
		if fold(b.T) != fold(r[0].T) || fold(b.V) != fold(r[0].V) {
			r = append(r, b)
		}
	}
	return r
}
