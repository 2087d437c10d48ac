package vh

import (
	"crypto/sha1"
	"encoding/base64"
	"fmt"
	"strings"

	"github.com/amoghe/go-crypt"
	"golang.org/x/crypto/argon2"
	"pgregory.net/rapid"
)

// stored is a stored password with the harness's own idea of what it accepts.
type stored struct {
	val    string
	scheme string
	pw     string // a password it accepts, if any
	accept func(pw string) bool
}

func never(string) bool { return false }

// sshaOf computes the salted SHA-1 scheme with its four byte salt.
func sshaOf(pw, salt string) string {
	h := sha1.Sum([]byte(pw + salt))
	return base64.StdEncoding.EncodeToString(append(h[:], salt...))
}

func argonOf(pw, salt string, mem, iter uint32, par uint8, klen uint32) string {
	k := argon2.IDKey([]byte(pw), []byte(salt), iter, mem, par, klen)
	return fmt.Sprintf("$argon2id$v=19$m=%d,t=%d,p=%d$%s$%s", mem, iter, par,
		base64.RawStdEncoding.EncodeToString([]byte(salt)), base64.RawStdEncoding.EncodeToString(k))
}

func cryptOf(pw, salt string) string {
	s, err := crypt.Crypt(pw, salt)
	must(err)
	return s
}

const cryptSalt = "./0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"

func genPw(rt *rapid.T) string {
	switch rapid.IntRange(0, 8).Draw(rt, "pwk") {
	case 8:
		// Not text at all.
		return genText(rt, "pw", 0, 4) + string(rapid.SliceOfN(rapid.ByteRange(1, 255), 1, 6).Draw(rt, "pwbytes"))
	case 0, 1, 2:
		return genText(rt, "pw", 0, 12)
	case 3, 4:
		return genText(rt, "pw", 1, 14)
	case 5:
		return genText(rt, "pw", 1, 4) + rapid.SampledFrom([]string{"}x", "{", " ", "é", "$"}).Draw(rt, "pwt")
	case 6:
		return strings.Repeat("Pw9", rapid.IntRange(10, 60).Draw(rt, "pwl"))
	default:
		return rapid.SampledFrom([]string{"a", "secret", "Secret", "sécret", "pass word", "日本", "12345678", "123456789"}).Draw(rt, "pwc")
	}
}

func flipScheme(rt *rapid.T, s string) string {
	if rapid.IntRange(0, 3).Draw(rt, "schemecase") == 0 {
		return strings.ToLower(s)
	}
	return s
}

// genStored draws a stored value that accepts pw.
func genStored(rt *rapid.T, pw string) stored {
	k := rapid.IntRange(0, 7).Draw(rt, "scheme")
	if strings.Contains(pw, "\x00") && k > 4 {
		k = 0
	}
	salt := func(n int, label string) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = cryptSalt[rapid.IntRange(0, 63).Draw(rt, label)]
		}
		return string(b)
	}
	switch k {
	case 0, 1:
		if strings.HasPrefix(pw, "{") && strings.Contains(pw, "}") {
			pw = "x" + pw
		}
		return stored{pw, "plain", pw, func(p string) bool { return p == pw }}
	case 2, 3:
		s := string(rapid.SliceOfN(rapid.Byte(), 4, 4).Draw(rt, "salt4"))
		v := sshaOf(pw, s)
		return stored{flipScheme(rt, "{SSHA}") + v, "ssha", pw, func(p string) bool { return sshaOf(p, s) == v }}
	case 4:
		s := string(rapid.SliceOfN(rapid.Byte(), 8, 16).Draw(rt, "salt16"))
		mem, it := uint32(rapid.IntRange(8, 64).Draw(rt, "mem")), uint32(rapid.IntRange(1, 3).Draw(rt, "iter"))
		par, kl := uint8(rapid.IntRange(1, 4).Draw(rt, "par")), uint32(rapid.SampledFrom([]int{16, 24, 32, 64}).Draw(rt, "klen"))
		if mem < 8*uint32(par) {
			mem = 8 * uint32(par)
		}
		v := argonOf(pw, s, mem, it, par, kl)
		return stored{flipScheme(rt, "{ARGON2}") + v, "argon2", pw, func(p string) bool { return p == pw }}
	case 5:
		s := salt(2, "salt2")
		v := cryptOf(pw, s)
		return stored{flipScheme(rt, "{CRYPT}") + v, "crypt-des", pw, func(p string) bool { return cryptOf(p, s) == v }}
	default:
		id := rapid.SampledFrom([]string{"1", "5", "6", "5r", "6r", "2b", "y", "sha1"}).Draw(rt, "cid")
		s := "$" + id[:1] + "$" + salt(rapid.IntRange(1, 8).Draw(rt, "saltl"), "salt8") + "$"
		switch id {
		case "5r", "6r":
			s = fmt.Sprintf("$%s$rounds=%d$%s$", id[:1], rapid.IntRange(1000, 2000).Draw(rt, "rounds"), salt(rapid.IntRange(1, 16).Draw(rt, "saltl"), "salt16"))
		case "2b":
			s = fmt.Sprintf("$2b$%02d$", rapid.IntRange(4, 5).Draw(rt, "cost")) + salt(21, "salt21") + "u"
		case "y":
			s = "$y$j75$" + salt(8, "salt8") + "$"
		case "sha1":
			s = fmt.Sprintf("$sha1$%d$%s$", rapid.IntRange(4, 500).Draw(rt, "rounds"), salt(8, "salt8"))
		}
		if _, err := crypt.Crypt(pw, s); err != nil {
			s = "$6$" + salt(8, "salt8") + "$" // not known to this system's library
			id = "6"
		}
		v := cryptOf(pw, s)
		return stored{flipScheme(rt, "{CRYPT}") + v, "crypt-" + id, pw, func(p string) bool { return cryptOf(p, s) == v }}
	}
}

var brokenStored = []string{"{SSHA}", "{SSHA}!!!", "{SSHA}YQ==", "{SSHA}YWJj", "{SSHA}YWJjZA==", "{CRYPT}", "{CRYPT}x", "{CRYPT}$", "{CRYPT}$6", "{CRYPT}$6$", "{CRYPT}$zz$a$b",
	"{CRYPT}!!", "{CRYPT}*", "{ARGON2}", "{ARGON2}x", "{ARGON2}$argon2id$v=19$m=64,t=1,p=1$$", "{ARGON2}$argon2id$v=19$m=0,t=0,p=0$YWJj$YWJj", "{ARGON2}$argon2id$v=18$m=64,t=1,p=1$YWJjZGVmZ2g$YWJjZGVmZ2g",
	"{ARGON2}$argon2i$v=19$m=64,t=1,p=1$YWJjZGVmZ2g$YWJjZGVmZ2g",
	"{MD5}x", "{}", "{}abc", "{SHA}abc", "{UNKNOWN}secret", "{SSHA", "{"}

// genBroken draws a stored value no supported scheme can have produced, or plain
// text that only looks like a scheme.
func genBroken(rt *rapid.T) stored {
	v := rapid.SampledFrom(brokenStored).Draw(rt, "broken")
	if !strings.Contains(v, "}") {
		return stored{v, "plain", v, func(p string) bool { return p == v }}
	}
	return stored{v, "broken", "", never}
}

// genGuess draws a password to try against s, often close to the right one.
func genGuess(rt *rapid.T, s stored, others []stored) string {
	pw := s.pw
	switch rapid.IntRange(0, 12).Draw(rt, "guess") {
	case 11:
		if pw == "" {
			return "\xff"
		}
		// Another byte in one place.
		b := []byte(pw)
		b[rapid.IntRange(0, len(b)-1).Draw(rt, "gat")] ^= byte(1 << rapid.IntRange(0, 7).Draw(rt, "gbit"))
		return string(b)
	case 12:
		return strings.ToValidUTF8(pw, rapid.SampledFrom([]string{"?", "\uFFFD", ""}).Draw(rt, "gvalid"))
	case 0, 1, 2:
		return pw
	case 3:
		return flipCase(rt, pw)
	case 4:
		return pw + rapid.SampledFrom([]string{" ", "x", "a", "}", "\n", "\x00", "\x00\x00", "\r"}).Draw(rt, "gs")
	case 5:
		r := []rune(pw)
		if len(r) > 0 {
			r = r[:len(r)-1]
		}
		return string(r)
	case 6:
		return s.val
	case 7:
		// What follows the scheme.
		return s.val[strings.Index(s.val, "}")+1:]
	case 8:
		if len(others) > 0 {
			return others[rapid.IntRange(0, len(others)-1).Draw(rt, "go")].pw
		}
		return ""
	case 9:
		return rapid.SampledFrom([]string{"", "x", " ", "secret"}).Draw(rt, "gc")
	default:
		return genPw(rt)
	}
}
