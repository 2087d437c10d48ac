package vh

import (
	"fmt"
	"os"
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

// passwdUser is a line of the input of "gen newusers".
type passwdUser struct {
	name, pw, uid, gid, full string
	rest                     []string // other parts of the description field
}

func (u passwdUser) line() string {
	return strings.Join([]string{u.name, u.pw, u.uid, u.gid, strings.Join(append([]string{u.full}, u.rest...), ","), "/home/" + u.name, "/bin/sh"}, ":")
}

func genPasswdUser(rt *rapid.T, i int, clear bool) passwdUser {
	u := passwdUser{name: rapid.SampledFrom([]string{"jonas", "a.b", "x-1", "svc_", "UPPER", "ü", "n@m"}).Draw(rt, "name") + fmt.Sprint(i)}
	if rapid.IntRange(0, 3).Draw(rt, "haspw") > 0 {
		u.pw = genText(rt, "pw", 1, 14)
		if rapid.IntRange(0, 3).Draw(rt, "pwedge") == 0 {
			u.pw = rapid.SampledFrom([]string{" lead", "trail ", "a{{b", "a{{.Company}}", "<lt", "#x", "100%s", "%d%", "<<.>>", "a\tb"}).Draw(rt, "pwe") + u.pw
		}
		u.pw = strings.ReplaceAll(u.pw, ":", "_")
		if strings.HasPrefix(u.pw, "{") {
			u.pw = "x" + u.pw
		}
	}
	num := func(label string) string {
		switch rapid.IntRange(0, 4).Draw(rt, label) {
		case 0, 1:
			return ""
		case 2:
			return fmt.Sprint(rapid.IntRange(0, 3).Draw(rt, label+"s"))
		case 3:
			return fmt.Sprint(rapid.IntRange(995, 1010).Draw(rt, label+"m"))
		}
		return fmt.Sprint(rapid.IntRange(0, 1<<31).Draw(rt, label+"l"))
	}
	u.uid, u.gid = num("uid"), num("gid")
	word := func() string {
		return rapid.SampledFrom([]string{"Jonas", "Brekke", "Ötzi", "O'Neil", "van", "der", "x.y", "{{.BaseDN}}", "{{", "<x>", "#1", "日本"}).Draw(rt, "word")
	}
	for n := rapid.IntRange(0, 3).Draw(rt, "words"); n > 0; n-- {
		u.full = strings.TrimSpace(u.full + " " + word())
	}
	if u.full != "" {
		for n := rapid.SampledFrom([]int{0, 1, 2, 3, 4, 6, 9}).Draw(rt, "rest"); n > 0; n-- {
			u.rest = append(u.rest, rapid.SampledFrom([]string{"room 5", "+49 1234", "a.b@example.org", "c@lg.local", "alias@x-y.example.com", "U.p@LG.local", "s@sub.lg.local", "t@lg.local.example.org", "lg.local@example.org", "", "no mail@", "@x"}).Draw(rt, "part"))
		}
	}
	return u
}

// want is the entry the user must become.
func (u passwdUser) want(v tplVars) (dn, login string, attrs map[string][]string) {
	dn = "uid=" + u.name + ",ou=Users,ou=" + v.company + "," + v.base
	attrs = map[string][]string{"uid": {u.name}, "mail": {u.name + "@" + v.mail}, "objectclass": {"posixAccount", "top", "inetOrgPerson"}}
	if u.uid != "" {
		attrs["uidnumber"] = []string{u.uid}
	}
	if u.gid != "" {
		attrs["gidnumber"] = []string{u.gid}
	}
	login = u.pw
	if login == "" {
		login = u.name
	}
	cn := u.full
	if cn == "" {
		cn = u.name
	}
	attrs["cn"] = []string{cn}
	if i := strings.Index(u.full, " "); i > 0 {
		attrs["givenname"], attrs["sn"] = []string{u.full[:i]}, []string{u.full[i+1:]}
	}
	for _, p := range u.rest {
		i := strings.LastIndex(p, "@")
		if i < 1 || i == len(p)-1 || strings.Contains(p, " ") {
			continue
		}
		if p[i:] == "@lg.local" {
			p = p[:i] + "@" + v.mail
		}
		attrs["mailalternateaddress"] = append(attrs["mailalternateaddress"], p)
	}
	return
}

var cheapArgonFlags = []string{"--argon2-memory", "64", "--argon2-iterations", "1", "--argon2-lanes", "1"}

// TestC26: a list of users becomes an LDIF source with exactly these users.
func TestC26(t *testing.T) {
	run := func(rt *rapid.T, big bool) {
		base := rapid.SampledFrom(ldifBases).Draw(rt, "base")
		v := tplVars{company: rapid.SampledFrom([]string{"Corp", "A and B"}).Draw(rt, "company"), mail: rapid.SampledFrom([]string{"lg.local", "ex.org"}).Draw(rt, "mail"), base: base.String()}
		dir := scratchDir("newusers")
		defer os.RemoveAll(dir)
		scheme := rapid.SampledFrom([]string{"{ARGON2}", "{CLEARTEXT}"}).Draw(rt, "scheme")
		if big {
			scheme = "{CLEARTEXT}"
		}
		var users []passwdUser
		input := ""
		nl := rapid.SampledFrom([]string{"\n", "\n", "\r\n"}).Draw(rt, "nl")
		for i := rapid.IntRange(0, 8).Draw(rt, "n"); i > 0; i-- {
			for rapid.IntRange(0, 4).Draw(rt, "noise") == 0 {
				input += rapid.SampledFrom([]string{"", "   ", "# note", "#ghost:x:1:1:g:/:/"}).Draw(rt, "skip") + nl
			}
			u := genPasswdUser(rt, i, scheme == "{CLEARTEXT}")
			users = append(users, u)
			input += u.line() + nl
		}
		if big && len(users) > 0 {
			few := users
			for i := bigSize(rt, "many", 500); i > 0; i-- {
				u := few[i%len(few)]
				u.name += fmt.Sprintf("-%d", i)
				users = append(users, u)
				input += u.line() + nl
			}
		}
		if rapid.IntRange(0, 9).Draw(rt, "long") == 0 {
			// A long line; who comes after it must not be lost.
			u := passwdUser{name: "long", full: "Long " + strings.Repeat("x", rapid.SampledFrom([]int{1000, 65000, 65536, 70000, 200000}).Draw(rt, "len"))}
			at := rapid.IntRange(0, 1).Draw(rt, "longat")
			if at == 0 {
				input, users = u.line()+nl+input, append([]passwdUser{u}, users...)
			} else {
				input, users = input+u.line()+nl, append(users, u)
			}
		}
		if rapid.Bool().Draw(rt, "noeol") {
			input = strings.TrimRight(input, "\r\n")
		}
		args := append([]string{"gen", "newusers", "--password-scheme", scheme, "--min-password-strength", "0"}, cheapArgonFlags...)
		stdin := ""
		if rapid.Bool().Draw(rt, "stdin") {
			args, stdin = append(args, "-"), input
		} else {
			must(os.WriteFile(join(dir, "users.txt"), []byte(input), 0o644))
			args = append(args, "users.txt")
		}
		code, out, errText := runTool(dir, stdin, args...)
		if code != 0 {
			if strings.Contains(input, strings.Repeat("x", 60000)) && !strings.Contains(errText, "goroutine ") {
				ev.Case(true, fmt.Sprintf("long line refused %d", len(input)), "refused: long")
				return
			}
			rt.Fatalf("gen newusers fails on\n%s\n%s", input, errText)
		}
		must(os.Mkdir(join(dir, "ldif.d"), 0o755))
		must(os.WriteFile(join(dir, "ldif.d", "00.ldif"), []byte("dn: {{.BaseDN}}\nobjectClass: top\n\ndn: ou={{.Company}},{{.BaseDN}}\nou: x\n\ndn: ou=Users,ou={{.Company}},{{.BaseDN}}\nou: Users\n"), 0o644))
		must(os.WriteFile(join(dir, "ldif.d", "users.ldif"), []byte(out), 0o644))
		srv, err := startServer(v.config(base, join(dir, "ldif.d")))
		if err != nil {
			rt.Fatalf("the output of gen newusers can not be served: %v\n%s\n%s", err, input, out)
		}
		defer srv.Stop()
		cl := srv.Dial("127.0.0.1")
		r := search(rt, cl, SearchReq{Base: base.String(), Scope: 2, Filter: pCtx(7, "uid")})
		if len(r.Entries) != len(users) {
			rt.Fatalf("%d users given, %d in the directory\n%s\n%s", len(users), len(r.Entries), input, out)
		}
		got := map[string]Entry{}
		for _, e := range r.Entries {
			got[strings.ToLower(e.DN)] = e
		}
		numbers := map[string]string{}
		for _, u := range users {
			if u.uid != "" {
				numbers[u.uid] = "given"
			}
		}
		edge := false
		groups := map[string]bool{}
		for _, u := range users {
			if u.gid != "" {
				groups[u.gid] = true
			}
		}
		for _, u := range users {
			dn, login, attrs := u.want(v)
			e, ok := got[strings.ToLower(dn)]
			if !ok {
				rt.Fatalf("user %q is missing\n%s\n%s", dn, input, out)
			}
			have := e.byName()
			for n, w := range attrs {
				x := Entry{Attrs: []Attr{{n, w}}}.get(n)
				if strings.Join(x, "\x00") != strings.Join(have[n], "\x00") {
					rt.Fatalf("user line %q: attribute %s is %q, must be %q\n%s", u.line(), n, have[n], x, out)
				}
			}
			for n := range have {
				if _, ok := attrs[n]; !ok && n != "uidnumber" && n != "gidnumber" {
					rt.Fatalf("user line %q: unexpected attribute %s %q\n%s", u.line(), n, have[n], out)
				}
			}
			if len(have["uidnumber"]) != 1 || len(have["gidnumber"]) != 1 {
				rt.Fatalf("user line %q: numbers are %q and %q\n%s", u.line(), have["uidnumber"], have["gidnumber"], out)
			}
			for _, n := range []string{have["uidnumber"][0], have["gidnumber"][0]} {
				if _, err := strconv.ParseInt(n, 10, 64); err != nil {
					rt.Fatalf("user line %q: %q is not a number\n%s", u.line(), n, out)
				}
			}
			if u.gid == "" && groups[have["gidnumber"][0]] {
				rt.Fatalf("user line %q got the group number %s, which is given to another user\n%s", u.line(), have["gidnumber"][0], out)
			}
			if u.uid == "" {
				edge = true
				n := have["uidnumber"][0]
				if numbers[n] != "" {
					rt.Fatalf("user line %q got the number %s, which is also the number of a user (%s)\n%s", u.line(), n, numbers[n], out)
				}
				numbers[n] = u.name
			}
			b, err := srv.Dial("127.0.0.1").Do(opBind(dn, login))
			if err != nil || b.Code != 0 {
				rt.Fatalf("user line %q: login with %q fails: %v %+v\n%s", u.line(), login, err, b, out)
			}
			b, err = srv.Dial("127.0.0.1").Do(opBind(dn, login+"x"))
			if err != nil || b.Code == 0 {
				rt.Fatalf("user line %q: login with a wrong password works: %v", u.line(), err)
			}
		}
		if scheme == "{ARGON2}" {
			for _, u := range users {
				if len(u.pw) > 9 && strings.Contains(out, u.pw) {
					rt.Fatalf("the output has the password %q in clear\n%s", u.pw, out)
				}
			}
		}
		ev.Note("users", len(users))
		ev.Case(edge && len(users) > 1, fmt.Sprintf("%.3000s", input), scheme, fmt.Sprintf("big=%v", big))
	}
	leg(t, "users", 120, func(rt *rapid.T) { run(rt, false) })
	leg(t, "big", 5, func(rt *rapid.T) { run(rt, true) })
	// A name listed twice: no source that holds only one of the two.
	leg(t, "repeated", 30, func(rt *rapid.T) {
		base := ldifBases[0]
		v := tplVars{company: "Corp", mail: "lg.local", base: base.String()}
		dir := scratchDir("newusers")
		defer os.RemoveAll(dir)
		var lines []string
		n := rapid.IntRange(2, 6).Draw(rt, "n")
		for i := n; i > 0; i-- {
			lines = append(lines, genPasswdUser(rt, i, true).line())
		}
		i := rapid.IntRange(0, n-1).Draw(rt, "of")
		again := lines[i]
		if name := strings.SplitN(again, ":", 2)[0]; rapid.Bool().Draw(rt, "changed") {
			u := genPasswdUser(rt, n+1, true)
			u.name = name
			again = u.line()
		}
		at := rapid.IntRange(0, n).Draw(rt, "at")
		lines = append(lines[:at], append([]string{again}, lines[at:]...)...)
		input := strings.Join(lines, "\n") + "\n"
		code, out, errText := runTool(dir, input, "gen", "newusers", "--password-scheme", "{CLEARTEXT}", "--min-password-strength", "0", "-")
		if code == 0 {
			must(os.Mkdir(join(dir, "ldif.d"), 0o755))
			must(os.WriteFile(join(dir, "ldif.d", "users.ldif"), []byte("dn: {{.BaseDN}}\nobjectClass: top\n\n"+out), 0o644))
			srv, err := startServer(v.config(base, join(dir, "ldif.d")))
			if err == nil {
				defer srv.Stop()
				r := search(rt, srv.Dial("127.0.0.1"), SearchReq{Base: base.String(), Scope: 2, Filter: pCtx(7, "uid")})
				rt.Fatalf("a list of %d users with one name used twice is served with %d entries\n%s\n%s", len(lines), len(r.Entries), input, out)
			}
		} else if strings.Contains(errText, "goroutine ") {
			rt.Fatalf("gen newusers crashes on\n%s\n%s", input, errText)
		}
		ev.Case(true, input, "repeated")
	})
	leg(t, "refused", 40, func(rt *rapid.T) {
		dir := scratchDir("newusers")
		defer os.RemoveAll(dir)
		good := "good:kW9#xTq!27zLp:::Good One:/home/good:/bin/sh\n"
		class := rapid.SampledFrom([]string{"fields", "uid", "gid", "weak", "scheme", "format", "file"}).Draw(rt, "class")
		args := append([]string{"gen", "newusers"}, cheapArgonFlags...)
		bad, file := "", "-"
		switch class {
		case "fields":
			bad = strings.Join(strings.Split("bad:kW9#xTq!27zLp:1:2:Bad One:/home:/bin/sh", ":")[:rapid.IntRange(1, 6).Draw(rt, "nf")], ":")
		case "uid":
			bad = "bad:kW9#xTq!27zLp:" + rapid.SampledFrom([]string{"x", "1x", "1.5", "0x10", "99999999999999999999"}).Draw(rt, "v") + "::Bad One:/home:/bin/sh"
		case "gid":
			bad = "bad:kW9#xTq!27zLp::" + rapid.SampledFrom([]string{"x", "1x", "1.5", "0x10", "99999999999999999999"}).Draw(rt, "v") + ":Bad One:/home:/bin/sh"
		case "weak":
			bad = "bad:" + rapid.SampledFrom([]string{"password", "123456", "qwerty", "aaaa", "abc"}).Draw(rt, "v") + ":::Bad One:/home:/bin/sh"
		case "scheme":
			args = append(args, "--password-scheme", rapid.SampledFrom([]string{"{MD5}", "ARGON2", "{SSHA}"}).Draw(rt, "v"))
			bad = good
		case "format":
			args = append(args, "--format", "json")
		case "file":
			file = join(dir, "absent")
		}
		input := good + bad + "\n"
		if rapid.Bool().Draw(rt, "first") {
			input = bad + "\n" + good
		}
		code, out, errText := runTool(dir, input, append(args, file)...)
		if code == 0 {
			rt.Fatalf("gen newusers %q accepts (%s)\n%s\n%s", args, class, input, out)
		}
		if strings.Contains(out, "dn:") {
			rt.Fatalf("gen newusers refuses (%s) but prints entries\n%s\n%s", class, input, out)
		}
		if strings.Contains(errText, "goroutine ") {
			rt.Fatalf("gen newusers crashes (%s) on\n%s\n%s", class, input, errText)
		}
		ev.Case(true, class+input, "refused: "+class)
	})
}

// TestC27: a generated password value accepts exactly its secret.
func TestC27(t *testing.T) {
	leg(t, "secrets", 150, func(rt *rapid.T) {
		base := ldifBases[0]
		dir := scratchDir("passwd")
		defer os.RemoveAll(dir)
		secret := genText(rt, "secret", 2, 16)
		if rapid.IntRange(0, 2).Draw(rt, "edge") == 0 {
			secret = rapid.SampledFrom([]string{"100%sure", "%d%d%d%n", "%!v(MISSING)", "a%%b", "%", " lead ", "two\nlines", "end\n", "-dash", "x{{y", "ünïcode", strings.Repeat("long secret ", 8)}).Draw(rt, "e") + secret
		}
		if rapid.IntRange(0, 3).Draw(rt, "tail") == 0 {
			secret += rapid.SampledFrom([]string{" ", "\n", "\r", "\r\n", "\t", "\u00a0", "\n\n"}).Draw(rt, "t")
		}
		if rapid.IntRange(0, 39).Draw(rt, "very long") == 0 {
			// The estimate of the strength takes too long for more.
			secret += strings.Repeat(rapid.StringMatching(`[a-j 0-4]{10}`).Draw(rt, "piece"), rapid.IntRange(20, 60).Draw(rt, "pieces"))
		}
		byFile := rapid.Bool().Draw(rt, "file")
		if byFile && rapid.IntRange(0, 7).Draw(rt, "binary") == 0 {
			secret += "\x00" + genText(rt, "after", 0, 4)
		}
		if !byFile {
			secret = strings.ReplaceAll(secret, "\x00", "0") // not possible in an argument
		}
		if strings.HasPrefix(secret, "{") || strings.TrimSpace(secret) == "" {
			secret = "x" + secret
		}
		scheme := rapid.SampledFrom([]string{"{ARGON2}", "{ARGON2}", "{CLEARTEXT}", ""}).Draw(rt, "scheme")
		mem, iter, lanes := rapid.SampledFrom([]int{64, 8, 100, 1024}).Draw(rt, "mem"), rapid.IntRange(1, 3).Draw(rt, "iter"), 1
		if mem > 8 {
			lanes = rapid.IntRange(1, 8).Draw(rt, "lanes")
		}
		args := []string{"gen", "passwd", "--min-password-strength", "0", "--argon2-memory", fmt.Sprint(mem), "--argon2-iterations", fmt.Sprint(iter), "--argon2-lanes", fmt.Sprint(lanes)}
		if scheme != "" {
			args = append(args, "--password-scheme="+scheme)
		}
		if byFile {
			must(os.WriteFile(join(dir, "secret.txt"), []byte(secret), 0o600))
			args = append(args, rapid.SampledFrom([]string{"-T", "--secret-file"}).Draw(rt, "opt"), "secret.txt")
		} else {
			args = append(args, "--secret="+secret)
		}
		omit := rapid.Bool().Draw(rt, "omit")
		if omit {
			args = append(args, "-n")
		}
		code, out, errText := runTool(dir, "", args...)
		if code != 0 {
			rt.Fatalf("idmd %q fails: %s", args, errText)
		}
		if !omit {
			if !strings.HasSuffix(out, "\n") {
				rt.Fatalf("idmd %q: no newline at the end of %q", args, out)
			}
			out = out[:len(out)-1]
		}
		if scheme == "{CLEARTEXT}" {
			if out != secret {
				rt.Fatalf("idmd %q prints %q instead of the secret %q", args, out, secret)
			}
		} else {
			if !strings.HasPrefix(out, "{ARGON2}$argon2id$") || !strings.Contains(out, fmt.Sprintf("$m=%d,t=%d,p=%d$", mem, iter, lanes)) || strings.Contains(out, "\n") {
				rt.Fatalf("idmd %q prints %q, which is not a hash with these parameters", args, out)
			}
			_, again, _ := runTool(dir, "", args...)
			if strings.TrimSuffix(again, "\n") == out {
				rt.Fatalf("idmd %q gives the same hash twice: the salt is not random", args)
			}
		}
		dn := "cn=x," + base.String()
		w := startLdif(rt, base.String(), []Entry{{base.String(), []Attr{{"dc", []string{"lg"}}}}, {dn, []Attr{{"cn", []string{"x"}}, {"userPassword", []string{out}}}}}, nil)
		defer w.stop()
		b, err := w.srv.Dial("127.0.0.1").Do(opBind(dn, secret))
		if err != nil || b.Code != 0 {
			rt.Fatalf("the value %q for the secret %q does not accept it: %v %+v", out, secret, err, b)
		}
		for _, guess := range []string{secret + "x", secret[:len(secret)-1], strings.ToUpper(secret), out, strings.TrimSpace(secret)} {
			if guess == secret || guess == "" {
				continue
			}
			b, err := w.srv.Dial("127.0.0.1").Do(opBind(dn, guess))
			if err != nil || b.Code == 0 {
				rt.Fatalf("the value %q for the secret %q accepts %q: %v", out, secret, guess, err)
			}
		}
		ev.Case(true, fmt.Sprintf("%q %s", secret, scheme), "scheme="+scheme)
	})
	leg(t, "generate", 12, func(rt *rapid.T) {
		dir := scratchDir("passwd")
		defer os.RemoveAll(dir)
		seen := map[string]bool{}
		args := []string{"gen", "passwd", "-g"}
		if rapid.Bool().Draw(rt, "scheme") {
			args = append(args, "--password-scheme={ARGON2}")
		}
		for i := 0; i < 4; i++ {
			code, out, errText := runTool(dir, "", append(args, "--min-password-strength", "0")...)
			out = strings.TrimSuffix(out, "\n")
			if code != 0 {
				rt.Fatalf("idmd %q fails: %s", args, errText)
			}
			if len(out) < 12 || strings.ContainsAny(out, "\n \t{") && strings.HasPrefix(out, "{ARGON2}") || seen[out] {
				rt.Fatalf("idmd %q prints %q, not a new secret in clear", args, out)
			}
			seen[out] = true
		}
		ev.Case(true, fmt.Sprint(args, rapid.IntRange(0, 1000).Draw(rt, "x")), "generate")
	})
	leg(t, "refused", 40, func(rt *rapid.T) {
		dir := scratchDir("passwd")
		defer os.RemoveAll(dir)
		must(os.WriteFile(join(dir, "f"), []byte("kW9#xTq!27zLp"), 0o600))
		must(os.WriteFile(join(dir, "empty"), []byte(rapid.SampledFrom([]string{"", " ", "\n", " \t\n"}).Draw(rt, "blank")), 0o600))
		must(os.WriteFile(join(dir, "weak"), []byte(rapid.SampledFrom([]string{"password", "123456", "qwerty", "aaaa", "abc"}).Draw(rt, "wf")), 0o600))
		strong := []string{"--secret=kW9#xTq!27zLp"}
		opts := map[string][]string{
			"two sources":     append(strong, "-T", "f"),
			"secret and gen":  append(strong, "-g"),
			"file and gen":    {"-T", "f", "-g"},
			"empty":           {"--secret=" + rapid.SampledFrom([]string{"", " ", "\t"}).Draw(rt, "e")},
			"empty file":      {"-T", "empty"},
			"absent file":     {"-T", "absent"},
			"weak":            {"--secret=" + rapid.SampledFrom([]string{"password", "123456", "qwerty", "aaaa", "abc"}).Draw(rt, "w")},
			"weak file":       {"--secret-file", "weak"},
			"weak threshold":  append(strong, "--min-password-strength", "5"),
			"unknown scheme":  append(strong, "--password-scheme={MD5}"),
			"unexpected args": append(strong, "extra"),
		}
		var names []string
		for _, n := range []string{"two sources", "secret and gen", "file and gen", "empty", "empty file", "absent file", "weak", "weak file", "weak threshold", "unknown scheme", "unexpected args"} {
			names = append(names, n)
		}
		name := rapid.SampledFrom(names).Draw(rt, "case")
		args := append(append([]string{"gen", "passwd"}, cheapArgonFlags...), opts[name]...)
		code, out, errText := runTool(dir, "", args...)
		if code == 0 || strings.Contains(errText, "goroutine ") {
			rt.Fatalf("idmd %q (%s) exits with %d and prints %q %s", args, name, code, out, errText)
		}
		if strings.Contains(out, "$argon2") || strings.Contains(out, "kW9#") {
			rt.Fatalf("idmd %q (%s) fails but prints a value: %q", args, name, out)
		}
		ev.Case(true, fmt.Sprint(args), "refused: "+name)
	})
}
