package vh

import (
	"encoding/base64"
	"fmt"
	"os"
	"strings"
	"sync"

	"github.com/libregraph/idm/server"
	"pgregory.net/rapid"
)

// ldifSafe tells whether a value can be written without base64.
func ldifSafe(v string) bool {
	if v == "" || strings.ContainsAny(v[:1], " :<#") || v[len(v)-1] == ' ' || strings.Contains(v, "{{") {
		return false
	}
	for i := 0; i < len(v); i++ {
		if v[i] < 32 || v[i] > 126 {
			return false
		}
	}
	return true
}

func ldifLine(name, v string, b64 bool) string {
	if b64 || !ldifSafe(v) {
		return name + ":: " + base64.StdEncoding.EncodeToString([]byte(v)) + "\n"
	}
	return name + ": " + v + "\n"
}

// ldifText renders entries; every value keeps its own line.
func ldifText(entries []Entry) string {
	var sb strings.Builder
	for _, e := range entries {
		sb.WriteString(ldifLine("dn", e.DN, false))
		for _, a := range e.Attrs {
			for _, v := range a.V {
				sb.WriteString(ldifLine(a.N, v, false))
			}
		}
		sb.WriteString("\n")
	}
	return sb.String()
}

// ldifWorld is a server on an LDIF file.
type ldifWorld struct {
	srv     *Srv
	dir     string
	file    string
	base    string
	entries []Entry
}

func startLdif(rt *rapid.T, base string, entries []Entry, mutate func(c *server.Config)) *ldifWorld {
	w := &ldifWorld{dir: scratchDir("ldif"), base: base, entries: entries}
	w.file = join(w.dir, "main.ldif")
	must(os.WriteFile(w.file, []byte(ldifText(entries)), 0o644))
	cfg := &server.Config{LDAPHandler: "ldif", LDAPBaseDN: base, LDIFMain: w.file, LDAPAllowLocalAnonymousBind: true}
	if mutate != nil {
		mutate(cfg)
	}
	s, err := startServer(cfg)
	if err != nil {
		rt.Fatalf("server does not start on a valid LDIF file: %v\n%s", err, ldifText(entries))
	}
	w.srv = s
	return w
}

func (w *ldifWorld) stop() {
	w.srv.Stop()
	os.RemoveAll(w.dir)
}

// matchKeys lists the DN keys of the entries in scope that match f. Passwords
// are not part of what a search sees.
func matchKeys(entries []Entry, base DN, scope int, f *Filt) map[string]Entry {
	out := map[string]Entry{}
	bk := base.Key()
	for _, e := range entries {
		keys := dnKeys(e.DN)
		up := len(keys) - len(base)
		if up < 0 || scope < 2 && up != scope || len(base) > 0 && keys[up] != bk {
			continue
		}
		if f == nil || f.Eval(attrsToMap(e.Attrs)) {
			out[dnKeyOf(e.DN)] = e
		}
	}
	return out
}

var dnCache = struct {
	sync.Mutex
	m map[string][]string
}{m: map[string][]string{}}

// dnKeys gives the keys of a DN and all its parents.
func dnKeys(s string) []string {
	dnCache.Lock()
	defer dnCache.Unlock()
	if k, ok := dnCache.m[s]; ok {
		return k
	}
	d, err := ParseDN(s)
	must(err)
	var keys []string
	for i := range d {
		keys = append(keys, d[i:].Key())
	}
	if len(dnCache.m) > 5000 {
		dnCache.m = map[string][]string{}
	}
	dnCache.m[s] = keys
	return keys
}

// diffKeys compares returned entries with the expected ones by DN.
func diffKeys(got []Entry, want map[string]Entry) string {
	seen := map[string]bool{}
	for _, e := range got {
		k := dnKeyOf(e.DN)
		if seen[k] {
			return fmt.Sprintf("entry %q returned twice", e.DN)
		}
		seen[k] = true
		if _, ok := want[k]; !ok {
			return fmt.Sprintf("entry %q must not be in the result", e.DN)
		}
	}
	for k, e := range want {
		if !seen[k] {
			return fmt.Sprintf("entry %q is missing from the result", e.DN)
		}
	}
	return ""
}

func withoutPasswords(entries []Entry) []Entry {
	var out []Entry
	for _, e := range entries {
		n := Entry{DN: e.DN}
		for _, a := range e.Attrs {
			if fold(a.N) != "userpassword" {
				n.Attrs = append(n.Attrs, a)
			}
		}
		out = append(out, n)
	}
	return out
}
