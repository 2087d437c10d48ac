package vh

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

const embedLimit = 1 << 20

// TestC24: files named in LDIF templates are embedded byte for byte, and only
// files below the folder of the source can be named.
func TestC24(t *testing.T) {
	// place creates the scratch area: the source folder with files in it, and
	// files around it that are out of bounds.
	type file struct{ rel, data string }
	place := func(rt *rapid.T) (root, dir string) {
		root = scratchDir("embed")
		dir = join(root, rapid.SampledFrom([]string{"ldif", "conf.d", "with space"}).Draw(rt, "dir"))
		must(os.MkdirAll(join(dir, "sub", "deep"), 0o755))
		return
	}
	put := func(path, data string) {
		must(os.MkdirAll(filepath.Dir(path), 0o755))
		must(os.WriteFile(path, []byte(data), 0o644))
	}
	genData := func(rt *rapid.T) string {
		switch rapid.IntRange(0, 9).Draw(rt, "size") {
		case 0:
			return ""
		case 1, 2:
			n := rapid.SampledFrom([]int{embedLimit, embedLimit - 1, embedLimit - 2, 65536, 65535, 32768, 1000, 1001, 4096}).Draw(rt, "big")
			seed := rapid.SliceOfN(rapid.Byte(), 1, 7).Draw(rt, "pat")
			return strings.Repeat(string(seed), n/len(seed)+1)[:n]
		case 3:
			return "dn: cn=injected,o=x\ncn: {{.Company}}\n\n# text that looks like LDIF\n"
		}
		return string(rapid.SliceOfN(rapid.Byte(), 1, 40).Draw(rt, "data"))
	}
	// spell draws a way to name a file below dir.
	spell := func(rt *rapid.T, dir, rel string) string {
		switch rapid.IntRange(0, 5).Draw(rt, "spell") {
		case 0:
			return "./" + rel
		case 1:
			return join(dir, rel)
		case 2:
			return "sub/../" + rel
		case 3:
			return dir + "//sub/deep/../../" + rel
		case 4:
			return "../" + filepath.Base(dir) + "/" + rel
		}
		return rel
	}
	use := func(fn string, rt *rapid.T) string {
		q := strconv.Quote(fn)
		if rapid.Bool().Draw(rt, "pipe") {
			return "{{" + q + " | formatAsFileBase64}}"
		}
		return "{{formatAsFileBase64 " + q + "}}"
	}
	// source writes the LDIF source that names the files; folder tells whether
	// the source is the folder itself.
	source := func(dir string, folder bool, text string) string {
		put(join(dir, "main.ldif"), text)
		if folder {
			return dir
		}
		return join(dir, "main.ldif")
	}
	leg(t, "exact", 260, func(rt *rapid.T) {
		base := rapid.SampledFrom(ldifBases).Draw(rt, "base")
		v := genVars(rt, base)
		root, dir := place(rt)
		defer os.RemoveAll(root)
		folder := rapid.Bool().Draw(rt, "folder")
		text := "dn: " + base.String() + "\nobjectClass: top\n\n"
		want := []Entry{{base.String(), []Attr{{"objectClass", []string{"top"}}}}}
		var shown []string
		odd := 0
		for i := 0; i < rapid.IntRange(1, 4).Draw(rt, "n"); i++ {
			f := file{rapid.SampledFrom([]string{"", "sub/", "sub/deep/", "..odd/", ".hidden/"}).Draw(rt, "where") + rapid.SampledFrom([]string{"a.jpeg", "b c.bin", "..x", "x..", "ü", " lead", "tail "}).Draw(rt, "name") + strconv.Itoa(i) + rapid.SampledFrom([]string{"", "", "", " ", "\t"}).Draw(rt, "end"), genData(rt)}
			put(join(dir, f.rel), f.data)
			fn := spell(rt, dir, f.rel)
			dn := fmt.Sprintf("uid=u%d,%s", i, base.String())
			text += "dn: " + dn + "\nuid: u" + strconv.Itoa(i) + "\njpegPhoto:: " + use(fn, rt) + "\ndescription: after\n\n"
			want = append(want, Entry{dn, []Attr{{"uid", []string{fmt.Sprintf("u%d", i)}}, {"jpegPhoto", []string{f.data}}, {"description", []string{"after"}}}})
			shown = append(shown, fmt.Sprintf("%s (%d bytes)", strings.ReplaceAll(fn, root, "$ROOT"), len(f.data)))
			if len(f.data)%3 != 0 {
				odd++
			}
		}
		srv, err := startServer(v.config(base, source(dir, folder, text)))
		if err != nil {
			rt.Fatalf("embedding %q from the folder of the source is refused: %v", shown, err)
		}
		defer srv.Stop()
		r := search(rt, srv.Dial("127.0.0.1"), SearchReq{Base: base.String(), Scope: 2, Filter: filterAll()})
		if d := sameContent(r.Entries, want); d != "" {
			rt.Fatalf("embedded files %q are not served byte for byte: %s", shown, d)
		}
		ev.Case(odd > 0, fmt.Sprintf("%v %q", folder, shown), fmt.Sprintf("folder=%v", folder))
	})
	leg(t, "config", 60, func(rt *rapid.T) {
		// A second source with logins of its own follows the same rules.
		base := rapid.SampledFrom(ldifBases).Draw(rt, "base")
		v := genVars(rt, base)
		root, dir := place(rt)
		defer os.RemoveAll(root)
		pw := genText(rt, "pw", 0, 12)
		put(join(dir, "pw.txt"), pw)
		main := source(dir, false, "dn: "+base.String()+"\nobjectClass: top\n")
		cfg := v.config(base, main)
		cfg.LDIFConfig = join(dir, "config.conf")
		dn := "cn=svc," + base.String()
		put(cfg.LDIFConfig, "dn: "+dn+"\ncn: svc\nuserPassword:: "+use(spell(rt, dir, "pw.txt"), rt)+"\n")
		srv, err := startServer(cfg)
		if err != nil {
			rt.Fatalf("embedding a file in the second source is refused: %v", err)
		}
		defer srv.Stop()
		b, err := srv.Dial("127.0.0.1").Do(opBind(dn, pw))
		if err != nil || b.Code != 0 {
			rt.Fatalf("the embedded password %q does not work: %v %+v", pw, err, b)
		}
		ev.Case(len(pw)%3 != 0, "config "+pw, "second source")
	})
	leg(t, "confined", 300, func(rt *rapid.T) {
		base := rapid.SampledFrom(ldifBases).Draw(rt, "base")
		v := genVars(rt, base)
		root, dir := place(rt)
		defer os.RemoveAll(root)
		folder := rapid.Bool().Draw(rt, "folder")
		secret := "secret!" + genText(rt, "s", 0, 9)
		b := filepath.Base(dir)
		// Files around the folder, some with names that start the same.
		ext := rapid.SampledFrom([]string{"", "", ".pem", ".crt", ".key", ".ldif", ".txt", ".json", ".png", ".jpg", ".conf", ".b64", ".d/secret"}).Draw(rt, "ext")
		for _, p := range []string{"secret", b + "-more/secret", b + "2", b + ".bak/sub/secret", "other/secret", strings.ToUpper(b) + "/secret"} {
			put(join(root, p), secret)
			if ext != "" {
				put(join(root, p+ext), secret)
			}
		}
		put(join(dir, "big"), strings.Repeat("x", embedLimit+rapid.IntRange(1, 5).Draw(rt, "over")))
		up := rapid.SampledFrom([]string{"../", "sub/../../", "./../", "sub/deep/../../../", "..//", "nowhere/../../"}).Draw(rt, "up")
		var fn, class string
		switch rapid.IntRange(0, 6).Draw(rt, "kind") {
		case 6:
			// Notations that mean more than the name to other programs.
			class, fn = "notation", rapid.SampledFrom([]string{"$VH_UP/secret", "${VH_UP}/secret", "sub/$VH_UP/../secret", "%2e%2e/secret", "..%2fsecret", "~/../secret", "$VH_ROOT/secret", "${VH_ROOT}/other/secret", "....//secret", "*/../../secret", "file://" + root + "/secret", "|cat ../secret", "<../secret", "../secret\x00", "{../secret,}", "..\\\\secret"}).Draw(rt, "n")
			os.Setenv("VH_UP", "..")
			os.Setenv("VH_ROOT", root)
		case 0:
			class, fn = "parent", up+rapid.SampledFrom([]string{"secret", "other/secret"}).Draw(rt, "t")
		case 1:
			class, fn = "neighbour", up+rapid.SampledFrom([]string{b + "-more/secret", b + "2", b + ".bak/sub/secret", strings.ToUpper(b) + "/secret"}).Draw(rt, "t")
		case 2:
			class, fn = "absolute", join(root, rapid.SampledFrom([]string{"secret", "other/secret", b + "-more/secret", b + "2", b + ".bak/sub/secret"}).Draw(rt, "t"))
		case 3:
			class, fn = "absolute through the folder", dir+"/"+up+rapid.SampledFrom([]string{"secret", b + "-more/secret", b + "2"}).Draw(rt, "t")
		case 4:
			class, fn = "too large", spell(rt, dir, "big")
		default:
			class, fn = "no file", rapid.SampledFrom([]string{"", ".", "sub", "absent", dir, "..", "/", up + "absent"}).Draw(rt, "t")
		}
		if strings.HasSuffix(fn, "secret") || strings.HasSuffix(fn, b+"2") {
			fn += ext
		}
		text := "dn: " + base.String() + "\nobjectClass: top\n\ndn: cn=x," + base.String() + "\ncn:: " + use(fn, rt) + "\n"
		cfg := v.config(base, source(dir, folder, text))
		if rapid.IntRange(0, 3).Draw(rt, "second") == 0 {
			cfg.LDIFConfig = join(dir, "config.conf")
			put(cfg.LDIFConfig, text)
			put(join(dir, "main.ldif"), "dn: "+base.String()+"\nobjectClass: top\n")
		}
		srv, err := startServer(cfg)
		if err == nil {
			defer srv.Stop()
			r := search(rt, srv.Dial("127.0.0.1"), SearchReq{Base: base.String(), Scope: 2, Filter: filterAll()})
			s := ""
			for _, e := range r.Entries {
				for _, x := range e.get("cn") {
					s += fmt.Sprintf(" %d bytes %.40q", len(x), x)
				}
			}
			rt.Fatalf("a template of the source in %q may embed %q (%s):%s", dir, fn, class, s)
		}
		ev.Case(true, strings.ReplaceAll(fn, root, "$ROOT")+fmt.Sprint(folder), "refused: "+class)
	})
}
