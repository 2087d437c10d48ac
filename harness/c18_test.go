package vh

import (
	"fmt"
	"net"
	"testing"

	ber "github.com/go-asn1-ber/asn1-ber"
	"github.com/libregraph/idm/server"
	"pgregory.net/rapid"
)

// TestC18: unauthenticated clients see the directory only where anonymous access
// was enabled, and then only from the local host.
func TestC18(t *testing.T) {
	peers := []string{"127.0.0.1", "::1", "127.9.8.7", "::ffff:127.0.0.1", "10.0.0.1", "192.168.127.1", "8.8.8.8", "::", "0.0.0.0", "fe80::1", "2001:db8::1", "::ffff:10.0.0.1", "126.255.255.255", "128.0.0.1", "::2", "localhost.evil", ""}
	run := func(rt *rapid.T, backend string) {
		base := someBase(rt, backend != "bolt")
		allow := rapid.Bool().Draw(rt, "allow")
		user := base.Child(RDN{{"uid", "user"}})
		ue := Entry{user.String(), []Attr{{"uid", []string{"user"}}, {"userPassword", []string{"pw"}}}}
		mut := func(c *server.Config) { c.LDAPAllowLocalAnonymousBind = allow }
		var srv *Srv
		if backend == "bolt" {
			w := newBoltWorldAt(rt, base, mut, ue)
			defer w.stop()
			srv = w.srv
		} else {
			w := startLdif(rt, base.String(), []Entry{{base.String(), []Attr{{"dc", []string{"lg"}}}}, ue}, mut)
			defer w.stop()
			srv = w.srv
		}
		// A paged search of a client that may see the directory is under way.
		known := srv.Dial("127.0.0.1")
		bindAs(rt, known, user.String(), "pw")
		page := func() []byte {
			return search(rt, known, SearchReq{Base: base.String(), Scope: 2, Filter: filterAll()}, pagingControl(1, nil, false)).Cookie
		}
		steps(rt, 10, func(rt *rapid.T) {
			host := rapid.SampledFrom(peers).Draw(rt, "peer")
			cl := srv.Dial(host)
			ip := net.ParseIP(host)
			anonOK := allow && ip != nil && ip.IsLoopback()
			hist := []string{}
			authed := false
			for i := rapid.IntRange(0, 3).Draw(rt, "nb"); i > 0; i-- {
				k := rapid.SampledFrom([]string{"anonymous", "anonymous", "user", "wrong", "name-only", "pw-only"}).Draw(rt, "bind")
				var dn, pw string
				switch k {
				case "user":
					dn, pw = user.String(), "pw"
				case "wrong":
					dn, pw = user.String(), "bad"
				case "name-only":
					dn = user.String()
				case "pw-only":
					pw = "pw"
				}
				r, err := cl.Do(opBind(dn, pw))
				if err != nil {
					rt.Fatalf("bind %s: %v", k, err)
				}
				hist = append(hist, fmt.Sprintf("%s->%d", k, r.Code))
				want := k == "user" || (k == "anonymous" && anonOK)
				if (r.Code == 0) != want {
					rt.Fatalf("%s allow=%v peer %q: %s bind answered %d, success must be %v", backend, allow, host, k, r.Code, want)
				}
				authed = k == "user"
			}
			may := authed || anonOK
			q := SearchReq{Base: base.String(), Scope: rapid.IntRange(0, 2).Draw(rt, "sc"), Filter: filterAll()}
			var ctl []*ber.Packet
			if !may {
				// However it is asked.
				switch rapid.SampledFrom([]string{"plain", "plain", "user", "filter", "page", "cookie", "cookie", "size", "attrs", "spelling"}).Draw(rt, "how") {
				case "user":
					q.Base = user.Respell(rt)
				case "filter":
					q.Filter = (&Filt{Op: "eq", Attr: "uid", Val: "user"}).Packet()
				case "page":
					ctl = append(ctl, pagingControl(int64(rapid.IntRange(0, 3).Draw(rt, "ps")), nil, rapid.Bool().Draw(rt, "crit")))
				case "cookie":
					ctl = append(ctl, pagingControl(int64(rapid.IntRange(1, 3).Draw(rt, "ps")), page(), rapid.Bool().Draw(rt, "crit")))
				case "size":
					q.Size = 1
				case "attrs":
					q.Attrs = rapid.SampledFrom([][]string{{"1.1"}, {"uid"}, {"*", "+"}}).Draw(rt, "attrs")
				case "spelling":
					q.Base = base.Respell(rt)
				}
			}
			r, err := cl.Do(opSearch(q), ctl...)
			if err != nil {
				rt.Fatalf("search: %v", err)
			}
			if !may && (len(r.Entries) > 0 || r.Code == 0) {
				rt.Fatalf("%s allow=%v peer %q after binds %v: unauthenticated search answered with code %d and %d entries", backend, allow, host, hist, r.Code, len(r.Entries))
			}
			if may && (r.Code != 0 || len(r.Entries) == 0) {
				rt.Fatalf("%s allow=%v peer %q after binds %v: search refused with code %d", backend, allow, host, hist, r.Code)
			}
			ev.Case(!authed, fmt.Sprintf("%s allow=%v peer=%q binds=%v", backend, allow, host, hist), fmt.Sprintf("%s-visible=%v", backend, may))
		})
	}
	leg(t, "bolt", 100, func(rt *rapid.T) { run(rt, "bolt") })
	leg(t, "ldif", 100, func(rt *rapid.T) { run(rt, "ldif") })
}
