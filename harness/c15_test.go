package vh

import (
	"fmt"
	"strings"
	"testing"

	"github.com/libregraph/idm/server"
	"pgregory.net/rapid"
)

// TestC15: only the configured administrator changes the directory.
func TestC15(t *testing.T) {
	run := func(rt *rapid.T, adminMode string) {
		base := rapid.SampledFrom(boltBases).Draw(rt, "base")
		admin := base.Child(RDN{{"cn", "admin"}})
		mk := func(d DN) Entry {
			var at []Attr
			for _, a := range d[0] {
				at = append(at, Attr{a.T, []string{a.V}})
			}
			return Entry{d.String(), append(at, Attr{"userPassword", []string{"pw"}})}
		}
		// Names that resemble the administrator's.
		ou := base.Child(RDN{{"ou", "people"}})
		users := []DN{ou, base.Child(RDN{{"uid", "user"}}), ou.Child(RDN{{"cn", "admin"}}), base.Child(RDN{{"cn", "admin2"}}), base.Child(RDN{{"cn", "admi"}}),
			base.Child(RDN{{"uid", "admin"}}), base.Child(RDN{{"cn", admin.String()}}), admin.Child(RDN{{"cn", "sub"}}), base.Child(RDN{{"cn", "admin"}, {"ou", "x"}}),
			base.Child(RDN{{"cn", "ad min"}}), base.Child(RDN{{"cn", "ádmin"}}), base.Child(RDN{{"cn", "xadmin"}}), base.Child(RDN{{"cn", "admin,x"}})}
		var extra []Entry
		for _, u := range users {
			extra = append(extra, mk(u))
		}
		effective := admin.Key() // key of the DN that may write
		w := newBoltWorldAt(rt, base, func(c *server.Config) {
			c.LDAPAllowLocalAnonymousBind = rapid.Bool().Draw(rt, "anon")
			switch adminMode {
			case "none":
				c.LDAPAdminDN = ""
				effective = ""
			case "absent":
				c.LDAPAdminDN = base.Child(RDN{{"cn", "nobody"}}).String()
				effective = base.Child(RDN{{"cn", "nobody"}}).Key()
			case "user":
				c.LDAPAdminDN = users[2].Respell(rt)
				effective = users[2].Key()
			default:
				c.LDAPAdminDN = admin.Respell(rt)
			}
		}, extra...)
		defer w.stop()
		reader := w.srv.Dial("127.0.0.1")
		bindAs(rt, reader, users[1].String(), "pw")
		type party struct {
			cl   *Client
			name string
			may  bool
		}
		var parties []party
		for i := 0; i < 4; i++ {
			p := party{cl: w.srv.Dial(rapid.SampledFrom([]string{"127.0.0.1", "10.1.2.3"}).Draw(rt, "from"))}
			k := rapid.IntRange(0, len(users)+3).Draw(rt, "who")
			switch {
			case k < len(users):
				p.name = users[k].String()
				bindAs(rt, p.cl, users[k].Respell(rt), "pw")
				p.may = users[k].Key() == effective
			case k == len(users):
				p.name = "nobody (no bind)"
			case k == len(users)+1:
				p.name = "anonymous"
				if _, err := p.cl.Do(opBind("", "")); err != nil {
					rt.Fatalf("anonymous bind: %v", err)
				}
			case k == len(users)+2:
				p.name = "failed bind as administrator"
				r, err := p.cl.Do(opBind(admin.String(), "wrong"))
				if err != nil || r.Code == 0 {
					rt.Fatalf("bind with wrong password: %v %+v", err, r)
				}
			default:
				p.name = "administrator entry"
				bindAs(rt, p.cl, admin.Respell(rt), adminPw)
				p.may = admin.Key() == effective
			}
			parties = append(parties, p)
		}
		if adminMode == "normal" {
			p := party{cl: w.srv.Dial("127.0.0.1"), name: "administrator entry", may: true}
			bindAs(rt, p.cl, admin.Respell(rt), adminPw)
			parties = append(parties, p)
		}
		denied, allowed := 0, 0
		steps(rt, 12, func(rt *rapid.T) {
			p := parties[rapid.IntRange(0, len(parties)-1).Draw(rt, "party")]
			w.denied = !p.may
			n := len(w.log)
			f, a := w.fails, w.writes
			w.step(rt, p.cl, 1)
			if len(w.log) > n {
				w.log[n] = p.name + ": " + w.log[n]
			}
			if w.denied {
				denied += w.fails - f
			} else {
				allowed += w.writes - a
			}
			w.dump(rt, reader)
		})
		ev.Note("writes by others refused", denied)
		ev.Note("writes by the administrator accepted", allowed)
		ev.Case(denied > 0, strings.Join(w.log, "\n"), "admin-"+adminMode, fmt.Sprintf("admin-writes=%v", allowed > 0))
	}
	leg(t, "normal", 120, func(rt *rapid.T) { run(rt, "normal") })
	leg(t, "user", 50, func(rt *rapid.T) { run(rt, "user") })
	leg(t, "none", 40, func(rt *rapid.T) { run(rt, "none") })
	leg(t, "absent", 40, func(rt *rapid.T) { run(rt, "absent") })
}
