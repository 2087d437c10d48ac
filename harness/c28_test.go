package vh

import (
	"bufio"
	"fmt"
	"io"
	"net/http"
	"os"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	ber "github.com/go-asn1-ber/asn1-ber"
	"github.com/libregraph/idm/server"
	"github.com/prometheus/client_golang/prometheus"
	"pgregory.net/rapid"
)

// counts are the numbers a server has to report.
type counts map[string]uint64

func (c counts) clone() counts {
	n := counts{}
	for k, v := range c {
		n[k] = v
	}
	return n
}

func (c counts) String() string {
	var s []string
	for _, k := range []string{"connections_total", "connections_current", "connections_max", "binds", "unbinds", "searches", "adds", "deletes", "modifies", "modifydns"} {
		if v, ok := c[k]; ok {
			s = append(s, fmt.Sprintf("%s=%d", k, v))
		}
	}
	return strings.Join(s, " ")
}

// metered is a server in this process with its own registry.
type metered struct {
	srv  *Srv
	reg  *prometheus.Registry
	want counts
	mu   sync.Mutex
	dir  string
}

func startMetered(rt *rapid.T, kind string) *metered {
	m := &metered{reg: prometheus.NewPedanticRegistry(), want: counts{}, dir: scratchDir("metered")}
	cfg := &server.Config{LDAPHandler: "boltdb", LDAPBaseDN: fuzzBase, LDAPAdminDN: "cn=admin," + fuzzBase, BoltDBFile: join(m.dir, "db"), Metrics: m.reg}
	if kind == "bolt" {
		seedBolt(rt, join(m.dir, "db"), fuzzBase, fuzzEntries(3, 0))
	} else {
		cfg.LDAPHandler, cfg.LDIFMain = "ldif", join(m.dir, "main.ldif")
		must(os.WriteFile(cfg.LDIFMain, []byte(ldifText(fuzzEntries(3, 0))), 0o644))
	}
	srv, err := startServer(cfg)
	if err != nil {
		rt.Fatalf("server with metrics does not start: %v", err)
	}
	m.srv = srv
	return m
}

func (m *metered) stop() {
	m.srv.Stop()
	// Connections closed by this side may still be winding up.
	for i := 0; i < 2000 && m.srv.S.LDAPServer.GetStats().ConnsCurrent > 0; i++ {
		time.Sleep(time.Millisecond)
	}
	os.RemoveAll(m.dir)
}

func (m *metered) count(what string, n uint64) {
	m.mu.Lock()
	m.want[what] += n
	m.mu.Unlock()
}

// gather reads the exported metrics and the statistics.
func (m *metered) gather(rt *rapid.T) counts {
	type result struct {
		got counts
		err error
	}
	done := make(chan result, 1)
	go func() {
		got, err := m.read()
		done <- result{got, err}
	}()
	select {
	case r := <-done:
		if r.err != nil {
			rt.Fatalf("metrics can not be gathered: %v", r.err)
		}
		return r.got
	case <-time.After(replyTimeout()):
		hung.Store(true)
		rt.Fatalf("reading the metrics does not end")
	}
	return nil
}

func (m *metered) read() (counts, error) {
	got := counts{}
	fams, err := m.reg.Gather()
	if err != nil {
		return nil, err
	}
	for _, f := range fams {
		name := strings.TrimPrefix(f.GetName(), "ldapserver_")
		for _, x := range f.GetMetric() {
			if !strings.HasPrefix(name, "connections") {
				name = strings.TrimSuffix(name, "_total")
			}
			got[name] = uint64(x.GetCounter().GetValue() + x.GetGauge().GetValue())
		}
	}
	s := m.srv.S.LDAPServer.GetStats()
	for k, v := range map[string]uint64{"connections_total": s.Conns, "connections_current": s.ConnsCurrent, "connections_max": s.ConnsMax,
		"binds": s.Binds, "unbinds": s.Unbinds, "searches": s.Searches} {
		if got[k] != v {
			// Taken a moment later; only a standing difference counts.
			got["differs "+k] = v
		}
	}
	got["adds"], got["deletes"], got["modifies"], got["modifydns"] = s.Adds, s.Deletes, s.Modifies, s.ModifyDNs
	return got, nil
}

// settle waits until the reported numbers are the expected ones.
func (m *metered) settle(rt *rapid.T, history func() string) {
	deadline := time.Now().Add(replyTimeout())
	for {
		got := m.gather(rt)
		if fmt.Sprint(got) == fmt.Sprint(m.full()) {
			return
		}
		if time.Now().After(deadline) {
			hung.Store(true)
			rt.Fatalf("reported: %s %v\nactual:   %s\nafter %s", got, got, m.full(), history())
		}
		time.Sleep(200 * time.Microsecond)
	}
}

func (m *metered) full() counts {
	m.mu.Lock()
	defer m.mu.Unlock()
	c := m.want.clone()
	for _, k := range []string{"connections_total", "connections_current", "connections_max", "binds", "unbinds", "searches", "adds", "deletes", "modifies", "modifydns"} {
		c[k] += 0
	}
	return c
}

var meterOps = []string{"bind", "badbind", "sasl", "search", "badsearch", "limited", "add", "badadd", "delete", "modify", "modifydn", "compare", "extended", "abandon"}

// meterOp builds a request and names the counter it belongs to.
func meterOp(rt *rapid.T, kind string) (*ber.Packet, string) {
	uid := fmt.Sprintf("uid=n%d,%s", rapid.IntRange(0, 3).Draw(rt, "n"), fuzzBase)
	switch kind {
	case "bind":
		return opBind("cn=admin,"+fuzzBase, adminPw), "binds"
	case "badbind":
		return opBind("cn=admin,"+fuzzBase, "wrong"), "binds"
	case "sasl":
		return opSASL("", "PLAIN"), "binds"
	case "search":
		return opSearch(SearchReq{Base: fuzzBase, Scope: 2, Filter: pCtx(7, "objectClass")}), "searches"
	case "badsearch":
		return opSearch(SearchReq{Base: "uid=none," + fuzzBase, Scope: 0, Filter: pCtx(7, "objectClass")}), "searches"
	case "limited":
		return opSearch(SearchReq{Base: fuzzBase, Scope: 2, Size: 1, Filter: pCtx(7, "objectClass")}), "searches"
	case "add":
		return opAdd(uid, []Attr{{"cn", []string{"x"}}}), "adds"
	case "badadd":
		return opAdd("uid=n,o=elsewhere", []Attr{{"cn", []string{"x"}}}), "adds"
	case "delete":
		return opDel(uid), "deletes"
	case "modify":
		return opModify(uid, []Change{{2, Attr{"cn", []string{"y"}}}}), "modifies"
	case "modifydn":
		return opModDN(uid, "uid=m", true), "modifydns"
	case "compare":
		return opCompare(uid, "cn", "x"), ""
	case "abandon":
		return opAbandon(1), ""
	}
	return opExt("1.2.3", nil), ""
}

// TestC28: the reported numbers are the true ones.
func TestC28(t *testing.T) {
	cheapArgon()
	leg(t, "sequence", 120, func(rt *rapid.T) {
		ms := []*metered{startMetered(rt, rapid.SampledFrom([]string{"bolt", "ldif"}).Draw(rt, "kind"))}
		if rapid.Bool().Draw(rt, "two") {
			ms = append(ms, startMetered(rt, "ldif"))
		}
		open := make([][]*Client, len(ms))
		var hist []string
		history := func() string { return strings.Join(hist, ", ") }
		kinds := map[string]bool{}
		for _, m := range ms {
			defer m.stop()
		}
		steps(rt, 25, func(rt *rapid.T) {
			i := rapid.IntRange(0, len(ms)-1).Draw(rt, "server")
			m := ms[i]
			what := rapid.SampledFrom([]string{"connect", "op", "op", "op", "op", "op", "close", "unbind", "garbage"}).Draw(rt, "step")
			if what != "connect" && len(open[i]) == 0 {
				what = "connect"
			}
			if what == "connect" && len(open[i]) >= 5 {
				what = "close"
			}
			k := 0
			if len(open[i]) > 0 {
				k = rapid.IntRange(0, len(open[i])-1).Draw(rt, "conn")
			}
			kinds[what] = true
			hist = append(hist, fmt.Sprintf("server %d: %s %d", i, what, k))
			journal("%s", hist[len(hist)-1])
			gone := false
			switch what {
			case "connect":
				m.srv.closeFails = rapid.IntRange(0, 3).Draw(rt, "fails") == 0
				open[i] = append(open[i], m.srv.Dial("127.0.0.1"))
				m.want["connections_total"]++
				m.want["connections_current"]++
				if m.want["connections_current"] > m.want["connections_max"] {
					m.want["connections_max"] = m.want["connections_current"]
				}
			case "op":
				kind := rapid.SampledFrom(meterOps).Draw(rt, "op")
				kinds[kind] = true
				hist[len(hist)-1] += " " + kind
				op, ctr := meterOp(rt, kind)
				if ctr != "" {
					m.want[ctr]++
				}
				if kind == "abandon" {
					open[i][k].sendRaw(envelope(77, op).Bytes())
					break
				}
				if _, err := open[i][k].Do(op); err != nil {
					hung.Store(true)
					rt.Fatalf("%s gets no answer: %v\nafter %s", kind, err, history())
				}
			case "close":
				open[i][k].Close()
				gone = true
			case "unbind":
				open[i][k].sendRaw(envelope(9, opUnbind()).Bytes())
				if !open[i][k].waitClosed(replyTimeout()) {
					rt.Fatalf("connection open after unbind")
				}
				open[i][k].Close()
				m.want["unbinds"]++
				gone = true
			case "garbage":
				// Requests that end the connection one way or the other.
				ctl := pSeq()
				ctl.AppendChild(pStr(rapid.SampledFrom(fuzzOIDs).Draw(rt, "oid")))
				open[i][k].sendRaw(rapid.SampledFrom([][]byte{{0x30, 0}, {0x30, 5, 2, 1}, {1, 2, 3}, envelope(1, opCompare("", "", ""), ctl).Bytes()}).Draw(rt, "garbage"))
				open[i][k].Close()
				gone = true
			}
			if gone {
				open[i] = append(append([]*Client(nil), open[i][:k]...), open[i][k+1:]...)
				m.want["connections_current"]--
			}
			for _, m := range ms {
				m.settle(rt, history)
			}
		})
		ev.Case(len(kinds) > 4, history(), "sequence")
	})

	// Many clients at the same time: no count is lost.
	leg(t, "parallel", 25, func(rt *rapid.T) {
		m := startMetered(rt, rapid.SampledFrom([]string{"bolt", "ldif"}).Draw(rt, "kind"))
		defer m.stop()
		n := rapid.IntRange(2, 6).Draw(rt, "clients")
		var plans [][]byte
		var answers []int
		for i := 0; i < n; i++ {
			var ops []string
			var pk []*ber.Packet
			for k := rapid.IntRange(1, 6).Draw(rt, "kinds"); k > 0; k-- {
				kind := rapid.SampledFrom(meterOps[:len(meterOps)-1]).Draw(rt, "op")
				op, ctr := meterOp(rt, kind)
				ops, pk = append(ops, ctr), append(pk, op)
			}
			var buf []byte
			num := 0
			for r := rapid.IntRange(10, 60).Draw(rt, "rounds"); r > 0; r-- {
				for j := range pk {
					buf = append(buf, envelope(int64(num+1), pk[j]).Bytes()...)
					num++
					if ops[j] != "" {
						m.want[ops[j]]++
					}
				}
			}
			plans, answers = append(plans, buf), append(answers, num)
		}
		m.want["connections_total"] = uint64(n)
		m.want["connections_max"] = uint64(n)
		var wg, up sync.WaitGroup
		errs := make([]error, n)
		up.Add(n)
		for i := range plans {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				cl := m.srv.Dial("127.0.0.1")
				// Once a request is answered the connection has been counted.
				_, errs[i] = cl.Do(opExt("1.2.3", nil))
				up.Done()
				if errs[i] != nil {
					return
				}
				up.Wait() // all are connected at the same time
				go cl.sendRaw(plans[i])
				for got := 0; got < answers[i]; {
					msg, err := cl.next(replyTimeout())
					if err != nil {
						errs[i] = err
						return
					}
					if msg.Tag != tagEntry {
						got++
					}
				}
				cl.Close()
			}(i)
		}
		go func() { // reading the numbers at the same time does no harm
			for i := 0; i < 20; i++ {
				m.reg.Gather()
			}
		}()
		wg.Wait()
		for i, err := range errs {
			if err != nil {
				hung.Store(true)
				rt.Fatalf("client %d: %v", i, err)
			}
		}
		m.settle(rt, func() string { return fmt.Sprintf("%d parallel clients", n) })
		ev.Case(true, fmt.Sprint(n, answers), "parallel")
	})

	// Many connections.
	leg(t, "many", 20, func(rt *rapid.T) {
		m := startMetered(rt, rapid.SampledFrom([]string{"bolt", "ldif"}).Draw(rt, "kind"))
		defer m.stop()
		var open []*Client
		var hist []string
		history := func() string { return strings.Join(hist, ", ") }
		for k := rapid.IntRange(2, 6).Draw(rt, "rounds"); k > 0; k-- {
			n := bigSize(rt, "n", 400)
			what := rapid.SampledFrom([]string{"open", "open", "close", "request", "unbind"}).Draw(rt, "what")
			if len(open) == 0 {
				what = "open"
			}
			hist = append(hist, fmt.Sprint(what, " ", n))
			op, ctr := meterOp(rt, rapid.SampledFrom([]string{"bind", "badbind", "search", "badsearch", "add", "modify", "delete", "modifydn"}).Draw(rt, "op"))
			for i := 0; i < n && (what == "open" || len(open) > 0); i++ {
				switch what {
				case "open":
					open = append(open, m.srv.Dial("127.0.0.1"))
					m.want["connections_total"]++
					m.want["connections_current"]++
					continue
				case "request":
					if _, err := open[i%len(open)].Do(op); err != nil {
						hung.Store(true)
						rt.Fatalf("request %d gets no answer: %v\nafter %s", i, err, history())
					}
					m.want[ctr]++
					continue
				case "unbind":
					open[0].sendRaw(envelope(9, opUnbind()).Bytes())
					if !open[0].waitClosed(replyTimeout()) {
						rt.Fatalf("connection open after unbind")
					}
					m.want["unbinds"]++
				}
				open[0].Close()
				open = open[1:]
				m.want["connections_current"]--
			}
			if m.want["connections_current"] > m.want["connections_max"] {
				m.want["connections_max"] = m.want["connections_current"]
			}
			m.settle(rt, history)
		}
		for _, c := range open {
			c.Close()
		}
		ev.Case(len(hist) > 2, history(), "many")
	})

	// What a running server publishes.
	leg(t, "published", 6, func(rt *rapid.T) {
		dir := scratchDir("published")
		defer os.RemoveAll(dir)
		must(os.WriteFile(join(dir, "main.ldif"), []byte(ldifText(fuzzEntries(3, 0))), 0o644))
		maddr := freeAddr()
		ch, err := startChild(dir, nil, "--ldap-base-dn", fuzzBase, "--ldif-main", join(dir, "main.ldif"), "--with-metrics", "--metrics-listen", maddr)
		if err != nil {
			rt.Fatalf("the server does not start: %v", err)
		}
		defer ch.kill()
		first, err := ch.dial() // all earlier connections are counted once this is served
		must(err)
		defer first.Close()
		if _, err := first.Do(opExt("1.2.3", nil)); err != nil {
			rt.Fatalf("no answer: %v", err)
		}
		base, err := scrape(maddr)
		if err != nil {
			if strings.Contains(ch.out.String(), "address already in use") {
				return // the port was taken in the meantime
			}
			rt.Fatalf("metrics not published: %v", err)
		}
		want := counts{"connections_total": base["connections_total"], "connections_max": base["connections_max"]}
		open := []*Client{first}
		for i := rapid.IntRange(1, 20).Draw(rt, "ops"); i > 0; i-- {
			if rapid.IntRange(0, 3).Draw(rt, "connect") == 0 {
				c, err := ch.dial()
				must(err)
				defer c.Close()
				open = append(open, c)
				want["connections_total"]++
			}
			op, ctr := meterOp(rt, rapid.SampledFrom([]string{"bind", "badbind", "search", "limited"}).Draw(rt, "op"))
			if _, err := open[rapid.IntRange(0, len(open)-1).Draw(rt, "conn")].Do(op); err != nil {
				rt.Fatalf("no answer: %v", err)
			}
			want[ctr]++
		}
		if n := uint64(len(open)); n > want["connections_max"] {
			want["connections_max"] = n
		}
		want["connections_current"] = uint64(len(open))
		deadline := time.Now().Add(replyTimeout())
		for {
			got, err := scrape(maddr)
			if err != nil {
				rt.Fatalf("metrics not published: %v", err)
			}
			ok := true
			for _, k := range []string{"connections_total", "connections_current", "binds", "unbinds", "searches"} {
				ok = ok && got[k] == want[k]
			}
			// Connections from before may still have been counted.
			ok = ok && got["connections_max"] >= want["connections_max"] && got["connections_max"] <= want["connections_max"]+base["connections_total"]
			if ok {
				break
			}
			if time.Now().After(deadline) {
				hung.Store(true)
				rt.Fatalf("published: %s\nactual:    %s", got, want)
			}
			time.Sleep(5 * time.Millisecond)
		}
		ev.Case(true, want.String(), "published")
	})
}

// scrape reads the published LDAP metrics.
func scrape(addr string) (counts, error) {
	var resp *http.Response
	var err error
	for i := 0; i < 500; i++ {
		if resp, err = http.Get("http://" + addr + "/metrics"); err == nil {
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	if err != nil {
		return nil, err
	}
	defer resp.Body.Close()
	if resp.StatusCode != 200 {
		b, _ := io.ReadAll(resp.Body)
		return nil, fmt.Errorf("status %d: %.300s", resp.StatusCode, b)
	}
	got := counts{}
	sc := bufio.NewScanner(resp.Body)
	for sc.Scan() {
		f := strings.Fields(sc.Text())
		if len(f) != 2 || !strings.HasPrefix(f[0], "kidm_ldapserver_") {
			continue
		}
		v, err := strconv.ParseFloat(f[1], 64)
		if err != nil {
			return nil, err
		}
		name := strings.TrimPrefix(f[0], "kidm_ldapserver_")
		if !strings.HasPrefix(name, "connections") {
			name = strings.TrimSuffix(name, "_total")
		}
		got[name] = uint64(v)
	}
	return got, nil
}
