package vh

import (
	"context"
	"errors"
	"net"
	"strconv"
	"sync"
	"syscall"
	"time"

	"github.com/go-ldap/ldap/v3"
	"github.com/libregraph/idm/pkg/ldbbolt"
	"github.com/libregraph/idm/server"
	"github.com/libregraph/idm/server/handler"
	"pgregory.net/rapid"
)

// memListener hands out in-memory connections with a chosen peer address.
type memListener struct {
	ch   chan net.Conn
	done chan struct{}
	once sync.Once
}

func newMemListener() *memListener {
	return &memListener{ch: make(chan net.Conn), done: make(chan struct{})}
}

var errListenerClosed = errors.New("accept mem: use of closed network connection")

func (l *memListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.done:
		return nil, errListenerClosed
	}
}
func (l *memListener) Close() error   { l.once.Do(func() { close(l.done) }); return nil }
func (l *memListener) Addr() net.Addr { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 389} }

type textAddr string

func (a textAddr) Network() string { return "tcp" }
func (a textAddr) String() string  { return string(a) }

type addrConn struct {
	net.Conn
	remote     net.Addr
	closeFails bool
	hurry      int
}

// SetReadDeadline lets time pass hurry times as fast as it does.
func (c *addrConn) SetReadDeadline(t time.Time) error {
	if c.hurry > 1 && !t.IsZero() {
		t = time.Now().Add(time.Until(t) / time.Duration(c.hurry))
	}
	return c.Conn.SetReadDeadline(t)
}

func (c *addrConn) SetDeadline(t time.Time) error {
	if c.hurry > 1 {
		c.SetReadDeadline(t)
		return c.Conn.SetWriteDeadline(t)
	}
	return c.Conn.SetDeadline(t)
}

// Close closes the connection and may still report an error, as closing a
// connection reset by the peer does.
func (c *addrConn) Close() error {
	err := c.Conn.Close()
	if c.closeFails {
		return syscall.ECONNRESET
	}
	return err
}

func (c *addrConn) RemoteAddr() net.Addr { return c.remote }
func (c *addrConn) LocalAddr() net.Addr  { return textAddr("127.0.0.1:389") }

// Srv is a server run in this process.
type Srv struct {
	S       *server.Server
	H       handler.Handler
	ln      *memListener
	netLn   net.Listener
	cancel  context.CancelFunc
	clients []*Client
	mu      sync.Mutex
	port    int
	served  chan struct{}

	// closeFails makes closing further connections return an error.
	closeFails bool
	// hurry makes waiting for requests of further connections appear longer.
	hurry int
}

func startServer(cfg *server.Config) (*Srv, error) {
	return startServerOn(cfg, func(l *memListener) net.Listener { return l })
}

func startServerOn(cfg *server.Config, listen func(*memListener) net.Listener) (*Srv, error) {
	if cfg.Logger == nil {
		cfg.Logger = quietLogger()
	}
	s, err := server.NewServer(cfg)
	if err != nil {
		return nil, err
	}
	ctx, cancel := context.WithCancel(context.Background())
	h := s.LDAPHandler.WithContext(ctx)
	s.LDAPServer.AddFunc("", h)
	s.LDAPServer.BindFunc("", h)
	s.LDAPServer.DeleteFunc("", h)
	s.LDAPServer.ModifyFunc("", h)
	s.LDAPServer.ModifyDNFunc("", h)
	s.LDAPServer.PasswordExOpFunc("", h)
	s.LDAPServer.SearchFunc("", h)
	s.LDAPServer.CloseFunc("", h)
	srv := &Srv{S: s, H: h, ln: newMemListener(), cancel: cancel, port: 40000, served: make(chan struct{})}
	srv.netLn = listen(srv.ln)
	go func() {
		s.LDAPServer.Serve(srv.netLn)
		close(srv.served)
	}()
	return srv, nil
}

// Dial opens a connection that appears to come from host.
func (s *Srv) Dial(host string) *Client {
	s.mu.Lock()
	s.port++
	addr := net.JoinHostPort(host, strconv.Itoa(s.port))
	s.mu.Unlock()
	a, b := net.Pipe()
	select {
	case s.ln.ch <- &addrConn{Conn: b, remote: textAddr(addr), closeFails: s.closeFails, hurry: s.hurry}:
	case <-time.After(replyTimeout()):
		hung.Store(true)
		panic("the server does not accept a connection")
	}
	return s.adopt(a)
}

func (s *Srv) adopt(a net.Conn) *Client {
	cl := newClient(a)
	s.mu.Lock()
	s.clients = append(s.clients, cl)
	s.mu.Unlock()
	return cl
}

// tryDial is Dial for servers that may not accept.
func (s *Srv) tryDial(host string, d time.Duration) (*Client, bool) {
	a, b := net.Pipe()
	select {
	case s.ln.ch <- &addrConn{Conn: b, remote: textAddr(net.JoinHostPort(host, "40000"))}:
		return s.adopt(a), true
	case <-time.After(d):
		return nil, false
	}
}

func (s *Srv) Stop() {
	s.mu.Lock()
	cs := s.clients
	s.clients = nil
	s.mu.Unlock()
	for _, c := range cs {
		c.Close()
	}
	for _, c := range cs {
		c.waitClosed(replyTimeout())
	}
	close(s.S.LDAPServer.Quit)
	<-s.served
	s.cancel()
}

// ---- bolt store helpers ------------------------------------------------------

func ldapEntry(dn string, attrs []Attr) *ldap.Entry {
	e := &ldap.Entry{DN: dn}
	for _, a := range attrs {
		e.Attributes = append(e.Attributes, ldap.NewEntryAttribute(a.N, append([]string(nil), a.V...)))
	}
	return e
}

func fromLdapEntry(e *ldap.Entry) Entry {
	r := Entry{DN: e.DN}
	for _, a := range e.Attributes {
		r.Attrs = append(r.Attrs, Attr{a.Name, append([]string(nil), a.Values...)})
	}
	return r
}

// seedBolt writes initial entries into a new database file.
func seedBolt(rt *rapid.T, file, base string, entries []Entry) {
	b := openBolt(file, base)
	defer b.Close()
	for _, e := range entries {
		if err := b.EntryPut(ldapEntry(e.DN, e.Attrs)); err != nil {
			rt.Fatalf("the entry %s can not be stored in a new database: %v", e.DN, err)
		}
	}
}

func openBolt(file, base string) *ldbbolt.LdbBolt {
	b := &ldbbolt.LdbBolt{}
	must(b.Configure(quietLogger(), base, file, nil))
	must(b.Initialize())
	return b
}

// dumpBolt reads the whole tree of a database file.
func dumpBolt(b *ldbbolt.LdbBolt, base string) ([]Entry, error) {
	es, err := b.Search(base, ldap.ScopeWholeSubtree)
	var out []Entry
	for _, e := range es {
		out = append(out, fromLdapEntry(e))
	}
	return out, err
}
