package vh

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	ber "github.com/go-asn1-ber/asn1-ber"
)

// LDAP application tags.
const (
	tagBindReq, tagBindResp         = 0, 1
	tagUnbind                       = 2
	tagSearchReq, tagEntry, tagDone = 3, 4, 5
	tagModReq, tagModResp           = 6, 7
	tagAddReq, tagAddResp           = 8, 9
	tagDelReq, tagDelResp           = 10, 11
	tagModDNReq, tagModDNResp       = 12, 13
	tagCmpReq, tagCmpResp           = 14, 15
	tagAbandon                      = 16
	tagExtReq, tagExtResp           = 23, 24
	tagReference                    = 19
)

var respTag = map[int]int{tagBindReq: tagBindResp, tagSearchReq: tagDone, tagModReq: tagModResp, tagAddReq: tagAddResp,
	tagDelReq: tagDelResp, tagModDNReq: tagModDNResp, tagCmpReq: tagCmpResp, tagExtReq: tagExtResp}

const pwModOID = "1.3.6.1.4.1.4203.1.11.1"
const pagingOID = "1.2.840.113556.1.4.319"

// replyTimeout bounds how long a reply may take before the server is called
// hung. It is far above anything a loaded machine needs for one request. Once
// a hang was seen the verdict stands, and shrinking goes on with a short bound.
func replyTimeout() time.Duration {
	if hung.Load() {
		return 3 * time.Second
	}
	return 60 * time.Second
}

var hung atomic.Bool

var (
	errClosed = errors.New("connection closed by server")
	errHang   = errors.New("no reply from server within the time bound")
)

// ---- packet building --------------------------------------------------------

func pSeq() *ber.Packet {
	return ber.Encode(ber.ClassUniversal, ber.TypeConstructed, ber.TagSequence, nil, "")
}
func pSet() *ber.Packet {
	return ber.Encode(ber.ClassUniversal, ber.TypeConstructed, ber.TagSet, nil, "")
}
func pApp(tag int) *ber.Packet {
	return ber.Encode(ber.ClassApplication, ber.TypeConstructed, ber.Tag(tag), nil, "")
}
func pStr(s string) *ber.Packet {
	return ber.NewString(ber.ClassUniversal, ber.TypePrimitive, ber.TagOctetString, s, "")
}
func pInt(n int64) *ber.Packet {
	return ber.NewInteger(ber.ClassUniversal, ber.TypePrimitive, ber.TagInteger, n, "")
}
func pEnum(n int64) *ber.Packet {
	return ber.NewInteger(ber.ClassUniversal, ber.TypePrimitive, ber.TagEnumerated, n, "")
}
func pBool(b bool) *ber.Packet {
	return ber.NewBoolean(ber.ClassUniversal, ber.TypePrimitive, ber.TagBoolean, b, "")
}
func pCtx(tag int, s string) *ber.Packet {
	return ber.NewString(ber.ClassContext, ber.TypePrimitive, ber.Tag(tag), s, "")
}

func envelope(id int64, op *ber.Packet, controls ...*ber.Packet) *ber.Packet {
	p := pSeq()
	p.AppendChild(pInt(id))
	p.AppendChild(op)
	if len(controls) > 0 {
		c := ber.Encode(ber.ClassContext, ber.TypeConstructed, 0, nil, "")
		for _, x := range controls {
			c.AppendChild(x)
		}
		p.AppendChild(c)
	}
	return p
}

func opBind(dn, pw string) *ber.Packet { return opBindV(3, dn, pw) }

func opBindV(version int64, dn, pw string) *ber.Packet {
	p := pApp(tagBindReq)
	p.AppendChild(pInt(version))
	p.AppendChild(pStr(dn))
	p.AppendChild(pCtx(0, pw))
	return p
}

func opSASL(dn, mech string) *ber.Packet {
	p := pApp(tagBindReq)
	p.AppendChild(pInt(3))
	p.AppendChild(pStr(dn))
	a := ber.Encode(ber.ClassContext, ber.TypeConstructed, 3, nil, "")
	a.AppendChild(pStr(mech))
	p.AppendChild(a)
	return p
}

func opUnbind() *ber.Packet {
	return ber.Encode(ber.ClassApplication, ber.TypePrimitive, tagUnbind, nil, "")
}

func opAbandon(id int64) *ber.Packet {
	return ber.NewInteger(ber.ClassApplication, ber.TypePrimitive, tagAbandon, id, "")
}

type Attr struct {
	N string
	V []string
}

func attrPacket(a Attr) *ber.Packet {
	p := pSeq()
	p.AppendChild(pStr(a.N))
	s := pSet()
	for _, v := range a.V {
		s.AppendChild(pStr(v))
	}
	p.AppendChild(s)
	return p
}

func opAdd(dn string, attrs []Attr) *ber.Packet {
	p := pApp(tagAddReq)
	p.AppendChild(pStr(dn))
	l := pSeq()
	for _, a := range attrs {
		l.AppendChild(attrPacket(a))
	}
	p.AppendChild(l)
	return p
}

func opDel(dn string) *ber.Packet {
	return ber.NewString(ber.ClassApplication, ber.TypePrimitive, tagDelReq, dn, "")
}

const (
	modAdd, modDelete, modReplace = 0, 1, 2
)

type Change struct {
	Op int
	A  Attr
}

func (c Change) String() string {
	return fmt.Sprintf("%s %s %q", []string{"add", "delete", "replace"}[c.Op], c.A.N, c.A.V)
}

func opModify(dn string, ch []Change) *ber.Packet {
	p := pApp(tagModReq)
	p.AppendChild(pStr(dn))
	l := pSeq()
	for _, c := range ch {
		s := pSeq()
		s.AppendChild(pEnum(int64(c.Op)))
		s.AppendChild(attrPacket(c.A))
		l.AppendChild(s)
	}
	p.AppendChild(l)
	return p
}

func opModDN(dn, newRDN string, del bool) *ber.Packet {
	p := pApp(tagModDNReq)
	p.AppendChild(pStr(dn))
	p.AppendChild(pStr(newRDN))
	p.AppendChild(pBool(del))
	return p
}

func opCompare(dn, attr, val string) *ber.Packet {
	p := pApp(tagCmpReq)
	p.AppendChild(pStr(dn))
	a := pSeq()
	a.AppendChild(pStr(attr))
	a.AppendChild(pStr(val))
	p.AppendChild(a)
	return p
}

type SearchReq struct {
	Base      string
	Scope     int
	Size      int64
	Filter    *ber.Packet
	Attrs     []string
	TypesOnly bool
}

func opSearch(r SearchReq) *ber.Packet {
	p := pApp(tagSearchReq)
	p.AppendChild(pStr(r.Base))
	p.AppendChild(pEnum(int64(r.Scope)))
	p.AppendChild(pEnum(0))
	p.AppendChild(pInt(r.Size))
	p.AppendChild(pInt(0))
	p.AppendChild(pBool(r.TypesOnly))
	f := r.Filter
	if f == nil {
		f = pCtx(7, "objectClass")
	}
	p.AppendChild(f)
	l := pSeq()
	for _, a := range r.Attrs {
		l.AppendChild(pStr(a))
	}
	p.AppendChild(l)
	return p
}

// opExt builds an extended request; body nil means no requestValue.
func opExt(oid string, body *string) *ber.Packet {
	p := pApp(tagExtReq)
	p.AppendChild(pCtx(0, oid))
	if body != nil {
		p.AppendChild(pCtx(1, *body))
	}
	return p
}

// pwModBody encodes the RFC 3062 request value. nil fields are left out.
func pwModBody(id, oldPw, newPw *string) string {
	s := pSeq()
	for i, v := range []*string{id, oldPw, newPw} {
		if v != nil {
			s.AppendChild(pCtx(i, *v))
		}
	}
	return string(s.Bytes())
}

func opPwMod(id, oldPw, newPw *string) *ber.Packet {
	b := pwModBody(id, oldPw, newPw)
	return opExt(pwModOID, &b)
}

func pagingControl(size int64, cookie []byte, critical bool) *ber.Packet {
	c := pSeq()
	c.AppendChild(pStr(pagingOID))
	if critical {
		c.AppendChild(pBool(true))
	}
	v := pSeq()
	v.AppendChild(pInt(size))
	v.AppendChild(pStr(string(cookie)))
	c.AppendChild(pStr(string(v.Bytes())))
	return c
}

// ---- results ---------------------------------------------------------------

type Entry struct {
	DN    string
	Attrs []Attr
}

// byName merges attributes case-insensitively into sorted value lists.
func (e Entry) byName() map[string][]string {
	m := map[string][]string{}
	for _, a := range e.Attrs {
		m[fold(a.N)] = append(m[fold(a.N)], a.V...)
	}
	for k := range m {
		sort.Strings(m[k])
	}
	return m
}

func (e Entry) get(name string) []string { return e.byName()[fold(name)] }

type Msg struct {
	ID       int64
	Tag      int
	Class    ber.Class
	Code     int64
	Diag     string
	Ent      *Entry
	ExtName  string
	ExtValue string
	Cookie   []byte
	HasPage  bool
	Raw      *ber.Packet
}

// decodeMsg strictly decodes a server message; an error means the server sent
// something that is not a well-formed LDAP response.
func decodeMsg(p *ber.Packet) (*Msg, error) {
	m := &Msg{Raw: p, Code: -1}
	if p.ClassType != ber.ClassUniversal || p.Tag != ber.TagSequence || len(p.Children) < 2 {
		return nil, fmt.Errorf("bad LDAPMessage envelope")
	}
	id, ok := p.Children[0].Value.(int64)
	if !ok {
		return nil, fmt.Errorf("bad message id")
	}
	m.ID = id
	op := p.Children[1]
	m.Tag, m.Class = int(op.Tag), op.ClassType
	if op.ClassType != ber.ClassApplication {
		return nil, fmt.Errorf("protocolOp is not of class APPLICATION")
	}
	if m.Tag == tagEntry {
		if len(op.Children) != 2 {
			return nil, fmt.Errorf("bad search entry")
		}
		e := &Entry{}
		if e.DN, ok = op.Children[0].Value.(string); !ok {
			return nil, fmt.Errorf("bad entry DN")
		}
		for _, a := range op.Children[1].Children {
			if len(a.Children) != 2 {
				return nil, fmt.Errorf("bad attribute")
			}
			at := Attr{}
			if at.N, ok = a.Children[0].Value.(string); !ok {
				return nil, fmt.Errorf("bad attribute name")
			}
			for _, v := range a.Children[1].Children {
				s, ok := v.Value.(string)
				if !ok {
					return nil, fmt.Errorf("bad attribute value")
				}
				at.V = append(at.V, s)
			}
			e.Attrs = append(e.Attrs, at)
		}
		m.Ent = e
		return m, nil
	}
	if len(op.Children) < 3 {
		return nil, fmt.Errorf("bad LDAPResult")
	}
	if m.Code, ok = op.Children[0].Value.(int64); !ok || op.Children[0].Tag != ber.TagEnumerated {
		return nil, fmt.Errorf("bad result code")
	}
	m.Diag, _ = op.Children[2].Value.(string)
	for _, c := range op.Children[3:] {
		if c.ClassType == ber.ClassContext && c.Tag == 10 {
			m.ExtName = c.Data.String()
		}
		if c.ClassType == ber.ClassContext && c.Tag == 11 {
			m.ExtValue = c.Data.String()
			if m.ExtValue == "" && len(c.Children) > 0 {
				m.ExtValue = string(c.Children[0].Bytes())
			}
		}
	}
	if len(p.Children) > 2 {
		for _, c := range p.Children[2].Children {
			if len(c.Children) >= 2 && c.Children[0].Value == pagingOID {
				last := c.Children[len(c.Children)-1]
				in := last
				if len(last.Children) == 0 {
					in = ber.DecodePacket([]byte(last.Data.Bytes()))
				} else {
					in = last.Children[0]
				}
				if in == nil || len(in.Children) != 2 {
					return nil, fmt.Errorf("bad paging control in response")
				}
				m.HasPage = true
				m.Cookie = in.Children[1].Data.Bytes()
			}
		}
	}
	return m, nil
}

type Res struct {
	Code     int64
	Diag     string
	Entries  []Entry
	Cookie   []byte
	HasPage  bool
	ExtName  string
	ExtValue string
	Final    *Msg
}

// ---- client ------------------------------------------------------------------

type Client struct {
	c    net.Conn
	mu   sync.Mutex
	cond *sync.Cond
	q    []*Msg
	err  error // set once reading ended
	id   int64
}

func newClient(c net.Conn) *Client {
	cl := &Client{c: c}
	cl.cond = sync.NewCond(&cl.mu)
	go cl.readLoop()
	return cl
}

func (cl *Client) readLoop() {
	for {
		p, err := ber.ReadPacket(cl.c)
		var m *Msg
		if err == nil {
			m, err = decodeMsg(p)
			if err != nil {
				err = fmt.Errorf("malformed response: %w", err)
			}
		} else if err == io.EOF || err == io.ErrUnexpectedEOF || errors.Is(err, io.ErrClosedPipe) || errors.Is(err, net.ErrClosed) || strings.Contains(err.Error(), "reset by peer") {
			err = errClosed
		}
		cl.mu.Lock()
		if err != nil {
			cl.err = err
			cl.cond.Broadcast()
			cl.mu.Unlock()
			return
		}
		cl.q = append(cl.q, m)
		cl.cond.Broadcast()
		cl.mu.Unlock()
	}
}

// next returns the next message of any kind.
func (cl *Client) next(d time.Duration) (*Msg, error) {
	timer := time.AfterFunc(d, func() { cl.mu.Lock(); cl.cond.Broadcast(); cl.mu.Unlock() })
	defer timer.Stop()
	end := time.Now().Add(d)
	cl.mu.Lock()
	defer cl.mu.Unlock()
	for len(cl.q) == 0 {
		if cl.err != nil {
			return nil, cl.err
		}
		if !time.Now().Before(end) {
			hung.Store(true)
			return nil, errHang
		}
		cl.cond.Wait()
	}
	m := cl.q[0]
	cl.q = cl.q[1:]
	return m, nil
}

// waitClosed waits until the server ended the connection.
func (cl *Client) waitClosed(d time.Duration) bool {
	timer := time.AfterFunc(d, func() { cl.mu.Lock(); cl.cond.Broadcast(); cl.mu.Unlock() })
	defer timer.Stop()
	end := time.Now().Add(d)
	cl.mu.Lock()
	defer cl.mu.Unlock()
	for cl.err == nil {
		if !time.Now().Before(end) {
			return false
		}
		cl.cond.Wait()
	}
	return true
}

func (cl *Client) sendRaw(b []byte) error {
	cl.c.SetWriteDeadline(time.Now().Add(replyTimeout()))
	_, err := cl.c.Write(b)
	return err
}

func (cl *Client) Close() { cl.c.Close() }

// Do sends one request and collects everything up to its final response. Any
// reply that does not belong to this request is an error.
func (cl *Client) Do(op *ber.Packet, controls ...*ber.Packet) (*Res, error) {
	cl.id++
	return cl.DoID(cl.id, op, controls...)
}

func (cl *Client) DoID(id int64, op *ber.Packet, controls ...*ber.Packet) (*Res, error) {
	want, ok := respTag[int(op.Tag)]
	if !ok {
		infra("no response tag for %d", op.Tag)
	}
	if err := cl.sendRaw(envelope(id, op, controls...).Bytes()); err != nil {
		// The server went away: report what it said before, if anything.
		if m, e := cl.next(time.Second); e == nil && m != nil {
			return nil, fmt.Errorf("unexpected message %d/%d before request", m.ID, m.Tag)
		}
		return nil, errClosed
	}
	r := &Res{}
	for {
		m, err := cl.next(replyTimeout())
		if err != nil {
			return nil, err
		}
		if m.ID != id {
			return nil, fmt.Errorf("response carries message id %d, request was %d", m.ID, id)
		}
		if m.Tag == tagEntry && int(op.Tag) == tagSearchReq {
			r.Entries = append(r.Entries, *m.Ent)
			continue
		}
		if m.Tag != want {
			return nil, fmt.Errorf("response type %d to request type %d (expected %d)", m.Tag, op.Tag, want)
		}
		r.Code, r.Diag, r.Cookie, r.HasPage = m.Code, m.Diag, m.Cookie, m.HasPage
		r.ExtName, r.ExtValue, r.Final = m.ExtName, m.ExtValue, m
		return r, nil
	}
}

// genPassword extracts the generated password from an RFC 3062 response value.
func genPassword(r *Res) (string, bool) {
	if r.ExtValue == "" {
		return "", false
	}
	p, err := ber.ReadPacket(bytes.NewReader([]byte(r.ExtValue)))
	if err != nil || len(p.Children) != 1 || p.Children[0].ClassType != ber.ClassContext || p.Children[0].Tag != 0 {
		return "", false
	}
	return p.Children[0].Data.String(), true
}
