package vh

import (
	"fmt"

	ber "github.com/go-asn1-ber/asn1-ber"
	"pgregory.net/rapid"
)

// node is a BER element that can be damaged before it is written.
type node struct {
	id   byte
	raw  []byte
	kids []*node
	form int // how the length is written
	off  int // added to the length when form is lenWrong
}

const (
	lenShort = iota
	lenLong
	lenIndef
	lenWrong
	lenHuge
)

func toNode(p *ber.Packet) *node {
	n := &node{id: byte(p.ClassType) | byte(p.TagType) | byte(p.Tag)}
	if p.TagType == ber.TypeConstructed {
		for _, c := range p.Children {
			n.kids = append(n.kids, toNode(c))
		}
		return n
	}
	n.raw = append([]byte(nil), p.Data.Bytes()...)
	return n
}

func (n *node) bytes() []byte {
	body := append([]byte(nil), n.raw...)
	for _, k := range n.kids {
		body = append(body, k.bytes()...)
	}
	out := []byte{n.id}
	l := len(body)
	switch n.form {
	case lenIndef:
		return append(append(append(out, 0x80), body...), 0, 0)
	case lenHuge:
		return append(append(out, 0x84, 0x7f, 0xff, 0xff, 0xf0), body...)
	case lenWrong:
		l += n.off
		if l < 0 {
			l = 0
		}
	}
	if l < 128 && n.form != lenLong {
		out = append(out, byte(l))
	} else {
		out = append(out, 0x84, byte(l>>24), byte(l>>16), byte(l>>8), byte(l))
	}
	return append(out, body...)
}

func (n *node) all() []*node {
	out := []*node{n}
	for _, k := range n.kids {
		out = append(out, k.all()...)
	}
	return out
}

func (n *node) clone() *node {
	c := *n
	c.kids = nil
	for _, k := range n.kids {
		c.kids = append(c.kids, k.clone())
	}
	return &c
}

// damage changes one element of the tree and describes the change.
func (n *node) damage(rt *rapid.T) string {
	all := n.all()
	i := rapid.IntRange(0, len(all)-1).Draw(rt, "node")
	x := all[i]
	kind := rapid.SampledFrom([]string{"drop", "drop", "dup", "swap", "retag", "retag", "empty", "empty", "flip", "content", "truncate", "length", "wrap", "insert", "copy"}).Draw(rt, "damage")
	what := fmt.Sprintf("%s element %d", kind, i)
	switch kind {
	case "drop":
		if len(x.kids) > 0 {
			k := rapid.IntRange(0, len(x.kids)-1).Draw(rt, "kid")
			x.kids = append(append([]*node(nil), x.kids[:k]...), x.kids[k+1:]...)
			what += fmt.Sprintf(" child %d", k)
		} else {
			x.raw = nil
		}
	case "dup":
		if len(x.kids) > 0 {
			k := rapid.IntRange(0, len(x.kids)-1).Draw(rt, "kid")
			x.kids = append(x.kids, x.kids[k].clone())
		}
	case "swap":
		if len(x.kids) > 1 {
			x.kids[0], x.kids[len(x.kids)-1] = x.kids[len(x.kids)-1], x.kids[0]
		}
	case "retag":
		x.id = rapid.SampledFrom([]byte{0x01, 0x02, 0x04, 0x05, 0x06, 0x09, 0x0a, 0x0c, 0x0d, 0x13, 0x16, 0x18, 0x1f, 0x30, 0x31, 0x24, 0x40, 0x42, 0x4a, 0x50, 0x60, 0x63, 0x66, 0x68, 0x6c, 0x77, 0x80, 0x81, 0x83, 0x87, 0xa0, 0xa1, 0xa2, 0xa3, 0xa4, 0xa9, 0xff}).Draw(rt, "tag")
		what += fmt.Sprintf(" to %02x", x.id)
	case "empty":
		x.raw, x.kids = nil, nil
	case "flip":
		x.id ^= 0x20
	case "content":
		x.kids = nil
		x.raw = rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(rt, "content")
	case "truncate":
		if len(x.raw) > 0 {
			x.raw = x.raw[:rapid.IntRange(0, len(x.raw)-1).Draw(rt, "keep")]
		} else if len(x.kids) > 0 {
			x.kids = x.kids[:rapid.IntRange(0, len(x.kids)-1).Draw(rt, "keep")]
		}
	case "length":
		x.form = rapid.SampledFrom([]int{lenLong, lenIndef, lenWrong, lenHuge}).Draw(rt, "form")
		x.off = rapid.SampledFrom([]int{-2, -1, 1, 2, 60, 200}).Draw(rt, "off")
		what += fmt.Sprintf(" form %d", x.form)
	case "wrap":
		depth := rapid.IntRange(1, 40).Draw(rt, "depth")
		for d := 0; d < depth; d++ {
			c := *x
			*x = node{id: rapid.SampledFrom([]byte{0x30, 0xa0, 0xa2}).Draw(rt, "wrapper"), kids: []*node{&c}}
		}
	case "insert":
		x.kids = append(x.kids, &node{id: rapid.Byte().Draw(rt, "id"), raw: rapid.SliceOfN(rapid.Byte(), 0, 5).Draw(rt, "raw")})
	case "copy":
		y := all[rapid.IntRange(0, len(all)-1).Draw(rt, "from")].clone()
		*x = *y
	}
	return what
}
