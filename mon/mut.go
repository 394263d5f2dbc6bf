package main

import (
	"mon/ref"
)

// A node of a DER tree. OCTET and BIT STRINGs that hold DER are opened too.
type node struct {
	tag  byte
	pre  []byte // the unused-bits octet of an opened BIT STRING
	prim []byte
	kids []*node
	open bool
	lenF func(n int) []byte // overrides the length octets
	over bool               // with: the whole element is replaced by as
	as   []byte
}

func parseNodes(b []byte, depth int) ([]*node, bool) {
	var out []*node
	for len(b) > 0 {
		tag, content, rest, ok := ref.ReadTLV(b)
		if !ok {
			return nil, false
		}
		n := &node{tag: tag, prim: content}
		if depth < 30 {
			switch {
			case tag&0x20 != 0:
				if k, ok := parseNodes(content, depth+1); ok {
					n.kids, n.open = k, true
				}
			case tag == 4 && len(content) > 1:
				if k, ok := parseNodes(content, depth+1); ok && plausible(k) {
					n.kids, n.open = k, true
				}
			case tag == 3 && len(content) > 2 && content[0] == 0:
				if k, ok := parseNodes(content[1:], depth+1); ok && plausible(k) {
					n.kids, n.open, n.pre = k, true, content[:1]
				}
			}
		}
		out = append(out, n)
		b = rest
	}
	return out, true
}

func plausible(k []*node) bool { return len(k) == 1 && (k[0].tag == 0x30 || k[0].tag == 0x31) }

func (n *node) bytes() []byte {
	if n.over {
		return n.as
	}
	c := n.prim
	if n.open {
		c = clone(n.pre)
		for _, k := range n.kids {
			c = append(c, k.bytes()...)
		}
	}
	if n.lenF != nil {
		return cat([]byte{n.tag}, n.lenF(len(c)), c)
	}
	return ref.TLV(n.tag, c)
}

func nodesBytes(ns []*node) []byte {
	var out []byte
	for _, n := range ns {
		out = append(out, n.bytes()...)
	}
	return out
}

func (n *node) clone() *node {
	m := *n
	m.prim = clone(n.prim)
	m.kids = nil
	for _, k := range n.kids {
		m.kids = append(m.kids, k.clone())
	}
	return &m
}

// slot is a place in a list of nodes.
type slot struct {
	list *[]*node
	i    int
}

func allSlots(list *[]*node, out []slot) []slot {
	for i := range *list {
		out = append(out, slot{list, i})
		n := (*list)[i]
		if n.open {
			out = allSlots(&n.kids, out)
		}
	}
	return out
}

// mutTree applies one structural mutation and names it.
func mutTree(r *Rng, ns *[]*node, donor []byte) string {
	sl := allSlots(ns, nil)
	if len(sl) == 0 {
		return "none"
	}
	s := sl[r.IntN(len(sl))]
	n := (*s.list)[s.i]
	switch op := r.IntN(14); op {
	case 0:
		*s.list = append(append([]*node{}, (*s.list)[:s.i]...), (*s.list)[s.i+1:]...)
		return "delete"
	case 1:
		l := append([]*node{}, (*s.list)[:s.i]...)
		l = append(l, n, n.clone())
		*s.list = append(l, (*s.list)[s.i+1:]...)
		return "duplicate"
	case 2:
		j := r.IntN(len(*s.list))
		(*s.list)[s.i], (*s.list)[j] = (*s.list)[j], (*s.list)[s.i]
		return "swap"
	case 3:
		o := sl[r.IntN(len(sl))]
		(*s.list)[s.i] = (*o.list)[o.i].clone()
		return "copy other"
	case 4:
		n.tag ^= 1 << r.IntN(8)
		return "tag bit"
	case 5:
		n.tag = pick(r, byte(1), 2, 3, 4, 5, 6, 10, 12, 19, 22, 23, 24, 30, 0x30, 0x31, 0x80, 0x81, 0x82, 0xa0, 0xa1, 0xa2, 0xa3)
		return "tag"
	case 6, 7:
		n.open = false
		switch r.IntN(9) {
		case 0:
			n.prim = nil
		case 1:
			n.prim = []byte{0}
		case 2:
			n.prim = []byte{0xff}
		case 3:
			n.prim = []byte{0x80}
		case 4:
			n.prim = cat([]byte{0x7f}, r.Bytes(r.IntN(9)))
		case 5:
			n.prim = cat([]byte{0}, n.prim)
		case 6:
			n.prim = fill(r, r.IntN(40))
		case 7:
			n.prim = cat(n.prim, []byte{byte(r.IntN(256))})
		case 8:
			if len(n.prim) > 0 {
				n.prim = n.prim[:len(n.prim)-1]
			}
		}
		return "content"
	case 8, 9:
		// one bit of a primitive
		for tries := 0; (n.open || len(n.prim) == 0) && tries < 50; tries++ {
			s = sl[r.IntN(len(sl))]
			n = (*s.list)[s.i]
		}
		if !n.open && len(n.prim) > 0 {
			n.prim = clone(n.prim)
			n.prim[r.IntN(len(n.prim))] ^= 1 << r.IntN(8)
		}
		return "content bit"
	case 10:
		extra := pick(r, []byte{5, 0}, []byte{2, 1, 0}, []byte{0x30, 0}, []byte{4, 0}, []byte{3, 1, 0}, []byte{1, 1, 0xff}, []byte{0, 0}, r.Bytes(3))
		l := append([]*node{}, (*s.list)[:s.i]...)
		l = append(l, &node{tag: extra[0], prim: extra[min(2, len(extra)):]})
		*s.list = append(l, (*s.list)[s.i:]...)
		return "insert"
	case 11:
		k := r.IntN(8)
		n.lenF = func(c int) []byte {
			switch k {
			case 0:
				return []byte{0x80}
			case 1:
				return []byte{0x81, byte(c)}
			case 2:
				return []byte{0x82, byte(c >> 8), byte(c)}
			case 3:
				return []byte{0x84, 0xff, 0xff, 0xff, 0xff}
			case 4:
				return []byte{0x84, 0x7f, 0xff, 0xff, 0xff}
			case 5:
				return []byte{byte(c+1) & 0x7f}
			case 6:
				return []byte{byte(c-1) & 0x7f}
			}
			return []byte{0x88, 0, 0, 0, 0, 0, 0, 0, byte(c)}
		}
		return "length"
	case 12:
		if dn, ok := parseNodes(donor, 0); ok && len(dn) > 0 {
			ds := allSlots(&dn, nil)
			o := ds[r.IntN(len(ds))]
			(*s.list)[s.i] = (*o.list)[o.i].clone()
		}
		return "donor"
	default:
		(*s.list)[s.i] = &node{tag: pick(r, byte(0x30), 0x31, 0xa0, 4), kids: []*node{n}, open: true}
		return "wrap"
	}
}

// mutate changes der; donor is another message to take parts from.
func mutate(r *Rng, der, donor []byte) ([]byte, string) {
	if r.Chance(1, 3) {
		return mutBytes(r, der, donor)
	}
	ns, ok := parseNodes(der, 0)
	if !ok {
		return mutBytes(r, der, donor)
	}
	what := mutTree(r, &ns, donor)
	for r.Chance(1, 4) {
		what += "," + mutTree(r, &ns, donor)
	}
	return nodesBytes(ns), what
}

func mutBytes(r *Rng, b, donor []byte) ([]byte, string) {
	out := clone(b)
	if len(out) == 0 {
		return r.Bytes(r.IntN(20)), "random"
	}
	switch r.IntN(8) {
	case 0:
		return out[:r.IntN(len(out))], "truncate"
	case 1:
		return append(out, fill(r, 1+r.IntN(8))...), "extend"
	case 2:
		i := r.IntN(len(out))
		return append(out[:i:i], out[min(len(out), i+1+r.IntN(4)):]...), "cut"
	case 3:
		if len(donor) > 0 {
			i, j := r.IntN(len(out)), r.IntN(len(donor))
			n := min(1+r.IntN(60), len(out)-i, len(donor)-j)
			copy(out[i:], donor[j:j+n])
		}
		return out, "splice"
	case 4:
		for n := 1 + r.IntN(8); n > 0; n-- {
			out[r.IntN(len(out))] = byte(r.IntN(256))
		}
		return out, "bytes"
	default:
		out[r.IntN(len(out))] ^= 1 << r.IntN(8)
		return out, "bit"
	}
}

// oddText is content for strings and names whose grammar the parsers read.
var oddText = []string{"", "a", ".", "..", "*", "*.", "@", "a@", "@a", "a@b@c", "-", ":", "/", "//", "///", "\\", "\"", "\"\"", "\"\\", "\"\\\"@a", "\"a\\\"@x", "\"a\\", "a\\", "a\\@x", "[", "]", "[::1]", "[::1", "http:", "http://", "http:///", "http://[", "http://[]", "http://[::1]:", "http://a:b:c", "http://%zz", "http://:80", "a:b", "%", "%0", "x..y", ".x", "x.", "..x", "\x00", "\x00\x00", "\xff", "\xff\xfe", "\xd8\x00", "\xdc\x00\xd8\x00", " ", "\t", "0", "000", "Z", "000000000000Z", "999999999999Z", "20240101000000Z", "240101000000+0000", "//[", "?", "#", "://", "a://", "<", "(", "(a", "a)b@c", "1.2.3.4", "1.2.3.4/", "\"@\\", "\"@", "\"\\", "\"@\"", "\"@\"@", "\"\\@", "a@[", "a@[1.2.3.4]", ".@.", "a.@b", ".a@b", "a..b@c", "\x7f", "xn--", "xn--a.b"}

// randomText is a short text of characters with a meaning in names.
func randomText(r *Rng) string {
	const set = "\"\"\\\\@@..::/[]%*-() a1\x00\x7f\x80\xff?#"
	b := make([]byte, r.IntN(9))
	for i := range b {
		b[i] = set[r.IntN(len(set))]
	}
	return string(b)
}

// elementOps are the single-element mutations of the systematic sweep: from the tag and content to a replacement.
var elementOps = func() (ops []func(tag byte, c []byte) []byte) {
	add := func(f func(tag byte, c []byte) []byte) { ops = append(ops, f) }
	add(func(tag byte, c []byte) []byte { return nil })
	for _, v := range [][]byte{{}, {0}, {0xff}, {0x80}, {0, 0}, {0xff, 0xff, 0xff, 0xff, 0xff}, {0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0x80, 0, 0, 0, 0, 0, 0, 0}, {1, 0, 0, 0, 0, 0, 0, 0, 0}, {7, 0x80}, {8, 0}, {5, 0}, {0x30, 0}, {4, 0}} {
		add(func(tag byte, c []byte) []byte { return ref.TLV(tag, v) })
	}
	add(func(tag byte, c []byte) []byte { return ref.TLV(tag, c[:max(0, len(c)-1)]) })
	add(func(tag byte, c []byte) []byte { return ref.TLV(tag, c[min(1, len(c)):]) })
	add(func(tag byte, c []byte) []byte { return ref.TLV(tag, c, []byte{0}) })
	add(func(tag byte, c []byte) []byte { return ref.TLV(tag, []byte{0}, c) })
	add(func(tag byte, c []byte) []byte { return ref.TLV(tag, make([]byte, len(c))) })
	add(func(tag byte, c []byte) []byte { return ref.TLV(tag, c, c) })
	add(func(tag byte, c []byte) []byte { return cat(ref.TLV(tag, c), ref.TLV(tag, c)) })
	add(func(tag byte, c []byte) []byte { return ref.TLV(0x30, ref.TLV(tag, c)) })
	add(func(tag byte, c []byte) []byte {
		f := clone(c)
		for i := range f {
			f[i] = 0xff
		}
		return ref.TLV(tag, f)
	})
	for _, v := range []byte{1, 2, 3, 4, 5, 6, 12, 19, 22, 23, 24, 30, 0x30, 0x31, 0x80, 0x81, 0xa0, 0xa1} {
		add(func(tag byte, c []byte) []byte { return ref.TLV(v, c) })
	}
	return
}()

// sweepElement is mutation k of an element.
func sweepElement(k int, tag byte, c []byte) []byte {
	if k < len(elementOps) {
		return elementOps[k](tag, c)
	}
	return ref.TLV(tag, []byte(oddText[k-len(elementOps)]))
}

// sweepOps is the number of mutations the sweep has for an element.
func (n *node) sweepOps() int {
	if n.tag&0x20 == 0 && (n.tag >= 12 || n.tag == 4) {
		return len(elementOps) + len(oddText)
	}
	return len(elementOps)
}

// content is the element's content octets.
func (n *node) content() []byte {
	if !n.open {
		return n.prim
	}
	return cat(n.pre, nodesBytes(n.kids))
}
