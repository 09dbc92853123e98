package main

import (
	"bytes"
	"fmt"

	"github.com/timtadh/data-structures/tree/avl"
	"github.com/timtadh/data-structures/tree/bptree"
	"github.com/timtadh/data-structures/trie"
	"github.com/timtadh/data-structures/types"
)

// ---- C43: nodes used directly

// treeNode is what both kinds of AVL node offer; N is the kind.
type treeNode[N any] interface {
	comparable
	types.BinaryTreeNode
	types.MapIterable
	Put(types.Hashable, interface{}) (N, bool)
	Get(types.Hashable) (interface{}, error)
	Has(types.Hashable) bool
	Remove(types.Hashable) (N, interface{}, error)
	Size() int
	Height() int
}

// nodeMap makes a map of a root; the nil root is the empty map.
type nodeMap[N treeNode[N]] struct {
	t    *T
	root N
}

func (m *nodeMap[N]) Size() int                                 { return m.root.Size() }
func (m *nodeMap[N]) Has(k types.Hashable) bool                 { return m.root.Has(k) }
func (m *nodeMap[N]) Get(k types.Hashable) (interface{}, error) { return m.root.Get(k) }
func (m *nodeMap[N]) Iterate() types.KVIterator                 { return m.root.Iterate() }
func (m *nodeMap[N]) Keys() types.KIterator                     { return m.root.Keys() }
func (m *nodeMap[N]) Values() types.Iterator                    { return m.root.Values() }
func (m *nodeMap[N]) Remove(k types.Hashable) (interface{}, error) {
	r, v, err := m.root.Remove(k)
	m.root = r
	return v, err
}

func (m *nodeMap[N]) Put(k types.Hashable, v interface{}) error {
	had := m.root.Has(k)
	r, updated := m.root.Put(k, v)
	m.root = r
	var none N
	m.t.Check(r != none, "Put of %v gives no root", k)
	m.t.Check(updated == had, "Put of %v says updated = %v, the key was there: %v", k, updated, had)
	return nil
}

// subtree follows the bits of path from the root, as far as there are nodes, and
// compares the subtree there with the part of the dictionary between its bounds.
func subtree[N treeNode[N]](t *T, d *dict, root N, path int64) int {
	var none N
	if root == none {
		return 0
	}
	lo, hi := []int64(nil), []int64(nil)
	n, depth := root, 0
	for ; depth < 60; depth++ {
		x, err := d.km.val(n.Key())
		t.Check(err == nil, "key of a node: %v", err)
		var next types.BinaryTreeNode
		var l, h []int64
		if path>>depth&1 == 0 {
			next, l, h = n.Left(), lo, []int64{x}
		} else {
			next, l, h = n.Right(), []int64{x}, hi
		}
		if next == nil {
			break
		}
		kid, ok := next.(N)
		t.Check(ok, "the child of a %T is a %T", n, next)
		if isNil(next) {
			break
		}
		n, lo, hi = kid, l, h
		if path>>depth == 1 {
			depth++
			break
		}
	}
	part := map[int64]interface{}{}
	for k, v := range d.ref {
		if (lo == nil || k > lo[0]) && (hi == nil || k < hi[0]) {
			part[k] = v
		}
	}
	sub := &dict{t: t, name: fmt.Sprintf("subtree of the %s at depth %d", d.name, depth), m: &nodeMap[N]{t, n}, ordered: true, km: d.km, ref: part}
	sub.full()
	for k := range d.ref {
		sub.has(k)
		sub.get(k)
	}
	x, _ := d.km.val(n.Key())
	t.Check(sameVal(n.Value(), d.ref[x]), "the node of key %d has value %v, want %v", x, n.Value(), d.ref[x])
	t.Check(n.Height() >= 1, "a node has height %d", n.Height())
	return depth
}

func runTreeNodes[N treeNode[N]](c *Case, t *T, name string) {
	m := &nodeMap[N]{t: t}
	d := &dict{t: t, name: name, m: m, ordered: true, km: newKeyMaker(c.cfg("kind"), c.cfg("hash")), ref: map[int64]interface{}{}}
	var none N
	empty := func() {
		t.Check(none.Size() == 0 && none.Height() == 0, "a nil %s has size %d and height %d", name, none.Size(), none.Height())
	}
	empty()
	d.full()
	most, deep := 0, 0
	for i, o := range c.Ops {
		t.At(i, o)
		if o.Op == "sub" {
			if k := subtree(t, d, m.root, o.X); k > deep {
				deep = k
			}
		} else {
			d.apply(o)
		}
		t.Check((m.root == none) == (len(d.ref) == 0), "the root is nil: %v, with %d entries", m.root == none, len(d.ref))
		most = max(most, len(d.ref))
	}
	t.At(len(c.Ops), Op{Op: "final comparison"})
	d.full()
	empty()
	t.nontriv = d.over+d.gone > 0 && d.absent > 0 && most >= 3 && deep > 0
	t.Label(name)
	if deep >= 3 {
		t.Label("subtree-depth>=3")
	}
	if len(d.ref) == 0 && most > 0 {
		t.Label("emptied")
	}
}

// panics reports whether f panics.
func panics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return
}

func runBpNode(c *Case, t *T) {
	for i, o := range c.Ops {
		t.At(i, o)
		size := int(o.X)
		leaf := o.Y&1 == 0
		mk := func() *bptree.BpNode {
			if leaf {
				return bptree.NewLeaf(size, o.Y&2 != 0)
			}
			return bptree.NewInternal(size)
		}
		if size < 0 {
			t.Check(panics(func() { mk() }), "a node of size %d is made", size)
			t.Label("negative-size")
			continue
		}
		n := mk()
		t.Check(n.NodeSize() == size, "NodeSize() = %d, want %d", n.NodeSize(), size)
		t.Check(n.Full() == (size == 0), "Full() = %v with no key in a node of size %d", n.Full(), size)
		t.Check(n.Pure(), "an empty node is not pure")
		if leaf {
			t.Check(!n.Internal() && n.Height() == 1, "a new leaf: Internal() = %v, Height() = %d", n.Internal(), n.Height())
		} else if size > 0 {
			t.Check(n.Internal(), "a new internal node of size %d is a leaf", size)
		}
		t.nontriv = true
	}
	t.Label("B+ tree nodes")
}

func runTSTNode(c *Case, t *T) {
	for i, o := range c.Ops {
		t.At(i, o)
		ch := byte(o.X)
		val := mkVal(o.Y)
		key := append([]byte(nil), o.B...)
		n := trie.NewAcceptingTSTNode(ch, key, val)
		var other []byte
		switch wrapCap(o.Z, 6) {
		case 0:
			other = append(other, o.B...)
		case 1:
			other = append(append(other, o.B...), 0)
		case 2:
			if len(o.B) > 0 {
				other = append(other, o.B[:len(o.B)-1]...)
			}
		default:
			other = append(other, o.B...)
			if len(other) > 0 {
				other[wrapCap(o.Z/6, len(other))] ^= 1 << uint(o.X&7)
			}
		}
		for j, x := range []*trie.TSTNode{n, n.Copy(), trie.NewTSTNode(ch), trie.NewTSTNode(ch).Copy()} {
			t.Check(!x.Internal() && x.ChildCount() == 0, "a new node: Internal() = %v, ChildCount() = %d", x.Internal(), x.ChildCount())
			_, next := x.Children()()
			t.Check(next == nil, "a new node has children")
			if j >= 2 {
				continue
			}
			k, ok := x.Key().(types.ByteSlice)
			t.Check(ok && bytes.Equal(k, o.B), "Key() = %v, want %q", x.Key(), string(o.B))
			t.Check(sameVal(x.Value(), val), "Value() = %v, want %v", x.Value(), val)
			want := bytes.Equal(other, o.B)
			t.Check(x.KeyEq(other) == want, "the key %q is equal to %q: %v", string(o.B), string(other), !want)
			if !want && len(other) == len(o.B) {
				t.nontriv = true
			}
		}
	}
	t.Label("trie nodes")
}

func init() {
	register(&Check{
		ID:    "C43",
		Rule:  "Cases drive the exported node types directly: both kinds of AVL node as a dictionary held by its root, starting from the nil node, with comparisons of subtrees reached through the child accessors with the part of the dictionary between their bounds; new B+ tree nodes of any size; new trie nodes with any key, and their copies. Non-trivial: the root overwrites or removes a key, is probed for an absent one, holds at least 3 entries and has a proper subtree compared; or a B+ tree node of valid size; or trie keys that differ only in one byte.",
		Quick: 14000,
		Gen: func(r *R, size int) *Case {
			kinds := anyKind
			c := &Case{Cfg: map[string]int64{"node": int64(r.Pick(10, 10, 1, 1)), "kind": int64(kinds[r.N(len(kinds))]), "hash": int64(r.N(hashModes))}}
			switch c.cfg("node") {
			case 2:
				for i := r.N(6); i >= 0; i-- {
					c.Ops = append(c.Ops, Op{Op: "new", X: int64(pick(r, -1000, -2, -1, 0, 1, 2, 3, 10, 400)), Y: int64(r.N(4))})
				}
			case 3:
				for i := r.N(6); i >= 0; i-- {
					b := make(Bytes, r.N(6))
					for j := range b {
						b[j] = pick(r, byte(0), 1, 'a', 'b', 0x7f, 0x80, 0xff)
					}
					c.Ops = append(c.Ops, Op{Op: "new", X: int64(r.N(256)), Y: int64(r.N(40)), Z: int64(r.N(48)), B: b})
				}
			default:
				for _, o := range genDict(r, size, 160) {
					c.Ops = append(c.Ops, o)
					if r.P(4) {
						c.Ops = append(c.Ops, Op{Op: "sub", X: int64(1<<r.N(6) | r.N(64))})
					}
				}
			}
			return c
		},
		Fixed: func() []*Case {
			var out []*Case
			for i, c := range fixedDict(anyKind, false) {
				c.Cfg["node"] = int64(i % 2)
				c.Ops = append(c.Ops, Op{Op: "sub", X: 2}, Op{Op: "sub", X: 3})
				out = append(out, c)
			}
			return out
		},
		Run: func(c *Case, t *T) {
			switch wrapCap(c.cfg("node"), 4) {
			case 0:
				runTreeNodes[*avl.AvlNode](c, t, "AVL node")
			case 1:
				runTreeNodes[*avl.ImmutableAvlNode](c, t, "immutable AVL node")
			case 2:
				runBpNode(c, t)
			default:
				runTSTNode(c, t)
			}
		},
	})
}
