package main

import (
	"fmt"
	"math"
	"math/bits"
	"reflect"
	"sort"
	"strconv"
	"sync"

	"github.com/timtadh/data-structures/hashtable"
	"github.com/timtadh/data-structures/list"
	"github.com/timtadh/data-structures/set"
	"github.com/timtadh/data-structures/tree"
	"github.com/timtadh/data-structures/tree/avl"
	"github.com/timtadh/data-structures/tree/bptree"
	"github.com/timtadh/data-structures/types"
)

// ---- C05: versions of the immutable tree

// isNil tells whether a node is nil or a nil pointer.
func isNil(n types.TreeNode) bool {
	if n == nil {
		return true
	}
	v := reflect.ValueOf(n)
	return v.Kind() == reflect.Ptr && v.IsNil()
}

type shape struct {
	key    types.Hashable
	value  interface{}
	l, r   *shape
	height int
}

func shapeOf(n types.BinaryTreeNode) *shape {
	if isNil(n) {
		return nil
	}
	return &shape{key: n.Key(), value: n.Value(), l: shapeOf(n.Left()), r: shapeOf(n.Right())}
}

func sameShape(a, b *shape) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a.key == b.key && sameVal(a.value, b.value) && sameShape(a.l, b.l) && sameShape(a.r, b.r)
}

type version struct {
	tree  *avl.ImmutableAvlTree // a copy of the tree value, or nil
	node  *avl.ImmutableAvlNode // a root, when tree is nil
	ref   map[int64]interface{}
	shape *shape
}

func (v *version) root() *avl.ImmutableAvlNode {
	if v.tree != nil {
		n, _ := v.tree.Root().(*avl.ImmutableAvlNode)
		return n
	}
	return v.node
}

func (v *version) size() int {
	if v.tree != nil {
		return v.tree.Size()
	}
	return v.node.Size()
}

func (v *version) iterate() types.KVIterator {
	if v.tree != nil {
		return v.tree.Iterate()
	}
	return v.node.Iterate()
}

// check compares a version with what it held when it was made.
func (v *version) check(t *T, i int) {
	want := sortedKeys(v.ref)
	t.Check(v.size() == len(want), "version %d: size %d, was %d", i, v.size(), len(want))
	t.Check(sameShape(shapeOf(v.root()), v.shape), "the shape of version %d has changed", i)
	k := 0
	for key, val, next := v.iterate()(); next != nil; key, val, next = next() {
		t.Check(k < len(want), "version %d yields more than its %d entries", i, len(want))
		x := int64(key.(types.Int))
		t.Check(x == want[k], "version %d yields key %d at position %d, had %d", i, x, k, want[k])
		t.Check(sameVal(val, v.ref[x]), "version %d yields value %v for key %d, had %v", i, val, x, v.ref[x])
		k++
	}
	t.Check(k == len(want), "version %d yields %d entries, had %d", i, k, len(want))
}

type openIter struct {
	next types.KVIterator
	ver  int
	want []int64
	pos  int
	done bool
}

func runVersions(c *Case, t *T) {
	vs := []*version{{tree: avl.NewImmutableAvlTree(), ref: map[int64]interface{}{}}}
	var its []*openIter
	old := 0
	branch, removed, iterAcross := 0, 0, 0
	step := func(it *openIter) {
		if it.done {
			return
		}
		key, val, next := it.next()
		if next == nil {
			t.Check(it.pos == len(it.want), "an iterator over version %d ends after %d of %d entries", it.ver, it.pos, len(it.want))
			it.done = true
			return
		}
		t.Check(it.pos < len(it.want), "an iterator over version %d yields more than %d entries", it.ver, len(it.want))
		x := int64(key.(types.Int))
		t.Check(x == it.want[it.pos], "an iterator over version %d yields %d at position %d, want %d", it.ver, x, it.pos, it.want[it.pos])
		t.Check(sameVal(val, vs[it.ver].ref[x]), "an iterator over version %d yields value %v for key %d, want %v", it.ver, val, x, vs[it.ver].ref[x])
		it.pos++
		it.next = next
	}
	update := func(src int, o Op, asTree bool) {
		v := vs[src]
		n := &version{ref: map[int64]interface{}{}}
		for k, x := range v.ref {
			n.ref[k] = x
		}
		if src != len(vs)-1 {
			branch++
		}
		var node *avl.ImmutableAvlNode
		var tr *avl.ImmutableAvlTree
		if v.tree != nil {
			cp := *v.tree
			tr = &cp
		} else {
			node = v.node
		}
		_, had := n.ref[o.X]
		switch o.Op {
		case "put":
			val := mkVal(o.Y)
			if tr != nil {
				err := tr.Put(types.Int(o.X), val)
				t.Check(err == nil, "Put gave error %v", err)
			} else {
				var upd bool
				node, upd = node.Put(types.Int(o.X), val)
				t.Check(upd == had, "Put(%d) on a version says updated = %v", o.X, upd)
			}
			n.ref[o.X] = val
		case "rem":
			var got interface{}
			var err error
			if tr != nil {
				got, err = tr.Remove(types.Int(o.X))
			} else {
				node2, g, e := node.Remove(types.Int(o.X))
				got, err = g, e
				if e == nil {
					node = node2
				}
			}
			t.Check((err == nil) == had, "Remove(%d) gave error %v", o.X, err)
			if had {
				t.Check(sameVal(got, n.ref[o.X]), "Remove(%d) = %v, want %v", o.X, got, n.ref[o.X])
				delete(n.ref, o.X)
				removed++
			}
		}
		if tr != nil && !asTree {
			n.node, _ = tr.Root().(*avl.ImmutableAvlNode)
		} else {
			n.tree, n.node = tr, node
		}
		n.shape = shapeOf(n.root())
		vs = append(vs, n)
		n.check(t, len(vs)-1)
		v.check(t, src)
	}
	for i, o := range c.Ops {
		t.At(i, o)
		// Z picks a version counted from the newest
		src := len(vs) - 1 - wrapCap(o.Z, len(vs))
		if o.Z != 0 {
			old++
		}
		switch o.Op {
		case "put", "rem":
			update(src, o, o.Y%3 != 0)
		case "iter":
			its = append(its, &openIter{next: vs[src].iterate(), ver: src, want: sortedKeys(vs[src].ref)})
		case "step":
			if len(its) > 0 {
				it := its[wrapCap(o.X, len(its))]
				if it.ver != len(vs)-1 && it.pos > 0 && !it.done {
					iterAcross++
				}
				for k := 0; k < 1+wrapCap(o.Y, 4); k++ {
					step(it)
				}
			}
		case "all":
			for j, v := range vs {
				v.check(t, j)
			}
		case "inplace":
			// go on updating the newest tree value in place; earlier copies of it
			// must not notice
			v := vs[len(vs)-1]
			if v.tree != nil {
				cp := *v.tree
				keep := &version{tree: &cp, ref: v.ref, shape: v.shape}
				n := &version{tree: v.tree, ref: map[int64]interface{}{}}
				for k, x := range v.ref {
					n.ref[k] = x
				}
				val := mkVal(o.Y)
				err := v.tree.Put(types.Int(o.X), val)
				t.Check(err == nil, "Put gave error %v", err)
				n.ref[o.X] = val
				n.shape = shapeOf(n.root())
				vs[len(vs)-1] = keep
				vs = append(vs, n)
				keep.check(t, len(vs)-2)
			}
		}
	}
	t.At(len(c.Ops), Op{Op: "final comparison"})
	// concurrent readers of all versions while more are derived
	if c.cfg("readers")%2 != 0 && len(vs) > 1 {
		var wg sync.WaitGroup
		fails := make(chan string, 16)
		shared := append([]*version{}, vs...)
		for g := 0; g < 3; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						select {
						case fails <- fmt.Sprint(r):
						default:
						}
					}
				}()
				lt := &T{labels: map[string]int{}}
				for j := range shared {
					shared[(j+g)%len(shared)].check(lt, (j+g)%len(shared))
				}
			}(g)
		}
		for j := range shared {
			n, _ := shared[j].root().Put(types.Int(int64(j)), "x")
			n.Remove(types.Int(int64(j) - 1))
		}
		wg.Wait()
		select {
		case f := <-fails:
			t.Fail("a concurrent reader: %s", f)
		default:
		}
		t.Label("concurrent-readers")
	}
	for j, v := range vs {
		v.check(t, j)
	}
	for _, it := range its {
		for !it.done {
			step(it)
		}
	}
	if iterAcross > 0 {
		t.Label("iterator-across-update")
	}
	t.nontriv = branch > 0 && removed > 0 && len(vs) >= 5
}

// ---- C06: depth

func depthOf(n types.BinaryTreeNode) int {
	// iterative: a degenerate tree may be very deep
	type fr struct {
		n types.BinaryTreeNode
		d int
	}
	if isNil(n) {
		return 0
	}
	st := []fr{{n, 1}}
	most := 0
	for len(st) > 0 {
		f := st[len(st)-1]
		st = st[:len(st)-1]
		if f.d > most {
			most = f.d
		}
		if l := f.n.Left(); l != nil {
			st = append(st, fr{l, f.d + 1})
		}
		if r := f.n.Right(); r != nil {
			st = append(st, fr{r, f.d + 1})
		}
	}
	return most
}

// insertOrder is the i-th of n keys in the given order.
func insertOrder(order int64, n int, seed int64) []int64 {
	ks := make([]int64, n)
	switch wrapCap(order, nOrders) {
	case 0: // ascending
		for i := range ks {
			ks[i] = int64(i)
		}
	case 1: // descending
		for i := range ks {
			ks[i] = int64(n - i)
		}
	case 2: // outside in
		for i := range ks {
			if i%2 == 0 {
				ks[i] = int64(i / 2)
			} else {
				ks[i] = int64(n - i/2)
			}
		}
	case 3: // inside out
		for i := range ks {
			if i%2 == 0 {
				ks[i] = int64(i)
			} else {
				ks[i] = int64(-i)
			}
		}
	case 4: // random
		r := newR(seed, "order", n)
		for i, p := range r.Perm(n) {
			ks[i] = int64(p)
		}
	case 5: // ascending runs
		w := 2 + wrapCap(seed, 40)
		for i := range ks {
			ks[i] = int64((i%w)*n + i/w)
		}
	case 6: // bit reversal
		b := bits.Len(uint(n))
		for i := range ks {
			ks[i] = int64(bits.Reverse64(uint64(i)) >> uint(64-b))
		}
	case 7: // blocks ascending, descending inside a block
		w := 2 + wrapCap(seed, 60)
		for i := range ks {
			ks[i] = int64((i/w)*w*2 + w - i%w)
		}
	case 8: // strided
		for i := range ks {
			ks[i] = int64((i * 7919) % 1000003)
		}
	}
	return ks
}

const nOrders = 9

type avlMap interface {
	types.Map
	Root() types.TreeNode
}

func avlRoot(m avlMap) types.BinaryTreeNode {
	n, _ := m.Root().(types.BinaryTreeNode)
	return n
}

// rootBound is the bound of the property: a constant factor of the square root.
func rootBound(n int) int { return int(3*math.Sqrt(float64(n))) + 10 }

func logBound(n int) int { return int(4*math.Log2(float64(n+2))) + 10 }

func runDepth(c *Case, t *T) {
	imm := c.cfg("imm")%2 != 0
	var m avlMap = avl.NewAvlTree()
	name := "AVL tree"
	if imm {
		m, name = avl.NewImmutableAvlTree(), "immutable AVL tree"
	}
	live := map[int64]bool{}
	most, onlyRandom := 0, true
	removals := 0
	size := func() int {
		if len(live) > most {
			most = len(live)
		}
		return most
	}
	check := func(what string) {
		d := depthOf(avlRoot(m))
		n := size()
		t.Check(d <= rootBound(n), "%s: %s: depth %d with at most %d entries exceeds %d", name, what, d, n, rootBound(n))
		if onlyRandom && removals == 0 && n <= 3000 {
			t.Check(d <= logBound(n), "%s: %s: depth %d after random insertion of %d entries exceeds %d", name, what, d, n, logBound(n))
		}
		// lookups cost at most two comparisons a level
		ks := sortedKeys(live)
		for j := 0; j < len(ks); j += 1 + len(ks)/40 {
			before := cmpCount
			m.Get(&K{V: ks[j]})
			used := cmpCount - before
			t.Check(used <= int64(2*d+4), "%s: %s: a lookup among %d entries at depth %d made %d comparisons", name, what, len(ks), d, used)
		}
	}
	total := 0
	for i, o := range c.Ops {
		t.At(i, o)
		n := wrapCap(o.Y, 20001)
		switch o.Op {
		case "insert":
			order := wrapCap(o.X, nOrders)
			if order != 4 || len(live) > 0 {
				onlyRandom = false
			}
			base := o.Z % 100000
			for _, k := range insertOrder(o.X, n, o.Z) {
				m.Put(&K{V: k + base}, nil)
				live[k+base] = true
			}
			total += n
		case "over": // overwrite what is there
			for j, k := range sortedKeys(live) {
				if j%(1+wrapCap(o.X, 5)) == 0 {
					m.Put(&K{V: k}, j)
				}
			}
		case "miss": // failed removals
			for j := 0; j < n/4; j++ {
				m.Remove(&K{V: int64(1000000 + j)})
				m.Remove(&K{V: -int64(1000000 + j)})
			}
		case "rem":
			if !imm {
				continue // see the known finding on removals from the mutable tree
			}
			ks := sortedKeys(live)
			r := newR(o.Z, "rem", len(ks))
			for j := 0; j < n && len(ks) > 0; j++ {
				k := 0
				switch wrapCap(o.X, 3) {
				case 0:
					k = r.N(len(ks))
				case 1:
					k = len(ks) - 1
				}
				m.Remove(&K{V: ks[k]})
				delete(live, ks[k])
				ks = append(ks[:k], ks[k+1:]...)
				removals++
			}
		case "known-ascending":
			// Known finding: the depth is not logarithmic for ascending insertion.
			h := avl.NewAvlTree()
			g := avl.NewImmutableAvlTree()
			for k := int64(0); k < 10000; k++ {
				h.Put(types.Int(k), nil)
				g.Put(types.Int(k), nil)
			}
			for _, x := range []struct {
				n string
				d int
			}{{"AVL tree", depthOf(avlRoot(h))}, {"immutable AVL tree", depthOf(avlRoot(g))}} {
				t.Check(x.d <= rootBound(10000), "%s: depth %d after ascending insertion of 10000 keys exceeds %d", x.n, x.d, rootBound(10000))
				if x.d > logBound(10000) {
					t.known = append(t.known, fmt.Sprintf("%s: ascending insertion of the keys 0..9999 gives a depth beyond logarithmic (more than %d levels, see known-findings.txt)", x.n, logBound(10000)))
				}
			}
		case "known-churn":
			// Known finding: removing the root key and inserting a new largest key
			// over and over lets the mutable tree grow deep.
			h := avl.NewAvlTree()
			next := int64(0)
			for ; next < 200; next++ {
				h.Put(types.Int(next), nil)
			}
			for j := 0; j < 300; j++ {
				h.Remove(h.Root().Key())
				h.Put(types.Int(next), nil)
				next++
			}
			if d := depthOf(avlRoot(h)); d > rootBound(200) {
				t.known = append(t.known, fmt.Sprintf("AVL tree: 200 ascending insertions and then 300 rounds of removing the root key and inserting a larger key give a depth beyond %d levels (see known-findings.txt)", rootBound(200)))
			}
		}
		if o.Op != "known-churn" && o.Op != "known-ascending" {
			check(o.Op)
		}
	}
	t.nontriv = most >= 100
	if imm {
		t.Label("immutable")
	}
	if onlyRandom && most > 0 {
		t.Label("random-order")
	}
	if removals > 0 {
		t.Label("with-removals")
	}
}

func genDepth(r *R, size int) *Case {
	c := &Case{Cfg: map[string]int64{"imm": int64(r.N(2))}}
	n := 1 + r.N(4)
	for i := 0; i < n; i++ {
		o := Op{Op: pick(r, "insert", "insert", "insert", "over", "miss", "rem"), X: int64(r.N(nOrders)), Z: int64(r.N(100000)), Y: int64(10 + r.N(10+size*12))}
		if i == 0 {
			o.Op = "insert"
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

// ---- C36: lookup cost

// fanout is a node size of at least 4. Smaller nodes split into parts with a
// single child, so that such a tree can be a list.
func fanout(n int64) int { return 4 + wrapCap(n, 60) }

// runSpread counts the hashes of many different values of one type.
func runSpread(c *Case, t *T) {
	r := newR(c.cfg("seed"), "spread", 0)
	n := 50 + wrapCap(c.cfg("n"), 500)
	kind := wrapCap(c.cfg("spread"), len(scalars)+nContainers)
	stem := make([]byte, pick(r, 0, 0, 1, 3, 8, 20, 70))
	for i := range stem {
		stem[i] = byte('a' + r.N(3))
	}
	cut := r.N(len(stem) + 1)
	base, stride := int64(r.N(1000)-500), int64(pick(r, 1, 1, 2, 3, 10, 16, 256, 1000, 4096))
	length := pick(r, 1, 2, 5, 30)
	at := r.N(length)
	name := ""
	values, hashes := map[string]bool{}, map[int]bool{}
	for i := 0; i < n; i++ {
		x := base + int64(i)*stride
		var h types.Hashable
		if kind < len(scalars) {
			b := strconv.AppendInt(append([]byte{}, stem[:cut]...), x, 10)
			st, _ := scalarAt(int64(kind))
			h, name = st.mk(x, append(b, stem[cut:]...)), st.name
			values[fmt.Sprint(h)] = true
		} else {
			items := make([]*K, length)
			for j := range items {
				items[j] = &K{V: base - int64(1+j)}
			}
			items[at] = &K{V: x}
			h, _, name = makeContainer(t, kind-len(scalars), items)
			values[fmt.Sprint(x)] = true
		}
		hashes[h.Hash()] = true
	}
	t.Check(2*len(hashes) >= len(values), "%d different values of %s have only %d different hashes", len(values), name, len(hashes))
	t.nontriv = len(values) >= 100
	t.Label("hashes of " + name)
}

func runCost(c *Case, t *T) {
	if c.cfg("spread") > 0 {
		runSpread(c, t)
		return
	}
	kind := wrapCap(c.cfg("kind"), 5)
	n := 50 + wrapCap(c.cfg("n"), 20000)
	if kind == 2 && n > 3000 {
		n = 50 + n%3000 // insertion into the array is linear
	}
	mk := func(v int64) *K { return &K{V: v, Mode: 0} } // well spread hashes
	keys := insertOrder(c.cfg("order"), n, c.cfg("seed"))
	seen := map[int64]bool{}
	var lookup func(k *K) (bool, bool)
	var remove func(k *K)
	var add func(k *K)
	name := ""
	lg := math.Log2(float64(n) + 2)
	var perLookup, avg float64
	switch kind {
	case 0, 1:
		var m types.Map
		if kind == 0 {
			m, name = hashtable.NewHashTable(1+wrapCap(c.cfg("size"), 32)), "hash table"
			perLookup, avg = 20, 3
		} else {
			m, name = hashtable.NewLinearHash(), "linear hash table"
			perLookup, avg = 60, 20
		}
		add = func(k *K) { m.Put(k, nil) }
		remove = func(k *K) { m.Remove(k) }
		lookup = func(k *K) (bool, bool) { _, err := m.Get(k); return err == nil, m.Has(k) }
	case 2:
		s := list.NewSorted(4, false)
		name = "sorted list"
		perLookup = 3*lg + 10
		add = func(k *K) { s.Add(k) }
		remove = func(k *K) { s.Delete(k) }
		lookup = func(k *K) (bool, bool) { _, h, _ := s.Find(k); return h, s.Has(k) }
	case 3:
		m := bptree.NewBpMap(fanout(c.cfg("size")))
		name = "B+ tree map"
		perLookup = 8*lg + 24
		add = func(k *K) { m.Put(k, nil) }
		remove = func(k *K) { m.Remove(k) }
		lookup = func(k *K) (bool, bool) { _, err := m.Get(k); return err == nil, m.Has(k) }
	case 4:
		m := bptree.NewBpTree(fanout(c.cfg("size")))
		name = "B+ tree"
		perLookup = 8*lg + 24
		add = func(k *K) { m.Add(k, nil) }
		remove = func(k *K) { m.RemoveWhere(k, func(interface{}) bool { return true }) }
		lookup = func(k *K) (bool, bool) {
			_, _, next := m.Find(k)()
			return next != nil, m.Has(k)
		}
	}
	if avg == 0 {
		avg = perLookup
	}
	for _, v := range keys {
		if !seen[v] {
			seen[v] = true
			add(mk(v))
		}
	}
	probe := func(what string) {
		all := sortedKeys(seen)
		worst, sum, cnt := int64(0), int64(0), int64(0)
		for i := 0; i < len(all); i += 1 + len(all)/300 {
			for _, v := range []int64{all[i], all[i] + 2000000} {
				before := cmpCount
				a, b := lookup(mk(v))
				used := (cmpCount - before + 1) / 2 // two lookups
				t.Check(a == seen[v] && b == seen[v], "%s: lookup of %d gave %v, %v", name, v, a, b)
				if used > worst {
					worst = used
				}
				sum += used
				cnt++
			}
		}
		if cnt == 0 {
			return
		}
		t.Check(float64(worst) <= perLookup, "%s %s: a lookup among %d entries made %d comparisons, more than %.0f", name, what, len(all), worst, perLookup)
		t.Check(float64(sum)/float64(cnt) <= avg, "%s %s: lookups among %d entries made %.1f comparisons on average, more than %.0f", name, what, len(all), float64(sum)/float64(cnt), avg)
	}
	probe("after insertion")
	// remove a part, by rule
	if d := wrapCap(c.cfg("drop"), 4); d > 0 {
		for i, v := range sortedKeys(seen) {
			if (d == 1 && i%2 == 0) || (d == 2 && i < n*3/4) || (d == 3 && i > n/4) {
				remove(mk(v))
				delete(seen, v)
			}
		}
		probe("after removals")
		t.Label("removals")
	}
	t.Label(name)
	t.nontriv = n >= 500
}

// ---- C28: traversals

type bnode struct {
	id   int
	l, r *bnode
}

func (n *bnode) Key() types.Hashable { return types.Int(n.id) }
func (n *bnode) Value() interface{}  { return n.id }
func (n *bnode) Left() types.BinaryTreeNode {
	if n == nil || n.l == nil {
		return nil
	}
	return n.l
}
func (n *bnode) Right() types.BinaryTreeNode {
	if n == nil || n.r == nil {
		return nil
	}
	return n.r
}
func (n *bnode) Children() types.TreeNodeIterator { return types.MakeChildrenIterator(n) }
func (n *bnode) GetChild(i int) types.TreeNode    { return types.DoGetChild(n, i) }
func (n *bnode) ChildCount() int                  { return types.DoChildCount(n) }

// vnode is a binary node that is not a pointer.
type vnode struct{ n *bnode }

func (n vnode) Key() types.Hashable { return types.Int(n.n.id) }
func (n vnode) Value() interface{}  { return n.n.id }
func (n vnode) Left() types.BinaryTreeNode {
	if n.n.l == nil {
		return nil
	}
	return vnode{n.n.l}
}
func (n vnode) Right() types.BinaryTreeNode {
	if n.n.r == nil {
		return nil
	}
	return vnode{n.n.r}
}
func (n vnode) Children() types.TreeNodeIterator { return types.MakeChildrenIterator(n) }
func (n vnode) GetChild(i int) types.TreeNode    { return types.DoGetChild(n, i) }
func (n vnode) ChildCount() int                  { return types.DoChildCount(n) }

// mnode is a node with any number of children.
type mnode struct {
	id    int
	kids  []*mnode
	blind bool // does not know how many children it has
}

func (n *mnode) Key() types.Hashable { return types.Int(n.id) }
func (n *mnode) Value() interface{}  { return n.id }
func (n *mnode) Children() types.TreeNodeIterator {
	i := 0
	var it types.TreeNodeIterator
	it = func() (types.TreeNode, types.TreeNodeIterator) {
		if i >= len(n.kids) {
			return nil, nil
		}
		i++
		return n.kids[i-1], it
	}
	return it
}
func (n *mnode) GetChild(i int) types.TreeNode { return n.kids[i] }
func (n *mnode) ChildCount() int {
	if n.blind {
		return -1
	}
	return len(n.kids)
}

func collectN(t *T, what string, it types.TreeNodeIterator, limit int) (ids []types.Hashable, ns []types.TreeNode) {
	t.Check(it != nil, "%s: nil iterator", what)
	for n, next := it(); next != nil; n, next = next() {
		t.Check(!isNil(n), "%s yields a nil node at position %d", what, len(ids))
		ids = append(ids, n.Key())
		ns = append(ns, n)
		t.Check(len(ids) <= limit, "%s yields more than the %d nodes there are", what, limit)
	}
	return
}

func sameOrder(t *T, what string, got, want []types.Hashable) {
	t.Check(len(got) == len(want), "%s visits %d nodes, want %d: %v, want %v", what, len(got), len(want), got, want)
	for i := range got {
		t.Check(got[i].Equals(want[i]), "%s visits %v at position %d, want %v (%v, want %v)", what, got[i], i, want[i], got, want)
	}
}

func binOrders(n types.BinaryTreeNode, in, pre, post *[]types.Hashable) {
	if n == nil {
		return
	}
	*pre = append(*pre, n.Key())
	binOrders(n.Left(), in, pre, post)
	*in = append(*in, n.Key())
	binOrders(n.Right(), in, pre, post)
	*post = append(*post, n.Key())
}

// checkBinary checks all traversals and accessors of a binary tree.
func checkBinary(t *T, what string, root types.BinaryTreeNode) int {
	var in, pre, post []types.Hashable
	if !isNil(root) {
		binOrders(root, &in, &pre, &post)
	}
	n := len(in)
	g, ns := collectN(t, what+" in-order", tree.TraverseBinaryTreeInOrder(root), n)
	sameOrder(t, what+" in-order", g, in)
	g, _ = collectN(t, what+" pre-order", tree.TraverseTreePreOrder(root), n)
	sameOrder(t, what+" pre-order", g, pre)
	g, _ = collectN(t, what+" post-order", tree.TraverseTreePostOrder(root), n)
	sameOrder(t, what+" post-order", g, post)
	for _, x := range ns {
		b := x.(types.BinaryTreeNode)
		var want []types.Hashable
		for _, k := range []types.BinaryTreeNode{b.Left(), b.Right()} {
			if k != nil {
				want = append(want, k.Key())
			}
		}
		t.Check(b.ChildCount() == len(want), "%s: node %v has ChildCount %d, want %d", what, b.Key(), b.ChildCount(), len(want))
		for i := range want {
			t.Check(b.GetChild(i).Key().Equals(want[i]), "%s: node %v has child %d %v, want %v", what, b.Key(), i, b.GetChild(i).Key(), want[i])
		}
		kids, _ := collectN(t, what+" Children", b.Children(), len(want))
		sameOrder(t, what+" Children", kids, want)
	}
	return n
}

func buildBin(o Op, next *int, depth int) *bnode {
	if o.Op == "nil" || depth > 5000 {
		return nil
	}
	*next++
	n := &bnode{id: *next}
	if len(o.Kids) > 0 {
		n.l = buildBin(o.Kids[0], next, depth+1)
	}
	if len(o.Kids) > 1 {
		n.r = buildBin(o.Kids[1], next, depth+1)
	}
	return n
}

func buildMulti(o Op, next *int, blind bool, depth int) *mnode {
	*next++
	n := &mnode{id: *next, blind: blind}
	for _, k := range o.Kids {
		if k.Op != "nil" && depth < 5000 {
			n.kids = append(n.kids, buildMulti(k, next, blind, depth+1))
		}
	}
	return n
}

func multiOrders(n *mnode, pre, post *[]types.Hashable) {
	*pre = append(*pre, n.Key())
	for _, k := range n.kids {
		multiOrders(k, pre, post)
	}
	*post = append(*post, n.Key())
}

func runTraverse(c *Case, t *T) {
	for i, o := range c.Ops {
		t.At(i, o)
		switch o.Op {
		case "empty":
			checkBinary(t, "nil tree", nil)
			checkBinary(t, "typed nil tree", (*bnode)(nil))
			g, _ := collectN(t, "nil tree pre-order", tree.TraverseTreePreOrder((*mnode)(nil)), 0)
			sameOrder(t, "nil tree pre-order", g, nil)
			g, _ = collectN(t, "nil tree post-order", tree.TraverseTreePostOrder((*mnode)(nil)), 0)
			sameOrder(t, "nil tree post-order", g, nil)
			t.Check(types.DoChildCount((*bnode)(nil)) == 0, "a nil node has children")
			for _, n := range []types.TreeNode{nil, (*bnode)(nil), (*mnode)(nil), vnode{}, &bnode{}, &mnode{}, &vnode{}} {
				t.Check(types.IsNil(n) == isNil(n), "IsNil of a %T is %v", n, !isNil(n))
			}
			for _, x := range []interface{}{(map[int]int)(nil), ([]int)(nil), (func())(nil), (chan int)(nil), (*int)(nil)} {
				t.Check(types.IsNil(x), "IsNil of a nil %T is false", x)
			}
			for _, x := range []interface{}{map[int]int{}, []int{}, func() {}, make(chan int), new(int), 0, "", struct{}{}, [1]*int{}} {
				t.Check(!types.IsNil(x), "IsNil of a %T is true", x)
			}
		case "n", "grow":
			if o.Op == "grow" {
				o = growTree(o)
			}
			id := 0
			b := buildBin(o, &id, 0)
			if n := checkBinary(t, "binary tree", b); n >= 3 {
				t.nontriv = true
			}
			checkBinary(t, "binary tree of values", vnode{b})
			id = 0
			m := buildMulti(o, &id, false, 0)
			var pre, post []types.Hashable
			multiOrders(m, &pre, &post)
			g, _ := collectN(t, "multi-way pre-order", tree.TraverseTreePreOrder(m), len(pre))
			sameOrder(t, "multi-way pre-order", g, pre)
			g, _ = collectN(t, "multi-way post-order", tree.TraverseTreePostOrder(m), len(pre))
			sameOrder(t, "multi-way post-order", g, post)
			id = 0
			bl := buildMulti(o, &id, true, 0)
			g, _ = collectN(t, "pre-order without child counts", tree.TraverseTreePreOrder(bl), len(pre))
			sameOrder(t, "pre-order without child counts", g, pre)
		case "avl":
			var m avlMap = avl.NewAvlTree()
			name := "AVL tree"
			if o.X%2 != 0 {
				m, name = avl.NewImmutableAvlTree(), "immutable AVL tree"
			}
			ref := map[int64]bool{}
			for _, k := range o.Kids {
				if k.Op == "rem" {
					m.Remove(types.Int(k.X))
					delete(ref, k.X)
				} else {
					m.Put(types.Int(k.X), nil)
					ref[k.X] = true
				}
			}
			root, _ := m.Root().(types.BinaryTreeNode)
			n := checkBinary(t, name, root)
			t.Check(n == len(ref), "%s with %d entries has %d nodes", name, len(ref), n)
			ks := sortedKeys(ref)
			g, _ := collectN(t, name+" in-order", tree.TraverseBinaryTreeInOrder(root), n)
			for j := range ks {
				t.Check(g[j].Equals(types.Int(ks[j])), "%s: in-order visits %v at position %d, want %d", name, g[j], j, ks[j])
			}
			t.Label(name)
		}
	}
}

func genTree(r *R, budget *int, shape, depth int) Op {
	*budget--
	o := Op{Op: "n"}
	w := 2
	if shape == 1 {
		w = r.N(5)
	}
	for i := 0; i < w; i++ {
		p := 62
		switch shape {
		case 2: // left list
			p = 95 * (1 - i%2)
		case 3:
			p = 95 * (i % 2)
		case 4: // zig-zag
			if (depth+i)%2 == 0 {
				p = 95
			} else {
				p = 5
			}
		case 5, 6: // one long list
			p = 100 * ((shape + i) % 2)
		case 7: // long zig-zag
			p = 100 * ((depth + i) % 2)
		}
		if *budget > 0 && r.P(p) {
			o.Kids = append(o.Kids, genTree(r, budget, shape, depth+1))
		} else {
			o.Kids = append(o.Kids, Op{Op: "nil"})
		}
	}
	return o
}

// growTree makes a large tree: X nodes at most, Y its shape.
func growTree(o Op) Op {
	most := 1 + wrapCap(o.X, 200000)
	best, size := Op{Op: "n"}, 1
	for try := int64(0); try < 30 && size < most/2; try++ {
		left := most
		t := genTree(newR(o.Z+try, "grow", most), &left, wrapCap(o.Y, 8), 0)
		if most-left > size {
			best, size = t, most-left
		}
	}
	return best
}

// ---- C29: iterators

// source is one way to iterate over a collection: it gives the entries as
// comparable strings.
type source struct {
	name string
	open func() func() (interface{}, bool)
	want []interface{}
}

func fromKV(it types.KVIterator, f func(types.Hashable, interface{}) interface{}) func() (interface{}, bool) {
	next := it
	return func() (interface{}, bool) {
		var k types.Hashable
		var v interface{}
		k, v, next = next()
		if next == nil {
			return nil, false
		}
		return f(k, v), true
	}
}

func fromK(it types.KIterator) func() (interface{}, bool) {
	next := it
	return func() (interface{}, bool) {
		var k types.Hashable
		k, next = next()
		if next == nil {
			return nil, false
		}
		if e, ok := k.(*types.MapEntry); ok {
			return pairOf{e.Key, e.Value}, true
		}
		return k, true
	}
}

func fromV(it types.Iterator) func() (interface{}, bool) {
	next := it
	return func() (interface{}, bool) {
		var v interface{}
		v, next = next()
		if next == nil {
			return nil, false
		}
		return v, true
	}
}

func fromN(it types.TreeNodeIterator) func() (interface{}, bool) {
	next := it
	return func() (interface{}, bool) {
		var n types.TreeNode
		n, next = next()
		if next == nil {
			return nil, false
		}
		return pairOf{n.Key(), n.Value()}, true
	}
}

type pairOf struct {
	k types.Hashable
	v interface{}
}

func pair(k types.Hashable, v interface{}) interface{} { return pairOf{k, v} }
func keyOf(k types.Hashable, _ interface{}) interface{} {
	return k
}

// sources builds a collection by the ops and lists its iterators with what each
// must yield. read does some reading on the collection.
func sources(c *Case, t *T) (ss []*source, read func(x int64), size int) {
	kind := wrapCap(c.cfg("coll"), 11)
	var kv []pairOf // expected entries in iteration order
	add := func(name string, open func() func() (interface{}, bool), want func(pairOf) interface{}) {
		s := &source{name: name, open: open}
		for _, p := range kv {
			s.want = append(s.want, want(p))
		}
		ss = append(ss, s)
	}
	wk := func(p pairOf) interface{} { return p.k }
	wv := func(p pairOf) interface{} { return p.v }
	wp := func(p pairOf) interface{} { return p }
	rev := func(s *source) {
		for i, j := 0, len(s.want)-1; i < j; i, j = i+1, j-1 {
			s.want[i], s.want[j] = s.want[j], s.want[i]
		}
	}
	switch {
	case kind < nMaps:
		m, name, ordered := newMap(kind, c.cfg("size"))
		ref := map[types.Hashable]int64{}
		for _, o := range c.Ops {
			switch o.Op {
			case "put":
				m.Put(types.Int(o.X), o.Y)
				ref[types.Int(o.X)] = o.Y
			case "rem":
				m.Remove(types.Int(o.X))
				delete(ref, types.Int(o.X))
			}
		}
		size = len(ref)
		ks, vs := collectKV(t, name+" Iterate", m.Iterate(), size)
		t.Check(len(ks) == size, "%s: Iterate yields %d of %d entries", name, len(ks), size)
		seen := map[types.Hashable]bool{}
		for i := range ks {
			v, ok := ref[ks[i]]
			t.Check(ok && vs[i] == v, "%s: Iterate yields %v: %v, which is not an entry", name, ks[i], vs[i])
			t.Check(!seen[ks[i]], "%s: Iterate yields %v twice", name, ks[i])
			t.Check(!ordered || i == 0 || ks[i-1].Less(ks[i]), "%s: Iterate yields the keys out of order", name)
			seen[ks[i]] = true
			kv = append(kv, pairOf{ks[i], vs[i]})
		}
		add(name+" Iterate", func() func() (interface{}, bool) { return fromKV(m.Iterate(), pair) }, wp)
		add(name+" Keys", func() func() (interface{}, bool) { return fromK(m.Keys()) }, wk)
		add(name+" Values", func() func() (interface{}, bool) { return fromV(m.Values()) }, wv)
		add("MakeKeysIterator of "+name, func() func() (interface{}, bool) { return fromK(types.MakeKeysIterator(m)) }, wk)
		add("MakeValuesIterator of "+name, func() func() (interface{}, bool) { return fromV(types.MakeValuesIterator(m)) }, wv)
		add("MakeItemsIterator of "+name, func() func() (interface{}, bool) { return fromK(types.MakeItemsIterator(m)) }, wp)
		if it, ok := m.(interface{ Items() types.KIterator }); ok {
			add(name+" Items", func() func() (interface{}, bool) { return fromK(it.Items()) }, wp)
		}
		if a, ok := m.(avlMap); ok {
			inorder := func() types.TreeNodeIterator { return tree.TraverseBinaryTreeInOrder(avlRoot(a)) }
			add(name+" in-order", func() func() (interface{}, bool) { return fromN(inorder()) }, wp)
			add("MakeKVIteratorFromTreeNodeIterator of "+name, func() func() (interface{}, bool) {
				return fromKV(types.MakeKVIteratorFromTreeNodeIterator(inorder()), pair)
			}, wp)
			// the tree, nothing, and the tree again
			add("ChainTreeNodeIterators of "+name, func() func() (interface{}, bool) {
				none := func() types.TreeNodeIterator { return tree.TraverseBinaryTreeInOrder((*bnode)(nil)) }
				return fromN(types.ChainTreeNodeIterators(none(), inorder(), none(), none(), inorder(), none()))
			}, wp)
			s := ss[len(ss)-1]
			s.want = append(append([]interface{}{}, s.want...), s.want...)
		}
		read = func(x int64) {
			m.Get(types.Int(x))
			m.Has(types.Int(x))
			m.Size()
		}
	case kind == 6: // B+ tree
		m := bptree.NewBpTree(nodeSize(c.cfg("size")))
		left := map[pairOf]int{}
		for _, o := range c.Ops {
			switch o.Op {
			case "put":
				m.Add(types.Int(o.X), o.Y)
				left[pairOf{types.Int(o.X), o.Y}]++
				size++
			case "rem":
				m.RemoveWhere(types.Int(o.X), func(v interface{}) bool { return true })
				for p, n := range left {
					if p.k == types.Int(o.X) {
						size -= n
						delete(left, p)
					}
				}
			}
		}
		ks, vs := collectKV(t, "B+ tree Iterate", m.Iterate(), size)
		t.Check(len(ks) == size, "B+ tree: Iterate yields %d of %d entries", len(ks), size)
		for i := range ks {
			p := pairOf{ks[i], vs[i]}
			left[p]--
			t.Check(left[p] >= 0, "B+ tree: Iterate yields %v: %v, which is not an entry or one too many", ks[i], vs[i])
			t.Check(i == 0 || !ks[i].Less(ks[i-1]), "B+ tree: Iterate yields the keys out of order")
			kv = append(kv, p)
		}
		add("B+ tree Iterate", func() func() (interface{}, bool) { return fromKV(m.Iterate(), pair) }, wp)
		add("B+ tree Values", func() func() (interface{}, bool) { return fromV(m.Values()) }, wv)
		add("B+ tree Items", func() func() (interface{}, bool) { return fromK(m.Items()) }, wp)
		lo, hi := types.Int(math.MinInt32), types.Int(math.MaxInt32)
		add("B+ tree Range", func() func() (interface{}, bool) { return fromKV(m.Range(lo, hi), pair) }, wp)
		add("B+ tree Backward", func() func() (interface{}, bool) { return fromKV(m.Backward(), keyOf) }, wk)
		rev(ss[len(ss)-1])
		read = func(x int64) {
			m.Has(types.Int(x))
			m.Count(types.Int(x))
			_, _, _ = m.Find(types.Int(x))()
			m.Size()
		}
	default:
		var items func() types.KIterator
		var back func() types.KIterator
		name := ""
		var want []types.Hashable
		switch kind {
		case 7:
			l := list.New(1)
			for _, o := range c.Ops {
				if o.Op == "put" {
					l.Append(types.Int(o.X))
					want = append(want, types.Int(o.X))
				}
			}
			name, items, back = "list", l.Items, l.ItemsInReverse
			read = func(x int64) { l.Get(int(x)); l.Has(types.Int(x)) }
		case 8:
			s := set.NewSortedSet(1)
			for _, o := range c.Ops {
				if o.Op == "put" {
					s.Add(types.Int(o.X))
					i := sort.Search(len(want), func(i int) bool { return want[i].(types.Int) >= types.Int(o.X) })
					if i == len(want) || want[i] != types.Int(o.X) {
						want = append(want[:i:i], append([]types.Hashable{types.Int(o.X)}, want[i:]...)...)
					}
				}
			}
			name, items, back = "sorted set", s.Items, s.ItemsInReverse
			read = func(x int64) { s.Get(int(x)); s.Has(types.Int(x)); s.Random() }
		case 9:
			l := newDeque(false)
			for _, o := range c.Ops {
				if o.Op == "put" {
					l.EnqueFront(types.Int(o.X))
					want = append([]types.Hashable{types.Int(o.X)}, want...)
				}
			}
			name, items, back = "linked list", l.Items, l.Backwards
			read = func(x int64) { l.Has(types.Int(x)); l.First(); l.Last() }
		case 10:
			l := newDeque(true)
			held := map[int64]bool{}
			for _, o := range c.Ops {
				if o.Op == "put" {
					l.EnqueBack(types.Int(o.X))
					if !held[o.X] {
						held[o.X] = true
						want = append(want, types.Int(o.X))
					}
				}
			}
			name, items, back = "unique deque", l.Items, l.Backwards
			read = func(x int64) { l.Has(types.Int(x)); l.First(); l.Last() }
		}
		size = len(want)
		sameOrder(t, name+" Items", collectK(t, name+" Items", items(), size), want)
		for _, k := range want {
			kv = append(kv, pairOf{k, nil})
		}
		add(name+" Items", func() func() (interface{}, bool) { return fromK(items()) }, wk)
		add(name+" Items", func() func() (interface{}, bool) { return fromK(items()) }, wk)
		add(name+" in reverse", func() func() (interface{}, bool) { return fromK(back()) }, wk)
		rev(ss[len(ss)-1])
	}
	return
}

func runIterators(c *Case, t *T) {
	ss, read, size := sources(c, t)
	type open struct {
		s    *source
		next func() (interface{}, bool)
		pos  int
		done bool
	}
	var os []*open
	advance := func(o *open) {
		if o.done {
			return
		}
		x, ok := o.next()
		if !ok {
			t.Check(o.pos == len(o.s.want), "%s ends after %d of %d entries", o.s.name, o.pos, len(o.s.want))
			o.done = true
			return
		}
		t.Check(o.pos < len(o.s.want), "%s yields more than %d entries", o.s.name, len(o.s.want))
		t.Check(x == o.s.want[o.pos], "%s yields %v at position %d, want %v", o.s.name, x, o.pos, o.s.want[o.pos])
		o.pos++
	}
	interleaved := false
	for i, o := range c.Ops {
		t.At(i, o)
		switch o.Op {
		case "open":
			s := ss[wrapCap(o.X, len(ss))]
			os = append(os, &open{s: s, next: s.open()})
		case "step":
			if len(os) > 0 {
				x := os[wrapCap(o.X, len(os))]
				for _, y := range os {
					if y != x && y.pos > 0 && !y.done && !x.done {
						interleaved = true
					}
				}
				for k := 0; k <= wrapCap(o.Y, 3); k++ {
					advance(x)
				}
			}
		case "read":
			read(o.X)
		}
	}
	t.At(len(c.Ops), Op{Op: "finishing all iterators"})
	for _, x := range os {
		for !x.done {
			advance(x)
		}
	}
	// and everything once more on the collection that has only been read
	for _, s := range ss {
		x := &open{s: s, next: s.open()}
		for !x.done {
			advance(x)
		}
	}
	t.nontriv = interleaved && size >= 3
	t.Label(ss[0].name)
}

// nodeSeq is a node iterator over a list of numbers, for concatenation.
func nodeSeq(ids []int) types.TreeNodeIterator {
	i := 0
	var it types.TreeNodeIterator
	it = func() (types.TreeNode, types.TreeNodeIterator) {
		if i >= len(ids) {
			return nil, nil
		}
		i++
		return &bnode{id: ids[i-1]}, it
	}
	return it
}

func init() {
	register(&Check{
		ID:    "C05",
		Rule:  "Cases are generated histories of puts and removals applied to any earlier version of an immutable tree (as root node or as copied tree value), with iterators opened on versions and advanced between updates, and concurrent readers; every version is compared with its contents and shape at creation. Non-trivial: at least 5 versions, an update of a version that is not the newest, and a removal of a present key.",
		Quick: 36000,
		Sched: true,
		Race:  400,
		Gen: func(r *R, size int) *Case {
			c := &Case{Cfg: map[string]int64{"readers": int64(r.Pick(9, 1))}}
			n := 2 + r.N(3+size*70/100)
			space := pick(r, 3, 6, 12, 30, 100)
			next := int64(0)
			pat := r.N(3)
			for i := 0; i < n; i++ {
				o := Op{Op: pick(r, "put", "put", "put", "put", "rem", "rem", "iter", "step", "step", "inplace"), X: int64(r.N(space)), Y: int64(r.N(100))}
				if o.Op == "put" && pat > 0 && r.P(80) {
					next++
					o.X = next
					if pat == 2 {
						o.X = -next
					}
				}
				if r.P(25) {
					o.Z = int64(r.N(8))
				}
				if r.P(4) {
					o.Op = "all"
				}
				c.Ops = append(c.Ops, o)
			}
			return c
		},
		Run: runVersions,
	})
	register(&Check{
		ID:    "C06",
		Rule:  "Cases are sequences of bulk insertions in nine orders (ascending, descending, outside in, inside out, random, runs, bit reversal, blocks, strided) of up to 1200 keys each, overwrites, failed removals and, on the immutable tree, removals; after each phase the depth and the comparisons of lookups are held against the bounds. Non-trivial: the tree held at least 100 entries.",
		Quick: 3000,
		Fixed: func() []*Case {
			out := []*Case{
				{Ops: []Op{{Op: "known-ascending"}}},
				{Ops: []Op{{Op: "known-churn"}}},
			}
			for imm := int64(0); imm < 2; imm++ {
				for o := int64(0); o < nOrders; o++ {
					out = append(out, &Case{Cfg: map[string]int64{"imm": imm}, Ops: []Op{{Op: "insert", X: o, Y: 1500, Z: o + 1}, {Op: "miss", Y: 400}, {Op: "over"}}})
				}
			}
			return out
		},
		Gen: genDepth,
		Run: runDepth,
	})
	register(&Check{
		ID:    "C36",
		Rule:  "Cases build a hash table, linear hash table, sorted list, B+ tree map or B+ tree with 50 to 20000 distinct keys in one of nine insertion orders and count the key comparisons of lookups of present and absent keys, again after removing a part; or they count the different hashes of 50 to 550 different values of one scalar or container type. Non-trivial: at least 500 keys, or 100 values.",
		Quick: 1500,
		Gen: func(r *R, size int) *Case {
			if r.P(48) {
				return &Case{Cfg: map[string]int64{"spread": int64(1 + r.N(100)), "n": int64(r.N(500)), "seed": int64(r.N(100000))}, Ops: []Op{}}
			}
			n := r.N(1 + size*200)
			return &Case{Cfg: map[string]int64{"kind": int64(r.N(5)), "n": int64(n), "order": int64(r.N(nOrders)), "seed": int64(r.N(1000)), "drop": int64(r.N(4)), "size": int64(pick(r, 0, 1, 2, 4, 12, 28, 59))}, Ops: []Op{}}
		},
		Run: runCost,
	})
	register(&Check{
		ID:    "C28",
		Rule:  "Cases are generated trees of up to 80 nodes (bushy, left and right lists, zig-zag, multi-way up to 4 children; pointer and value node types; nodes without child counts) and AVL trees built by generated histories, plus empty trees; all traversals and child accessors are compared with recursive definitions. Non-trivial: a binary tree of at least 3 nodes.",
		Quick: 240000,
		Fixed: func() []*Case {
			return []*Case{{Ops: []Op{{Op: "empty"}}}, {Ops: []Op{{Op: "avl"}, {Op: "avl", X: 1}}}}
		},
		Gen: func(r *R, size int) *Case {
			c := &Case{}
			n := 1 + r.N(1+size*80/100)
			budget := n
			c.Ops = append(c.Ops, genTree(r, &budget, r.N(5), 0))
			if r.P(30) {
				o := Op{Op: "avl", X: int64(r.N(2))}
				for i := 0; i < r.N(n+1); i++ {
					k := Op{Op: "put", X: int64(r.N(30))}
					if r.P(25) {
						k.Op = "rem"
					}
					o.Kids = append(o.Kids, k)
				}
				c.Ops = append(c.Ops, o)
			}
			if r.P(5) {
				c.Ops = append(c.Ops, Op{Op: "empty"})
			}
			return c
		},
		Run: runTraverse,
	})
	register(&Check{
		ID:    "C29",
		Rule:  "Cases build one of eleven collections, open several of its iterators (entries, keys, values, items, reverse, range, tree nodes, chained, adapted) at any time and advance them in a generated interleaving with reads; each must yield exactly the collection's entries in the one order. Chains of node iterators with empty parts are compared with the concatenation. Non-trivial: at least 3 entries and an iterator advanced while another was under way.",
		Quick: 160000,
		Gen: func(r *R, size int) *Case {
			c := &Case{Cfg: map[string]int64{"coll": int64(r.N(11)), "size": int64(pick(r, 0, 1, 2, 3, 5, 9, 30))}}
			n := r.N(2 + size*60/100)
			space := pick(r, 4, 10, 40, 200)
			for i := 0; i < n; i++ {
				o := Op{Op: "put", X: int64(r.N(space)), Y: int64(i)}
				if r.P(15) {
					o.Op = "rem"
				}
				c.Ops = append(c.Ops, o)
			}
			m := 4 + r.N(4+size*40/100)
			for i := 0; i < m; i++ {
				c.Ops = append(c.Ops, Op{Op: pick(r, "open", "step", "step", "step", "step", "read"), X: int64(r.N(20)), Y: int64(r.N(3))})
			}
			if r.P(40) {
				// numbers to cut into parts for a chain
				k := 1 + r.N(6)
				for i := 0; i < k; i++ {
					c.Ops = append(c.Ops, Op{Op: "part", X: int64(r.Pick(4, 3, 2, 1))})
				}
			}
			return c
		},
		Run: func(c *Case, t *T) {
			var parts [][]int
			var its []types.TreeNodeIterator
			var want []types.Hashable
			for _, o := range c.Ops {
				if o.Op == "part" {
					var p []int
					for j := 0; j < wrapCap(o.X, 5); j++ {
						p = append(p, len(want))
						want = append(want, types.Int(len(want)))
					}
					parts = append(parts, p)
					its = append(its, nodeSeq(p))
				}
			}
			if len(its) > 0 {
				g, _ := collectN(t, "ChainTreeNodeIterators", types.ChainTreeNodeIterators(its...), len(want))
				sameOrder(t, fmt.Sprintf("ChainTreeNodeIterators of %v", parts), g, want)
				t.Label("chain")
			}
			runIterators(c, t)
		},
	})
}
