package main

import (
	"fmt"
	"hash/fnv"
	"io"
	"sync"

	"github.com/timtadh/data-structures/heap"
	"github.com/timtadh/data-structures/linked"
	"github.com/timtadh/data-structures/list"
	"github.com/timtadh/data-structures/set"
	"github.com/timtadh/data-structures/tree"
	"github.com/timtadh/data-structures/tree/bptree"
	"github.com/timtadh/data-structures/trie"
	"github.com/timtadh/data-structures/types"
)

// ---- C40: reading

// readable is a collection with a function that makes the reading calls chosen by
// a number and writes down what they give.
const nReadables = 19

type readable struct {
	name string
	read func(w io.Writer, x int64)
	n    int // number of different calls
	// apply makes the i-th of the building operations
	apply func(i int, x Op)
	size  func() int
}

func writeK(w io.Writer, it types.KIterator) {
	for k, next := it(); next != nil; k, next = next() {
		fmt.Fprint(w, k, ",")
	}
}

func writeV(w io.Writer, it types.Iterator) {
	for v, next := it(); next != nil; v, next = next() {
		fmt.Fprint(w, v, ",")
	}
}

func writeKV(w io.Writer, it types.KVIterator) {
	for k, v, next := it(); next != nil; k, v, next = next() {
		fmt.Fprint(w, k, "=", v, ",")
	}
}

func writeN(w io.Writer, it types.TreeNodeIterator) {
	for n, next := it(); next != nil; n, next = next() {
		fmt.Fprint(w, n.Key(), "=", n.Value(), ",")
	}
}

func intMarshal(h types.Hashable) ([]byte, error) {
	x := h.(types.Int)
	return x.MarshalBinary()
}

func intUnmarshal(d []byte) (types.Hashable, error) {
	var x types.Int
	err := x.UnmarshalBinary(d)
	return x, err
}

// newReadable makes a collection and a second one, equal or not, to compare with.
func newReadable(kind int, size, other int64) *readable {
	p := func(w io.Writer, a ...interface{}) { fmt.Fprintln(w, a...) }
	type call = func(w io.Writer, x int64)
	var calls []call
	add := func(f ...call) { calls = append(calls, f...) }
	r := &readable{}
	mapCalls := func(m types.Map) {
		add(func(w io.Writer, x int64) { v, err := m.Get(types.Int(x)); p(w, v, err != nil) },
			func(w io.Writer, x int64) { p(w, m.Has(types.Int(x))) },
			func(w io.Writer, x int64) { p(w, m.Size()) },
			func(w io.Writer, x int64) { writeKV(w, m.Iterate()) },
			func(w io.Writer, x int64) { writeK(w, m.Keys()) },
			func(w io.Writer, x int64) { writeV(w, m.Values()) })
		if i, ok := m.(interface{ Items() types.KIterator }); ok {
			add(func(w io.Writer, x int64) { writeK(w, i.Items()) })
		}
	}
	setCalls := func(s, o types.Set) {
		res := func(w io.Writer, u types.Set, err error) {
			if err != nil {
				p(w, "error")
				return
			}
			p(w, u.Size())
			writeK(w, u.Items())
		}
		add(func(w io.Writer, x int64) { u, err := s.Union(o); res(w, u, err) },
			func(w io.Writer, x int64) { u, err := s.Intersect(o); res(w, u, err) },
			func(w io.Writer, x int64) { u, err := s.Subtract(o); res(w, u, err) },
			func(w io.Writer, x int64) {
				p(w, s.Subset(o), s.Superset(o), s.ProperSubset(o), s.ProperSuperset(o))
			},
			func(w io.Writer, x int64) { u, err := set.Union(o, s); res(w, u, err) },
			func(w io.Writer, x int64) { writeK(w, s.Items()) },
			func(w io.Writer, x int64) { p(w, s.Size()) })
	}
	switch {
	case kind < nMaps:
		var m types.Map
		m, r.name, _ = newMap(kind, size)
		r.apply = func(_ int, o Op) {
			switch o.Op {
			case "put":
				m.Put(types.Int(o.X), o.Y)
			case "rem":
				m.Remove(types.Int(o.X))
			}
		}
		r.size = func() int { return m.Size() }
		mapCalls(m)
		if a, ok := m.(avlMap); ok {
			add(func(w io.Writer, x int64) { writeN(w, tree.TraverseBinaryTreeInOrder(avlRoot(a))) },
				func(w io.Writer, x int64) { writeN(w, tree.TraverseTreePreOrder(avlRoot(a))) },
				func(w io.Writer, x int64) { writeN(w, tree.TraverseTreePostOrder(avlRoot(a))) })
		}
		if s, ok := m.(*set.MapSet); ok {
			add(func(w io.Writer, x int64) { p(w, s.String()) })
		}
	case kind < nMaps+nSets-1:
		var s, o types.Set
		s, r.name, _ = newSet(kind-nMaps, size)
		o, _, _ = newSet(wrapCap(other, nSets-1), size)
		r.apply = func(i int, x Op) {
			switch {
			case x.Op == "put":
				s.Add(types.Int(x.X))
				if i%3 != 0 {
					o.Add(types.Int(x.X))
				}
			case s.Has(types.Int(x.X)):
				s.Delete(types.Int(x.X))
			}
		}
		r.size = s.Size
		setCalls(s, o)
		add(func(w io.Writer, x int64) { p(w, s.Has(types.Int(x))) })
		if q, ok := s.(fmt.Stringer); ok {
			add(func(w io.Writer, x int64) { p(w, q.String()) })
		}
	case kind == 12 || kind == 13: // sorted list and set
		a, b := list.NewSorted(int(size%30), other%2 == 0), list.NewSorted(4, true)
		ss, so := set.NewSortedSet(3), set.NewSortedSet(9)
		r.apply = func(i int, x Op) {
			if x.Op == "put" {
				a.Add(types.Int(x.X))
				ss.Add(types.Int(x.X))
				if i%4 != 0 {
					b.Add(types.Int(x.X))
					so.Add(types.Int(x.X))
				}
			} else if a.Has(types.Int(x.X)) {
				a.Delete(types.Int(x.X))
			}
		}
		r.size = a.Size
		r.name = "sorted list"
		if kind == 13 {
			r.name, r.size = "sorted set extras", ss.Size
			add(func(w io.Writer, x int64) { p(w, ss.Overlap(so), so.Overlap(ss)) },
				func(w io.Writer, x int64) { p(w, ss.Copy().String()) },
				func(w io.Writer, x int64) { writeK(w, set.SortedFromSet(ss).Items()) },
				func(w io.Writer, x int64) { p(w, ss.Equals(so), ss.Less(so), ss.Hash()) },
				func(w io.Writer, x int64) {
					if ss.Size() > 0 {
						i, err := ss.Random() // whatever it is, it is a member
						p(w, err == nil && ss.Has(i))
					}
				},
				func(w io.Writer, x int64) {
					d, err := set.NewMSortedSet(ss, intMarshal, intUnmarshal).MarshalBinary()
					p(w, d, err)
				})
			break
		}
		add(func(w io.Writer, x int64) { i, ok, err := a.Find(types.Int(x)); p(w, i, ok, err != nil) },
			func(w io.Writer, x int64) { i, err := a.Item(types.Int(x)); p(w, i, err != nil) },
			func(w io.Writer, x int64) { p(w, a.Has(types.Int(x))) },
			func(w io.Writer, x int64) { i, err := a.Get(int(x)); p(w, i, err != nil) },
			func(w io.Writer, x int64) { p(w, a.Equals(b), a.Less(b), b.Less(a), a.Hash()) },
			func(w io.Writer, x int64) { p(w, a.Size(), a.Full(), a.Empty()) },
			func(w io.Writer, x int64) { p(w, a.String(), a.Copy().String()) },
			func(w io.Writer, x int64) { writeK(w, a.Items()) },
			func(w io.Writer, x int64) { writeK(w, a.ItemsInReverse()) },
			func(w io.Writer, x int64) {
				d, err := list.NewMSorted(a, intMarshal, intUnmarshal).MarshalBinary()
				p(w, d, err)
			})
	case kind == 14: // list
		a, b := list.New(int(size%30)), list.New(0)
		r.apply = func(i int, x Op) {
			if x.Op == "put" {
				a.Append(types.Int(x.X))
				if i%4 != 0 {
					b.Append(types.Int(x.X))
				}
			} else if a.Size() > 0 {
				a.Remove(wrapCap(x.X, a.Size()))
			}
		}
		r.name, r.size = "list", a.Size
		add(func(w io.Writer, x int64) { p(w, a.Has(types.Int(x))) },
			func(w io.Writer, x int64) { i, err := a.Get(int(x)); p(w, i, err != nil) },
			func(w io.Writer, x int64) { p(w, a.Equals(b), a.Less(b), b.Less(a), a.Hash()) },
			func(w io.Writer, x int64) { p(w, a.Size(), a.Full(), a.Empty()) },
			func(w io.Writer, x int64) { p(w, a.String(), a.Copy().String()) },
			func(w io.Writer, x int64) { writeK(w, a.Items()) },
			func(w io.Writer, x int64) { writeK(w, a.ItemsInReverse()) },
			func(w io.Writer, x int64) {
				if n := a.Size(); n > 0 {
					p(w, list.NewSortable(a).Len(), list.NewSortable(a).Less(wrapCap(x, n), n-1))
				}
			},
			func(w io.Writer, x int64) {
				d, err := list.NewMList(a, intMarshal, intUnmarshal).MarshalBinary()
				p(w, d, err)
			})
	case kind == 15: // linked list and deque
		a, b := linked.New(), linked.NewUniqueDeque()
		r.apply = func(i int, x Op) {
			switch {
			case x.Op != "put":
				a.DequeFront()
				b.DequeBack()
			case i%2 == 0:
				a.EnqueFront(types.Int(x.X))
				b.EnqueBack(types.Int(x.X))
			default:
				a.EnqueBack(types.Int(x.X))
				b.EnqueFront(types.Int(x.X))
			}
		}
		r.name, r.size = "linked list and unique deque", b.Size
		add(func(w io.Writer, x int64) { p(w, a.Has(types.Int(x)), b.Has(types.Int(x))) },
			func(w io.Writer, x int64) {
				if b.Size() > 0 {
					p(w, a.First(), a.Last(), b.First(), b.Last())
				}
			},
			func(w io.Writer, x int64) { p(w, a.Equals(b), b.Equals(a), a.Less(b), b.Less(a), a.Hash(), b.Hash()) },
			func(w io.Writer, x int64) { p(w, a.String(), b.String(), a.Size(), b.Size()) },
			func(w io.Writer, x int64) { writeK(w, a.Items()); writeK(w, b.Items()) },
			func(w io.Writer, x int64) { writeK(w, a.Backwards()); writeK(w, b.Backwards()) })
	case kind == 16: // heap
		h := heap.NewHeap(int(size%30), other%2 == 0)
		u := heap.NewUnique(heap.NewMinHeap(4))
		r.apply = func(_ int, x Op) {
			switch {
			case x.Op == "put":
				h.Push(int(x.X), int(x.Y))
				u.Add(int(x.X), types.Int(x.Y))
			case h.Size() > 0 && u.Size() > 0:
				h.Pop()
				u.Pop()
			}
		}
		r.name, r.size = "heap", h.Size
		add(func(w io.Writer, x int64) { p(w, h.Size(), u.Size(), h.MinHeap(), h.MaxHeap()) },
			func(w io.Writer, x int64) {
				if h.Size() > 0 {
					p(w, h.Peek())
				}
				if u.Size() > 0 {
					p(w, u.Peek())
				}
			},
			func(w io.Writer, x int64) { writeV(w, h.Items()) },
			func(w io.Writer, x int64) { p(w, h.Verify()) })
	case kind == 17: // trie
		m, n := trie.New(), 0
		r.size = func() int { return n }
		key := func(x int64) []byte { return []byte(fmt.Sprintf("%b", x)) }
		r.apply = func(_ int, x Op) {
			if x.Op == "put" {
				m.Put(key(x.X), x.Y)
				n++
			} else {
				m.Remove(key(x.X))
			}
		}
		r.name = "trie"
		add(func(w io.Writer, x int64) { p(w, m.Has(key(x))) },
			func(w io.Writer, x int64) { v, err := m.Get(key(x)); p(w, v, err != nil) },
			func(w io.Writer, x int64) { p(w, m.ValidateKey(key(x))) },
			func(w io.Writer, x int64) { writeKV(w, m.PrefixFind(key(x))) },
			func(w io.Writer, x int64) { writeKV(w, m.Iterate()) },
			func(w io.Writer, x int64) { writeK(w, m.Keys()) },
			func(w io.Writer, x int64) { writeK(w, m.Items()) },
			func(w io.Writer, x int64) { writeV(w, m.Values()) },
			func(w io.Writer, x int64) { p(w, m.String()) },
			func(w io.Writer, x int64) { p(w, len(m.Dotty()) > 0) })
	case kind == 18: // B+ tree
		m := bptree.NewBpTree(nodeSize(size))
		r.apply = func(_ int, x Op) {
			if x.Op == "put" {
				m.Add(types.Int(x.X), x.Y)
			} else {
				m.RemoveWhere(types.Int(x.X), func(v interface{}) bool { return v.(int64)%2 == 0 })
			}
		}
		r.name, r.size = "B+ tree", m.Size
		add(func(w io.Writer, x int64) { p(w, m.Has(types.Int(x)), m.Count(types.Int(x)), m.Size()) },
			func(w io.Writer, x int64) { writeKV(w, m.Find(types.Int(x))) },
			func(w io.Writer, x int64) { writeKV(w, m.Range(types.Int(x), types.Int(x*2))) },
			func(w io.Writer, x int64) { writeKV(w, m.Range(types.Int(x+5), types.Int(x))) },
			func(w io.Writer, x int64) { writeKV(w, m.Iterate()) },
			func(w io.Writer, x int64) { writeKV(w, m.Backward()) },
			func(w io.Writer, x int64) { writeK(w, m.Keys()) },
			func(w io.Writer, x int64) { writeK(w, m.Items()) },
			func(w io.Writer, x int64) { writeV(w, m.Values()) })
	}
	r.n = len(calls)
	r.read = func(w io.Writer, x int64) { calls[wrapCap(x, len(calls))](w, x/int64(len(calls))) }
	return r
}

// runReads makes the reading calls of the case one after another, then all of
// them from several goroutines at once, each in an order of its own, and then
// one after another again. All answers must be the first ones.
func runReads(c *Case, t *T) {
	r := newReadable(wrapCap(c.cfg("coll"), nReadables), c.cfg("size"), c.cfg("other"))
	t.step = -1
	var xs []int64
	for i, o := range c.Ops {
		if o.Op != "read" {
			r.apply(i, o)
		} else {
			xs = append(xs, int64(wrapCap(o.X, 1<<20)))
		}
	}
	answer := func(x int64) uint64 {
		h := fnv.New64a()
		r.read(h, x)
		return h.Sum64()
	}
	want := make([]uint64, len(xs))
	for i, x := range xs {
		want[i] = answer(x)
	}
	for i := len(xs) - 1; i >= 0; i-- {
		t.Check(answer(xs[i]) == want[i], "%s: reading call %d gives another answer the second time", r.name, xs[i]%int64(r.n))
	}
	g := 2 + wrapCap(c.cfg("readers"), 4)
	fails := make(chan string, g)
	var wg sync.WaitGroup
	for k := 0; k < g; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					fails <- fmt.Sprintf("a reading call panics among concurrent readers: %v", p)
				}
			}()
			for i := range xs {
				j := (i*(2*k+1) + k) % len(xs)
				if answer(xs[j]) != want[j] {
					fails <- fmt.Sprintf("reading call %d gives another answer among concurrent readers", xs[j]%int64(r.n))
					return
				}
			}
		}(k)
	}
	wg.Wait()
	select {
	case f := <-fails:
		t.Fail("%s: %s", r.name, f)
	default:
	}
	for i, x := range xs {
		t.Check(answer(x) == want[i], "%s: reading call %d gives another answer after concurrent reading", r.name, x%int64(r.n))
	}
	t.nontriv = r.size() >= 2 && len(xs) >= 3
	t.Label(r.name)
}

func init() {
	register(&Check{
		ID:    "C40",
		Rule:  "Cases build one of nineteen collections by generated operations and then make generated reading calls (lookups, sizes, all iterators, comparisons, hashes, copies, printed forms, encodings, set algebra) twice in sequence, then from 2 to 5 goroutines at once in different orders, then again; every answer must be the first one, and the race detector must report nothing. Non-trivial: at least 2 elements and 3 reading calls.",
		Quick: 40000,
		Sched: true,
		Race:  3000,
		Gen: func(r *R, size int) *Case {
			c := &Case{Cfg: map[string]int64{"coll": int64(r.N(nReadables)), "size": int64(pick(r, 0, 1, 2, 5, 29)), "other": int64(r.N(12)), "readers": int64(r.Pick(4, 2, 1, 1))}}
			n := r.N(2 + size*50/100)
			space := pick(r, 4, 10, 40, 200)
			for i := 0; i < n; i++ {
				o := Op{Op: "put", X: int64(r.N(space)), Y: int64(i)}
				if r.P(20) {
					o.Op = "rem"
				}
				c.Ops = append(c.Ops, o)
			}
			for i := 2 + r.N(8); i > 0; i-- {
				c.Ops = append(c.Ops, Op{Op: "read", X: int64(r.N(12 * space))})
			}
			return c
		},
		Run: runReads,
	})
}
