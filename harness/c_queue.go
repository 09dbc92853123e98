package main

import (
	goheap "container/heap"
	"fmt"
	"math"

	"github.com/timtadh/data-structures/heap"
	"github.com/timtadh/data-structures/linked"
	"github.com/timtadh/data-structures/types"
)

type deque interface {
	types.Linked
	Backwards() types.KIterator
}

func newDeque(unique bool) deque {
	if unique {
		return linked.NewUniqueDeque()
	}
	return linked.New()
}

var dequeOps = []string{"enqf", "enqf", "enqb", "enqb", "push", "pop", "deqf", "deqf", "deqb", "deqb", "has", "has", "all"}

func runDeque(c *Case, t *T, d deque, unique bool) {
	km := newKeyMaker(c.cfg("kind"), c.cfg("hash"))
	var ref []types.Hashable
	dup, gone, onEmpty, reenter, most := 0, 0, 0, 0, 0
	removed, held := map[int64]bool{}, map[int64]int{}
	// ref is the tail of room, so that items can be put before it
	room, front := []types.Hashable{}, 0
	quick := func() {
		n := len(ref)
		t.Check(d.Size() == n, "Size() = %d, want %d", d.Size(), n)
		if n == 0 {
			t.Check(d.First() == nil && d.Last() == nil, "First() = %v, Last() = %v of an empty deque", d.First(), d.Last())
		} else {
			t.Check(same(d.First(), ref[0]), "First() = %v, want %v", d.First(), ref[0])
			t.Check(same(d.Last(), ref[n-1]), "Last() = %v, want %v", d.Last(), ref[n-1])
		}
	}
	full := func() {
		n := len(ref)
		quick()
		f := collectK(t, "Items", d.Items(), n)
		b := collectK(t, "Backwards", d.Backwards(), n)
		t.Check(len(f) == n && len(b) == n, "Items yields %d and Backwards %d items, want %d", len(f), len(b), n)
		for i := range ref {
			t.Check(same(f[i], ref[i]), "Items yields %v at position %d, want %v", f[i], i, ref[i])
			t.Check(same(b[n-1-i], ref[i]), "Backwards yields %v for position %d, want %v", b[n-1-i], i, ref[i])
		}
		seen := map[int64]bool{}
		for i, o := range c.Ops {
			if len(c.Ops) > 20000 && i%(len(c.Ops)/50) != 0 {
				continue
			}
			if !seen[o.X] {
				seen[o.X] = true
				got, want := d.Has(km.item(o.X)), held[o.X] > 0
				t.Check(got == want, "Has(%d) = %v, want %v", o.X, got, want)
			}
		}
	}
	for i, o := range c.Ops {
		t.At(i, o)
		n := len(ref)
		switch o.Op {
		case "enqf", "enqb", "push":
			it := km.item(o.X)
			var err error
			switch o.Op {
			case "enqf":
				err = d.EnqueFront(it)
			case "enqb":
				err = d.EnqueBack(it)
			default:
				err = d.Push(it)
			}
			t.Check(err == nil, "gave error %v", err)
			if unique && held[o.X] > 0 {
				dup++
				break
			}
			if removed[o.X] {
				reenter++
			}
			held[o.X]++
			if o.Op != "enqf" {
				room = append(room, it)
			} else {
				if front == 0 {
					front = n + 8
					room = append(make([]types.Hashable, front, 2*front), room...)
				}
				front--
				room[front] = it
			}
			ref = room[front:]
		case "deqf", "deqb", "pop":
			var it types.Hashable
			var err error
			k := n - 1
			switch o.Op {
			case "deqf":
				it, err = d.DequeFront()
				k = 0
			case "deqb":
				it, err = d.DequeBack()
			default:
				it, err = d.Pop()
			}
			if n == 0 {
				onEmpty++
				t.Check(err != nil, "removing from an empty deque gave %v and no error", it)
				break
			}
			gone++
			t.Check(err == nil, "gave error %v", err)
			t.Check(same(it, ref[k]), "gave %v, want %v", it, ref[k])
			v, _ := km.val(ref[k])
			removed[v] = true
			held[v]--
			if o.Op == "deqf" {
				front++
			} else {
				room = room[:len(room)-1]
			}
			ref = room[front:]
		case "has":
			got, want := d.Has(km.item(o.X)), held[o.X] > 0
			t.Check(got == want, "Has(%d) = %v, want %v", o.X, got, want)
		case "all":
			full()
		}
		quick()
		if len(ref) > most {
			most = len(ref)
		}
	}
	t.At(len(c.Ops), Op{Op: "final comparison"})
	full()
	for k := len(ref); k > 0; k-- {
		front := (k % 2) == 0
		var it types.Hashable
		var err error
		if front {
			it, err = d.DequeFront()
			t.Check(err == nil && same(it, ref[0]), "DequeFront() = %v, %v, want %v", it, err, ref[0])
			ref = ref[1:]
		} else {
			it, err = d.DequeBack()
			t.Check(err == nil && same(it, ref[k-1]), "DequeBack() = %v, %v, want %v", it, err, ref[k-1])
			ref = ref[:k-1]
		}
		quick()
	}
	if onEmpty > 0 {
		t.Label("removal-from-empty")
	}
	if reenter > 0 {
		t.Label("reinserted")
	}
	if most > 20 {
		t.Label("held>20")
	}
	t.nontriv = gone > 0 && most >= 3 && (!unique || (dup > 0 && reenter > 0))
}

func genDeque(r *R, size int) *Case {
	return &Case{Cfg: map[string]int64{"kind": int64(itemKinds[r.N(len(itemKinds))]), "hash": int64(r.N(hashModes))},
		Ops: genListOps(r, size, 150, dequeOps, []string{"enqf", "enqb", "enqb", "push", "enqf", "has"}, []string{"deqf", "deqb", "pop"})}
}

type pent struct {
	p    int
	item interface{}
}

// prio maps a number to a priority, including extreme ones.
func prio(x int64) int { return int(x) }

func genPrio(r *R, mode int) int64 {
	switch mode {
	case 0:
		return int64(r.N(4))
	case 1:
		return int64(r.Range(-50, 50))
	case 2:
		return r.Int64()
	}
	return int64(pick(r, math.MinInt64, math.MaxInt64, 0, -1, 1))
}

func genHeap(r *R, size int, adds string) *Case {
	c := &Case{Cfg: map[string]int64{"min": int64(r.N(2)), "ctor": int64(r.N(2)), "cap": int64(r.N(10)), "hash": int64(r.N(hashModes)), "over": int64(r.N(6)), "items": int64(r.N(4))}}
	n := 1 + size*120/100
	if r.P(30) {
		n = 1 + r.N(12)
	}
	mode := r.N(4)
	next := int64(0)
	space := pick(r, 3, 6, 20, 100)
	for len(c.Ops) < n {
		m := 1 + r.N(n/2+2)
		pat, ph := r.N(4), r.Pick(4, 3, 3)
		for i := 0; i < m && len(c.Ops) < n; i++ {
			push := Op{Op: adds, X: genPrio(r, mode), Y: int64(r.N(space))}
			switch pat {
			case 1:
				next++
				push.X = next
			case 2:
				next--
				push.X = next
			}
			rem := Op{Op: pick(r, "pop", "pop", "pop", "peek")}
			switch {
			case ph == 0 && r.P(90), ph == 1 && r.P(50):
				c.Ops = append(c.Ops, push)
			default:
				c.Ops = append(c.Ops, rem)
			}
		}
		if r.P(40) {
			c.Ops = append(c.Ops, Op{Op: "all"})
		}
	}
	return c
}

func newHeap(c *Case) *heap.Heap {
	min := c.cfg("min")%2 != 0
	n := wrapCap(c.cfg("cap"), 20)
	if c.cfg("ctor")%2 != 0 {
		return heap.NewHeap(n, min)
	}
	if min {
		return heap.NewMinHeap(n)
	}
	return heap.NewMaxHeap(n)
}

func init() {
	register(&Check{
		ID:    "C24",
		Rule:  "Cases are generated histories of insertions and removals at both ends, pushes, pops and membership tests on the linked list, compared by item identity with a reference sequence after every operation, drained from both ends at the end. Non-trivial: a removal of an item happened and at least 3 items were held.",
		Quick: 40000, Gen: genDeque,
		Run: func(c *Case, t *T) { runDeque(c, t, linked.New(), false) },
	})
	register(&Check{
		ID:    "C25",
		Rule:  "Cases are generated histories of insertions and removals at both ends, pushes, pops and membership tests on the unique deque over small item spaces and many hash functions, compared by item identity with a reference sequence of unique items. Non-trivial: an item already held was inserted again, a removed item was inserted again, and at least 3 items were held.",
		Quick: 40000, Gen: genDeque,
		Run: func(c *Case, t *T) { runDeque(c, t, linked.NewUniqueDeque(), true) },
	})
	register(&Check{
		ID:    "C26",
		Rule:  "Cases are generated interleavings of pushes, pops and peeks on minimum and maximum heaps with few, many, extreme, ascending and descending priorities, compared with a reference multiset and drained at the end. Non-trivial: at least two different priorities, two items of equal priority, and a pop before the last push.",
		Quick: 250000,
		Gen:   func(r *R, size int) *Case { return genHeap(r, size, "push") },
		Run:   runHeap,
	})
	register(&Check{
		ID:    "C27",
		Rule:  "Cases are generated interleavings of additions, pops and peeks on a unique priority queue (over minimum and maximum heaps, a queue of the caller, and another unique queue) with small item spaces and many hash functions, compared with a reference and drained at the end. Non-trivial: an item already held is added again, a popped item is added again, and at least 3 items were held.",
		Quick: 500000,
		Gen:   func(r *R, size int) *Case { return genHeap(r, size, "add") },
		Run:   runUniquePQ,
	})
}

// best is the extreme priority of the entries.
func best(es []pent, min bool) int {
	b := es[0].p
	for _, e := range es {
		if (min && e.p < b) || (!min && e.p > b) {
			b = e.p
		}
	}
	return b
}

// refPQ is what a priority queue must hold: the priorities of each item, and all
// priorities ordered by the heap of the Go library.
type refPQ struct {
	min bool
	of  map[interface{}][]int
	ps  []int
}

func (q *refPQ) Len() int { return len(q.ps) }
func (q *refPQ) Less(i, j int) bool {
	if q.min {
		return q.ps[i] < q.ps[j]
	}
	return q.ps[i] > q.ps[j]
}
func (q *refPQ) Swap(i, j int)      { q.ps[i], q.ps[j] = q.ps[j], q.ps[i] }
func (q *refPQ) Push(x interface{}) { q.ps = append(q.ps, x.(int)) }
func (q *refPQ) Pop() interface{} {
	p := q.ps[len(q.ps)-1]
	q.ps = q.ps[:len(q.ps)-1]
	return p
}

func (q *refPQ) add(p int, item interface{}) {
	q.of[item] = append(q.of[item], p)
	goheap.Push(q, p)
}

// look checks that an item is one of the best, and take removes it.
func (q *refPQ) look(t *T, call string, item interface{}) int {
	t.Check(len(q.of[item]) > 0, "%s = %v, which is not in the queue", call, item)
	for i, p := range q.of[item] {
		if p == q.ps[0] {
			return i
		}
	}
	t.Fail("%s gave an item of priority %d, the extreme is %d", call, q.of[item], q.ps[0])
	return -1
}

func (q *refPQ) take(t *T, call string, item interface{}) {
	i, ps := q.look(t, call, item), q.of[item]
	ps[i] = ps[len(ps)-1]
	if q.of[item] = ps[:len(ps)-1]; len(ps) == 1 {
		delete(q.of, item)
	}
	goheap.Pop(q)
}

func runHeap(c *Case, t *T) {
	min := c.cfg("min")%2 != 0
	h := newHeap(c)
	ref := &refPQ{min: min, of: map[interface{}][]int{}}
	t.Check(h.MinHeap() == min && h.MaxHeap() == !min, "MinHeap() = %v, MaxHeap() = %v, want %v, %v", h.MinHeap(), h.MaxHeap(), min, !min)
	prios, equal, popped, pushAfter := map[int]bool{}, false, false, false
	shared := map[int64]*boxed{}
	check := func() {
		t.Check(h.Size() == ref.Len(), "Size() = %d, want %d", h.Size(), ref.Len())
		top := h.Peek()
		if ref.Len() == 0 {
			t.Check(top == nil, "Peek() of an empty heap = %v", top)
			return
		}
		ref.look(t, "Peek()", top)
	}
	full := func() {
		check()
		err := h.Verify()
		t.Check(err == nil, "Verify() = %v", err)
		items := collectV(t, "Items", h.Items(), ref.Len())
		seen := map[interface{}]int{}
		for _, it := range items {
			seen[it]++
			t.Check(seen[it] <= len(ref.of[it]), "Items yields %v, which is not in the heap, or too often", it)
		}
		t.Check(len(items) == ref.Len(), "Items does not yield %d of the items", ref.Len()-len(items))
	}
	pop := func() {
		before := h.Peek()
		got := h.Pop()
		if ref.Len() == 0 {
			t.Check(got == nil, "Pop() of an empty heap = %v", got)
			t.Label("pop-empty")
			return
		}
		popped = true
		t.Check(got == before, "Pop() = %v, Peek() showed %v", got, before)
		ref.take(t, "Pop()", got)
	}
	for i, o := range c.Ops {
		t.At(i, o)
		switch o.Op {
		case "push":
			var item interface{}
			switch v := int64(wrapCap(o.Y, 1<<20)); c.cfg("items") {
			case 1: // the same items again and again
				if shared[v] == nil {
					shared[v] = &boxed{v}
				}
				item = shared[v]
			case 2: // plain values, nil among them
				if v > 0 {
					item = v
				}
			default: // every pushed item is distinguishable
				item = &boxed{int64(i)}
			}
			if len(ref.of[item]) > 0 {
				t.Label("same-item-twice")
			}
			h.Push(prio(o.X), item)
			equal = equal || prios[prio(o.X)]
			prios[prio(o.X)] = true
			pushAfter = pushAfter || popped
			ref.add(prio(o.X), item)
		case "pop":
			pop()
		case "all":
			full()
		}
		check()
	}
	t.At(len(c.Ops), Op{Op: "draining"})
	full()
	for ref.Len() > 0 {
		pop()
		check()
	}
	err := h.Verify()
	t.Check(err == nil, "Verify() of an empty heap = %v", err)
	t.nontriv = len(prios) > 1 && equal && pushAfter
}

// ownPQ is a priority queue that is not from the library.
type ownPQ struct {
	min bool
	es  []pent
}

func (q *ownPQ) Size() int { return len(q.es) }
func (q *ownPQ) Push(p int, item interface{}) {
	q.es = append(q.es, pent{p, item})
}
func (q *ownPQ) top() int {
	for i, e := range q.es {
		if e.p == best(q.es, q.min) {
			return i
		}
	}
	return -1
}
func (q *ownPQ) Peek() interface{} {
	if len(q.es) == 0 {
		return nil
	}
	return q.es[q.top()].item
}
func (q *ownPQ) Pop() interface{} {
	if len(q.es) == 0 {
		return nil
	}
	i := q.top()
	item := q.es[i].item
	q.es = append(q.es[:i], q.es[i+1:]...)
	return item
}

func runUniquePQ(c *Case, t *T) {
	min := c.cfg("min")%2 != 0
	var u *heap.UniquePQ
	switch wrapCap(c.cfg("over"), 4) {
	case 1:
		u = heap.NewUnique(&ownPQ{min: min})
		t.Label("over a queue of the caller")
	case 2:
		u = heap.NewUnique(heap.NewUnique(newHeap(c)))
		t.Label("over a unique queue")
	default:
		u = heap.NewUnique(newHeap(c))
	}
	ref, held := &refPQ{min: min, of: map[interface{}][]int{}}, map[int64]bool{}
	var _ heap.PriorityQueue = u
	dup, again, most := 0, 0, 0
	poppedV, shared := map[int64]bool{}, map[int64]*K{}
	check := func() {
		t.Check(u.Size() == ref.Len(), "Size() = %d, want %d", u.Size(), ref.Len())
		top := u.Peek()
		if ref.Len() == 0 {
			t.Check(top == nil, "Peek() of an empty queue = %v", top)
			return
		}
		ref.look(t, "Peek()", top)
	}
	pop := func() {
		before := u.Peek()
		got := u.Pop()
		if ref.Len() == 0 {
			t.Check(got == nil, "Pop() of an empty queue = %v", got)
			t.Label("pop-empty")
			return
		}
		t.Check(got == before, "Pop() = %v, Peek() showed %v", got, before)
		ref.take(t, "Pop()", got)
		poppedV[got.(*K).V] = true
		held[got.(*K).V] = false
	}
	for i, o := range c.Ops {
		t.At(i, o)
		switch o.Op {
		case "add":
			k := shared[o.Y]
			if k == nil || c.cfg("items")%2 == 0 {
				k = &K{V: o.Y, Mode: c.cfg("hash"), Tag: int64(i)}
				shared[o.Y] = k
			}
			if i%2 == 0 {
				u.Add(prio(o.X), k)
			} else {
				u.Push(prio(o.X), k)
			}
			if held[o.Y] {
				dup++
			} else {
				if poppedV[o.Y] {
					again++
				}
				held[o.Y] = true
				ref.add(prio(o.X), k)
			}
		case "pop":
			pop()
		}
		check()
		if ref.Len() > most {
			most = ref.Len()
		}
	}
	t.At(len(c.Ops), Op{Op: "draining"})
	for ref.Len() > 0 {
		pop()
		check()
	}
	pop()
	// everything can be added again
	for v := range poppedV {
		u.Add(1, &K{V: v, Mode: c.cfg("hash")})
	}
	t.Check(u.Size() == len(poppedV), "after draining, %d items were added again but Size() = %d", len(poppedV), u.Size())
	t.nontriv = dup > 0 && again > 0 && most >= 3
	t.Label(fmt.Sprint("min=", min))
}
