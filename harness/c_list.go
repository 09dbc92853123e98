package main

import (
	"sort"

	"github.com/timtadh/data-structures/list"
	"github.com/timtadh/data-structures/types"
)

// item makes a list item; every call makes a new object.
func (m *keyMaker) item(v int64) types.Hashable { return m.mk(v) }

// same tells whether two items are the same stored item.
func same(a, b types.Hashable) bool {
	if x, ok := a.(types.ByteSlice); ok {
		y, ok := b.(types.ByteSlice)
		return ok && string(x) == string(y)
	}
	return a == b
}

// kiter iterates over a slice.
func kiter(items []types.Hashable) (it types.KIterator) {
	i := 0
	it = func() (types.Hashable, types.KIterator) {
		if i >= len(items) {
			return nil, nil
		}
		i++
		return items[i-1], it
	}
	return it
}

type listLike interface {
	Size() int
	Empty() bool
	Full() bool
	Get(i int) (types.Hashable, error)
	Items() types.KIterator
	ItemsInReverse() types.KIterator
	Has(types.Hashable) bool
}

// sameSeq compares everything readable of a list with the reference.
func sameSeq(t *T, name string, l listLike, ref []types.Hashable) {
	n := len(ref)
	t.Check(l.Size() == n, "%s: Size() = %d, want %d", name, l.Size(), n)
	t.Check(l.Empty() == (n == 0), "%s: Empty() = %v with %d items", name, l.Empty(), n)
	it := collectK(t, name+" Items", l.Items(), n)
	t.Check(len(it) == n, "%s: Items yields %d items, want %d", name, len(it), n)
	rev := collectK(t, name+" ItemsInReverse", l.ItemsInReverse(), n)
	t.Check(len(rev) == n, "%s: ItemsInReverse yields %d items, want %d", name, len(rev), n)
	for i := range ref {
		t.Check(same(it[i], ref[i]), "%s: Items yields %v at position %d, want %v", name, it[i], i, ref[i])
		t.Check(same(rev[n-1-i], ref[i]), "%s: ItemsInReverse yields %v for position %d, want %v", name, rev[n-1-i], i, ref[i])
		g, err := l.Get(i)
		t.Check(err == nil && same(g, ref[i]), "%s: Get(%d) = %v, %v, want %v", name, i, g, err, ref[i])
	}
	for _, i := range []int{-1, n, n + 1} {
		g, err := l.Get(i)
		t.Check(err != nil, "%s: Get(%d) of a list of %d items = %v and no error", name, i, n, g)
	}
}

type lst struct {
	l     *list.List
	ref   []types.Hashable
	fixed bool
	cap   int
}

func has(km *keyMaker, ref []types.Hashable, v int64) bool {
	for _, x := range ref {
		if w, err := km.val(x); err == nil && w == v {
			return true
		}
	}
	return false
}

// index maps a number to an index that is mostly valid for n items.
func index(x int64, n int) int {
	span := int64(n + 4)
	return int(((x%span)+span)%span) - 2
}

func genListOps(r *R, size, maxOps int, names []string, grow, shrink []string) []Op {
	n := 1 + size*maxOps/100
	if r.P(35) {
		n = 1 + r.N(14)
	}
	space := pick(r, 2, 3, 6, 20, 200)
	var ops []Op
	mk := func(name string) Op {
		o := Op{Op: name, X: int64(r.N(space)), Y: int64(r.N(1000))}
		if r.P(20) {
			o.Z = int64(r.N(3))
		}
		if name == "extend" || name == "slice" {
			o.Kids = make([]Op, r.N(8))
			if r.P(5) {
				o.Kids = make([]Op, r.N(150))
			}
			for i := range o.Kids {
				o.Kids[i] = Op{Op: "i", X: int64(r.N(space))}
			}
		}
		return o
	}
	for len(ops) < n {
		m := 1 + r.N(n/2+2)
		switch r.Pick(3, 3, 3) {
		case 0:
			for i := 0; i < m && len(ops) < n; i++ {
				ops = append(ops, mk(grow[r.N(len(grow))]))
			}
		case 1:
			for i := 0; i < m && len(ops) < n; i++ {
				ops = append(ops, mk(shrink[r.N(len(shrink))]))
			}
		default:
			for i := 0; i < m && len(ops) < n; i++ {
				ops = append(ops, mk(names[r.N(len(names))]))
			}
		}
		if r.P(30) {
			ops = append(ops, mk("all"))
		}
	}
	return ops
}

func insertAt(ref []types.Hashable, i int, x types.Hashable) []types.Hashable {
	n := append([]types.Hashable{}, ref[:i]...)
	n = append(n, x)
	return append(n, ref[i:]...)
}

func removeAt(ref []types.Hashable, i int) []types.Hashable {
	n := append([]types.Hashable{}, ref[:i]...)
	return append(n, ref[i+1:]...)
}

// permutation checks that b has the same items (by identity) as a.
func permutation(a, b []types.Hashable) bool {
	if len(a) != len(b) {
		return false
	}
	used := make([]bool, len(b))
	byID := map[interface{}][]int{}
	key := func(x types.Hashable) interface{} {
		if s, ok := x.(types.ByteSlice); ok {
			return string(s)
		}
		return x
	}
	for i, x := range b {
		byID[key(x)] = append(byID[key(x)], i)
	}
	for _, x := range a {
		k := key(x)
		is := byID[k]
		if len(is) == 0 {
			return false
		}
		used[is[0]] = true
		byID[k] = is[1:]
	}
	return true
}

var itemKinds = []int{kindK, kindK, kindK, kindInt, kindString, kindBytes, kindInt64, kindEntry}

func wrapCap(x int64, n int) int { return int(((x % int64(n)) + int64(n)) % int64(n)) }

func init() {
	names := []string{"append", "push", "insert", "insert", "set", "set", "remove", "remove", "pop", "extend", "get", "has", "has", "copy", "sort", "clear", "new", "slice", "all"}
	grow := []string{"append", "push", "insert", "insert", "insert", "extend", "append", "set"}
	shrink := []string{"remove", "remove", "pop", "pop", "get"}
	register(&Check{
		ID:    "C13",
		Rule:  "Cases are generated histories of append, push, insert, set, remove, pop, extend, clear, copy, sort and slice construction on up to three array lists that may be copies of each other, compared by item identity with reference sequences after every operation. Non-trivial: at least one insertion before the end or a set, at least one removal, and at least 3 items at some time.",
		Quick: 7000,
		Gen: func(r *R, size int) *Case {
			c := &Case{Cfg: map[string]int64{"kind": int64(itemKinds[r.N(len(itemKinds))]), "cap": int64(pick(r, 0, 0, 1, 2, 3, 5, 10, 11, 20, 21, 22, 23, 24, 40, 99, 100, 101, 150))}}
			c.Ops = genListOps(r, size, 400, names, grow, shrink)
			return c
		},
		Run: func(c *Case, t *T) {
			km := newKeyMaker(c.cfg("kind"), 0)
			ls := []*lst{{l: list.New(wrapCap(c.cfg("cap"), 200))}}
			for len(ls) < 3 {
				ls = append(ls, &lst{l: list.New(wrapCap(c.cfg("cap"), 4))})
			}
			mid, rem, most := 0, 0, 0
			for i, o := range c.Ops {
				t.At(i, o)
				zi := wrapCap(o.Z, 3)
				s := ls[zi]
				n := len(s.ref)
				x := func() types.Hashable { return km.item(o.X) }
				noErr := func(err error) { t.Check(err == nil, "gave error %v", err) }
				switch o.Op {
				case "append", "push":
					it := x()
					if o.Op == "push" {
						noErr(s.l.Push(it))
					} else {
						noErr(s.l.Append(it))
					}
					s.ref = append(s.ref, it)
				case "insert":
					k, it := index(o.Y, n), x()
					err := s.l.Insert(k, it)
					if k < 0 || k > n {
						t.Check(err != nil, "Insert(%d) into a list of %d items gave no error", k, n)
					} else {
						noErr(err)
						s.ref = insertAt(s.ref, k, it)
						if k < n {
							mid++
						}
					}
				case "set":
					k, it := index(o.Y, n), x()
					err := s.l.Set(k, it)
					if k < 0 || k >= n {
						t.Check(err != nil, "Set(%d) in a list of %d items gave no error", k, n)
					} else {
						noErr(err)
						s.ref[k] = it
						mid++
					}
				case "remove":
					k := index(o.Y, n)
					err := s.l.Remove(k)
					if k < 0 || k >= n {
						t.Check(err != nil, "Remove(%d) from a list of %d items gave no error", k, n)
					} else {
						noErr(err)
						s.ref = removeAt(s.ref, k)
						rem++
					}
				case "pop":
					it, err := s.l.Pop()
					if n == 0 {
						t.Check(err != nil, "Pop of an empty list gave no error")
					} else {
						noErr(err)
						t.Check(same(it, s.ref[n-1]), "Pop() = %v, want %v", it, s.ref[n-1])
						s.ref = s.ref[:n-1]
						rem++
					}
				case "extend":
					var items []types.Hashable
					for _, k := range o.Kids {
						items = append(items, km.item(k.X))
					}
					noErr(s.l.Extend(kiter(items)))
					s.ref = append(s.ref, items...)
				case "slice":
					var items []types.Hashable
					for _, k := range o.Kids {
						items = append(items, km.item(k.X))
					}
					s = &lst{l: list.FromSlice(items), ref: append([]types.Hashable{}, items...)}
					for j := range items {
						items[j] = km.item(-99) // the list must have its own store
					}
					ls[zi] = s
				case "new":
					s = &lst{l: list.New(wrapCap(o.Y, 30))}
					ls[zi] = s
				case "copy":
					s = &lst{l: s.l.Copy(), ref: append([]types.Hashable{}, s.ref...)}
					ls[(zi+1)%3] = s
				case "clear":
					s.l.Clear()
					s.ref = nil
				case "sort":
					before := s.ref
					sort.Sort(list.NewSortable(s.l))
					s.ref = collectK(t, "Items", s.l.Items(), n)
					t.Check(permutation(before, s.ref), "sorting does not permute the items: %v became %v", before, s.ref)
					for j := 1; j < len(s.ref); j++ {
						t.Check(!s.ref[j].Less(s.ref[j-1]), "sorting leaves %v before %v", s.ref[j-1], s.ref[j])
					}
				case "get":
					k := index(o.Y, n)
					it, err := s.l.Get(k)
					if k < 0 || k >= n {
						t.Check(err != nil, "Get(%d) of a list of %d items gave no error", k, n)
					} else {
						t.Check(err == nil && same(it, s.ref[k]), "Get(%d) = %v, %v, want %v", k, it, err, s.ref[k])
					}
				case "has":
					want := has(km, s.ref, o.X)
					got := s.l.Has(x())
					t.Check(got == want, "Has(%d) = %v, want %v", o.X, got, want)
				case "all":
					for _, q := range ls {
						sameSeq(t, "list", q.l, q.ref)
					}
				}
				if len(s.ref) > most {
					most = len(s.ref)
				}
				t.Check(s.l.Size() == len(s.ref), "Size() = %d, want %d", s.l.Size(), len(s.ref))
				t.Check(!s.l.Full(), "a list that is not fixed reports full")
			}
			t.At(len(c.Ops), Op{Op: "final comparison"})
			for _, q := range ls {
				sameSeq(t, "list", q.l, q.ref)
			}
			t.nontriv = mid > 0 && rem > 0 && most >= 3
			if most > 100 {
				t.Label("held>100")
			}
			if most > 25 {
				t.Label("held>25")
			}
		},
	})

	snames := []string{"add", "add", "delete", "delete", "removeat", "extend", "find", "find", "item", "has", "copy", "clear", "slice", "all"}
	sgrow := []string{"add", "add", "add", "extend", "find"}
	sshrink := []string{"delete", "delete", "removeat", "find"}
	register(&Check{
		ID:    "C14",
		Rule:  "Cases are generated histories of add, delete, remove by index, extend, search, copy, clear and slice construction on up to three sorted lists, with and without duplicates, compared by item identity with a reference sorted multiset or set after every operation. Non-trivial: an equal item is added twice, a present item is deleted, an absent item is searched or deleted, and at least 3 items are held at some time.",
		Quick: 7000,
		Gen: func(r *R, size int) *Case {
			c := &Case{Cfg: map[string]int64{"kind": int64(itemKinds[r.N(len(itemKinds))]), "dups": int64(r.N(2)), "cap": int64(pick(r, 0, 1, 5, 21, 23, 100))}}
			c.Ops = genListOps(r, size, 300, snames, sgrow, sshrink)
			return c
		},
		Run: func(c *Case, t *T) { runSorted(c, t, sortedList) },
	})
	register(&Check{
		ID:    "C15",
		Rule:  "Cases are generated histories of insertions, replacements, removals, clears, copies and encode/decode on fixed and on growing lists and sorted lists of capacity 0 to 40, compared with a reference that knows the capacity; lists left behind at a copy must stay as they were. Non-trivial: a fixed list refuses an insertion at capacity, and later has an item removed and accepts one again, or a copy or decoded list is filled to capacity.",
		Quick: 7000,
		Gen: func(r *R, size int) *Case {
			c := &Case{Cfg: map[string]int64{"sorted": int64(r.N(2)), "dups": int64(r.N(2)), "fixed": int64(r.Pick(15, 85)), "cap": int64(pick(r, 0, 1, 1, 2, 2, 3, 4, 5, 8, 13, 22, 25, 40))}}
			n := 1 + r.N(2+int(c.Cfg["cap"])*4) + size/5
			for len(c.Ops) < n {
				o := Op{Op: pick(r, "add", "add", "add", "add", "add", "insert", "insert", "extend", "remove", "remove", "set", "pop", "copy", "codec", "clear"), X: int64(r.N(12)), Y: int64(r.N(1000))}
				if o.Op == "clear" && r.P(70) {
					o.Op = "remove"
				}
				if r.P(60) {
					o.X = int64(r.N(1000))
				}
				if o.Op == "extend" {
					o.Kids = make([]Op, r.N(6))
					for i := range o.Kids {
						o.Kids[i] = Op{Op: "i", X: int64(r.N(40))}
					}
				}
				c.Ops = append(c.Ops, o)
			}
			return c
		},
		Run: runFixed,
	})
}

// sortedLike is a sorted list or a sorted set.
type sortedLike interface {
	listLike
	Add(types.Hashable) error
	Delete(types.Hashable) error
	Remove(int) error
	Extend(types.KIterator) error
	Find(types.Hashable) (int, bool, error)
	Item(types.Hashable) (types.Hashable, error)
	Clear()
}

// sortedKind makes them.
type sortedKind struct {
	make  func(n int, dups bool) sortedLike
	slice func(items []types.Hashable, dups bool) sortedLike
	copy  func(sortedLike) sortedLike
	dups  bool // may hold duplicates
	extra func(t *T, km *keyMaker, o Op, ls []*slst, zi int)
}

var sortedList = &sortedKind{
	make:  func(n int, dups bool) sortedLike { return list.NewSorted(n, dups) },
	slice: func(items []types.Hashable, dups bool) sortedLike { return list.SortedFromSlice(items, dups) },
	copy:  func(s sortedLike) sortedLike { return s.(*list.Sorted).Copy() },
	dups:  true,
}

type slst struct {
	s    sortedLike
	ref  []types.Hashable
	dups bool
}

// sortedSeq checks that a sorted list holds exactly the items of ref by
// identity and in non-decreasing order, and returns them as they are.
func sortedSeq(t *T, km *keyMaker, what string, l listLike, ref []types.Hashable, strict bool) []types.Hashable {
	got := collectK(t, what+" Items", l.Items(), len(ref))
	t.Check(permutation(ref, got), "%s: the list holds %v, want %v in order", what, got, ref)
	for j := 1; j < len(got); j++ {
		a, _ := km.val(got[j-1])
		b, _ := km.val(got[j])
		t.Check(a < b || (a == b && !strict), "%s: %v is before %v", what, got[j-1], got[j])
	}
	return got
}

func runSorted(c *Case, t *T, sk *sortedKind) {
	km := newKeyMaker(c.cfg("kind"), 0)
	dups := c.cfg("dups")%2 != 0 && sk.dups
	var ls []*slst
	for len(ls) < 3 {
		ls = append(ls, &slst{s: sk.make(wrapCap(c.cfg("cap"), 200), dups), dups: dups})
	}
	again, gone, absent, most := 0, 0, 0, 0
	for i, o := range c.Ops {
		t.At(i, o)
		zi := wrapCap(o.Z, 3)
		s := ls[zi]
		n := len(s.ref)
		noErr := func(err error) { t.Check(err == nil, "gave error %v", err) }
		first := func(v int64) (int, bool) {
			k := sort.Search(n, func(j int) bool { w, _ := km.val(s.ref[j]); return w >= v })
			if k < n {
				w, _ := km.val(s.ref[k])
				return k, w == v
			}
			return k, false
		}
		sync := func(what string) { s.ref = sortedSeq(t, km, what, s.s, s.ref, !s.dups) }
		addRef := func(it types.Hashable, v int64) {
			if has(km, s.ref, v) {
				again++
				if !s.dups {
					return
				}
			}
			s.ref = append(append([]types.Hashable{}, s.ref...), it)
		}
		switch o.Op {
		case "add":
			it := km.item(o.X)
			noErr(s.s.Add(it))
			addRef(it, o.X)
			sync("after Add")
		case "extend", "slice":
			var items []types.Hashable
			for _, k := range o.Kids {
				items = append(items, km.item(k.X))
			}
			if o.Op == "slice" {
				s = &slst{dups: o.Y%2 != 0 && sk.dups}
				s.s = sk.slice(items, s.dups)
				ls[zi] = s
			} else {
				noErr(s.s.Extend(kiter(items)))
			}
			known := map[int64]bool{}
			for _, it := range s.ref {
				w, _ := km.val(it)
				known[w] = true
			}
			ref := append([]types.Hashable{}, s.ref...)
			for j, k := range o.Kids {
				if known[k.X] {
					again++
				}
				if !known[k.X] || s.dups {
					ref = append(ref, items[j])
				}
				known[k.X] = true
			}
			s.ref = ref
			sync("after " + o.Op)
		case "delete":
			_, had := first(o.X)
			err := s.s.Delete(km.item(o.X))
			if !had {
				absent++
				t.Check(err != nil, "Delete of an absent item gave no error")
				sync("after Delete")
				break
			}
			gone++
			noErr(err)
			// exactly one of the equal items is gone
			left := collectK(t, "Items", s.s.Items(), n)
			t.Check(len(left) == n-1, "Delete leaves %d of %d items", len(left), n)
			for k := range s.ref {
				if w, _ := km.val(s.ref[k]); w == o.X && permutation(removeAt(s.ref, k), left) {
					s.ref = removeAt(s.ref, k)
					break
				}
			}
			t.Check(len(s.ref) == n-1, "Delete(%d) took %v to %v", o.X, s.ref, left)
			sync("after Delete")
		case "removeat":
			k := index(o.Y, n)
			err := s.s.Remove(k)
			if k < 0 || k >= n {
				t.Check(err != nil, "Remove(%d) from a list of %d items gave no error", k, n)
			} else {
				noErr(err)
				s.ref = removeAt(s.ref, k)
				gone++
			}
			sameSeq(t, "after Remove", s.s, s.ref)
		case "find":
			wi, wh := first(o.X)
			gi, gh, err := s.s.Find(km.item(o.X))
			noErr(err)
			t.Check(gh == wh && gi == wi, "Find(%d) = %d, %v, want %d, %v in %v", o.X, gi, gh, wi, wh, s.ref)
			if !wh {
				absent++
			}
		case "has":
			_, wh := first(o.X)
			t.Check(s.s.Has(km.item(o.X)) == wh, "Has(%d) = %v", o.X, !wh)
		case "item":
			_, wh := first(o.X)
			it, err := s.s.Item(km.item(o.X))
			if !wh {
				absent++
				t.Check(err != nil, "Item(%d) of an absent item gave no error", o.X)
				break
			}
			noErr(err)
			found := false
			for _, x := range s.ref {
				if w, _ := km.val(x); w == o.X && same(it, x) {
					found = true
				}
			}
			t.Check(found, "Item(%d) = %v, which is not the stored item", o.X, it)
		case "copy":
			ls[(zi+1)%3] = &slst{s: sk.copy(s.s), ref: s.ref, dups: s.dups}
			s = ls[(zi+1)%3]
		case "clear":
			s.s.Clear()
			s.ref = nil
		case "all":
			for _, q := range ls {
				sameSeq(t, "sorted list", q.s, q.ref)
			}
		default:
			if sk.extra != nil {
				sk.extra(t, km, o, ls, zi)
				s = ls[zi]
			}
		}
		t.Check(s.s.Size() == len(s.ref), "Size() = %d, want %d", s.s.Size(), len(s.ref))
		t.Check(!s.s.Full(), "a list that is not fixed reports full")
		if len(s.ref) > most {
			most = len(s.ref)
		}
	}
	t.At(len(c.Ops), Op{Op: "final comparison"})
	for _, q := range ls {
		sameSeq(t, "sorted list", q.s, q.ref)
	}
	t.nontriv = again > 0 && gone > 0 && absent > 0 && most >= 3
	if dups {
		t.Label("duplicates")
	}
	if most > 25 {
		t.Label("held>25")
	}
}

// runFixed drives one list, sorted list, their copies and their decoded forms.
func runFixed(c *Case, t *T) {
	isSorted, dups, fixed := c.cfg("sorted")%2 != 0, c.cfg("dups")%2 != 0, c.cfg("fixed")%2 != 0
	capa := wrapCap(c.cfg("cap"), 3000)
	km := newKeyMaker(kindInt, 0)
	marshal, unmarshal := types.IntMarshals()
	var l *list.List
	var s *list.Sorted
	if isSorted {
		if fixed {
			s = list.NewFixedSorted(capa, dups)
		} else {
			s = list.NewSorted(capa, dups)
		}
	} else if fixed {
		l = list.Fixed(capa)
	} else {
		l = list.New(capa)
	}
	var ref []types.Hashable
	refused, reopened, derived, derivedFull := 0, 0, false, 0
	like := func() listLike {
		if isSorted {
			return s
		}
		return l
	}
	sortRef := func() {
		if isSorted {
			sort.SliceStable(ref, func(i, j int) bool { return ref[i].(types.Int) < ref[j].(types.Int) })
		}
	}
	// lists that were copied or encoded must stay as they were then
	type frozen struct {
		l   listLike
		ref []types.Hashable
	}
	var left []frozen
	keep := func(l listLike) { left = append(left, frozen{l, append([]types.Hashable{}, ref...)}) }
	// one insertion with its effect on the reference
	room := func(err error, it types.Hashable, at int, v int64) bool {
		if isSorted && !dups && has(km, ref, v) {
			return true // already a member: nothing is inserted
		}
		if fixed && len(ref) >= capa {
			refused++
			t.Check(err != nil, "insertion into a full list of capacity %d gave no error", capa)
			return false
		}
		t.Check(err == nil, "insertion into a list holding %d items (capacity %d, fixed %v) gave error %v", len(ref), capa, fixed, err)
		ref = insertAt(ref, at, it)
		sortRef()
		if refused > 0 {
			reopened++
		}
		return true
	}
	for i, o := range c.Ops {
		t.At(i, o)
		n := len(ref)
		switch o.Op {
		case "add", "insert":
			it := types.Int(o.X)
			if isSorted {
				room(s.Add(it), it, n, o.X)
			} else if o.Op == "add" {
				if o.Y%2 == 0 {
					room(l.Append(it), it, n, o.X)
				} else {
					room(l.Push(it), it, n, o.X)
				}
			} else {
				k := wrapCap(o.Y, n+1)
				room(l.Insert(k, it), it, k, o.X)
			}
		case "extend":
			var items []types.Hashable
			for _, k := range o.Kids {
				items = append(items, types.Int(k.X))
			}
			var err error
			if isSorted {
				err = s.Extend(kiter(items))
			} else {
				err = l.Extend(kiter(items))
			}
			full := false
			for j, k := range o.Kids {
				if isSorted && !dups && has(km, ref, k.X) {
					continue
				}
				if fixed && len(ref) >= capa {
					full = true
					break
				}
				room(nil, items[j], len(ref), k.X)
			}
			if full {
				refused++
			}
			t.Check((err != nil) == full, "Extend by %d items gave error %v (capacity %d, fixed %v)", len(items), err, capa, fixed)
		case "remove":
			if n > 0 {
				k := wrapCap(o.Y, n)
				var err error
				if isSorted {
					if o.X%2 == 0 {
						err = s.Remove(k)
					} else {
						err = s.Delete(ref[k])
					}
				} else {
					err = l.Remove(k)
				}
				t.Check(err == nil, "removal gave error %v", err)
				ref = removeAt(ref, k)
			}
		case "pop":
			if n > 0 && !isSorted {
				_, err := l.Pop()
				t.Check(err == nil, "Pop gave error %v", err)
				ref = removeAt(ref, n-1)
			}
		case "set":
			if n > 0 && !isSorted {
				k := wrapCap(o.Y, n)
				t.Check(l.Set(k, types.Int(o.X)) == nil, "Set(%d) of %d items gave an error", k, n)
				ref = append([]types.Hashable{}, ref...)
				ref[k] = types.Int(o.X)
			}
		case "copy":
			keep(like())
			if isSorted {
				x := s.Copy()
				if o.X%3 == 0 {
					left[len(left)-1].l = x // go on with the original
				} else {
					s = x
				}
			} else {
				x := l.Copy()
				if o.X%3 == 0 {
					left[len(left)-1].l = x
				} else {
					l = x
				}
			}
			derived = true
		case "codec":
			keep(like())
			// decode the encoded list and go on with the decoded one
			if isSorted {
				data, err := list.NewMSorted(s, marshal, unmarshal).MarshalBinary()
				t.Check(err == nil, "encoding gave error %v", err)
				m := &list.MSorted{MList: list.MList{MarshalItem: marshal, UnmarshalItem: unmarshal}}
				err = m.UnmarshalBinary(data)
				t.Check(err == nil, "decoding gave error %v", err)
				s = m.Sorted()
			} else {
				data, err := list.NewMList(l, marshal, unmarshal).MarshalBinary()
				t.Check(err == nil, "encoding gave error %v", err)
				m := &list.MList{MarshalItem: marshal, UnmarshalItem: unmarshal}
				err = m.UnmarshalBinary(data)
				t.Check(err == nil, "decoding gave error %v", err)
				l = &m.List
			}
			derived = true
		case "clear":
			if isSorted {
				s.Clear()
			} else {
				l.Clear()
			}
			ref = nil
		}
		if len(ref) < 400 || i%16 == 0 || i+1 == len(c.Ops) {
			sameSeq(t, "list", like(), ref)
		}
		wantFull := fixed && len(ref) == capa
		t.Check(like().Full() == wantFull, "Full() = %v with %d items, capacity %d, fixed %v", !wantFull, len(ref), capa, fixed)
		if wantFull && derived {
			derivedFull++
		}
	}
	// at the end fill it up: it must take exactly what is left of its capacity
	for k := 0; k < 3 || (fixed && len(ref) < capa); k++ {
		t.At(len(c.Ops), Op{Op: "final filling", X: int64(k)})
		it := types.Int(100000 + k)
		var err error
		if isSorted {
			err = s.Add(it)
		} else {
			err = l.Append(it)
		}
		room(err, it, len(ref), int64(100000+k))
		sameSeq(t, "list", like(), ref)
	}
	t.At(len(c.Ops), Op{Op: "lists that were copied"})
	for _, f := range left {
		sameSeq(t, "a list left behind at a copy", f.l, f.ref)
		wantFull := fixed && len(f.ref) == capa
		t.Check(f.l.Full() == wantFull, "a list left behind at a copy: Full() = %v with %d items, capacity %d, fixed %v", !wantFull, len(f.ref), capa, fixed)
	}
	t.nontriv = fixed && refused > 0 && (reopened > 0 || derivedFull > 0)
	if isSorted {
		t.Label("sorted")
	}
	if !fixed {
		t.Label("not-fixed")
	}
	if derivedFull > 0 {
		t.Label("derived-filled")
	}
}
