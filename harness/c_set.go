package main

import (
	"fmt"
	"strconv"

	"github.com/timtadh/data-structures/hashtable"
	"github.com/timtadh/data-structures/set"
	"github.com/timtadh/data-structures/tree/avl"
	"github.com/timtadh/data-structures/tree/bptree"
	"github.com/timtadh/data-structures/types"
)

// maps of the library
const nMaps = 6

func newMap(kind int, size int64) (types.Map, string, bool) {
	switch kind {
	case 1:
		return hashtable.NewLinearHash(), "linear hash", false
	case 2:
		return avl.NewAvlTree(), "AVL tree", true
	case 3:
		return avl.NewImmutableAvlTree(), "immutable AVL tree", true
	case 4:
		return bptree.NewBpMap(nodeSize(size)), "B+ tree map", true
	case 5:
		return set.NewMapSet(set.NewSortedSet(wrapCap(size, 30))), "map view of a sorted set", true
	}
	return hashtable.NewHashTable(1 + wrapCap(size, 30)), "hash table", false
}

// nSets is the number of set kinds; the last one holds entries only.
const nSets = 7

func newSet(kind int, size int64) (types.Set, string, bool) {
	switch {
	case kind == 0:
		return set.NewSortedSet(wrapCap(size, 30)), "sorted set", true
	case kind == nSets-1:
		return set.NewMapSet(set.NewSortedSet(wrapCap(size, 30))), "map set", true
	}
	m, name, ord := newMap(kind-1, size)
	return set.NewSetMap(m), "set over " + name, ord
}

// aset is a set with its reference contents.
type aset struct {
	t    *T
	s    types.Set
	name string
	ord  bool
	ref  map[int64]bool
}

func setVal(t *T, h types.Hashable) int64 {
	switch k := h.(type) {
	case *K:
		return k.V
	case *types.MapEntry:
		return setVal(t, k.Key)
	}
	t.Fail("the set yields a %T", h)
	return 0
}

func (a *aset) contents(what string) {
	t := a.t
	items := collectK(t, what+" "+a.name+" Items", a.s.Items(), len(a.ref))
	t.Check(a.s.Size() == len(a.ref), "%s: %s: Size() = %d, want %d", what, a.name, a.s.Size(), len(a.ref))
	seen := map[int64]bool{}
	last := int64(0)
	for i, h := range items {
		v := setVal(t, h)
		t.Check(a.ref[v], "%s: %s yields %d, which is not a member", what, a.name, v)
		t.Check(!seen[v], "%s: %s yields %d twice", what, a.name, v)
		if a.ord && i > 0 {
			t.Check(last < v, "%s: %s yields %d after %d", what, a.name, v, last)
		}
		seen[v] = true
		last = v
	}
	t.Check(len(items) == len(a.ref), "%s: %s yields %d items, want %d", what, a.name, len(items), len(a.ref))
}

type maker func(v int64) types.Hashable

func (a *aset) members(what string, mk maker, space int64) {
	for v := int64(-1); v <= space; v++ {
		got := a.s.Has(mk(v))
		a.t.Check(got == a.ref[v], "%s: %s: Has(%d) = %v", what, a.name, v, got)
	}
}

func isSorted(s types.Set) bool {
	switch s.(type) {
	case *set.SortedSet, *set.MapSet:
		return true
	}
	return false
}

func runSetAlgebra(c *Case, t *T) {
	entries := c.cfg("entries")%2 != 0
	n := int64(0)
	mk := func(v int64) types.Hashable {
		n++
		k := &K{V: v, Mode: c.cfg("hash"), Tag: n}
		if entries {
			return &types.MapEntry{Key: k, Value: n}
		}
		return k
	}
	kinds := nSets - 1
	if entries {
		kinds = nSets
	}
	space := int64(1)
	var sets [2]*aset
	for i, f := range []string{"a", "b"} {
		s, name, ord := newSet(wrapCap(c.cfg(f), kinds), c.cfg("size"))
		sets[i] = &aset{t, s, name, ord, map[int64]bool{}}
	}
	for i, o := range c.Ops {
		t.At(i, o)
		v := int64(wrapCap(o.X, 400000))
		if v >= space {
			space = v + 1
		}
		s := sets[wrapCap(o.Z, 2)]
		switch o.Op {
		case "add":
			err := s.s.Add(mk(v))
			t.Check(err == nil, "%s: Add gave error %v", s.name, err)
			s.ref[v] = true
		case "del":
			err := s.s.Delete(mk(v))
			t.Check((err == nil) == s.ref[v], "%s: Delete(%d) gave error %v", s.name, v, err)
			delete(s.ref, v)
		}
	}
	t.step = -1
	a, b := sets[0], sets[1]
	unchanged := func(what string) {
		a.contents("after " + what + ", the left operand")
		b.contents("after " + what + ", the right operand")
	}
	unchanged("building")
	combos := [][2]*aset{{a, b}, {b, a}, {a, a}, {b, b}}
	inter, diff := 0, 0
	for v := range a.ref {
		if b.ref[v] {
			inter++
		} else {
			diff++
		}
	}
	for ci, p := range combos {
		l, r := p[0], p[1]
		type res struct {
			name string
			f    func() (types.Set, error)
			want func(x, y bool) bool
		}
		for _, q := range []res{
			{"Union", func() (types.Set, error) { return l.s.Union(r.s) }, func(x, y bool) bool { return x || y }},
			{"Intersect", func() (types.Set, error) { return l.s.Intersect(r.s) }, func(x, y bool) bool { return x && y }},
			{"Subtract", func() (types.Set, error) { return l.s.Subtract(r.s) }, func(x, y bool) bool { return x && !y }},
			{"set.Union", func() (types.Set, error) { return set.Union(l.s, r.s) }, func(x, y bool) bool { return x || y }},
			{"set.Intersect", func() (types.Set, error) { return set.Intersect(l.s, r.s) }, func(x, y bool) bool { return x && y }},
			{"set.Subtract", func() (types.Set, error) { return set.Subtract(l.s, r.s) }, func(x, y bool) bool { return x && !y }},
		} {
			what := fmt.Sprintf("%s(%s, %s)", q.name, l.name, r.name)
			got, err := q.f()
			t.Check(err == nil, "%s gave error %v", what, err)
			t.Check(got != nil, "%s gave no set", what)
			t.Check(fmt.Sprintf("%T", got) == fmt.Sprintf("%T", l.s), "%s gave a %T", what, got)
			w := &aset{t, got, fmt.Sprintf("result (%T)", got), isSorted(got), map[int64]bool{}}
			for v := int64(0); v < space; v++ {
				if q.want(l.ref[v], r.ref[v]) {
					w.ref[v] = true
				}
			}
			w.contents(what)
			w.members(what, mk, space)
			unchanged(what)
			// the result is its own set
			if ci == 0 || ci == 2 {
				extra := space + 5
				t.Check(got.Add(mk(extra)) == nil, "%s: adding to the result gave an error", what)
				w.ref[extra] = true
				for v := int64(0); v < space; v += 2 + space/5000 {
					if w.ref[v] {
						err := got.Delete(mk(v))
						t.Check(err == nil, "%s: deleting %d from the result gave error %v", what, v, err)
						delete(w.ref, v)
					}
				}
				w.contents(what + " after changing it")
				unchanged(what + " and changing the result")
				t.Check(l.s.Add(mk(extra+1)) == nil, "%s: adding to the operand gave an error", what)
				w.contents(what + " after changing the operand")
				t.Check(l.s.Delete(mk(extra+1)) == nil, "%s: deleting from the operand gave an error", what)
				unchanged(what + " and changing the operand")
			}
		}
		sub := true
		for v := range l.ref {
			sub = sub && r.ref[v]
		}
		sup := true
		for v := range r.ref {
			sup = sup && l.ref[v]
		}
		psub, psup := sub && len(l.ref) < len(r.ref), sup && len(r.ref) < len(l.ref)
		for _, q := range []struct {
			name      string
			got, want bool
		}{
			{"Subset", l.s.Subset(r.s), sub}, {"Superset", l.s.Superset(r.s), sup},
			{"ProperSubset", l.s.ProperSubset(r.s), psub}, {"ProperSuperset", l.s.ProperSuperset(r.s), psup},
			{"set.Subset", set.Subset(l.s, r.s), sub}, {"set.Superset", set.Superset(l.s, r.s), sup},
			{"set.ProperSubset", set.ProperSubset(l.s, r.s), psub}, {"set.ProperSuperset", set.ProperSuperset(l.s, r.s), psup},
		} {
			t.Check(q.got == q.want, "%s(%s of %d, %s of %d) = %v", q.name, l.name, len(l.ref), r.name, len(r.ref), q.got)
		}
		unchanged("subset tests")
		if sub && len(l.ref) > 0 && ci < 2 {
			t.Label("subset")
		}
	}
	t.nontriv = inter > 0 && diff > 0 && len(b.ref) > inter
	if a.name != b.name {
		t.Label("mixed-kinds")
	}
	t.Label(a.name)
}

// extras of the sorted set over the sorted list
var sortedSet = &sortedKind{
	make:  func(n int, _ bool) sortedLike { return set.NewSortedSet(n) },
	slice: func(items []types.Hashable, _ bool) sortedLike { return set.FromSlice(items) },
	copy:  func(s sortedLike) sortedLike { return s.(*set.SortedSet).Copy() },
	extra: func(t *T, km *keyMaker, o Op, ls []*slst, zi int) {
		s := ls[zi]
		switch o.Op {
		case "random":
			it, err := s.s.(*set.SortedSet).Random()
			if len(s.ref) == 0 {
				t.Check(err != nil, "Random() of an empty set = %v and no error", it)
				return
			}
			t.Check(err == nil, "Random() gave error %v", err)
			for _, x := range s.ref {
				if same(x, it) {
					return
				}
			}
			t.Fail("Random() = %v, which is not a member of %v", it, s.ref)
		case "overlap":
			b := ls[wrapCap(o.X, 3)]
			want := false
			for _, x := range s.ref {
				v, _ := km.val(x)
				want = want || has(km, b.ref, v)
			}
			got := s.s.(*set.SortedSet).Overlap(b.s.(*set.SortedSet))
			t.Check(got == want, "Overlap(%v, %v) = %v", s.ref, b.ref, got)
			t.Label(fmt.Sprint("overlap=", want))
		case "fromset":
			// a sorted set from another set with the same members
			kind := wrapCap(o.Y, nSets-1)
			src, name, _ := newSet(kind, o.X)
			for _, x := range s.ref {
				err := src.Add(x)
				t.Check(err == nil, "%s: Add gave error %v", name, err)
			}
			n := set.SortedFromSet(src)
			q := &slst{s: n, ref: s.ref}
			sameSeq(t, "SortedFromSet of "+name, n, s.ref)
			ls[zi] = q
		case "fromnil":
			n := set.SortedFromSet(nil)
			t.Check(n != nil && n.Size() == 0, "SortedFromSet(nil) is not an empty set")
			ls[zi] = &slst{s: n}
		}
	},
}

func init() {
	register(&Check{
		ID:    "C20",
		Rule:  "Cases are pairs of sets of any two kinds (sorted set, set over each map, map set) built by generated additions and deletions; union, intersection, difference and the four inclusion tests of every ordered pair, and of each set with itself, are compared with reference sets, operands and results are checked for independence. Non-trivial: both sets have members the other has and members the other lacks.",
		Quick: 37500,
		Gen: func(r *R, size int) *Case {
			c := &Case{Cfg: map[string]int64{"a": int64(r.N(nSets)), "b": int64(r.N(nSets)), "entries": int64(r.N(2)), "hash": int64(r.N(hashModes)), "size": int64(pick(r, 0, 1, 2, 7))}}
			space := pick(r, 2, 4, 8, 20, 60, 150)
			n := 3 + r.N(2+size*60/100)
			if r.P(12) {
				n = r.N(4)
			}
			mode := r.Pick(6, 2, 1)
			for i := 0; i < n; i++ {
				o := Op{Op: "add", X: int64(r.N(space)), Z: int64(r.N(2))}
				if r.P(12) {
					o.Op = "del"
				}
				c.Ops = append(c.Ops, o)
				if mode == 1 && o.Z == 0 { // b contains a
					o.Z = 1
					c.Ops = append(c.Ops, o)
				}
				if mode == 2 {
					o.Z = 1 - o.Z
					c.Ops = append(c.Ops, o)
				}
			}
			return c
		},
		Run: runSetAlgebra,
	})
	names := []string{"add", "add", "delete", "delete", "removeat", "extend", "find", "item", "has", "copy", "clear", "slice", "all", "random", "random", "overlap", "overlap", "fromset", "fromnil"}
	register(&Check{
		ID:    "C21",
		Rule:  "Cases are generated histories of add, delete, remove by index, extend, search, copy, clear, construction from slices and other sets, overlap tests and random picks on up to three sorted sets, compared by item identity with reference sets after every operation. Non-trivial: a member is added again, a member is deleted, an absent item is searched or deleted, and at least 3 items are held at some time.",
		Quick: 9000,
		Gen: func(r *R, size int) *Case {
			c := &Case{Cfg: map[string]int64{"kind": int64(pick(r, kindK, kindK, kindInt, kindString, kindBytes, kindInt64)), "cap": int64(pick(r, 0, 1, 5, 21, 23, 100))}}
			c.Ops = genListOps(r, size, 200, names, []string{"add", "add", "add", "extend", "overlap"}, []string{"delete", "delete", "removeat", "random"})
			return c
		},
		Run: func(c *Case, t *T) { runSorted(c, t, sortedSet) },
	})
	register(&Check{
		ID:    "C22",
		Rule:  "Cases are generated histories on a map built over a sorted set that mix the map view (put, get, has, remove) and the set view (add, delete, item, extend of entries, addition of non-entries), compared with a reference dictionary after every operation. Non-trivial: a key is overwritten, a present key is removed, an absent key is probed, and at least 3 entries are held.",
		Quick: 30000,
		Gen: func(r *R, size int) *Case {
			kinds := []int{kindK, kindK, kindInt, kindString, kindBytes, kindInt64, kindUInt32, kindInt8}
			c := &Case{Cfg: map[string]int64{"kind": int64(kinds[r.N(len(kinds))]), "size": int64(r.N(30))}}
			c.Ops = genDict(r, size, 120)
			for i := range c.Ops {
				if c.Ops[i].Op != "all" && r.P(35) {
					c.Ops[i].Op = pick(r, "add", "add", "del", "item", "item", "extend", "bad", "algebra")
				}
			}
			return c
		},
		Run: runMapSet,
	})
	register(&Check{
		ID:    "C23",
		Rule:  "Cases are generated histories of add, delete, extend and membership tests on a set built over each of the library's maps, compared with a reference set after every operation. Non-trivial: a member is added again, a member is deleted, an absent item is deleted, and at least 3 members are held.",
		Quick: 30000,
		Gen: func(r *R, size int) *Case {
			c := &Case{Cfg: map[string]int64{"kind": int64(anyKind[r.N(len(anyKind))]), "map": int64(r.N(nMaps)), "hash": int64(r.N(hashModes)), "size": int64(r.N(30))}}
			for _, o := range genDict(r, size, 200) {
				switch o.Op {
				case "put":
					o.Op = "add"
				case "rem":
					o.Op = "del"
				case "get":
					o.Op = pick(r, "has", "extend")
				}
				o.Y = int64(r.N(9))
				c.Ops = append(c.Ops, o)
			}
			return c
		},
		Run: runSetMap,
	})
	register(&Check{
		ID:    "C37",
		Rule:  "Cases are generated map histories run on all six map implementations at once (hash table, linear hash, AVL tree, immutable AVL tree, B+ tree map, map view of a sorted set) over all key types, each compared with the same reference after every operation. Non-trivial: the history overwrites a key or removes a present key, probes an absent key, and holds at least 3 entries.",
		Quick: 4000,
		Gen: func(r *R, size int) *Case {
			kinds := []int{kindK, kindInt, kindString, kindBytes, kindInt64, kindUInt32, kindInt8, kindUInt64}
			c := &Case{Cfg: map[string]int64{"kind": int64(kinds[r.N(len(kinds))]), "hash": int64(r.N(hashModes))}}
			genNodeSize(r, c.Cfg)
			c.Ops = genDict(r, size, 150)
			return c
		},
		Run: func(c *Case, t *T) {
			kind := c.cfg("kind")
			if newKeyMaker(kind, 0).kind == kindEntry {
				kind = kindK
			}
			var ds []*dict
			for k := 0; k < nMaps; k++ {
				m, name, ord := newMap(k, c.cfg("size"))
				ds = append(ds, &dict{t: t, name: name, m: m, ordered: ord, km: newKeyMaker(kind, c.cfg("hash")), ref: map[int64]interface{}{}})
			}
			most := 0
			for i, o := range c.Ops {
				t.At(i, o)
				for _, d := range ds {
					d.apply(o)
				}
				if n := len(ds[0].ref); n > most {
					most = n
				}
			}
			t.At(len(c.Ops), Op{Op: "final comparison"})
			for _, d := range ds {
				d.full()
			}
			d := ds[0]
			t.nontriv = d.over+d.gone > 0 && d.absent > 0 && most >= 3
			if most >= 16 {
				t.Label("held>=16")
			}
		},
	})
}

// algebra compares union, intersection and difference of two map views with
// those of the dictionaries they hold.
func (d *dict) algebra(a, b *set.MapSet, ar, br map[int64]interface{}) {
	uni, in, sub := map[int64]interface{}{}, map[int64]interface{}{}, map[int64]interface{}{}
	for k, v := range br {
		uni[k] = v
	}
	for k, v := range ar {
		uni[k] = v
		if _, ok := br[k]; ok {
			in[k] = v
		} else {
			sub[k] = v
		}
	}
	one := func(name string, f func(types.Set) (types.Set, error), want map[int64]interface{}) {
		got, err := f(b)
		d.t.Check(err == nil, "%s of two maps gave error %v", name, err)
		m, ok := got.(types.MapOperable)
		d.t.Check(ok, "%s of two maps gave a %T", name, got)
		// new values for one of the three maps stay in that map
		ks := sortedKeys(want)
		if len(ks) > 3 {
			ks = []int64{ks[0], ks[len(ks)/2], ks[len(ks)-1]}
		}
		ops := []struct {
			m   *set.MapSet
			ref map[int64]interface{}
		}{{a, ar}, {b, br}}
		for _, k := range ks {
			d.t.Check(m.Put(d.km.mk(k), "changed") == nil, "%s of two maps: Put gave an error", name)
			for _, p := range ops {
				if v, has := p.ref[k]; has {
					g, err := p.m.Get(d.km.mk(k))
					d.t.Check(err == nil && sameVal(v, g), "after Put of key %d in the %s of two maps, an operand has value %v, error %v, want %v", k, name, g, err, v)
				}
			}
			d.t.Check(m.Put(d.km.mk(k), want[k]) == nil, "%s of two maps: Put gave an error", name)
		}
		for _, k := range ks {
			v := want[k]
			for _, p := range ops {
				if w, has := p.ref[k]; has {
					d.t.Check(p.m.Put(d.km.mk(k), "changed") == nil, "Put in an operand gave an error")
					g, err := m.Get(d.km.mk(k))
					d.t.Check(err == nil && sameVal(v, g), "after Put of key %d in an operand, the %s of two maps has value %v, error %v, want %v", k, name, g, err, v)
					d.t.Check(p.m.Put(d.km.mk(k), w) == nil, "Put in an operand gave an error")
				}
			}
		}
		items := collectK(d.t, name, got.Items(), len(want))
		d.t.Check(len(items) == len(want), "%s of two maps has %d entries, want %d", name, len(items), len(want))
		seen := map[int64]bool{}
		for _, it := range items {
			me, ok := it.(*types.MapEntry)
			d.t.Check(ok, "%s of two maps holds a %T", name, it)
			x, err := d.km.val(me.Key)
			v, has := want[x]
			d.t.Check(err == nil && has && !seen[x] && sameVal(v, me.Value), "%s of two maps holds (%v, %v), want value %v", name, me.Key, me.Value, v)
			seen[x] = true
		}
	}
	one("Union", a.Union, uni)
	one("Intersect", a.Intersect, in)
	one("Subtract", a.Subtract, sub)
}

func runMapSet(c *Case, t *T) {
	kind := c.cfg("kind")
	if newKeyMaker(kind, 0).kind == kindEntry {
		kind = kindK
	}
	ms := set.NewMapSet(set.NewSortedSet(wrapCap(c.cfg("size"), 40)))
	d := &dict{t: t, name: "map set", m: ms, ordered: true, km: newKeyMaker(kind, 0), ref: map[int64]interface{}{}}
	most, algebra := 0, 0
	for i, o := range c.Ops {
		t.At(i, o)
		k := d.key(o.X)
		cur, hasIt := d.ref[k]
		switch o.Op {
		case "add":
			v := mkVal(o.Y)
			err := ms.Add(&types.MapEntry{Key: d.km.mk(k), Value: v})
			t.Check(err == nil, "Add gave error %v", err)
			if !hasIt {
				d.ref[k] = v
			}
		case "extend":
			var items []types.Hashable
			for j := int64(0); j < 3; j++ {
				x := d.key(o.X + j*o.Y%7)
				v := mkVal(o.Y + j)
				items = append(items, &types.MapEntry{Key: d.km.mk(x), Value: v})
				if _, ok := d.ref[x]; !ok {
					d.ref[x] = v
				}
			}
			err := ms.Extend(kiter(items))
			t.Check(err == nil, "Extend gave error %v", err)
		case "del":
			var item types.Hashable = d.km.mk(k)
			if o.Y%2 == 0 {
				item = &types.MapEntry{Key: item, Value: "other"}
			}
			err := ms.Delete(item)
			if hasIt {
				d.gone++
			} else {
				d.absent++
			}
			t.Check((err == nil) == hasIt, "Delete(%d) gave error %v", k, err)
			delete(d.ref, k)
		case "item":
			var item types.Hashable = d.km.mk(k)
			if o.Y%2 == 0 {
				item = &types.MapEntry{Key: item, Value: "other"}
			}
			t.Check(ms.Has(item) == hasIt, "Has(%d) = %v", k, !hasIt)
			got, err := ms.Item(item)
			if !hasIt {
				t.Check(err != nil, "Item(%d) of an absent key gave no error", k)
				break
			}
			t.Check(err == nil, "Item(%d) gave error %v", k, err)
			me, ok := got.(*types.MapEntry)
			t.Check(ok, "Item(%d) is a %T", k, got)
			x, err := d.km.val(me.Key)
			t.Check(err == nil && x == k && sameVal(me.Value, cur), "Item(%d) = (%v, %v), want value %v", k, me.Key, me.Value, cur)
		case "bad":
			err := ms.Add(d.km.mk(k))
			t.Check(err != nil, "Add of an item that is not an entry gave no error")
		case "algebra":
			// keys in both keep the entry of the first operand
			other := set.NewMapSet(set.NewSortedSet(3))
			oref := map[int64]interface{}{}
			for j := int64(0); j < int64(1+wrapCap(o.Y, 6)); j++ {
				x := d.key(o.X + j*int64(1+wrapCap(o.Y, 5)))
				oref[x] = "other" + strconv.Itoa(int(j))
				t.Check(other.Put(d.km.mk(x), oref[x]) == nil, "Put failed")
			}
			d.algebra(ms, other, d.ref, oref)
			d.algebra(other, ms, oref, d.ref)
			algebra++
		default:
			d.apply(o)
		}
		d.size()
		if len(d.ref) > most {
			most = len(d.ref)
		}
	}
	t.At(len(c.Ops), Op{Op: "final comparison"})
	d.full()
	// maps over sets compare as the sets of their keys do
	other := set.NewMapSet(set.NewSortedSet(4))
	ks := sortedKeys(d.ref)
	for i := range ks {
		k := ks[len(ks)-1-i]
		t.Check(other.Put(d.km.mk(k), "other") == nil, "Put failed")
	}
	t.Check(ms.Equals(other) && other.Equals(ms), "maps with the same %d keys are not equal", len(ks))
	t.Check(!ms.Equals(types.Int(1)), "the map equals a number")
	if len(ks) > 0 {
		k := ks[most%len(ks)]
		t.Check(other.Delete(d.km.mk(k)) == nil, "Delete(%d) failed", k)
		t.Check(!ms.Equals(other) && !other.Equals(ms), "maps are equal though only one has key %d", k)
	}
	if algebra > 0 {
		t.Label("algebra")
	}
	t.nontriv = d.over > 0 && d.gone > 0 && d.absent > 0 && most >= 3
}

func runSetMap(c *Case, t *T) {
	mi := wrapCap(c.cfg("map"), nMaps)
	m, name, ord := newMap(mi, c.cfg("size"))
	kind := c.cfg("kind")
	if mi == 5 && newKeyMaker(kind, 0).kind == kindEntry {
		kind = kindK
	}
	km := newKeyMaker(kind, c.cfg("hash"))
	s := set.NewSetMap(m)
	var _ types.Set = s
	ref := map[int64]bool{}
	key := (&dict{km: km}).key
	again, gone, absent, most := 0, 0, 0, 0
	full := func() {
		items := collectK(t, name+" Items", s.Items(), len(ref))
		t.Check(len(items) == len(ref), "%s: Items yields %d items, want %d", name, len(items), len(ref))
		seen := map[int64]bool{}
		last := int64(0)
		for i, h := range items {
			v, err := km.val(h)
			t.Check(err == nil && ref[v], "%s: Items yields %v, which is not a member", name, h)
			t.Check(!seen[v], "%s: Items yields %v twice", name, h)
			seen[v] = true
			if ord && i > 0 {
				t.Check(last < v, "%s: Items yields %d after %d", name, v, last)
			}
			last = v
		}
		for v := range ref {
			t.Check(s.Has(km.mk(v)), "%s: Has(%d) = false", name, v)
		}
	}
	add := func(v int64) {
		if ref[v] {
			again++
		}
		ref[v] = true
	}
	for i, o := range c.Ops {
		t.At(i, o)
		v := key(o.X)
		switch o.Op {
		case "add":
			err := s.Add(km.mk(v))
			t.Check(err == nil, "%s: Add(%d) gave error %v", name, v, err)
			add(v)
		case "del":
			err := s.Delete(km.mk(v))
			if ref[v] {
				gone++
			} else {
				absent++
			}
			t.Check((err == nil) == ref[v], "%s: Delete(%d) gave error %v", name, v, err)
			delete(ref, v)
		case "has":
			t.Check(s.Has(km.mk(v)) == ref[v], "%s: Has(%d) = %v", name, v, !ref[v])
		case "extend":
			var items []types.Hashable
			for j := int64(0); j < int64(wrapCap(o.Y, 9)); j++ {
				x := key(o.X + j)
				items = append(items, km.mk(x))
				add(x)
			}
			err := s.Extend(kiter(items))
			t.Check(err == nil, "%s: Extend gave error %v", name, err)
		case "all":
			full()
		}
		t.Check(s.Size() == len(ref), "%s: Size() = %d, want %d", name, s.Size(), len(ref))
		if len(ref) > most {
			most = len(ref)
		}
	}
	t.At(len(c.Ops), Op{Op: "final comparison"})
	full()
	t.nontriv = again > 0 && gone > 0 && absent > 0 && most >= 3
	t.Label(name)
}
