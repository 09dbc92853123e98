package main

import (
	"fmt"

	"github.com/timtadh/data-structures/hashtable"
	"github.com/timtadh/data-structures/set"
	"github.com/timtadh/data-structures/types"
)

// ---- C42: collections of the caller behind the wrappers of the library

// fault makes the n-th of the calls named what fail. Only calls that would have
// done something count: the addition of what is absent, the removal or lookup of
// what is present.
type fault struct {
	what  string
	n     int
	fired bool
}

var errFault = fmt.Errorf("injected fault")

func (f *fault) hit(what string) error {
	if f == nil || f.what != what {
		return nil
	}
	if f.n--; f.n == 0 {
		f.fired = true
		return errFault
	}
	return nil
}

// ownMap is a map that is not from the library.
type ownMap struct {
	ks []types.Hashable
	vs []interface{}
	*fault
}

func (m *ownMap) find(k types.Hashable) int {
	for i := range m.ks {
		if m.ks[i].Equals(k) {
			return i
		}
	}
	return -1
}
func (m *ownMap) Size() int                 { return len(m.ks) }
func (m *ownMap) Has(k types.Hashable) bool { return m.find(k) >= 0 }
func (m *ownMap) Put(k types.Hashable, v interface{}) error {
	if i := m.find(k); i >= 0 {
		m.vs[i] = v
		return nil
	}
	if err := m.hit("add"); err != nil {
		return err
	}
	m.ks, m.vs = append(m.ks, k), append(m.vs, v)
	return nil
}
func (m *ownMap) Get(k types.Hashable) (interface{}, error) {
	if i := m.find(k); i >= 0 {
		return m.vs[i], nil
	}
	return nil, fmt.Errorf("absent")
}
func (m *ownMap) Remove(k types.Hashable) (interface{}, error) {
	i := m.find(k)
	if i < 0 {
		return nil, fmt.Errorf("absent")
	}
	if err := m.hit("rem"); err != nil {
		return nil, err
	}
	v := m.vs[i]
	m.ks, m.vs = append(m.ks[:i:i], m.ks[i+1:]...), append(m.vs[:i:i], m.vs[i+1:]...)
	return v, nil
}
func (m *ownMap) Iterate() types.KVIterator {
	i := -1
	var it types.KVIterator
	it = func() (types.Hashable, interface{}, types.KVIterator) {
		if i++; i >= len(m.ks) {
			return nil, nil, nil
		}
		return m.ks[i], m.vs[i], it
	}
	return it
}
func (m *ownMap) Keys() types.KIterator  { return types.MakeKeysIterator(m) }
func (m *ownMap) Values() types.Iterator { return types.MakeValuesIterator(m) }

// ownSet is a set that is not from the library.
type ownSet struct{ m ownMap }

func (s *ownSet) Equals(o types.Equatable) bool { panic("not used") }
func (s *ownSet) Items() types.KIterator        { return s.m.Keys() }
func (s *ownSet) Size() int                     { return s.m.Size() }
func (s *ownSet) Has(k types.Hashable) bool     { return s.m.Has(k) }
func (s *ownSet) Item(k types.Hashable) (types.Hashable, error) {
	if i := s.m.find(k); i >= 0 {
		return s.m.ks[i], s.m.hit("item")
	}
	return nil, fmt.Errorf("absent")
}
func (s *ownSet) Add(k types.Hashable) error {
	if s.m.Has(k) {
		return nil
	}
	return s.m.Put(k, nil)
}
func (s *ownSet) Delete(k types.Hashable) error { _, err := s.m.Remove(k); return err }
func (s *ownSet) Extend(it types.KIterator) error {
	for k, next := it(); next != nil; k, next = next() {
		if err := s.Add(k); err != nil {
			return err
		}
	}
	return nil
}
func (s *ownSet) Union(o types.Set) (types.Set, error)     { return set.Union(s, o) }
func (s *ownSet) Intersect(o types.Set) (types.Set, error) { return set.Intersect(s, o) }
func (s *ownSet) Subtract(o types.Set) (types.Set, error)  { return set.Subtract(s, o) }
func (s *ownSet) Subset(o types.Set) bool                  { return set.Subset(s, o) }
func (s *ownSet) Superset(o types.Set) bool                { return set.Superset(s, o) }
func (s *ownSet) ProperSubset(o types.Set) bool            { return set.ProperSubset(s, o) }
func (s *ownSet) ProperSuperset(o types.Set) bool          { return set.ProperSuperset(s, o) }

func kIter(ks []types.Hashable) types.KIterator {
	i := -1
	var it types.KIterator
	it = func() (types.Hashable, types.KIterator) {
		if i++; i >= len(ks) {
			return nil, nil
		}
		return ks[i], it
	}
	return it
}

func runForeign(c *Case, t *T) {
	mode := c.cfg("hash")
	key := func(v int64) *K { return &K{V: v, Mode: mode} }
	val := func(h types.Hashable) int64 {
		if e, ok := h.(*types.MapEntry); ok {
			h = e.Key
		}
		return h.(*K).V
	}
	fired, changed := 0, 0
	space := int64(1 + wrapCap(c.cfg("space"), 40))
	arm := func(o Op) *fault {
		f := &fault{what: pick2(o.Z, "", "add", "", "rem", "", "item", "add"), n: 1 + wrapCap(o.Y, 3)}
		if f.what == "item" && o.Op != "get" && o.Op != "item" && o.Op != "rem" {
			// an error of Item also means that there is no such item, so only
			// the operations that need the item have to fail with it
			f.what = ""
		}
		return f
	}
	switch wrapCap(c.cfg("kind"), 3) {
	case 0: // set view of a map
		t.Label("set view")
		m := &ownMap{}
		s := set.NewSetMap(m)
		ref := map[int64]bool{}
		for i, o := range c.Ops {
			t.At(i, o)
			v := int64(wrapCap(o.X, int(space)))
			f := arm(o)
			m.fault = f
			var err error
			var extra []int64
			switch o.Op {
			case "add":
				err = s.Add(key(v))
				if !f.fired {
					ref[v] = true
				}
			case "del":
				err = s.Delete(key(v))
				if !f.fired {
					t.Check((err == nil) == ref[v], "Delete of %d (member %v) gives error %v", v, ref[v], err != nil)
					err = nil
					delete(ref, v)
				}
			case "ext":
				var ks []types.Hashable
				for _, k := range o.Kids {
					w := int64(wrapCap(k.X, int(space)))
					ks, extra = append(ks, key(w)), append(extra, w)
				}
				err = s.Extend(kIter(ks))
				for _, w := range extra {
					if !f.fired || m.Has(key(w)) {
						ref[w] = true
					}
				}
			}
			m.fault = nil
			t.Check((err != nil) == f.fired, "%s: an operation of the map failed: %v, error: %v", o.Op, f.fired, err)
			if f.fired {
				fired++
			} else {
				changed++
			}
			t.Check(s.Size() == len(ref), "%s: Size() = %d, want %d", o.Op, s.Size(), len(ref))
			for w := int64(0); w < space; w++ {
				t.Check(s.Has(key(w)) == ref[w], "after %s: Has(%d) = %v", o.Op, w, !ref[w])
			}
			t.Check(len(collectK(t, "Items", s.Items(), len(ref))) == len(ref), "Items gives the wrong number")
		}
	case 1: // map view of a set
		t.Label("map view")
		s := &ownSet{}
		m := set.NewMapSet(s)
		ref := map[int64]int64{}
		for i, o := range c.Ops {
			t.At(i, o)
			v := int64(wrapCap(o.X, int(space)))
			f := arm(o)
			s.m.fault = f
			old, had := ref[v]
			var err error
			sync := func(w int64) {
				s.m.fault = nil
				delete(ref, w)
				if got, e := m.Get(key(w)); e == nil {
					ref[w] = got.(int64)
				}
			}
			switch o.Op {
			case "add": // an entry for a key that is there is left alone
				err = m.Add(&types.MapEntry{Key: key(v), Value: int64(i)})
				if !f.fired && !had {
					ref[v] = int64(i)
				}
			case "put":
				err = m.Put(key(v), int64(i))
				if f.fired {
					sync(v)
				} else {
					ref[v] = int64(i)
				}
			case "del":
				err = m.Delete(key(v))
				if !f.fired {
					t.Check((err == nil) == had, "Delete of %d (present %v) gives error %v", v, had, err != nil)
					err = nil
					delete(ref, v)
				}
			case "rem", "get", "item":
				var got interface{}
				switch o.Op {
				case "rem":
					got, err = m.Remove(key(v))
				case "get":
					got, err = m.Get(key(v))
				case "item":
					var e types.Hashable
					if e, err = m.Item(key(v)); err == nil {
						got = e.(*types.MapEntry).Value
					}
				}
				if !f.fired {
					t.Check((err == nil) == had, "%s of %d (present %v) gives error %v", o.Op, v, had, err != nil)
					t.Check(!had || got == old, "%s of %d gives %v, want %v", o.Op, v, got, old)
					err = nil
					if o.Op == "rem" {
						delete(ref, v)
					}
				}
			case "ext":
				var ks []types.Hashable
				for j, k := range o.Kids {
					ks = append(ks, &types.MapEntry{Key: key(int64(wrapCap(k.X, int(space)))), Value: int64(1000*i + j)})
				}
				err = m.Extend(kIter(ks))
				for _, k := range ks {
					w := val(k)
					if _, had := ref[w]; had {
						continue
					}
					if f.fired {
						sync(w)
					} else {
						ref[w] = k.(*types.MapEntry).Value.(int64)
					}
				}
			case "bad": // what is not an entry is refused
				s.m.fault = nil
				t.Check(m.Add(key(v)) != nil, "Add of something that is not an entry gives no error")
				t.Check(m.Extend(kIter([]types.Hashable{key(v)})) != nil, "Extend with something that is not an entry gives no error")
			}
			s.m.fault = nil
			t.Check((err != nil) == f.fired, "%s: an operation of the set failed: %v, error: %v", o.Op, f.fired, err)
			if f.fired {
				fired++
			} else {
				changed++
			}
			t.Check(m.Size() == len(ref), "%s: Size() = %d, want %d", o.Op, m.Size(), len(ref))
			for w := int64(0); w < space; w++ {
				want, has := ref[w]
				got, e := m.Get(key(w))
				t.Check(m.Has(key(w)) == has && (e == nil) == has, "after %s: Has(%d) = %v", o.Op, w, !has)
				t.Check(!has || got == want, "after %s: Get(%d) = %v, want %v", o.Op, w, got, want)
			}
		}
	default: // set algebra
		t.Label("set algebra")
		mk := func(k int64) (types.Set, *fault) {
			switch wrapCap(k, 4) {
			case 0:
				return set.NewSortedSet(3), nil
			case 1:
				return set.NewSetMap(&ownMap{}), nil
			case 2:
				return set.NewSetMap(hashtable.NewLinearHash()), nil
			}
			return &ownSet{}, nil
		}
		a, _ := mk(c.cfg("a"))
		b, _ := mk(c.cfg("b"))
		ra, rb := map[int64]bool{}, map[int64]bool{}
		for i, o := range c.Ops {
			t.At(i, o)
			v := int64(wrapCap(o.X, int(space)))
			s, r := a, ra
			if o.Y%2 != 0 {
				s, r = b, rb
			}
			changed++
			if o.Op == "del" || o.Op == "rem" {
				if r[v] {
					t.Check(s.Delete(key(v)) == nil, "Delete of a member fails")
					delete(r, v)
				}
			} else {
				t.Check(s.Add(key(v)) == nil, "Add fails")
				r[v] = true
			}
		}
		t.At(len(c.Ops), Op{Op: "set algebra"})
		want := func(what string, f func(x, y bool) bool, u types.Set, err error) {
			t.Check(err == nil, "%s fails: %v", what, err)
			n := 0
			for w := int64(0); w < space; w++ {
				in := f(ra[w], rb[w])
				if in {
					n++
				}
				t.Check(u.Has(key(w)) == in, "%s: Has(%d) = %v", what, w, !in)
			}
			t.Check(u.Size() == n, "%s: Size() = %d, want %d", what, u.Size(), n)
			for _, k := range collectK(t, what, u.Items(), n) {
				t.Check(f(ra[val(k)], rb[val(k)]), "%s yields %d", what, val(k))
			}
			// the result is a set of its own
			x := key(space + 7)
			t.Check(u.Add(x) == nil, "%s: Add to the result fails", what)
			t.Check(!a.Has(x) && !b.Has(x), "%s: Add to the result changes an operand", what)
		}
		or := func(x, y bool) bool { return x || y }
		and := func(x, y bool) bool { return x && y }
		sub := func(x, y bool) bool { return x && !y }
		u, err := set.Union(a, b)
		want("Union", or, u, err)
		u, err = set.Intersect(a, b)
		want("Intersect", and, u, err)
		u, err = set.Subtract(a, b)
		want("Subtract", sub, u, err)
		u, err = a.Union(b)
		want("Union method", or, u, err)
		u, err = a.Intersect(b)
		want("Intersect method", and, u, err)
		u, err = a.Subtract(b)
		want("Subtract method", sub, u, err)
		in := func(x, y map[int64]bool) bool {
			for w := range x {
				if !y[w] {
					return false
				}
			}
			return true
		}
		t.Check(set.Subset(a, b) == in(ra, rb) && a.Subset(b) == in(ra, rb), "Subset is not %v", in(ra, rb))
		t.Check(set.Superset(a, b) == in(rb, ra) && a.Superset(b) == in(rb, ra), "Superset is not %v", in(rb, ra))
		t.Check(set.ProperSubset(a, b) == (in(ra, rb) && !in(rb, ra)), "ProperSubset is not %v", in(ra, rb) && !in(rb, ra))
		t.Check(set.ProperSuperset(a, b) == (in(rb, ra) && !in(ra, rb)), "ProperSuperset is not %v", in(rb, ra) && !in(ra, rb))
		t.nontriv = len(ra) > 0 && len(rb) > 0
		return
	}
	if fired > 0 {
		t.Label("fault injected")
	}
	t.nontriv = fired > 0 && changed >= 3
}

func pick2(x int64, s ...string) string { return s[wrapCap(x, len(s))] }

func init() {
	register(&Check{
		ID:    "C42",
		Rule:  "Cases drive the set view over a map, the map view over a set, and set algebra, with maps and sets that are written in the harness; in a part of the operations the first, second or third call of one kind to the wrapped collection fails. Contents are compared with a reference after every operation. Non-trivial: a fault was injected and 3 operations went well, or for set algebra both operands have members.",
		Quick: 150000,
		Gen: func(r *R, size int) *Case {
			kind := r.N(3)
			c := &Case{Cfg: map[string]int64{"kind": int64(kind), "hash": int64(r.N(hashModes)), "space": int64(pick(r, 2, 5, 11, 30)), "a": int64(r.N(4)), "b": int64(r.N(4))}}
			for i := 1 + r.N(3+size*40/100); i > 0; i-- {
				o := Op{X: int64(r.N(40)), Y: int64(r.N(6)), Z: int64(r.N(7))}
				switch kind {
				case 0:
					o.Op = pick(r, "add", "add", "del", "ext")
				case 1:
					o.Op = pick(r, "add", "put", "put", "put", "del", "rem", "get", "item", "ext", "bad")
				default:
					o.Op = pick(r, "add", "add", "del")
				}
				if o.Op == "ext" {
					for j := r.N(6); j > 0; j-- {
						o.Kids = append(o.Kids, Op{X: int64(r.N(40))})
					}
				}
				c.Ops = append(c.Ops, o)
			}
			return c
		},
		Run: runForeign,
	})
}
