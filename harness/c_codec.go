package main

import (
	"bytes"
	"fmt"
	"sort"

	"github.com/timtadh/data-structures/linked"
	"github.com/timtadh/data-structures/list"
	"github.com/timtadh/data-structures/set"
	"github.com/timtadh/data-structures/types"
)

// scalarType describes one scalar type of the library.
type scalarType struct {
	name  string
	size  int // of the encoding; -1: any
	mk    func(x int64, b []byte) types.Hashable
	cmp   func(a, b types.Hashable) int
	enc   func(a types.Hashable) ([]byte, error)
	dec   func(data []byte) (types.Hashable, error)
	pairs func() (types.ItemMarshal, types.ItemUnmarshal)
	empty func() types.MHashable
	deref func(h types.Hashable) types.Hashable
}

type integer interface {
	~int8 | ~uint8 | ~int16 | ~uint16 | ~int32 | ~uint32 | ~int64 | ~uint64 | ~int | ~uint
}

type mptr[E any] interface {
	*E
	types.MHashable
}

func intType[E interface {
	integer
	types.Hashable
}, P mptr[E]](name string, size int, pairs func() (types.ItemMarshal, types.ItemUnmarshal)) *scalarType {
	return &scalarType{
		name: name, size: size, pairs: pairs,
		mk: func(x int64, _ []byte) types.Hashable { return E(x) },
		cmp: func(a, b types.Hashable) int {
			x, y := a.(E), b.(E)
			switch {
			case x < y:
				return -1
			case x > y:
				return 1
			}
			return 0
		},
		enc:   func(a types.Hashable) ([]byte, error) { v := a.(E); return P(&v).MarshalBinary() },
		dec:   func(data []byte) (types.Hashable, error) { var v E; err := P(&v).UnmarshalBinary(data); return v, err },
		empty: func() types.MHashable { return P(new(E)) },
		deref: func(h types.Hashable) types.Hashable { return *(h.(P)) },
	}
}

var scalars = []*scalarType{
	intType[types.Int8]("Int8", 1, types.Int8Marshals),
	intType[types.UInt8]("UInt8", 1, types.UInt8Marshals),
	intType[types.Int16]("Int16", 2, types.Int16Marshals),
	intType[types.UInt16]("UInt16", 2, types.UInt16Marshals),
	intType[types.Int32]("Int32", 4, types.Int32Marshals),
	intType[types.UInt32]("UInt32", 4, types.UInt32Marshals),
	intType[types.Int64]("Int64", 8, types.Int64Marshals),
	intType[types.UInt64]("UInt64", 8, types.UInt64Marshals),
	intType[types.Int]("Int", 0, types.IntMarshals),
	intType[types.UInt]("UInt", 0, types.UIntMarshals),
	{
		name: "String", size: -1, pairs: types.StringMarshals,
		mk: func(_ int64, b []byte) types.Hashable { return types.String(b) },
		cmp: func(a, b types.Hashable) int {
			return bytes.Compare([]byte(a.(types.String)), []byte(b.(types.String)))
		},
		enc: func(a types.Hashable) ([]byte, error) { v := a.(types.String); return v.MarshalBinary() },
		dec: func(data []byte) (types.Hashable, error) {
			var v types.String
			err := v.UnmarshalBinary(data)
			return v, err
		},
		empty: func() types.MHashable { return new(types.String) },
		deref: func(h types.Hashable) types.Hashable { return *(h.(*types.String)) },
	},
	{
		name: "ByteSlice", size: -1, pairs: types.ByteSliceMarshals,
		mk: func(_ int64, b []byte) types.Hashable { return types.ByteSlice(append([]byte{}, b...)) },
		cmp: func(a, b types.Hashable) int {
			return bytes.Compare([]byte(a.(types.ByteSlice)), []byte(b.(types.ByteSlice)))
		},
		enc: func(a types.Hashable) ([]byte, error) { v := a.(types.ByteSlice); return v.MarshalBinary() },
		dec: func(data []byte) (types.Hashable, error) {
			var v types.ByteSlice
			err := v.UnmarshalBinary(data)
			return v, err
		},
		empty: func() types.MHashable { return new(types.ByteSlice) },
		deref: func(h types.Hashable) types.Hashable { return *(h.(*types.ByteSlice)) },
	},
}

func scalarAt(x int64) (*scalarType, int) {
	i := wrapCap(x, len(scalars))
	return scalars[i], i
}

func genBytes(r *R) Bytes {
	n := r.Pick(2, 4, 4, 3, 2, 1, 1)
	if r.P(4) {
		n = r.N(300)
	}
	b := make(Bytes, n)
	for i := range b {
		b[i] = pick(r, 'a', 'b', 0, 255, 128, byte(r.N(256)))
	}
	return b
}

// genScalars makes values of few types, many of them equal or close.
func genScalars(r *R, n int) []Op {
	base := r.Int64()
	var bs []Bytes
	for i := 0; i < 3; i++ {
		bs = append(bs, genBytes(r))
	}
	t0, t1 := r.N(len(scalars)), r.N(len(scalars))
	var ops []Op
	for i := 0; i < n; i++ {
		o := Op{Op: "v", X: base, Z: int64(pick(r, t0, t0, t1, r.N(len(scalars))))}
		switch r.Pick(3, 3, 3, 2) {
		case 1:
			o.X = base + int64(r.Range(-2, 2))
		case 2:
			o.X = r.Int64()
		case 3:
			// same value of a narrower type
			o.X = base + int64(pick(r, 1, -1))<<uint(pick(r, 8, 16, 31, 32, 33, 40, 63))
		}
		o.B = bs[r.N(3)]
		switch r.Pick(5, 1, 1, 1) {
		case 1:
			o.B = append(append(Bytes{}, o.B...), pick(r, byte(0), 'a', 255))
		case 2:
			if len(o.B) > 0 {
				o.B = o.B[:len(o.B)-1]
			}
		case 3:
			o.B = genBytes(r)
		}
		o.Y = int64(r.Pick(7, 2, 1)) // plain, map entry, node
		ops = append(ops, o)
	}
	return ops
}

func init() {
	register(&Check{
		ID:    "C17",
		Rule:  "Cases are groups of 2 to 8 scalar values (all integer types, strings, byte slices, map entries and list nodes holding them) biased to equal, adjacent, truncation-related and boundary values; every ordered pair and triple is compared with the natural equality and order of the values. Non-trivial: the group holds two equal values of one type made separately, two unequal values of one type, and two types.",
		Quick: 1000000,
		Gen: func(r *R, size int) *Case {
			return &Case{Ops: genScalars(r, 2+r.N(7))}
		},
		Run: runScalarLaws,
	})
	register(&Check{
		ID:    "C19",
		Rule:  "Cases are groups of 1 to 8 scalar values of all types (boundary biased; strings and byte slices up to 300 arbitrary bytes), each encoded and decoded through its own methods, the type's marshal function pair and the generic pair, plus byte strings of every length 0 to 20 decoded as each fixed-size type. Non-trivial: the group holds a negative, a large (more than 32 bits) or a zero-byte-containing value.",
		Quick: 3500,
		Gen: func(r *R, size int) *Case {
			return &Case{Cfg: map[string]int64{"fill": int64(r.N(256))}, Ops: genScalars(r, 1+r.N(8))}
		},
		Run: runScalarCodec,
	})
	register(&Check{
		ID:    "C16",
		Rule:  "Cases are groups of 2 to 6 item sequences related to each other (equal, prefix, one item changed, swapped, empty), each put in two of the container kinds; all ordered pairs are compared and hashed and checked against the sequences, and all triples for transitivity. Non-trivial: the group holds two different containers kinds with equal contents and two containers of equal size with different contents.",
		Quick: 300000,
		Gen:   genContainers,
		Run:   runContainerLaws,
	})
	register(&Check{
		ID:    "C18",
		Rule:  "Cases are lists, sorted lists and sorted sets (fixed or growing, with or without duplicates) of up to 40 items of any scalar type, built by generated histories, encoded, decoded into an empty container or one that holds up to 50 other items, compared, then both driven by the same further operations; every truncation of the bytes (all when at most 300, else 300 of them) is decoded, and a failing item encoder or decoder is injected. Non-trivial: at least 2 items and at least one further operation.",
		Quick: 12000,
		Gen: func(r *R, size int) *Case {
			c := &Case{Cfg: map[string]int64{"kind": int64(r.N(3)), "dups": int64(r.N(2)), "fixed": int64(r.N(2)), "spare": int64(r.N(5)), "type": int64(r.N(len(scalars))), "fault": int64(r.N(12)), "used": int64(pick(r, 0, 0, 0, 1, 2, 5, 20, 50)), "usedfixed": int64(r.N(2))}}
			n := r.N(2 + size*40/100)
			c.Ops = genScalars(r, n)
			for i := range c.Ops {
				c.Ops[i].Op = pick(r, "add", "add", "add", "add", "del")
			}
			for _, o := range genScalars(r, r.N(10)) {
				o.Op = pick(r, "more", "more", "less", "less")
				c.Ops = append(c.Ops, o)
			}
			// items that collide with earlier ones
			for i := range c.Ops {
				if r.P(30) {
					k := r.N(i + 1)
					c.Ops[i].X, c.Ops[i].B = c.Ops[k].X, c.Ops[k].B
				}
			}
			return c
		},
		Run: runContainerCodec,
	})
}

func sgn(x int) int {
	switch {
	case x < 0:
		return -1
	case x > 0:
		return 1
	}
	return 0
}

func runScalarLaws(c *Case, t *T) {
	type val struct {
		st   *scalarType
		kind int
		wrap int
		raw  types.Hashable
		h    types.Hashable
	}
	mk := func(o Op) val {
		st, k := scalarAt(o.Z)
		raw := st.mk(o.X, o.B)
		v := val{st: st, kind: k, wrap: wrapCap(o.Y, 3), raw: raw, h: raw}
		switch v.wrap {
		case 1:
			v.h = &types.MapEntry{Key: raw, Value: o.X ^ 5}
		case 2:
			v.h = &linked.Node{Data: raw}
		}
		return v
	}
	var vs []val
	for _, o := range c.Ops {
		vs = append(vs, mk(o))
	}
	eq, ne, kinds := false, false, false
	for i, a := range vs {
		t.At(i, c.Ops[i])
		again := mk(c.Ops[i])
		t.Check(a.h.Hash() == again.h.Hash(), "hash of %s %v is %d and %d", a.st.name, a.h, a.h.Hash(), again.h.Hash())
		t.Check(a.h.Equals(again.h) && a.h.Equals(a.h), "%s %v is not equal to itself", a.st.name, a.h)
		for j, b := range vs {
			ge := a.h.Equals(b.h)
			gl := a.h.Less(b.h)
			if a.wrap != b.wrap {
				// Wrappers compare by what they hold also against the bare value;
				// what else happens between wrappers is not part of the property,
				// except that it must not fail.
				if a.wrap != 0 && b.wrap == 0 {
					t.Check(ge == a.raw.Equals(b.raw), "%T of %v equals %v: %v", a.h, a.raw, b.raw, ge)
					t.Check(gl == a.raw.Less(b.raw), "%T of %v less than %v: %v", a.h, a.raw, b.raw, gl)
				}
				continue
			}
			if a.kind != b.kind {
				kinds = true
				t.Check(!ge, "%s %v equals %s %v", a.st.name, a.raw, b.st.name, b.raw)
				t.Check(!gl, "%s %v less than %s %v", a.st.name, a.raw, b.st.name, b.raw)
				continue
			}
			cmp := a.st.cmp(a.raw, b.raw)
			if i != j {
				if cmp == 0 {
					eq = true
				} else {
					ne = true
				}
			}
			t.Check(ge == (cmp == 0), "%s: %v equals %v: %v", a.st.name, a.raw, b.raw, ge)
			t.Check(gl == (cmp < 0), "%s: %v less than %v: %v", a.st.name, a.raw, b.raw, gl)
			if cmp == 0 {
				t.Check(a.h.Hash() == b.h.Hash(), "%s: equal values %v, %v hash to %d, %d", a.st.name, a.raw, b.raw, a.h.Hash(), b.h.Hash())
			}
		}
	}
	t.nontriv = eq && ne && kinds
}

func runScalarCodec(c *Case, t *T) {
	type encd struct {
		kind int
		h    types.Hashable
		data string
	}
	var all []encd
	for i, o := range c.Ops {
		t.At(i, o)
		st, k := scalarAt(o.Z)
		v := st.mk(o.X, o.B)
		keep := st.mk(o.X, o.B)
		pm, pu := st.pairs()
		gm, gu := types.MakeMarshals(st.empty)
		// another value decoded by the same decoder must leave the first alone
		next, err := st.enc(st.mk(o.X+1, append(Bytes{'n'}, o.B...)))
		t.Check(err == nil, "MarshalBinary of %s gave error %v", st.name, err)
		ways := []struct {
			name string
			enc  func() ([]byte, error)
			dec  func([]byte) (types.Hashable, error)
		}{
			{"MarshalBinary", func() ([]byte, error) { return st.enc(v) }, st.dec},
			{"marshal pair", func() ([]byte, error) { return pm(v) }, pu},
			{"generic marshal pair", func() ([]byte, error) {
				e := st.empty()
				d, err := st.enc(v)
				if err != nil {
					return nil, err
				}
				if err := e.UnmarshalBinary(append([]byte{}, d...)); err != nil {
					return nil, err
				}
				return gm(e)
			}, func(d []byte) (types.Hashable, error) {
				h, err := gu(d)
				if err != nil {
					return nil, err
				}
				_, err = gu(append([]byte{}, next...))
				return st.deref(h), err
			}},
		}
		for _, w := range ways {
			data, err := w.enc()
			t.Check(err == nil, "%s of %s %v gave error %v", w.name, st.name, v, err)
			t.Check(st.cmp(v, keep) == 0, "%s changed %s %v", w.name, st.name, keep)
			buf := append([]byte{}, data...)
			got, err := w.dec(buf)
			t.Check(err == nil, "decoding %s %v from %v by %s gave error %v", st.name, v, data, w.name, err)
			t.Check(fmt.Sprintf("%T", got) == fmt.Sprintf("%T", v), "%s decodes %s to a %T", w.name, st.name, got)
			for j := range buf {
				buf[j] ^= 0xa5
			}
			_, err = w.dec(append([]byte{}, next...))
			t.Check(err == nil, "decoding a second %s by %s gave error %v", st.name, w.name, err)
			t.Check(st.cmp(got, v) == 0, "%s: %s %v decodes to %v (encoding %v)", w.name, st.name, v, got, data)
			for _, e := range all {
				if e.kind == k && e.data == string(data) {
					t.Check(st.cmp(e.h, v) == 0, "%s: %v and %v have the same encoding %v", st.name, e.h, v, data)
				}
			}
			all = append(all, encd{k, v, string(data)})
			if st.size < 0 {
				continue
			}
			// every other length must be refused
			for n := 0; n <= 20; n++ {
				if n == len(data) {
					continue
				}
				wrong := bytes.Repeat([]byte{byte(c.cfg("fill"))}, n)
				copy(wrong, data)
				got, err := w.dec(wrong)
				t.Check(err != nil, "%s: %d bytes decode as %s to %v; its encoding has %d", w.name, n, st.name, got, len(data))
			}
		}
		if o.X < 0 || o.X>>32 != 0 || bytes.IndexByte(o.B, 0) >= 0 {
			t.nontriv = true
		}
		t.Label(st.name)
	}
}

// container kinds of C16
const nContainers = 7

type container interface {
	types.Hashable
	types.IterableContainer
}

// makeContainer builds a container of a kind from items and returns the
// sequence it must hold.
func makeContainer(t *T, kind int, items []*K) (container, []int64, string) {
	var vals []int64
	for _, x := range items {
		vals = append(vals, x.V)
	}
	sorted := append([]int64(nil), vals...)
	sort.Slice(sorted, func(i, j int) bool { return sorted[i] < sorted[j] })
	uniq := func(in []int64) (out []int64) {
		seen := map[int64]bool{}
		for _, v := range in {
			if !seen[v] {
				seen[v] = true
				out = append(out, v)
			}
		}
		return
	}
	noErr := func(err error) { t.Check(err == nil, "building a container gave error %v", err) }
	switch kind {
	case 1:
		s := list.NewSorted(2, true)
		for _, x := range items {
			noErr(s.Add(x))
		}
		return s, sorted, "sorted list"
	case 2:
		l := linked.New()
		for _, x := range items {
			noErr(l.EnqueBack(x))
		}
		return l, vals, "linked list"
	case 3:
		l := linked.NewUniqueDeque()
		for _, x := range items {
			noErr(l.EnqueBack(x))
		}
		return l, uniq(vals), "unique deque"
	case 4:
		s := set.NewSortedSet(1)
		for _, x := range items {
			noErr(s.Add(x))
		}
		return s, uniq(sorted), "sorted set"
	case 5:
		l := list.Fixed(len(items) + 2)
		for _, x := range items {
			noErr(l.Append(x))
		}
		return l, vals, "fixed list"
	case 6:
		l := list.New(0)
		for _, x := range items {
			noErr(l.Append(x))
		}
		return list.NewMList(l, nil, nil), vals, "marshalable list"
	}
	l := list.New(1)
	for _, x := range items {
		noErr(l.Append(x))
	}
	return l, vals, "list"
}

func genContainers(r *R, size int) *Case {
	c := &Case{Cfg: map[string]int64{"hash": int64(r.N(hashModes))}}
	space := pick(r, 2, 3, 5, 10)
	gen := func() []Op {
		n := r.N(6)
		if r.P(10) {
			n = r.N(30)
		}
		var k []Op
		for i := 0; i < n; i++ {
			k = append(k, Op{Op: "i", X: int64(r.N(space))})
		}
		return k
	}
	base := gen()
	sort.Slice(base, func(i, j int) bool { return base[i].X < base[j].X })
	if r.P(30) {
		base = gen()
	}
	n := 2 + r.N(5)
	for i := 0; i < n; i++ {
		k := cloneOps(base)
		switch r.Pick(4, 2, 2, 2, 1, 2) {
		case 1:
			if len(k) > 0 {
				k = k[:len(k)-1]
			}
		case 2:
			if len(k) > 0 {
				k[r.N(len(k))].X += int64(pick(r, 1, -1))
			}
		case 3:
			if len(k) > 1 {
				a, b := r.N(len(k)), r.N(len(k))
				k[a], k[b] = k[b], k[a]
			}
		case 4:
			k = nil
		case 5:
			k = gen()
		}
		c.Ops = append(c.Ops, Op{Op: "seq", X: int64(r.N(nContainers)), Y: int64(r.N(nContainers)), Kids: k})
	}
	return c
}

func cmpSeq(a, b []int64) int {
	if len(a) != len(b) {
		return sgn(len(a) - len(b))
	}
	for i := range a {
		if a[i] != b[i] {
			if a[i] < b[i] {
				return -1
			}
			return 1
		}
	}
	return 0
}

func runContainerLaws(c *Case, t *T) {
	type cont struct {
		c    container
		seq  []int64
		name string
	}
	var cs []cont
	for i, o := range c.Ops {
		t.At(i, o)
		for _, kind := range []int64{o.X, o.Y} {
			var items []*K
			for _, k := range o.Kids {
				items = append(items, &K{V: k.X, Mode: c.cfg("hash"), Tag: int64(len(cs))})
			}
			x, seq, name := makeContainer(t, wrapCap(kind, nContainers), items)
			cs = append(cs, cont{x, seq, name})
		}
	}
	contents := func(x cont) []int64 {
		var out []int64
		for _, k := range collectK(t, x.name+" Items", x.c.Items(), len(x.seq)) {
			out = append(out, k.(*K).V)
		}
		return out
	}
	eqKinds, sameSize := false, false
	// wrap makes a container with this one as its only item
	wrap := func(i int) container {
		var o interface {
			container
			Push(types.Hashable) error
		} = linked.New()
		if i%2 == 0 {
			o = list.New(0)
		}
		t.Check(o.Push(cs[i].c.(types.Hashable)) == nil, "Push of a container failed")
		return o
	}
	for i, a := range cs {
		t.At(i/2, c.Ops[i/2])
		t.Check(!a.c.Less(types.Int(7)), "%s %v is less than the number 7", a.name, a.seq)
		t.Check(!a.c.Equals(types.Int(7)), "%s %v equals the number 7", a.name, a.seq)
		t.Check(a.c.Hash() == a.c.Hash(), "%s %v has no stable hash", a.name, a.seq)
		for j, b := range cs {
			want := cmpSeq(a.seq, b.seq)
			ge, gl := a.c.Equals(b.c), a.c.Less(b.c)
			t.Check(ge == (want == 0), "%s %v equals %s %v: %v", a.name, a.seq, b.name, b.seq, ge)
			t.Check(gl == (want < 0), "%s %v less than %s %v: %v", a.name, a.seq, b.name, b.seq, gl)
			if i < 6 && j < 6 {
				x, y := wrap(i), wrap(j)
				t.Check(x.Equals(y) == (want == 0), "containers of just %s %v and just %s %v are equal: %v", a.name, a.seq, b.name, b.seq, want != 0)
				t.Check(x.Less(y) == (want < 0), "a container of just %s %v is less than one of just %s %v: %v", a.name, a.seq, b.name, b.seq, want >= 0)
				t.Check(want != 0 || x.Hash() == y.Hash(), "equal containers of just %s %v and just %s %v have hashes %d and %d", a.name, a.seq, b.name, b.seq, x.Hash(), y.Hash())
			}
			if want == 0 {
				t.Check(a.c.Hash() == b.c.Hash(), "%s %v and %s %v are equal with hashes %d and %d", a.name, a.seq, b.name, b.seq, a.c.Hash(), b.c.Hash())
				if i != j && a.name != b.name {
					eqKinds = true
				}
			} else if len(a.seq) == len(b.seq) {
				sameSize = true
			}
		}
	}
	for _, a := range cs {
		t.Check(cmpSeq(contents(a), a.seq) == 0 && a.c.Size() == len(a.seq), "%s %v has changed to %v by being compared", a.name, a.seq, contents(a))
	}
	t.nontriv = eqKinds && sameSize
	for _, a := range cs {
		t.Label(a.name)
		if len(a.seq) == 0 {
			t.Label("empty")
		}
	}
}

func runContainerCodec(c *Case, t *T) {
	st, _ := scalarAt(c.cfg("type"))
	marshal, unmarshal := st.pairs()
	kind := wrapCap(c.cfg("kind"), 3)
	dups := c.cfg("dups")%2 != 0
	fixed := c.cfg("fixed")%2 != 0 && kind != 2
	nadd := 0
	for _, o := range c.Ops {
		if o.Op == "add" {
			nadd++
		}
	}
	capa := nadd + wrapCap(c.cfg("spare"), 5)

	type box struct {
		add   func(types.Hashable) error
		del   func(types.Hashable) error
		like  func() listLike
		eq    func(other types.Equatable) bool
		self  func() types.Hashable
		enc   func() ([]byte, error)
		fresh func(types.ItemUnmarshal) (func([]byte) error, func() *box)
	}
	// what is decoded into may be empty or hold other items already
	used := wrapCap(c.cfg("used"), 60)
	usedFixed := used > 0 && c.cfg("usedfixed")%2 != 0
	var olds []listLike
	remember := func(l listLike, add func(types.Hashable) error) {
		for i := 0; i < used; i++ {
			err := add(st.mk(int64(i), Bytes{byte(i)}))
			t.Check(err == nil, "building the container to decode into gave error %v", err)
		}
		if used > 0 && len(olds) < 2 {
			olds = append(olds, l)
		}
	}
	var listBox func(l *list.List, m types.ItemMarshal) *box
	var sortedBox func(s *list.Sorted, m types.ItemMarshal) *box
	var setBox func(s *set.SortedSet, m types.ItemMarshal) *box
	listBox = func(l *list.List, m types.ItemMarshal) *box {
		return &box{
			add: l.Append,
			del: func(h types.Hashable) error {
				for i := 0; i < l.Size(); i++ {
					if x, err := l.Get(i); err == nil && x.Equals(h) {
						return l.Remove(i)
					}
				}
				return fmt.Errorf("absent")
			},
			like: func() listLike { return l },
			self: func() types.Hashable { return l },
			enc:  func() ([]byte, error) { return list.NewMList(l, m, unmarshal).MarshalBinary() },
			fresh: func(u types.ItemUnmarshal) (func([]byte) error, func() *box) {
				old := list.New(0)
				if usedFixed {
					old = list.Fixed(used)
				}
				remember(old, old.Append)
				x := list.NewMList(old, m, u)
				return x.UnmarshalBinary, func() *box { return listBox(&x.List, m) }
			},
		}
	}
	sortedBox = func(s *list.Sorted, m types.ItemMarshal) *box {
		return &box{
			add: s.Add, del: s.Delete,
			like: func() listLike { return s },
			self: func() types.Hashable { return s },
			enc:  func() ([]byte, error) { return list.NewMSorted(s, m, unmarshal).MarshalBinary() },
			fresh: func(u types.ItemUnmarshal) (func([]byte) error, func() *box) {
				old := list.NewSorted(0, c.cfg("spare")%2 == 0)
				if usedFixed {
					old = list.NewFixedSorted(used, c.cfg("spare")%2 == 0)
				}
				remember(old, old.Add)
				x := list.NewMSorted(old, m, u)
				return x.UnmarshalBinary, func() *box { return sortedBox(x.Sorted(), m) }
			},
		}
	}
	setBox = func(s *set.SortedSet, m types.ItemMarshal) *box {
		return &box{
			add: s.Add, del: s.Delete,
			like: func() listLike { return s },
			self: func() types.Hashable { return s },
			enc:  func() ([]byte, error) { return set.NewMSortedSet(s, m, unmarshal).MarshalBinary() },
			fresh: func(u types.ItemUnmarshal) (func([]byte) error, func() *box) {
				old := set.NewSortedSet(0)
				remember(old, old.Add)
				x := set.NewMSortedSet(old, m, u)
				return x.UnmarshalBinary, func() *box { return setBox(x.SortedSet(), m) }
			},
		}
	}
	build := func(m types.ItemMarshal) *box {
		var b *box
		switch {
		case kind == 0 && fixed:
			b = listBox(list.Fixed(capa), m)
		case kind == 0:
			b = listBox(list.New(1), m)
		case kind == 1 && fixed:
			b = sortedBox(list.NewFixedSorted(capa, dups), m)
		case kind == 1:
			b = sortedBox(list.NewSorted(1, dups), m)
		default:
			b = setBox(set.NewSortedSet(1), m)
		}
		for i, o := range c.Ops {
			t.At(i, o)
			switch o.Op {
			case "add":
				err := b.add(st.mk(o.X, o.B))
				t.Check(err == nil, "building the container gave error %v", err)
			case "del":
				b.del(st.mk(o.X, o.B))
			}
		}
		return b
	}
	a := build(marshal)
	t.step = -1
	n := a.like().Size()
	data, err := a.enc()
	t.Check(err == nil, "encoding gave error %v", err)
	orig := collectK(t, "Items", a.like().Items(), n)
	sameItems := func(x, y []types.Hashable) bool {
		if len(x) != len(y) {
			return false
		}
		for i := range x {
			if fmt.Sprintf("%T", x[i]) != fmt.Sprintf("%T", y[i]) || st.cmp(x[i], y[i]) != 0 {
				return false
			}
		}
		return true
	}

	decode, boxOf := a.fresh(unmarshal)
	before := make([][]types.Hashable, len(olds))
	for i, l := range olds {
		before[i] = collectK(t, "Items", l.Items(), used)
	}
	buf := append([]byte{}, data...)
	err = decode(buf)
	t.Check(err == nil, "decoding %v gave error %v", data, err)
	for i := range buf {
		buf[i] ^= 0x5a
	}
	b := boxOf()
	got := collectK(t, "Items", b.like().Items(), n)
	t.Check(sameItems(orig, got), "%v decodes to %v", orig, got)
	for i, l := range olds {
		now := collectK(t, "Items", l.Items(), used)
		t.Check(sameItems(before[i], now), "the container made into the one to decode into held %v and holds %v after decoding", before[i], now)
	}
	t.Check(a.self().Equals(b.self()) && b.self().Equals(a.self()), "%v and its decoded form are not equal", orig)
	t.Check(b.like().Full() == a.like().Full(), "Full() is %v for the original and %v for the decoded container", a.like().Full(), b.like().Full())
	again, err := b.enc()
	t.Check(err == nil, "encoding the decoded container gave error %v", err)
	decode, boxOf2 := a.fresh(unmarshal)
	err = decode(again)
	t.Check(err == nil && boxOf2().self().Equals(a.self()), "%v encoded and decoded twice gives %v, error %v", orig, boxOf2().self(), err)

	// truncation
	step := 1 + len(data)/300
	for k := 0; k < len(data); k += step {
		d, _ := a.fresh(unmarshal)
		if err := d(append([]byte{}, data[:k]...)); err == nil {
			t.Fail("the first %d of %d encoded bytes decode without error", k, len(data))
		}
	}

	// both behave alike from here on
	more := 0
	for i, o := range c.Ops {
		t.At(i, o)
		h := st.mk(o.X, o.B)
		var ea, eb error
		switch o.Op {
		case "more":
			ea, eb = a.add(h), b.add(h)
		case "less":
			ea, eb = a.del(h), b.del(h)
		default:
			continue
		}
		more++
		t.Check((ea == nil) == (eb == nil), "original: error %v, decoded container: error %v", ea, eb)
		x := collectK(t, "Items", a.like().Items(), n+len(c.Ops))
		y := collectK(t, "Items", b.like().Items(), n+len(c.Ops))
		t.Check(sameItems(x, y), "the original now holds %v and the decoded container %v", x, y)
		t.Check(b.like().Full() == a.like().Full(), "Full() is %v for the original and %v for the decoded container", a.like().Full(), b.like().Full())
	}
	for k := 0; k <= 5 && fixed; k++ {
		t.At(len(c.Ops), Op{Op: "filling", X: int64(k)})
		h := st.mk(int64(k)*17+1, Bytes{200, byte(k)})
		ea, eb := a.add(h), b.add(h)
		t.Check((ea == nil) == (eb == nil), "original: error %v, decoded container: error %v", ea, eb)
	}
	t.step = -1

	// a failing item encoder or decoder is reported
	if f := int(c.cfg("fault")); f >= 0 && f < n {
		calls := 0
		fa := build(func(h types.Hashable) ([]byte, error) {
			if calls++; calls == f+1 {
				return nil, fmt.Errorf("item fault")
			}
			return marshal(h)
		})
		t.step = -1
		_, err := fa.enc()
		t.Check(err != nil, "encoding gave no error when encoding item %d failed", f)
		calls = 0
		d, _ := a.fresh(func(data []byte) (types.Hashable, error) {
			if calls++; calls == f+1 {
				return nil, fmt.Errorf("item fault")
			}
			return unmarshal(data)
		})
		t.Check(d(append([]byte{}, data...)) != nil, "decoding gave no error when decoding item %d failed", f)
		t.Label("item-fault")
	}
	t.nontriv = n >= 2 && more > 0
	if used > 0 {
		t.Label("decoded-into-used")
	}
	t.Label([]string{"list", "sorted", "set"}[kind])
	t.Label(st.name)
	if fixed {
		t.Label("fixed")
	}
}
