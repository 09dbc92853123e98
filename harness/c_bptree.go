package main

import (
	"sort"

	"github.com/timtadh/data-structures/tree/bptree"
	"github.com/timtadh/data-structures/types"
)

// multi compares a B+ tree with a reference multimap of number to numbers.
type multi struct {
	t    *T
	m    *bptree.BpTree
	km   *keyMaker
	ref  map[int64][]int64
	n    int
	runs bool // some run was longer than a leaf
	part int  // removals that took some but not all pairs of a key
	miss int
}

func (d *multi) pred(y int64) (func(int64) bool, types.WhereFunc) {
	k := ((y % 7) + 7) % 7
	f := func(v int64) bool {
		switch k {
		case 0:
			return true
		case 1:
			return v%2 == 0
		case 2:
			return v%3 == 0
		case 3:
			return false
		case 4:
			return v%2 != 0
		case 5:
			return v == y/7
		}
		return v%5 != 0
	}
	return f, func(v interface{}) bool {
		x, ok := v.(int64)
		d.t.Check(ok, "predicate was called with %v (%T), which is not a stored value", v, v)
		return f(x)
	}
}

func (d *multi) vals(what string, k int64, it types.KVIterator) []int64 {
	ks, vs := collectKV(d.t, what, it, d.n)
	var out []int64
	for i, h := range ks {
		x, err := d.km.val(h)
		d.t.Check(err == nil && x == k, "%s(%d) yields an entry of key %v", what, k, h)
		v, ok := vs[i].(int64)
		d.t.Check(ok, "%s(%d) yields value %v", what, k, vs[i])
		out = append(out, v)
	}
	return out
}

func sameMulti(a, b []int64) bool {
	if len(a) != len(b) {
		return false
	}
	a = append([]int64(nil), a...)
	b = append([]int64(nil), b...)
	sort.Slice(a, func(i, j int) bool { return a[i] < a[j] })
	sort.Slice(b, func(i, j int) bool { return b[i] < b[j] })
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (d *multi) key(k int64) {
	t := d.t
	want := d.ref[k]
	h := d.km.mk(k)
	c := d.m.Count(h)
	t.Check(c == len(want), "Count(%d) = %d, want %d", k, c, len(want))
	t.Check(d.m.Has(h) == (len(want) > 0), "Has(%d) = %v, want %v", k, d.m.Has(h), len(want) > 0)
	got := d.vals("Find", k, d.m.Find(h))
	t.Check(sameMulti(got, want), "Find(%d) yields values %v, want %v in some order", k, got, want)
}

func (d *multi) size() {
	d.t.Check(d.m.Size() == d.n, "Size() = %d, want %d", d.m.Size(), d.n)
}

func (d *multi) apply(o Op) {
	t := d.t
	h := d.km.mk(o.X)
	switch o.Op {
	case "add":
		err := d.m.Add(h, o.Y)
		t.Check(err == nil, "Add(%d) gave error %v", o.X, err)
		d.ref[o.X] = append(d.ref[o.X], o.Y)
		d.n++
		d.size()
	case "key":
		d.key(o.X)
	case "rep":
		f, w := d.pred(o.Y)
		err := d.m.Replace(h, w, o.Z)
		t.Check(err == nil, "Replace(%d) gave error %v", o.X, err)
		for i, v := range d.ref[o.X] {
			if f(v) {
				d.ref[o.X][i] = o.Z
			}
		}
		d.size()
	case "rem":
		f, w := d.pred(o.Y)
		err := d.m.RemoveWhere(h, w)
		t.Check(err == nil, "RemoveWhere(%d) gave error %v", o.X, err)
		var keep []int64
		old := len(d.ref[o.X])
		for _, v := range d.ref[o.X] {
			if !f(v) {
				keep = append(keep, v)
			}
		}
		if old == 0 {
			d.miss++
		} else if len(keep) > 0 && len(keep) < old {
			d.part++
		}
		d.n -= old - len(keep)
		d.ref[o.X] = keep
		if len(keep) == 0 {
			delete(d.ref, o.X)
		}
		d.size()
	case "all":
		d.full()
	case "range":
		d.rng(o.X, o.Y)
	}
}

// seq checks that a scan yields exactly the pairs of the given keys, in the given key order.
func (d *multi) seq(what string, it types.KVIterator, keys []int64) (order []int64, vals []interface{}) {
	t := d.t
	total := 0
	for _, k := range keys {
		total += len(d.ref[k])
	}
	ks, vs := collectKV(t, what, it, total)
	t.Check(len(ks) == total, "%s yields %d entries, want %d", what, len(ks), total)
	at := 0
	for _, k := range keys {
		var got []int64
		for range d.ref[k] {
			x, err := d.km.val(ks[at])
			t.Check(err == nil && x == k, "%s yields key %v at position %d, want %d", what, ks[at], at, k)
			v, ok := vs[at].(int64)
			t.Check(ok, "%s yields value %v for key %d", what, vs[at], k)
			got = append(got, v)
			order = append(order, x)
			at++
		}
		t.Check(sameMulti(got, d.ref[k]), "%s yields values %v for key %d, want %v in some order", what, got, k, d.ref[k])
	}
	return order, vs
}

func reverse(x []int64) []int64 {
	out := make([]int64, len(x))
	for i, v := range x {
		out[len(x)-1-i] = v
	}
	return out
}

func (d *multi) full() {
	t := d.t
	d.size()
	keys := sortedKeys(d.ref)
	order, vals := d.seq("Iterate", d.m.Iterate(), keys)
	_, back := d.seq("Backward", d.m.Backward(), reverse(keys))
	for i := range back {
		t.Check(back[i] == vals[len(vals)-1-i], "Backward yields value %v at position %d, but Iterate %v from the end", back[i], i, vals[len(vals)-1-i])
	}
	vs := collectV(t, "Values", d.m.Values(), d.n)
	t.Check(len(vs) == d.n, "Values yields %d values, want %d", len(vs), d.n)
	for i := range vs {
		t.Check(vs[i] == vals[i], "Values yields %v at position %d, Iterate %v", vs[i], i, vals[i])
	}
	its := collectK(t, "Items", d.m.Items(), d.n)
	t.Check(len(its) == d.n, "Items yields %d items, want %d", len(its), d.n)
	for i := range its {
		me, ok := its[i].(*types.MapEntry)
		t.Check(ok, "Items yields a %T", its[i])
		x, err := d.km.val(me.Key)
		t.Check(err == nil && x == order[i] && me.Value == vals[i], "Items yields (%v,%v) at position %d, Iterate (%v,%v)", me.Key, me.Value, i, order[i], vals[i])
	}
	ks := collectK(t, "Keys", d.m.Keys(), len(keys))
	t.Check(len(ks) == len(keys), "Keys yields %d keys, want the %d distinct keys", len(ks), len(keys))
	for i, h := range ks {
		x, err := d.km.val(h)
		t.Check(err == nil && x == keys[i], "Keys yields %v at position %d, want %d", h, i, keys[i])
	}
}

func (d *multi) rng(a, b int64) {
	var in []int64
	for _, k := range sortedKeys(d.ref) {
		if (a <= k && k <= b) || (b <= k && k <= a) {
			in = append(in, k)
		}
	}
	if a > b {
		in = reverse(in)
	}
	_, vs := d.seq("Range", d.m.Range(d.km.mk(a), d.km.mk(b)), in)
	// entries of one key come in the order of Find, backwards if the range is
	if len(vs) > len(in) && len(vs) <= 120 {
		at := 0
		for _, k := range in {
			find := d.vals("Find", k, d.m.Find(d.km.mk(k)))
			if a > b {
				find = reverse(find)
			}
			for _, v := range find {
				d.t.Check(at < len(vs), "Find yields more values for key %d than Range(%d, %d)", k, a, b)
				d.t.Check(vs[at] == v, "Range(%d, %d) yields value %v for key %d where Find gives %d", a, b, vs[at], k, v)
				at++
			}
		}
		d.t.Label("range-duplicates")
	}
	if len(in) > 0 {
		d.t.Label("range-nonempty")
	}
	if len(d.ref[a]) == 0 {
		d.t.Label("range-from-absent")
	}
}

func genMulti(r *R, size, maxOps int, ranges bool) []Op {
	n := 1 + size*maxOps/100
	if r.P(30) {
		n = 1 + r.N(14)
	}
	space := pick(r, 1, 2, 3, 4, 6, 10, 30, 100)
	var ops []Op
	key := func() int64 { return 2 * int64(r.N(space)) }
	hot := key()
	val := func() int64 { return int64(r.N(40)) }
	for len(ops) < n {
		m := 1 + r.N(n/2+2)
		phase := r.Pick(5, 3, 2)
		stride := r.Pick(3, 1, 1)
		hot = key()
		for i := 0; i < m && len(ops) < n; i++ {
			k := key()
			switch stride {
			case 1:
				k = 2 * (int64(i) % int64(space))
			case 2:
				k = 2 * (int64(space) - 1 - int64(i)%int64(space))
			}
			if r.P(30) {
				k = hot
			}
			any := k
			if r.P(20) {
				any = k + int64(pick(r, -1, 1))
			}
			switch phase {
			case 0:
				if r.P(85) {
					ops = append(ops, Op{Op: "add", X: k, Y: val()})
					continue
				}
			case 1:
				if r.P(60) {
					ops = append(ops, Op{Op: "rem", X: any, Y: int64(r.N(7 * 40))})
					continue
				}
			}
			switch r.Pick(3, 3, 2, 2, 1) {
			case 0:
				ops = append(ops, Op{Op: "add", X: k, Y: val()})
			case 1:
				ops = append(ops, Op{Op: "rem", X: any, Y: int64(r.N(7 * 40))})
			case 2:
				ops = append(ops, Op{Op: "rep", X: any, Y: int64(r.N(7 * 40)), Z: val()})
			case 3:
				ops = append(ops, Op{Op: "key", X: any})
			case 4:
				ops = append(ops, Op{Op: "all"})
			}
		}
		if ranges {
			for i := 0; i < 3; i++ {
				ops = append(ops, Op{Op: "range", X: int64(r.N(2*space+4)) - 2, Y: int64(r.N(2*space+4)) - 2})
			}
		}
	}
	return ops
}

func runMulti(c *Case, t *T) *multi {
	ns := nodeSize(c.cfg("size"))
	d := &multi{t: t, m: bptree.NewBpTree(ns), km: newKeyMaker(c.cfg("kind"), c.cfg("hash")), ref: map[int64][]int64{}}
	// keep keys in the domain of every key type
	ops := cloneOps(c.Ops)
	for i := range ops {
		ops[i].X %= 1000000
		if ops[i].Op == "range" {
			ops[i].Y %= 1000000
		}
		if d.km.kind == kindInt8 {
			ops[i].X %= 100
			if ops[i].Op == "range" {
				ops[i].Y %= 100
			}
		}
	}
	for i, o := range ops {
		t.At(i, o)
		d.apply(o)
		if len(d.ref[o.X]) > ns {
			d.runs = true
		}
	}
	t.At(len(ops), Op{Op: "final comparison"})
	d.full()
	for k := range d.ref {
		d.key(k)
		d.key(k + 1)
	}
	if d.runs {
		t.Label("run-longer-than-leaf")
	}
	if d.part > 0 {
		t.Label("partial-removal")
	}
	if d.n == 0 {
		t.Label("empty-at-end")
	}
	if len(d.ref) > ns {
		t.Label("several-leaves")
	}
	return d
}

func fixedMulti(ranges bool) []*Case {
	var out []*Case
	alphabet := []Op{{Op: "add", X: 0, Y: 1}, {Op: "add", X: 0, Y: 2}, {Op: "add", X: 2, Y: 3}, {Op: "add", X: -2, Y: 4}, {Op: "rem", X: 0, Y: 0}, {Op: "rem", X: 0, Y: 1}, {Op: "rem", X: 1, Y: 0}}
	if ranges {
		alphabet = append(alphabet[:4:4], Op{Op: "rem", X: 0, Y: 1})
	}
	var rec func(ops []Op)
	rec = func(ops []Op) {
		for s := int64(0); s < 2; s++ {
			all := cloneOps(ops)
			if ranges {
				for a := int64(-3); a <= 3; a++ {
					for b := int64(-3); b <= 3; b++ {
						all = append(all, Op{Op: "range", X: a, Y: b})
					}
				}
			}
			out = append(out, &Case{Cfg: map[string]int64{"size": s}, Ops: all})
		}
		if len(ops) == 4 {
			return
		}
		for _, o := range alphabet {
			rec(append(ops[:len(ops):len(ops)], o))
		}
	}
	rec(nil)
	return out
}

func init() {
	gen := func(ranges bool, maxOps int) func(r *R, size int) *Case {
		return func(r *R, size int) *Case {
			c := &Case{Cfg: map[string]int64{"kind": int64(anyKind[r.N(len(anyKind))])}}
			genNodeSize(r, c.Cfg)
			c.Ops = genMulti(r, size, maxOps, ranges)
			return c
		}
	}
	register(&Check{
		ID:    "C08",
		Rule:  "Cases are a node size (2..63) and a generated history of add/count/has/find/replace/remove-where over few keys, so that runs of one key overflow leaves; every answer and the full content are compared with a reference multimap. Non-trivial: a run longer than a leaf existed, or a removal took some but not all pairs of a key.",
		Quick: 150000,
		Gen:   gen(false, 250),
		Fixed: func() []*Case { return fixedMulti(false) },
		Run: func(c *Case, t *T) {
			d := runMulti(c, t)
			t.nontriv = d.runs || d.part > 0
		},
	})
	register(&Check{
		ID:    "C09",
		Rule:  "Cases are a node size and a generated add/remove history with scans: ranges whose bounds are present, absent, outside, reversed, also on empty trees, plus forward and backward full scans, compared with the sorted reference sequence; at the end every pair of bounds near the stored keys is scanned (at most 600 pairs). Non-trivial: at least one range with an absent lower bound and one non-empty range, on a tree of at least two leaves.",
		Quick: 25000,
		Gen:   gen(true, 150),
		Fixed: func() []*Case { return fixedMulti(true) },
		Run: func(c *Case, t *T) {
			d := runMulti(c, t)
			keys := sortedKeys(d.ref)
			var bounds []int64
			for i, k := range keys {
				if i < 4 || i >= len(keys)-4 || i%7 == 0 {
					bounds = append(bounds, k-1, k, k+1)
				}
			}
			if len(bounds) > 24 {
				bounds = append(bounds[:12:12], bounds[len(bounds)-12:]...)
			}
			if len(keys) > 20000 {
				bounds = append(bounds[:1:1], bounds[len(bounds)-1])
			}
			for _, a := range bounds {
				for _, b := range bounds {
					if d.km.kind == kindInt8 && (a != int64(int8(a)) || b != int64(int8(b))) {
						continue
					}
					t.At(len(c.Ops), Op{Op: "range", X: a, Y: b})
					d.rng(a, b)
				}
			}
			t.nontriv = t.labels["range-from-absent"] > 0 && t.labels["range-nonempty"] > 0 && d.n > nodeSize(c.cfg("size"))
		},
	})
}
