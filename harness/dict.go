package main

import (
	"github.com/timtadh/data-structures/types"
)

// dict compares a map of the library with a reference dictionary.
type dict struct {
	t       *T
	name    string
	m       types.Map
	ordered bool
	km      *keyMaker
	ref     map[int64]interface{}
	uses    int // overwrites, removals of present and absent keys
	over    int
	gone    int
	absent  int
}

func (d *dict) put(k, y int64) {
	v := mkVal(y)
	_, had := d.ref[k]
	if had {
		d.over++
	}
	err := d.m.Put(d.km.mk(k), v)
	d.t.Check(err == nil, "%s: Put(%d) gave error %v", d.name, k, err)
	d.ref[k] = v
	d.size()
}

func (d *dict) size() {
	d.t.Check(d.m.Size() == len(d.ref), "%s: Size() = %d, want %d", d.name, d.m.Size(), len(d.ref))
}

func (d *dict) get(k int64) {
	v, err := d.m.Get(d.km.mk(k))
	want, has := d.ref[k]
	if has {
		d.t.Check(err == nil, "%s: Get(%d) gave error %v, want %v", d.name, k, err, want)
		d.t.Check(sameVal(v, want), "%s: Get(%d) = %v, want %v", d.name, k, v, want)
	} else {
		d.absent++
		d.t.Check(err != nil, "%s: Get(%d) of an absent key gave %v and no error", d.name, k, v)
	}
}

func (d *dict) has(k int64) {
	_, want := d.ref[k]
	got := d.m.Has(d.km.mk(k))
	d.t.Check(got == want, "%s: Has(%d) = %v, want %v", d.name, k, got, want)
}

func (d *dict) rem(k int64) {
	want, has := d.ref[k]
	v, err := d.m.Remove(d.km.mk(k))
	if has {
		d.gone++
		d.t.Check(err == nil, "%s: Remove(%d) gave error %v", d.name, k, err)
		d.t.Check(sameVal(v, want), "%s: Remove(%d) = %v, want %v", d.name, k, v, want)
		delete(d.ref, k)
	} else {
		d.absent++
		d.t.Check(err != nil, "%s: Remove(%d) of an absent key gave no error", d.name, k)
	}
	d.size()
}

// full compares everything that can be observed.
func (d *dict) full() {
	t := d.t
	d.size()
	limit := len(d.ref)
	want := sortedKeys(d.ref)
	check := func(what string, ks []types.Hashable, vs []interface{}) []int64 {
		t.Check(len(ks) == limit, "%s: %s yields %d entries, want %d", d.name, what, len(ks), limit)
		seen := map[int64]bool{}
		var order []int64
		for i, k := range ks {
			x, err := d.km.val(k)
			t.Check(err == nil, "%s: %s: %v", d.name, what, err)
			w, has := d.ref[x]
			t.Check(has, "%s: %s yields key %d, which is not in the map", d.name, what, x)
			t.Check(!seen[x], "%s: %s yields key %d twice", d.name, what, x)
			seen[x] = true
			if vs != nil {
				t.Check(sameVal(vs[i], w), "%s: %s yields value %v for key %d, want %v", d.name, what, vs[i], x, w)
			}
			order = append(order, x)
		}
		if d.ordered {
			for i := range order {
				t.Check(order[i] == want[i], "%s: %s yields key %d at position %d, want %d (sorted order)", d.name, what, order[i], i, want[i])
			}
		}
		return order
	}
	ks, vs := collectKV(t, d.name+" Iterate", d.m.Iterate(), limit)
	order := check("Iterate", ks, vs)
	korder := check("Keys", collectK(t, d.name+" Keys", d.m.Keys(), limit), nil)
	for i := range order {
		t.Check(order[i] == korder[i], "%s: Keys and Iterate disagree at position %d: %d and %d", d.name, i, korder[i], order[i])
	}
	vals := collectV(t, d.name+" Values", d.m.Values(), limit)
	t.Check(len(vals) == limit, "%s: Values yields %d values, want %d", d.name, len(vals), limit)
	for i := range vals {
		t.Check(sameVal(vals[i], vs[i]), "%s: Values yields %v at position %d, Iterate %v", d.name, vals[i], i, vs[i])
	}
	if it, ok := d.m.(interface{ Items() types.KIterator }); ok {
		items := collectK(t, d.name+" Items", it.Items(), limit)
		t.Check(len(items) == limit, "%s: Items yields %d items, want %d", d.name, len(items), limit)
		for i, e := range items {
			me, ok := e.(*types.MapEntry)
			t.Check(ok, "%s: Items yields a %T", d.name, e)
			x, err := d.km.val(me.Key)
			t.Check(err == nil && x == order[i] && sameVal(me.Value, vs[i]), "%s: Items yields (%v,%v) at position %d, want (%d,%v)", d.name, me.Key, me.Value, i, order[i], vs[i])
		}
	}
	for k := range d.ref {
		d.get(k)
		d.has(k)
	}
}

func (d *dict) apply(o Op) {
	switch o.Op {
	case "put":
		d.put(d.key(o.X), o.Y)
	case "get":
		d.get(d.key(o.X))
	case "has":
		d.has(d.key(o.X))
	case "rem":
		d.rem(d.key(o.X))
	case "all":
		d.full()
	}
}

func (d *dict) key(x int64) int64 {
	switch d.km.kind {
	case kindInt8:
		return int64(int8(x))
	case kindUInt32:
		return int64(int32(x))
	}
	return x
}

// genDict makes a dictionary history: phases of growth, shrinkage and churn over
// a small or large key space, in several insertion patterns.
func genDict(r *R, size int, maxOps int) []Op {
	n := 1 + size*maxOps/100
	if r.P(30) {
		n = 1 + r.N(12)
	}
	space := pick(r, 2, 3, 5, 8, 16, 40, 120, 1000)
	if r.P(25) {
		space = n
	}
	base := int64(0)
	if r.P(20) {
		base = -int64(space / 2)
	}
	var ops []Op
	next := int64(0)
	key := func(pattern int) int64 {
		switch pattern {
		case 1:
			next++
			return base + next
		case 2:
			next--
			return base + next
		case 3:
			next++
			if next%2 == 0 {
				return base + next
			}
			return base - next
		case 4:
			next++
			return base + (next*7)%int64(space)
		}
		return base + int64(r.N(space))
	}
	var used []int64
	for len(ops) < n {
		phase := r.Pick(5, 3, 3, 2, 1) // grow, churn, shrink, probe, wipe
		pattern := r.Pick(4, 2, 2, 1, 1)
		m := 1 + r.N(n/2+2)
		if phase == 4 {
			// remove everything ever used, then go on
			var order []int64
			seen := map[int64]bool{}
			for _, k := range used {
				if !seen[k] {
					seen[k] = true
					order = append(order, k)
				}
			}
			if r.P(50) {
				r.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
			}
			for _, k := range order {
				if len(ops) < n {
					ops = append(ops, Op{Op: "rem", X: k})
				}
			}
			used = used[:0]
			ops = append(ops, Op{Op: "all"})
			continue
		}
		for i := 0; i < m && len(ops) < n; i++ {
			k := key(pattern)
			old := func() int64 {
				if len(used) > 0 && r.P(80) {
					return used[r.N(len(used))]
				}
				return base + int64(r.N(space+4)) - 2
			}
			switch phase {
			case 0:
				if r.P(85) {
					ops = append(ops, Op{Op: "put", X: k, Y: int64(r.N(1000))})
					used = append(used, k)
				} else {
					ops = append(ops, Op{Op: pick(r, "get", "has", "rem", "rem"), X: base + int64(r.N(space+4)) - 2})
				}
			case 1:
				switch r.Pick(4, 4, 2, 2) {
				case 0:
					if r.P(50) {
						k = old()
					}
					ops = append(ops, Op{Op: "put", X: k, Y: int64(r.N(1000))})
					used = append(used, k)
				case 1:
					ops = append(ops, Op{Op: "rem", X: old()})
				case 2:
					ops = append(ops, Op{Op: "get", X: old()})
				case 3:
					ops = append(ops, Op{Op: "has", X: old()})
				}
			case 2:
				ops = append(ops, Op{Op: "rem", X: old()})
			case 3:
				ops = append(ops, Op{Op: pick(r, "get", "has"), X: base + int64(r.N(space+4)) - 2})
			}
		}
		if r.P(40) {
			ops = append(ops, Op{Op: "all"})
		}
	}
	if r.P(3) {
		for i := range ops {
			if r.P(10) {
				ops[i].X = r.Int64()
			}
		}
	}
	return ops
}

// dictCheck registers a check of one map implementation.
func dictCheck(id, name string, quick, maxOps int, ordered bool, kinds []int, mk func(c *Case) types.Map, cfg func(r *R, c map[string]int64), extra func(c *Case, t *T, d *dict)) {
	register(&Check{
		ID:    id,
		Rule:  "Cases are generated histories of put/get/has/remove and full comparisons on the " + name + " (growth, churn, shrink, wipe phases; ascending, descending, alternating, strided and random keys), compared with a reference dictionary after every operation. Non-trivial: the history overwrites a key or removes a present key, probes an absent key, and holds at least 3 entries at some time.",
		Quick: quick,
		Gen: func(r *R, size int) *Case {
			c := &Case{Cfg: map[string]int64{"kind": int64(kinds[r.N(len(kinds))]), "hash": int64(r.N(hashModes))}}
			if cfg != nil {
				cfg(r, c.Cfg)
			}
			c.Ops = genDict(r, size, maxOps)
			return c
		},
		Fixed: func() []*Case { return fixedDict(kinds, cfg != nil) },
		Run: func(c *Case, t *T) {
			d := &dict{t: t, name: name, m: mk(c), ordered: ordered, km: newKeyMaker(c.cfg("kind"), c.cfg("hash")), ref: map[int64]interface{}{}}
			most := 0
			for i, o := range c.Ops {
				t.At(i, o)
				d.apply(o)
				if len(d.ref) > most {
					most = len(d.ref)
				}
			}
			t.At(len(c.Ops), Op{Op: "final comparison"})
			d.full()
			if extra != nil {
				extra(c, t, d)
			}
			t.nontriv = d.over+d.gone > 0 && d.absent > 0 && most >= 3
			if most >= 16 {
				t.Label("held>=16")
			}
			if most >= 100 {
				t.Label("held>=100")
			}
			if d.gone > 0 {
				t.Label("removed-present")
			}
			if d.absent > 0 {
				t.Label("absent-key")
			}
			if len(d.ref) == 0 && most > 0 {
				t.Label("emptied")
			}
		},
	})
}

// fixedDict enumerates every history of at most 4 operations over two keys, and
// permutation insert/remove histories of up to 5 keys.
func fixedDict(kinds []int, cfg bool) []*Case {
	var out []*Case
	alphabet := []Op{{Op: "put", X: 1, Y: 5}, {Op: "put", X: 2, Y: 6}, {Op: "put", X: 1, Y: 7}, {Op: "rem", X: 1}, {Op: "rem", X: 2}, {Op: "get", X: 1}}
	var rec func(ops []Op)
	rec = func(ops []Op) {
		out = append(out, &Case{Cfg: map[string]int64{"kind": int64(kinds[len(out)%len(kinds)]), "hash": int64(len(out) % hashModes), "size": int64(len(out) % 4)}, Ops: cloneOps(ops)})
		if len(ops) == 4 {
			return
		}
		for _, o := range alphabet {
			rec(append(ops[:len(ops):len(ops)], o))
		}
	}
	rec(nil)
	for n := 3; n <= 5; n++ {
		perms(n, func(p []int) {
			for drop := 0; drop <= n; drop++ {
				var ops []Op
				for _, k := range p {
					ops = append(ops, Op{Op: "put", X: int64(2 * k), Y: int64(k) + 9})
				}
				ops = append(ops, Op{Op: "rem", X: int64(2*drop) + 1}, Op{Op: "all"}, Op{Op: "rem", X: int64(2 * drop)})
				out = append(out, &Case{Cfg: map[string]int64{"kind": int64(kinds[len(out)%len(kinds)]), "hash": int64(len(out) % hashModes), "size": int64(len(out) % 4)}, Ops: ops})
			}
		})
	}
	return out
}

func perms(n int, f func([]int)) {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(int)
	rec = func(i int) {
		if i == n {
			f(p)
			return
		}
		for j := i; j < n; j++ {
			p[i], p[j] = p[j], p[i]
			rec(i + 1)
			p[i], p[j] = p[j], p[i]
		}
	}
	rec(0)
}
