package main

import "strconv"

// maxBulk bounds what one case may expand to.
const maxBulk = 400000

// expand replaces bulk operations by the operations they stand for:
//
//	bulk n=X order=Y seed=Z kids: n operations made from the kids, with keys in
//	the given order (-1: all equal, 100+k: random among k+1 numbers)
//	repeat X kids: the kids with their byte strings repeated X times
func expand(c *Case) *Case {
	if !hasBulk(c.Ops) {
		return c
	}
	left := maxBulk
	return &Case{Prop: c.Prop, Cfg: c.Cfg, Ops: expandOps(c.Ops, &left)}
}

func hasBulk(ops []Op) bool {
	for _, o := range ops {
		if o.Op == "bulk" || o.Op == "repeat" || hasBulk(o.Kids) {
			return true
		}
	}
	return false
}

func expandOps(ops []Op, left *int) []Op {
	var out []Op
	for _, o := range ops {
		switch o.Op {
		case "bulk":
			if len(o.Kids) == 0 {
				continue
			}
			n := min(wrapCap(o.X, maxBulk+1), *left)
			*left -= n
			r := newR(o.Z, "bulk", n)
			var ks []int64
			switch {
			case o.Y < 0:
				ks = make([]int64, n)
			case o.Y >= 100:
				ks = make([]int64, n)
				for j := range ks {
					ks[j] = int64(r.N(int(min(o.Y-99, maxBulk))))
				}
			default:
				ks = insertOrder(o.Y, n, o.Z)
			}
			for _, k := range ks {
				x := o.Kids[r.N(len(o.Kids))]
				x.X += k
				x.Y += int64(r.N(max(1000, n)))
				if x.B != nil {
					x.B = strconv.AppendInt(append(Bytes{}, x.B...), k, 10)
				}
				out = append(out, x)
			}
		case "repeat":
			for _, x := range o.Kids {
				var b Bytes
				for n := wrapCap(o.X, 70001); n > 0 && len(b) < 1<<18; n-- {
					b = append(b, x.B...)
				}
				x.B = b
				out = append(out, x)
			}
		default:
			o.Kids = expandOps(o.Kids, left)
			out = append(out, o)
		}
	}
	return out
}

// bulk makes a bulk operation over keys 0..n-1 or so.
func bulk(r *R, n int, order int, kids ...string) Op {
	o := Op{Op: "bulk", X: int64(n), Y: int64(order), Z: int64(r.N(1 << 20))}
	for _, k := range kids {
		o.Kids = append(o.Kids, Op{Op: k})
	}
	return o
}

// bigN is a size between max/8 and max, often one below, at or above a power of two.
func bigN(r *R, max int) int {
	n := max/8 + r.N(max-max/8)
	if r.P(30) {
		p := 1
		for p*2 < n {
			p *= 2
		}
		n = p + r.Range(-2, 2)
	}
	return n
}

// anyOrder is an order of insertion, mostly of the numbers 0 to n-1.
func anyOrder(r *R) int { return pick(r, 0, 1, 2, 4, 4, 4, 3, 5, 6, 7, 8) }

// bigDict is a large dictionary history. Without churn no new key is put after
// a removal.
func bigDict(r *R, max int, churn bool) []Op {
	n := bigN(r, max)
	all := Op{Op: "all"}
	ops := []Op{bulk(r, n, anyOrder(r), "put"), all, bulk(r, n/2, anyOrder(r), "get", "has")}
	if churn && r.P(60) {
		ops = append(ops, bulk(r, n, 4, "get", "has", "rem", "put"), all)
	}
	if r.P(50) {
		ops = append(ops, bulk(r, n/4, 0, "put"), all) // overwrites
	}
	ops = append(ops, bulk(r, pick(r, n/2, n-3, n+5), pick(r, 0, 1, 2, 4, 4), "rem"), all)
	if churn {
		ops = append(ops, bulk(r, n/2, anyOrder(r), "put", "put", "rem"), all)
	}
	return ops
}

// bigs makes the large cases of a check.
var bigs = map[string]func(r *R) *Case{
	"C01": func(r *R) *Case { return bigMap(r, 12000, 700, false, true, anyKind) },
	"C02": func(r *R) *Case { return bigMap(r, 12000, 500, false, true, anyKind) },
	"C03": func(r *R) *Case { return bigMap(r, 3000, 3000, false, false, anyKind) },
	"C04": func(r *R) *Case { return bigMap(r, 3000, 3000, false, true, anyKind) },
	"C07": func(r *R) *Case { return bigMap(r, 6000, 6000, true, true, anyKind) },
	"C22": func(r *R) *Case {
		c := bigMap(r, 2500, 2500, false, true, []int{kindK, kindInt, kindString, kindBytes})
		c.Ops = append(c.Ops, bulk(r, 600, 4, "add", "del", "item", "extend"))
		return c
	},
	"C37": func(r *R) *Case {
		return bigMap(r, 2500, 400, true, false, []int{kindK, kindInt, kindString, kindInt64})
	},
	"C23": func(r *R) *Case {
		c := bigMap(r, 2500, 400, true, false, []int{kindK, kindInt, kindString, kindInt64, kindEntry})
		c.Cfg["map"] = int64(r.N(nMaps))
		name := map[string]string{"put": "add", "rem": "del", "get": "has"}
		for i := range c.Ops {
			for j, k := range c.Ops[i].Kids {
				if n := name[k.Op]; n != "" {
					c.Ops[i].Kids[j].Op = n
				}
			}
		}
		return c
	},
	"C05": func(r *R) *Case {
		n := bigN(r, 400)
		c := &Case{Cfg: map[string]int64{}}
		put := bulk(r, n, anyOrder(r), "put", "put", "put", "put", "iter", "step")
		c.Ops = append(c.Ops, put, Op{Op: "all"})
		mix := bulk(r, n/2, 4, "put", "rem", "step", "rem")
		mix.Kids[0].Z, mix.Kids[1].Z = int64(r.N(50)), int64(r.N(9))
		c.Ops = append(c.Ops, mix, Op{Op: "all"})
		return c
	},
	"C06": func(r *R) *Case {
		o := Op{Op: "insert", X: int64(pick(r, 4, 4, 4, r.N(nOrders))), Y: int64(5000 + r.N(15000)), Z: int64(r.N(100000))}
		if o.X != 4 {
			o.Y /= 3
		}
		return &Case{Cfg: map[string]int64{"imm": int64(r.N(2))}, Ops: []Op{o}}
	},
	"C08": bigMulti,
	"C09": func(r *R) *Case {
		c := bigMulti(r)
		n := 1500
		for i := 0; i < 30; i++ {
			a := r.N(n)
			c.Ops = append(c.Ops, Op{Op: "range", X: int64(a), Y: int64(pick(r, r.N(n), a+r.N(9)-4))})
		}
		return c
	},
	"C10": func(r *R) *Case { return &Case{Ops: bigTrie(r)} },
	"C11": func(r *R) *Case {
		ops := bigTrie(r)
		o := bulk(r, 60, 4, "prefix")
		o.Kids[0].B = ops[0].Kids[0].B
		return &Case{Ops: append(ops, o)}
	},
	"C13": func(r *R) *Case {
		n := bigN(r, 4000)
		c := &Case{Cfg: map[string]int64{"kind": int64(itemKinds[r.N(len(itemKinds))]), "cap": int64(r.N(150))}}
		ext := Op{Op: "extend", Kids: []Op{bulk(r, n, 4, "i")}}
		all := Op{Op: "all"}
		for i := 0; i < 4; i++ {
			switch r.N(6) {
			case 0:
				c.Ops = append(c.Ops, bulk(r, n, 4, "append", "insert", "push"))
			case 1:
				c.Ops = append(c.Ops, ext)
			case 2:
				c.Ops = append(c.Ops, bulk(r, n, 4, "remove", "pop"))
			case 3:
				c.Ops = append(c.Ops, bulk(r, n, 4, "remove", "insert", "set", "get", "append"))
			case 4:
				c.Ops = append(c.Ops, Op{Op: "slice", Kids: ext.Kids})
			case 5:
				c.Ops = append(c.Ops, ext, Op{Op: "copy"}, Op{Op: "sort"}, all, bulk(r, 50, 4, "append", "set"))
			}
			c.Ops = append(c.Ops, all)
		}
		return c
	},
	"C14": func(r *R) *Case { return bigSorted(r) },
	"C21": func(r *R) *Case {
		c := bigSorted(r)
		c.Cfg["kind"] = int64(pick(r, kindK, kindInt, kindString, kindInt64))
		c.Ops = append(c.Ops, bulk(r, 30, 4, "random", "overlap", "fromset"), Op{Op: "all"})
		return c
	},
	"C15": func(r *R) *Case {
		capa := pick(r, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 513, 1025)
		c := &Case{Cfg: map[string]int64{"sorted": int64(r.N(2)), "dups": int64(r.N(2)), "fixed": int64(r.Pick(15, 85)), "cap": int64(capa)}}
		c.Ops = []Op{bulk(r, capa-r.N(5), 4, "add"), {Op: pick(r, "copy", "codec", "add")}, bulk(r, 20, 4, "add"), bulk(r, capa/2, 4, "remove", "insert", "set", "remove", "pop")}
		if r.P(50) { // down to a fraction of the capacity and up again
			c.Ops = append(c.Ops, bulk(r, capa/2+r.N(capa/2), 4, "remove", "pop"))
			if r.P(30) {
				return c
			}
		}
		c.Ops = append(c.Ops, []Op{
			{Op: pick(r, "copy", "codec", "add")}, {Op: "extend", Kids: []Op{bulk(r, capa, 1, "i")}}}...)
		return c
	},
	"C16": func(r *R) *Case {
		n := bigN(r, 2500)
		c := &Case{Cfg: map[string]int64{"hash": int64(pick(r, 0, 2))}}
		o := bulk(r, n, pick(r, 0, 0, 4, 100+n), "i")
		for i := 0; i < 3; i++ {
			k := Op{Op: "seq", X: int64(r.N(nContainers)), Y: int64(r.N(nContainers)), Kids: []Op{o}}
			if i > 0 {
				switch r.N(4) {
				case 0:
					k.Kids = append(k.Kids, Op{Op: "i", X: int64(n + r.N(3))})
				case 1: // another item at the very end
					k.Kids = []Op{o, {Op: "i", X: int64(n + i)}}
				case 2:
					o2 := o
					o2.X--
					k.Kids = []Op{o2}
				}
			}
			c.Ops = append(c.Ops, k)
		}
		return c
	},
	"C17": func(r *R) *Case {
		c := &Case{Ops: genScalars(r, 3)}
		n := int64(pick(r, 255, 256, 257, 1000, 65535, 65536, 65537))
		for i := 0; i < 4; i++ {
			v := Op{Op: "v", Z: int64(r.N(len(scalars))), B: Bytes{pick(r, byte('a'), 0, 255)}}
			o := Op{Op: "repeat", X: n + int64(r.N(2)), Kids: []Op{v}}
			c.Ops = append(c.Ops, o, o)
		}
		return c
	},
	"C18": func(r *R) *Case {
		c := &Case{Cfg: map[string]int64{"kind": int64(r.N(3)), "dups": int64(r.N(2)), "fixed": int64(r.N(2)), "spare": int64(r.N(5)), "type": int64(r.N(len(scalars))), "fault": int64(r.N(400)), "used": int64(pick(r, 0, 0, 3, 50)), "usedfixed": int64(r.N(2))}}
		n := bigN(r, 3000)
		o := bulk(r, n, 4, "add")
		o.Kids[0].B = Bytes{'k'}
		c.Ops = append(c.Ops, o)
		if r.P(50) {
			c.Ops = append(c.Ops, Op{Op: "repeat", X: int64(pick(r, 255, 256, 65535, 65536, 70000)), Kids: []Op{{Op: "add", X: 5, B: Bytes{'z'}}}})
		}
		for _, x := range genScalars(r, 4) {
			x.Op = pick(r, "more", "less")
			c.Ops = append(c.Ops, x)
		}
		return c
	},
	"C19": func(r *R) *Case {
		c := &Case{Cfg: map[string]int64{"fill": 7}}
		for i := 0; i < 3; i++ {
			v := Op{Op: "v", Z: int64(r.N(len(scalars))), B: Bytes{pick(r, byte('a'), 0, 255), byte(r.N(256))}}
			c.Ops = append(c.Ops, Op{Op: "repeat", X: int64(pick(r, 100, 128, 500, 32767, 32768, 40000)), Kids: []Op{v}})
		}
		return c
	},
	"C20": func(r *R) *Case {
		c := &Case{Cfg: map[string]int64{"a": int64(r.N(nSets)), "b": int64(r.N(nSets)), "entries": int64(r.N(2)), "hash": int64(pick(r, 0, 2)), "size": int64(pick(r, 0, 1, 7, 7, 30))}}
		n := thin(c, bigN(r, 1500))
		for z := int64(0); z < 2; z++ {
			o := bulk(r, pick(r, n, n/9+1), pick(r, 0, 1, 4, 100+n), "add")
			o.Kids[0].Z = z
			o.Kids[0].X = int64(pick(r, 0, 0, n/2, n+3))
			d := bulk(r, n/5, 100+n, "del")
			d.Kids[0].X = int64(r.N(n))
			d.Kids[0].Z = z
			c.Ops = append(c.Ops, o, d)
		}
		return c
	},
	"C24": bigDeque,
	"C25": bigDeque,
	"C26": func(r *R) *Case { return bigHeap(r, "push") },
	"C27": func(r *R) *Case { return bigHeap(r, "add") },
	"C28": func(r *R) *Case {
		return &Case{Ops: []Op{{Op: "grow", X: int64(bigN(r, 3000)), Y: int64(r.N(8)), Z: int64(r.N(1 << 20))}}}
	},
	"C29": func(r *R) *Case {
		c := &Case{Cfg: map[string]int64{"coll": int64(r.N(11)), "size": int64(pick(r, 0, 1, 2, 9, 30, 126))}}
		n := thin(c, bigN(r, 1500))
		c.Ops = append(c.Ops, bulk(r, n, anyOrder(r), "put"), bulk(r, n/4, 4, "rem"))
		for i := 0; i < 4; i++ {
			c.Ops = append(c.Ops, Op{Op: "open", X: int64(r.N(20))})
		}
		c.Ops = append(c.Ops, bulk(r, 2000, 103, "step"))
		return c
	},
	"C38": func(r *R) *Case {
		form := r.N(nForms)
		c := &Case{Cfg: map[string]int64{"form": int64(form), "cap": int64(r.N(9)), "map": int64(r.N(nMaps))}}
		o := bulk(r, bigN(r, 1200), 4, pick(r, "int", "str"))
		o.Kids[0].B = Bytes{'k'}
		if form >= 7 {
			o.Kids[0].Op = "put"
		}
		c.Ops = []Op{o}
		return c
	},
}

// hugeN is a size just below, at or above 2^16, or up to 2^17.
func hugeN(r *R) int {
	if r.P(35) {
		return 1<<16 + r.Range(-2, 3)
	}
	return 1<<16 + r.N(1<<16)
}

// huges makes one in twenty of the large cases, for checks whose operations stay
// cheap: sizes about 2^16.
var huges = map[string]func(r *R) *Case{
	"C01": hugeMap,
	"C02": hugeMap,
	"C07": hugeMap,
	"C08": func(r *R) *Case {
		n := hugeN(r)
		all := Op{Op: "all"}
		c := &Case{Cfg: map[string]int64{"kind": kindInt, "size": int64(pick(r, 30, 62, 126, 298, 510, 1022))}}
		c.Ops = []Op{bulk(r, n, pick(r, 0, 1, 4), "add"), all, bulk(r, 2000, 100+n, "add", "rem", "rep", "key"), all}
		return c
	},
	"C10": func(r *R) *Case {
		n := hugeN(r)
		mk := func(n, order int, kids ...string) Op {
			o := bulk(r, n, order, kids...)
			for i := range o.Kids {
				o.Kids[i].B = Bytes{'k'}
			}
			return o
		}
		all := Op{Op: "all"}
		return &Case{Ops: []Op{mk(n, pick(r, 0, 4), "put"), all, mk(5000, 100+n, "get", "has", "rem"), mk(n-9, 4, "rem"), all}}
	},
	"C13": func(r *R) *Case {
		n := hugeN(r)
		all := Op{Op: "all"}
		c := &Case{Cfg: map[string]int64{"kind": kindInt, "cap": int64(r.N(150))}}
		c.Ops = []Op{bulk(r, n, 4, "append", "push"), all, {Op: "extend", Kids: []Op{bulk(r, n/2, 4, "i")}}, all, bulk(r, 100, 4, "remove", "insert", "set", "get"), all,
			bulk(r, n, 4, "pop"), all, bulk(r, n/3, 4, "append"), all}
		return c
	},
	"C14": func(r *R) *Case {
		n := hugeN(r)
		c := &Case{Cfg: map[string]int64{"kind": kindInt, "dups": int64(r.N(2)), "cap": int64(r.N(150))}}
		c.Ops = []Op{{Op: "extend", Kids: []Op{bulk(r, n, 0, "i")}}, bulk(r, 60, 100+n, "add", "find", "delete", "item", "removeat", "has"), {Op: "all"}}
		return c
	},
}

func init() {
	all := Op{Op: "all"}
	huges["C09"] = func(r *R) *Case {
		c := huges["C08"](r)
		n := int(c.Ops[0].X)
		c.Ops = c.Ops[:2]
		for i := 0; i < 6; i++ {
			a := r.N(n)
			c.Ops = append(c.Ops, Op{Op: "range", X: int64(a), Y: int64(pick(r, r.N(n), a+r.N(900)-450))})
		}
		return c
	}
	huges["C11"] = func(r *R) *Case {
		c := huges["C10"](r)
		c.Ops = c.Ops[:2]
		o := bulk(r, 30, 4, "prefix")
		o.Kids[0].B = Bytes{'k'}
		c.Ops = append(c.Ops, o)
		return c
	}
	for _, id := range []string{"C24", "C25"} {
		huges[id] = func(r *R) *Case {
			n := hugeN(r)
			c := &Case{Cfg: map[string]int64{"kind": kindInt}}
			c.Ops = []Op{bulk(r, n, pick(r, 0, 4), "enqf", "enqb", "push"), all, bulk(r, n/2, 0, "deqf", "deqb", "pop", "enqb", "enqf"), all,
				bulk(r, pick(r, n/2, n+3), 0, "deqf", "deqb"), bulk(r, n/4, 4, "enqb", "enqf")}
			return c
		}
	}
	for id, add := range map[string]string{"C26": "push", "C27": "add"} {
		huges[id] = func(r *R) *Case {
			n := hugeN(r)
			if add == "add" {
				n += n / 2 // some are held already
			}
			c := &Case{Cfg: map[string]int64{"min": int64(r.N(2)), "ctor": int64(r.N(2)), "cap": int64(r.N(10))}}
			ord := func() int { return pick(r, 0, 1, 4, 4, 6, 100+n/4) }
			c.Ops = []Op{bulk(r, n, ord(), add), all, bulk(r, n/2, ord(), add, "pop", "pop"), all, bulk(r, n/3, ord(), add)}
			return c
		}
	}
	huges["C16"] = func(r *R) *Case {
		n := hugeN(r)
		c := &Case{Cfg: map[string]int64{"hash": int64(pick(r, 0, 2))}}
		o := bulk(r, n, 0, "i")
		for i := 0; i < 2; i++ {
			// not the sorted kinds, which take long to build
			k := Op{Op: "seq", X: int64(pick(r, 0, 2, 3, 5, 6)), Y: int64(pick(r, 0, 2, 3, 5, 6)), Kids: []Op{o}}
			if i > 0 && r.P(60) {
				k.Kids = []Op{o, {Op: "i", X: int64(n + i)}}
			}
			c.Ops = append(c.Ops, k)
		}
		return c
	}
	huges["C18"] = func(r *R) *Case {
		c := bigs["C18"](r)
		c.Ops[0].X, c.Ops[0].Y = int64(hugeN(r)), 0
		c.Cfg["kind"] = 0
		c.Cfg["type"] = int64(pick(r, 3, 4, 8))
		return c
	}
	huges["C20"] = func(r *R) *Case {
		c := &Case{Cfg: map[string]int64{"a": int64(r.N(nSets)), "b": int64(r.N(nSets)), "entries": int64(r.N(2)), "size": int64(pick(r, 30, 62))}}
		n := 3000 + r.N(9000) // every result is compared in full
		for z := int64(0); z < 2; z++ {
			o := bulk(r, pick(r, n, n/9+1), 0, "add")
			o.Kids[0].Z = z
			o.Kids[0].X = int64(pick(r, 0, 0, n/2, n+3))
			c.Ops = append(c.Ops, o)
		}
		return c
	}
	huges["C23"] = func(r *R) *Case {
		n := hugeN(r)
		c := &Case{Cfg: map[string]int64{"kind": kindInt, "map": int64(r.N(2)), "size": int64(pick(r, 30, 62))}}
		c.Ops = []Op{bulk(r, n, pick(r, 0, 4), "add"), all, bulk(r, 300, 100+n, "has", "add", "del"), all}
		return c
	}
	huges["C28"] = func(r *R) *Case {
		return &Case{Ops: []Op{{Op: "grow", X: int64(hugeN(r)), Y: int64(r.N(8)), Z: int64(r.N(1 << 20))}}}
	}
	huges["C38"] = func(r *R) *Case {
		c := bigs["C38"](r)
		c.Ops[0].X, c.Ops[0].Y = int64(hugeN(r)), 0
		return c
	}
}

func hugeMap(r *R) *Case {
	n := hugeN(r)
	all := Op{Op: "all"}
	c := &Case{Cfg: map[string]int64{"kind": int64(pick(r, kindK, kindInt, kindString)), "hash": int64(pick(r, 0, 2)), "size": int64(pick(r, 30, 62, 254, 1022))}}
	c.Ops = []Op{bulk(r, n, pick(r, 0, 1, 4), "put"), all, bulk(r, n/4, 100+n, "get", "has", "put", "rem"), all,
		bulk(r, pick(r, n/2, n-3), pick(r, 0, 1, 4), "rem"), all, bulk(r, n/4, 4, "put"), all}
	return c
}

// thin reduces n for B+ trees with nodes of two or three keys, which may become
// lists.
func thin(c *Case, n int) int {
	if c.Cfg["size"] < 2 {
		return 1 + n%400
	}
	return n
}

func bigMap(r *R, max, bad int, bptree, churn bool, kinds []int) *Case {
	c := &Case{Cfg: map[string]int64{"kind": int64(kinds[r.N(len(kinds))]), "hash": int64(pick(r, 0, 0, 2, 2, 3, r.N(hashModes)))}}
	c.Cfg["size"] = int64(pick(r, 0, 1, 2, 6, 14, 30, 61, 62, 63, 126, 254, 298, 510, 1022))
	if h := c.Cfg["hash"]; h != 0 && h != 2 && h != 3 {
		max = bad
	}
	if bptree && c.Cfg["size"] < 2 && max > 400 {
		max = 400
	}
	c.Ops = bigDict(r, max, churn)
	return c
}

func bigMulti(r *R) *Case {
	c := &Case{Cfg: map[string]int64{"kind": int64(anyKind[r.N(len(anyKind))]), "size": int64(pick(r, 0, 1, 2, 6, 14, 30, 62, 126, 298, 510, 1022))}}
	n := thin(c, bigN(r, 1000))
	run := bulk(r, bigN(r, 600), -1, "add")
	run.Kids[0].X = int64(r.N(n))
	c.Ops = append(c.Ops, bulk(r, n, anyOrder(r), "add"), Op{Op: "all"})
	if r.P(70) {
		c.Ops = append(c.Ops, run, Op{Op: "all"})
	}
	c.Ops = append(c.Ops, bulk(r, n/2, pick(r, 4, 100+n/8), "add", "rem", "rep", "key"), Op{Op: "all"})
	if r.P(60) {
		c.Ops = append(c.Ops, bulk(r, n, pick(r, 0, 1, 4), "rem"), Op{Op: "all"}, bulk(r, n/3, anyOrder(r), "add"), Op{Op: "all"})
	}
	return c
}

func bigTrie(r *R) []Op {
	n := bigN(r, 1500)
	var ops []Op
	b := Bytes{'k'}
	if r.P(60) {
		b = make(Bytes, pick(r, 3, 40, 127, 128, 255, 256, 300, 2000, 5000))
		for i := range b {
			b[i] = byte('a' + r.N(3))
		}
		if len(b) > 40 {
			n = 100 + n/8
		}
		if len(b) > 1000 {
			n = 8
		}
	}
	mk := func(n, order int, kids ...string) {
		o := bulk(r, n, order, kids...)
		for i := range o.Kids {
			o.Kids[i].B = b
			if i > 0 && r.P(20) {
				o.Kids[i].B = b[:1+r.N(len(b))]
			}
		}
		ops = append(ops, o, Op{Op: "all"})
	}
	mk(n, anyOrder(r), "put")
	mk(n/2, 4, "get", "has", "rem", "put")
	mk(n-2, pick(r, 0, 1, 4), "rem")
	mk(n/3, 4, "put", "rem")
	return ops
}

func bigSorted(r *R) *Case {
	n := bigN(r, 900)
	c := &Case{Cfg: map[string]int64{"kind": int64(itemKinds[r.N(len(itemKinds))]), "dups": int64(r.N(2)), "cap": int64(r.N(150))}}
	space := pick(r, 4, 100+n, 100+n/3)
	ext := Op{Op: pick(r, "extend", "slice"), Kids: []Op{bulk(r, n, space, "i")}, Y: int64(r.N(2))}
	c.Ops = append(c.Ops, ext, bulk(r, 150, space, "add", "find", "delete", "item", "removeat", "has"), Op{Op: "all"})
	c.Ops = append(c.Ops, Op{Op: "copy"}, bulk(r, min(n, 300), space, "delete", "removeat", "delete", "find"), Op{Op: "all"})
	return c
}

func bigDeque(r *R) *Case {
	n := bigN(r, 6000)
	c := &Case{Cfg: map[string]int64{"kind": int64(itemKinds[r.N(len(itemKinds))]), "hash": int64(pick(r, 0, 2, 1))}}
	c.Ops = append(c.Ops, bulk(r, n, pick(r, 0, 4, 100+n), "enqf", "enqb", "push"), Op{Op: "all"},
		bulk(r, n/2, 4, "deqf", "deqb", "pop", "enqb", "enqf", "has"), bulk(r, pick(r, n/2, n+3), 0, "deqf", "deqb"), bulk(r, n/4, 4, "enqb", "enqf"))
	return c
}

func bigHeap(r *R, add string) *Case {
	n := bigN(r, 8000)
	c := &Case{Cfg: map[string]int64{"min": int64(r.N(2)), "ctor": int64(r.N(2)), "cap": int64(r.N(10)), "hash": int64(pick(r, 0, 2, 9))}}
	ord := func() int { return pick(r, 0, 1, 4, 4, 6, 100+n/4) }
	c.Ops = append(c.Ops, bulk(r, n, ord(), add), Op{Op: "all"}, bulk(r, n/2, ord(), add, "pop", "pop"), Op{Op: "all"}, bulk(r, n/3, ord(), add))
	return c
}

func init() {
	bigs["C12"] = func(r *R) *Case {
		more := 40 + r.N(700)
		c := &Case{Cfg: map[string]int64{"fill": int64(1 + r.N(255)), "more": int64(more)}}
		for i := 0; i < 120; i++ {
			o := Op{Op: pick(r, "put", "put", "put", "put", "rem", "get", "prefix", "has", "write", "grow"), X: int64(r.N(pick(r, 4, more))), Y: int64(1 + r.N(200)), Z: int64(1 + r.N(7+more*2/3))}
			if o.Op == "write" {
				o.X, o.B = int64(r.N(more)), append(Bytes{}, newByteGen(r).key()...)
			}
			c.Ops = append(c.Ops, o)
		}
		return c
	}
	for id, closing := range map[string]int{"C30": 0, "C31": 65} {
		bigs[id] = func(r *R) *Case {
			// a program at the bottom of many blocks
			budget := 40
			o := genTry(r, 2, false, &budget, closing)
			for d := 20 + r.N(pick(r, 30, 200)); d > 0; d-- {
				b := 3
				x := genTry(r, 0, false, &b, closing)
				x.Kids = append([]Op{{Op: "mark", X: int64(d)}, o}, x.Kids...)
				o.Z = int64(r.N(3))
				x.Kids[1] = o
				o = x
			}
			return &Case{Ops: []Op{o}}
		}
	}
	bigs["C32"] = func(r *R) *Case {
		c := &Case{}
		for i := 0; i < 20; i++ {
			o := Op{Op: pick(r, "errorf", "errchain", "new", "from", "throw", "chain", "rethrow", "custom", "join", "plain", "log"), X: int64(r.N(8)), Y: int64(r.N(8)), B: append(genMsg(r), 'x')}
			if r.P(40) {
				o = Op{Op: "repeat", X: int64(pick(r, 100, 1000, 5000)), Kids: []Op{o}}
			}
			c.Ops = append(c.Ops, o)
		}
		long := bulk(r, 40+r.N(60), -1, "chain", "rethrow", "errchain")
		long.Kids[0].X, long.Kids[1].X = int64(r.N(8)), int64(r.N(8))
		c.Ops = append(c.Ops, long)
		return c
	}
	for id, wait := range map[string]bool{"C33": false, "C34": true} {
		bigs[id] = func(r *R) *Case {
			c := genPool(wait)(r, 60+r.N(100))
			c.Cfg["workers"] = int64(pick(r, 6, 7, 8, 9, 15, 16, 31, 32, 63, 64, 100, 127, 128, 255))
			c.Cfg["subs"] = int64(pick(r, 0, 1, 5, 7, 15, 23))
			if r.P(25) {
				c.Cfg["flood"] = 1
			}
			for i := range c.Ops {
				c.Ops[i].Z = int64(r.N(int(c.Cfg["subs"] + 1)))
				if c.Ops[i].Op == "many" {
					c.Ops[i].Y = int64(r.N(2500))
				}
			}
			return c
		}
	}
	bigs["C35"] = func(r *R) *Case {
		return &Case{Cfg: map[string]int64{"seed": r.Int64()}, Ops: []Op{{Op: "together", X: int64(6 + r.N(20)), Y: int64(r.N(3000))}}}
	}
}
