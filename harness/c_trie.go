package main

import (
	"bytes"
	"sort"
	"strings"

	"github.com/timtadh/data-structures/trie"
	"github.com/timtadh/data-structures/types"
)

// tst compares the trie with a reference dictionary of byte strings.
type tst struct {
	t    *T
	m    *trie.TST
	ref  map[string]interface{}
	nest bool // some live key was a prefix of another
	reput,
	gone, absent, bad int
	removed map[string]bool
}

func newTst(t *T) *tst {
	return &tst{t: t, m: trie.New(), ref: map[string]interface{}{}, removed: map[string]bool{}}
}

func validKey(k []byte) bool { return len(k) > 0 && bytes.IndexByte(k, 0) < 0 }

func (d *tst) put(k []byte, y int64) {
	v := mkVal(y)
	s := string(k)
	err := d.m.Put(k, v)
	if !validKey([]byte(s)) {
		d.bad++
		d.t.Check(err != nil, "Put(%q) of an invalid key gave no error", s)
		return
	}
	d.t.Check(err == nil, "Put(%q) gave error %v", s, err)
	if d.removed[s] {
		d.reput++
	}
	d.ref[s] = v
}

func (d *tst) get(k []byte) {
	s := string(k)
	v, err := d.m.Get(k)
	want, has := d.ref[s]
	if !has {
		d.absent++
		d.t.Check(err != nil, "Get(%q) of an absent or invalid key gave no error", s)
		return
	}
	d.t.Check(err == nil, "Get(%q) gave error %v, want %v", s, err, want)
	d.t.Check(sameVal(v, want), "Get(%q) = %v, want %v", s, v, want)
}

func (d *tst) has(k []byte) {
	s := string(k)
	_, want := d.ref[s]
	got := d.m.Has(k)
	d.t.Check(got == want, "Has(%q) = %v, want %v", s, got, want)
}

func (d *tst) rem(k []byte) {
	s := string(k)
	v, err := d.m.Remove(k)
	want, has := d.ref[s]
	if !has {
		d.absent++
		d.t.Check(err != nil, "Remove(%q) of an absent or invalid key gave no error", s)
		return
	}
	d.gone++
	d.t.Check(err == nil, "Remove(%q) gave error %v", s, err)
	d.t.Check(sameVal(v, want), "Remove(%q) = %v, want %v", s, v, want)
	delete(d.ref, s)
	d.removed[s] = true
}

func (d *tst) keys(prefix string) []string {
	var ks []string
	for k := range d.ref {
		if strings.HasPrefix(k, prefix) {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	return ks
}

func (d *tst) seq(what string, it types.KVIterator, want []string) []types.Hashable {
	t := d.t
	ks, vs := collectKV(t, what, it, len(want))
	for i, k := range ks {
		b, ok := k.(types.ByteSlice)
		t.Check(ok, "%s yields a key of type %T", what, k)
		t.Check(string(b) == want[i], "%s yields key %q at position %d, want %q", what, string(b), i, want[i])
		t.Check(sameVal(vs[i], d.ref[want[i]]), "%s yields value %v for key %q, want %v", what, vs[i], want[i], d.ref[want[i]])
	}
	t.Check(len(ks) == len(want), "%s yields %d entries, want %d", what, len(ks), len(want))
	return ks
}

func (d *tst) prefix(p []byte) {
	want := d.keys(string(p))
	d.seq("PrefixFind("+string(p)+")", d.m.PrefixFind(types.ByteSlice(p)), want)
	if len(want) > 1 {
		d.t.Label("prefix-many")
	}
	if len(want) == 0 && len(d.ref) > 0 {
		d.t.Label("prefix-none")
	}
	if _, ok := d.ref[string(p)]; ok {
		d.t.Label("prefix-is-key")
	}
}

func (d *tst) full() {
	t := d.t
	want := d.keys("")
	d.seq("Iterate", d.m.Iterate(), want)
	ks := collectK(t, "Keys", d.m.Keys(), len(want))
	vs := collectV(t, "Values", d.m.Values(), len(want))
	is := collectK(t, "Items", d.m.Items(), len(want))
	t.Check(len(ks) == len(want) && len(vs) == len(want) && len(is) == len(want), "Keys, Values, Items yield %d, %d, %d elements, want %d", len(ks), len(vs), len(is), len(want))
	for i, w := range want {
		b, ok := ks[i].(types.ByteSlice)
		t.Check(ok && string(b) == w, "Keys yields %v at position %d, want %q", ks[i], i, w)
		t.Check(sameVal(vs[i], d.ref[w]), "Values yields %v at position %d, want %v", vs[i], i, d.ref[w])
		me, ok := is[i].(*types.MapEntry)
		t.Check(ok, "Items yields a %T", is[i])
		b, ok = me.Key.(types.ByteSlice)
		t.Check(ok && string(b) == w && sameVal(me.Value, d.ref[w]), "Items yields (%v,%v), want (%q,%v)", me.Key, me.Value, w, d.ref[w])
		d.get([]byte(w))
		d.has([]byte(w))
		if i > 0 && strings.HasPrefix(w, want[i-1]) {
			d.nest = true
		}
	}
	_ = d.m.String()
}

func (d *tst) apply(o Op) {
	k := append([]byte{}, o.B...)
	if o.Z == 1 && len(k) == 0 {
		k = nil
	}
	switch o.Op {
	case "put":
		d.put(k, o.Y)
	case "get":
		d.get(k)
	case "has":
		d.has(k)
	case "rem":
		d.rem(k)
	case "valid":
		err := d.m.ValidateKey(k)
		d.t.Check((err == nil) == validKey(k), "ValidateKey(%q) = %v", string(k), err)
	case "prefix":
		d.prefix(k)
	case "all":
		d.full()
	}
}

// genBytes makes families of related byte strings.
type byteGen struct {
	r     *R
	alpha []byte
	pool  [][]byte
	max   int
}

func newByteGen(r *R) *byteGen {
	g := &byteGen{r: r, max: pick(r, 2, 3, 4, 6, 10)}
	switch r.Pick(4, 3, 2, 2) {
	case 0:
		g.alpha = []byte("ab")
	case 1:
		g.alpha = []byte("abc")
	case 2:
		g.alpha = []byte{1, 2, 'a', 0xfe, 0xff}
	case 3:
		for i := 1; i < 256; i++ {
			g.alpha = append(g.alpha, byte(i))
		}
	}
	return g
}

func (g *byteGen) key() []byte {
	r := g.r
	if len(g.pool) > 0 {
		switch r.Pick(4, 2, 2, 2, 3) {
		case 0:
			return g.pool[r.N(len(g.pool))]
		case 1: // extend
			k := g.pool[r.N(len(g.pool))]
			k = append(k[:len(k):len(k)], g.alpha[r.N(len(g.alpha))])
			g.pool = append(g.pool, k)
			return k
		case 2: // shorten
			k := g.pool[r.N(len(g.pool))]
			if len(k) > 1 {
				k = k[:1+r.N(len(k)-1)]
				g.pool = append(g.pool, k)
			}
			return k
		case 3: // change the last byte
			k := append([]byte(nil), g.pool[r.N(len(g.pool))]...)
			k[len(k)-1] = g.alpha[r.N(len(g.alpha))]
			g.pool = append(g.pool, k)
			return k
		}
	}
	k := make([]byte, 1+r.N(g.max))
	for i := range k {
		k[i] = g.alpha[r.N(len(g.alpha))]
	}
	g.pool = append(g.pool, k)
	return k
}

func (g *byteGen) bad() []byte {
	if g.r.P(30) {
		return nil
	}
	k := append([]byte(nil), g.key()...)
	switch g.r.N(3) {
	case 0:
		return append(k, 0)
	case 1:
		return append([]byte{0}, k...)
	}
	i := g.r.N(len(k))
	k[i] = 0
	return k
}

func genTrie(r *R, size, maxOps int, prefixes bool) []Op {
	n := 1 + size*maxOps/100
	if r.P(35) {
		n = 1 + r.N(12)
	}
	g := newByteGen(r)
	var ops []Op
	for len(ops) < n {
		m := 1 + r.N(n/2+2)
		phase := r.Pick(4, 3, 2)
		for i := 0; i < m && len(ops) < n; i++ {
			var op string
			switch phase {
			case 0:
				op = pick(r, "put", "put", "put", "put", "get", "rem")
			case 1:
				op = pick(r, "put", "rem", "rem", "get", "has", "put")
			case 2:
				op = pick(r, "rem", "rem", "rem", "get", "has", "put")
			}
			if prefixes && r.P(30) {
				op = "prefix"
			}
			k := g.key()
			z := int64(0)
			if r.P(4) {
				k = g.bad()
				z = int64(r.N(2))
				if r.P(30) {
					op = "valid"
				}
			}
			if op == "prefix" && r.P(40) {
				if r.P(50) && len(k) > 0 {
					k = k[:r.N(len(k)+1)]
				} else {
					k = append(k[:len(k):len(k)], g.key()...)
				}
			}
			ops = append(ops, Op{Op: op, B: append(Bytes{}, k...), Y: int64(r.N(1000)), Z: z})
		}
		if r.P(30) {
			ops = append(ops, Op{Op: "all"})
		}
	}
	return ops
}

func fixedTrie(prefixes bool) []*Case {
	var out []*Case
	keys := []string{"a", "ab", "b"}
	var alphabet []Op
	for _, k := range keys {
		alphabet = append(alphabet, Op{Op: "put", B: Bytes(k), Y: int64(len(k)) + 4}, Op{Op: "rem", B: Bytes(k)})
	}
	var tail []Op
	if prefixes {
		for _, p := range []string{"", "a", "ab", "abc", "b", "ba", "c", "a\x00", "ab\x00\x00", "\x00"} {
			tail = append(tail, Op{Op: "prefix", B: Bytes(p)})
		}
	}
	var rec func(ops []Op)
	rec = func(ops []Op) {
		out = append(out, &Case{Ops: append(cloneOps(ops), cloneOps(tail)...)})
		if len(ops) == 4 {
			return
		}
		for _, o := range alphabet {
			rec(append(ops[:len(ops):len(ops)], o))
		}
	}
	rec(nil)
	return out
}

func init() {
	register(&Check{
		ID:    "C10",
		Rule:  "Cases are generated put/get/has/remove histories over families of related byte strings (extensions, prefixes, siblings; two-letter to full alphabets) with occasional invalid keys, compared with a reference dictionary and its sorted order. Non-trivial: a present key was removed, an absent key was probed, and at some comparison a key was a prefix of another or a removed key had been put again.",
		Quick: 25000,
		Gen:   func(r *R, size int) *Case { return &Case{Ops: genTrie(r, size, 250, false)} },
		Fixed: func() []*Case { return fixedTrie(false) },
		Run: func(c *Case, t *T) {
			d := newTst(t)
			for i, o := range c.Ops {
				t.At(i, o)
				d.apply(o)
			}
			t.At(len(c.Ops), Op{Op: "final comparison"})
			d.full()
			t.nontriv = d.gone > 0 && d.absent > 0 && (d.nest || d.reput > 0)
			if d.nest {
				t.Label("nested-keys")
			}
			if d.reput > 0 {
				t.Label("put-after-remove")
			}
			if d.bad > 0 {
				t.Label("invalid-key")
			}
			if len(d.ref) == 0 {
				t.Label("empty-at-end")
			}
		},
	})
	register(&Check{
		ID:    "C11",
		Rule:  "Cases are generated trie histories with prefix searches; at the end every stored key, every prefix of it, and it extended by several bytes is searched too. The result is compared with the filter of the reference dictionary in sorted order. Non-trivial: some search returned several entries and some search on a non-empty trie returned none.",
		Quick: 25000,
		Gen:   func(r *R, size int) *Case { return &Case{Ops: genTrie(r, size, 150, true)} },
		Fixed: func() []*Case { return fixedTrie(true) },
		Run: func(c *Case, t *T) {
			d := newTst(t)
			for i, o := range c.Ops {
				t.At(i, o)
				d.apply(o)
			}
			seen := map[string]bool{}
			look := func(p string) {
				if !seen[p] && len(seen) < 150 {
					seen[p] = true
					t.At(len(c.Ops), Op{Op: "prefix", B: Bytes(p)})
					d.prefix([]byte(p))
				}
			}
			look("")
			for _, k := range d.keys("") {
				for i := 1; i <= len(k); i++ {
					look(k[:i])
				}
				look(k + "a")
				look(k + "\xff")
				look(k + k)
				look(k + "\x00")
				look(k + "\x01\x02\x03\x04")
			}
			t.nontriv = t.labels["prefix-many"] > 0 && t.labels["prefix-none"] > 0
		},
	})
	register(&Check{
		ID:    "C12",
		Rule:  "Cases are histories in which every key and prefix argument is a window, with spare capacity behind it, of one shared buffer that is rewritten between calls; the buffer is compared byte for byte around every call and the trie with a reference dictionary of copies. Keys obtained from iteration are appended to and re-checked. Non-trivial: at least two puts from windows with spare capacity, followed by a rewrite of the buffer.",
		Quick: 25000,
		Gen: func(r *R, size int) *Case {
			g := newByteGen(r)
			n := 2 + size*120/100
			if r.P(30) {
				n = 2 + r.N(10)
			}
			var ops []Op
			for len(ops) < n {
				switch r.Pick(4, 5, 2, 2, 1, 1, 1, 1) {
				case 0:
					ops = append(ops, Op{Op: "write", X: int64(r.N(12)), B: append(Bytes{}, g.key()...)})
				case 1:
					ops = append(ops, Op{Op: "put", X: int64(r.N(12)), Y: int64(r.N(1000)), Z: int64(1 + r.N(5))})
				case 2:
					ops = append(ops, Op{Op: "rem", X: int64(r.N(12)), Z: int64(1 + r.N(5))})
				case 3:
					ops = append(ops, Op{Op: "get", X: int64(r.N(12)), Z: int64(1 + r.N(5))})
				case 4:
					ops = append(ops, Op{Op: "prefix", X: int64(r.N(12)), Y: int64(r.N(2)), Z: int64(r.N(5))})
				case 5:
					ops = append(ops, Op{Op: "grow", X: int64(r.N(3)), Y: int64(1 + r.N(255))})
				case 6:
					ops = append(ops, Op{Op: "all"})
				case 7:
					ops = append(ops, Op{Op: "has", X: int64(r.N(12)), Z: int64(1 + r.N(5))})
				}
			}
			return &Case{Cfg: map[string]int64{"fill": int64(1 + r.N(255))}, Ops: ops}
		},
		Run: func(c *Case, t *T) {
			d := newTst(t)
			buf := make([]byte, 24+wrapCap(c.cfg("more"), 800))
			for i := range buf {
				buf[i] = byte('a' + (i+int(c.cfg("fill")&0xff))%3)
			}
			puts, rewritten := 0, false
			win := func(o Op) []byte {
				a := int(uint64(o.X) % uint64(len(buf)-4))
				n := int(uint64(o.Z) % uint64(8+(len(buf)-24)*2/3))
				if a+n > len(buf) {
					n = len(buf) - a
				}
				return buf[a : a+n]
			}
			for i, o := range c.Ops {
				t.At(i, o)
				before := append([]byte(nil), buf...)
				w := win(o)
				switch o.Op {
				case "write":
					copy(buf[int(uint64(o.X)%uint64(len(buf)-4)):], o.B)
					before = append([]byte(nil), buf...)
					if puts > 1 {
						rewritten = true
					}
				case "put":
					d.put(w, o.Y)
					puts++
				case "rem":
					d.rem(w)
				case "get":
					d.get(w)
				case "has":
					d.has(w)
				case "prefix":
					if o.Y&1 == 0 {
						d.prefix(w)
						break
					}
					// the buffer gets other contents before the result is walked
					p := string(w)
					it := d.m.PrefixFind(types.ByteSlice(w))
					for i := range buf {
						buf[i] = 'a' + (buf[i]-'a'+1)%3
					}
					d.seq("PrefixFind("+p+")", it, d.keys(p))
					copy(buf, before)
				case "grow":
					// append to the keys handed out by iteration
					var ks []types.Hashable
					switch uint64(o.X) % 3 {
					case 0:
						ks = collectK(t, "Keys", d.m.Keys(), len(d.ref))
					case 1:
						ks, _ = collectKV(t, "Iterate", d.m.Iterate(), len(d.ref))
					case 2:
						ks, _ = collectKV(t, "PrefixFind", d.m.PrefixFind(types.ByteSlice(w)), len(d.ref))
					}
					for _, k := range ks {
						b := k.(types.ByteSlice)
						_ = append(b, byte(o.Y))
						_ = append(b, byte(o.Y), byte(o.Y), byte(o.Y))
					}
					d.full()
				case "all":
					d.full()
				}
				t.Check(bytes.Equal(buf, before), "the call changed the caller's buffer from %q to %q", before, buf)
			}
			t.At(len(c.Ops), Op{Op: "final comparison"})
			for i := range buf {
				buf[i] = 'z'
			}
			d.full()
			for i := 1; i < 4; i++ {
				for _, k := range d.keys("") {
					if len(k) >= i {
						d.prefix([]byte(k[:i]))
					}
				}
			}
			t.nontriv = puts > 1 && rewritten
		},
	})
}
