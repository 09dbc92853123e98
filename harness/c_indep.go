package main

import (
	"fmt"
	"hash/fnv"
	"io"
	"sync"

	"github.com/timtadh/data-structures/errors"
	"github.com/timtadh/data-structures/exc"
)

// ---- C41: independence

// newMember makes a collection, or something that runs exception blocks and
// keeps a record of what happened.
func newMember(kind int, size, other int64) *readable {
	if kind < nReadables {
		return newReadable(kind, size, other)
	}
	var log []string
	note := func(f string, a ...interface{}) { log = append(log, fmt.Sprintf(f, a...)) }
	msgs := func(t exc.Throwable) {
		for _, e := range t.Exc().Errors {
			note("%v", e.Err)
		}
	}
	r := &readable{name: "exceptions", n: 1, size: func() int { return len(log) }}
	r.read = func(w io.Writer, x int64) {
		for _, l := range log {
			fmt.Fprintln(w, l)
		}
	}
	r.apply = func(i int, o Op) {
		kind := wrapCap(o.X, 5)
		b := exc.Try(func() {
			note("try %d", i)
			switch kind {
			case 1, 2:
				exc.Throwf("a%d", i)
			case 3:
				exc.ThrowOnError(errors.Errorf("b%d", i).(*errors.Error).Errs[0])
			case 4:
				exc.Try(func() { exc.Throwf("c%d", i) }).Finally(func() { note("inner %d", i) }).Unwind()
			}
		})
		if kind >= 2 {
			b.Catch(&exc.Exception{}, func(t exc.Throwable) {
				note("caught %d", i)
				msgs(t)
				if kind == 4 {
					exc.Rethrow(t, exc.Errorf("d%d", i))
				}
			})
		}
		b.Finally(func() { note("finally %d", i) })
		if t := b.Exception(); t != nil {
			note("out %d", i)
			msgs(t)
		}
	}
	return r
}

// inside calls f at the k-th write.
type inside struct {
	w io.Writer
	k int
	f func()
}

func (n *inside) Write(b []byte) (int, error) {
	if n.k--; n.k == 0 {
		n.f()
	}
	return n.w.Write(b)
}

func runIndep(c *Case, t *T) {
	n := 2 + wrapCap(c.cfg("members"), 4)
	ops := make([][]int, n)
	for i, o := range c.Ops {
		m := wrapCap(o.Z, n)
		ops[m] = append(ops[m], i)
	}
	make1 := func(m int) *readable {
		return newMember(wrapCap(c.cfg(fmt.Sprint("kind", m)), nReadables+1), c.cfg(fmt.Sprint("size", m)), c.cfg(fmt.Sprint("other", m)))
	}
	read := func(r *readable, x int64) uint64 {
		h := fnv.New64a()
		r.read(h, x)
		return h.Sum64()
	}
	// step makes operation i on a member and says what was read afterwards.
	step := func(r *readable, i int) uint64 {
		o := c.Ops[i]
		if o.Op == "read" {
			return read(r, int64(wrapCap(o.X, 1<<20)))
		}
		r.apply(i, o)
		return 0
	}
	end := func(r *readable) (a []uint64) {
		for x := 0; x < r.n; x++ {
			a = append(a, read(r, int64(x+3*r.n)))
		}
		return
	}
	// alone
	want := make([]uint64, len(c.Ops))
	last := make([][]uint64, n)
	name := make([]string, n)
	big := 0
	for m := 0; m < n; m++ {
		r := make1(m)
		name[m] = r.name
		for _, i := range ops[m] {
			want[i] = step(r, i)
		}
		last[m] = end(r)
		if r.size() >= 2 {
			big++
		}
	}
	compare := func(m int, how string, got []uint64, r *readable) string {
		for _, i := range ops[m] {
			if got[i] != want[i] {
				return fmt.Sprintf("%s: reading call %d gives another answer %s", name[m], i, how)
			}
		}
		for x, a := range end(r) {
			if a != last[m][x] {
				return fmt.Sprintf("%s: after all operations reading call %d gives another answer %s", name[m], x, how)
			}
		}
		return ""
	}
	// in turn
	t.step = -1
	rs := make([]*readable, n)
	for m := range rs {
		rs[m] = make1(m)
	}
	got := make([]uint64, len(c.Ops))
	for i, o := range c.Ops {
		got[i] = step(rs[wrapCap(o.Z, n)], i)
	}
	for m := range rs {
		f := compare(m, "when other collections are used in turn", got, rs[m])
		t.Check(f == "", "%s", f)
	}
	// one reading call inside another
	for m := range rs {
		for x := 0; x < rs[m].n; x++ {
			k := (m + 1 + wrapCap(c.cfg("inner"), n)) % n
			y := wrapCap(c.cfg("inner")+int64(x), rs[k].n)
			h := fnv.New64a()
			ran, in := false, uint64(0)
			rs[m].read(&inside{h, 1 + x%3, func() { ran, in = true, read(rs[k], int64(y+3*rs[k].n)) }}, int64(x+3*rs[m].n))
			t.Check(h.Sum64() == last[m][x], "%s: reading call %d gives another answer when %s is read meanwhile", name[m], x, name[k])
			t.Check(!ran || in == last[k][y], "%s: reading call %d gives another answer when %s is being read", name[k], y, name[m])
		}
	}
	// at the same time
	fails := make(chan string, n)
	var wg sync.WaitGroup
	for m := 0; m < n; m++ {
		wg.Add(1)
		go func(m int) {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					fails <- fmt.Sprintf("%s: panic while other goroutines use other collections: %v", name[m], p)
				}
			}()
			r := make1(m)
			got := make([]uint64, len(c.Ops))
			for _, i := range ops[m] {
				got[i] = step(r, i)
			}
			if f := compare(m, "while other goroutines use other collections", got, r); f != "" {
				fails <- f
			}
		}(m)
	}
	wg.Wait()
	select {
	case f := <-fails:
		t.Fail("%s", f)
	default:
	}
	t.nontriv = big >= 2
	for m := range name {
		t.Label(name[m])
	}
}

func init() {
	register(&Check{
		ID:    "C41",
		Rule:  "Cases give 2 to 5 collections (nineteen kinds, and a runner of exception blocks), often of one kind, and an interleaved history of operations and reading calls on them. Every collection goes through its part alone, then in turn with the others, then on a goroutine of its own while the others run on theirs; reading calls are also made inside the iteration of another collection. All answers must be those of the run alone, and the race detector must report nothing. Non-trivial: at least two collections with 2 elements.",
		Quick: 18000,
		Sched: true,
		Race:  2500,
		Gen: func(r *R, size int) *Case {
			n := 2 + r.Pick(5, 3, 1, 1)
			c := &Case{Cfg: map[string]int64{"members": int64(n - 2), "inner": int64(r.N(40))}}
			kind, same := r.N(nReadables+1), r.P(60)
			for m := 0; m < n; m++ {
				if !same {
					kind = r.N(nReadables + 1)
				}
				c.Cfg[fmt.Sprint("kind", m)] = int64(kind)
				c.Cfg[fmt.Sprint("size", m)] = int64(pick(r, 0, 1, 2, 5, 29))
				c.Cfg[fmt.Sprint("other", m)] = int64(r.N(12))
			}
			space := pick(r, 4, 10, 40, 200)
			for i := r.N(4 + size*120/100); i > 0; i-- {
				o := Op{Op: "put", X: int64(r.N(space)), Y: int64(i), Z: int64(r.N(n))}
				if r.P(25) {
					o.Op = "rem"
				} else if r.P(12) {
					o.Op, o.X = "read", int64(r.N(12*space))
				}
				c.Ops = append(c.Ops, o)
			}
			return c
		},
		Run: runIndep,
	})
}
