package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"

	"github.com/timtadh/data-structures/pool"
	dsrand "github.com/timtadh/data-structures/rand"
)

// ---- C33 and C34: the pool

// task is what is known about one submission. The times are positions in the
// order of all events.
type task struct {
	offered, returned int64
	err               error
	runs              int32
	started, finished int64
}

// poolRun is one execution of a case: goroutines submit, wait and stop as the
// case says, and all events get a position in one order.
type poolRun struct {
	p        *pool.Pool
	clock    int64
	running  int32
	most     int32
	startedN int64
	doneN    int64

	acceptedN int32
	mu        sync.Mutex
	tasks     []*task
	stops     [][2]int64 // call and return
	fail      string
	windows   int32
	opened    bool       // tasks were run before the generated ones
	busy      int32      // windows opened after work, with work offered meanwhile
	offers    int32      // submissions under way or done
	counts    int32      // counts read while work was outstanding
	winds     [][3]int64 // asked for, obtained, released
	accepted  int
}

func (r *poolRun) tick() int64 { return atomic.AddInt64(&r.clock, 1) }

func (r *poolRun) bad(f string, a ...interface{}) {
	r.mu.Lock()
	if r.fail == "" {
		r.fail = fmt.Sprintf(f, a...)
	}
	r.mu.Unlock()
}

func yields(n int) {
	for i := 0; i < n; i++ {
		runtime.Gosched()
	}
}

func (r *poolRun) submit(o Op, gate chan struct{}, nest int) {
	k := &task{}
	r.mu.Lock()
	r.tasks = append(r.tasks, k)
	r.mu.Unlock()
	atomic.AddInt32(&r.offers, 1)
	k.offered = r.tick()
	err := r.p.Do(func() {
		atomic.StoreInt64(&k.started, r.tick())
		n := atomic.AddInt32(&r.running, 1)
		for m := atomic.LoadInt32(&r.most); n > m && !atomic.CompareAndSwapInt32(&r.most, m, n); m = atomic.LoadInt32(&r.most) {
		}
		atomic.AddInt32(&k.runs, 1)
		atomic.AddInt64(&r.startedN, 1)
		switch wrapCap(o.X, 4) {
		case 1:
			runtime.Gosched()
		case 2:
			yields(5 + wrapCap(o.Y, 50))
		case 3:
			<-gate
		}
		// a task may offer further tasks itself
		for i := 0; i < nest; i++ {
			r.submit(Op{Op: "do", X: o.X + int64(i), Y: o.Y}, gate, nest-1)
		}
		atomic.AddInt32(&r.running, -1)
		atomic.AddInt64(&r.doneN, 1)
		atomic.StoreInt64(&k.finished, r.tick())
	})
	k.err = err
	k.returned = r.tick()
	if err == nil {
		atomic.AddInt32(&r.acceptedN, 1)
	}
}

func (r *poolRun) stop() {
	a := r.tick()
	r.p.Stop()
	b := r.tick()
	r.mu.Lock()
	r.stops = append(r.stops, [2]int64{a, b})
	r.mu.Unlock()
}

// window waits for the pool and looks at it while it is locked.
func (r *poolRun) window(o Op, workers int) {
	asked := r.tick()
	before := atomic.LoadInt32(&r.offers)
	r.p.WaitLock()
	got := r.tick()
	s, d, run := atomic.LoadInt64(&r.startedN), atomic.LoadInt64(&r.doneN), atomic.LoadInt32(&r.running)
	if run != 0 || s != d {
		r.bad("%d tasks are running (%d started, %d finished) when the lock is obtained", run, s, d)
	}
	r.mu.Lock()
	ts := append([]*task{}, r.tasks...)
	r.mu.Unlock()
	for _, k := range ts {
		if f := atomic.LoadInt64(&k.finished); atomic.LoadInt64(&k.started) > 0 && (f == 0 || f > got) {
			r.bad("a task that has started has not finished when the lock is obtained")
		}
	}
	yields(1 + wrapCap(o.Y, 60))
	if s2 := atomic.LoadInt64(&r.startedN); s2 != s {
		r.bad("%d tasks start while the lock is held", s2-s)
	}
	if atomic.LoadInt32(&r.offers) > before && before > 0 {
		atomic.AddInt32(&r.busy, 1)
	}
	atomic.AddInt32(&r.windows, 1)
	end := r.tick()
	r.mu.Lock()
	r.winds = append(r.winds, [3]int64{asked, got, end})
	r.mu.Unlock()
	r.p.Unlock()
}

// count reads the number of outstanding tasks, which must be right for some
// moment of the call. Tasks that are over may still be counted.
func (r *poolRun) count(workers int) {
	before := int64(atomic.LoadInt32(&r.acceptedN))
	n := int64(r.p.WaitCount())
	done2, after := atomic.LoadInt64(&r.doneN), int64(atomic.LoadInt32(&r.offers))
	if n < 0 {
		r.bad("WaitCount = %d", n)
	}
	if n > after {
		r.bad("WaitCount = %d with %d submissions", n, after)
	}
	if n < before-done2 {
		r.bad("WaitCount = %d with %d tasks accepted before the call and %d finished after it", n, before, done2)
	}
	// tasks of the opening may be over and their workers still to say so
	if before > 0 && done2 == 0 && !r.opened {
		r.bad("WaitCount returns %d with %d tasks outstanding and none finished", n, before)
	}
	if before > done2 {
		atomic.AddInt32(&r.counts, 1)
	}
}

// flood offers tasks that block until as many run as there are workers. If they
// never do, everything is asleep and the Go runtime says so.
func (r *poolRun) flood(workers int) {
	gate, started := make(chan struct{}), make(chan bool, workers*1000)
	var full, runs, accepted int32
	var wg sync.WaitGroup
	for s := 0; s < 2; s++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < workers*400 && atomic.LoadInt32(&full) == 0; i++ {
				err := r.p.Do(func() {
					started <- true
					<-gate
					atomic.AddInt32(&runs, 1)
				})
				if err != nil {
					r.bad("Do gives the error %v before the pool is stopped", err)
				} else {
					atomic.AddInt32(&accepted, 1)
				}
			}
		}()
	}
	for i := 0; i < workers; i++ {
		<-started
	}
	yields(20)
	if n := len(started); n > 0 {
		r.bad("%d tasks run at a time with %d workers", n+workers, workers)
	}
	atomic.StoreInt32(&full, 1)
	close(gate)
	wg.Wait()
	r.p.WaitLock()
	if a, b := atomic.LoadInt32(&accepted), atomic.LoadInt32(&runs); a != b {
		r.bad("%d tasks were accepted, %d have run when the lock is obtained", a, b)
	}
	r.p.Unlock()
}

//go:noinline
func waitCountWaiter(p *pool.Pool, got chan<- int) { got <- p.WaitCount() }

// parked says that the goroutine in waitCountWaiter is blocked in the pool, and
// not merely on its way through a mutex.
func parked() bool {
	buf := make([]byte, 1<<16)
	buf = buf[:runtime.Stack(buf, true)]
	for _, g := range bytes.Split(buf, []byte("\n\n")) {
		if bytes.Contains(g, []byte("main.waitCountWaiter(")) && bytes.Contains(g, []byte("WaitCount")) {
			head, _, _ := bytes.Cut(g, []byte("\n"))
			for _, s := range []string{"[sync.Cond.Wait", "[chan receive", "[select", "[sync.WaitGroup.Wait"} {
				if bytes.Contains(head, []byte(s)) {
					return true
				}
			}
		}
	}
	return false
}

// wake lets one of several blocked tasks finish while WaitCount waits: it must
// return then. If it does not, everything is asleep and the Go runtime says so.
func (r *poolRun) wake(tasks, rounds int) bool {
	gate, got := make(chan struct{}), make(chan int, 1)
	var accepted int32
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for i := 0; i < tasks; i++ {
			if err := r.p.Do(func() { <-gate }); err != nil {
				r.bad("Do gives the error %v before the pool is stopped", err)
			}
			atomic.AddInt32(&accepted, 1)
		}
	}()
	// a pool may delay submissions while all workers are busy
	for i := 0; i < 1000 && atomic.LoadInt32(&accepted) < int32(tasks); i++ {
		runtime.Gosched()
	}
	if atomic.LoadInt32(&accepted) < int32(tasks) {
		rounds = 0
	}
	seen := false
	left := tasks
	for ; rounds > 0 && left > 1; rounds-- {
		go waitCountWaiter(r.p, got)
		in := false
		for i := 0; i < 300 && !in; i++ {
			runtime.Gosched()
			in = parked()
		}
		gate <- struct{}{}
		left--
		if !in {
			break
		}
		seen = true
		// one task is over, and maybe still counted
		if n := <-got; n < left || n > left+1 {
			r.bad("WaitCount = %d with %d of %d tasks unfinished", n, left, tasks)
		}
	}
	close(gate)
	wg.Wait()
	r.p.WaitLock()
	r.p.Unlock()
	return seen
}

func runPool(c *Case, t *T) *poolRun {
	workers := 1 + wrapCap(c.cfg("workers"), 300)
	subs := 1 + wrapCap(c.cfg("subs"), 24)
	r := &poolRun{p: pool.New(workers)}
	if c.cfg("flood")%2 != 0 {
		r.opened = true
		r.flood(workers)
		t.Label("flood")
	} else if k := c.cfg("wake"); k > 0 {
		r.opened = true
		if r.wake(2+wrapCap(k, 7), 1+wrapCap(k, 3)) {
			t.Label("count-woken")
		}
	}
	ops := make([][]Op, subs)
	gated := false
	for _, o := range c.Ops {
		s := wrapCap(o.Z, subs)
		ops[s] = append(ops[s], o)
		gated = gated || (o.Op == "do" && wrapCap(o.X, 4) == 3)
	}
	// tasks offer tasks only where all of them fit into one queue and nobody
	// asks for the lock, which waits for the running tasks
	nest, offers := wrapCap(c.cfg("nest"), 3), 0
	for _, o := range c.Ops {
		if o.Op == "do" {
			offers++
		}
		if o.Op == "many" || o.Op == "wait" {
			nest = 0
		}
	}
	if offers > 6-2*nest || c.cfg("quiesce")%2 != 0 {
		nest = 0
	}
	if nest > 0 {
		t.Label("nested-tasks")
	}
	gate := make(chan struct{})
	var wg sync.WaitGroup
	for s := range ops {
		wg.Add(1)
		go func(ops []Op) {
			defer wg.Done()
			for _, o := range ops {
				switch o.Op {
				case "do":
					r.submit(o, gate, nest)
				case "many":
					for i := 0; i < wrapCap(o.Y, 3000); i++ {
						r.submit(Op{Op: "do", X: o.X, Y: 0}, gate, 0)
					}
				case "yield":
					yields(1 + wrapCap(o.Y, 40))
				case "stop":
					r.stop()
				case "wait":
					r.window(o, workers)
				case "count":
					r.count(workers)
				}
			}
		}(ops[s])
	}
	yields(int(c.cfg("gate") % 300))
	close(gate)
	wg.Wait()
	if c.cfg("quiesce")%2 != 0 {
		r.window(Op{}, workers)
		if n := r.p.WaitCount(); n != 0 {
			r.bad("WaitCount = %d in a pool without work", n)
		}
	}
	r.stop()
	total := r.tick()
	// the pool is stopped: nothing is accepted any more
	late := &task{}
	if err := r.p.Do(func() { atomic.AddInt32(&late.runs, 1) }); err == nil {
		r.bad("a stopped pool accepts a task")
	}
	r.stop()
	if n := r.p.WaitCount(); n != 0 {
		r.bad("WaitCount = %d in a stopped pool", n)
	}
	r.p.WaitLock()
	r.p.Unlock()
	runtime.Gosched()
	if atomic.LoadInt32(&late.runs) != 0 {
		r.bad("a refused task runs")
	}
	t.step = -1
	t.Check(r.fail == "", "%s", r.fail)
	accepted, refused := 0, 0
	last := int64(0)
	for _, s := range r.stops[:len(r.stops)-1] {
		if s[1] > last {
			last = s[1]
		}
	}
	firstStop := int64(1 << 62) // return of the first stop
	for _, s := range r.stops {
		if s[1] < firstStop {
			firstStop = s[1]
		}
	}
	one := len(r.stops) == 2 || oneStopper(c.Ops, subs)
	for i, k := range r.tasks {
		n := atomic.LoadInt32(&k.runs)
		if k.err != nil {
			refused++
			t.Check(n == 0, "task %d was refused and has run %d times", i, n)
			t.Check(k.returned > r.firstStopCall(), "task %d is refused (%v) before the pool is stopped", i, k.err)
			continue
		}
		accepted++
		t.Check(n == 1, "task %d was accepted and has run %d times when the pool is stopped", i, n)
		f := atomic.LoadInt64(&k.finished)
		t.Check(f > 0 && f < total && f < last, "task %d finishes after the pool is stopped", i)
		t.Check(k.offered < firstStop, "task %d, offered after the pool was stopped, is accepted", i)
		if one {
			t.Check(f < firstStop, "Stop returns before the accepted task %d has finished", i)
		}
		for _, w := range r.winds {
			t.Check(!(k.started > w[1] && k.started < w[2]), "task %d starts while the lock is held", i)
			t.Check(!(k.returned < w[0] && f > w[1]), "task %d, accepted before the lock was asked for, finishes after it is obtained", i)
			t.Check(!(f > w[1] && f < w[2]), "task %d finishes while the lock is held", i)
		}
	}
	t.Check(int(atomic.LoadInt32(&r.most)) <= workers, "%d tasks run at a time with %d workers", r.most, workers)
	if refused > 0 {
		t.Label("refused-tasks")
	}
	if accepted > 100*workers {
		t.Label("full-queues")
	}
	if r.most > 1 {
		t.Label("parallel-tasks")
	}
	if gated {
		t.Label("blocked-tasks")
	}
	if r.counts > 0 {
		t.Label("counts-while-busy")
	}
	if atomic.LoadInt32(&r.busy) > 0 {
		t.Label("offers-while-locked")
	}
	if accepted > 0 && len(r.stops) > 2 {
		t.Label("stop-among-submissions")
	}
	r.accepted = accepted
	return r
}

// oneStopper says that no two goroutines of the case stop the pool.
func oneStopper(ops []Op, subs int) bool {
	who := -1
	for _, o := range ops {
		if o.Op == "stop" {
			s := wrapCap(o.Z, subs)
			if who >= 0 && who != s {
				return false
			}
			who = s
		}
	}
	return true
}

func (r *poolRun) firstStopCall() int64 {
	first := int64(1 << 62)
	for _, s := range r.stops {
		if s[0] < first {
			first = s[0]
		}
	}
	return first
}

func genPool(wait bool) func(r *R, size int) *Case {
	return func(r *R, size int) *Case {
		c := &Case{Cfg: map[string]int64{
			"workers": int64(r.Pick(4, 3, 2, 1, 1, 1)), "subs": int64(r.Pick(2, 3, 3, 2, 1, 1)),
			"gate": int64(pick(r, 0, 1, 10, 100)), "quiesce": int64(r.N(2)), "flood": int64(r.Pick(96, 4)),
		}}
		if wait && r.P(10) {
			c.Cfg["wake"] = int64(1 + r.N(40))
		}
		allGated := r.P(8)
		subs := int(c.Cfg["subs"]) + 1
		n := 1 + r.N(2+size*40/100)
		stop := 0
		if r.P(35) {
			stop = 3
		}
		for i := 0; i < n; i++ {
			o := Op{Y: int64(r.N(100)), Z: int64(r.N(subs))}
			w := []int{50, 3, 12, stop, 0, 6}
			if wait {
				w[4] = 18
			}
			switch r.Pick(w...) {
			case 0:
				o.Op, o.X = "do", int64(r.Pick(5, 3, 3, 1))
				if allGated {
					o.X = 3
				}
			case 1:
				o.Op, o.X, o.Y = "many", int64(r.Pick(5, 1)), int64(r.N(160))
			case 2:
				o.Op = "yield"
			case 3:
				o.Op = "stop"
			case 4:
				o.Op = "wait"
			case 5:
				o.Op = "count"
			}
			c.Ops = append(c.Ops, o)
		}
		if !wait && r.P(8) {
			c.Cfg["nest"], c.Cfg["quiesce"] = int64(1+r.N(2)), 0
			var few []Op
			dos := 0
			for _, o := range c.Ops {
				if o.Op == "do" {
					dos++
				}
				if o.Op != "many" && (o.Op != "do" || dos <= 6-2*int(c.Cfg["nest"])) {
					few = append(few, o)
				}
			}
			c.Ops = few
		}
		return c
	}
}

// ---- C35: the shared random source

type drawer interface {
	Int63() int64
	Uint32() uint32
	Uint64() uint64
	Int31() int32
	Int() int
	Int63n(int64) int64
	Int31n(int32) int32
	Intn(int) int
	Float64() float64
	Float32() float32
	NormFloat64() float64
	ExpFloat64() float64
	Perm(int) []int
	Seed(int64)
	Read([]byte) (int, error)
	Shuffle(int, func(i, j int))
}

func draw(d drawer, o Op) string {
	n := 1 + wrapCap(o.Y, 1000)
	switch o.Op {
	case "Uint32":
		return fmt.Sprint(d.Uint32())
	case "Uint64":
		return fmt.Sprint(d.Uint64())
	case "Int31":
		return fmt.Sprint(d.Int31())
	case "Int":
		return fmt.Sprint(d.Int())
	case "Int63n":
		return fmt.Sprint(d.Int63n(int64(n) << 30))
	case "Int31n":
		return fmt.Sprint(d.Int31n(int32(n)))
	case "Intn":
		return fmt.Sprint(d.Intn(n))
	case "Float64":
		return fmt.Sprint(d.Float64())
	case "Float32":
		return fmt.Sprint(d.Float32())
	case "Norm":
		return fmt.Sprint(d.NormFloat64())
	case "Exp":
		return fmt.Sprint(d.ExpFloat64())
	case "Perm":
		return fmt.Sprint(d.Perm(n % 20))
	case "Seed":
		d.Seed(o.X)
		return ""
	case "Read":
		b := make([]byte, n%40)
		k, err := d.Read(b)
		return fmt.Sprint(k, err, b)
	case "Shuffle":
		var s []int
		d.Shuffle(n%20, func(i, j int) { s = append(s, i, j) })
		return fmt.Sprint(s)
	}
	return fmt.Sprint(d.Int63())
}

var drawOps = []string{"Int63", "Uint32", "Uint64", "Int31", "Int", "Int63n", "Int31n", "Intn", "Float64", "Float32", "Norm", "Exp", "Perm", "Seed", "Read", "Shuffle"}

func runRand(c *Case, t *T) {
	seed := c.cfg("seed")
	a, b, ref := dsrand.ThreadSafeRand(seed), dsrand.ThreadSafeRand(seed), rand.New(rand.NewSource(seed))
	ref2 := rand.New(rand.NewSource(seed))
	for i, o := range c.Ops {
		t.At(i, o)
		if o.Op == "together" {
			continue
		}
		if o.Z%2 == 0 {
			got, want := draw(a, o), draw(ref, o)
			t.Check(got == want, "%s gives %s, the standard generator %s", o.Op, got, want)
		} else {
			got, want := draw(b, o), draw(ref2, o)
			t.Check(got == want, "a second source with the same seed: %s gives %s, the standard generator %s", o.Op, got, want)
		}
	}
	t.nontriv = len(c.Ops) >= 5
	for i, o := range c.Ops {
		if o.Op != "together" {
			continue
		}
		t.At(i, o)
		g := 2 + wrapCap(o.X, 30)
		each := 1 + wrapCap(o.Y, 3000)
		src := dsrand.ThreadSafeRand(seed + int64(i))
		std := rand.New(rand.NewSource(seed + int64(i)))
		got := make([][]uint64, g)
		var wg sync.WaitGroup
		for k := 0; k < g; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				out := make([]uint64, 0, each)
				for j := 0; j < each; j++ {
					if (j+k)%3 == 0 {
						out = append(out, src.Uint64()<<1>>1)
					} else {
						out = append(out, uint64(src.Int63()))
					}
				}
				got[k] = out
			}(k)
		}
		wg.Wait()
		pos := make(map[uint64]int, g*each)
		for j := 0; j < g*each; j++ {
			pos[uint64(std.Int63())] = j
		}
		used := make(map[int]int, g*each)
		for k := range got {
			last := -1
			for j, v := range got[k] {
				p, ok := pos[v]
				t.Check(ok, "goroutine %d draws a value that is not among the first %d of the sequence (draw %d)", k, g*each, j)
				t.Check(p > last, "goroutine %d draws value %d of the sequence after value %d", k, p, last)
				last = p
				other, dup := used[p]
				t.Check(!dup, "value %d of the sequence is handed out twice, to goroutines %d and %d", p, other, k)
				used[p] = k
			}
		}
		t.Label("concurrent")
		t.nontriv = true
	}
}

func init() {
	register(&Check{
		ID:    "C33",
		Rule:  "Cases are programs for 1 to 6 goroutines that submit tasks (immediate, yielding, blocked on a gate, bursts beyond the queue length, in some cases offering further tasks themselves), read the count and stop a pool of 1 to 6 workers; all events get a position in one order and every task is judged by it. The Go scheduler chooses the interleaving; every case is one schedule. Non-trivial: at least 2 submitters and 4 accepted tasks.",
		Quick: 60000,
		Sched: true,
		Race:  600,
		Gen:   genPool(false),
		Run: func(c *Case, t *T) {
			r := runPool(c, t)
			t.nontriv = c.cfg("subs") > 0 && r.accepted >= 4
		},
		Assume: []string{"Interleavings are those the Go scheduler produces with yields at generated places; they are sampled, not enumerated."},
	})
	register(&Check{
		ID:    "C34",
		Rule:  "Cases are programs for 1 to 6 goroutines that submit tasks, obtain and release the waiting lock, read the count and stop a pool of 1 to 6 workers; inside each lock window and afterwards the order of events is judged. Non-trivial: a window obtained after work was submitted and with more work submitted while waiting or locked.",
		Quick: 60000,
		Sched: true,
		Race:  600,
		Gen:   genPool(true),
		Run: func(c *Case, t *T) {
			r := runPool(c, t)
			t.nontriv = atomic.LoadInt32(&r.busy) > 0
		},
		Assume: []string{"Interleavings are those the Go scheduler produces with yields at generated places; they are sampled, not enumerated."},
	})
	register(&Check{
		ID:    "C35",
		Rule:  "Cases are a seed and a sequence of the generator's drawing calls (16 kinds, reseeding included) compared with the standard generator, and in a part of the cases 2 to 7 goroutines drawing up to 3000 values each at the same time, whose draws must be the standard sequence dealt out once. Non-trivial: at least 5 calls or a concurrent part.",
		Quick: 12000,
		Sched: true,
		Race:  400,
		Fixed: func() []*Case {
			return []*Case{{Cfg: map[string]int64{"seed": 1}, Ops: []Op{{Op: "together", X: 2, Y: 2999}, {Op: "together", X: 5, Y: 2500}}}}
		},
		Gen: func(r *R, size int) *Case {
			c := &Case{Cfg: map[string]int64{"seed": r.Int64()}}
			for i := r.N(3 + size*30/100); i >= 0; i-- {
				c.Ops = append(c.Ops, Op{Op: pick(r, drawOps...), X: r.Int64(), Y: int64(r.N(1000)), Z: int64(r.N(3))})
			}
			if r.P(20) {
				c.Ops = append(c.Ops, Op{Op: "together", X: int64(r.N(6)), Y: int64(r.N(3000))})
			}
			return c
		},
		Run: runRand,
	})
}
