package main

import (
	"encoding/json"
	"os"
	"sort"
	"time"
)

// shrink makes a failing case smaller while it keeps failing. fails runs a
// candidate; save records every improvement.
func shrink(c *Case, fails func(*Case) bool, save func(*Case), budget int, wall time.Duration) *Case {
	start := time.Now()
	best := c.clone()
	tries := 0
	try := func(n *Case) bool {
		if tries >= budget || time.Since(start) > wall {
			return false
		}
		tries++
		if fails(n) {
			best = n
			if save != nil {
				save(n)
			}
			return true
		}
		return false
	}
	for round := 0; round < 6; round++ {
		before := string(best.json())
		shrinkList(func() []Op { return best.Ops }, func(ops []Op) bool {
			n := best.clone()
			n.Ops = cloneOps(ops)
			return try(n)
		})
		// nested lists and op fields
		for i := 0; i < len(best.Ops); i++ {
			shrinkOp(func() (Op, bool) {
				if i < len(best.Ops) {
					return best.Ops[i], true
				}
				return Op{}, false
			}, func(o Op) bool {
				n := best.clone()
				n.Ops[i] = o
				return try(n)
			}, func(repl []Op) bool {
				n := best.clone()
				ops := append([]Op{}, n.Ops[:i]...)
				ops = append(ops, cloneOps(repl)...)
				ops = append(ops, n.Ops[i+1:]...)
				n.Ops = ops
				return try(n)
			}, 0)
		}
		var names []string
		for k := range best.Cfg {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, k := range names {
			for _, v := range smaller(best.Cfg[k]) {
				n := best.clone()
				n.Cfg[k] = v
				if try(n) {
					break
				}
			}
		}
		if string(best.json()) == before || tries >= budget || time.Since(start) > wall {
			break
		}
	}
	return best
}

func shrinkList(get func() []Op, set func([]Op) bool) {
	for chunk := len(get()); chunk >= 1; {
		changed := false
		for at := 0; at < len(get()); {
			ops := get()
			end := at + chunk
			if end > len(ops) {
				end = len(ops)
			}
			n := append(append([]Op{}, ops[:at]...), ops[end:]...)
			if set(n) {
				changed = true
			} else {
				at += chunk
			}
		}
		if chunk == 1 && !changed {
			break
		}
		if !changed || chunk > len(get()) {
			chunk /= 2
		}
		if chunk < 1 && changed {
			chunk = 1
		}
	}
}

func shrinkOp(get func() (Op, bool), set func(Op) bool, replace func([]Op) bool, depth int) {
	o, ok := get()
	if !ok || depth > 12 {
		return
	}
	if len(o.Kids) > 0 {
		if replace(o.Kids) {
			return
		}
		shrinkList(func() []Op { o, _ := get(); return o.Kids }, func(k []Op) bool {
			o, ok := get()
			if !ok {
				return false
			}
			o.Kids = k
			return set(o)
		})
		for j := 0; ; j++ {
			o, ok := get()
			if !ok || j >= len(o.Kids) {
				break
			}
			shrinkOp(func() (Op, bool) {
				o, ok := get()
				if !ok || j >= len(o.Kids) {
					return Op{}, false
				}
				return o.Kids[j], true
			}, func(k Op) bool {
				o, _ := get()
				o.Kids = cloneOps(o.Kids)
				o.Kids[j] = k
				return set(o)
			}, func(repl []Op) bool {
				o, _ := get()
				ks := append([]Op{}, o.Kids[:j]...)
				ks = append(ks, repl...)
				ks = append(ks, o.Kids[j+1:]...)
				o.Kids = ks
				return set(o)
			}, depth+1)
		}
	}
	num := func(sel func(o *Op) *int64) {
		o, ok := get()
		if !ok {
			return
		}
		for _, v := range smaller(*sel(&o)) {
			n := o
			*sel(&n) = v
			if set(n) {
				return
			}
		}
	}
	num(func(o *Op) *int64 { return &o.X })
	num(func(o *Op) *int64 { return &o.Y })
	num(func(o *Op) *int64 { return &o.Z })
	for {
		o, ok := get()
		if !ok || len(o.B) == 0 {
			return
		}
		done := true
		var cands []Bytes
		cands = append(cands, Bytes{}, append(Bytes{}, o.B[:len(o.B)/2]...), append(Bytes{}, o.B[1:]...), append(Bytes{}, o.B[:len(o.B)-1]...))
		for i, ch := range o.B {
			if ch != 'a' && i < 8 {
				b := append(Bytes{}, o.B...)
				b[i] = 'a'
				cands = append(cands, b)
			}
		}
		for _, b := range cands {
			n := o
			n.B = b
			if set(n) {
				done = false
				break
			}
		}
		if done {
			return
		}
	}
}

// smaller lists simpler values to try instead of v, simplest first.
func smaller(v int64) []int64 {
	if v == 0 {
		return nil
	}
	var out []int64
	seen := map[int64]bool{v: true}
	add := func(x int64) {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	add(0)
	if v < 0 && -v > 0 {
		add(-v)
	}
	if v > 0 && v <= 8 {
		for x := int64(1); x < v; x++ {
			add(x)
		}
		return out
	}
	add(1)
	add(v / 16)
	add(v / 2)
	if v > 0 {
		add(v - 1)
	} else {
		add(v + 1)
	}
	return out
}

type saved struct {
	Msg  string `json:"message"`
	Case *Case  `json:"case"`
}

// shrinkMain: harness shrink IN OUT. In-process shrinking of an ordinary failure.
func shrinkMain(args []string) {
	c, err := loadCase(args[0])
	if err != nil {
		die("%v", err)
	}
	ch := checks[c.Prop]
	msg := ""
	fails := func(n *Case) bool {
		for k := ch.repeats(30); k > 0; k-- {
			res := runCase(ch, n)
			if res.msg != "" {
				msg = res.msg
				return true
			}
		}
		return false
	}
	save := func(n *Case) {
		data, _ := json.MarshalIndent(saved{msg, n}, "", " ")
		os.WriteFile(args[1]+".tmp", data, 0o644)
		os.Rename(args[1]+".tmp", args[1])
	}
	if !fails(c) {
		os.Exit(3)
	}
	save(c)
	shrink(c, fails, save, 6000, 25*time.Second)
}
