package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"os"
	"runtime/debug"
	"strings"
)

// Bytes is a byte string that reads well in JSON: every byte is one rune.
type Bytes []byte

func (b Bytes) MarshalJSON() ([]byte, error) {
	r := make([]rune, len(b))
	for i, c := range b {
		r[i] = rune(c)
	}
	return json.Marshal(string(r))
}

func (b *Bytes) UnmarshalJSON(data []byte) error {
	var s string
	if err := json.Unmarshal(data, &s); err != nil {
		return err
	}
	*b = (*b)[:0]
	for _, r := range s {
		*b = append(*b, byte(r))
	}
	return nil
}

// Op is one step of a generated program. What the fields mean depends on the
// check; every check accepts every value of them.
type Op struct {
	Op   string `json:"op"`
	X    int64  `json:"x,omitempty"`
	Y    int64  `json:"y,omitempty"`
	Z    int64  `json:"z,omitempty"`
	B    Bytes  `json:"b,omitempty"`
	Kids []Op   `json:"kids,omitempty"`
}

// Case is a whole generated test case.
type Case struct {
	Prop string           `json:"property"`
	Cfg  map[string]int64 `json:"cfg,omitempty"`
	Ops  []Op             `json:"ops"`
}

func (c *Case) cfg(name string) int64 { return c.Cfg[name] }

func (c *Case) json() []byte {
	var buf bytes.Buffer
	e := json.NewEncoder(&buf)
	e.SetEscapeHTML(false)
	if err := e.Encode(c); err != nil {
		panic(err)
	}
	return bytes.TrimSpace(buf.Bytes())
}

func (c *Case) hash() uint64 {
	h := fnv.New64a()
	h.Write(c.json())
	return h.Sum64()
}

func cloneOps(ops []Op) []Op {
	if ops == nil {
		return nil
	}
	n := make([]Op, len(ops))
	for i, o := range ops {
		n[i] = o
		n[i].B = append(Bytes(nil), o.B...)
		n[i].Kids = cloneOps(o.Kids)
	}
	return n
}

func (c *Case) clone() *Case {
	n := &Case{Prop: c.Prop, Cfg: map[string]int64{}, Ops: cloneOps(c.Ops)}
	for k, v := range c.Cfg {
		n.Cfg[k] = v
	}
	return n
}

func loadCase(path string) (*Case, error) {
	data, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var f struct {
		Case *Case `json:"case"`
	}
	if err := json.Unmarshal(data, &f); err == nil && f.Case != nil {
		return f.Case, nil
	}
	c := &Case{}
	if err := json.Unmarshal(data, c); err != nil {
		return nil, err
	}
	return c, nil
}

// failure is the panic value by which an oracle reports a violation.
type failure struct{ msg string }

// T is what a running case reports to.
type T struct {
	labels  map[string]int
	nontriv bool
	known   []string
	step    int    // index of the op being run, for messages
	doing   string // description of the op being run
}

// Fail reports a violation and stops the case.
func (t *T) Fail(format string, args ...interface{}) {
	s := fmt.Sprintf(format, args...)
	if len(s) > 2000 {
		s = s[:1500] + " ... " + s[len(s)-400:]
	}
	panic(failure{s})
}

// Check reports a violation unless ok.
func (t *T) Check(ok bool, format string, args ...interface{}) {
	if !ok {
		t.Fail(format, args...)
	}
}

// Label counts cases in which something happened (once per case).
func (t *T) Label(name string) { t.labels[name] = 1 }

// At notes the op being run.
func (t *T) At(i int, o Op) {
	t.step = i
	t.doing = opString(o)
}

func opString(o Op) string {
	s := fmt.Sprintf("%s(%d,%d,%d", o.Op, o.X, o.Y, o.Z)
	if o.B != nil {
		s += fmt.Sprintf(",%q", string(o.B))
	}
	s += ")"
	if len(o.Kids) > 0 {
		s += fmt.Sprintf("{%d}", len(o.Kids))
	}
	return s
}

type result struct {
	msg     string // "" when the property held
	nontriv bool
	labels  map[string]int
	known   []string
}

// runCase runs one case against the code under test.
func runCase(ch *Check, c *Case) (res result) {
	t := &T{labels: map[string]int{}, step: -1}
	defer func() {
		res.nontriv = t.nontriv
		res.labels = t.labels
		res.known = t.known
		if r := recover(); r != nil {
			where := ""
			if t.step >= 0 {
				where = fmt.Sprintf("at op %d %s: ", t.step, t.doing)
			}
			if f, ok := r.(failure); ok {
				res.msg = where + f.msg
			} else {
				res.msg = fmt.Sprintf("%spanic: %v\n%s", where, r, trimStack(string(debug.Stack())))
			}
		}
	}()
	resetCounters()
	if c.cfg("huge") > 0 {
		cmpLimit = math.MaxInt64 // limited by its CPU time only
	}
	ch.Run(expand(c), t)
	return
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var keep []string
	for _, l := range lines {
		if strings.HasPrefix(l, "\t") && (strings.Contains(l, "data-structures") || strings.Contains(l, "/repo/")) {
			keep = append(keep, strings.TrimSpace(l))
		}
		if len(keep) >= 6 {
			break
		}
	}
	return strings.Join(keep, "\n")
}
