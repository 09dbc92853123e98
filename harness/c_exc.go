package main

import (
	"bytes"
	stderrors "errors"
	"fmt"
	"io"
	"log"
	"runtime"
	"slices"
	"strings"

	"github.com/timtadh/data-structures/errors"
	"github.com/timtadh/data-structures/exc"
)

// ---- C30 and C31: programs of nested blocks, run by the library and by a model

type (
	excA struct {
		exc.Exception
		n int
	}
	excB struct {
		excA
		s string
	}
	excC struct{ exc.Exception }
	excD struct{ excB }
	// excV is a throwable that is not a pointer.
	excV struct{ msgs *[]string }
	// excP is a throwable that embeds nothing.
	excP struct {
		mark struct{}
		errs []*exc.Error
	}
)

func (v excV) Exc() *exc.Exception {
	e := &exc.Exception{}
	for _, m := range *v.msgs {
		e.Errors = append(e.Errors, &exc.Error{Err: stderrors.New(m)})
	}
	return e
}
func (v excV) Error() string { return strings.Join(*v.msgs, ",") }
func (v excV) Chain(e *exc.Error) exc.Throwable {
	*v.msgs = append(*v.msgs, e.Err.Error())
	return v
}

func (p *excP) Exc() *exc.Exception { return &exc.Exception{Errors: p.errs} }
func (p *excP) Error() string       { return fmt.Sprint(len(p.errs)) }
func (p *excP) Chain(e *exc.Error) exc.Throwable {
	p.errs = append(p.errs, e)
	return p
}

const nExc = 7

var excNames = [nExc]string{"Exception", "A", "B", "C", "D", "V", "P"}

// excIsA[t] are the types t is or embeds.
var excIsA = [nExc][]int{{0}, {1, 0}, {2, 1, 0}, {3, 0}, {4, 2, 1, 0}, {5}, {6}}

func mkExc(t int, msg string) exc.Throwable {
	b := *exc.Errorf("%s", msg).Exception()
	switch t {
	case 1:
		return &excA{b, 1}
	case 2:
		return &excB{excA{b, 2}, "b"}
	case 3:
		return &excC{b}
	case 4:
		return &excD{excB{excA{b, 4}, "d"}}
	case 5:
		return excV{&[]string{msg}}
	case 6:
		return &excP{errs: b.Errors}
	}
	return &b
}

func protoExc(t int) exc.Throwable {
	switch t {
	case 1:
		return &excA{}
	case 2:
		return &excB{}
	case 3:
		return &excC{}
	case 4:
		return &excD{}
	case 5:
		return excV{}
	case 6:
		return &excP{}
	}
	return &exc.Exception{}
}

func excType(t exc.Throwable) int {
	switch t.(type) {
	case *exc.Exception:
		return 0
	case *excA:
		return 1
	case *excB:
		return 2
	case *excC:
		return 3
	case *excD:
		return 4
	case excV:
		return 5
	case *excP:
		return 6
	}
	return -1
}

func describe(t exc.Throwable) string {
	k := excType(t)
	name := fmt.Sprintf("%T", t)
	if k >= 0 {
		name = excNames[k]
	}
	var ms []string
	for _, e := range t.Exc().Errors {
		ms = append(ms, e.Err.Error())
	}
	return name + "[" + strings.Join(ms, " ") + "]"
}

// env tells what may happen at a place of a program. Throwing out of a finally
// handler is not specified, so it is not done.
type env struct {
	safe    bool // nothing may be thrown here
	nopanic bool // inside some finally handler
}

type foreign struct{ n int }

// prog runs a program with the library.
type prog struct {
	trace []string
	n     int // exceptions made
	objs  map[string]exc.Throwable
	size  int
	same  []string // objects that came out as other objects
}

func (p *prog) note(f string, a ...interface{}) {
	p.trace = append(p.trace, fmt.Sprintf(f, a...))
	if len(p.trace) > 5000 {
		panic(failure{"the program runs handlers without end"})
	}
}

func (p *prog) seen(t exc.Throwable) string {
	d := describe(t)
	es := t.Exc().Errors
	if len(es) > 0 {
		if o, ok := p.objs[es[0].Err.Error()]; ok && o != t {
			p.same = append(p.same, d)
		}
	}
	return d
}

type handler struct {
	catch bool
	typ   int
	op    Op
}

// split separates the handlers of a block from its body.
func split(o Op) (body []Op, hs []handler) {
	for _, k := range o.Kids {
		switch k.Op {
		case "catch":
			hs = append(hs, handler{true, wrapCap(k.X, nExc), k})
		case "finally":
			hs = append(hs, handler{op: k})
		default:
			body = append(body, k)
		}
	}
	return
}

// times is how often a block is run.
func times(o Op) int {
	if o.Op == "try" && o.Y == 1 {
		return 2
	}
	return 1
}

func terminal(z int64, e env) int {
	t := wrapCap(z, 3)
	if e.safe && t == 0 {
		t = 1
	}
	return t
}

type closer struct {
	p    *prog
	mode int
	id   int64
}

func (c *closer) Close() error {
	c.p.note("close %d", c.id)
	switch c.mode {
	case 1:
		return fmt.Errorf("close%d", c.id)
	case 2:
		exc.Throw(mkExc(3, fmt.Sprintf("closethrow%d", c.id)))
	}
	return nil
}

func (p *prog) run(ops []Op, e env, cur exc.Throwable) {
	for _, o := range ops {
		p.op(o, e, cur)
	}
}

func (p *prog) msg() string {
	p.n++
	return fmt.Sprintf("x%d", p.n)
}

func (p *prog) op(o Op, e env, cur exc.Throwable) {
	switch o.Op {
	case "mark":
		p.note("mark %d", o.X)
	case "throw":
		if e.safe {
			return
		}
		m := p.msg()
		t := wrapCap(o.X, nExc)
		if t == 0 {
			switch wrapCap(o.Y, 4) {
			case 1:
				exc.Throwf("%s", m)
			case 2:
				exc.ThrowErr(exc.Errorf("x%d", p.n))
			case 3:
				exc.ThrowOnError(stderrors.New(m))
			}
		}
		x := mkExc(t, m)
		p.objs[m] = x
		exc.Throw(x)
	case "noerr":
		exc.ThrowOnError(nil)
		p.note("no error")
	case "rethrow":
		if e.safe || cur == nil {
			return
		}
		m := p.msg()
		exc.Rethrow(cur, exc.Errorf("%s", m))
	case "again":
		if e.safe || cur == nil {
			return
		}
		exc.Throw(cur)
	case "panic":
		if e.safe || e.nopanic {
			return
		}
		if wrapCap(o.X, 6) == 5 {
			p.note("%v", []int{1, 2, 3}[7+len(p.objs)*0])
		}
		panic(foreignValue(o.X))
	case "try", "close":
		body, hs := split(o)
		term := terminal(o.Z, e)
		in := e
		if term != 0 {
			in.safe = false
		}
		var b *exc.Block
		if o.Op == "try" {
			b = exc.Try(func() { p.run(body, in, cur) })
		} else {
			b = exc.Close(func() io.Closer {
				p.note("open %d", o.Y/64)
				switch wrapCap(o.X, 8) {
				case 1:
					if !in.safe {
						x := mkExc(1, p.msg())
						exc.Throw(x)
					}
				case 2:
					return nil
				}
				m := wrapCap(o.Y, 3)
				if in.safe {
					m = 0
				}
				return &closer{p, m, o.Y / 64}
			}, func(c io.Closer) {
				if c == nil {
					p.note("no resource")
				} else if x, ok := c.(*closer); ok {
					p.note("resource %d", x.id)
				}
				p.run(body, in, cur)
			})
		}
		for _, h := range hs {
			h := h
			if h.catch {
				b = b.Catch(protoExc(h.typ), func(t exc.Throwable) {
					p.note("catch %s %d: %s", excNames[h.typ], h.op.Y, p.seen(t))
					p.run(h.op.Kids, in, t)
				})
			} else {
				b = b.Finally(func() {
					p.note("finally %d", h.op.Y)
					p.run(h.op.Kids, env{true, true}, nil)
				})
			}
		}
		for i := times(o); i > 0; i-- {
			switch term {
			case 0:
				b.Unwind()
				p.note("unwound")
			case 1:
				err := b.Error()
				if err == nil {
					p.note("no error")
				} else if t, ok := err.(exc.Throwable); ok {
					p.note("error %s", p.seen(t))
				} else {
					p.note("error of another kind: %T", err)
				}
			case 2:
				t := b.Exception()
				if t == nil {
					p.note("no exception")
				} else {
					p.note("exception %s", p.seen(t))
				}
			}
		}
	}
}

const foreignRuntime = "runtime error: index out of range [7] with length 3"

var foreignErr = stderrors.New("foreign")

func foreignValue(x int64) interface{} {
	switch wrapCap(x, 6) {
	case 1:
		return 17
	case 2:
		return foreignErr
	case 3:
		return foreign{int(x)}
	case 4:
		return theExcError
	case 5:
		return foreignRuntime
	}
	return "foreign panic"
}

// an *exc.Error is an error but nothing that can be thrown
var theExcError = &exc.Error{Err: foreignErr}

// top runs a whole program and notes how it ends.
func (p *prog) top(ops []Op) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case failure:
				panic(x)
			case runtime.Error:
				if x.Error() != foreignRuntime {
					panic(x)
				}
				p.note("panic: %T %v", x.Error(), x.Error())
			case exc.Throwable:
				p.note("escapes: %s", p.seen(x))
			default:
				p.note("panic: %T %v", r, r)
			}
		}
	}()
	p.run(ops, env{}, nil)
	p.note("end")
}

// mexc is an exception of the model.
type mexc struct {
	typ  int
	msgs []string
}

func (m *mexc) String() string {
	return excNames[m.typ] + "[" + strings.Join(m.msgs, " ") + "]"
}

// out is how a piece of a program ends: normally, with an exception or with a
// panic of another kind.
type out struct {
	x     *mexc
	panic string
}

func (o out) normal() bool { return o.x == nil && o.panic == "" }

// model runs a program by the definition of the blocks. What a failure of both
// body and close reports, and whether a foreign panic lets the resource be
// closed, is left open and given by the policies.
type model struct {
	trace  []string
	n      int
	both   int // 0 the failure to close, 1 the failure of the body, 2 both
	panics bool
	open   bool // one of the policies mattered
	depth  int
	deep   int
	caught int
	thrown int
	fin    int
	closed int
	failed map[string]bool
}

func (p *model) note(f string, a ...interface{}) { p.trace = append(p.trace, fmt.Sprintf(f, a...)) }

func (p *model) run(ops []Op, e env, cur *mexc) out {
	for _, o := range ops {
		if r := p.op(o, e, cur); !r.normal() {
			return r
		}
	}
	return out{}
}

func (p *model) msg() string {
	p.n++
	return fmt.Sprintf("x%d", p.n)
}

func (p *model) op(o Op, e env, cur *mexc) out {
	if times(o) == 2 {
		o.Y = 0
		if r := p.op(o, e, cur); !r.normal() {
			return r
		}
	}
	switch o.Op {
	case "mark":
		p.note("mark %d", o.X)
	case "throw":
		if !e.safe {
			p.thrown++
			return out{x: &mexc{wrapCap(o.X, nExc), []string{p.msg()}}}
		}
	case "noerr":
		p.note("no error")
	case "rethrow":
		if !e.safe && cur != nil {
			cur.msgs = append(cur.msgs, p.msg())
			return out{x: cur}
		}
	case "again":
		if !e.safe && cur != nil {
			return out{x: cur}
		}
	case "panic":
		if !e.safe && !e.nopanic {
			v := foreignValue(o.X)
			return out{panic: fmt.Sprintf("panic: %T %v", v, v)}
		}
	case "try", "close":
		body, hs := split(o)
		term := terminal(o.Z, e)
		in := e
		if term != 0 {
			in.safe = false
		}
		p.depth++
		if p.depth > p.deep {
			p.deep = p.depth
		}
		var r out
		if o.Op == "try" {
			r = p.run(body, in, cur)
		} else {
			r = p.resource(o, body, in, cur)
		}
		if r.x != nil {
			for _, h := range hs {
				if h.catch && slices.Contains(excIsA[r.x.typ], h.typ) {
					p.caught++
					p.note("catch %s %d: %s", excNames[h.typ], h.op.Y, r.x)
					r = p.run(h.op.Kids, in, r.x)
					break
				}
			}
		}
		if r.panic == "" {
			for _, h := range hs {
				if !h.catch {
					p.fin++
					p.note("finally %d", h.op.Y)
					p.run(h.op.Kids, env{true, true}, nil)
				}
			}
		}
		p.depth--
		if r.panic != "" {
			return r
		}
		switch term {
		case 0:
			if r.x != nil {
				return r
			}
			p.note("unwound")
		case 1:
			if r.x != nil {
				p.note("error %s", r.x)
			} else {
				p.note("no error")
			}
		case 2:
			if r.x != nil {
				p.note("exception %s", r.x)
			} else {
				p.note("no exception")
			}
		}
	}
	return out{}
}

func (p *model) resource(o Op, body []Op, in env, cur *mexc) out {
	id := o.Y / 64
	p.note("open %d", id)
	switch wrapCap(o.X, 8) {
	case 1:
		if !in.safe {
			p.thrown++
			p.failed["open"] = true
			return out{x: &mexc{1, []string{p.msg()}}}
		}
	case 2:
		p.note("no resource")
		p.failed["none"] = true
		return p.run(body, in, cur)
	}
	mode := wrapCap(o.Y, 3)
	if in.safe {
		mode = 0
	}
	p.note("resource %d", id)
	r := p.run(body, in, cur)
	if r.panic != "" {
		p.open = true
		if !p.panics {
			return r
		}
		p.note("close %d", id)
		return r
	}
	p.note("close %d", id)
	p.closed++
	var c *mexc
	switch mode {
	case 1:
		c = &mexc{0, []string{fmt.Sprintf("close%d", id)}}
	case 2:
		c = &mexc{3, []string{fmt.Sprintf("closethrow%d", id)}}
	}
	switch {
	case c == nil && r.x == nil:
		p.failed["neither"] = true
	case c == nil:
		p.failed["body"] = true
	case r.x == nil:
		p.failed["close"] = true
		r.x = c
	default:
		p.failed["both"] = true
		p.open = true
		switch p.both {
		case 0:
			r.x = c
		case 2:
			r.x = &mexc{0, append(append([]string{}, r.x.msgs...), c.msgs...)}
		}
	}
	return r
}

func compareTraces(got, want []string) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		g, w := "(nothing)", "(nothing)"
		if i < len(got) {
			g = got[i]
		}
		if i < len(want) {
			w = want[i]
		}
		if g != w {
			return fmt.Sprintf("event %d is %q, want %q (events %q, want %q)", i, g, w, got, want)
		}
	}
	return ""
}

func runProgram(c *Case, t *T) *model {
	ops := prune(c.Ops, 260, new(int))
	p := &prog{objs: map[string]exc.Throwable{}}
	p.top(ops)
	first := ""
	var m *model
	for both := 0; both < 3; both++ {
		for pa := 0; pa < 2; pa++ {
			m = &model{both: both, panics: pa == 1, failed: map[string]bool{}}
			r := m.run(ops, env{}, nil)
			switch {
			case r.panic != "":
				m.note("%s", r.panic)
			case r.x != nil:
				m.note("escapes: %s", r.x)
			default:
				m.note("end")
			}
			d := compareTraces(p.trace, m.trace)
			if d == "" {
				t.Check(len(p.same) == 0, "an exception comes out as another object than the one thrown: %v", p.same)
				return m
			}
			if first == "" {
				first = d
			}
			if !m.open {
				t.Fail("%s", first)
			}
		}
	}
	t.Fail("%s", first)
	return m
}

// prune bounds the depth and size of a program.
func prune(ops []Op, depth int, n *int) (res []Op) {
	if depth == 0 {
		return nil
	}
	for _, o := range ops {
		*n++
		if *n > 3000 {
			return
		}
		o.Kids = prune(o.Kids, depth-1, n)
		res = append(res, o)
	}
	return
}

func genBlock(r *R, depth int, incatch bool, budget *int, closing int) []Op {
	var ops []Op
	for i := r.N(4); i >= 0 && *budget > 0; i-- {
		*budget--
		w := []int{30, 22, 2, 3, 30}
		if depth == 0 {
			w[4] = 0
		}
		if incatch {
			w = append(w, 18, 6)
		}
		switch r.Pick(w...) {
		case 0:
			ops = append(ops, Op{Op: "mark", X: int64(r.N(100))})
		case 1:
			ops = append(ops, Op{Op: "throw", X: int64(r.N(nExc)), Y: int64(r.N(4))})
		case 2:
			ops = append(ops, Op{Op: "noerr"})
		case 3:
			ops = append(ops, Op{Op: "panic", X: int64(r.N(6))})
		case 4:
			ops = append(ops, genTry(r, depth-1, incatch, budget, closing))
		case 5:
			ops = append(ops, Op{Op: "rethrow"})
		case 6:
			ops = append(ops, Op{Op: "again"})
		}
	}
	return ops
}

func genTry(r *R, depth int, incatch bool, budget *int, closing int) Op {
	o := Op{Op: "try", Z: int64(r.Pick(2, 1, 1))}
	if r.P(closing) {
		o.Op = "close"
		o.X = int64(r.Pick(6, 1, 1))
		o.Y = int64(r.N(50)*64*3) + int64(r.Pick(5, 2, 1))
	}
	o.Kids = genBlock(r, depth, incatch, budget, closing)
	for i := r.Pick(3, 4, 4, 2, 1); i > 0; i-- {
		if r.P(60) {
			o.Kids = append(o.Kids, Op{Op: "catch", X: int64(r.Pick(3, 3, 3, 2, 2, 1, 1)), Y: int64(r.N(100)), Kids: genBlock(r, depth, true, budget, closing)})
		} else {
			o.Kids = append(o.Kids, Op{Op: "finally", Y: int64(r.N(100)), Kids: genBlock(r, min(depth, 1), false, budget, closing)})
		}
	}
	return o
}

func genProgram(closing int) func(r *R, size int) *Case {
	return func(r *R, size int) *Case {
		budget := 4 + size*60/100
		depth := 1 + r.N(4)
		c := &Case{Ops: []Op{}}
		for i := r.N(3); i >= 0; i-- {
			o := genTry(r, depth, false, &budget, closing)
			if i > 0 {
				o.Z = int64(1 + r.N(2))
			}
			if o.Op == "try" && r.P(15) {
				o.Y = 1 // run twice
			}
			c.Ops = append(c.Ops, o)
		}
		return c
	}
}

// ---- C32: messages

func hereErrorf(m string, y int64) error {
	f, a := format(m, y)
	return errors.Errorf(f, a...)
}
func hereExcErrorf(m string, y int64) *exc.Error {
	f, a := format(m, y)
	return exc.Errorf(f, a...)
}
func hereFromError(e error) *exc.Error { return exc.FromError(e) }
func hereThrowf(m string, y int64) {
	f, a := format(m, y)
	exc.Throwf(f, a...)
}
func hereThrowOnError(e error)           { exc.ThrowOnError(e) }
func hereLogf(level, f string, a ...any) { errors.Logf(level, f, a...) }

// format gives a format and arguments that make the message.
func format(m string, y int64) (string, []any) {
	esc := func(s string) string { return strings.ReplaceAll(s, "%", "%%") }
	h := len(m) / 2
	switch wrapCap(y, 3) {
	case 1:
		return esc(m), nil
	case 2:
		return "%s" + esc(m[h:]), []any{m[:h]}
	}
	return "%s", []any{m}
}

// inOrder says whether all messages occur in the text one after another.
func inOrder(text string, msgs []string) bool {
	for _, m := range msgs {
		i := strings.Index(text, m)
		if i < 0 {
			return false
		}
		text = text[i+len(m):]
	}
	return true
}

// message is a message that does not occur in others by chance.
func message(o Op, n int) string {
	return fmt.Sprintf("<%d:%s>", n, strings.ToValidUTF8(string(o.B), "?"))
}

type pickErr struct{ m string }

func (e pickErr) Error() string { return e.m }

func checkExc(t *T, what string, e *exc.Exception, msgs []string, made []string) {
	t.Check(e != nil, "%s gives no exception", what)
	t.Check(len(e.Errors) == len(msgs), "%s carries %d errors, want %d", what, len(e.Errors), len(msgs))
	for i, x := range e.Errors {
		t.Check(x != nil && x.Err != nil, "%s: error %d is nil", what, i)
		t.Check(x.Err.Error() == msgs[i], "%s: message %d is %q, want %q", what, i, x.Err.Error(), msgs[i])
		t.Check(strings.Contains(string(x.Stack), made[i]), "%s: the stack of error %d does not name %s", what, i, made[i])
		t.Check(strings.Contains(x.Error(), msgs[i]) && strings.Contains(x.Error(), made[i]), "%s: the text of error %d lacks its message or stack", what, i)
		t.Check(x.String() == x.Error(), "%s: String and Error of error %d differ", what, i)
	}
	t.Check(inOrder(e.Error(), msgs), "%s: its text does not have the messages %q in order", what, msgs)
	for _, m := range made {
		t.Check(strings.Contains(e.Error(), m), "%s: its text lacks the stack with %s", what, m)
	}
	t.Check(e.String() == e.Error(), "%s: String and Error differ", what)
	t.Check(e.Exc() == e, "%s: Exc is another exception", what)
}

func runMessages(c *Case, t *T) {
	type ex struct {
		e    *exc.Exception
		msgs []string
		made []string
	}
	var es []*ex
	type er struct {
		e    *errors.Error
		msgs []string
	}
	var rs []*er
	n := 0
	chained, joined := 0, 0
	at := func(x int64) *ex {
		if len(es) == 0 {
			return nil
		}
		return es[wrapCap(x, len(es))]
	}
	verify := func(x *ex) { checkExc(t, "an exception", x.e, x.msgs, x.made) }
	verifyErr := func(x *er) {
		t.Check(len(x.e.Errs) == len(x.msgs), "an error carries %d errors, want %d", len(x.e.Errs), len(x.msgs))
		for i, y := range x.e.Errs {
			t.Check(y.Error() == x.msgs[i], "error %d in a chain is %q, want %q", i, y.Error(), x.msgs[i])
		}
		s := x.e.Error()
		t.Check(inOrder(s, x.msgs), "the text of a chained error lacks some of %q or has them out of order: %.300q", x.msgs, s)
		t.Check(strings.Contains(s, "hereErrorf"), "the text of an error lacks the stack of where it was made")
		t.Check(x.e.String() == s, "String and Error of an error differ")
	}
	for i, o := range c.Ops {
		t.At(i, o)
		n++
		m := message(o, n)
		switch o.Op {
		case "errorf":
			err := hereErrorf(m, o.Y)
			t.Check(err != nil, "Errorf gives nil")
			e, ok := err.(*errors.Error)
			t.Check(ok, "Errorf gives a %T", err)
			x := &er{e, []string{m}}
			rs = append(rs, x)
			verifyErr(x)
		case "errchain":
			if len(rs) > 0 {
				x := rs[wrapCap(o.X, len(rs))]
				inner := stderrors.New(m)
				got := x.e.Chain(inner)
				x.msgs = append(x.msgs, m)
				g, ok := got.(*errors.Error)
				t.Check(ok && g != nil, "Chain gives a %T", got)
				verifyErr(x) // the error chained onto has the message too
				x.e = g
				t.Check(len(g.Errs) > 0 && g.Errs[len(g.Errs)-1] == inner, "Chain does not keep the error given to it")
				verifyErr(x)
				chained++
			}
		case "new":
			e := hereExcErrorf(m, o.Y)
			t.Check(e.Err.Error() == m, "Errorf has message %q, want %q", e.Err, m)
			x := &ex{e.Exception(), []string{m}, []string{"hereExcErrorf"}}
			es = append(es, x)
			verify(x)
		case "from":
			inner := stderrors.New(m)
			switch {
			case o.Y == 1: // an error of the library is an error too
				w := exc.Errorf("%s", m)
				e := hereFromError(w)
				t.Check(e != nil && e.Err == error(w), "FromError does not keep an error made by Errorf")
				t.Check(strings.Contains(string(e.Stack), "hereFromError"), "the stack of FromError does not name where it was called")
			case o.Y == 2:
				inner = pickErr{m}
			}
			e := hereFromError(inner)
			t.Check(e.Err == inner, "FromError does not keep the error")
			x := &ex{e.Exception(), []string{m}, []string{"hereFromError"}}
			es = append(es, x)
			verify(x)
		case "throw":
			var inner error
			th := exc.Try(func() {
				if o.X%2 == 0 {
					hereThrowf(m, o.Y)
				} else {
					inner = stderrors.New(m)
					hereThrowOnError(inner)
				}
			}).Exception()
			t.Check(th != nil, "nothing is thrown")
			x := &ex{th.Exc(), []string{m}, []string{pickStr(o.X%2 == 0, "hereThrowf", "hereThrowOnError")}}
			if inner != nil {
				t.Check(len(x.e.Errors) == 1 && x.e.Errors[0].Err == inner, "ThrowOnError does not keep the error")
			}
			es = append(es, x)
			verify(x)
		case "chain":
			if x := at(o.X); x != nil {
				got := x.e.Chain(hereExcErrorf(m, o.Y))
				x.msgs, x.made = append(x.msgs, m), append(x.made, "hereExcErrorf")
				x.e = got.Exc()
				verify(x)
				chained++
			}
		case "rethrow":
			if x := at(o.X); x != nil {
				th := exc.Try(func() {
					exc.Try(func() { exc.Throw(x.e) }).Catch(&exc.Exception{}, func(e exc.Throwable) {
						exc.Rethrow(e, hereExcErrorf(m, o.Y))
					}).Unwind()
				}).Exception()
				t.Check(th != nil, "a rethrown exception is lost")
				x.msgs, x.made = append(x.msgs, m), append(x.made, "hereExcErrorf")
				x.e = th.Exc()
				verify(x)
				chained++
			}
		case "custom":
			if x := at(o.X); x != nil {
				cu := &excB{excA{exc.Exception{Errors: append([]*exc.Error{}, x.e.Errors...)}, 3}, "s"}
				err := exc.Try(func() {
					exc.Try(func() { exc.Throw(cu) }).Catch(&excA{}, func(e exc.Throwable) {
						exc.Rethrow(e, hereExcErrorf(m, o.Y))
					}).Unwind()
				}).Error()
				th, ok := err.(exc.Throwable)
				t.Check(ok, "a rethrown exception comes out as %T", err)
				y := &ex{th.Exc(), append(append([]string{}, x.msgs...), m), append(append([]string{}, x.made...), "hereExcErrorf")}
				verify(y)
				b, ok := th.(*excB)
				t.Check(ok, "a rethrown custom exception comes out as %T", th)
				t.Check(b.n == 3 && b.s == "s", "a rethrown custom exception loses its fields")
			}
		case "join":
			a, b := at(o.X), at(o.Y)
			if a != nil {
				got := a.e.Join(b.e)
				x := &ex{got, append(append([]string{}, a.msgs...), b.msgs...), append(append([]string{}, a.made...), b.made...)}
				verify(x)
				verify(a)
				verify(b)
				if len(x.msgs) < 40 {
					es = append(es, x)
				}
				joined++
			}
		case "plain":
			if x := at(o.X); x != nil {
				err := exc.Try(func() { exc.Throw(x.e) }).Error()
				t.Check(err != nil, "Error gives nil for a thrown exception")
				t.Check(inOrder(err.Error(), x.msgs), "an exception returned as an error lacks some of the messages %q", x.msgs)
			}
		case "ctor":
			names := []string{"not-found", "not-found-in-bucket", "invalid-key", "tst-error", "negative-size", "bptree-error"}
			name := names[wrapCap(o.X, len(names))]
			f := errors.Errors[name]
			t.Check(f != nil, "no constructor %q", name)
			var err error
			var direct error // from the function of that name
			var want []string
			switch name {
			case "not-found":
				err, direct = f(m), errors.NotFound(m)
			case "not-found-in-bucket":
				err, direct = f(m), errors.NotFoundInBucket(m)
				want = []string{m}
			case "invalid-key":
				err, direct = f(m, "because"), errors.InvalidKey(m, "because")
				want = []string{m, "because"}
			case "negative-size":
				err, direct = f(), errors.NegativeSize()
			case "tst-error":
				err, direct = f("msg %v %d", m, n), errors.TSTError("msg %v %d", m, n)
				want = []string{fmt.Sprintf("msg %s %d", m, n)}
			default:
				err, direct = f("msg %v %d", m, n), errors.BpTreeError("msg %v %d", m, n)
				want = []string{fmt.Sprintf("msg %s %d", m, n)}
			}
			t.Check(err != nil && direct != nil, "constructor %q gives nil", name)
			t.Check(inOrder(err.Error(), want), "constructor %q gives %.200q, which lacks %q", name, err.Error(), want)
			t.Check(inOrder(direct.Error(), want), "the function for %q gives %.200q, which lacks %q", name, direct.Error(), want)
			a, ok1 := err.(*errors.Error)
			b, ok2 := direct.(*errors.Error)
			t.Check(ok1 && ok2 && len(a.Errs) == 1 && len(b.Errs) == 1, "constructor %q gives a %T, its function a %T", name, err, direct)
			t.Check(a.Errs[0].Error() == b.Errs[0].Error(), "constructor %q says %q, its function %q", name, a.Errs[0], b.Errs[0])
			t.Label("constructor")
		case "log":
			level := fmt.Sprintf("L%d", wrapCap(o.X, 3))
			skip := o.Y%2 != 0
			var buf bytes.Buffer
			log.SetOutput(&buf)
			errors.SkipLogging[level] = skip
			hereLogf(level, "%s", m)
			delete(errors.SkipLogging, level)
			log.SetOutput(io.Discard)
			got := buf.String()
			if skip {
				t.Check(got == "", "a message of a skipped level is logged: %q", got)
			} else {
				t.Check(strings.Count(got, m) == 1, "a logged message does not appear once: %q", got)
				t.Check(strings.Contains(got, level), "a logged message lacks its level: %q", got)
				t.Check(strings.Contains(got, "hereLogf"), "a logged message does not say where it comes from: %q", got)
			}
			t.Label("log")
		}
	}
	t.At(len(c.Ops), Op{Op: "final comparison"})
	// chains share no memory: everything still has its own messages
	for _, x := range es {
		verify(x)
	}
	for _, x := range rs {
		verifyErr(x)
	}
	t.nontriv = chained >= 2 && n >= 4
	if joined > 0 {
		t.Label("join")
	}
}

func pickStr(b bool, x, y string) string {
	if b {
		return x
	}
	return y
}

func init() {
	register(&Check{
		ID:    "C30",
		Rule:  "Cases are generated programs of nested try blocks (up to about 60 statements, 5 levels) with throws of seven exception types with embedding, catches, finally handlers, rethrows, foreign panics and all three terminal calls, run by the library and by a small-step model; the two event sequences must be equal. Non-trivial: at least two nested levels, something caught, and a finally handler run.",
		Quick: 150000,
		Gen:   genProgram(0),
		Run: func(c *Case, t *T) {
			m := runProgram(c, t)
			t.nontriv = m.deep >= 2 && m.caught > 0 && m.fin > 0
			if strings.HasPrefix(m.trace[len(m.trace)-1], "panic") {
				t.Label("foreign-panic")
			}
		},
	})
	register(&Check{
		ID:    "C31",
		Rule:  "Cases are generated programs of nested closing blocks and try blocks in which opening, body and closing fail or not, run by the library and by a model; the event sequences (open, body, close, handlers, results) must be equal. Non-trivial: a closing block in which opening, body or close fails.",
		Quick: 125000,
		Fixed: func() []*Case {
			var out []*Case
			for open := int64(0); open < 3; open++ {
				for cl := int64(0); cl < 3; cl++ {
					for body := 0; body < 3; body++ {
						for term := int64(0); term < 3; term++ {
							for h := 0; h < 3; h++ {
								o := Op{Op: "close", X: open, Y: 192 + cl, Z: term, Kids: []Op{{Op: "mark", X: 1}}}
								if body == 1 {
									o.Kids = append(o.Kids, Op{Op: "throw", X: 2})
								} else if body == 2 {
									o.Kids = append(o.Kids, Op{Op: "panic"})
								}
								if h == 1 {
									o.Kids = append(o.Kids, Op{Op: "catch", X: 0}, Op{Op: "finally"})
								} else if h == 2 {
									o.Kids = append(o.Kids, Op{Op: "catch", X: 1, Kids: []Op{{Op: "rethrow"}}})
								}
								out = append(out, &Case{Ops: []Op{o}})
							}
						}
					}
				}
			}
			return out
		},
		Gen: genProgram(65),
		Run: func(c *Case, t *T) {
			m := runProgram(c, t)
			for k := range m.failed {
				t.Label("fails-" + k)
				if k != "neither" && k != "none" {
					t.nontriv = true
				}
			}
		},
	})
	register(&Check{
		ID:    "C32",
		Rule:  "Cases are generated sequences of building, wrapping, chaining, joining, throwing and rethrowing errors and exceptions with random messages, of the named error constructors and of logging; messages, order, stacks and wrapped errors are compared after every step. Non-trivial: at least 4 steps with 2 chainings.",
		Quick: 36000,
		Gen: func(r *R, size int) *Case {
			c := &Case{}
			for i := 3 + r.N(3+size*14/100); i > 0; i-- {
				c.Ops = append(c.Ops, Op{Op: pick(r, "errorf", "errchain", "errchain", "new", "from", "throw", "chain", "chain", "rethrow", "rethrow", "custom", "join", "plain", "ctor", "log"), X: int64(r.N(8)), Y: int64(r.N(8)), B: genMsg(r)})
			}
			return c
		},
		Run: runMessages,
	})
}

func genMsg(r *R) Bytes {
	b := make(Bytes, r.N(12))
	for i := range b {
		b[i] = " %sdvx{},abc\n\"é"[r.N(16)]
	}
	return b
}
