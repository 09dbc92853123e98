package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"testing"

	support "github.com/timtadh/data-structures/test"
)

// ---- C39: test support

// A case is a list of tests, each a list of assertions:
//
//	test kids: assert X (odd: holds) Y (format), nil kids: err X (0: nil)
//
// and of draws of random bytes. The tests are run by the testing package in a
// process of their own, which prints a line after every assertion that returns.

type supportErr string

func (e supportErr) Error() string { return string(e) }

func assertOp(t *support.T, o Op, name string) {
	switch o.Op {
	case "assert":
		ok := o.X%2 != 0
		switch wrapCap(o.Y, 4) {
		case 0:
			t.Assert(ok, "plain "+name)
		case 1:
			t.Assert(ok, "formatted %v and %d", name, o.X)
		case 2:
			t.Assert(ok, "%v", supportErr("error "+name))
		case 3:
			t.Assert(ok, "%s|%s|%x", name, "", o.Y)
		}
	case "nil":
		var es []error
		for i, k := range o.Kids {
			if k.X == 0 {
				es = append(es, nil)
			} else {
				es = append(es, supportErr(fmt.Sprintf("error %s number %d;", name, i)))
			}
		}
		t.AssertNil(es...)
	}
}

// assertWant is whether the assertion holds, and if not what must be printed.
func assertWant(o Op, name string) (ok bool, texts []string) {
	switch o.Op {
	case "assert":
		return o.X%2 != 0, []string{[]string{"plain " + name, fmt.Sprintf("formatted %v and %d", name, o.X), "error " + name, fmt.Sprintf("%s||%x", name, o.Y)}[wrapCap(o.Y, 4)]}
	case "nil":
		ok = true
		for i, k := range o.Kids {
			if k.X != 0 {
				ok = false
				texts = append(texts, fmt.Sprintf("error %s number %d;", name, i))
			}
		}
	}
	return ok || len(texts) == 0, texts
}

// supportMain runs the tests of the case given on standard input.
func supportMain() {
	var c Case
	if err := json.NewDecoder(os.Stdin).Decode(&c); err != nil {
		die("%v", err)
	}
	var ts []testing.InternalTest
	for i, o := range c.Ops {
		if o.Op != "test" {
			continue
		}
		ts = append(ts, testing.InternalTest{Name: fmt.Sprintf("Test%d", i), F: func(t *testing.T) {
			fmt.Printf("\nBEGIN %d\n", i)
			for j, k := range o.Kids {
				assertOp((*support.T)(t), k, fmt.Sprintf("<%d.%d>", i, j))
				fmt.Printf("\nRETURNED %d.%d\n", i, j)
			}
		}})
	}
	os.Args = []string{"support.test", "-test.v"}
	testing.Main(func(pat, str string) (bool, error) { return true, nil }, ts, nil, nil)
}

func runSupport(c *Case, t *T) {
	tests, failing := 0, 0
	for i, o := range c.Ops {
		t.At(i, o)
		switch o.Op {
		case "test":
			tests++
		case "bytes":
			n := wrapCap(o.X, 70000)
			a, b := support.RandSlice(n), support.RandSlice(n)
			t.Check(len(a) == n && len(b) == n, "RandSlice(%d) gives %d and %d bytes", n, len(a), len(b))
			s, u := support.RandStr(n), support.RandStr(n)
			t.Check(len(s) == n && len(u) == n, "RandStr(%d) gives %d and %d bytes", n, len(s), len(u))
			h, g := support.RandHex(2*n), support.RandHex(2*n)
			for _, x := range []string{h, g} {
				t.Check(len(x) == 2*n, "RandHex(%d) gives %d digits", 2*n, len(x))
				_, err := hex.DecodeString(x)
				t.Check(err == nil, "RandHex(%d) gives something else than hexadecimal digits: %v", 2*n, err)
			}
			if n >= 20 { // equal by chance once in 2^160
				t.Check(!bytes.Equal(a, b) && s != u && h != g && s != string(a), "two draws of %d random bytes are equal", n)
				zero := make([]byte, 20)
				d, _ := hex.DecodeString(h)
				for _, x := range [][]byte{a, []byte(s), d} {
					t.Check(!bytes.Equal(x[n-20:], zero) && !bytes.Equal(x[:20], zero), "a draw of %d random bytes begins or ends with 20 zero bytes", n)
				}
			}
			if n >= 60000 { // one byte value lacks by chance once in 2^330
				for w, x := range [][]byte{a, []byte(s)} {
					var seen [256]bool
					for _, y := range x {
						seen[y] = true
					}
					for y, ok := range seen {
						t.Check(ok, "draw %d of %d random bytes has no byte %d", w, n, y)
					}
				}
			}
			t.Label("random-bytes")
		}
	}
	if tests == 0 {
		return
	}
	t.step = -1
	cmd := exec.Command(self(), "support")
	cmd.Stdin = bytes.NewReader([]byte(c.json()))
	outb, err := cmd.CombinedOutput()
	if _, ok := err.(*exec.ExitError); err != nil && !ok {
		die("running the tests: %v", err)
	}
	out := string(outb)
	anyFail := false
	for i, o := range c.Ops {
		if o.Op != "test" {
			continue
		}
		t.At(i, o)
		begin := strings.Index(out, fmt.Sprintf("BEGIN %d\n", i))
		if begin < 0 {
			t.Check(!strings.Contains(out, "panic: "), "a test panics and test %d is not run: %s", i, out)
			die("the tests have not run: %v\n%s", err, out)
		}
		part := out[begin:]
		if e := strings.Index(part, "=== RUN"); e >= 0 {
			part = part[:e]
		}
		failed := strings.Contains(part, fmt.Sprintf("--- FAIL: Test%d ", i))
		passed := strings.Contains(part, fmt.Sprintf("--- PASS: Test%d ", i))
		t.Check(failed != passed, "test %d has no result: %s", i, part)
		want := true
		for j, k := range o.Kids {
			name := fmt.Sprintf("<%d.%d>", i, j)
			ok, texts := assertWant(k, name)
			ret := strings.Contains(part, fmt.Sprintf("RETURNED %d.%d\n", i, j))
			if !want {
				t.Check(!ret, "test %d goes on after a failed assertion", i)
				continue
			}
			t.Check(ret == ok, "test %d: assertion %d holds: %v, returns: %v", i, j, ok, ret)
			for _, x := range texts {
				t.Check(strings.Contains(part, x) == !ok, "test %d: assertion %d holds: %v, its message %q is printed: %v", i, j, ok, x, ok)
			}
			want = ok
		}
		t.Check(passed == want, "test %d passes: %v, want %v", i, passed, want)
		if !want {
			failing++
			anyFail = true
		}
	}
	t.Check((err != nil) == anyFail, "the tests end with status %v, some fail: %v", err, anyFail)
	t.nontriv = failing > 0 && failing < tests
	t.Label("tests")
}

func init() {
	register(&Check{
		ID:    "C39",
		Rule:  "Cases are lists of tests made of generated assertions that hold or fail (with several message formats, lists of errors with nil ones among them), run by the testing package in a process of their own, and draws of random bytes of generated lengths; which assertions return, the result of every test and the printed messages are compared with what the assertions say. Non-trivial: some tests fail and some pass.",
		Quick: 6000,
		Fixed: func() []*Case {
			c := &Case{}
			for _, n := range []int64{0, 1, 2, 3, 19, 20, 255, 256, 257, 65535, 65536, 69999} {
				c.Ops = append(c.Ops, Op{Op: "bytes", X: n})
			}
			for m := int64(0); m < 16; m++ { // every list of up to 3 errors
				o := Op{Op: "nil"}
				for b := m; b > 1; b /= 2 {
					o.Kids = append(o.Kids, Op{Op: "err", X: b % 2})
				}
				c.Ops = append(c.Ops, Op{Op: "test", Kids: []Op{o, {Op: "assert", X: 1}}})
			}
			for m := int64(0); m < 8; m++ {
				c.Ops = append(c.Ops, Op{Op: "test", Kids: []Op{{Op: "assert", X: m, Y: m / 2}, {Op: "nil"}}})
			}
			return []*Case{c}
		},
		Gen: func(r *R, size int) *Case {
			c := &Case{}
			for i := 2 + r.N(2+size*10/100); i > 0; i-- {
				o := Op{Op: "test"}
				for j := r.N(6); j > 0; j-- {
					k := Op{Op: "assert", X: int64(r.N(pick(r, 1, 9, 9))), Y: int64(r.N(40))}
					if k.X%2 == 0 && r.P(60) {
						k.X++
					}
					if r.P(50) {
						k = Op{Op: "nil"}
						bad := pick(r, 0, 0, 30)
						for e := r.N(7); e > 0; e-- {
							k.Kids = append(k.Kids, Op{Op: "err", X: int64(r.Pick(100-bad, bad))})
						}
						if len(k.Kids) > 0 && r.P(25) {
							k.Kids[r.N(len(k.Kids))].X = 1
						}
					}
					o.Kids = append(o.Kids, k)
				}
				c.Ops = append(c.Ops, o)
			}
			if r.P(30) {
				c.Ops = append(c.Ops, Op{Op: "bytes", X: int64(r.N(pick(r, 40, 400, 70000)))})
			}
			return c
		},
		Run: runSupport,
	})
}
