package main

import (
	"encoding/hex"
	"fmt"
	"regexp"
	"sort"
	"strings"

	"github.com/timtadh/data-structures/linked"
	"github.com/timtadh/data-structures/list"
	"github.com/timtadh/data-structures/set"
	"github.com/timtadh/data-structures/trie"
	"github.com/timtadh/data-structures/types"
)

// ---- C38: printed forms

const nForms = 9

var formNames = [nForms]string{"List", "Sorted", "Sorted without duplicates", "LinkedList", "UniqueDeque", "SortedSet", "MapSet", "SetMap", "TST"}

// textItem is an item to print: a number, a byte string, an entry or a list.
func textItem(o Op, form int) types.Hashable {
	mixed := form == 0 || form == 3
	switch {
	case mixed && o.Op == "str":
		return types.String(o.B)
	case mixed && o.Op == "entry":
		return &types.MapEntry{Key: types.Int(o.X), Value: mkTextVal(o.Y)}
	case mixed && o.Op == "list":
		l := list.New(2)
		for _, k := range o.Kids {
			l.Append(textItem(k, 0))
		}
		return l
	case mixed && o.Op == "linked":
		l := linked.New()
		for _, k := range o.Kids {
			l.Push(textItem(k, 0))
		}
		return l
	}
	return types.Int(o.X)
}

func mkTextVal(y int64) interface{} {
	switch wrapCap(y, 4) {
	case 0:
		return nil
	case 1:
		return fmt.Sprint("s", y)
	case 2:
		return true
	}
	return y
}

// text is the printed form an item must have.
func text(o Op, form int) string {
	if form == 0 || form == 3 {
		switch o.Op {
		case "str":
			return string(o.B)
		case "entry":
			return entryText(o.X, o.Y)
		case "list", "linked":
			var ss []string
			for _, k := range o.Kids {
				ss = append(ss, text(k, 0))
			}
			return "{" + strings.Join(ss, ", ") + "}"
		}
	}
	return fmt.Sprint(o.X)
}

func entryText(x, y int64) string {
	return fmt.Sprintf("<MapEntry %d: %v>", x, mkTextVal(y))
}

func runText(c *Case, t *T) {
	form := wrapCap(c.cfg("form"), nForms)
	name := formNames[form]
	if form == 8 {
		runTrieText(c, t)
		return
	}
	var want []string // in the order they must appear
	var s fmt.Stringer
	var ordered = true
	uniq := map[int64]bool{}
	xs := map[int64]int64{}
	var all []int64
	for _, o := range c.Ops {
		all = append(all, o.X)
	}
	switch form {
	case 0:
		l := list.New(wrapCap(c.cfg("cap"), 9))
		for _, o := range c.Ops {
			t.Check(l.Append(textItem(o, form)) == nil, "Append failed")
			want = append(want, text(o, form))
		}
		s = l
	case 3:
		l := linked.New()
		for _, o := range c.Ops {
			if o.Z%2 == 0 {
				t.Check(l.EnqueBack(textItem(o, form)) == nil, "EnqueBack failed")
				want = append(want, text(o, form))
			} else {
				t.Check(l.EnqueFront(textItem(o, form)) == nil, "EnqueFront failed")
				want = append([]string{text(o, form)}, want...)
			}
		}
		s = l
	case 4:
		l := linked.NewUniqueDeque()
		for _, o := range c.Ops {
			t.Check(l.EnqueBack(types.Int(o.X)) == nil, "EnqueBack failed")
			if !uniq[o.X] {
				uniq[o.X] = true
				want = append(want, fmt.Sprint(o.X))
			}
		}
		s = l
	case 1, 2, 5:
		var l interface {
			Add(types.Hashable) error
			String() string
		}
		if form == 5 {
			l = set.NewSortedSet(wrapCap(c.cfg("cap"), 9))
		} else {
			l = list.NewSorted(wrapCap(c.cfg("cap"), 9), form == 1)
		}
		for _, x := range all {
			t.Check(l.Add(types.Int(x)) == nil, "Add failed")
		}
		sort.Slice(all, func(i, j int) bool { return all[i] < all[j] })
		for i, x := range all {
			if form == 1 || i == 0 || x != all[i-1] {
				want = append(want, fmt.Sprint(x))
			}
		}
		s = l
	case 6:
		l := set.NewMapSet(set.NewSortedSet(wrapCap(c.cfg("cap"), 9)))
		for _, o := range c.Ops {
			t.Check(l.Put(types.Int(o.X), mkTextVal(o.Y)) == nil, "Put failed")
			xs[o.X] = o.Y
		}
		for _, x := range sortedKeys(xs) {
			want = append(want, entryText(x, xs[x]))
		}
		s = l
	case 7:
		k := wrapCap(c.cfg("map"), nMaps)
		m, mn, ord := newMap(k, c.cfg("cap"))
		name += " over " + mn
		ordered = ord
		l := set.NewSetMap(m)
		for _, o := range c.Ops {
			t.Check(l.Add(types.Int(o.X)) == nil, "Add failed")
			xs[o.X] = 1
		}
		for _, x := range sortedKeys(xs) {
			want = append(want, fmt.Sprint(x))
		}
		if !ordered {
			// the order is that of iteration
			var it []string
			for _, k := range collectK(t, "Items", l.Items(), len(xs)) {
				it = append(it, fmt.Sprint(k))
			}
			sorted := append([]string(nil), it...)
			w := append([]string(nil), want...)
			sort.Strings(sorted)
			sort.Strings(w)
			t.Check(strings.Join(sorted, " ") == strings.Join(w, " "), "%s: Items yields %v, want %v in some order", name, it, want)
			want = it
		}
		s = l
	}
	exp := "{" + strings.Join(want, ", ") + "}"
	got := s.String()
	t.Check(got == exp, "%s prints as %q, want %q", name, got, exp)
	got = fmt.Sprintf("%v", s)
	t.Check(got == exp, "%s prints with %%v as %q, want %q", name, got, exp)
	t.Check(s.String() == exp, "%s prints differently the second time: %q, want %q", name, s.String(), exp)
	t.Label(formNames[form])
	t.nontriv = len(want) > 1
}

var (
	tstLeaf = regexp.MustCompile(`\[[0-9a-f]{1,2} ([0-9a-f]*)\]`)
	dotNode = regexp.MustCompile(`^(n[0-9]+)\[label="(.*)", (shape="rect"|shape="circle".*|fillcolor="#aaffaa".*)\];$`)
	dotEdge = regexp.MustCompile(`^(n[0-9]+) -> (n[0-9]+) \[label="(.*)"\];$`)
)

// runTrieText compares the printed form and the drawing of a trie with its keys.
func runTrieText(c *Case, t *T) {
	d := newTst(t)
	plain := true
	for i, o := range c.Ops {
		t.At(i, o)
		if !validKey(o.B) {
			continue
		}
		if o.Op == "rem" {
			if d.m.Has(o.B) {
				d.rem(append([]byte{}, o.B...))
			}
			continue
		}
		d.put(append([]byte{}, o.B...), o.Y)
		for _, b := range o.B {
			if b < '0' || b > 'z' || b == '\\' {
				plain = false
			}
		}
	}
	t.At(len(c.Ops), Op{Op: "print"})
	want := d.keys("")
	var got []string
	s := d.m.String()
	for _, m := range tstLeaf.FindAllStringSubmatch(s, -1) {
		b, err := hex.DecodeString(m[1])
		t.Check(err == nil, "String() shows a key that is no hexadecimal number: %q", m[1])
		got = append(got, string(b))
	}
	t.Check(fmt.Sprintf("%q", got) == fmt.Sprintf("%q", want), "the printed form %q shows keys %q, want %q", s, got, want)
	t.Label("TST")
	t.nontriv = len(want) > 1
	if !plain {
		_ = d.m.Dotty()
		return
	}
	drawing(t, d.m, want)
	t.Label("drawing")
}

// drawing checks that Dotty draws a tree whose accepting nodes are the keys and
// whose edges lead to each key.
func drawing(t *T, m *trie.TST, want []string) {
	dot := m.Dotty()
	lines := strings.Split(strings.TrimSpace(dot), "\n")
	t.Check(len(lines) >= 3 && strings.HasPrefix(lines[0], "digraph") && lines[len(lines)-1] == "}", "the drawing is not a graph: %q", dot)
	type node struct {
		label     string
		root, acc bool
		parent    string
		edge      string
	}
	nodes := map[string]*node{}
	var order []string
	var edges [][]string
	root := ""
	for _, l := range lines[1 : len(lines)-1] {
		if g := dotNode.FindStringSubmatch(l); g != nil {
			t.Check(nodes[g[1]] == nil, "the drawing has two nodes named %s", g[1])
			n := &node{label: g[2], root: strings.HasPrefix(g[3], `shape="rect"`), acc: strings.HasPrefix(g[3], "fillcolor")}
			if n.root {
				t.Check(root == "", "the drawing has two roots")
				root = g[1]
			}
			nodes[g[1]] = n
			order = append(order, g[1])
		} else if g := dotEdge.FindStringSubmatch(l); g != nil {
			edges = append(edges, g[1:])
		}
	}
	t.Check(root != "", "the drawing has no root: %q", dot)
	for _, e := range edges {
		t.Check(nodes[e[0]] != nil && nodes[e[1]] != nil, "the edge %v of the drawing leads to a node that is not drawn", e)
		n := nodes[e[1]]
		t.Check(n.parent == "" && !n.root, "node %s of the drawing has two parents", e[1])
		n.parent, n.edge = e[0], e[2]
	}
	var got []string
	for _, id := range order {
		n := nodes[id]
		if n.root {
			continue
		}
		t.Check(n.parent != "", "node %s (%q) of the drawing hangs nowhere", id, n.label)
		if !n.acc {
			continue
		}
		got = append(got, n.label)
		// the way from the root to the key
		var path []string
		for x := id; x != root; x = nodes[x].parent {
			path = append(path, x)
			t.Check(len(path) <= len(nodes), "the drawing has a cycle")
		}
		key := n.label + "\x00"
		t.Check(nodes[path[len(path)-1]].edge == key[:1], "key %q hangs below the head %q", n.label, nodes[path[len(path)-1]].edge)
		at := 1
		for i := len(path) - 2; i >= 0; i-- {
			up := nodes[path[i+1]].label
			if up == `\\0` {
				up = "\x00"
			}
			t.Check(len(up) == 1 && at < len(key), "key %q hangs below node %q at depth %d", n.label, up, at)
			switch e := nodes[path[i]].edge; e {
			case "<":
				t.Check(key[at] < up[0], "key %q hangs left of %q", n.label, up)
			case "=":
				t.Check(key[at] == up[0], "key %q hangs in the middle of %q", n.label, up)
				at++
			case ">":
				t.Check(key[at] > up[0], "key %q hangs right of %q", n.label, up)
			default:
				t.Fail("the drawing has an edge %q", e)
			}
		}
	}
	t.Check(fmt.Sprintf("%q", got) == fmt.Sprintf("%q", want), "the drawing shows keys %q, want %q", got, want)
}

func genTextItem(r *R, depth int) Op {
	o := Op{Op: "int", X: int64(r.Range(-20, 20)), Y: int64(r.N(100)), Z: int64(r.N(2))}
	if r.P(10) {
		o.X = r.Int64()
	}
	switch r.Pick(6, 2, 2, 1, 1) {
	case 1:
		o.Op = "str"
		o.B = Bytes(pick(r, "", "a", "b, c", "{}", "x%dy", "100%", "<nil>"))
	case 2:
		o.Op = "entry"
	case 3, 4:
		if depth > 0 {
			o.Op = pick(r, "list", "linked")
			for i := r.N(4); i > 0; i-- {
				o.Kids = append(o.Kids, genTextItem(r, depth-1))
			}
		}
	}
	return o
}

func init() {
	register(&Check{
		ID:    "C38",
		Rule:  "Cases are a kind of container and generated contents (numbers, strings with separators and percent signs, entries, nested lists; for the trie families of related keys with removals); the printed form is compared with the one composed from the reference contents, and the drawing of a trie is parsed and every key followed from the root. Non-trivial: at least two elements.",
		Quick: 200000,
		Gen: func(r *R, size int) *Case {
			c := &Case{Cfg: map[string]int64{"form": int64(r.N(nForms)), "cap": int64(r.N(9)), "map": int64(r.N(nMaps))}}
			n := r.N(2 + size*40/100)
			if c.Cfg["form"] == 8 {
				g := newByteGen(r)
				if r.P(70) {
					g.alpha = []byte(pick(r, "ab", "abc", "a9Zz", "0123456789abcdefgh"))
				}
				for i := 0; i < n; i++ {
					c.Ops = append(c.Ops, Op{Op: pick(r, "put", "put", "put", "rem"), B: append(Bytes{}, g.key()...), Y: int64(r.N(50))})
				}
				return c
			}
			for i := 0; i < n; i++ {
				c.Ops = append(c.Ops, genTextItem(r, 2))
			}
			return c
		},
		Fixed: func() []*Case {
			var out []*Case
			for f := int64(0); f < nForms; f++ {
				for m := int64(0); m < int64(nMaps); m++ {
					for n := 0; n < 4; n++ {
						c := &Case{Cfg: map[string]int64{"form": f, "map": m}}
						for i := 0; i < n; i++ {
							c.Ops = append(c.Ops, Op{Op: "int", X: int64(5 - i*3), Y: int64(i), B: Bytes("abc"[:i+1])})
						}
						out = append(out, c)
					}
					if f != 7 {
						break
					}
				}
			}
			return out
		},
		Run: runText,
	})
}
