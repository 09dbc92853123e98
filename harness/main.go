package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
)

// Check decides one property.
type Check struct {
	ID     string
	Rule   string // how cases are made and what makes one non-trivial
	Quick  int    // number of generated cases
	Thor   int
	Gen    func(r *R, size int) *Case
	Fixed  func() []*Case // boundary cases run before the generated ones
	Run    func(c *Case, t *T)
	Assume []string
	// Sched marks checks whose outcome depends on the schedule. What such a check
	// observes once counts, and a replay is repeated.
	Sched bool
	// Race is the number of cases run again under the race detector.
	Race int
}

// repeats is how often a case is run on replay.
func (ch *Check) repeats(n int) int {
	if ch.Sched {
		return n
	}
	return 1
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

func (ch *Check) fixed() []*Case {
	if ch.Fixed == nil {
		return nil
	}
	return ch.Fixed()
}

// bigBase is the index of the first large case.
const bigBase = 1 << 30

// nBig is the number of large cases.
func (ch *Check) nBig(tier string) int {
	switch {
	case bigs[ch.ID] == nil:
		return 0
	case tier == "thorough":
		return 480
	}
	return 40
}

// huge says whether a case is one of those which may be given up when it takes
// too long.
func (ch *Check) huge(index int) bool {
	return index >= bigBase && huges[ch.ID] != nil && index%20 == bigBase%20+3
}

// caseAt is the case with the given index in a run with this seed.
func (ch *Check) caseAt(fixed []*Case, seed int64, tier string, index int) *Case {
	var c *Case
	if index >= bigBase {
		mk := bigs[ch.ID]
		if ch.huge(index) {
			mk = huges[ch.ID]
		}
		c = mk(newR(seed, ch.ID+" big", index))
		if ch.huge(index) {
			if c.Cfg == nil {
				c.Cfg = map[string]int64{}
			}
			c.Cfg["huge"] = 1
		}
	} else if index < len(fixed) {
		c = fixed[index]
	} else {
		i := index - len(fixed)
		size := 1 + i%100
		if tier == "thorough" {
			size = 1 + i%160
		}
		c = ch.Gen(newR(seed, ch.ID, index), size)
	}
	c.Prop = ch.ID
	return c
}

func die(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "ERROR: "+format+"\n", args...)
	os.Exit(2)
}

func main() {
	debug.SetMaxStack(256 << 20)
	if len(os.Args) < 2 {
		die("usage: harness check|worker|one|shrink|replay|list ...")
	}
	switch os.Args[1] {
	case "check":
		fs := flag.NewFlagSet("check", flag.ExitOnError)
		verif := fs.String("verif", "/verif", "")
		cases := fs.Int("cases", 0, "override the number of cases")
		fs.Parse(os.Args[2:])
		if fs.NArg() != 1 || checks[fs.Arg(0)] == nil {
			die("check: need one property id")
		}
		os.Exit(runCheck(checks[fs.Arg(0)], *verif, *cases))
	case "worker":
		workerMain(os.Args[2:])
	case "one", "replay":
		if len(os.Args) < 3 {
			die("%s: need a case file", os.Args[1])
		}
		c, err := loadCase(os.Args[2])
		if err != nil {
			die("%v", err)
		}
		ch := checks[c.Prop]
		if ch == nil {
			die("unknown property %q", c.Prop)
		}
		res := runCase(ch, c)
		for k := ch.repeats(300); k > 1 && res.msg == ""; k-- {
			res = runCase(ch, c)
		}
		for _, k := range res.known {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", ch.ID, k)
		}
		if res.msg != "" {
			fmt.Printf("VIOLATION property=%s replay=%s\n%s\n", ch.ID, os.Args[2], printable(res.msg))
			os.Exit(1)
		}
		fmt.Println("held")
	case "shrink":
		shrinkMain(os.Args[2:])
	case "support":
		supportMain()
	case "gen":
		fs := flag.NewFlagSet("gen", flag.ExitOnError)
		seed := fs.Int64("seed", 1, "")
		index := fs.Int("index", 0, "")
		fs.Parse(os.Args[2:])
		ch := checks[fs.Arg(0)]
		fmt.Println(string(ch.caseAt(ch.fixed(), *seed, "quick", *index).json()))
	case "list":
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
	default:
		die("unknown command %s", os.Args[1])
	}
}

func jsonOut(path string, v interface{}) {
	data, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		die("%v", err)
	}
	tmp := path + ".tmp"
	if err := os.WriteFile(tmp, append(data, '\n'), 0o644); err != nil {
		die("%v", err)
	}
	if err := os.Rename(tmp, path); err != nil {
		die("%v", err)
	}
}

// printable makes a message safe for terminals and line tools.
func printable(s string) string {
	return strings.Map(func(r rune) rune {
		if r == '\n' || r == '\t' || (r >= ' ' && r < 127) {
			return r
		}
		return '?'
	}, s)
}
