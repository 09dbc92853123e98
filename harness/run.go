package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

const (
	rssLimit  = 2 << 30 // bytes; ordinary cases stay below 200 MB
	cpuLimit  = 40.0    // CPU seconds for one case that normally takes milliseconds
	hugeLimit = 25.0    // CPU seconds after which a case of the largest sizes is given up, not judged
	stallWall = 240.0   // seconds without progress and without CPU use: error of the check
)

type workerOut struct {
	Evals   int            `json:"evals"`
	Labels  map[string]int `json:"labels"`
	Samples []*Case        `json:"samples"`
	Known   []string       `json:"known,omitempty"`
	Fail    *saved         `json:"fail,omitempty"`
	Index   int            `json:"index"`
}

// workerMain runs the cases index = shard mod n.
func workerMain(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Int64("seed", 1, "")
	tier := fs.String("tier", "quick", "")
	shard := fs.Int("shard", 0, "")
	n := fs.Int("n", 1, "")
	total := fs.Int("total", 1, "")
	big := fs.Int("big", 0, "")
	from := fs.Int("from", 0, "")
	budget := fs.Float64("budget", 60, "")
	out := fs.String("out", "", "")
	fs.Parse(args)
	ch := checks[*prop]
	fixed := ch.fixed()
	prog, err := os.Create(*out + ".progress")
	if err != nil {
		die("%v", err)
	}
	hf, err := os.Create(*out + ".hashes")
	if err != nil {
		die("%v", err)
	}
	hw := bufio.NewWriter(hf)
	w := workerOut{Labels: map[string]int{}, Index: -1}
	start := time.Now()
	known := map[string]bool{}
	var buf [8]byte
	for j := *shard; j < *big+*total; j += *n {
		if j < *from {
			continue
		}
		i := j - *big
		if j < *big {
			i = bigBase + j
		}
		if time.Since(start).Seconds() > *budget {
			break
		}
		binary.LittleEndian.PutUint64(buf[:], uint64(i)+1)
		prog.WriteAt(buf[:], 0)
		c := ch.caseAt(fixed, *seed, *tier, i)
		res := runCase(ch, c)
		w.Evals++
		for l := range res.labels {
			w.Labels[l]++
		}
		for _, k := range res.known {
			if !known[k] {
				known[k] = true
				w.Known = append(w.Known, k)
			}
		}
		if res.msg != "" {
			w.Fail = &saved{res.msg, c}
			w.Index = i
			break
		}
		if res.nontriv {
			binary.LittleEndian.PutUint64(buf[:], c.hash())
			hw.Write(buf[:])
			if len(w.Samples) < 1 && i >= len(fixed) && i > *total/20 && i < bigBase {
				w.Samples = append(w.Samples, c)
			}
		}
	}
	hw.Flush()
	hf.Close()
	binary.LittleEndian.PutUint64(buf[:], 0)
	prog.WriteAt(buf[:], 0)
	data, err := json.Marshal(w)
	if err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(*out, data, 0o644); err != nil {
		die("%v", err)
	}
}

// child is a subprocess of the harness.
type child struct {
	cmd    *exec.Cmd
	out    string
	stderr string
	done   chan error
	err    error
	exited bool
	// progress tracking
	index   uint64
	cpuAt   float64
	wallAt  time.Time
	runaway string
}

func self() string {
	p, err := os.Executable()
	if err != nil {
		die("%v", err)
	}
	return p
}

func start(out string, args ...string) *child {
	c := &child{out: out, stderr: out + ".stderr", done: make(chan error, 1)}
	bin := raceBin
	if bin == "" {
		bin = self()
	}
	c.cmd = exec.Command(bin, args...)
	ef, err := os.Create(c.stderr)
	if err != nil {
		die("%v", err)
	}
	c.cmd.Stderr = ef
	c.cmd.Env = append(os.Environ(), "GOMAXPROCS="+gomax, "GOTRACEBACK=single")
	c.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := c.cmd.Start(); err != nil {
		die("%v", err)
	}
	ef.Close()
	c.wallAt = time.Now()
	go func() { c.done <- c.cmd.Wait() }()
	return c
}

var gomax = "2"

// raceBin is the program for subprocesses where it is not this one.
var raceBin string

func (c *child) pid() int { return c.cmd.Process.Pid }

// cpu is the CPU time in seconds used by our own child process.
func (c *child) cpu() float64 {
	data, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", c.pid()))
	if err != nil {
		return 0
	}
	s := string(data)
	if i := strings.LastIndex(s, ")"); i >= 0 {
		f := strings.Fields(s[i+1:])
		if len(f) > 13 {
			u, _ := strconv.ParseFloat(f[11], 64)
			k, _ := strconv.ParseFloat(f[12], 64)
			return (u + k) / 100
		}
	}
	return 0
}

func (c *child) rss() int64 {
	data, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", c.pid()))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(data))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * 4096
}

func (c *child) poll() {
	if c.exited {
		return
	}
	select {
	case c.err = <-c.done:
		c.exited = true
	default:
	}
}

func (c *child) kill() {
	if !c.exited {
		c.cmd.Process.Kill()
		c.err = <-c.done
		c.exited = true
	}
}

func (c *child) progress() uint64 {
	data, err := os.ReadFile(c.out + ".progress")
	if err != nil || len(data) < 8 {
		return 0
	}
	return binary.LittleEndian.Uint64(data)
}

func (c *child) stderrText() string {
	data, _ := os.ReadFile(c.stderr)
	s := string(data)
	if len(s) > 4000 {
		s = s[:4000]
	}
	return s
}

// verdict of running one case alone
type verdict struct {
	kind string // held, fail, crash, error
	msg  string
}

// crashKind says whether a dead process died of the code under test.
func crashKind(text string) (string, bool) {
	for _, k := range []string{"WARNING: DATA RACE", "all goroutines are asleep - deadlock!", "stack overflow", "goroutine stack exceeds", "concurrent map", "sync: ", "panic: ", "unexpected signal", "nil pointer", "makeslice", "all goroutines are asleep"} {
		if strings.Contains(text, k) {
			lines := strings.Split(text, "\n")
			var keep []string
			for _, l := range lines {
				if strings.TrimSpace(l) == "" {
					continue
				}
				keep = append(keep, strings.TrimSpace(l))
				if len(keep) >= 12 {
					break
				}
			}
			return strings.Join(keep, "\n"), true
		}
	}
	return "", false
}

// runAlone runs a case in a fresh process and judges it by its result, the
// runtime's own fatal errors, its memory and its CPU time (never wall time).
func runAlone(dir string, c *Case) verdict {
	path := filepath.Join(dir, "alone.json")
	jsonOut(path, saved{"", c})
	k := start(filepath.Join(dir, "alone"), "one", path)
	defer k.kill()
	begin := time.Now()
	for {
		k.poll()
		if k.exited {
			break
		}
		if k.rss() > rssLimit {
			k.kill()
			return verdict{"crash", fmt.Sprintf("memory grows without bound (more than %d MB for this case)", rssLimit>>20)}
		}
		if k.cpu() > cpuLimit {
			k.kill()
			return verdict{"crash", fmt.Sprintf("does not terminate (used more than %.0f s of CPU time for this case)", cpuLimit)}
		}
		if time.Since(begin).Seconds() > 600 {
			k.kill()
			return verdict{"error", "no result and no CPU use for 600 s"}
		}
		time.Sleep(2 * time.Millisecond)
	}
	code := k.cmd.ProcessState.ExitCode()
	switch code {
	case 0:
		return verdict{"held", ""}
	case 1:
		return verdict{"fail", ""}
	}
	text := k.stderrText()
	if msg, ok := crashKind(text); ok {
		return verdict{"crash", "process died: " + msg}
	}
	return verdict{"error", fmt.Sprintf("exit %d: %s", code, text)}
}

func runCheck(ch *Check, verif string, override int) int {
	begin := time.Now()
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = v
		}
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	n, budget := ch.Quick, 60.0
	if tier == "thorough" {
		n, budget = ch.Thor, 400.0
		if n == 0 {
			n = ch.Quick * 15
		}
	}
	if override > 0 {
		n = override
	}
	total := len(ch.fixed()) + n
	nbig := ch.nBig(tier)
	if ch.Sched {
		gomax = "4"
	}
	dir, err := os.MkdirTemp("", "verif-"+ch.ID+"-")
	if err != nil {
		die("%v", err)
	}
	defer os.RemoveAll(dir)

	nw := 8
	var ws []*child
	defer func() {
		for _, w := range ws {
			w.kill()
		}
	}()
	worker := func(i, from int) *child {
		out := filepath.Join(dir, fmt.Sprintf("w%d-%d", i, from))
		return start(out, "worker", "-prop", ch.ID, "-seed", fmt.Sprint(seed), "-tier", tier,
			"-shard", fmt.Sprint(i), "-n", fmt.Sprint(nw), "-total", fmt.Sprint(total), "-big", fmt.Sprint(nbig), "-budget", fmt.Sprint(budget), "-from", fmt.Sprint(from), "-out", out)
	}
	for i := 0; i < nw; i++ {
		ws = append(ws, worker(i, 0))
	}
	evals, slow := 0, 0
	labels := map[string]int{}
	hashes := map[uint64]bool{}
	var samples []*Case
	known := map[string]bool{}
	var fail *saved
	failIndex := -1
	crash := false
	var suspects []int
	open := map[int]bool{}
	for i := range ws {
		open[i] = true
	}
	for len(open) > 0 {
		for i, w := range ws {
			if !open[i] {
				continue
			}
			w.poll()
			if w.exited {
				delete(open, i)
				data, err := os.ReadFile(w.out)
				var o workerOut
				if err == nil && w.cmd.ProcessState.ExitCode() == 0 && json.Unmarshal(data, &o) == nil {
					evals += o.Evals
					for l, c := range o.Labels {
						labels[l] += c
					}
					for _, k := range o.Known {
						known[k] = true
					}
					samples = append(samples, o.Samples...)
					hs, _ := os.ReadFile(w.out + ".hashes")
					for j := 0; j+8 <= len(hs); j += 8 {
						hashes[binary.LittleEndian.Uint64(hs[j:])] = true
					}
					if o.Fail != nil && (fail == nil || o.Index < failIndex) {
						fail, failIndex = o.Fail, o.Index
					}
					continue
				}
				p := w.progress()
				if p == 0 {
					die("worker died outside a case: %v: %s", w.err, w.stderrText())
				}
				if msg, ok := crashKind(w.stderrText()); ok && ch.Sched && fail == nil {
					fail, failIndex = &saved{"process died: " + msg, ch.caseAt(ch.fixed(), seed, tier, int(p-1))}, int(p-1)
					crash = true
					continue
				}
				suspects = append(suspects, int(p-1))
				continue
			}
			if p := w.progress(); p != w.index {
				w.index = p
				w.cpuAt = w.cpu()
				w.wallAt = time.Now()
			} else if p != 0 {
				used := w.cpu() - w.cpuAt
				idle := time.Since(w.wallAt).Seconds()
				if (used > hugeLimit || w.rss() > rssLimit) && ch.huge(int(p-1)) {
					// costly is not wrong: go on after this case
					w.kill()
					slow++
					ws[i] = worker(i, int(p)-bigBase)
				} else if used > cpuLimit || w.rss() > rssLimit {
					w.kill()
					delete(open, i)
					suspects = append(suspects, int(p-1))
				} else if idle > stallWall && used < 1 {
					die("worker makes no progress on case %d", p-1)
				}
			}
		}
		if fail != nil {
			break // the verdict is known; no need for the rest
		}
		time.Sleep(5 * time.Millisecond)
	}
	for _, w := range ws {
		w.kill()
	}

	if fail == nil && len(suspects) > 0 {
		sort.Ints(suspects)
		fixed := ch.fixed()
		for _, idx := range suspects {
			c := ch.caseAt(fixed, seed, tier, idx)
			v := runAlone(dir, c)
			switch v.kind {
			case "fail":
				fail = &saved{v.msg, c}
			case "crash":
				if w := runAlone(dir, c); w.kind == "crash" {
					fail = &saved{v.msg, c}
					crash = true
				} else {
					die("case %d died once but not again: %s", idx, v.msg)
				}
			case "held":
				// Schedule-dependent or a lack of resources: try a few more times.
				again := false
				for k := 0; k < 20 && !again; k++ {
					v = runAlone(dir, c)
					if v.kind == "crash" {
						again = true
					}
				}
				if again {
					fail = &saved{v.msg, c}
					crash = true
				} else {
					die("a worker died on case %d, which runs normally on its own", idx)
				}
			default:
				die("case %d: %s", idx, v.msg)
			}
			if fail != nil {
				failIndex = idx
				break
			}
		}
	}

	raceCases, raceNote := 0, ""
	if ch.Race > 0 && fail == nil {
		n := ch.Race
		if tier == "thorough" {
			n *= 10
		}
		raceCases, raceNote, fail, failIndex = racePhase(ch, dir, seed, tier, len(ch.fixed())+n, budget/2)
	}

	replay := ""
	if fail != nil {
		rdir := filepath.Join(verif, "evidence", "replays")
		if err := os.MkdirAll(rdir, 0o755); err != nil {
			die("%v", err)
		}
		replay = filepath.Join(rdir, fmt.Sprintf("%s-seed%d.json", ch.ID, seed))
		small := fail
		if raceNote == "" || raceCases == 0 {
			small = shrinkFailure(dir, fail, crash)
		}
		jsonOut(replay, small)
		fail = small
	}

	var shown []interface{}
	sort.Slice(samples, func(i, j int) bool { return len(samples[i].Ops) < len(samples[j].Ops) })
	for i := 0; i < len(samples) && len(shown) < 3; i += 1 + len(samples)/3 {
		c := samples[i]
		more := 0
		if len(c.Ops) > 40 {
			more = len(c.Ops) - 40
			c = c.clone()
			c.Ops = c.Ops[:40]
		}
		m := map[string]interface{}{"case": c}
		if more > 0 {
			m["further_ops_not_shown"] = more
		}
		shown = append(shown, m)
	}
	if len(shown) == 0 && fail != nil {
		shown = append(shown, map[string]interface{}{"case": fail.Case, "violates": true})
	}
	nv := 0
	if fail != nil {
		nv = 1
	}
	cov := map[string]interface{}{
		"evaluations":         evals,
		"distinct_nontrivial": len(hashes),
		"rule":                ch.Rule,
		"samples":             shown,
		"planned_cases":       total + nbig,
		"large_cases":         nbig,
		"given_up":            slow,
		"labels":              labels,
	}
	if ch.Race > 0 {
		cov["race_detector_cases"] = raceCases
		cov["race_detector"] = raceNote
	}
	ev := map[string]interface{}{
		"property":   ch.ID,
		"tier":       tier,
		"seed":       seed,
		"level":      "exploration",
		"coverage":   cov,
		"violations": nv,
		"wall_s":     time.Since(begin).Seconds(),
	}
	if len(ch.Assume) > 0 {
		ev["assumptions"] = ch.Assume
	}
	if fail != nil {
		ev["violation"] = map[string]interface{}{"message": fail.Msg, "replay": replay, "case_index": failIndex}
	}
	if err := os.MkdirAll(filepath.Join(verif, "evidence"), 0o755); err != nil {
		die("%v", err)
	}
	jsonOut(filepath.Join(verif, "evidence", ch.ID+".json"), ev)
	for k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", ch.ID, k)
	}
	fmt.Printf("%s tier=%s seed=%d cases=%d/%d distinct_nontrivial=%d wall=%.1fs\n", ch.ID, tier, seed, evals, total+nbig, len(hashes), time.Since(begin).Seconds())
	if fail != nil {
		fmt.Printf("VIOLATION property=%s replay=%s\n%s\n", ch.ID, replay, printable(fail.Msg))
		return 1
	}
	return 0
}

// racePhase runs cases again with the harness built under the race detector,
// which run.sh provides where a C compiler is at hand.
func racePhase(ch *Check, dir string, seed int64, tier string, total int, budget float64) (evals int, note string, fail *saved, index int) {
	index = -1
	bin := os.Getenv("VERIF_RACE_BIN")
	if bin == "" {
		return 0, "not available: " + os.Getenv("VERIF_RACE_WHY"), nil, -1
	}
	note = "used"
	old := raceBin
	raceBin = bin
	os.Setenv("GORACE", "halt_on_error=1 exitcode=66 history_size=3")
	defer func() { raceBin = old; os.Unsetenv("GORACE") }()
	nw := 8
	var ws []*child
	for i := 0; i < nw; i++ {
		out := filepath.Join(dir, fmt.Sprintf("r%d", i))
		ws = append(ws, start(out, "worker", "-prop", ch.ID, "-seed", fmt.Sprint(seed), "-tier", tier,
			"-shard", fmt.Sprint(i), "-n", fmt.Sprint(nw), "-total", fmt.Sprint(total), "-budget", fmt.Sprint(budget), "-out", out))
	}
	begin := time.Now()
	for _, w := range ws {
		for !w.exited {
			w.poll()
			if time.Since(begin).Seconds() > budget*2+60 {
				w.kill()
				note = "used; a worker was stopped before its end"
			}
			time.Sleep(2 * time.Millisecond)
		}
		if fail != nil {
			continue
		}
		var o workerOut
		data, err := os.ReadFile(w.out)
		if err == nil && w.cmd.ProcessState.ExitCode() == 0 && json.Unmarshal(data, &o) == nil {
			evals += o.Evals
			if o.Fail != nil {
				fail, index = o.Fail, o.Index
			}
			continue
		}
		if p := w.progress(); p > 0 {
			evals++
			if msg, ok := crashKind(w.stderrText()); ok {
				index = int(p - 1)
				fail = &saved{"under the race detector: " + msg, ch.caseAt(ch.fixed(), seed, tier, index)}
			}
		}
	}
	return
}

// shrinkFailure reduces a failing case in a subprocess and returns the
// smallest failing case found.
func shrinkFailure(dir string, f *saved, crash bool) *saved {
	in := filepath.Join(dir, "fail.json")
	jsonOut(in, f)
	if !crash {
		out := filepath.Join(dir, "small.json")
		k := start(filepath.Join(dir, "shrink"), "shrink", in, out)
		begin := time.Now()
		for !k.exited {
			k.poll()
			if k.rss() > rssLimit || time.Since(begin).Seconds() > 60 {
				k.kill()
			}
			time.Sleep(2 * time.Millisecond)
		}
		if data, err := os.ReadFile(out); err == nil {
			var s saved
			if json.Unmarshal(data, &s) == nil && s.Case != nil {
				return &s
			}
		}
		return f
	}
	best := *f
	if strings.Contains(f.Msg, "CPU time") || strings.Contains(f.Msg, "memory grows") {
		return &best // every try costs tens of seconds
	}
	shrink(f.Case, func(c *Case) bool {
		v := runAlone(dir, c)
		if v.kind == "crash" {
			best = saved{v.msg, c}
			return true
		}
		return false
	}, nil, 400, 40*time.Second)
	return &best
}
