// vh is the verification harness: a driver that shards deterministic cases over
// worker processes, watches the workers for crashes and hangs, and turns what
// the oracles report into VIOLATION / KNOWN-FINDING lines and an evidence file.
package main

import (
	"bufio"
	"crypto/sha256"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Prop describes one property: how many cases to run and what one case does.
type Prop struct {
	ID       string
	Quick    int
	Thorough int
	Case     func(c *C)
	Setup    func(w *W)
	Timeout  time.Duration // per case, before the watchdog calls it a hang
	Workers  int
	Rule     string
	Level    string
	Assume   []string
}

var registry = map[string]*Prop{}

func register(p *Prop) {
	if p.Timeout == 0 {
		p.Timeout = 40 * time.Second
	}
	if p.Level == "" {
		p.Level = "exploration"
	}
	registry[p.ID] = p
}

// W is the state of a worker process.
type W struct {
	Prop    *Prop
	Tier    string
	Seed    int64
	Dir     string // scratch directory of this worker
	Bin     string // directory with the binaries built from /repo
	Cover   map[uint64]struct{}
	Counts  map[string]int
	Samples []string
	Data    any
}

// C is one case.
type C struct {
	*W
	R     *rand.Rand
	Idx   int
	fails []Failure
	input string
	cover []string
	tmp   string // directory of this case
}

type Failure struct {
	Property string `json:"property"`
	Tier     string `json:"tier"`
	Seed     int64  `json:"seed"`
	Idx      int    `json:"idx"`
	Sig      string `json:"sig"`
	Detail   string `json:"detail"`
	Input    string `json:"input"`
}

type skipCase struct{}

// Fail records that the property does not hold on this case.
func (c *C) Fail(sig, format string, args ...any) {
	c.fails = append(c.fails, Failure{
		Property: c.Prop.ID, Tier: c.Tier, Seed: c.Seed, Idx: c.Idx,
		Sig: sig, Detail: fmt.Sprintf(format, args...), Input: c.input,
	})
}

// Input names the input of the case, for reports.
func (c *C) Input(s string) {
	c.input = s
	if showInput {
		// the process may not live to report it
		fmt.Fprintf(os.Stderr, "VH-INPUT %s\n", strconv.Quote(s))
	}
}

var showInput = os.Getenv("VH_SHOW") != ""

// Seen records a behaviour observed in this case; distinct ones are counted.
func (c *C) Seen(key string) { c.cover = append(c.cover, key) }

// Count adds to a named event counter of the evidence.
func (c *C) Count(name string, n int) { c.Counts[name] += n }

func (c *C) Intn(n int) int { return c.R.IntN(n) }
func (c *C) Chance(p float64) bool {
	return c.R.Float64() < p
}
func pick[T any](c *C, xs []T) T { return xs[c.R.IntN(len(xs))] }

func caseRand(seed int64, prop string, idx int) *rand.Rand {
	h := sha256.Sum256([]byte(fmt.Sprintf("%d/%s/%d", seed, prop, idx)))
	var a, b uint64
	for i := 0; i < 8; i++ {
		a = a<<8 | uint64(h[i])
		b = b<<8 | uint64(h[8+i])
	}
	return rand.New(rand.NewPCG(a, b))
}

func hashKey(s string) uint64 {
	h := fnv.New64a()
	io.WriteString(h, s)
	return h.Sum64()
}

func (w *W) runCase(idx int) (c *C) {
	c = &C{W: w, R: caseRand(w.Seed, w.Prop.ID, idx), Idx: idx}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(skipCase); ok {
				c.Count("skipped", 1)
			} else {
				c.Fail("panic", "panic: %v\n%s", r, debug.Stack())
			}
		}
		for _, k := range c.cover {
			w.Cover[hashKey(k)] = struct{}{}
		}
	}()
	w.Prop.Case(c)
	return c
}

// Skip drops a case whose generated input is outside the property's domain.
func (c *C) Skip() { panic(skipCase{}) }

type workerEnd struct {
	Cover   []uint64       `json:"cover"`
	Counts  map[string]int `json:"counts"`
	Samples []string       `json:"samples"`
	Cases   int            `json:"cases"`
}

func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Int64("seed", 1, "")
	from := fs.Int("from", 0, "")
	to := fs.Int("to", 0, "")
	step := fs.Int("step", 1, "")
	dir := fs.String("dir", "", "")
	bin := fs.String("bin", "", "")
	slow := fs.Float64("slow", 1, "")
	fs.Parse(args)

	p := registry[*prop]
	w := &W{Prop: p, Tier: *tier, Seed: *seed, Dir: *dir, Bin: *bin, Cover: map[uint64]struct{}{}, Counts: map[string]int{}}
	syscall.CloseOnExec(3) // what a case starts must not keep it open
	events := bufio.NewWriter(os.NewFile(3, "events"))
	emit := func(tag string, v any) {
		b, _ := json.Marshal(v)
		fmt.Fprintf(events, "%s %s\n", tag, b)
	}
	debug.SetMaxStack(256 << 20)

	var current, started atomic.Int64
	current.Store(-1)
	go func() {
		limit := time.Duration(float64(p.Timeout) * *slow)
		for {
			time.Sleep(200 * time.Millisecond)
			idx := current.Load()
			if idx >= 0 && time.Since(time.Unix(0, started.Load())) > limit && current.Load() == idx {
				buf := make([]byte, 1<<20)
				n := runtime.Stack(buf, true)
				fmt.Fprintf(os.Stderr, "VH-HANG case %d\n%s\n", idx, buf[:n])
				os.Exit(97)
			}
		}
	}()

	if p.Setup != nil {
		p.Setup(w)
	}
	n := 0
	for idx := *from; idx < *to; idx += *step {
		fmt.Fprintf(events, "S %d\n", idx)
		events.Flush()
		started.Store(time.Now().UnixNano())
		current.Store(int64(idx))
		c := w.runCase(idx)
		current.Store(-1)
		n++
		for _, f := range c.fails {
			emit("F", f)
		}
		if len(w.Samples) < 3 && c.input != "" && idx%7 == 3 {
			s := c.input
			if len(s) > 600 {
				s = s[:600] + "..."
			}
			w.Samples = append(w.Samples, fmt.Sprintf("case %d: %s", idx, strings.ToValidUTF8(s, "?")))
		}
	}
	end := workerEnd{Counts: w.Counts, Samples: w.Samples, Cases: n}
	for k := range w.Cover {
		end.Cover = append(end.Cover, k)
	}
	emit("E", end)
	events.Flush()
}

type runResult struct {
	ended   bool
	end     workerEnd
	fails   []Failure
	last    int
	exit    int
	stderr  string
	crashed bool
}

func runWorker(self string, p *Prop, tier string, seed int64, from, to, step int, dir, bin string, slow float64) runResult {
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	cmd := exec.Command(self, "worker", "-prop", p.ID, "-tier", tier, "-seed", strconv.FormatInt(seed, 10),
		"-from", strconv.Itoa(from), "-to", strconv.Itoa(to), "-step", strconv.Itoa(step), "-dir", dir, "-bin", bin,
		"-slow", fmt.Sprint(slow))
	cmd.ExtraFiles = []*os.File{w}
	errFile, err := os.CreateTemp(dir, "stderr-*")
	if err != nil {
		panic(err)
	}
	defer os.Remove(errFile.Name())
	cmd.Stderr = errFile
	cmd.Stdout = nil
	res := runResult{last: -1}
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	w.Close()
	sc := bufio.NewReaderSize(r, 1<<20)
	for {
		line, err := sc.ReadString('\n')
		if len(line) > 2 && strings.HasSuffix(line, "\n") {
			body := line[2 : len(line)-1]
			switch line[0] {
			case 'S':
				res.last, _ = strconv.Atoi(body)
			case 'F':
				var f Failure
				if json.Unmarshal([]byte(body), &f) == nil {
					res.fails = append(res.fails, f)
				}
			case 'E':
				if json.Unmarshal([]byte(body), &res.end) == nil {
					res.ended = true
				}
			}
		}
		if err != nil {
			break
		}
	}
	r.Close()
	err = cmd.Wait()
	res.exit = cmd.ProcessState.ExitCode()
	errFile.Seek(0, 0)
	b, _ := io.ReadAll(io.LimitReader(errFile, 4<<20))
	errFile.Close()
	res.stderr = string(b)
	res.crashed = !res.ended || res.exit != 0
	return res
}

type known struct{ prop, sig, what string }

func loadKnown(path string) (ks []known) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, line := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(line, "known: property=")
		if !ok {
			continue
		}
		f := strings.SplitN(rest, " ", 3)
		if len(f) == 3 {
			ks = append(ks, known{f[0], strings.TrimPrefix(f[1], "sig="), f[2]})
		}
	}
	return ks
}

func driver(args []string) int {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Int64("seed", 1, "")
	bin := fs.String("bin", "", "")
	verif := fs.String("verif", "/verif", "")
	scratch := fs.String("scratch", "", "")
	replay := fs.String("replay", "", "")
	cases := fs.Int("cases", 0, "override the number of cases")
	fs.Parse(args)

	p := registry[*prop]
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %s\n", *prop)
		return 2
	}
	self, _ := os.Executable()
	start := time.Now()

	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		var f Failure
		if err := json.Unmarshal(b, &f); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		dir := filepath.Join(*scratch, "replay")
		os.MkdirAll(dir, 0755)
		os.Setenv("VH_SHOW", "1")
		res := runWorker(self, p, f.Tier, f.Seed, f.Idx, f.Idx+1, 1, dir, *bin, 2)
		for _, x := range res.fails {
			fmt.Printf("VIOLATION property=%s replay=%s\n%s\n--- input\n%s\n", p.ID, *replay, x.Detail, x.Input)
		}
		if res.crashed {
			fmt.Printf("VIOLATION property=%s replay=%s\nworker ended with %d\n%s\n", p.ID, *replay, res.exit, res.stderr)
		}
		if len(res.fails) > 0 || res.crashed {
			return 1
		}
		fmt.Println("the case passes")
		return 0
	}

	total := p.Quick
	if *tier == "thorough" {
		total = p.Thorough
	}
	if *cases > 0 {
		total = *cases
	}
	nw := p.Workers
	if nw == 0 {
		nw = 8
	}
	if nw > total {
		nw = total
	}

	var mu sync.Mutex
	var fails []Failure
	cover := map[uint64]struct{}{}
	counts := map[string]int{}
	var samples []string
	evaluated := 0
	var notes []string
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			from := i
			crashes := 0
			for from < total {
				dir := filepath.Join(*scratch, fmt.Sprintf("w%d", i))
				os.RemoveAll(dir)
				os.MkdirAll(dir, 0755)
				res := runWorker(self, p, *tier, *seed, from, total, nw, dir, *bin, 1)
				mu.Lock()
				fails = append(fails, res.fails...)
				if res.ended {
					evaluated += res.end.Cases
				} else if res.last >= from {
					evaluated += (res.last-from)/nw + 1
				}
				for _, k := range res.end.Cover {
					cover[k] = struct{}{}
				}
				for k, v := range res.end.Counts {
					counts[k] += v
				}
				samples = append(samples, res.end.Samples...)
				mu.Unlock()
				if !res.crashed {
					break
				}
				crashes++
				idx := res.last
				if idx < 0 {
					idx = from
				}
				f := Failure{Property: p.ID, Tier: *tier, Seed: *seed, Idx: idx, Sig: "crash",
					Detail: fmt.Sprintf("worker ended with status %d in case %d\n%s", res.exit, idx, tail(res.stderr))}
				genuine := strings.Contains(res.stderr, "fatal error:") || strings.Contains(res.stderr, "DATA RACE") ||
					strings.Contains(res.stderr, "panic:") || strings.Contains(res.stderr, "SIGSEGV")
				if strings.Contains(res.stderr, "fatal error: runtime: cannot allocate") || strings.Contains(res.stderr, "out of memory") {
					genuine = false
				}
				os.Setenv("VH_SHOW", "1")
				d2 := filepath.Join(*scratch, fmt.Sprintf("w%d-again", i))
				os.MkdirAll(d2, 0755)
				again := runWorker(self, p, *tier, *seed, idx, idx+1, 1, d2, *bin, 2)
				for _, l := range strings.Split(again.stderr, "\n") {
					if q, ok := strings.CutPrefix(l, "VH-INPUT "); ok {
						f.Input, _ = strconv.Unquote(q)
					}
				}
				os.Unsetenv("VH_SHOW")
				if !genuine {
					// a hang or a kill may be the machine's doing: it counts when it happens again alone
					mu.Lock()
					if again.crashed {
						f.Sig = "hang"
						f.Detail = fmt.Sprintf("case %d does not end normally (status %d), twice\n%s", idx, again.exit, tail(again.stderr))
						fails = append(fails, f)
					} else {
						fails = append(fails, again.fails...)
						notes = append(notes, fmt.Sprintf("case %d: worker ended with status %d once and normally when run again", idx, res.exit))
					}
					mu.Unlock()
				} else {
					mu.Lock()
					fails = append(fails, f)
					mu.Unlock()
				}
				if crashes >= 5 {
					break
				}
				from = idx + nw
			}
		}(i)
	}
	wg.Wait()

	ks := loadKnown(filepath.Join(*verif, "known-findings.txt"))
	sort.SliceStable(fails, func(a, b int) bool { return fails[a].Idx < fails[b].Idx })
	knownSeen := map[string]known{}
	var fresh []Failure
	for _, f := range fails {
		isKnown := false
		for _, k := range ks {
			if k.prop == p.ID && k.sig == f.Sig {
				knownSeen[k.sig] = k
				isKnown = true
			}
		}
		if !isKnown {
			fresh = append(fresh, f)
		}
	}
	for _, k := range ks {
		if _, ok := knownSeen[k.sig]; ok && k.prop == p.ID {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k.what)
		}
	}
	shown := map[string]int{}
	lines := 0
	for _, f := range fresh {
		shown[f.Sig]++
		if shown[f.Sig] > 2 || lines >= 6 {
			continue
		}
		lines++
		rdir := filepath.Join(*verif, "replays")
		os.MkdirAll(rdir, 0755)
		path := filepath.Join(rdir, fmt.Sprintf("%s-%s-%d-%d.json", p.ID, f.Tier, f.Seed, f.Idx))
		b, _ := json.MarshalIndent(f, "", " ")
		os.WriteFile(path, b, 0644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		d := f.Detail
		if len(d) > 3000 {
			d = d[:3000] + "..."
		}
		in := f.Input
		if len(in) > 2000 {
			in = in[:2000] + "..."
		}
		fmt.Printf("  [%s] %s\n  --- input\n%s\n", f.Sig, d, in)
	}
	if len(fresh) > lines {
		fmt.Printf("  and %d more failures\n", len(fresh)-lines)
	}

	sort.Strings(samples)
	if len(samples) > 6 {
		samples = samples[:6]
	}
	sampleAny := make([]any, len(samples))
	for i, s := range samples {
		sampleAny[i] = s
	}
	coverage := map[string]any{
		"evaluations":         evaluated,
		"distinct_nontrivial": len(cover),
		"rule":                p.Rule,
		"samples":             sampleAny,
		"events":              counts,
		"workers":             nw,
	}
	if len(notes) > 0 {
		coverage["unconfirmed_incidents"] = notes
	}
	if len(knownSeen) > 0 {
		coverage["known_findings_seen"] = len(knownSeen)
	}
	ev := map[string]any{
		"property": p.ID, "tier": *tier, "seed": *seed, "level": p.Level,
		"coverage": coverage, "wall_s": time.Since(start).Seconds(),
		"assumptions": p.Assume, "violations": len(fresh),
	}
	if p.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(*verif, "evidence", p.ID+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s: %d cases, %d distinct, %d skipped, %d violations, %.1fs\n", p.ID, *tier, evaluated, len(cover), counts["skipped"], len(fresh), time.Since(start).Seconds())
	if len(fresh) > 0 {
		return 1
	}
	if evaluated < total {
		fmt.Fprintf(os.Stderr, "only %d of %d cases ran\n", evaluated, total)
	}
	if evaluated == 0 || len(cover) == 0 || counts["skipped"]*2 > evaluated {
		fmt.Fprintln(os.Stderr, "the run observed too little to mean anything")
		return 2
	}
	return 0
}

func tail(s string) string {
	if i := strings.Index(s, "fatal error:"); i >= 0 && i > 200 {
		s = s[i-200:]
	}
	if len(s) > 4000 {
		s = s[:4000]
	}
	return s
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vh run|worker|list ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		os.Exit(driver(os.Args[2:]))
	case "worker":
		worker(os.Args[2:])
	case "list":
		for id := range registry {
			fmt.Println(id)
		}
	default:
		if f, ok := helpers[os.Args[1]]; ok {
			os.Exit(f(os.Args[2:]))
		}
		os.Exit(2)
	}
}

// helpers are extra subcommands used by checks (stand-in executables and the like).
var helpers = map[string]func([]string) int{}
