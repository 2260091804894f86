package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/totegamma/yisp/core"
	"github.com/totegamma/yisp/engine"
)

func init() {
	register(&Prop{
		ID: "C16", Quick: 300, Thorough: 4000, Case: c16, Setup: func(w *W) {
			setupCache(w)
			keepStored = true
		}, Workers: 4,
		Rule:   "distinct orders in which concurrent evaluations started and ended, and distinct programs evaluated; all under the race detector",
		Assume: []string{"Files and caches do not change between the evaluations that are compared, except that what a process evaluated before must not matter when they do."},
	})
	helpers["c16child"] = c16child
}

// c16Sources are the properties whose programs are evaluated again here.
var c16Sources = []string{"C01", "C02", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C17", "C17", "C17", "C23"}

// collect runs cases of other properties for the sake of the programs they evaluate.
func collect(c *C, n int) []job {
	var jobs []job
	recorder = func(j job) {
		if len(j.Src) < 20000 {
			jobs = append(jobs, j)
		}
	}
	defer func() { recorder = nil }()
	for i := 0; i < n; i++ {
		p := registry[pick(c, c16Sources)]
		w := &W{Prop: p, Tier: c.Tier, Seed: c.Seed, Dir: filepath.Join(c.tmp, fmt.Sprint("from", i)), Bin: c.Bin, Cover: map[uint64]struct{}{}, Counts: map[string]int{}}
		os.MkdirAll(w.Dir, 0755)
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(skipCase); !ok {
						panic(r)
					}
				}
			}()
			before := len(jobs)
			p.Case(&C{W: w, R: c.R, Idx: c.Idx})
			// C13 and C01 check one program again and again
			if len(jobs) > before+3 {
				jobs = jobs[:before+3]
			}
		}()
	}
	return jobs
}

func result(out string, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	return out
}

// evaluate does one evaluation on the given engine.
func evaluate(e *eng, j job) (res string) {
	defer func() {
		if r := recover(); r != nil {
			res = fmt.Sprint("panic: ", r)
		}
	}()
	switch j.Kind {
	case "file":
		return result(e.file(j.Src))
	case "any":
		return result(e.any(j.Src))
	case "env":
		return result(e.env(j.Src))
	case "bytes":
		return result(e.bytes(j.Src))
	}
	return result(e.text(j.Src))
}

// eng hides the unexported type of engines.
type eng struct {
	text, file, any, env, bytes func(string) (string, error)
}

func newEng(o opts) *eng {
	e := engine.NewEngine(o)
	return &eng{
		text: func(s string) (string, error) { return e.EvaluateReaderToYaml(strings.NewReader(s), "inline") },
		file: e.EvaluateFileToYaml,
		any: func(p string) (string, error) {
			v, err := e.EvaluateFileToAny(p)
			return fmt.Sprintf("%#v", v), err
		},
		env: func(s string) (string, error) {
			env := core.NewEnv()
			items, err := core.ParseAny("items", []any{map[string]any{"a": 1, "b": []any{"x", nil}}, 2.5})
			if err != nil {
				return "", err
			}
			env.Set("a", items)
			return e.EvaluateReaderToYamlWithEnv(strings.NewReader(s), env, "inline")
		},
		bytes: func(s string) (string, error) {
			return e.EvaluateBytesToYaml([]byte(s), map[string]any{"a": map[string]any{"y": 1, "x": "t", "z": []any{}}, "b": true})
		},
	}
}

// world writes files that include and import each other and returns programs over them.
func (g *fileWorld) make() []job {
	c := g.c
	dir := filepath.Join(c.tmp, "world")
	os.MkdirAll(filepath.Join(dir, "sub"), 0755)
	val := func() *Y { return yquote(genVal(c, genOpt{depth: 2, plain: true})) }
	lib := func(n int) string {
		docs := []*Y{
			val().anchor("v"),
			yquote(genMap(c, genOpt{depth: 2, plain: true})).anchor("m"),
			ycall("lambda", yseq(yname("x")), yseq(yref("x"), yref("v"), ys(integer(int64(n)))).tag("!quote")).tag("!yisp").anchor("f"),
			ycall("lambda", yseq(yname("x"), yname("y")), ycall("maps.merge", yref("x"), yref("y"), yref("m"))).tag("!yisp").anchor("g"),
			ycall("schema", yquote(mapv("type", str("object"), "properties", mapv("a", mapv("type", str("integer"), "default", integer(int64(n))), "b", mapv("type", str("array"), "items", mapv("type", str("string")))), "additionalProperties", boolean(true)))).tag("!yisp").anchor("T"),
		}
		if n > 0 && c.Chance(0.5) {
			docs = append([]*Y{ycall("import", yseq(yname("up"), ys(str("../lib0.yisp")))).tag("!yisp"), ycall("lists.map", yseq(val(), val()).tag("!quote"), yref("up.f")).tag("!yisp").anchor("w")}, docs...)
		}
		return emitDocs(newEmitter(c.R), docs)
	}
	write(filepath.Join(dir, "lib0.yisp"), lib(0))
	write(filepath.Join(dir, "sub", "lib1.yisp"), lib(1))
	write(filepath.Join(dir, "sub", "lib2.yisp"), lib(2))
	write(filepath.Join(dir, "data.yaml"), tameDocs(c, []*Val{genVal(c, genOpt{depth: 2, plain: true}), genVal(c, genOpt{depth: 3, plain: true})}))
	b, _ := json.Marshal(jsonable(cleanKeys(genVal(c, genOpt{depth: 3, plain: true}))))
	write(filepath.Join(dir, "sub", "data.json"), string(b))
	write(filepath.Join(dir, "sub", "bad.yisp"), pick(c, []string{"!yisp [lists.car, 3]\n", "a: [\n", "!yisp [nosuch, 1]\n", "&v !yisp [+, 1, x]\n"}))
	var jobs []job
	for n := 3 + c.Intn(4); n > 0; n-- {
		var docs []*Y
		l := pick(c, []string{"lib0.yisp", "sub/lib1.yisp", "sub/lib2.yisp"})
		docs = append(docs, ycall("import", yseq(yname("l"), ys(str(l)))).tag("!yisp"))
		if c.Chance(0.5) {
			docs = append(docs, val().anchor(pick(c, []string{"v", "m", "l.v"})))
		}
		for k := 1 + c.Intn(5); k > 0; k-- {
			var y *Y
			switch c.Intn(9) {
			case 0:
				y = ycall("include", ys(str(pick(c, []string{"*.yaml", "sub/*.json", "sub/*", "sub/lib*.yisp", "data.yaml", "nosuch"}))))
			case 1:
				y = yseq(yref("l.f"), val())
			case 2:
				y = ycall("lists.map", yseq(val(), val(), yref("l.v")).tag("!quote"), yref("l.f"))
			case 3:
				y = yseq(yref("l.g"), yquote(genMap(c, genOpt{depth: 1, plain: true})), yref("l.m"))
			case 4:
				y = ycall("types.assert", yref("l.T"), yquote(genMap(c, genOpt{depth: 1, plain: true})))
			case 5:
				y = ycall("files.glob", ys(str(pick(c, []string{"**/*", "*.yisp", "sub/*.json"}))))
			case 6:
				y = ymap("a", yref("l.v"), "m", yref("l.m"), "v", yref("v"))
			case 7:
				y = ycall("include", ys(str("sub/bad.yisp")))
			case 8:
				y = ycall("strings.format", ys(str("%v %v")), yref("l.m"), yref("l.v"))
			}
			if y.Tag == "" && y.K != yAlias {
				y.Tag = "!yisp"
			}
			docs = append(docs, y)
		}
		p := filepath.Join(dir, fmt.Sprintf("main%d.yisp", n))
		write(p, emitDocs(newEmitter(c.R), docs))
		jobs = append(jobs, job{pick(c, []string{"file", "file", "any"}), p, someOpts(c)})
	}
	return jobs
}

type fileWorld struct{ c *C }

func someOpts(c *C) opts {
	return opts{ShowTrace: c.Chance(0.1), RenderSources: c.Chance(0.3), RenderSpecialObjects: c.Chance(0.3), AllowUntypedManifest: c.Chance(0.3), DisableTypeCheck: c.Chance(0.3)}
}

type c16wire struct {
	Kind string `json:"kind"`
	Src  []byte `json:"src"`
	O    opts   `json:"o"`
}

// c16child evaluates jobs in a process of its own.
func c16child(args []string) int {
	var in struct {
		Cache string    `json:"cache"`
		Jobs  []c16wire `json:"jobs"`
	}
	if err := json.NewDecoder(os.Stdin).Decode(&in); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	core.CacheDir = in.Cache
	out := os.Stdout
	os.Stdout, _ = os.Open(os.DevNull)
	var res [][]byte
	for _, j := range in.Jobs {
		res = append(res, []byte(evaluate(newEng(j.O), job{j.Kind, string(j.Src), j.O})))
	}
	json.NewEncoder(out).Encode(res)
	return 0
}

// otherProcess evaluates the jobs in the given order in a new process.
func otherProcess(c *C, jobs []job, order []int) []string {
	in := map[string]any{"cache": core.CacheDir}
	var ws []c16wire
	for _, i := range order {
		ws = append(ws, c16wire{jobs[i].Kind, []byte(jobs[i].Src), jobs[i].O})
	}
	in["jobs"] = ws
	b, _ := json.Marshal(in)
	self, _ := os.Executable()
	cmd := exec.Command(self, "c16child")
	cmd.Stdin = bytes.NewReader(b)
	cmd.Env = append(os.Environ(), fmt.Sprintf("GOMAXPROCS=%d", 1+c.Intn(3)), "TZ="+pick(c, []string{"UTC", "Asia/Tokyo"}), "LANG=xx")
	var errOut bytes.Buffer
	cmd.Stderr = &errOut
	text, err := cmd.Output()
	if err != nil {
		c.Fail("crash", "the other process ends with %v\n%s", err, tail(errOut.String()))
		c.Skip()
	}
	var res [][]byte
	if err := json.Unmarshal(text, &res); err != nil || len(res) != len(order) {
		panic(fmt.Sprint("bad answer of the other process: ", err))
	}
	byJob := make([]string, len(jobs))
	for k, i := range order {
		byJob[i] = string(res[k])
	}
	return byJob
}

func diffText(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(la) || i < len(lb); i++ {
		x, y := "<end>", "<end>"
		if i < len(la) {
			x = la[i]
		}
		if i < len(lb) {
			y = lb[i]
		}
		if x != y {
			return fmt.Sprintf("line %d: %q became %q", i+1, x, y)
		}
	}
	return ""
}

// miscall is a program that calls some operator with whatever operands, which
// mostly is an error, and errors must not differ between evaluations either.
func miscall(c *C) job {
	var ops []string
	for k := range opModels {
		ops = append(ops, k)
	}
	ops = append(ops, "schema", "types.assert", "types.get", "types.of", "types.exists", "k8s.patch", "maps.patch", "lists.patch", "yaml.marshal", "yaml.unmarshal", "nosuch", "if", "lambda")
	sort.Strings(ops)
	operand := func() *Y {
		switch c.Intn(8) {
		case 0:
			return ycall("lambda", yseq(yname("x")), yref("x"))
		case 1:
			return yref(pick(c, []string{"int", "string", "bool"}))
		case 2:
			return ycall("schema", yquote(mapv("type", str("object"), "properties", mapv("a", mapv("type", str("integer")), "b", mapv("oneOf", list(mapv("type", str("string")), mapv("type", str("integer"))))))))
		case 3:
			return yquote(genMap(c, genOpt{depth: 2, plain: true}))
		case 4:
			return ymap("b", yseq(ys(str("lambda")), yseq(), ys(integer(1))), "a", yref("int"))
		case 5:
			return yseq(yref("int"), ycall("lambda", yseq(yname("x")), yref("x")), yquote(genMap(c, genOpt{depth: 1, plain: true}))).tag("!quote")
		}
		return yquote(genVal(c, genOpt{depth: 2, plain: true}))
	}
	y := ycall(pick(c, ops))
	if c.Chance(0.1) {
		y = yseq(operand())
	}
	for n := c.Intn(4); n > 0; n-- {
		y.L = append(y.L, operand())
	}
	return job{"text", emitDocs(newEmitter(c.R), []*Y{y.tag("!yisp")}), someOpts(c)}
}

func c16(c *C) {
	os.RemoveAll(core.CacheDir)
	setupCache(c.W)
	c.fresh()
	jobs := collect(c, 5+c.Intn(15))
	// the cases clean up behind themselves in one directory
	c.tmp = filepath.Join(c.Dir, "case")
	world := false
	if c.Chance(0.6) {
		jobs = append(jobs, (&fileWorld{c}).make()...)
		world = true
	}
	for n := c.Intn(10); n > 0; n-- {
		jobs = append(jobs, miscall(c))
	}
	if len(jobs) < 2 {
		c.Skip()
	}
	for i := range jobs {
		if jobs[i].Kind == "text" && c.Chance(0.15) {
			jobs[i].Kind = pick(c, []string{"env", "bytes"})
		}
	}
	var show strings.Builder
	for i, j := range jobs {
		if i < 40 {
			fmt.Fprintf(&show, "--- job %d: %s %+v\n%s\n", i, j.Kind, j.O, j.Src)
		}
	}
	c.Input(show.String())

	// alone, each on an engine of its own
	base := make([]string, len(jobs))
	for i, j := range jobs {
		base[i] = evaluate(newEng(j.O), j)
		c.Seen("program " + fmt.Sprint(hashKey(j.Kind+base[i])))
	}
	failed := false
	check := func(how string, i int, got string) {
		if got == base[i] || failed {
			return
		}
		failed = true
		src := jobs[i].Src
		if jobs[i].Kind == "file" || jobs[i].Kind == "any" {
			b, _ := os.ReadFile(src)
			src += "\n" + string(b)
		}
		c.Input(fmt.Sprintf("job %d of %d: %s %+v\n%s", i, len(jobs), jobs[i].Kind, jobs[i].O, src))
		c.Fail("differs", "%s, the result is different: %s\n--- alone\n%s\n--- then\n%s", how, diffText(base[i], got), clip(base[i]), clip(got))
	}
	perm := func() []int { return c.R.Perm(len(jobs)) }

	// again, in another order, on engines of their own
	for _, i := range perm() {
		check("evaluated again", i, evaluate(newEng(jobs[i].O), jobs[i]))
	}
	c.Count("evaluations again", len(jobs))

	// in another process
	if c.Chance(0.4) {
		order := perm()
		res := otherProcess(c, jobs, order)
		for _, i := range order {
			check("in another process", i, res[i])
		}
		c.Count("evaluations in another process", len(jobs))
	}

	// one engine for all with the same options
	shared := map[opts]*eng{}
	for _, j := range jobs {
		if shared[j.O] == nil {
			shared[j.O] = newEng(j.O)
		}
	}
	for _, i := range append(perm(), perm()...) {
		check("on an engine used before", i, evaluate(shared[jobs[i].O], jobs[i]))
	}
	c.Count("evaluations on a used engine", 2*len(jobs))

	// many at the same time
	for round := 0; round < 2; round++ {
		one := round == 1
		how := "while others are evaluated on other engines"
		if one {
			how = "while others are evaluated on the same engine"
			// what shares an engine must have the same options
			o := jobs[c.Intn(len(jobs))].O
			for k := range jobs {
				if c.Chance(0.7) && jobs[k].O != o {
					jobs[k].O = o
					base[k] = evaluate(newEng(o), jobs[k])
				}
			}
			shared = map[opts]*eng{}
			for _, j := range jobs {
				if shared[j.O] == nil {
					shared[j.O] = newEng(j.O)
				}
			}
		}
		workers := 2 + c.Intn(7)
		queue := perm()
		for len(queue) < workers*8 {
			queue = append(queue, perm()...)
		}
		// some programs run against themselves
		if c.Chance(0.5) {
			i := c.Intn(len(jobs))
			for k := range queue {
				if c.Chance(0.5) {
					queue[k] = i
				}
			}
		}
		got := make([]string, len(queue))
		var next, running, overlaps atomic.Int64
		var clock atomic.Int64
		type span struct{ k, from, to int64 }
		spans := make([][]span, workers)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				<-start
				for {
					k := next.Add(1) - 1
					if k >= int64(len(queue)) {
						return
					}
					j := jobs[queue[k]]
					e := shared[j.O]
					if !one {
						e = newEng(j.O)
					}
					if running.Add(1) > 1 {
						overlaps.Add(1)
					}
					from := clock.Add(1)
					if k%3 == 0 {
						runtime.Gosched()
					}
					got[k] = evaluate(e, j)
					spans[w] = append(spans[w], span{k, from, clock.Add(1)})
					running.Add(-1)
				}
			}(w)
		}
		close(start)
		wg.Wait()
		for k, i := range queue {
			check(how, i, got[k])
		}
		type ev struct {
			t int64
			s string
		}
		var evs []ev
		for _, ss := range spans {
			for _, s := range ss {
				evs = append(evs, ev{s.from, fmt.Sprint("+", queue[s.k])}, ev{s.to, fmt.Sprint("-", queue[s.k])})
			}
		}
		sort.Slice(evs, func(a, b int) bool { return evs[a].t < evs[b].t })
		var order strings.Builder
		for _, x := range evs {
			order.WriteString(x.s)
		}
		c.Seen("order " + order.String())
		c.Count("concurrent evaluations", len(queue))
		c.Count("concurrent evaluations that overlap others", int(overlaps.Load()))
	}

	// other files in the same places
	if world && !failed && c.Chance(0.5) {
		(&fileWorld{c}).make()
		all := make([]int, len(jobs))
		for i := range all {
			all[i] = i
		}
		res := otherProcess(c, jobs, all)
		for _, i := range perm() {
			base[i] = res[i]
			check("in a process that has seen other files in the same places", i, evaluate(newEng(jobs[i].O), jobs[i]))
			check("on an engine that has seen other files in the same places", i, evaluate(shared[jobs[i].O], jobs[i]))
		}
		c.Count("evaluations after the files have changed", 2*len(jobs))
	}
}

func clip(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "..."
	}
	return s
}
