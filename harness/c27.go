package main

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/totegamma/yisp/engine"
)

func init() {
	register(&Prop{
		ID: "C27", Quick: 8000, Thorough: 150000, Case: c27, Setup: c27setup, Timeout: 60 * time.Second,
		Rule: "programs of several files with probes, which are commands that log that they were reached, around expressions everywhere, and served files that log that they were fetched; distinct cases by way of running, kinds of probes reached, their number and the outcome",
		Assume: []string{
			"probes are stand-ins in a directory of the case, which log how they were called; they and the server append to one log",
			"programs that evaluate for long, or without end, are not judged",
		},
	})
}

// A probe logs its arguments and prints them.
const probeScript = `#!/bin/sh
{ printf 'echo\0%s\0' $#; [ $# = 0 ] || printf '%s\0' "$@"; printf '\0'; } >> "${0%/*}/log"
[ $# = 0 ] || printf '%s\n' "$@"
`

type c27state struct {
	srv  *httptest.Server
	mu   sync.Mutex
	tree map[string]string
	log  string
}

func c27setup(w *W) {
	s := &c27state{}
	s.srv = httptest.NewServer(http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		s.mu.Lock()
		defer s.mu.Unlock()
		if f, err := os.OpenFile(s.log, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644); err == nil {
			fmt.Fprintf(f, "fetch\x001\x00%s\x00\x00", r.URL.Path)
			f.Close()
		}
		text, ok := s.tree[r.URL.Path]
		if !ok {
			rw.WriteHeader(404)
		}
		rw.Write([]byte(text))
	}))
	w.Data = s
}

type c27case struct {
	*C
	x     *execs
	w     *world
	s     *c27state
	n     int // probes written
	kinds map[string]bool
	// how each probe was written
	forms map[string]string
}

// probe is a call of a probe, with something to log besides its number.
func (k *c27case) probe(g *progGen, form string, d int) *Y {
	c := k.C
	id := fmt.Sprint("p", k.n)
	k.n++
	k.forms[id] = form
	args := yseq(ys(str(id)))
	args.Tag = "!quote"
	if d > 0 && c.Chance(0.3) {
		v := g.code(tStr, d-1)
		if v.K == ySeq && v.Tag == "" && len(v.L) > 0 {
			v.Tag = "!yisp"
		}
		args.L = append(args.L, v)
	}
	m := ymap()
	m.M = append(m.M, YEnt{str("cmd"), ys(str("echo"))}, YEnt{str("args"), args}, YEnt{str("asString"), ys(boolean(true))})
	c.R.Shuffle(len(m.M), func(i, j int) { m.M[i], m.M[j] = m.M[j], m.M[i] })
	y := ycall("exec.cmd", m)
	if c.Chance(0.05) {
		return ycall("pipeline", m, yname("exec.cmd"))
	}
	return y
}

// each has a function applied to several items, and logs these.
func (k *c27case) each(g *progGen) *Y {
	c := k.C
	items := list()
	for n := c.Intn(5); n >= 0; n-- {
		items.L = append(items.L, str(fmt.Sprint("i", len(items.L))))
	}
	logged := func(form string, args ...*Y) *Y {
		p := k.probe(g, form, 0)
		p.walk(func(y *Y) {
			if y.K == ySeq && y.Tag == "!quote" {
				y.L = append(y.L, args...)
			}
		})
		return p
	}
	one := ycall("lambda", yseq(yname("x")), logged("item", yref("x")))
	switch c.Intn(5) {
	case 0, 1:
		return ycall("lists.map", yquote(items), one)
	case 2:
		if c.Chance(0.5) {
			one.L[2] = ycall("==", one.L[2], ydata(str("no")))
		}
		return ycall("lists.filter", yquote(items), one)
	case 3:
		return ycall("lists.reduce", yquote(items), ycall("lambda", yseq(yname("acc"), yname("x")), logged("fold", yref("acc"), yref("x"))))
	}
	y := ycall("pipeline", ydata(str("start")))
	for n := c.Intn(4); n >= 0; n-- {
		y.L = append(y.L, ycall("lambda", yseq(yname("x")), logged("stage", yref("x"))))
	}
	return y
}

func (k *c27case) gen() *progGen {
	c := k.C
	g := newProgGen(c)
	g.data = genOpt{depth: 1, width: 2, plain: true}
	g.specialP = pick(c, []float64{0.15, 0.3, 0.5})
	g.special = func(t *ty, d int) *Y {
		if k.n > 40 {
			return nil
		}
		switch c.Intn(8) {
		case 0:
			if t.k == 's' || t.k == 'a' {
				return k.probe(g, "value", d)
			}
		case 1: // decides
			p := k.probe(g, "condition", 0)
			id := fmt.Sprint("p", k.n-1)
			if c.Chance(0.3) {
				id = "no"
			}
			g.inBranch++
			defer func() { g.inBranch-- }()
			if t.k == 'a' && c.Chance(0.7) { // between data
				branch := func() *Y {
					if c.Chance(0.5) {
						return ymap("a", k.probe(g, "branch", 0))
					}
					return &Y{K: ySeq, Tag: "!quote", L: []*Y{g.mixed(k.probe(g, "branch", 0)), ys(integer(1))}}
				}
				return ycall("if", p, branch(), branch())
			}
			return ycall("if", ycall(pick(c, []string{"==", "!="}), p, ydata(str(id+"\n"))), g.code(t, d), g.code(t, d))
		case 2: // an argument that is not needed
			a := ycall(pick(c, []string{"or", "and", "||", "&&"}), k.probe(g, "operand", d), ycall("==", k.probe(g, "operand", 0), ydata(str(""))), k.probe(g, "operand", 0))
			return ycall("progn", a, g.code(t, d))
		case 3:
			return ycall("??", g.code(t, d), k.probe(g, "alternative", 0))
		case 4: // within data
			m := ymap()
			m.M = append(m.M, YEnt{str("a"), k.probe(g, "entry", d)}, YEnt{str("b"), g.code(t, d)}, YEnt{str("c"), k.probe(g, "entry", 0)})
			if t.k == 'f' {
				break
			}
			return ycall("maps.get", m, yname("b"))
		case 5: // for every item
			if c.Chance(0.5) {
				return ycall("progn", k.each(g), g.code(t, d))
			}
			if t.k != 'f' {
				body := ycall("progn", k.probe(g, "item", 0), yref("x"))
				f := ycall("lambda", yseq(yname("x")), body)
				l := consed(g.code(t, d), g.code(t, d))
				op := "lists.map"
				if c.Chance(0.4) {
					op = "lists.filter"
					body.L[2] = ys(boolean(true))
				}
				return ycall("lists.at", ycall(op, l, f), ys(integer(int64(c.Intn(2)))))
			}
		case 6:
			if t.k != 'f' {
				f := ycall("lambda", yseq(yname("acc"), yname("x")), ycall("progn", k.probe(g, "fold", 0), yref(pick(c, []string{"acc", "x"}))))
				return ycall("lists.reduce", consed(g.code(t, d), g.code(t, d), g.code(t, d)), f)
			}
		}
		y := g.code(t, d)
		if y.K == ySeq && y.Tag == "" && len(y.L) > 0 && y.L[0].K == yScalar && y.L[0].V.K == vStr && opModels[y.L[0].V.S] != nil && c.Chance(0.5) {
			y.L[0] = ycall("progn", k.probe(g, "function name", 0), y.L[0])
			return y
		}
		return ycall("progn", k.probe(g, "before", d), y)
	}
	return g
}

// consed is an expression for a list of items.
func consed(items ...*Y) *Y {
	y := yquote(list())
	for i := len(items) - 1; i >= 0; i-- {
		y = ycall("lists.cons", items[i], y)
	}
	return y
}

func code(y *Y) *Y {
	if (y.K == ySeq || y.K == yMap) && y.Tag == "" {
		y.Tag = "!yisp"
	}
	return y
}

// add puts a file where a program can name it.
func (k *c27case) add(id, kind string, docs []*Y, data []*Val, text string) *wfile {
	for _, d := range docs {
		d.walk(func(y *Y) { y.File = id })
	}
	if kind == "yisp" {
		text = emitDocs(progEmitter(k.C), docs)
		if malformed(text) {
			k.Skip()
		}
	}
	f := &wfile{id: id, kind: kind, text: text, docs: docs, data: data}
	k.w.files[id] = f
	if isURL(id) {
		k.s.tree[asURL(id).Path] = text
		return f
	}
	k.w.addDir(filepath.Dir(id))
	os.MkdirAll(filepath.Dir(id), 0755)
	write(id, text)
	return f
}

// parts makes files and the documents that use them, and says which of these
// have to come in this order.
func (k *c27case) parts(root string) (docs []*Y) {
	c := k.C
	g0 := newProgGen(c)
	for n := c.Intn(4); n > 0; n-- {
		name := fmt.Sprintf("f%d", len(k.w.files))
		dir, base := root, ""
		if c.Chance(0.4) {
			dir, base = filepath.Join(root, "sub"), "sub/"
		}
		id, p := filepath.Join(dir, name), base+name
		if c.Chance(0.25) {
			id = k.s.srv.URL + "/" + name
			p = id
		}
		g := k.gen()
		switch c.Intn(5) {
		case 0: // documents, included at times more than once
			ds := []*Y{code(g.code(g.dataType(1), 2)), code(k.probe(g, "document", 1))}
			if c.Chance(0.3) {
				ds = append(ds, g.program()...)
			}
			k.add(id+".yisp", "yisp", ds, nil, "")
			y := ycall("include", yname(p+".yisp"))
			if c.Chance(0.3) {
				y.L = append(y.L, yname(p+".yisp"))
			}
			docs = append(docs, code(y))
			if c.Chance(0.3) {
				docs = append(docs, code(ycall("include", yname(p+".yisp"))))
			}
		case 1: // a module: what it names is evaluated once, functions at each call
			f := code(ycall("lambda", yseq(yname("x")), ycall("progn", k.probe(g, "function", 1), yref("x"))))
			f.Anchor = "run"
			v := code(ycall("progn", k.probe(g, "named", 1), ydata(str("v"))))
			v.Anchor = "val"
			k.add(id+".yisp", "yisp", []*Y{v, f}, nil, "")
			im := ycall("import", yseq(yname("m"+name), yname(p+".yisp")))
			if c.Chance(0.3) {
				im.L = append(im.L, yseq(yname("n"+name), yname(p+".yisp")))
			}
			docs = append(docs, code(im))
			for m := c.Intn(4); m > 0; m-- {
				docs = append(docs, code(yseq(yref("m"+name+".run"), pick(c, []*Y{yname("a"), yref("m" + name + ".val"), k.probe(g0, "argument", 0)}))))
			}
		case 2: // data, fetched at times
			v := mapv("found", str(name))
			k.add(id+".yaml", "data", nil, []*Val{v}, "found: "+name+"\n")
			y := ycall("include", yname(p+".yaml"))
			for c.Chance(0.4) {
				y.L = append(y.L, yname(p+".yaml"))
			}
			docs = append(docs, code(y))
		case 3: // several by pattern
			dir := filepath.Join(root, "many"+name)
			for i := 1 + c.Intn(3); i > 0; i-- {
				k.add(filepath.Join(dir, pick(c, []string{"a", "b", "A", "0", "é", "b-c", "10", "2"})+".yisp"), "yisp", []*Y{code(k.probe(g, "one of several", 1))}, nil, "")
			}
			docs = append(docs, code(ycall("include", yname("many"+name+"/*.yisp"))))
		case 4: // by way of another file
			k.add(id+".yisp", "yisp", []*Y{code(k.probe(g, "inner", 0))}, nil, "")
			via := filepath.Join(root, "via"+name+".yisp")
			k.add(via, "yisp", []*Y{code(k.probe(g, "outer", 0)), code(ycall("include", yname(p+".yisp"))), code(k.probe(g, "outer", 0))}, nil, "")
			docs = append(docs, code(ycall("include", yname("via"+name+".yisp"))))
		}
	}
	return docs
}

func c27(c *C) {
	s := c.Data.(*c27state)
	script := filepath.Join(c.Dir, "probe")
	if _, err := os.Stat(script); err != nil {
		if err := os.WriteFile(script, []byte(probeScript), 0755); err != nil {
			panic(err)
		}
	}
	dir, err := filepath.EvalSymlinks(c.fresh())
	if err != nil {
		panic(err)
	}
	root := filepath.Join(dir, "w")
	x := &execs{tools: map[string]*tool{"echo": {name: "echo"}}, bin: filepath.Join(dir, "bin"), cwd: root, texts: map[string][]*Val{}, seen: map[string]bool{}, allowed: true}
	for _, d := range []string{root, x.bin, filepath.Join(dir, "home")} {
		os.MkdirAll(d, 0755)
	}
	if err := os.Symlink(script, filepath.Join(x.bin, "echo")); err != nil {
		panic(err)
	}
	logFile := filepath.Join(x.bin, "log")
	s.mu.Lock()
	s.tree, s.log = map[string]string{}, logFile
	s.mu.Unlock()
	k := &c27case{C: c, x: x, s: s, w: &world{c: c, root: root, files: map[string]*wfile{}, dirs: map[string]bool{}, seen: map[string]int{}}, forms: map[string]string{}}
	k.w.addDir(root)
	k.w.loaded = func(f *wfile) {
		if isURL(f.id) {
			x.log = append(x.log, started{"fetch", []string{asURL(f.id).Path}, ""})
		}
	}

	parts := k.parts(root)
	g := k.gen()
	docs := g.program()
	at := 0
	for _, d := range parts { // in this order, between the others
		at += c.Intn(len(docs) - at + 1)
		docs = append(docs[:at:at], append([]*Y{d}, docs[at:]...)...)
		at++
	}
	if c.Chance(0.15) {
		g.spoil(docs)
	}
	if c.Chance(0.1) { // ends early
		docs = append(docs, code(yseq(yname("lists.car"), ycall("progn", k.probe(g, "last", 0), yquote(list())))), code(k.probe(g, "too late", 0)))
	}
	main := k.add(filepath.Join(root, "main.yisp"), "yisp", docs, nil, "")

	run := pick(c, []string{"file", "file", "file", "reader", "any", "command", "json", "stdin"})
	arg, stdin := main.id, ""
	if run == "stdin" {
		stdin = main.text
		delete(k.w.files, main.id)
		main = &wfile{id: filepath.Join(root, "<stdin>"), kind: "yisp", text: main.text, docs: main.docs}
		k.w.files[main.id] = main
		for _, d := range main.docs {
			d.walk(func(y *Y) { y.File = main.id })
		}
		arg = "-"
	}

	in := newInterp()
	in.check = builtinCheck
	in.world = k.w
	in.execs = x
	o := in.runFile(main.id)

	show := run + "\n"
	for _, f := range k.w.files {
		show += fmt.Sprintf("== %s\n%s", f.id, f.text)
	}
	c.Input(show)
	if o.unspec != "" {
		c.Count("unspecified: "+firstWord(o.unspec), 1)
		c.Skip()
	}
	if len(x.log) == 0 && c.Chance(0.8) {
		c.Skip()
	}

	old, _ := os.Getwd()
	if err := os.Chdir(root); err != nil {
		panic(err)
	}
	defer os.Chdir(old)
	eo := opts{}
	var out string
	switch run {
	case "file", "reader", "any":
		eo.RenderSources = c.Chance(0.15)
		eo.DisableTypeCheck = c.Chance(0.15)
		eo.AllowUntypedManifest = c.Chance(0.15)
		e := engine.NewEngine(eo)
		e.SetOption("net.gammalab.yisp.exec.allow_cmd", true)
		path := os.Getenv("PATH")
		os.Setenv("PATH", x.bin)
		defer os.Setenv("PATH", path)
		out, err = guard(c, func() (string, error) {
			switch run {
			case "reader":
				return e.EvaluateReaderToYaml(strings.NewReader(main.text), main.id)
			case "any":
				_, err := e.EvaluateFileToAny(arg)
				return "", err
			}
			return e.EvaluateFileToYaml(arg)
		})
	default:
		args := []string{"build", "--allow-cmd"}
		if run == "json" {
			args = append(args, "-o", "json")
		}
		for _, f := range []string{"--show-trace", "--enable-sourcemap", "--disable-type-check"} {
			if c.Chance(0.1) {
				args = append(args, f)
			}
		}
		r := runCLI(c, append(args, "--", arg), stdin, filepath.Join(dir, "home"), root, "PATH="+x.bin)
		if r.timeout {
			c.Fail("hang", "the command does not end\n%s", r.stderr)
			return
		}
		out = r.stdout
		if r.code != 0 {
			err = fmt.Errorf("%s", r.stderr)
		}
	}

	s.mu.Lock()
	s.log = os.DevNull
	s.mu.Unlock()
	got := (&c19case{C: c, x: x}).readLog()
	want := x.log
	if fmt.Sprintf("%q", want) != fmt.Sprintf("%q", got) {
		i := 0
		for i < len(want) && i < len(got) && fmt.Sprintf("%q", want[i]) == fmt.Sprintf("%q", got[i]) {
			i++
		}
		c.Fail("order", "what happened is not what the program says, from the %d. on (outcome %v)\n--- want\n%s--- got\n%s", i+1, err, showStarted(want), showStarted(got))
		return
	}
	c.Count("probes reached", len(got))
	c.Count("probes written and not reached, or written for more than one place", max(0, k.n-len(got)))
	times := map[string]int{}
	for _, l := range got {
		form, id := "fetch", ""
		if len(l.args) > 0 {
			id = l.args[0]
		}
		if l.name != "fetch" {
			form = k.forms[id]
		}
		times[id]++
		c.Count("reached: "+form, 1)
		c.Seen(fmt.Sprintf("%s %s after %d", run, form, min(times[id], 4)))
	}
	outcome := "ok"
	if o.err != "" {
		outcome = firstWord(o.err)
	}
	c.Seen(fmt.Sprintf("%s probes %d files %d %s", run, min(len(got), 20), len(k.w.files), outcome))
	if run == "any" || run == "json" {
		if run == "any" && (err == nil) != (o.err == "") || run == "json" && o.err != "" && err == nil {
			c.Fail("outcome", "the outcome is %v, but it must be %q", err, o.err)
		}
		return
	}
	if eo.RenderSources {
		return
	}
	agreeOn(c, o, func() (string, error) { return out, err })
}
