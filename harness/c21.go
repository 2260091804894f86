package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	upstream "gopkg.in/yaml.v3"

	"github.com/totegamma/yisp/core"
	"github.com/totegamma/yisp/engine"
)

func init() {
	register(&Prop{
		ID: "C21", Quick: 6000, Thorough: 100000, Case: c21, Setup: c21setup, Timeout: 60 * time.Second,
		Rule: "runs of the built command compared with the library and the models; distinct cases by command, way of naming the source, kind of content, flags in effect, outcome",
		Assume: []string{
			"what the library itself gives for an option is the business of the other properties; here the command must give the same",
			"the contents of the configuration other than the allow list are not judged",
		},
	})
}

type c21state struct {
	mu   sync.Mutex
	text map[string]string
	srv  *httptest.Server
}

func c21setup(w *W) {
	s := &c21state{text: map[string]string{}}
	s.srv = httptest.NewServer(http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		s.mu.Lock()
		t, ok := s.text[r.URL.Path]
		s.mu.Unlock()
		if !ok {
			rw.WriteHeader(404)
			return
		}
		rw.Write([]byte(t))
	}))
	w.Data = s
}

func c21(c *C) {
	dir, err := filepath.EvalSymlinks(c.fresh())
	if err != nil {
		panic(err)
	}
	old, _ := os.Getwd()
	defer os.Chdir(old)
	switch c.Intn(8) {
	case 0, 1:
		c21allow(c, dir)
	case 2, 3:
		c21krm(c, dir)
	default:
		c21build(c, dir)
	}
}

// invocation is one run of the command.
type invocation struct {
	args  []string
	stdin string
	home  string
	wd    string
	out   string // where standard output goes, when not to the check
	env   []string
}

func (i *invocation) run(c *C) cliResult {
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(c.Bin, "yisp"), i.args...)
	cmd.Dir = i.wd
	cmd.Env = append([]string{"HOME=" + i.home, "PATH=" + filepath.Join(c.Dir, "nopath"), "TMPDIR=" + os.Getenv("TMPDIR")}, i.env...)
	cmd.Stdin = strings.NewReader(i.stdin)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	if i.out != "" {
		f, err := os.OpenFile(i.out, os.O_WRONLY, 0)
		if err != nil {
			panic(err)
		}
		defer f.Close()
		cmd.Stdout = f
	}
	cmd.WaitDelay = time.Second
	err := cmd.Run()
	if cmd.ProcessState == nil {
		panic(err)
	}
	r := cliResult{stdout: o.String(), stderr: e.String(), code: cmd.ProcessState.ExitCode(), timeout: ctx.Err() != nil}
	if r.timeout {
		c.Fail("hang", "the command does not end\n%s", clip(r.stderr))
		panic(skipCase{})
	}
	if strings.Contains(r.stderr, "goroutine 1 [") {
		c.Fail("panic", "the command panics\n%s", clip(r.stderr))
		panic(skipCase{})
	}
	return r
}

// refused checks a run that must fail.
func (r cliResult) refused(c *C, why string) bool {
	switch {
	case r.code == 0:
		c.Fail("exit-code", "the command must fail (%s) but exits with 0\n--- stdout\n%s--- stderr\n%s", why, clip(r.stdout), clip(r.stderr))
	case r.stdout != "":
		c.Fail("output-on-failure", "the command fails but prints output\n%s--- stderr\n%s", clip(r.stdout), clip(r.stderr))
	case strings.TrimSpace(r.stderr) == "":
		c.Fail("no-reason", "the command exits with %d without a reason (%s)", r.code, why)
	default:
		return true
	}
	return false
}

// quietly runs the library as the command would be run.
func quietly(stdin string, dir string, f func()) {
	in := filepath.Join(dir, "input")
	write(in, stdin)
	r, err := os.Open(in)
	if err != nil {
		panic(err)
	}
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	oldIn, oldErr := os.Stdin, os.Stderr
	path := os.Getenv("PATH")
	os.Setenv("PATH", "/nonexistent")
	os.Stdin, os.Stderr = r, null
	defer func() {
		os.Stdin, os.Stderr = oldIn, oldErr
		os.Setenv("PATH", path)
		r.Close()
		null.Close()
	}()
	f()
}

// content makes something to build.
func c21content(c *C, cache string) (kind, ext, text string) {
	ext = ".yisp"
	prog := func() *progGen {
		g := newProgGen(c)
		g.data = genOpt{depth: 2, width: 3, plain: c.Chance(0.7)}
		return g
	}
	emit := func(docs []*Y) string { return emitDocs(progEmitter(c), docs) }
	fn := func() *Y {
		return pick(c, []func() *Y{
			func() *Y { return ycall("lambda", yseq(yname("x")), yref("x")) },
			func() *Y { return ycall("schema", yquote(mapv("type", str("integer")))) },
			func() *Y {
				return ycall("schema", yquote(mapv("type", str("object"), "properties", mapv("a", mapv("type", str("string"))))))
			},
		})().tag("!yisp")
	}
	manifest := func(api, k string) *Y {
		return ydata(mapv("apiVersion", str(api), "kind", str(k), "metadata", mapv("name", str("x")), "spec", mapv("size", integer(int64(c.Intn(9))))))
	}
	switch kind = pick(c, []string{"program", "program", "spoilt", "functions", "functions", "manifest", "manifest", "ill-typed", "wild", "wild", "data", "data", "one", "one", "one", "nothing", "text"}); kind {
	case "program":
		ds := prog().program()
		if recurs(ds) { // perhaps without an end
			c.Skip()
		}
		text = emit(ds)
	case "spoilt":
		g := prog()
		ds := g.program()
		g.spoil(ds)
		if recurs(ds) { // perhaps without an end
			c.Skip()
		}
		text = emit(ds)
	case "functions":
		var ds []*Y
		for n := 1 + c.Intn(3); n > 0; n-- {
			switch c.Intn(3) {
			case 0:
				ds = append(ds, fn())
			case 1:
				ds = append(ds, ymap("a", fn(), "b", yname("v")))
			default:
				ds = append(ds, yseq(yname("v"), fn()))
			}
		}
		if c.Chance(0.4) {
			ds = append(ds, ydata(genVal(c, genOpt{depth: 2, plain: true})))
		}
		text = emit(ds)
	case "manifest":
		os.MkdirAll(filepath.Join(cache, "gvk"), 0755)
		os.MkdirAll(filepath.Join(cache, "schemas"), 0755)
		if c.Chance(0.7) {
			write(filepath.Join(cache, "schemas", "x.Known.json"), `{"type":"object","properties":{"apiVersion":{"type":"string"},"kind":{"type":"string"},"metadata":{"type":"object"},"spec":{"type":"object","properties":{"size":{"type":"integer"},"more":{"type":"string","default":"filled"}}}}}`)
			write(filepath.Join(cache, "gvk", "x_v1_Known.txt"), "x.Known")
		}
		var ds []*Y
		for n := 1 + c.Intn(3); n > 0; n-- {
			y := manifest("x/v1", "Known")
			if c.Chance(0.3) {
				y = manifest("x/v1", "Unknown")
			}
			if c.Chance(0.2) {
				y.M[3].V = ydata(mapv("size", str("big")))
			}
			ds = append(ds, y)
		}
		text = emit(ds)
	case "ill-typed":
		t := ycall("schema", yquote(mapv("type", str("object"), "properties", mapv("a", mapv("type", str("integer")), "b", mapv("type", str("string")))))).tag("!yisp")
		t.Anchor = "t"
		v := pick(c, []*Val{str("x"), integer(2), boolean(true)})
		ds := []*Y{t, ycall("maps.patch", ymap("a", ys(integer(1))).tag("!t"), yquote(list(mapv("op", str("replace"), "path", str("/a"), "value", v)))).tag("!yisp")}
		text = emit(ds)
	case "wild":
		text = newWildGen(c).text()
		if c.Chance(0.3) {
			ext = pick(c, []string{".yaml", ".json"})
		}
	case "data":
		v := sortedKeys(cleanKeys(genVal(c, genOpt{depth: 2, plain: true})))
		if c.Chance(0.4) {
			ext = ".json"
			text = flow(v)
		} else {
			ext = pick(c, []string{".yaml", ".yml"})
			text = tameDocs(c, []*Val{v})
			if c.Chance(0.2) {
				text = tameDocs(c, []*Val{v, genVal(c, genOpt{depth: 1, plain: true})})
			}
		}
		if c.Chance(0.1) {
			text += "\n]["
		}
	case "one":
		text = emit([]*Y{ydata(genVal(c, genOpt{depth: 3, width: 4, plain: c.Chance(0.6), nan: c.Chance(0.1), nonstr: c.Chance(0.1)}))})
	case "nothing":
		text = pick(c, []string{"", "null\n", "---\n---\n", "# only a comment\n", "~\n---\n~\n", "a: 1\n---\nb: 2\n"})
	case "text":
		ext = pick(c, []string{".txt", "", ".md"})
		text = pick(c, []string{"some text\n", "a: [\n", "", "!yisp [+, 1, 2]"})
	}
	return kind, ext, text
}

func c21build(c *C, dir string) {
	st := c.Data.(*c21state)
	home := filepath.Join(dir, "home")
	wd := filepath.Join(dir, pick(c, []string{"w", "w/in", "elsewhere"}))
	for _, d := range []string{home, wd, filepath.Join(dir, "w")} {
		os.MkdirAll(d, 0755)
	}
	cache := filepath.Join(dir, "cache")
	inv := invocation{home: home, wd: wd}
	var opt []string // options, which may stand anywhere
	var early []string
	switch c.Intn(3) {
	case 0:
		early = []string{"--cache-dir", cache}
	case 1:
		early = []string{"--cache-dir=" + cache}
	default:
		cache = filepath.Join(home, ".cache", "yisp")
	}
	kind, ext, text := c21content(c, cache)
	if !utf8.ValidString(text) && c.Chance(0.5) {
		c.Skip()
	}

	// where the source is, and how it is named
	at := filepath.Join(dir, "w", pick(c, []string{"main", "a b", "é", "-x", "x[1]", "100%", "index"})+ext)
	arg := at
	way := pick(c, []string{"absolute", "absolute", "relative", "relative", "directory", "stdin", "url", "missing", "unclean", "long way"})
	if ext != ".yisp" && (way == "directory" || way == "stdin") {
		way = "absolute"
	}
	if ext != ".yisp" && ext != ".yaml" && ext != ".json" && way == "url" {
		way = "absolute"
	}
	if way != "stdin" && way != "url" && way != "missing" && way != "directory" {
		write(at, text)
	}
	libArg := at
	switch way {
	case "relative":
		arg, _ = filepath.Rel(wd, at)
	case "unclean":
		r, _ := filepath.Rel(wd, at)
		arg = "./" + r
	case "long way":
		arg = filepath.Dir(at) + "/../w//" + filepath.Base(at)
	case "directory":
		at = filepath.Join(dir, "w", "d.x", "index.yisp")
		os.MkdirAll(filepath.Dir(at), 0755)
		if c.Chance(0.9) {
			write(at, text)
		}
		libArg = filepath.Dir(at)
		arg = libArg + pick(c, []string{"", "/"})
		if c.Chance(0.4) {
			arg, _ = filepath.Rel(wd, libArg)
		} else if c.Chance(0.3) {
			inv.wd, arg = libArg, "."
		}
	case "stdin":
		arg, libArg = "-", "-"
		inv.stdin = text
	case "url":
		p := fmt.Sprintf("/%d/%s%s", c.Idx, pick(c, []string{"main", "a b", "é"}), ext)
		st.mu.Lock()
		clear(st.text)
		if c.Chance(0.95) {
			st.text[p] = text
		}
		st.mu.Unlock()
		libArg = st.srv.URL + strings.ReplaceAll(strings.ReplaceAll(p, " ", "%20"), "é", "%C3%A9")
		arg = libArg
	case "missing":
		libArg = pick(c, []string{at, dir + "/nowhere/x.yisp", wd})
		if libArg == wd { // a directory without index.yisp
			libArg = home
		}
		arg = libArg
	}

	// options
	var eo opts
	var on []string
	spellBool := func(name string) bool {
		switch c.Intn(6) {
		case 0:
			opt = append(opt, "--"+name+"=true")
		case 1:
			opt = append(opt, "--"+name+"=false")
			return false
		case 2:
			opt = append(opt, "--"+name+"=1")
		case 3:
			if c.Chance(0.3) {
				opt = append(opt, "--"+name+" --"+name+"=false") // the last one counts
				return false
			}
			fallthrough
		default:
			opt = append(opt, "--"+name)
		}
		on = append(on, name)
		return true
	}
	often := func(k string) float64 {
		if kind == k {
			return 0.5
		}
		return 0.12
	}
	if c.Chance(often("functions")) {
		eo.RenderSpecialObjects = spellBool("render-special-objects")
	}
	if c.Chance(0.2) {
		eo.RenderSources = spellBool("enable-sourcemap")
	}
	if c.Chance(often("manifest")) {
		eo.AllowUntypedManifest = spellBool("allow-untyped-manifest")
	}
	if c.Chance(often("ill-typed")) {
		eo.DisableTypeCheck = spellBool("disable-type-check")
	}
	trace := c.Chance(0.1) && spellBool("show-trace")
	format := "yaml"
	if c.Chance(often("one")) || c.Chance(0.15) {
		format = pick(c, []string{"json", "json", "json", "json", "yaml"})
		opt = append(opt, pick(c, []string{"-o " + format, "-o" + format, "-o=" + format, "--output " + format, "--output=" + format}))
	}
	if c.Chance(0.1) {
		cfg := filepath.Join(dir, "cfg.yaml")
		if c.Chance(0.5) {
			write(cfg, "allowedgopkgs: [x]\n")
		}
		early = append(early, pick(c, []string{"--config " + cfg, "-c " + cfg, "--config=" + cfg})) // paths have no spaces here
	}
	why := ""
	args := []string{arg}
	if c.Chance(0.08) {
		switch c.Intn(6) {
		case 0:
			args, why = nil, "no file is given"
		case 1:
			args, why = append(args, at), "two files are given"
		case 2:
			opt, why = append(opt, "--no-such-flag"), "an unknown flag is given"
		case 3:
			format = "unknown"
			opt, why = append(slices.DeleteFunc(opt, func(s string) bool { return strings.HasPrefix(s, "-o") || strings.HasPrefix(s, "--output") }), "-o "+pick(c, []string{"xml", "YAML", "yml", "Json", "jsonx"})), "an unknown format is given"
		case 4:
			opt, why = append(opt, "--"+pick(c, []string{"allow-cmd", "show-trace", "enable-sourcemap"})+"=maybe"), "a flag has no sense"
		case 5:
			args, why = []string{""}, "the name is empty"
		}
	}
	c.R.Shuffle(len(opt), func(i, j int) { opt[i], opt[j] = opt[j], opt[i] })
	words := func(l []string) (r []string) {
		for _, s := range l {
			if strings.HasPrefix(s, "-") && strings.Contains(s, " ") && !strings.HasPrefix(s, "--cache-dir") {
				r = append(r, strings.SplitN(s, " ", 2)...)
			} else {
				r = append(r, s)
			}
		}
		return r
	}
	early, opt = words(early), words(opt)
	if c.Chance(0.5) {
		inv.args = append(append([]string{}, early...), "build")
	} else {
		inv.args = append([]string{"build"}, early...)
	}
	if strings.HasPrefix(arg, "-") && arg != "-" {
		inv.args = append(append(append(inv.args, opt...), "--"), args...)
	} else {
		switch c.Intn(3) {
		case 0:
			inv.args = append(append(inv.args, args...), opt...)
		case 1:
			inv.args = append(append(inv.args, opt...), args...)
		case 2:
			inv.args = append(append(append(inv.args, opt...), "--"), args...)
		}
	}
	noHome := len(early) > 0 && c.Chance(0.1) && cache == filepath.Join(dir, "cache")
	if noHome {
		inv.env = []string{"HOME="}
	}
	c.Input(fmt.Sprintf("yisp %q in %s, home %s %v, %s\n%s\n", inv.args, inv.wd, home, inv.env, kind, text))

	// the library's result
	core.CacheDir = cache
	defer func() { core.CacheDir = "" }()
	if err := os.Chdir(inv.wd); err != nil {
		panic(err)
	}
	var out string
	var value any
	var err error
	quietly(inv.stdin, dir, func() {
		e := engine.NewEngine(eo)
		e.SetOption("net.gammalab.yisp.exec.allow_cmd", false)
		e.SetOption("net.gammalab.yisp.exec.allowed_go_pkgs", []string{})
		out, err = guard(c, func() (string, error) {
			if format == "json" {
				var err error
				value, err = e.EvaluateFileToAny(libArg)
				return "", err
			}
			return e.EvaluateFileToYaml(libArg)
		})
	})
	switch {
	case why != "":
	case err != nil:
		why = "the library says " + errText(err)
	case format == "json":
		l, ok := value.([]any)
		if !ok {
			c.Fail("no-documents", "the library gives no list of documents but %T", value)
			return
		}
		if len(l) != 1 {
			why = "JSON needs exactly one document"
			break
		}
		value = l[0]
		b, jerr := json.Marshal(value)
		if jerr != nil {
			why = "JSON has no such value"
		}
		out = string(b)
	}

	if c.Chance(0.04) && why == "" && out != "" {
		inv.out = "/dev/full"
		r := inv.run(c)
		if r.refused(c, "the result cannot be written") {
			c.Seen("full " + format)
		}
		return
	}
	r := inv.run(c)
	sort.Strings(on)
	key := fmt.Sprintf("build %s %s %s %v", way, kind, format, on)
	if why != "" {
		if trace {
			r.stderr = withoutTrace(r.stderr)
		}
		if !r.refused(c, why) {
			return
		}
		if err != nil && strings.HasPrefix(why, "the library") {
			// the reason is the library's
			first := strings.SplitN(err.Error(), "\n", 2)[0]
			if !strings.Contains(address.ReplaceAllString(r.stderr, "0x"), address.ReplaceAllString(first, "0x")) {
				c.Fail("other-reason", "the command fails for another reason\n--- library\n%s\n--- command\n%s", errText(err), clip(r.stderr))
				return
			}
		}
		c.Seen(key + " fails: " + firstWord(why))
		c.Count("failures reported", 1)
		return
	}
	if r.code != 0 {
		c.Fail("exit-code", "the command exits with %d where the library has a result\n--- stderr\n%s--- library\n%s", r.code, clip(r.stderr), clip(out))
		return
	}
	if format == "json" {
		var a, b any
		if err := strictJSON(r.stdout, &a); err != nil {
			c.Fail("json", "the output is not one JSON value: %v\n%s", err, clip(r.stdout))
			return
		}
		if err := strictJSON(out, &b); err != nil {
			panic(err)
		}
		if !reflect.DeepEqual(a, b) {
			c.Fail("json", "the JSON is not the library's value\n--- want\n%s\n--- got\n%s", clip(out), clip(r.stdout))
			return
		}
	} else if r.stdout != out {
		c.Fail("output", "the output is not the library's: %s", diffText(out, r.stdout))
		return
	}
	if trace && (kind == "program" || kind == "functions" || kind == "ill-typed" || kind == "one") && !strings.Contains(r.stderr, "EVAL") {
		c.Fail("trace", "no trace is shown\n%s", clip(r.stderr))
		return
	}
	if trace {
		r.stderr = withoutTrace(r.stderr)
	}
	if strings.TrimSpace(r.stderr) != "" && !strings.Contains(text, "exec.") && !trace {
		c.Fail("noise", "the command succeeds but says\n%s", clip(r.stderr))
		return
	}
	c.Count("results equal to the library's", 1)
	c.Seen(fmt.Sprintf("%s ok %d", key, min(len(out), 1)))
}

var address = regexp.MustCompile(`0x[0-9a-f]+`)

func withoutTrace(s string) string {
	var r []string
	for _, l := range strings.SplitAfter(s, "\n") {
		if !strings.HasPrefix(strings.TrimSpace(l), "EVAL:") {
			r = append(r, l)
		}
	}
	return strings.Join(r, "")
}

func strictJSON(s string, v *any) error {
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	if err := d.Decode(v); err != nil {
		return err
	}
	if d.More() {
		return fmt.Errorf("there is more after the value")
	}
	return nil
}

var listedNames = append([]string{"a b", "x: y", "# no comment", "- x", "true", "null", "~", "1e3", "0x10", "2001-01-01", "'", "\"q\"", "é", "日本", "*", "&a", "!t", "{a}", "[b]", "%", "@v1", "a\nb", " lead", "trail ", "\ttab", "<<", "=", "|", ">", "\u0085", "\u2028", "1", "", "a,b", "k=v", "\\", "-x", "--help", strings.Repeat("long/", 60), "allowedgopkgs"}, packageNames...)

// configured reads the allow list of a configuration.
func configured(path string) ([]string, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var m map[string]any
	if err := upstream.Unmarshal(b, &m); err != nil {
		return nil, err
	}
	var r []string
	for k, v := range m {
		if !strings.EqualFold(k, "allowedgopkgs") || v == nil {
			continue
		}
		l, ok := v.([]any)
		if !ok {
			return nil, fmt.Errorf("the allow list is a %T", v)
		}
		for _, x := range l {
			s, ok := x.(string)
			if !ok {
				return nil, fmt.Errorf("the allow list holds a %T", x)
			}
			r = append(r, s)
		}
	}
	return r, nil
}

// c21allow makes sequences of commands around the allow list.
func c21allow(c *C, dir string) {
	home := filepath.Join(dir, "home")
	wd := filepath.Join(dir, "w")
	bin := filepath.Join(dir, "bin")
	for _, d := range []string{home, wd, bin} {
		os.MkdirAll(d, 0755)
	}
	write(filepath.Join(bin, "go"), "#!/bin/sh\necho \"started: '$2'\" | /bin/tr '\\n' ' '\n")
	os.Chmod(filepath.Join(bin, "go"), 0755)
	config := filepath.Join(home, ".config", "yisp", "config.yaml")
	var flag []string
	if c.Chance(0.4) {
		config = filepath.Join(dir, pick(c, []string{"c.yaml", "my config.yml", "é.yaml"}))
		flag = pick(c, [][]string{{"--config", config}, {"-c", config}, {"--config=" + config}})
	}
	var listed []string
	state := pick(c, []string{"none", "none", "list", "list", "list", "empty", "other", "broken", "broken", "directory", "null"})
	show := "configuration: " + state + "\n"
	before := ""
	if state != "none" {
		os.MkdirAll(filepath.Dir(config), 0755)
		switch state {
		case "list", "other":
			var l []*Val
			for n := c.Intn(4); n > 0; n-- {
				s := pick(c, listedNames)
				listed = append(listed, s)
				l = append(l, str(s))
			}
			m := mapv(pick(c, []string{"allowedgopkgs", "AllowedGoPkgs", "allowedGoPkgs", "ALLOWEDGOPKGS"}), list(l...))
			if state == "other" {
				m.set("other", genVal(c, genOpt{depth: 1, plain: true}))
			}
			e := newEmitter(c.R)
			e.comments = c.Chance(0.3)
			before = emitDocs(e, []*Y{ydata(m)})
			if got, err := libraryDocs(before); err != nil || !sameDocs(got, []*Val{m}) {
				c.Skip()
			}
		case "broken":
			before = "allowedgopkgs:\n  - kept/one\n" + pick(c, []string{"  - [", " - bad", "\t- x\n", "a: b: c\n", "]", "\x00", "- x\n", "allowedgopkgs: []\n"})
		case "null":
			before = "allowedgopkgs:\n"
		case "empty":
			before = pick(c, []string{"", "# nothing yet\n", "---\n", "{}\n"})
		}
		if state == "directory" {
			os.MkdirAll(config, 0755)
		} else {
			write(config, before)
		}
		show += before
	}
	bad := state == "broken" || state == "directory"
	var key []string
	for n := 1 + c.Intn(5); n > 0; n-- {
		inv := invocation{home: home, wd: wd}
		what := pick(c, []string{"allow", "allow", "allow", "allow", "build", "run", "run", "run", "krm", "version", "wrong"})
		was, _ := os.ReadFile(config)
		pkg := pick(c, listedNames)
		if len(listed) > 0 && c.Chance(0.5) {
			pkg = pick(c, listed)
			if c.Chance(0.5) {
				pkg = strings.ReplaceAll(pkg, "*", pick(c, []string{"", "x", "a/b", "\t"}))
			}
		}
		rest := []string{}
		switch what {
		case "allow":
			rest = []string{"allow", "--", pkg}
			if !strings.HasPrefix(pkg, "-") && c.Chance(0.5) {
				rest = []string{"allow", pkg}
			}
		case "build":
			write(filepath.Join(wd, "b.yisp"), "a: 1\n")
			rest = []string{"build", "b.yisp"}
		case "run":
			if strings.HasPrefix(pkg, "-") || strings.HasSuffix(pkg, ".go") {
				continue
			}
			write(filepath.Join(wd, "r.yisp"), "!yisp [exec.go, !quote {pkg: "+strconv.QuoteToASCII(pkg)+", asString: true}]\n")
			rest = []string{"build", "r.yisp"}
			inv.env = []string{"PATH=" + bin}
		case "krm":
			rest = []string{"krm"}
			inv.stdin = "functionConfig: {spec: {yisp: 'a: 1'}}\nitems: []\n"
		case "version":
			rest = []string{"version"}
		case "wrong":
			rest = pick(c, [][]string{{"allow"}, {"allow", "a", "b"}, {"allow", "--no-such", "x"}})
		}
		inv.args = append(append([]string{}, flag...), rest...)
		if c.Chance(0.3) {
			inv.args = append(append([]string{rest[0]}, flag...), rest[1:]...)
		}
		show += fmt.Sprintf("yisp %q\n", inv.args)
		c.Input(show)
		r := inv.run(c)
		now, _ := os.ReadFile(config)
		fine := true
		if bad && (what == "allow" || what == "wrong") || what == "wrong" {
			if !r.refused(c, "the configuration cannot be read, or the arguments are wrong") {
				return
			}
			fine = false
		}
		switch what {
		case "allow":
			if !fine {
				break
			}
			if r.code != 0 {
				c.Fail("allow", "allow fails\n%s", clip(r.stderr))
				return
			}
			if state == "none" || state == "empty" || state == "null" {
				state = "list"
			}
			listed = append(listed, pkg)
		case "build", "krm":
			if r.code != 0 || r.stdout != "a: 1\n" {
				c.Fail("build", "building with this configuration gives %d %q\n%s", r.code, r.stdout, clip(r.stderr))
				return
			}
			if what == "build" && bad != (strings.TrimSpace(r.stderr) != "") {
				c.Fail("warning", "the configuration is %s but standard error says %q", state, clip(r.stderr))
				return
			}
		case "run":
			ok := false
			for _, e := range listed {
				ok = ok || granted(e, pkg)
			}
			if ok != (r.code == 0) {
				c.Fail("honoured", "the list is %q, so running %q must give %v, but it exits with %d\n%s%s", listed, pkg, ok, r.code, clip(r.stdout), clip(r.stderr))
				return
			}
			if ok && !strings.Contains(r.stdout, "started: ") {
				c.Fail("honoured", "running %q gives %q", pkg, clip(r.stdout))
				return
			}
			what += fmt.Sprint(ok)
		case "version":
			if r.code != 0 {
				c.Fail("version", "version fails\n%s", clip(r.stderr))
				return
			}
		}
		if bad || what != "allow" && len(was) > 0 {
			if !bytes.Equal(was, now) {
				c.Fail("configuration-changed", "%s changes the configuration\n--- before\n%s--- after\n%s", what, was, now)
				return
			}
		} else if !bad {
			got, err := configured(config)
			if err != nil && !(os.IsNotExist(err) && what != "allow") {
				c.Fail("configuration", "after %s the configuration cannot be read: %v\n%s", what, err, now)
				return
			}
			if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", listed) {
				c.Fail("list", "after %s the allow list is\n%q, but it must be\n%q\n--- configuration\n%s", what, got, listed, now)
				return
			}
		}
		key = append(key, what)
		c.Count("commands around the allow list", 1)
	}
	c.Seen("allow " + state + fmt.Sprint(len(flag) > 0, len(listed), key))
}

// c21krm evaluates KRM inputs.
func c21krm(c *C, dir string) {
	root := filepath.Join(dir, "w")
	home := filepath.Join(dir, "home")
	os.MkdirAll(root, 0755)
	os.MkdirAll(home, 0755)
	inv := invocation{home: home, wd: root, args: []string{"krm"}}

	// items
	var all []*Y
	var bound []*Val
	for n := c.Intn(5); n > 0; n-- {
		v := cleanKeys(genVal(c, genOpt{depth: 2, width: 3, plain: true}))
		y := ydata(v)
		switch c.Intn(5) {
		case 0, 1:
			v = mapv("apiVersion", str(pick(c, []string{"v1", "apps/v1", "krm.yisp.gammalab.net/v2", "krm.yisp.gammalab.net", "x.krm.yisp.gammalab.net/v1", "Krm.yisp.gammalab.net/v1"})), "kind", str("ConfigMap"), "data", v)
			y = ydata(v)
		case 2:
			v = mapv("kind", str("Yisp"), "apiVersion", str("krm.yisp.gammalab.net/v1"), "spec", v)
			all = append(all, ydata(v))
			continue
		}
		if v.K == vNull {
			continue
		}
		if c.Chance(0.3) {
			v, y = spice(c, v, y)
		}
		all = append(all, y)
		bound = append(bound, sortedKeys(v))
	}
	items := list(bound...)
	items.Doc = true

	// the program
	g := newProgGen(c)
	g.data = genOpt{depth: 2, width: 3, plain: true}
	used := 0
	g.special = func(t *ty, d int) *Y {
		if t.k != 'a' && t.k != 'l' || !c.Chance(0.3) {
			return nil
		}
		if t.k == 'l' && t.elem.k != 'a' {
			return nil
		}
		used++
		return yref("items")
	}
	docs := g.program()
	for n := c.Intn(3); n > 0; n-- {
		used++
		var y *Y
		switch c.Intn(6) {
		case 0:
			y = yref("items")
		case 1:
			y = ycall("lists.map", yref("items"), ycall("lambda", yseq(yname("i")), yseq(yref("i")).tag("!quote"))).tag("!yisp")
		case 2:
			y = ycall("lists.filter", yref("items"), ycall("lambda", yseq(yname("i")), ys(boolean(c.Chance(0.5))))).tag("!yisp")
		case 3:
			y = ymap("all", yref("items"))
		case 4:
			if len(bound) == 0 {
				continue
			}
			y = ycall("lists.at", yref("items"), ys(integer(int64(c.Intn(len(bound)))))).tag("!yisp")
		case 5:
			y = yref("items?")
		}
		i := c.Intn(len(docs) + 1)
		docs = append(docs[:i:i], append([]*Y{y}, docs[i:]...)...)
	}
	if c.Chance(0.1) {
		g.spoil(docs)
	}
	untyped := c.Chance(0.4)
	text := emitDocs(progEmitter(c), docs)
	if malformed(text) {
		c.Skip()
	}

	// the input
	spec := ymap()
	way := pick(c, []string{"script", "script", "target", "target", "default", "directory", "remote", "remote directory"})
	id := filepath.Join(root, "stdin.krm.yaml")
	switch way {
	case "script":
		spec.M = append(spec.M, YEnt{str("yisp"), yname(text)})
		if c.Chance(0.3) { // the script counts
			spec.M = append(spec.M, YEnt{str("target"), yname("no.yisp")})
		}
		if text == "" {
			c.Skip()
		}
	case "target":
		id = filepath.Join(root, "sub", pick(c, []string{"t.yisp", "a b.yisp", "é.yisp"}))
		p, _ := filepath.Rel(root, id)
		spec.M = append(spec.M, YEnt{str("target"), yname(pick(c, []string{p, "./" + p, id}))})
	case "directory":
		id = filepath.Join(root, "sub", "index.yisp")
		spec.M = append(spec.M, YEnt{str("target"), yname(pick(c, []string{"sub", "./sub/", filepath.Join(root, "sub")}))})
	case "remote":
		id = c.W.Data.(*c21state).srv.URL + "/" + pick(c, []string{"t.yisp", "sub/t.yisp"})
		spec.M = append(spec.M, YEnt{str("target"), yname(id)})
	case "remote directory": // a directory that happens to be called like a remote one
		id = filepath.Join(root, "http:", "x", "index.yisp")
		spec.M = append(spec.M, YEnt{str("target"), yname("./http://x")})
	case "default":
		id = filepath.Join(root, "index.yisp")
		if c.Chance(0.3) {
			spec.M = append(spec.M, YEnt{str("target"), yname(pick(c, []string{"", "."}))})
		}
	}
	w := &world{c: c, root: root, files: map[string]*wfile{}, dirs: map[string]bool{}, seen: map[string]int{}}
	w.addDir(root)
	for _, d := range docs {
		d.walk(func(y *Y) { y.File = id })
	}
	w.files[id] = &wfile{id: id, kind: "yisp", text: text, docs: docs}
	if way == "remote" {
		st := c.W.Data.(*c21state)
		st.mu.Lock()
		st.text = map[string]string{strings.TrimPrefix(id, st.srv.URL): text}
		st.mu.Unlock()
	} else if way != "script" {
		os.MkdirAll(filepath.Dir(id), 0755)
		write(id, text)
	}
	if untyped || c.Chance(0.2) {
		spec.M = append(spec.M, YEnt{str("allowUntypedManifest"), ys(boolean(untyped))})
	}
	c.R.Shuffle(len(spec.M), func(i, j int) { spec.M[i], spec.M[j] = spec.M[j], spec.M[i] })
	config := ymap("apiVersion", yname("krm.yisp.gammalab.net/v1"), "kind", yname("Yisp"), "metadata", ymap("name", yname("x"), "annotations", ymap("a", yname("b"))), "spec", spec)
	if len(spec.M) == 0 && c.Chance(0.5) {
		config.M = config.M[:3]
	}
	rl := ymap("apiVersion", yname("config.kubernetes.io/v1"), "kind", yname("ResourceList"), "functionConfig", config, "items", yseq(all...))
	if len(all) == 0 && c.Chance(0.5) {
		rl.M = rl.M[:3]
	}
	c.R.Shuffle(len(rl.M), func(i, j int) { rl.M[i], rl.M[j] = rl.M[j], rl.M[i] })
	e := newEmitter(c.R)
	e.comments = c.Chance(0.2)
	e.tame = c.Chance(0.3)
	inv.stdin = emitDocs(e, []*Y{rl})
	if _, err := readNodes(inv.stdin); err != nil {
		c.Skip()
	}
	malformed := c.Chance(0.04)
	if !malformed && c.Chance(0.03) { // an item that cannot be read
		item := ymap("kind", yname("Pod"), "a", ymap("b", ys(integer(1)), "b", ys(integer(2))))
		if i := slices.IndexFunc(rl.M, func(e YEnt) bool { return e.K.S == "items" }); i >= 0 {
			l := rl.M[i].V.L
			at := c.Intn(len(l) + 1)
			rl.M[i].V.L = slices.Insert(slices.Clone(l), at, item)
			e := newEmitter(c.R)
			e.tame = true
			inv.stdin = emitDocs(e, []*Y{rl})
			c.Input(inv.stdin)
			r := inv.run(c)
			if r.refused(c, "an item cannot be read") {
				c.Seen(fmt.Sprintf("krm unreadable item %d of %d", at, len(l)))
			}
			return
		}
	}
	if malformed {
		inv.stdin += pick(c, []string{"\n]\n", "\n\tx: y\n", "\nitems: {a: [}\n", "\n\x01"})
		var v any
		if upstream.Unmarshal([]byte(inv.stdin), &v) == nil {
			c.Skip()
		}
	}
	c.Input(fmt.Sprintf("%s in %s\n%s\n== %s\n%s", way, root, inv.stdin, id, text))

	if malformed {
		r := inv.run(c)
		if r.refused(c, "the input is malformed") {
			c.Seen("krm malformed")
		}
		return
	}

	in := newInterp()
	in.check = builtinCheck
	in.world = w
	f := newFrame()
	f.vars["items"] = items
	w.stack = []string{id}
	o := in.runDocs(docs, f)
	if o.unspec != "" && recurs(docs) {
		c.Skip()
	}
	agreed := agreeOn(c, o, func() (string, error) {
		r := inv.run(c)
		if r.code != 0 {
			r.refused(c, "it exits with "+fmt.Sprint(r.code))
			return "", fmt.Errorf("%s", r.stderr)
		}
		if strings.TrimSpace(r.stderr) != "" {
			c.Fail("noise", "the command succeeds but says\n%s", clip(r.stderr))
		}
		return r.stdout, nil
	})
	if agreed {
		outcome := "ok"
		if o.err != "" {
			outcome = firstWord(o.err)
		}
		c.Seen(fmt.Sprintf("krm %s items %d of %d used %d %s", way, len(bound), len(all), min(used, 5), outcome))
	}
}

// spice adds entries that YAML has a type for and yisp has not: times, and keys
// that are no text. They become the text they are written as.
func spice(c *C, v *Val, y *Y) (*Val, *Y) {
	if v.K != vMap || y.K != yMap {
		return v, y
	}
	v = v.clone()
	for n := 1 + c.Intn(2); n > 0; n-- {
		var k, val *Val
		ky := str(fmt.Sprintf("time%d", n))
		k, val = ky, str("x")
		vy := yname("x")
		if c.Chance(0.6) {
			t := pick(c, []string{"2001-01-01", "2001-12-14t21:59:43.10-05:00", "2001-12-14 21:59:43.10 -5", "2020-02-30", "2024-03-01T10:00:00Z", "1-1-1", "2001-1-1"})
			val = str(t)
			vy = yname(t)
			vy.Raw = t
		}
		if c.Chance(0.6) {
			ky = pick(c, []*Val{integer(int64(c.Intn(100)) - 50), boolean(true), boolean(false), null(), float(1.5), float(-0.25)})
			k = str(keyText(ky))
		}
		if v.get(k.S) != nil {
			continue
		}
		v.set(k.S, val)
		y.M = append(y.M, YEnt{ky, vy})
	}
	return v, y
}
