package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/totegamma/yisp/engine"
)

func init() {
	register(&Prop{
		ID: "C19", Quick: 12000, Thorough: 400000, Case: c19, Timeout: 60 * time.Second,
		Rule: "programs with commands in every place, run with an option, flag, prompt or allow list; distinct cases by way of running, permission, where a command was started or would have been, number of commands started and outcome",
		Assume: []string{
			"commands are stand-ins in a directory of the case, which log how they were called; the search path holds nothing else",
			"go run itself is replaced by a stand-in, so its own reading of its arguments is not judged",
		},
	})
}

// A stand-in for all commands: it logs its arguments and input and does what
// the files beside it say.
const standIn = `#!/bin/sh
d=${0%/*}; n=${0##*/}
s=$(/bin/cat; echo x); s=${s%x}
{ printf '%s\0' "$n" $#; for a do printf '%s\0' "$a"; done; printf '%s\0' "$s"; } >> "$d/log"
if [ "$n" = go ]; then shift 2; n=$1; [ -n "$n" ] && [ -f "$d/$n.out" ] && b="$d/$n" || { n=echo; b="$d/none"; }; else b=$0; fi
case $n in
echo) for a do printf '%s\n' "$a"; done;;
cat) printf '%s' "$s";;
*) [ -f "$b.out" ] && /bin/cat "$b.out";;
esac
[ -f "$b.err" ] && /bin/cat "$b.err" >&2
[ -f "$b.code" ] && . "$b.code"
exit 0
`

// tool is a command that a program may start.
type tool struct {
	name string
	text string // what it prints
	docs []*Y   // the same, when it is a program
	fail bool
}

type started struct {
	name  string
	args  []string
	stdin string
}

// execs models permission to start commands, and the commands.
type execs struct {
	tools    map[string]*tool
	bin      string // directory of the tools
	cwd      string
	allowed  bool
	broken   bool // the option is no boolean
	prompts  int  // confirmations there are
	packages []string
	badList  bool
	texts    map[string][]*Val // texts that are unmarshalled
	log      []started
	optional bool // whether the last one in the log is started is not said
	refused  int
	seen     map[string]bool
}

// granted tells whether an entry of an allow list covers a package.
func granted(entry, pkg string) bool {
	parts := strings.Split(entry, "*")
	if len(parts) == 1 {
		return entry == pkg
	}
	if !strings.HasPrefix(pkg, parts[0]) {
		return false
	}
	pkg = pkg[len(parts[0]):]
	last := parts[len(parts)-1]
	for _, p := range parts[1 : len(parts)-1] {
		i := strings.Index(pkg, p)
		if i < 0 {
			return false
		}
		pkg = pkg[i+len(p):]
	}
	return strings.HasSuffix(pkg, last)
}

func (x *execs) op(in *interp, env *frame, name string, args []*Val) (*Val, bool) {
	switch name {
	case "yaml.unmarshal":
		if len(args) == 1 && args[0].K == vStr && x.texts[args[0].S] != nil {
			x.seen["text with commands unmarshalled"] = true
			return list(x.texts[args[0].S]...), true
		}
		return nil, false
	case "exec.cmd", "exec.go":
	default:
		return nil, false
	}
	if len(args) != 1 || args[0].K != vMap {
		bad("a command needs a map")
	}
	m := args[0]
	key := "cmd"
	if name == "exec.go" {
		key = "pkg"
	}
	what := m.get(key)
	if what == nil || what.K != vStr {
		bad("no command")
	}
	if name == "exec.go" {
		if x.badList {
			bad("the allow list is no list")
		}
		ok := false
		for _, e := range x.packages {
			ok = ok || granted(e, what.S)
		}
		if !ok {
			x.refused++
			bad("package is not allowed")
		}
	}
	var argv []string
	if a := m.get("args"); a != nil {
		if a.K != vList {
			bad("arguments")
		}
		for _, v := range a.L {
			if v.K != vStr {
				bad("argument")
			}
			argv = append(argv, v.S)
		}
	}
	stdin := ""
	if s := m.get("stdin"); s != nil {
		if s.K != vStr {
			bad("input is no string")
		}
		stdin = s.S
	}
	asString, wrong := false, false
	if s := m.get("asString"); s != nil {
		asString = truthy(s)
		wrong = s.K != vBool
	}
	var t *tool
	if name == "exec.go" {
		t = x.tools["echo"]
		if len(argv) > 0 && x.tools[argv[0]] != nil && x.tools[argv[0]].name != "cat" && argv[0] != "echo" && argv[0] != "broken" {
			t = x.tools[argv[0]]
		}
	} else {
		if wrong {
			bad("asString")
		}
		if x.broken {
			bad("the option is no boolean")
		}
		if !x.allowed {
			if x.prompts == 0 {
				x.refused++
				bad("nobody allowed it")
			}
			x.prompts--
			x.seen["confirmed"] = true
		}
		p := what.S
		if strings.ContainsRune(p, '/') {
			if !filepath.IsAbs(p) {
				p = filepath.Join(x.cwd, p)
			}
			if filepath.Dir(p) == x.bin {
				t = x.tools[filepath.Base(p)]
			}
		} else {
			t = x.tools[p]
		}
		if t == nil {
			bad("there is no such command")
		}
	}
	for _, s := range append(argv, what.S) {
		if strings.ContainsRune(s, 0) {
			bad("argument that cannot be given")
		}
	}
	if strings.ContainsRune(stdin, 0) {
		unspec("input that the stand-in cannot log")
	}
	n := t.name
	if name == "exec.go" {
		n = "go"
		argv = append([]string{"run", what.S}, argv...)
	}
	x.log = append(x.log, started{n, argv, stdin})
	if len(x.log) > 40 {
		unspec("too many commands")
	}
	if wrong {
		x.optional = true
		bad("asString")
	}
	if t.fail {
		bad("the command fails")
	}
	text, docs := t.text, t.docs
	switch t.name {
	case "echo":
		if name == "exec.go" {
			argv = argv[2:]
		}
		for _, a := range argv {
			text += a + "\n"
		}
	case "cat":
		text = stdin
	}
	if asString {
		x.seen["text"] = true
		return str(text), true
	}
	if docs == nil && strings.TrimSpace(text) != "" {
		unspec("output that is no known program")
	}
	x.seen["program"] = true
	r := &Val{K: vList, Doc: true}
	for _, d := range docs {
		d = d.copied()
		d.walk(func(y *Y) { y.File = m.From })
		if m.From == "" {
			d.walk(func(y *Y) {
				if y.K == yScalar && y.V.K == vStr && (y.V.S == "include" || y.V.S == "import" || strings.HasPrefix(y.V.S, "files.")) {
					unspec("place of the output")
				}
			})
		}
		v := in.eval(d, env, quoting)
		switch {
		case v.K == vNull:
		case v.K == vList && v.Doc:
			r.L = append(r.L, v.L...)
		default:
			r.L = append(r.L, v)
		}
	}
	return r, true
}

// c19case writes programs with commands.
type c19case struct {
	*C
	x     *execs
	w     *world
	g     *progGen
	pkgs  []string
	sites int
}

func (k *c19case) newTool() *tool {
	t := &tool{name: fmt.Sprintf("t%d", len(k.x.tools))}
	k.x.tools[t.name] = t
	k.link(t)
	return t
}

func (k *c19case) link(t *tool) {
	if err := os.Symlink(filepath.Join(k.Dir, "standin"), filepath.Join(k.x.bin, t.name)); err != nil {
		panic(err)
	}
}

// print gives a stand-in its output.
func (k *c19case) print(t *tool) {
	write(filepath.Join(k.x.bin, t.name+".out"), t.text)
	if k.Chance(0.3) {
		write(filepath.Join(k.x.bin, t.name+".err"), pick(k.C, []string{"warning: x\n", "- !yisp [+, 1\n", "error"}))
	}
	if k.Chance(0.05) {
		t.fail = true
		write(filepath.Join(k.x.bin, t.name+".code"), pick(k.C, []string{"exit 1\n", "exit 255\n", "kill -9 $$\n", "kill -15 $$\n"}))
	}
}

// programs that stand-ins print
func (k *c19case) output(t *tool, docs []*Y) {
	t.docs = docs
	t.text = emitDocs(progEmitter(k.C), docs)
	if k.Chance(0.1) && len(docs) == 1 {
		t.text = pick(k.C, []string{"# printed\n", "\n", "---\n"}) + strings.TrimPrefix(t.text, "---\n")
	}
	if malformed(t.text) {
		k.Skip()
	}
	k.print(t)
}

func (k *c19case) argText() string {
	c := k.C
	s := genStr(c)
	if c.Chance(0.4) {
		s = pick(c, []string{"", " ", "-x", "--", "$(touch x)", "`id`", "a b", "*", "~", "a\nb", "\"q\"", "'", "\\", "$HOME", ";", "| cat", "--flag=a b", "é", "!yisp", "#x"})
	}
	return s
}

// command is an expression that starts a command, its output as text or as a program.
func (k *c19case) command(d int, text bool, docs func() []*Y) *Y {
	c := k.C
	k.sites++
	args := yseq()
	for n := c.Intn(4); n > 0; n-- {
		if c.Chance(0.3) {
			x := k.g.code(tStr, d-1)
			if x.K == ySeq && x.Tag == "" && len(x.L) > 0 {
				x.Tag = "!yisp"
			}
			args.L = append(args.L, x)
		} else {
			args.L = append(args.L, ydata(str(k.argText())))
		}
	}
	args.Tag = "!quote"
	m := ymap()
	op := "exec.cmd"
	var t *tool
	switch {
	case !text:
		t = k.newTool()
		k.output(t, docs())
	case c.Chance(0.3):
		t = k.newTool()
		t.text = genStr(c) + pick(c, []string{"", "\n", "\n\n", "\r\n", " "})
		if strings.ContainsRune(t.text, 0) {
			t.text = "x"
		}
		k.print(t)
	default:
		t = k.x.tools[pick(c, []string{"echo", "cat"})]
	}
	if c.Chance(0.35) {
		op = "exec.go"
		m.M = append(m.M, YEnt{str("pkg"), ydata(str(k.pkg()))})
		if t.name != "cat" && t.name != "echo" {
			args.L = append([]*Y{yname(t.name)}, args.L...)
		}
	} else {
		p := filepath.Join(k.x.bin, t.name)
		switch c.Intn(6) {
		case 0, 1:
			p = t.name
		case 2:
			if r, err := filepath.Rel(k.x.cwd, p); err == nil {
				p = r
				if !strings.ContainsRune(p, '/') {
					p = "./" + p
				}
			}
		}
		if c.Chance(0.03) {
			p = pick(c, []string{"nosuch", "/nosuch/tool", k.x.bin, filepath.Join(k.x.bin, "plain"), "", p + " a", "./nosuch", "plain"})
		}
		y := ydata(str(p))
		if c.Chance(0.1) {
			y = ycall("strings.concat", ydata(str(p[:len(p)/2])), ydata(str(p[len(p)/2:])))
		}
		m.M = append(m.M, YEnt{str("cmd"), y})
	}
	if len(args.L) > 0 || c.Chance(0.2) {
		m.M = append(m.M, YEnt{str("args"), args})
	}
	if c.Chance(0.5) || t.name == "cat" {
		s := k.g.code(tStr, d-1)
		if c.Chance(0.4) {
			s = ydata(str(strings.ReplaceAll(pick(c, []string{genStr(c), strings.Repeat(pick(c, words)+"\n", c.Intn(3000))}), "\x00", "")))
		}
		m.M = append(m.M, YEnt{str("stdin"), s})
	}
	if text {
		m.M = append(m.M, YEnt{str("asString"), ys(boolean(true))})
	} else if c.Chance(0.2) {
		m.M = append(m.M, YEnt{str("asString"), ys(boolean(false))})
	}
	c.R.Shuffle(len(m.M), func(i, j int) { m.M[i], m.M[j] = m.M[j], m.M[i] })
	if c.Chance(0.01) {
		i := c.Intn(len(m.M))
		m.M = append(m.M[:i:i], m.M[i+1:]...)
	}
	if len(m.M) > 0 && c.Chance(0.02) {
		i := c.Intn(len(m.M))
		m.M[i].V = ydata(pick(c, []*Val{null(), integer(3), str("true"), mapv(), boolean(false)}))
	}
	if c.Chance(0.1) { // the operator applied by another one
		return ycall("lists.at", ycall("lists.map", &Y{K: ySeq, L: []*Y{k.g.mixed(m)}, Tag: "!quote"}, yname(op)), ys(integer(0)))
	}
	return ycall(op, m)
}

var packageNames = []string{"example.com/a", "example.com/a/b", "example.com/a@v1.0.0", "example.com/a.b", "./tool", "../tool", "github.com/totegamma/yisp", "a+b", "a(b)", "[ab]", "a|b", "^a$", "a?", "a\\b", "a b", "x\ny", "", "example.com/é", "EXAMPLE.com/a", "cmd/vet", "-x", "a*b", "main.go"}

func (k *c19case) pkg() string { return pick(k.C, k.pkgs) }

// entryFor makes an allow list entry that is about a package, or nearly.
func (k *c19case) entryFor(p string) string {
	c := k.C
	i := c.Intn(len(p) + 1)
	j := i + c.Intn(len(p)-i+1)
	for i > 0 && !utf8.ValidString(p[:i]) {
		i--
	}
	for !utf8.ValidString(p[j:]) {
		j++
	}
	switch c.Intn(12) {
	case 0, 1, 2:
		return p
	case 3:
		return p[:i] + "*"
	case 4:
		return "*" + p[i:]
	case 5, 6:
		return p[:i] + "*" + p[j:]
	case 7:
		return "*"
	case 8: // near misses
		return p[:i]
	case 9:
		return p + pick(c, []string{"x", "*x", ".*", "/"})
	case 10:
		return strings.NewReplacer(".", pick(c, []string{"?", "x", "."}), "/", "*").Replace(p)
	}
	return strings.ToUpper(p) + pick(c, []string{"", "*"})
}

// special is a command where an expression of a type is wanted.
func (k *c19case) special(t *ty, d int) *Y {
	c := k.C
	if k.sites > 25 {
		return nil
	}
	value := func() []*Y {
		y := k.g.code(t, d)
		if (y.K == ySeq || y.K == yMap) && y.Tag == "" {
			y.Tag = "!yisp"
		}
		ds := []*Y{y}
		for n := c.Intn(3) * c.Intn(2); n > 0; n-- {
			z := k.g.plain(k.g.dataType(1), d)
			ds = append(ds, z)
		}
		return ds
	}
	switch t.k {
	case 's':
		return k.command(d, true, nil)
	case 'b':
		return ycall("==", k.command(d, true, nil), k.g.code(tStr, d))
	case 'i':
		if c.Chance(0.5) {
			return ycall("lists.length", ycall("strings.split", k.command(d, true, nil), yname(pick(c, []string{" ", ",", "a"}))))
		}
	case 'l':
		if c.Chance(0.6) {
			return k.command(d, false, func() (ds []*Y) {
				for n := c.Intn(4); n > 0; n-- {
					y := k.g.plain(t.elem, d)
					ds = append(ds, y)
				}
				if len(ds) == 0 {
					ds = append(ds, ys(null()))
				}
				return ds
			})
		}
	case 'a':
		if c.Chance(0.4) {
			return k.command(d, true, nil)
		}
	}
	if c.Chance(0.5) {
		return nil
	}
	return ycall("lists.at", k.command(d, false, value), ys(integer(0)))
}

// asData is a value that would start a command if it were code.
func (k *c19case) asData() *Val {
	c := k.C
	call := list(str("exec.cmd"), mapv("cmd", str(filepath.Join(k.x.bin, "echo")), "args", list(str("never"))))
	if c.Chance(0.3) {
		call = list(str("exec.go"), mapv("pkg", str(k.pkg())))
	}
	switch c.Intn(4) {
	case 0:
		return mapv("run", call)
	case 1:
		return list(call, call)
	}
	return call
}

func (k *c19case) file(id, kind, text string, docs []*Y, data []*Val) *wfile {
	for _, d := range docs {
		d.walk(func(y *Y) { y.File = id })
	}
	f := &wfile{id: id, kind: kind, text: text, docs: docs, data: data}
	k.w.files[id] = f
	k.w.addDir(filepath.Dir(id))
	os.MkdirAll(filepath.Dir(id), 0755)
	write(id, text)
	return f
}

// program writes a program file.
func (k *c19case) program(id string, docs []*Y) *wfile {
	text := emitDocs(progEmitter(k.C), docs)
	if malformed(text) {
		k.Skip()
	}
	return k.file(id, "yisp", text, docs, nil)
}

func (k *c19case) gen() *progGen {
	g := newProgGen(k.C)
	g.data = genOpt{depth: 2, width: 3, plain: k.Chance(0.7)}
	g.special = k.special
	k.g = g
	return g
}

// files puts files beside the program and gives documents that use them.
func (k *c19case) files(root string) (docs []*Y) {
	c := k.C
	rel := func(dir, name string) (string, string) {
		p := name
		if dir != "" {
			p = dir + "/" + name
		}
		return filepath.Join(root, p), p
	}
	yisp := func(y *Y) *Y { y.Tag = "!yisp"; return y }
	for n := c.Intn(4); n > 0; n-- {
		dir := pick(c, []string{"", "sub", "sub/deep"})
		name := fmt.Sprintf("f%d", len(k.w.files))
		switch c.Intn(7) {
		case 0: // a program that runs commands, included or only named
			id, p := rel(dir, name+".yisp")
			k.gen()
			k.program(id, []*Y{yisp(k.g.code(k.g.dataType(1), 2)), yisp(k.command(1, true, nil))})
			y := ycall("include", yname(p))
			y.Tag = "!yisp"
			if c.Chance(0.2) {
				y.Tag = "!quote"
			}
			docs = append(docs, y)
		case 1: // a module with functions that run commands
			id, p := rel(dir, name+".yisp")
			k.gen()
			body := k.command(1, true, nil)
			if c.Chance(0.5) {
				body = ycall("strings.concat", yref("x"), body)
			}
			f := ycall("lambda", yseq(yname("x")), body)
			f.Tag, f.Anchor = "!yisp", "run"
			k.program(id, []*Y{f})
			docs = append(docs, yisp(ycall("import", yseq(yname("m"+name), yname(p)))))
			for m := c.Intn(3); m > 0; m-- {
				docs = append(docs, yisp(yseq(yref("m"+name+".run"), yname("a"))))
			}
		case 2: // data
			ext := pick(c, []string{".yaml", ".yml", ".json"})
			id, p := rel(dir, name+ext)
			v := sortedKeys(k.asData())
			text := ""
			if ext == ".json" {
				b, _ := json.Marshal(jsonable(v))
				text = string(b)
			} else {
				e := newEmitter(c.R)
				e.tame = true
				text = emitDocs(e, []*Y{ydata(v)})
				if c.Chance(0.5) { // marked as code
					text = "!yisp " + strings.TrimPrefix(flow(v), "---\n") + "\n"
				}
			}
			k.file(id, "data", text, nil, []*Val{v})
			docs = append(docs, yisp(ycall("include", yname(p))))
		case 3: // text
			id, p := rel(dir, name+pick(c, []string{".txt", ".sh", ".yisp"}))
			text := "!yisp " + flow(k.asData()) + "\n"
			k.file(id, "text", text, nil, nil)
			docs = append(docs, yisp(ycall("files.read", yname(p))))
		case 4:
			v := k.asData()
			text := pick(c, []string{"", "!yisp "}) + flow(v) + "\n"
			k.x.texts[text] = []*Val{sortedKeys(v)}
			docs = append(docs, yisp(ycall("yaml.unmarshal", ydata(str(text)))))
		case 5: // a program printed by a command names a file
			id, p := rel(dir, name+".yaml")
			v := mapv("found", str(name))
			k.file(id, "data", tameDocs(c, []*Val{v}), nil, []*Val{v})
			lib, lp := rel(pick(c, []string{"", "sub"}), "x"+name+".yisp")
			r, _ := filepath.Rel(filepath.Dir(lib), id)
			_ = p
			k.gen()
			k.program(lib, []*Y{yisp(k.command(1, false, func() []*Y { return []*Y{yisp(ycall("include", yname(r)))} }))})
			docs = append(docs, yisp(ycall("include", yname(lp))))
		case 6:
			docs = append(docs, ydata(k.asData()))
			if docs[len(docs)-1].K == ySeq && c.Chance(0.5) {
				docs[len(docs)-1].Tag = "!quote"
			}
		}
	}
	return docs
}

// flow writes a value on one line.
func flow(v *Val) string {
	b, err := json.Marshal(jsonable(v))
	if err != nil {
		panic(err)
	}
	return string(b)
}

func (k *c19case) readLog() (l []started) {
	b, err := os.ReadFile(filepath.Join(k.x.bin, "log"))
	if err != nil {
		return nil
	}
	fs := strings.Split(string(b), "\x00")
	for len(fs) > 2 {
		n := 0
		fmt.Sscan(fs[1], &n)
		if len(fs) < 3+n {
			k.Fail("log", "the log cannot be read: %q", b)
			return l
		}
		l = append(l, started{fs[0], fs[2 : 2+n], fs[2+n]})
		fs = fs[3+n:]
	}
	return l
}

func showStarted(l []started) string {
	s := ""
	for _, x := range l {
		in := x.stdin
		if len(in) > 60 {
			in = fmt.Sprintf("%s… %d bytes", in[:60], len(in))
		}
		s += fmt.Sprintf("%s %q < %q\n", x.name, x.args, in)
	}
	if s == "" {
		return "nothing\n"
	}
	return s
}

// recurs tells whether a function calls itself.
func recurs(docs []*Y) (found bool) {
	for _, d := range docs {
		d.walk(func(y *Y) {
			if y.Anchor != "" {
				y.walk(func(z *Y) {
					found = found || z.K == yAlias && (z.Name == y.Anchor || strings.HasPrefix(z.Name, y.Anchor+"."))
				})
			}
		})
	}
	return found
}

func c19(c *C) {
	script := filepath.Join(c.Dir, "standin")
	if _, err := os.Stat(script); err != nil {
		if err := os.WriteFile(script, []byte(standIn), 0755); err != nil {
			panic(err)
		}
	}
	dir, err := filepath.EvalSymlinks(c.fresh())
	if err != nil {
		panic(err)
	}
	root := filepath.Join(dir, "w")
	x := &execs{tools: map[string]*tool{}, bin: filepath.Join(dir, "bin"), texts: map[string][]*Val{}, seen: map[string]bool{}}
	x.cwd = pick(c, []string{root, dir, filepath.Join(dir, "elsewhere")})
	for _, d := range []string{root, x.bin, x.cwd, filepath.Join(dir, "home")} {
		os.MkdirAll(d, 0755)
	}
	write(filepath.Join(x.bin, "plain"), "#!/bin/sh\n")
	k := &c19case{C: c, x: x, w: &world{c: c, root: root, files: map[string]*wfile{}, dirs: map[string]bool{}, seen: map[string]int{}}}
	k.w.addDir(root)
	for _, n := range []string{"echo", "cat"} {
		x.tools[n] = &tool{name: n}
		k.link(x.tools[n])
	}
	if err := os.Symlink(script, filepath.Join(x.bin, "go")); err != nil {
		panic(err)
	}

	// what is allowed
	for n := 1 + c.Intn(2); n > 0; n-- {
		k.pkgs = append(k.pkgs, pick(c, packageNames))
	}
	listed := "unset"
	if c.Chance(0.85) {
		listed = "set"
		for n := c.Intn(4); n > 0; n-- {
			p := pick(c, packageNames)
			if c.Chance(0.7) {
				p = k.pkg()
			}
			x.packages = append(x.packages, k.entryFor(p))
		}
		if c.Chance(0.4) {
			x.packages = append(x.packages, k.pkgs...)
		}
	}
	run := pick(c, []string{"file", "file", "file", "file", "reader", "any", "command", "command", "stdin", "krm"})
	permission := pick(c, []string{"allowed", "allowed", "allowed", "allowed", "refused", "default", "enter", "enter", "typed"})
	lib := run == "file" || run == "reader" || run == "any"
	if lib && c.Chance(0.02) {
		permission = "broken"
	}
	if lib && c.Chance(0.02) {
		listed = "broken"
	}

	root0 := k.files(root)
	g := k.gen()
	docs := g.program()
	for _, d := range root0 {
		i := c.Intn(len(docs) + 1)
		docs = append(docs[:i:i], append([]*Y{d}, docs[i:]...)...)
	}
	if c.Chance(0.1) {
		g.spoil(docs)
	}
	main := k.program(filepath.Join(root, "main.yisp"), docs)
	arg := main.id

	stdin := ""
	switch permission {
	case "allowed":
		x.allowed = true
	case "broken":
		x.broken = true
	case "enter":
		x.prompts = c.Intn(4)
		stdin = strings.Repeat("\n", x.prompts)
	case "typed":
		stdin = strings.Repeat(pick(c, []string{"y\n", "yes, run it\n", "\n", " \n"}), 50)
		x.prompts = 1 << 30
	}
	if listed == "broken" {
		x.badList = true
	}
	switch run {
	case "stdin":
		// the program is the input, so nobody can confirm anything
		if !x.allowed {
			x.prompts = 0
		}
		stdin = main.text
		delete(k.w.files, main.id)
		main = &wfile{id: filepath.Join(x.cwd, "<stdin>"), kind: "yisp", text: main.text, docs: main.docs}
		k.w.files[main.id] = main
		for _, d := range main.docs {
			d.walk(func(y *Y) { y.File = main.id })
		}
		arg = "-"
		if permission == "enter" || permission == "typed" {
			permission = "refused"
		}
	case "krm":
		x.allowed, x.prompts, x.packages = false, 0, nil
		permission, listed = "refused", "unset"
		b, _ := json.Marshal(main.text)
		item := flow(k.asData())
		stdin = fmt.Sprintf("apiVersion: config.kubernetes.io/v1\nkind: ResourceList\nfunctionConfig:\n  apiVersion: krm.yisp.gammalab.net/v1\n  spec:\n    allowUntypedManifest: true\n    yisp: %s\nitems:\n- %s\n", b, item)
		if c.Chance(0.5) {
			stdin = fmt.Sprintf("apiVersion: config.kubernetes.io/v1\nkind: ResourceList\nfunctionConfig:\n  apiVersion: krm.yisp.gammalab.net/v1\n  spec:\n    allowUntypedManifest: true\n    target: ../w/main.yisp\nitems:\n- %s\n", item)
			x.cwd = filepath.Join(dir, "elsewhere")
			os.MkdirAll(x.cwd, 0755)
		} else {
			x.cwd = root
			for _, d := range main.docs {
				d.walk(func(y *Y) { y.File = filepath.Join(root, "stdin.krm.yaml") })
			}
		}
	}

	in := newInterp()
	in.check = builtinCheck
	in.world = k.w
	in.execs = x
	o := in.runFile(main.id)
	some := x.allowed || x.prompts > 0 || len(x.log) > 0
	for _, e := range x.packages {
		for _, p := range k.pkgs {
			some = some || granted(e, p)
		}
	}

	show := fmt.Sprintf("%s in %s, commands %s, input %q, allow list %s %q\n", run, x.cwd, permission, clip(stdin), listed, x.packages)
	for _, f := range k.w.files {
		show += fmt.Sprintf("== %s\n%s", f.id, f.text)
	}
	for _, t := range x.tools {
		if t.text != "" {
			show += fmt.Sprintf("== what %s prints\n%s", t.name, t.text)
		}
	}
	c.Input(show)

	if o.unspec != "" && (some || recurs(docs)) { // nothing to see, or perhaps without an end
		c.Count("unspecified: "+firstWord(o.unspec), 1)
		c.Skip()
	}
	old, _ := os.Getwd()
	if err := os.Chdir(x.cwd); err != nil {
		panic(err)
	}
	defer os.Chdir(old)
	var evaluate func() (string, error)
	eo := opts{}
	switch run {
	case "file", "reader", "any":
		e := engine.NewEngine(eo)
		switch permission {
		case "allowed":
			e.SetOption("net.gammalab.yisp.exec.allow_cmd", true)
		case "refused":
			e.SetOption("net.gammalab.yisp.exec.allow_cmd", false)
		case "broken":
			e.SetOption("net.gammalab.yisp.exec.allow_cmd", pick(c, []any{"true", 1, nil}))
		}
		switch listed {
		case "set":
			e.SetOption("net.gammalab.yisp.exec.allowed_go_pkgs", x.packages)
		case "broken":
			e.SetOption("net.gammalab.yisp.exec.allowed_go_pkgs", pick(c, []any{"*", []any{"*"}, nil}))
		}
		path := os.Getenv("PATH")
		os.Setenv("PATH", x.bin)
		defer os.Setenv("PATH", path)
		in := filepath.Join(dir, "input")
		write(in, stdin)
		f, err := os.Open(in)
		if err != nil {
			panic(err)
		}
		null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
		oldIn, oldErr := os.Stdin, os.Stderr
		os.Stdin, os.Stderr = f, null
		defer func() {
			os.Stdin, os.Stderr = oldIn, oldErr
			f.Close()
			null.Close()
		}()
		evaluate = func() (string, error) {
			return guard(c, func() (string, error) {
				switch run {
				case "reader":
					return e.EvaluateReaderToYaml(strings.NewReader(main.text), main.id)
				case "any":
					_, err := e.EvaluateFileToAny(arg)
					return "", err
				}
				return e.EvaluateFileToYaml(arg)
			})
		}
	default:
		args := []string{"build"}
		if x.allowed {
			args = append(args, "--allow-cmd")
		} else if permission == "refused" {
			args = append(args, pick(c, [][]string{nil, {"--allow-cmd=false"}})...)
		}
		home := filepath.Join(dir, "home")
		config := filepath.Join(home, ".config", "yisp", "config.yaml")
		if listed == "set" || run == "krm" {
			os.MkdirAll(filepath.Dir(config), 0755)
			if c.Chance(0.3) {
				config = filepath.Join(dir, "other.yaml")
				args = append([]string{"--config", config}, args...)
			}
			b, _ := json.Marshal(append([]string{}, x.packages...))
			if run == "krm" {
				b = []byte(`["*"]`)
			}
			write(config, pick(c, []string{"allowedgopkgs: ", "AllowedGoPkgs: "})+string(b)+"\n")
		}
		if run == "krm" {
			args = []string{"krm"}
		} else {
			args = append(args, "--", arg)
		}
		evaluate = func() (string, error) {
			r := runCLI(c, args, stdin, home, x.cwd, "PATH="+x.bin)
			if r.timeout {
				c.Fail("hang", "the command does not end\n%s", r.stderr)
			}
			if r.code != 0 {
				return "", fmt.Errorf("%s", r.stderr)
			}
			return r.stdout, nil
		}
	}

	out, err := evaluate()
	got := k.readLog()
	if !some {
		if len(got) > 0 {
			c.Fail("started", "nothing was allowed, but these were started\n%s", showStarted(got))
			return
		}
		c.Count("runs in which nothing was allowed", 1)
		if k.sites > 0 {
			c.Count("runs in which commands were written and nothing was allowed", 1)
		}
	}
	if o.unspec != "" {
		c.Count("unspecified: "+firstWord(o.unspec), 1)
		c.Skip()
	}
	want := x.log
	if x.optional && len(got) == len(want)-1 {
		want = want[:len(got)]
	}
	if a, b := showStarted(want), showStarted(got); fmt.Sprintf("%q", want) != fmt.Sprintf("%q", got) {
		c.Fail("started", "what was started is not what the program says (outcome %v)\n--- want\n%s--- got\n%s", err, a, b)
		return
	}
	c.Count("commands started", len(got))
	for s := range x.seen {
		c.Count("with "+s, 1)
	}
	if x.refused > 0 {
		c.Count("commands refused", x.refused)
	}
	outcome := "ok"
	if o.err != "" {
		outcome = firstWord(o.err)
	}
	c.Seen(fmt.Sprintf("%s %s %s started %d refused %d %s", run, permission, listed, min(len(got), 6), x.refused, outcome))
	if len(got) > 0 || x.refused > 0 {
		c.Seen(eventKey(in) + outcome)
	}
	if run == "any" {
		if (err == nil) != (o.err == "") {
			c.Fail("outcome", "the outcome is %v, but it must be %q", err, o.err)
		}
		return
	}
	agreeOn(c, o, func() (string, error) { return out, err })
}
