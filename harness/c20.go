package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"github.com/totegamma/yisp/core"
	upstream "gopkg.in/yaml.v3"
)

func init() {
	register(&Prop{
		ID: "C20", Quick: 60000, Thorough: 800000, Case: c20, Setup: setupCache,
		Rule: "each case is a set of programs including each other: the report of a failure, or every annotation of the source map, is compared with the places the reference interpreter knows; distinct cases by kind of fault, operator, depth of the trace and form of the annotated value",
		Assume: []string{
			"the place of a computed value is that of the call or of any operand",
			"values read from data files or parsed at run time have no line",
		},
	})
}

type place struct {
	file      string
	line, col int
}

func (p place) String() string { return fmt.Sprintf("%s:%d:%d", p.file, p.line, p.col) }

func placeOf(y *Y) place { return place{y.File, y.Line, y.Col} }

func places(m map[*Y]bool) map[place]bool {
	r := map[place]bool{}
	for y := range m {
		r[placeOf(y)] = true
	}
	return r
}

func (v *Val) places() map[place]bool {
	m := map[*Y]bool{}
	if v.At != nil {
		m[v.At] = true
	}
	for y := range v.Srcs {
		m[y] = true
	}
	return places(m)
}

// report is what an error says.
type report struct {
	text   string
	source []string // the lines between the message and the trace
	shown  bool
	trace  []place
}

var rePlace = regexp.MustCompile(`(?s) at (\S*):(\d+):(\d+)$`)

func readReport(err error) (r report, ok bool) {
	r.text = err.Error()
	head, trace, ok := strings.Cut(r.text, "Traceback:\n")
	if !ok {
		return r, false
	}
	r.source = strings.Split(head, "\n")
	r.shown = !strings.Contains(head, "<unknown source>")
	for _, l := range strings.Split(trace, "\n") {
		if m := rePlace.FindStringSubmatch(l); m != nil {
			line, _ := strconv.Atoi(m[2])
			col, _ := strconv.Atoi(m[3])
			r.trace = append(r.trace, place{m[1], line, col})
		}
	}
	return r, len(r.trace) > 0
}

// showsLine checks that the report shows a source line with a mark below its column.
func (r *report) showsLine(p place, text string) string {
	lines := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
	if p.line < 1 || p.line > len(lines) {
		return "the place is not in the file"
	}
	want := strings.TrimSuffix(lines[p.line-1], "\r")
	for i, l := range r.source {
		num := fmt.Sprintf("%d |", p.line)
		rest, ok := strings.CutPrefix(strings.TrimLeft(l, " "), num)
		if !ok || rest != want || i+1 >= len(r.source) {
			continue
		}
		mark := r.source[i+1]
		if j := strings.IndexByte(mark, '\x1b'); j >= 0 {
			if k := strings.IndexByte(mark[j:], 'm'); k >= 0 {
				mark = mark[:j] + mark[j+k+1:]
			}
		}
		at := strings.Index(mark, "^")
		if at < 0 || strings.TrimLeft(mark[:at], " ") != "" {
			return fmt.Sprintf("there is no mark below line %d", p.line)
		}
		prefix := len(l) - len(rest)
		if at != prefix+p.col-1 {
			return fmt.Sprintf("the mark is below column %d", at-prefix+1)
		}
		return ""
	}
	return fmt.Sprintf("line %d (%q) is not shown", p.line, want)
}

// judgeReport compares a report with where the failure has to be.
func judgeReport(c *C, err error, want map[place]bool, trace []place, files map[string]string) bool {
	r, ok := readReport(err)
	if !ok {
		c.Fail("no-place", "the report does not say where: %s", errText(err))
		return false
	}
	root := r.trace[0]
	if !want[root] {
		c.Fail("place", "the report points at %v, the fault is at %v\n--- report\n%s", root, showPlaces(want), errText(err))
		return false
	}
	if text, ok := files[root.file]; ok {
		if !r.shown {
			c.Fail("no-source", "the report does not show the source of %v\n--- report\n%s", root, errText(err))
			return false
		}
		if why := r.showsLine(root, text); why != "" {
			c.Fail("source", "%s, although the report points at %v\n--- report\n%s", why, root, errText(err))
			return false
		}
		c.Count("source lines shown", 1)
	}
	i := 0
	for _, p := range trace {
		for i < len(r.trace) && r.trace[i] != p {
			i++
		}
		if i == len(r.trace) {
			c.Fail("trace", "the trace lacks %v, or has it in the wrong order\n--- want, in this order\n%v\n--- report\n%s", p, trace, errText(err))
			return false
		}
	}
	c.Count("trace entries", len(trace))
	c.Count("reports agreed", 1)
	return true
}

func showPlaces(m map[place]bool) string {
	s := ""
	for p := range m {
		s += " " + p.String()
	}
	return s
}

// faultPlaces says where a failure may be reported.
func (in *interp) faultPlaces() map[place]bool {
	m := map[*Y]bool{}
	y := in.fault
	m[y] = true
	if y.K == ySeq && len(y.L) > 0 {
		m[y.L[0]] = true
		if y.L[0].K == yScalar && y.L[0].V.S == "lambda" && len(y.L) > 1 { // parameters
			y.L[1].walk(func(x *Y) { m[x] = true })
		}
		if y.L[0].K == yScalar && y.L[0].V.S == "import" {
			y.walk(func(x *Y) { m[x] = true })
		}
	}
	switch {
	case in.about != nil && (in.about.At != nil || in.about.Srcs != nil):
		in.about.own(m)
		in.others(in.failed, in.about, m, 0)
		if len(in.failed) > 0 {
			in.failed[0].sources(m)
		}
	default:
		for _, v := range in.failed {
			v.sources(m)
		}
	}
	return places(m)
}

func (v *Val) own(m map[*Y]bool) {
	if v.At != nil {
		m[v.At] = true
	}
	for y := range v.Srcs {
		m[y] = true
	}
}

func (v *Val) holds(x *Val) bool {
	if v == x {
		return true
	}
	for _, y := range v.L {
		if y.holds(x) {
			return true
		}
	}
	for _, e := range v.M {
		if e.V.holds(x) {
			return true
		}
	}
	return false
}

// others finds operands that are at fault as well: a call with the one that is
// known replaced by something else fails because of them.
func (in *interp) others(items []*Val, about *Val, m map[*Y]bool, depth int) {
	if depth > 3 {
		return
	}
	for i, v := range items {
		if i == 0 || !v.holds(about) {
			continue
		}
		for _, with := range []*Val{integer(1), str("a"), boolean(true), list(), mapv(), items[0]} {
			try := append([]*Val{}, items...)
			try[i] = with
			if found := in.guiltyOf(try); found != nil && !m[found.At] && found != with {
				n := len(m)
				found.own(m)
				if len(m) > n {
					in.others(try, found, m, depth+1)
				}
			}
		}
	}
}

func (in *interp) guiltyOf(items []*Val) (v *Val) {
	defer func() {
		if r := recover(); r != nil {
			v = guilty
		}
	}()
	guilty = nil
	in.apply(newFrame(), items[0], items[1:]...)
	return nil
}

// callTrace is what the trace of a failure has to contain, innermost first:
// every expression in its place, and every call whose function failed.
func (in *interp) callTrace() (r []place) {
	s := in.trace
	if in.failed != nil && len(s) > 0 {
		r = append(r, placeOf(s[len(s)-1]))
	}
	for i := len(s) - 1; i > 0; i-- {
		direct := false
		for _, x := range s[i-1].L {
			direct = direct || x == s[i]
		}
		for _, e := range s[i-1].M {
			direct = direct || e.V == s[i]
		}
		if direct {
			r = append(r, placeOf(s[i]))
		} else {
			r = append(r, placeOf(s[i-1]))
		}
	}
	return r
}

func c20(c *C) {
	switch c.Intn(10) {
	case 0:
		c20syntax(c)
	case 1, 2:
		c20types(c)
	default:
		c20programs(c)
	}
}

// wrongCall makes a call of some operator, usually with an argument that does not fit.
func wrongCall(c *C, g *progGen) *Y {
	a := &argGen{c: c, o: genOpt{depth: 2, plain: true}, g: g}
	var names []string
	for _, p := range []string{"", "strings", "lists", "maps"} {
		names = append(names, opNames(p)...)
	}
	y := a.call(pick(c, names))
	if len(y.L) > 1 && c.Chance(0.7) {
		y.L[1+c.Intn(len(y.L)-1)], _ = a.arg(pick(c, []byte("anislm")), nil)
	}
	y.Tag = "!yisp"
	switch c.Intn(3) {
	case 0:
		return ymap("r", y)
	case 1:
		return yseq(ymap("a", ymap("b", y)))
	}
	return y
}

// c20set writes programs that include each other, the last one being the main file.
func c20set(c *C, emit func() *emitter, mayFail bool) (w *world, main string, texts map[string]string) {
	dir := c.fresh()
	w = &world{c: c, root: dir, files: map[string]*wfile{}, dirs: map[string]bool{}, seen: map[string]int{}}
	w.addDir(dir)
	texts = map[string]string{}
	n := 1
	if c.Chance(0.4) {
		n = 2 + c.Intn(2)
	}
	var paths []string
	for i := 0; i < n; i++ {
		g := newProgGen(c)
		docs := g.program()
		if mayFail && c.Chance(0.55) {
			g.spoil(docs)
		} else if mayFail && c.Chance(0.6) {
			at := c.Intn(len(docs) + 1)
			docs = append(docs[:at:at], append([]*Y{wrongCall(c, g)}, docs[at:]...)...)
		}
		name := fmt.Sprintf("f%d.yisp", i)
		if i < n-1 && c.Chance(0.3) {
			name = pick(c, []string{"sub/", "sub/deep/"}) + name
		}
		for _, p := range paths {
			rel, _ := filepath.Rel(filepath.Dir(name), p)
			if c.Chance(0.7) {
				inc := ycall("include", yname(pickIf(strings.HasPrefix(rel, ".") || c.Chance(0.5), rel, "./"+rel)))
				inc.Tag = "!yisp"
				at := c.Intn(len(docs) + 1)
				docs = append(docs[:at:at], append([]*Y{inc}, docs[at:]...)...)
				if c.Chance(0.3) {
					inc.Anchor = fmt.Sprintf("inc%d", i)
				}
			}
		}
		paths = append(paths, name)
		main = filepath.Join(dir, name)
		w.addDir(filepath.Dir(main))
		if err := os.MkdirAll(filepath.Dir(main), 0755); err != nil {
			panic(err)
		}
		for i := range docs {
			docs[i] = docs[i].copied() // nothing is written in two places
		}
		for _, d := range docs {
			d.walk(func(y *Y) { y.File = main })
		}
		text := emitDocs(emit(), docs)
		if mayFail && c.Chance(0.05) { // lines of any length are shown
			text += "# " + strings.Repeat("long ", 12000+c.Intn(20000)) + "\n"
		}
		if malformed(text) {
			c.Skip()
		}
		texts[main] = text
		write(main, text)
		w.files[main] = &wfile{id: main, kind: "yisp", docs: docs, text: text}
	}
	all := ""
	for f, t := range texts {
		all += fmt.Sprintf("== %s\n%s\n", f, t)
	}
	c.Input("main " + main + "\n" + all)
	return w, main, texts
}

func (y *Y) copied() *Y {
	n := *y
	n.L, n.M = nil, nil
	for _, x := range y.L {
		n.L = append(n.L, x.copied())
	}
	for _, e := range y.M {
		n.M = append(n.M, YEnt{e.K, e.V.copied()})
	}
	return &n
}

func c20programs(c *C) {
	sourcemap := c.Chance(0.5)
	flow := 0.0
	if c.Chance(0.3) {
		flow = 0.4
	}
	w, main, texts := c20set(c, func() *emitter {
		e := progEmitter(c)
		if sourcemap {
			e.flowP = flow
			e.comments = false
		}
		return e
	}, !sourcemap)

	// what it is called
	given, inline := main, false
	switch c.Intn(5) {
	case 0:
		if err := os.Chdir(w.root); err != nil {
			panic(err)
		}
		defer os.Chdir(c.Dir)
		given, _ = filepath.Rel(w.root, main)
		files := map[string]*wfile{}
		for id := range w.files {
			rel, _ := filepath.Rel(w.root, id)
			rename(w, id, rel)
			texts[rel] = texts[id]
			files[rel] = w.files[id]
		}
		w.files = files
		w.dirs = map[string]bool{}
	case 1:
		if len(w.files) == 1 {
			inline = true
			rename(w, main, "inline")
		}
	}

	in := newInterp()
	in.check = builtinCheck
	in.world, in.pos = w, true
	mainDocs := w.files[pickIf(w.files[main] == nil, given, main)].docs
	w.stack = []string{given}
	o := in.runDocs(mainDocs, newFrame())
	if o.unspec != "" {
		c.Skip()
	}
	eo := opts{RenderSources: sourcemap}
	var out string
	var err error
	if inline {
		out, err = evalText(c, texts[main], eo)
	} else {
		out, err = evalFile(c, given, eo)
	}
	if o.err != "" {
		if err == nil {
			c.Fail("no-error", "the program must fail (%s) but gives\n%s", o.err, out)
			return
		}
		if in.fault == nil {
			c.Skip()
		}
		if judgeReport(c, err, in.faultPlaces(), in.callTrace(), texts) {
			op := ""
			if in.fault.K == ySeq && len(in.fault.L) > 0 && in.fault.L[0].K == yScalar {
				op = in.fault.L[0].V.S
			}
			c.Seen(fmt.Sprintf("fault %s %s depth %d file %v about %v", firstWord(o.err), op, min(len(in.trace), 12), in.fault.File == mainDocs[0].File, in.about != nil))
		}
		return
	}
	if err != nil {
		c.Fail("error", "evaluation fails: %s", errText(err))
		return
	}
	if !sourcemap {
		return
	}
	c20map(c, o.docs, out, flow == 0 && in.events["round trip"] == 0) // what is unmarshalled has a style, too
}

// rename changes where the main file is known to be.
func rename(w *world, main, as string) {
	for _, d := range w.files[main].docs {
		d.walk(func(y *Y) { y.File = as })
	}
}

var reNote = regexp.MustCompile(`([^\s,#]*(?:\.yisp|inline)):(\d+):(\d+)$`)

// note finds the annotation that ends a comment.
func note(comment string) (p place, ok bool) {
	m := reNote.FindStringSubmatch(comment)
	if m == nil {
		return p, false
	}
	line, _ := strconv.Atoi(m[2])
	col, _ := strconv.Atoi(m[3])
	return place{m[1], line, col}, true
}

// c20map checks the annotations of an output.
func c20map(c *C, want []*Val, out string, exact bool) {
	cwd, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	relative := func(m map[place]bool) map[place]bool {
		r := map[place]bool{}
		for p := range m {
			if rel, err := filepath.Rel(cwd, p.file); err == nil {
				p.file = rel
			}
			r[p] = true
		}
		return r
	}
	nodes, err := readNodes(out)
	if err != nil {
		c.Fail("unreadable-output", "the output does not read back: %v\n--- output\n%s", err, out)
		return
	}
	if len(nodes) != len(want) {
		c.Fail("result", "%d documents instead of %d\n--- output\n%s", len(nodes), len(want), out)
		return
	}
	if !exact || strings.Contains(out, "!!str #") { // an empty text and its comment confuse the reader
		// flow collections leave comments in odd places, so look only at what there is
		all := map[place]bool{}
		n := 0
		var gather func(v *Val)
		gather = func(v *Val) {
			n++
			for p := range relative(v.places()) {
				all[p] = true
			}
			for _, x := range v.L {
				gather(x)
			}
			for _, e := range v.M {
				gather(e.V)
			}
		}
		for _, v := range want {
			gather(v)
		}
		found := 0
		for _, m := range reNotes.FindAllStringSubmatch(out, -1) {
			line, _ := strconv.Atoi(m[2])
			col, _ := strconv.Atoi(m[3])
			if !all[place{m[1], line, col}] {
				c.Fail("map-place", "annotation %s is none of the places of the values\n--- output\n%s", m[0], out)
				return
			}
			found++
		}
		_ = found
		c.Count("annotations", found)
		return
	}
	count := 0
	var check func(path string, n *upstream.Node, v *Val, key *upstream.Node, head []place) bool
	check = func(path string, n *upstream.Node, v *Val, key *upstream.Node, head []place) bool {
		var notes []place
		switch {
		case len(n.Content) == 0:
			notes = notesIn(ownComment(n, key))
		case key != nil:
			notes = notesIn(key.LineComment)
		case head != nil:
			notes = head
		default:
			notes = notesIn(headComment(n))
		}
		if len(notes) == 0 && strings.HasPrefix(n.Value, ":") {
			return true // the reader loses comments after these
		}
		if len(notes) == 0 {
			c.Fail("map-missing", "the value at %s is not annotated\n--- output\n%s", path, out)
			return false
		}
		p, rest := notes[0], notes[1:]
		ps := relative(v.places())
		if !ps[p] {
			c.Fail("map-place", "the value at %s is annotated with %v, it was written at%s\n--- output\n%s", path, p, showPlaces(ps), out)
			return false
		}
		count++
		c.Seen(fmt.Sprintf("map %d of %d exact %v key %v", v.K, n.Kind, v.At != nil, key != nil))
		chained := n.Kind == upstream.SequenceNode && key == nil && len(n.Content) > 0 && len(n.Content[0].Content) > 0
		if len(rest) > 0 && !chained {
			c.Fail("map-extra", "the value at %s has the annotations %v\n--- output\n%s", path, notes, out)
			return false
		}
		switch v.K {
		case vList:
			for i, x := range n.Content {
				if i >= len(v.L) {
					c.Fail("result", "more items than expected at %s\n--- output\n%s", path, out)
					return false
				}
				var head []place
				if i == 0 && chained {
					head = append([]place{}, rest...)
				}
				if !check(fmt.Sprintf("%s[%d]", path, i), x, v.L[i], nil, head) {
					return false
				}
			}
		case vMap:
			for i := 0; i+1 < len(n.Content); i += 2 {
				if i/2 >= len(v.M) {
					c.Fail("result", "more entries than expected at %s\n--- output\n%s", path, out)
					return false
				}
				if !check(path+"/"+n.Content[i].Value, n.Content[i+1], v.M[i/2].V, n.Content[i], nil) {
					return false
				}
			}
		}
		return true
	}
	for i, n := range nodes {
		root := n
		var head []place
		if n.Kind == upstream.DocumentNode {
			root = n.Content[0]
			if len(root.Content) > 0 {
				head = notesIn(n.HeadComment + "\n" + headComment(root))
				if head == nil {
					head = []place{}
				}
			}
		}
		if !check(fmt.Sprintf("document %d ", i), root, want[i], nil, head) {
			return
		}
	}
	c.Count("annotations", count)
	c.Count("outputs agreed", 1)
}

var reNotes = regexp.MustCompile(`([^\s,#]*(?:\.yisp|inline)):(\d+):(\d+)(?m:$)`)

// notesIn finds the annotations at the ends of the lines of a comment.
func notesIn(comment string) (r []place) {
	for _, l := range strings.Split(comment, "\n") {
		if p, ok := note(l); ok {
			r = append(r, p)
		}
	}
	return r
}

// headComment is what is written before a collection, which the library often
// gives to what is first in it.
func headComment(n *upstream.Node) string {
	s := n.HeadComment
	if len(n.Content) > 0 {
		s += "\n" + headComment(n.Content[0])
	}
	return s
}

func ownComment(n, key *upstream.Node) string {
	if n.LineComment == "" && key != nil {
		return key.LineComment
	}
	return n.LineComment
}

// ---- types

type posType struct {
	kind  string // object, array, integer, string, boolean
	names []string
	props map[string]*posType
	req   []string
	item  *posType
	extra *posType // additionalProperties
}

func (t *posType) val() *Val {
	v := mapv("type", str(t.kind))
	switch t.kind {
	case "object":
		ps := mapv()
		for _, n := range t.names {
			ps.set(n, t.props[n].val())
		}
		v.set("properties", ps)
		if len(t.req) > 0 {
			l := list()
			for _, n := range t.req {
				l.L = append(l.L, str(n))
			}
			v.set("required", l)
		}
		if t.extra != nil {
			v.set("additionalProperties", t.extra.val())
		}
	case "array":
		v.set("items", t.item.val())
	}
	return v
}

func posTypeOf(c *C, depth int) *posType {
	if depth <= 0 {
		return &posType{kind: pick(c, []string{"integer", "string", "boolean"})}
	}
	switch c.Intn(5) {
	case 0, 1, 2:
		t := &posType{kind: "object", props: map[string]*posType{}}
		for _, n := range []string{"a", "b", "c", "spec"} {
			if c.Chance(0.6) {
				t.names = append(t.names, n)
				t.props[n] = posTypeOf(c, depth-1)
				if c.Chance(0.4) {
					t.req = append(t.req, n)
				}
			}
		}
		if c.Chance(0.3) {
			t.extra = posTypeOf(c, depth-1)
		}
		return t
	case 3:
		return &posType{kind: "array", item: posTypeOf(c, depth-1)}
	}
	return posTypeOf(c, 0)
}

// typedVal writes conforming values; culprit is where one of them was made wrong.
type typedVal struct {
	c       *C
	named   []*Y // documents that name parts of the value
	culprit *Y
	what    string
	next    int
}

func (g *typedVal) value(t *posType) *Y {
	c := g.c
	var y *Y
	switch t.kind {
	case "integer":
		y = ys(integer(int64(c.Intn(100))))
	case "string":
		y = ys(str(pick(c, words)))
	case "boolean":
		y = ys(boolean(c.Chance(0.5)))
	case "array":
		y = yseq()
		for n := c.Intn(4); n > 0; n-- {
			y.L = append(y.L, g.value(t.item))
		}
	default:
		y = ymap()
		for _, n := range t.names {
			need := false
			for _, r := range t.req {
				need = need || r == n
			}
			if need || c.Chance(0.7) {
				y.M = append(y.M, YEnt{str(n), g.value(t.props[n])})
			}
		}
		if t.extra != nil {
			for n := c.Intn(3); n > 0; n-- {
				y.M = append(y.M, YEnt{str(fmt.Sprintf("extra%d", n)), g.value(t.extra)})
			}
		}
	}
	y.Mark = 0
	g.note(y, t)
	return y
}

var markTypes map[*Y]*posType

func (g *typedVal) note(y *Y, t *posType) { markTypes[y] = t }

// spoil makes one part of the value wrong.
func (g *typedVal) spoil(root *Y, manifest bool) bool {
	c := g.c
	var nodes []*Y
	root.walk(func(y *Y) {
		if markTypes[y] != nil {
			nodes = append(nodes, y)
		}
	})
	for try := 0; try < 20; try++ {
		y := pick(c, nodes)
		t := markTypes[y]
		if y == root && (manifest || t.kind != "object") {
			continue
		}
		switch {
		case t.kind == "object" && len(t.req) > 0 && c.Chance(0.5):
			r := pick(c, t.req)
			for i, e := range y.M {
				if e.K.S == r {
					y.M = append(y.M[:i:i], y.M[i+1:]...)
					g.culprit, g.what = y, "missing"
					return true
				}
			}
		case t.kind == "object" && t.extra == nil && c.Chance(0.5):
			y.M = append(y.M, YEnt{str("unexpected"), ys(integer(1))})
			g.culprit, g.what = y, "unexpected"
			return true
		case y != root:
			var v *Y
			switch t.kind {
			case "integer":
				v = pick(c, []*Y{ys(str("text")), ys(float(1.5)), yseq(), ymap("a", ys(integer(1)))})
			case "string":
				v = pick(c, []*Y{ys(integer(3)), ys(boolean(true)), yseq(ys(integer(1)))})
			case "boolean":
				v = pick(c, []*Y{ys(str("on")), ys(integer(0))})
			default:
				v = pick(c, []*Y{ys(str("text")), ys(integer(5))})
			}
			*y = *v
			g.culprit, g.what = y, "kind of "+t.kind
			return true
		}
	}
	return false
}

// name moves some parts of the value into documents of their own.
func (g *typedVal) name(y *Y, top bool) *Y {
	for i := range y.L {
		y.L[i] = g.name(y.L[i], false)
	}
	for i := range y.M {
		y.M[i].V = g.name(y.M[i].V, false)
	}
	if !top && g.c.Chance(0.2) {
		g.next++
		y.Anchor = fmt.Sprintf("part%d", g.next)
		if len(g.named) > 0 && g.c.Chance(0.3) {
			// defined inside a document with other things
			d := g.named[len(g.named)-1]
			if d.K == ySeq && d.Anchor == "" {
				d.L = append(d.L, y)
				return yref(y.Anchor)
			}
		}
		g.named = append(g.named, yseq(ys(str("parts")), y))
		return yref(y.Anchor)
	}
	return y
}

func c20types(c *C) {
	dir := c.fresh()
	markTypes = map[*Y]*posType{}
	t := posTypeOf(c, 3)
	for t.kind != "object" {
		t = posTypeOf(c, 3)
	}
	way := pick(c, []string{"cast", "assert", "parameter", "manifest"})
	g := &typedVal{c: c}
	v := g.value(t)
	if way == "manifest" {
		for _, n := range []string{"kind", "apiVersion"} {
			t.names = append(t.names, n)
			t.props[n] = &posType{kind: "string"}
		}
		v.M = append([]YEnt{{str("apiVersion"), ys(str("v1"))}, {str("kind"), ys(str("Placed"))}}, v.M...)
	}
	if !g.spoil(v, false) {
		c.Skip()
	}
	v = g.name(v, true)
	decl := ycall("schema", yquote(t.val()))
	decl.Tag, decl.Anchor = "!yisp", "T"
	if len(decl.L[1].M) > 0 {
		decl.L[1].Tag = "!quote"
	}
	var docs []*Y
	docs = append(docs, decl)
	docs = append(docs, g.named...)
	var last *Y
	switch way {
	case "cast":
		last = v
		v.Tag = "!T"
		if c.Chance(0.5) {
			last = ymap("inner", yseq(v))
		}
	case "assert":
		v.Tag = "!quote"
		last = ycall("types.assert", yref("T"), v)
		last.Tag = "!yisp"
	case "parameter":
		p := yname("p")
		p.Tag = "!T"
		f := ycall("lambda", yseq(p), ys(integer(1)))
		f.Tag, f.Anchor = "!yisp", "f"
		docs = append(docs, f)
		v.Tag = "!quote"
		last = yseq(yref("f"), v)
		last.Tag = "!yisp"
	case "manifest":
		last = v
		if c.Chance(0.5) {
			last = ymap("inner", yseq(v))
		}
		b, _ := json.Marshal(jsonable(t.val()))
		for p, text := range map[string]string{"schemas/c20.json": string(b), "gvk/_v1_Placed.txt": "c20"} {
			p = filepath.Join(core.CacheDir, p)
			write(p, text)
			defer os.Remove(p)
		}
	}
	docs = append(docs, last)
	main := filepath.Join(dir, "main.yisp")
	for _, d := range docs {
		d.walk(func(y *Y) { y.File = main })
	}
	text := emitDocs(progEmitter(c), docs)
	c.Input(text)
	if _, err := readNodes(text); err != nil {
		c.Skip()
	}
	write(main, text)
	out, err := evalFile(c, main, opts{})
	if err == nil {
		c.Fail("no-error", "the value breaks its type (%s) but is accepted\n--- output\n%s", g.what, out)
		return
	}
	if judgeReport(c, err, map[place]bool{placeOf(g.culprit): true}, nil, map[string]string{main: text}) {
		c.Seen(fmt.Sprintf("type %s %s named %d flow %v", way, g.what, min(len(g.named), 3), strings.ContainsAny(text, "{[")))
	}
}

// ---- text that is not YAML

func c20syntax(c *C) {
	dir := c.fresh()
	var vs []*Val
	for n := 1 + c.Intn(3); n > 0; n-- {
		vs = append(vs, genVal(c, genOpt{depth: 3, width: 4}))
	}
	e := progEmitter(c)
	var ds []*Y
	for _, v := range vs {
		ds = append(ds, ydata(v))
	}
	text := emitDocs(e, ds)
	for n := 1 + c.Intn(2); n > 0 && text != ""; n-- {
		i := c.Intn(len(text))
		switch c.Intn(3) {
		case 0:
			text = text[:i] + text[i+1:]
		default:
			text = text[:i] + pick(c, []string{"[", "{", "}", "\t", "\"", "'", ":", "- ", "%", "@", "\n- x", "\n  a: b: c"}) + text[i:]
		}
	}
	_, uerr := readNodes(text)
	if uerr == nil || strings.Contains(uerr.Error(), "anchor") || strings.ContainsAny(text, "!&*") {
		c.Skip()
	}
	c.Input(text)
	name := filepath.Join(dir, "broken.yisp")
	write(name, text)
	given := name
	if c.Chance(0.5) {
		given = filepath.Join(dir, "main.yisp")
		write(given, "!yisp\n- include\n- ./broken.yisp\n")
	}
	out, err := evalFile(c, given, opts{})
	if err == nil {
		c.Fail("no-error", "text that is not YAML (%v) gives\n%s", uerr, out)
		return
	}
	if !strings.Contains(err.Error(), name) {
		c.Fail("file", "the report does not name %s: %s", name, errText(err))
		return
	}
	if m := reLine.FindString(uerr.Error()); m != "" && !strings.Contains(err.Error(), m) {
		c.Fail("line", "the report does not say %q: %s", m, errText(err))
		return
	}
	c.Count("syntax errors named", 1)
	c.Seen("syntax " + reDigits.ReplaceAllString(uerr.Error(), "N"))
}

var reLine = regexp.MustCompile(`line \d+`)
var reDigits = regexp.MustCompile(`\d+`)
