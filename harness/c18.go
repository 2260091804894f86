package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"sync"
	"unicode/utf8"

	"github.com/totegamma/yisp/engine"
)

func init() {
	register(&Prop{
		ID: "C18", Quick: 20000, Thorough: 400000, Case: c18, Setup: c18setup,
		Rule: "each case is a tree of files with hostile names that include, import, glob and read each other, served locally and over loopback http, run from a random working directory; the result is compared with a model of the tree",
		Assume: []string{
			"the order of files matched by one pattern is that of a walk in order of name",
			"files that include each other in a circle are not judged",
		},
	})
}

// wfile is a file of a world.
type wfile struct {
	id   string // absolute path, or URL without query
	idx  int
	text string
	docs []*Y   // of a program
	data []*Val // of a data file
	kind string // yisp, data, text, broken
	// what it offers to importers
	anchors map[string]string // name -> v (value), p (path), f:<kind> (function)
	mods    map[string]*wfile
	cut     bool // served incompletely
	status  int  // served with this status, or 0
}

// world is a tree of files that the model of include and import knows.
type world struct {
	c     *C
	root  string
	files map[string]*wfile
	dirs  map[string]bool
	stack []string
	seen  map[string]int
	// loaded sees what is loaded, when it is
	loaded func(f *wfile)
}

func isURL(p string) bool {
	return strings.HasPrefix(p, "http://") || strings.HasPrefix(p, "https://")
}

// asURL gives the URL of a served file. What follows a NUL is the query.
func asURL(id string) *url.URL {
	id, query, _ := strings.Cut(id, "\x00")
	scheme, rest, _ := strings.Cut(id, "://")
	host, p, _ := strings.Cut(rest, "/")
	return &url.URL{Scheme: scheme, Host: host, Path: "/" + p, RawQuery: query}
}

func (w *world) addDir(dir string) {
	for ; len(dir) >= len(w.root); dir = filepath.Dir(dir) {
		w.dirs[dir] = true
	}
}

// resolve gives the file that a path means in a file, or "".
func (w *world) resolve(p, base string) string {
	if isURL(p) || isURL(base) {
		u, err := url.Parse(p)
		if err != nil {
			bad("not a URL: %s", p)
		}
		if isURL(base) {
			u = asURL(base).ResolveReference(u)
		}
		id := u.Scheme + "://" + u.Host + u.Path
		if u.RawQuery != "" {
			id += "\x00" + u.RawQuery
		}
		return id
	}
	if l, ok := strings.CutPrefix(p, "file://"); ok {
		return path.Clean(l)
	}
	if !path.IsAbs(p) {
		p = path.Dir(base) + "/" + p
	}
	return path.Clean(p)
}

func (w *world) locate(p, base string) string {
	f := w.resolve(p, base)
	if w.dirs[f] {
		f = path.Join(f, "index.yisp")
	}
	return f
}

// kids lists what is in a directory, by name.
func (w *world) kids(dir string) (names []string, isDir map[string]bool) {
	isDir = map[string]bool{}
	for d := range w.dirs {
		if path.Dir(d) == dir && d != dir {
			names = append(names, path.Base(d))
			isDir[path.Base(d)] = true
		}
	}
	for f := range w.files {
		if !isURL(f) && path.Dir(f) == dir {
			names = append(names, path.Base(f))
		}
	}
	sort.Strings(names)
	return names, isDir
}

// braces expands the alternatives of a pattern.
func braces(p string) []string {
	depth, start := 0, -1
	var cuts []int
	for i := 0; i < len(p); i++ {
		switch p[i] {
		case '\\':
			i++
		case '{':
			if depth == 0 {
				start = i
				cuts = []int{i}
			}
			depth++
		case ',':
			if depth == 1 {
				cuts = append(cuts, i)
			}
		case '}':
			if depth == 0 {
				continue
			}
			depth--
			if depth == 0 {
				cuts = append(cuts, i)
				var r []string
				for k := 0; k+1 < len(cuts); k++ {
					r = append(r, braces(p[:start]+p[cuts[k]+1:cuts[k+1]]+p[i+1:])...)
				}
				return r
			}
		}
	}
	return []string{p}
}

// badPattern says whether brackets or braces of a pattern are not closed.
func badPattern(p string) bool {
	depth := 0
	for i := 0; i < len(p); i++ {
		switch p[i] {
		case '\\':
			if i++; i >= len(p) {
				return true
			}
		case '[':
			i++
			if i < len(p) && (p[i] == '^' || p[i] == '!') {
				i++
			}
			if i >= len(p) || p[i] == ']' {
				return true
			}
			for i < len(p) && p[i] != ']' {
				if p[i] == '\\' {
					i++
				}
				i++
			}
			if i >= len(p) {
				return true
			}
		case '{':
			depth++
		case '}':
			if depth > 0 {
				depth--
			}
		}
	}
	return depth > 0
}

// matchName matches one name of a path with a pattern without alternatives.
func matchName(p, s string) bool {
	if p == "" {
		return s == ""
	}
	switch p[0] {
	case '*':
		for i := 0; i <= len(s); i++ {
			if matchName(p[1:], s[i:]) {
				return true
			}
		}
		return false
	case '?':
		if s == "" {
			return false
		}
		_, n := utf8.DecodeRuneInString(s)
		return matchName(p[1:], s[n:])
	case '[':
		if s == "" {
			return false
		}
		r, n := utf8.DecodeRuneInString(s)
		i := 1
		neg := p[i] == '^' || p[i] == '!'
		if neg {
			i++
		}
		found := false
		for p[i] != ']' {
			lo, k := utf8.DecodeRuneInString(p[i:])
			i += k
			hi := lo
			if p[i] == '-' && p[i+1] != ']' {
				hi, k = utf8.DecodeRuneInString(p[i+1:])
				i += 1 + k
			}
			if lo <= r && r <= hi {
				found = true
			}
		}
		return found != neg && matchName(p[i+1:], s[n:])
	case '\\':
		p = p[1:]
	}
	return s != "" && p[0] == s[0] && matchName(p[1:], s[1:])
}

func (w *world) walk(dir, rel string, comps []string, filesOnly bool) (r []string) {
	names, isDir := w.kids(dir)
	last := len(comps) == 1
	switch {
	case comps[0] == "**" && last:
		if !filesOnly {
			r = append(r, path.Clean(rel+"."))
		}
		for _, n := range names {
			if isDir[n] {
				r = append(r, w.walk(dir+"/"+n, rel+n+"/", comps, filesOnly)...)
			} else {
				r = append(r, rel+n)
			}
		}
	case comps[0] == "**":
		r = append(r, w.walk(dir, rel, comps[1:], filesOnly)...)
		for _, n := range names {
			if isDir[n] {
				r = append(r, w.walk(dir+"/"+n, rel+n+"/", comps, filesOnly)...)
			}
		}
	default:
		for _, n := range names {
			if !matchName(comps[0], n) {
				continue
			}
			if last {
				if !filesOnly || !isDir[n] {
					r = append(r, rel+n)
				}
			} else if isDir[n] {
				r = append(r, w.walk(dir+"/"+n, rel+n+"/", comps[1:], filesOnly)...)
			}
		}
	}
	return r
}

func meta(p string) int {
	for i := 0; i < len(p); i++ {
		switch p[i] {
		case '*', '?', '[', '{':
			return i
		case '\\':
			i++
		}
	}
	return -1
}

// glob gives the paths that match a pattern written in base, relative like it.
func (w *world) glob(p, base string, filesOnly bool) (r []string, ok bool) {
	if isURL(base) {
		return nil, true
	}
	if badPattern(p) {
		return nil, false
	}
	if isURL(p) || strings.HasPrefix(p, "file://") {
		return nil, true
	}
	// the directories before anything that matches more than itself
	head := ""
	rest := strings.TrimPrefix(p, "./")
	m := meta(rest)
	if m < 0 {
		m = len(rest)
	}
	if i := strings.LastIndexByte(rest[:m], '/'); i >= 0 {
		head, rest = strings.NewReplacer("\\*", "*", "\\?", "?", "\\[", "[", "\\{", "{", "\\}", "}").Replace(rest[:i]), rest[i+1:]
	}
	dir := w.resolve(pickIf(head == "", ".", head), base)
	if !w.dirs[dir] || rest == "" || rest == ".." || rest == "." {
		if rest == "." && w.dirs[dir] && !filesOnly {
			return []string{path.Join(pickIf(head == "", ".", head), ".")}, true
		}
		return nil, true
	}
	alts := braces(rest)
	for _, a := range alts {
		for _, x := range w.walk(dir, "", strings.Split(a, "/"), filesOnly) {
			r = append(r, path.Join(head, x))
		}
	}
	if len(alts) > 1 {
		sort.Strings(r)
		r = slices.Compact(r)
	}
	return r, true
}

func pickIf(b bool, x, y string) string {
	if b {
		return x
	}
	return y
}

// load evaluates a file.
func (w *world) load(in *interp, id string, env *frame) *Val {
	f := w.files[id]
	if f == nil {
		f = w.files[strings.SplitN(id, "\x00", 2)[0]]
	}
	if f == nil {
		bad("there is no file %s", id)
	}
	w.seen[f.kind+" loaded"]++
	if w.loaded != nil {
		w.loaded(f)
	}
	if f.cut {
		bad("incomplete file %s", id)
	}
	switch f.kind {
	case "broken":
		bad("broken file %s", id)
	case "text":
		return &Val{K: vStr, S: f.text, From: id}
	case "data":
		if len(f.data) == 1 {
			return from(f.data[0], id)
		}
		r := &Val{K: vList, Doc: true}
		for _, d := range f.data {
			if d.K != vNull {
				r.L = append(r.L, from(d, id))
			}
		}
		return r
	}
	if slices.Contains(w.stack, f.id) {
		unspec("circle of files")
	}
	if len(w.stack) > 12 {
		unspec("deep nesting of files")
	}
	w.stack = append(w.stack, f.id)
	if len(w.stack) > w.seen["depth"] {
		w.seen["depth"] = len(w.stack)
	}
	defer func() { w.stack = w.stack[:len(w.stack)-1] }()
	r := &Val{K: vList, Doc: true}
	for _, d := range f.docs {
		v := in.eval(d, env, quoting)
		switch {
		case v.K == vNull:
		case v.K == vList && v.Doc:
			r.L = append(r.L, v.L...)
		default:
			r.L = append(r.L, v)
		}
	}
	return r
}

func from(v *Val, id string) *Val {
	v = v.clone()
	var set func(v *Val)
	set = func(v *Val) {
		v.From = id
		for _, x := range v.L {
			set(x)
		}
		for _, e := range v.M {
			set(e.V)
		}
	}
	set(v)
	return v
}

// located marks where a value that was computed comes from.
func located(v *Val, file string) *Val {
	if v.From != "" {
		return v
	}
	n := *v
	n.From = file
	n.L = nil
	for _, x := range v.L {
		n.L = append(n.L, located(x, file))
	}
	n.M = nil
	for _, e := range v.M {
		n.M = append(n.M, Ent{e.K, located(e.V, file)})
	}
	return &n
}

// pathForm says how a path is written.
func pathForm(p string) string {
	switch {
	case isURL(p):
		return "url"
	case path.IsAbs(p):
		return "absolute"
	case strings.HasPrefix(p, "file://"):
		return "file url"
	case strings.ContainsAny(p, "*?[{"):
		return "special"
	case strings.Contains(p, ".."):
		return "up"
	}
	return "down"
}

// op evaluates the operators that depend on files.
func (w *world) op(in *interp, name string, args []*Val) (*Val, bool) {
	switch name {
	case "include":
		r := &Val{K: vList, Doc: true}
		for _, a := range args {
			if a.K != vStr {
				bad("path is no string")
			}
			paths, ok := w.glob(a.S, a.From, false)
			if !ok || len(paths) == 0 {
				paths = []string{a.S}
			} else {
				w.seen["patterns matched"]++
			}
			done := map[string]bool{}
			for _, p := range paths {
				id := w.locate(p, a.From)
				if id == a.From {
					w.seen["self skipped"]++
					continue
				}
				if done[id] {
					w.seen["repeats skipped"]++
					continue
				}
				done[id] = true
				w.c.Seen("include " + path.Ext(id) + " " + pathForm(a.S) + pickIf(isURL(id), " remote", "") + pickIf(path.Dir(id) == path.Dir(a.From), " beside", " elsewhere") + pickIf(len(paths) > 1, " of several", "") + fmt.Sprint(" depth ", min(len(w.stack), 4)))
				v := w.load(in, id, newFrame())
				if v.K == vList {
					r.L = append(r.L, v.L...)
				} else {
					r.L = append(r.L, v)
				}
			}
		}
		return r, true
	case "files.glob":
		if len(args) == 0 {
			bad("glob needs a pattern")
		}
		r := &Val{K: vList, From: args[0].From}
		for _, a := range args {
			if a.K != vStr {
				bad("path is no string")
			}
			if isURL(a.From) {
				unspec("globbing remote files")
			}
			paths, ok := w.glob(a.S, a.From, true)
			if !ok {
				bad("not a pattern: %s", a.S)
			}
			for _, p := range paths {
				id := w.resolve(p, a.From)
				if id == a.From {
					continue
				}
				w.seen["globbed"]++
				m := mapv("path", &Val{K: vStr, S: p, From: a.From}, "name", &Val{K: vStr, S: path.Base(p), From: id}, "body", &Val{K: vStr, S: w.files[id].text, From: id})
				m.From = id
				r.L = append(r.L, m)
			}
		}
		return r, true
	case "files.read":
		if len(args) != 1 || args[0].K != vStr {
			bad("read needs a path")
		}
		if isURL(args[0].From) || isURL(args[0].S) {
			unspec("reading remote files")
		}
		id := w.resolve(args[0].S, args[0].From)
		f := w.files[id]
		if f == nil {
			bad("there is no file %s", id)
		}
		w.seen["read"]++
		w.c.Seen("read " + path.Ext(id) + " " + pathForm(args[0].S) + fmt.Sprint(" depth ", min(len(w.stack), 4)))
		return &Val{K: vStr, S: f.text, From: id}, true
	}
	return nil, false
}

func (w *world) imports(in *interp, y *Y, env *frame) *Val {
	for _, t := range y.L[1:] {
		if t.K != ySeq || len(t.L) != 2 || t.L[0].K != yScalar || t.L[1].K != yScalar {
			bad("import needs pairs of name and path")
		}
		if t.L[0].V.K != vStr || t.L[1].V.K != vStr {
			unspec("name or path that is no string")
		}
		fr := newFrame()
		w.load(in, w.locate(t.L[1].V.S, t.File), fr)
		w.seen["imported"]++
		w.c.Seen("import " + pathForm(t.L[1].V.S) + fmt.Sprint(" depth ", min(len(w.stack), 4)))
		m := mapv()
		for n, v := range fr.vars {
			m.set(n, v)
		}
		env.root().vars[t.L[0].V.S] = m
	}
	return null()
}

// ---- the worlds

type wgen struct {
	c      *C
	w      *world
	list   []*wfile // every file, in order of idx
	remote string   // URL of the served tree, or ""
	n      int
}

var (
	hostileDirs  = []string{"d", "lib", "b c", "é", "x[1]", "{p,q}", "a?b", "#h", ".hid", "日本", "UPPER", "s*", "100%", "p", "q", "x1", "a&b", "it's", "[ab]"}
	hostileNames = []string{"a", "b", "lib", "b c", "é", "x[1]", "x1", "p", "q", "{p,q}", "a?b", "aXb", "#h", ".hid", "日本", "100%", "%41", "a&b", "a+b", "it's", "index", "index", "*", "a*", "n\nl", "tab\t", "~", "a:b", "-x", "null", "[a", "b]"}
	tameNames    = []string{"a", "b", "lib", "b c", "é", "q#1", "100%", "what?", "a&b", "a+b", "index", "x;y", "it's"}
	extensions   = []string{".yisp", ".yisp", ".yisp", ".yisp", ".yisp", ".yaml", ".yaml", ".yml", ".json", ".json", ".txt", "", ".YAML", ".yaml.bak"}
)

// spell writes a path to a file as it may be written in another.
func (g *wgen) spell(to *wfile, base string, plain bool) string {
	c := g.c
	if isURL(to.id) {
		p := to.id[len(g.remote):]
		esc := func(p string) string {
			var r []string
			for _, s := range strings.Split(p, "/") {
				switch {
				case c.Chance(0.3) && !strings.ContainsAny(s, "#?%"):
					r = append(r, s)
				default:
					r = append(r, url.PathEscape(s))
				}
			}
			return strings.Join(r, "/")
		}
		q := ""
		if c.Chance(0.15) {
			q = pick(c, []string{"?v=1", "?x=a/b.txt", "?", "#frag"})
			if path.Ext(to.id) == ".yisp" {
				q = "#frag" // another query names another file
			}
		}
		if isURL(base) && c.Chance(0.7) {
			if c.Chance(0.2) { // from the root of the server
				hu, _ := url.Parse(g.remote)
				return hu.Path + esc(p) + q
			}
			rel, err := filepath.Rel(path.Dir(base[len(g.remote):]), p)
			if err != nil {
				panic(err)
			}
			if c.Chance(0.2) {
				rel = "./" + rel
			}
			r := esc(rel) + q
			if i := strings.IndexByte(strings.SplitN(r, "/", 2)[0], ':'); i >= 0 {
				r = "./" + r
			}
			return r
		}
		return g.remote + esc(p) + q
	}
	target := to.id
	if path.Base(target) == "index.yisp" && !plain && c.Chance(0.5) {
		target = path.Dir(target)
	}
	if isURL(base) {
		panic("local file in remote file")
	}
	rel, err := filepath.Rel(path.Dir(base), target)
	if err != nil {
		panic(err)
	}
	switch c.Intn(12) {
	case 0:
		rel = target
	case 1:
		rel = "./" + rel
	case 2:
		if sub := pick(c, sortedDirs(g.w)); path.Dir(sub) == path.Dir(base) {
			rel = path.Base(sub) + "/../" + rel
		}
	case 3:
		rel = "../" + path.Base(path.Dir(base)) + "/" + rel
		if path.Dir(base) == g.w.root && c.Chance(0.5) {
			rel = "./" + rel
		}
	case 4:
		if !plain && c.Chance(0.4) {
			rel = "file://" + target
		}
	}
	if !plain && !strings.HasPrefix(rel, "file://") && !strings.Contains(rel, "\\") && c.Chance(0.5) {
		// so that what is special in patterns means itself
		rel = strings.NewReplacer("*", "\\*", "?", "\\?", "[", "\\[", "{", "\\{", "}", "\\}").Replace(rel)
	}
	return rel
}

func sortedDirs(w *world) []string {
	var r []string
	for d := range w.dirs {
		r = append(r, d)
	}
	sort.Strings(r)
	return r
}

// pattern writes a pattern that matches at least the given file.
func (g *wgen) pattern(to *wfile, base string) string {
	c := g.c
	rel, err := filepath.Rel(path.Dir(base), to.id)
	if err != nil {
		panic(err)
	}
	comps := strings.Split(rel, "/")
	last := len(comps) - 1
	ext := path.Ext(comps[last])
	if strings.ContainsAny(ext, "*?[]{}\\") {
		ext = ""
	}
	for i := range comps {
		s := comps[i]
		if i == last {
			switch c.Intn(5) {
			case 0, 1:
				s = "*" + ext
			case 2:
				s = "*"
			case 3:
				if ext != "" {
					s = "*" + pick(c, []string{"{" + ext + ",.nosuch}", "{.nosuch," + ext + "}", "{.json," + ext + "}"})
				}
			default:
				if r, n := utf8.DecodeRuneInString(s); n < len(s) && !strings.ContainsRune("*?[]{}\\-^!", r) {
					s = pick(c, []string{"?" + "*", "[" + string(r) + "]*" + ext, "[!0-9]*" + ext})
				}
			}
		} else if s != ".." && s != "." && c.Chance(0.3) {
			s = "*"
		}
		comps[i] = s
	}
	if c.Chance(0.2) {
		i := 0
		for i < len(comps) && comps[i] == ".." {
			i++
		}
		if c.Chance(0.2) {
			comps = append(comps[:i:i], "**")
		} else {
			comps = append(comps[:i:i], "**", comps[last])
		}
	}
	p := strings.Join(comps, "/")
	if c.Chance(0.1) {
		p = "./" + p
	} else if c.Chance(0.1) {
		if strings.HasPrefix(p, "../") {
			p = path.Dir(path.Dir(base)) + p[2:]
		} else {
			p = path.Dir(base) + "/" + p
		}
	}
	return p
}

// path chooses some path or pattern to write in a file.
func (g *wgen) path(f *wfile) string {
	c := g.c
	if c.Chance(0.006) {
		return pick(c, []string{"nosuch.yaml", "nosuch/a.yisp", "../nosuch.yisp", "*.nosuch", "nosuch/*.yaml", "[a.yaml", "{a", "a.yaml/b"})
	}
	if c.Chance(0.06) && !isURL(f.id) { // itself
		return pick(c, []string{path.Base(f.id), f.id, "./" + path.Base(f.id), "*" + path.Ext(f.id)})
	}
	if c.Chance(0.04) && !isURL(f.id) { // a directory and the index in it
		for _, x := range g.list[f.idx+1:] {
			if path.Base(x.id) == "index.yisp" && !isURL(x.id) {
				if rel, err := filepath.Rel(path.Dir(f.id), path.Dir(x.id)); err == nil && !strings.ContainsAny(rel, "*?[]{}\\,") && rel != "." && path.Base(rel) != ".." {
					dir, base := path.Split(rel)
					return dir + pick(c, []string{"{" + base + "," + base + "/index.yisp}", "{" + base + "/*.yisp," + base + "}"})
				}
			}
		}
	}
	to := g.target(f)
	if to == nil {
		to = f // which is skipped
	}
	if !isURL(f.id) && !isURL(to.id) && c.Chance(0.3) {
		return g.pattern(to, f.id)
	}
	return g.spell(to, f.id, false)
}

// target chooses a file that may be used in f.
func (g *wgen) target(f *wfile) *wfile {
	var cand []*wfile
	for _, x := range g.list[f.idx+1:] {
		if isURL(f.id) && !isURL(x.id) {
			continue
		}
		cand = append(cand, x)
	}
	if len(cand) == 0 {
		return nil
	}
	if g.c.Chance(0.4) { // something near
		var near []*wfile
		for _, x := range cand {
			if x.kind == "yisp" {
				near = append(near, x)
			}
		}
		if len(near) > 0 {
			return near[0]
		}
	}
	return pick(g.c, cand)
}

func (g *wgen) mark(f *wfile) *Val {
	g.n++
	return str(fmt.Sprintf("%s#%d", strings.TrimPrefix(f.id, g.w.root), g.n))
}

func (g *wgen) local(f *wfile) *wfile {
	for range 10 {
		if t := g.target(f); t != nil && !isURL(t.id) {
			return t
		}
	}
	return nil
}

// doc makes a document of a program.
func (g *wgen) doc(f *wfile) (r []*Y) {
	c := g.c
	remote := isURL(f.id)
	p := func() *Y { return ys(str(g.path(f))) }
	read := func() *Y {
		t := g.local(f)
		if c.Chance(0.01) {
			return ys(str(pick(c, []string{"nosuch.txt", ".", ""})))
		}
		if t == nil {
			t = f
		}
		return ys(str(g.spell(t, f.id, true)))
	}
	pathOrRef := func() *Y {
		if f.anchors["p"] != "" && c.Chance(0.4) {
			return yref("p")
		}
		for _, m := range []string{"m", "m2"} {
			if t := f.mods[m]; t != nil && t.anchors["p"] != "" && c.Chance(0.6) {
				return yref(m + ".p")
			}
		}
		return p()
	}
	switch c.Intn(17) {
	default:
		y := ymap("mark", ys(g.mark(f)), "x", yquote(genVal(c, genOpt{depth: 1, plain: true})))
		if c.Chance(0.5) {
			y.anchor("v")
			f.anchors["v"] = "v"
		}
		return append(r, y)
	case 1, 2:
		y := ycall("include", pathOrRef())
		for c.Chance(0.2) {
			y.L = append(y.L, pathOrRef())
		}
		return append(r, y.tag("!yisp"))
	case 3:
		return append(r, ymap("got", ycall("include", pathOrRef()).tag("!yisp"), "mark", ys(g.mark(f))))
	case 4, 5, 6: // a library
		var libs []*wfile
		for _, x := range g.list[f.idx+1:] {
			if x.kind == "yisp" && (!remote || isURL(x.id)) && len(x.anchors) > 0 {
				libs = append(libs, x)
			}
		}
		if len(libs) == 0 {
			return nil
		}
		lib := pick(c, libs)
		m := pick(c, []string{"m", "m", "m2"})
		r = append(r, ycall("import", yseq(yname(m), ys(str(g.spell(lib, f.id, true))))).tag("!yisp"))
		f.mods[m] = lib
		return append(r, g.use(f, m, lib)...)
	case 7: // what is bound elsewhere
		y := ymap("mark", ys(g.mark(f)))
		for _, n := range []string{"v", "p", "f", "m", "m2"} {
			if f.mods[n] != nil || strings.HasPrefix(f.anchors[n], "f") {
				continue
			}
			if c.Chance(0.5) {
				y.M = append(y.M, YEnt{str("opt " + n), yref(n + "?")})
			}
		}
		if f.mods["m"] != nil && f.mods["m"].anchors["v"] == "" {
			y.M = append(y.M, YEnt{str("opt m.v"), yref("m.v?")})
		}
		return append(r, y)
	case 8:
		f.anchors["p"] = "p"
		return append(r, ys(str(g.path(f))).anchor("p"))
	case 9, 10: // a function
		kind := pick(c, []string{"include", "include arg", "read", "read arg", "computed", "glob arg", "value"})
		if remote && (strings.HasPrefix(kind, "read") || strings.HasPrefix(kind, "glob")) {
			kind = "include arg"
		}
		var body *Y
		switch kind {
		case "include":
			body = ycall("include", p())
		case "include arg":
			body = ycall("include", yref("x"))
		case "read":
			body = ycall("files.read", read())
		case "read arg":
			body = ycall("files.read", yref("x"))
		case "computed":
			ext := pick(c, []string{".yaml", ".yisp", "", ".json", ".txt"})
			body = ycall("include", ycall("strings.concat", yref("x"), ys(str(ext))))
			kind += ext
		case "glob arg":
			body = ycall("files.glob", yref("x"))
		case "value":
			body = ymap("arg", yref("x"), "v", yref("v?"))
		}
		f.anchors["f"] = "f:" + kind
		r = append(r, ycall("lambda", yseq(yname("x")), body).tag("!yisp").anchor("f"))
		if c.Chance(0.3) {
			r = append(r, g.use(f, "", f)...)
		}
		return r
	case 11:
		if remote {
			return nil
		}
		return append(r, ymap("text", ycall("files.read", read()).tag("!yisp"), "mark", ys(g.mark(f))))
	case 12:
		if remote {
			return nil
		}
		t := g.local(f)
		if t == nil {
			return nil
		}
		pat := ys(str(g.pattern(t, f.id)))
		if c.Chance(0.1) {
			pat = p()
		}
		if isURL(pat.V.S) {
			return nil
		}
		switch c.Intn(3) {
		case 0:
			return append(r, ymap("files", ycall("files.glob", pat).tag("!yisp")))
		case 1:
			fn := ycall("lambda", yseq(yname("i")), ycall("files.read", yref("i."+pick(c, []string{"path", "path", "name"}))))
			return append(r, ymap("read", ycall("lists.map", ycall("files.glob", pat), fn).tag("!yisp")))
		default:
			fn := ycall("lambda", yseq(yname("i")), ymap("n", yref("i.name"), "p", yref("i.path"), "b", yref("i.body")))
			return append(r, ycall("lists.as-toplevel", ycall("lists.map", ycall("files.glob", pat), fn)).tag("!yisp"))
		}
	case 13: // paths in data
		var lists []*wfile
		for _, x := range g.list[f.idx+1:] {
			if x.anchors["paths"] != "" && (!remote || isURL(x.id)) {
				lists = append(lists, x)
			}
		}
		if len(lists) == 0 {
			return nil
		}
		x := pick(c, lists)
		op := "include"
		if !isURL(x.id) && c.Chance(0.5) {
			op = "files.read"
		}
		var fn *Y = ycall("lambda", yseq(yname("i")), ycall(op, yref("i")))
		if c.Chance(0.3) {
			fn = yname(op)
		}
		return append(r, ymap("each", ycall("lists.map", ycall("include", ys(str(g.spell(x, f.id, false)))), fn).tag("!yisp")))
	case 14: // not evaluated
		y := ycall("if", ys(boolean(false)), ycall("include", ys(str("nosuch.yisp"))), ys(g.mark(f)))
		return append(r, ymap("r", y.tag("!yisp"), "quoted", yseq(yname("include"), ys(str("nosuch.yisp")))))
	case 15:
		s := g.path(f)
		pre := ""
		if !path.IsAbs(s) && !isURL(s) && !strings.HasPrefix(s, "file://") {
			pre = pick(c, []string{"", "./"})
		}
		return append(r, ycall("include", ycall("strings.concat", ys(str(pre)), ys(str(s)))).tag("!yisp"))
	}
}

// use makes documents that use what a library offers.
func (g *wgen) use(f *wfile, m string, lib *wfile) (r []*Y) {
	c := g.c
	pre := ""
	if m != "" {
		pre = m + "."
	}
	if lib.anchors["v"] != "" && c.Chance(0.6) {
		r = append(r, ymap("lib", yref(pre+"v"), "mark", ys(g.mark(f))))
	}
	if lib.anchors["p"] != "" && c.Chance(0.6) {
		r = append(r, ymap("got", ycall("include", yref(pre+"p")).tag("!yisp")))
	}
	if k := lib.anchors["f"]; k != "" {
		var arg *Y
		k, ext, computed := strings.Cut(k, ".")
		if computed {
			ext = "." + ext
		}
		switch k {
		case "f:include arg":
			arg = ys(str(g.path(f)))
		case "f:read arg":
			if t := g.local(f); t != nil && !isURL(f.id) {
				arg = ys(str(g.spell(t, f.id, true)))
			}
		case "f:glob arg":
			if t := g.local(f); t != nil && !isURL(f.id) {
				arg = ys(str(g.pattern(t, f.id)))
			}
		case "f:computed": // found from where the library is
			for range 8 {
				t := g.target(lib)
				if t == nil || isURL(t.id) != isURL(lib.id) {
					continue
				}
				if s, ok := strings.CutSuffix(g.spell(t, lib.id, false), ext); ok {
					arg = ys(str(s))
					break
				}
			}
		default:
			arg = ys(g.mark(f))
		}
		if arg != nil {
			y := yseq(yref(pre+"f"), arg)
			if c.Chance(0.3) {
				r = append(r, y.tag("!yisp"))
			} else {
				r = append(r, ymap("call", y.tag("!yisp"), "mark", ys(g.mark(f))))
			}
		}
	}
	for n := range lib.mods {
		if lib.mods[n].anchors["v"] != "" && c.Chance(0.4) {
			r = append(r, ymap("deep", yref(pre+n+".v")))
			break
		}
	}
	return r
}

func (g *wgen) fill(f *wfile) {
	c := g.c
	ext := path.Ext(f.id)
	f.anchors = map[string]string{}
	f.mods = map[string]*wfile{}
	if c.Chance(0.008) {
		f.cut = isURL(f.id) && c.Chance(0.5)
		if f.cut && c.Chance(0.4) {
			f.status = pick(c, []int{206, 300, 403, 404, 410, 500, 503})
		}
		if !f.cut && slices.Contains([]string{".yisp", ".yaml", ".yml", ".json"}, ext) {
			f.kind = "broken"
			f.text = pick(c, []string{"a: [\n", "{", "\"abc", "a: b: c\n", "- *nosuch\n- [\n", "]"})
			if ext == ".yaml" || ext == ".yml" {
				f.text = pick(c, []string{"a: [\n", "\"abc", "a: b: c\n", "", "# nothing\n", "a: *nosuch\n"})
			}
			if ext == ".json" {
				f.text = pick(c, []string{"", "{", "[1,]", "nul", "{'a': 1}", "{\"a\": 1} x", "{\"a\": 1} {\"b\": 2}"})
			}
			return
		}
	}
	switch ext {
	case ".yisp":
		f.kind = "yisp"
		for n := c.Intn(5) + pickInt(f.idx == 0, 2, 0); n >= 0; n-- {
			f.docs = append(f.docs, g.doc(f)...)
		}
		for _, d := range f.docs {
			d.walk(func(y *Y) { y.File = f.id })
		}
		e := newEmitter(c.R)
		e.tame = c.Chance(0.3)
		e.comments = c.Chance(0.2)
		f.text = emitDocs(e, f.docs)
	case ".yaml", ".yml":
		f.kind = "data"
		var ds []*Y
		for n := 1 + c.Intn(3)*c.Intn(2); n > 0; n-- {
			v, y := g.data(f)
			f.data = append(f.data, v)
			ds = append(ds, y)
		}
		e := newEmitter(c.R)
		e.tame = true
		f.text = emitDocs(e, ds)
	case ".json":
		f.kind = "data"
		v, _ := g.data(f)
		b, _ := json.Marshal(jsonable(v))
		f.text = string(b)
		dec := json.NewDecoder(bytes.NewReader(b))
		dec.UseNumber()
		v, err := jsonVal(dec)
		if err != nil {
			panic(err)
		}
		f.data = []*Val{v}
		if c.Chance(0.3) {
			f.text += "\n"
		}
	default:
		f.kind = "text"
		f.text = g.mark(f).S + pick(c, []string{"", "\n", "\nmore: [\n", " \ttext  \n\n", "!yisp [+, 1, 2]\n", "é\n日本\n"})
	}
}

func pickInt(b bool, x, y int) int {
	if b {
		return x
	}
	return y
}

// data makes the content of a data file.
func (g *wgen) data(f *wfile) (*Val, *Y) {
	c := g.c
	if c.Chance(0.25) { // a list of paths
		v := list()
		for n := 1 + c.Intn(3); n > 0; n-- {
			if t := g.target(f); t != nil && isURL(t.id) == isURL(f.id) {
				v.L = append(v.L, str(g.spell(t, f.id, true)))
			}
		}
		if len(v.L) > 0 {
			f.anchors["paths"] = "p"
			return v, ydata(v)
		}
	}
	m := mapv("mark", g.mark(f))
	y := ymap("mark", ys(m.M[0].V))
	v := sortedKeys(cleanKeys(genVal(c, genOpt{depth: 2, plain: true})))
	m.set("x", v)
	y.M = append(y.M, YEnt{str("x"), ydata(v)})
	if c.Chance(0.3) && path.Ext(f.id) != ".json" { // only data, whatever it looks like
		m.set("run", list(str("+"), integer(1), integer(2)))
		y.M = append(y.M, YEnt{str("run"), ydata(m.get("run")).tag("!yisp")})
	}
	s := sortedKeys(m)
	if c.Chance(0.2) {
		return list(s, str("second")), yseq(y, yname("second"))
	}
	if c.Chance(0.08) {
		return null(), ys(null())
	}
	return s, y
}

type c18state struct {
	mu   sync.Mutex
	tree map[string]*wfile
	srv  *httptest.Server
	hits int
}

func c18setup(w *W) {
	s := &c18state{tree: map[string]*wfile{}}
	s.srv = httptest.NewServer(http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		s.mu.Lock()
		f := s.tree[r.URL.Path]
		s.hits++
		s.mu.Unlock()
		if f == nil {
			rw.WriteHeader(404)
			rw.Write([]byte("mark: not found\n"))
			return
		}
		switch {
		case f.status != 0:
			rw.WriteHeader(f.status)
		case f.cut:
			rw.Header().Set("Content-Length", fmt.Sprint(len(f.text)+10))
		}
		rw.Write([]byte(f.text))
	}))
	w.Data = s
}

// makeWorld makes a tree of files below a directory.
func makeWorld(c *C, root string, served string) *wgen {
	w := &world{c: c, root: root, files: map[string]*wfile{}, dirs: map[string]bool{}, seen: map[string]int{}}
	g := &wgen{c: c, w: w, remote: served}
	w.addDir(root)
	dirs := []string{root}
	for n := c.Intn(5); n > 0; n-- {
		d := pick(c, dirs) + "/" + pick(c, hostileDirs)
		if len(d)-len(root) > 60 {
			continue
		}
		dirs = append(dirs, d)
		w.addDir(d)
	}
	main := &wfile{id: pick(c, dirs) + "/" + pick(c, hostileNames) + ".yisp"}
	w.files[main.id] = main
	g.list = append(g.list, main)
	for n := 3 + c.Intn(9); n > 0; n-- {
		var id string
		if served != "" && c.Chance(0.5) {
			id = served + pick(c, []string{"/", "/", "/d/", "/b c/", "/d/e/", "/é/"}) + pick(c, tameNames) + pick(c, extensions)
		} else {
			id = pick(c, dirs) + "/" + pick(c, hostileNames) + pick(c, extensions)
		}
		if w.files[id] != nil || w.dirs[id] {
			continue
		}
		f := &wfile{id: id, idx: len(g.list)}
		w.files[id] = f
		g.list = append(g.list, f)
	}
	if served != "" { // what is served comes last, as it can name nothing else
		sort.SliceStable(g.list[1:], func(i, j int) bool { return !isURL(g.list[1+i].id) && isURL(g.list[1+j].id) })
		for i, f := range g.list {
			f.idx = i
		}
	}
	for i := len(g.list) - 1; i >= 0; i-- {
		g.fill(g.list[i])
	}
	for _, d := range sortedDirs(w) {
		if err := os.MkdirAll(d, 0755); err != nil {
			panic(err)
		}
	}
	for _, f := range g.list {
		if !isURL(f.id) {
			write(f.id, f.text)
		}
	}
	return g
}

func c18(c *C) {
	s := c.Data.(*c18state)
	dir, err := filepath.EvalSymlinks(c.fresh())
	if err != nil {
		panic(err)
	}
	root := filepath.Join(dir, "w")
	served := ""
	if c.Chance(0.3) {
		served = s.srv.URL + fmt.Sprintf("/%d", c.Idx)
	}
	g := makeWorld(c, root, served)
	w := g.w
	tree := map[string]*wfile{}
	for id, f := range w.files {
		if isURL(id) {
			tree[strings.TrimPrefix(id, s.srv.URL)] = f
		}
	}
	s.mu.Lock()
	s.tree = tree
	s.mu.Unlock()

	// where the program runs, with files that nobody means
	cwd := filepath.Join(dir, "cwd")
	os.MkdirAll(cwd, 0755)
	for _, f := range g.list {
		if c.Chance(0.6) && !isURL(f.id) {
			p := filepath.Join(cwd, path.Base(f.id))
			os.WriteFile(p, []byte("decoy: "+"true\n"), 0644)
		}
	}
	if c.Chance(0.4) {
		cwd = pick(c, sortedDirs(w))
	}

	main := g.list[0]
	if c.Chance(0.15) {
		main = pick(c, g.list)
	}
	if main.kind == "data" && len(main.data) == 1 && main.data[0].K == vNull {
		c.Skip()
	}
	var show strings.Builder
	for _, f := range g.list {
		fmt.Fprintf(&show, "\n== %s\n%s", f.id, f.text)
	}

	in := newInterp()
	in.world = w
	o := in.runFile(main.id)
	for k, n := range w.seen {
		if k != "depth" {
			c.Count(k, n)
		}
	}
	if o.err != "" {
		why := o.err
		for _, known := range []string{"there is no file", "broken file", "incomplete file", "not a pattern", "undefined name", "not a URL"} {
			if strings.HasPrefix(why, known) {
				why = known
			}
		}
		if why == "there is no file" && strings.HasSuffix(o.err, "index.yisp") {
			why = "there is no index"
		}
		c.Count("must fail: "+why, 1)
	}
	for k := range w.seen {
		c.Seen("happened " + k)
	}
	c.Seen(fmt.Sprintf("depth %d", w.seen["depth"]))

	arg := main.id
	how := "absolute"
	if isURL(main.id) {
		arg = asURL(main.id).String()
		how = "url"
	} else {
		rel, err := filepath.Rel(cwd, main.id)
		if err != nil {
			panic(err)
		}
		switch c.Intn(5) {
		case 0, 1:
			arg, how = rel, "relative"
		case 2:
			arg, how = "./"+rel, "dotted"
		case 3:
			if path.Base(main.id) == "index.yisp" {
				arg, how = filepath.Dir(rel), "directory"
			}
		}
	}
	run := "file"
	switch {
	case c.Chance(0.05):
		run = "command"
	case main.kind == "yisp" && !isURL(main.id) && how != "directory" && c.Chance(0.3):
		run = "reader"
	case main.kind == "yisp" && c.Chance(0.1):
		run = "any"
	}
	c.Input(fmt.Sprintf("in %s: %s %s%s", cwd, run, arg, show.String()))
	c.Seen(how + " " + run)

	old, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	if err := os.Chdir(cwd); err != nil {
		panic(err)
	}
	defer os.Chdir(old)
	switch run {
	case "file":
		agreeFile(c, o, arg, opts{})
	case "reader":
		agreeOn(c, o, func() (string, error) {
			return guard(c, func() (string, error) {
				return engine.NewEngine(opts{}).EvaluateReaderToYaml(strings.NewReader(main.text), arg)
			})
		})
	case "command":
		agreeOn(c, o, func() (string, error) {
			r := runCLI(c, []string{"build", "--", arg}, "", filepath.Join(dir, "home"), cwd)
			if r.code != 0 {
				return "", fmt.Errorf("%s", r.stderr)
			}
			return r.stdout, nil
		})
	case "any":
		if o.unspec != "" {
			c.Skip()
		}
		agreeNative(c, o, arg, opts{})
	}
}

// runFile evaluates a file of a world.
func (in *interp) runFile(id string) (o outcome) {
	defer func() {
		switch r := recover().(type) {
		case nil:
		case misuse:
			o = outcome{err: string(r), fault: in.fault}
		case unspecified:
			o = outcome{unspec: string(r)}
		default:
			panic(r)
		}
	}()
	v := in.world.load(in, id, newFrame())
	ds := []*Val{v}
	if v.K == vList && v.Doc {
		ds = v.L
	}
	for _, x := range ds {
		if x := visible(x); x != nil {
			o.docs = append(o.docs, x)
		}
	}
	return o
}
