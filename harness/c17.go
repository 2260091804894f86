package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"github.com/totegamma/yisp/core"
	"github.com/totegamma/yisp/engine"
)

func init() {
	register(&Prop{
		ID: "C17", Quick: 60000, Thorough: 3000000, Case: c17, Setup: setupCache, Timeout: 20 * time.Second,
		Rule:   "distinct outcomes (first line of the error message with names and numbers blanked out, or the kinds of documents that came out, per way of running) of hostile programs, schemas, manifests, files and bytes; a panic, fatal error, stack overflow or hang of the process is a violation",
		Assume: []string{"Programs that recurse without bound or ask for values too large for memory are not generated."},
	})
}

var specialForms = []string{"if", "lambda", "import", "include", "schema", "progn", "pipeline", "quote", "map", "yisp"}
var otherOps = []string{"maps.patch", "k8s.patch", "types.assert", "types.get", "types.of", "yaml.marshal", "yaml.unmarshal", "files.glob", "files.read", "exec.cmd", "exec.go", "lists.", ".", "..", "lists.map.x", ""}

type wildGen struct {
	c     *C
	names []string
	ops   []string
}

func newWildGen(c *C) *wildGen {
	g := &wildGen{c: c}
	for n := range opModels {
		g.ops = append(g.ops, n)
	}
	g.ops = append(g.ops, specialForms...)
	g.ops = append(g.ops, otherOps...)
	sortStrings(g.ops)
	return g
}

func (g *wildGen) name() string {
	c := g.c
	n := pick(c, []string{"a", "b", "x", "f", "T", "foo", "int", "string", "null", "bool", "float"})
	for c.Chance(0.2) {
		n += "." + pick(c, []string{"a", "b", "0", "name", "spec", "x"})
	}
	if c.Chance(0.15) {
		n += pick(c, []string{"?", ".", "..a", "?.a", "??"})
	}
	return n
}

var schemaWords = []string{"type", "properties", "required", "items", "default", "oneOf", "additionalProperties", "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "multipleOf", "minLength", "maxLength", "$ref", "$id", "description", "pattern", "enum", "format", "arguments", "returns", "patchStrategy", "patchMergeKey", "x-kubernetes-patch-strategy", "x-kubernetes-patch-merge-key", "x-kubernetes-int-or-string", "x-kubernetes-preserve-unknown-fields", "x-kubernetes-group-version-kind"}
var typeWords = []string{"object", "array", "string", "integer", "int", "float", "number", "bool", "boolean", "null", "any", "function", "", "nosuch"}

// wildSchema makes something that may be a schema.
func (g *wildGen) wildSchema(depth int) *Val {
	c := g.c
	v := mapv()
	for n := c.Intn(5); n > 0; n-- {
		k := pick(c, schemaWords)
		var x *Val
		switch {
		case c.Chance(0.2):
			x = genVal(c, genOpt{depth: 2})
		case k == "type":
			x = str(pick(c, typeWords))
		case k == "properties":
			x = mapv()
			for i := c.Intn(3); i > 0 && depth > 0; i-- {
				x.set(pick(c, words[:5]), g.wildSchema(depth-1))
			}
		case k == "items" || k == "additionalProperties" || k == "returns":
			x = pick(c, []*Val{boolean(true), boolean(false), null()})
			if depth > 0 && c.Chance(0.8) {
				x = g.wildSchema(depth - 1)
			}
		case k == "oneOf" || k == "arguments":
			x = list()
			for i := c.Intn(3); i > 0 && depth > 0; i-- {
				x.L = append(x.L, g.wildSchema(depth-1))
			}
		case k == "required":
			x = list(str("a"), str(pick(c, words)))
		case k == "$ref":
			x = str(pick(c, []string{"#/definitions/" + g.schemaID(), g.schemaID(), "#", "", "/", "#/definitions/nosuch", "http://127.0.0.1:1/x"}))
		case strings.HasPrefix(k, "x-kubernetes-patch") || strings.HasPrefix(k, "patch"):
			x = str(pick(c, []string{"merge", "merge,retainKeys", "replace", "name", "a", ""}))
		case strings.HasPrefix(k, "x-") || k == "default":
			x = genVal(c, genOpt{depth: 2, plain: true})
		default:
			x = pick(c, []*Val{integer(genInt(c)), float(genFloat(c)), integer(2), integer(0), integer(-1)})
		}
		v.set(k, x)
	}
	return v
}

func (g *wildGen) schemaID() string { return fmt.Sprintf("wild.S%d", g.c.Intn(4)) }

func (g *wildGen) data(depth int) *Y {
	c := g.c
	if c.Chance(0.2) {
		return ydata(g.wildSchema(2))
	}
	if c.Chance(0.15) {
		return ydata(genPatch(c, genVal(c, genOpt{depth: 2}), 0.2))
	}
	return ydata(genVal(c, genOpt{depth: depth, nonstr: true, nan: true, manifest: true}))
}

func (g *wildGen) path() string {
	return pick(g.c, []string{"a.yaml", "b.json", "t.txt", "c.yisp", "sub", "sub/d.yisp", "*.yaml", "**/*.yisp", "*", "nosuch", "", ".", "..", "/", "./a.yaml", "[", "{a,b}.yaml", "bad.yaml", "bad.json", "bytes.yaml", "bytes.yisp", "bytes.json", "empty.yaml", "empty.json", "empty.yisp", "http://127.0.0.1:1/x", "http://", "http://[", "https://%zz", "a.yaml\x00", "main.yisp"})
}

// node makes any program text whatsoever.
func (g *wildGen) node(depth int) *Y {
	c := g.c
	var y *Y
	switch k := c.Intn(20); {
	case depth <= 0 || k < 2:
		switch c.Intn(5) {
		case 0:
			return yref(g.name())
		case 1:
			y = ys(str(g.path()))
		default:
			y = ys(genScalar(c, genOpt{nan: true}))
		}
	case k < 4:
		return yref(g.name())
	case k < 5:
		y = g.data(2)
		if y.Tag == "" && c.Chance(0.5) {
			y.Tag = "!quote"
		}
	case k < 12: // a call
		y = ycall(pick(c, g.ops))
		for n := c.Intn(4); n > 0; n-- {
			y.L = append(y.L, g.node(depth-1))
		}
	case k < 13: // a call that is nearly right
		y = g.near(depth)
	case k < 14: // a function, perhaps malformed
		params := yseq()
		for n := c.Intn(3); n > 0; n-- {
			p := pick(c, []*Y{yname("x"), yname("a"), yname("a.b"), yname("x?"), g.node(0), yname("")})
			if c.Chance(0.2) && p.K != yAlias && p.Tag == "" {
				p.Tag = "!" + pick(c, []string{"int", "T", "nosuch", "a"})
			}
			params.L = append(params.L, p)
		}
		y = ycall("lambda", params, g.node(depth-1))
		if c.Chance(0.3) {
			y = yseq(y, g.node(depth-1))
		}
	case k < 17:
		y = yseq()
		for n := c.Intn(4); n > 0; n-- {
			y.L = append(y.L, g.node(depth-1))
		}
	default:
		y = ymap()
		for n := c.Intn(4); n > 0; n-- {
			key := genKey(c, genOpt{nonstr: true, manifest: true, plain: c.Chance(0.5)})
			if c.Chance(0.2) {
				key = str(pick(c, []string{"<<", "apiVersion", "kind", "$schema", "metadata", "name", "cmd", "args", "stdin", "asString", "pkg", "path", "op", "value", "from", "key"}))
			}
			if y.M != nil {
				dup := false
				for _, e := range y.M {
					dup = dup || keyText(e.K) == keyText(key)
				}
				if dup {
					continue
				}
			}
			y.M = append(y.M, YEnt{key, g.node(depth - 1)})
		}
		if c.Chance(0.15) {
			y.M = append([]YEnt{{str("apiVersion"), ys(str(pick(c, []string{"v1", "wild/v1", "a/b/c", "/", ""})))}, {str("kind"), ys(str(pick(c, []string{"K", "nosuch", "/", "../x"})))}}, y.M...)
			var m []YEnt
			seen := map[string]bool{}
			for _, e := range y.M {
				if !seen[keyText(e.K)] {
					m = append(m, e)
				}
				seen[keyText(e.K)] = true
			}
			y.M = m
		}
	}
	if y.Tag == "" && c.Chance(0.15) {
		y.Tag = pick(c, []string{"!yisp", "!yisp", "!quote", "!quote", "!T", "!a", "!int", "!string", "!nosuch", "!!str", "!!map", "!!seq", "!!int", "!", "!a.b", "!!binary", "!!timestamp"})
	}
	if y.Anchor == "" && c.Chance(0.1) {
		y.Anchor = g.name()
	}
	return y
}

// near makes a call whose arguments have almost the right kinds.
func (g *wildGen) near(depth int) *Y {
	c := g.c
	d := depth - 1
	switch c.Intn(12) {
	case 0:
		return ycall("maps.patch", g.data(2).tag("!quote"), yquote(list(genPatch(c, genVal(c, genOpt{depth: 2}), 0.2), genPatch(c, mapv(), 0.2))))
	case 1:
		m := mapv("apiVersion", str("wild/v1"), "kind", str("K"), "metadata", genVal(c, genOpt{depth: 2}))
		return ycall("k8s.patch", yquote(list(m, genVal(c, genOpt{depth: 1}))), yquote(list(m.clone())))
	case 2:
		return ycall("types.assert", ycall("schema", yquote(g.wildSchema(3))), g.node(d))
	case 3:
		return ycall("progn", g.node(d)).tag("!T")
	case 4:
		return ycall("lists."+pick(c, []string{"map", "filter", "reduce"}), g.node(d), yname(pick(c, g.ops)))
	case 5:
		return ycall("yaml.unmarshal", ys(str(g.text())))
	case 6:
		return ycall("include", ys(str(g.path())), g.node(d))
	case 7:
		return ycall("import", yseq(yname("a"), ys(str(g.path()))), yseq(g.node(0), g.node(0)))
	case 8:
		return ycall("files.glob", ys(str(g.path())))
	case 9:
		return ycall("strings.format", ys(str(pick(c, []string{"%v", "%d%s", "%!", "%[3]v", "%*d", "%.1000f", "%-999999d", "%q %x", "%", "%v %v %v"}))), g.node(d), g.node(d))
	case 10:
		return ycall("lists.iota", ys(integer(pick(c, []int64{0, 1, -1, 3, -9223372036854775808, 9223372036854775807}))), ys(integer(genInt(c))))
	}
	return ycall("lists.at", g.node(d), ys(integer(genInt(c))))
}

func (g *wildGen) text() string {
	c := g.c
	for i := 0; i < 5; i++ {
		t, _ := yamlText(c)
		if !mayBlowUp(t) {
			return t
		}
	}
	return "a: 1\n"
}

// mayBlowUp tells texts that ask for exponentially large values or endless recursion.
func mayBlowUp(t string) bool {
	if len(t) > 20000 {
		return true
	}
	n := 0
	for i := 0; i+1 < len(t); i++ {
		if t[i] == '*' && t[i+1] != ' ' && t[i+1] != ',' && t[i+1] != ']' {
			n++
		}
	}
	// functions that mention themselves, and values doubled again and again
	return n > 14 || n > 0 && strings.Contains(t, "lambda")
}

func (g *wildGen) docs() []*Y {
	c := g.c
	var docs []*Y
	if c.Chance(0.5) {
		docs = append(docs, ycall("schema", yquote(g.wildSchema(3))).tag("!yisp").anchor("T"))
	}
	if c.Chance(0.4) {
		docs = append(docs, ymap("r", g.data(3).anchor("a")))
	}
	for n := 1 + c.Intn(3); n > 0; n-- {
		y := g.node(1 + c.Intn(4))
		if y.K != yAlias && y.Tag == "" && c.Chance(0.7) {
			y.Tag = "!yisp"
		}
		docs = append(docs, y)
	}
	// no function may mention a name that is bound to itself or to a later one
	if recursionPossible(docs) {
		return nil
	}
	return docs
}

// recursionPossible tells whether a function could reach itself: it mentions a name that some anchor binds.
func recursionPossible(docs []*Y) bool {
	bound := map[string]bool{}
	for _, d := range docs {
		d.walk(func(y *Y) {
			if y.Anchor != "" {
				bound[strings.SplitN(y.Anchor, ".", 2)[0]] = true
			}
		})
	}
	bad := false
	for _, d := range docs {
		d.walk(func(y *Y) {
			if y.K == ySeq && len(y.L) > 0 && y.L[0].K == yScalar && y.L[0].V != nil && y.L[0].V.S == "import" { // a file that imports itself
				y.walk(func(z *Y) {
					bad = bad || z.K == yScalar && z.V != nil && strings.Contains(z.V.S, "main.yisp")
				})
			}
			if y.K == ySeq && len(y.L) > 0 && y.L[0].K == yScalar && y.L[0].V != nil && y.L[0].V.K == vStr && y.L[0].V.S == "lambda" {
				for _, x := range y.L[1:] {
					x.walk(func(z *Y) {
						if z.K == yAlias && bound[strings.TrimSuffix(strings.SplitN(z.Name, ".", 2)[0], "?")] {
							bad = true
						}
					})
				}
			}
		})
	}
	return bad
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

// wildFiles puts good, bad and odd files into the case's directory.
func (g *wildGen) files(main string) string {
	c := g.c
	dir := c.fresh()
	os.MkdirAll(filepath.Join(dir, "sub"), 0755)
	write(filepath.Join(dir, "a.yaml"), "a: 1\n---\nb: [1, 2]\n")
	write(filepath.Join(dir, "b.json"), `{"a": [1, 2.5, null, "x"]}`)
	write(filepath.Join(dir, "t.txt"), "text\n")
	write(filepath.Join(dir, "c.yisp"), "&c !yisp [+, 1, 2]\n")
	write(filepath.Join(dir, "sub", "d.yisp"), "d: 1\n")
	if c.Chance(0.5) {
		write(filepath.Join(dir, "bad.yaml"), "a: [\n")
		write(filepath.Join(dir, "bad.json"), `{"a": `)
		write(filepath.Join(dir, "empty.yaml"), "")
		write(filepath.Join(dir, "empty.json"), "")
		write(filepath.Join(dir, "empty.yisp"), "")
		write(filepath.Join(dir, "bytes.yaml"), g.text())
		write(filepath.Join(dir, "bytes.yisp"), g.text())
		write(filepath.Join(dir, "bytes.json"), pick(c, []string{`1e999`, `"\ud800"`, `[1e400]`, `{"a":1,"a":2}`, "\xff", `123456789012345678901234567890`, `{"":{}}`, "nul", `[[[[[[`, `1 2`}))
	}
	p := filepath.Join(dir, "main.yisp")
	write(p, main)
	return p
}

var quotedBits = regexp.MustCompile("\"[^\"]*\"|'[^']*'|`[^`]*`|[0-9]+|/[^ ]*|[^\x20-\x7e]+")

func errClass(s string) string {
	s, _, _ = strings.Cut(s, "\n")
	s = quotedBits.ReplaceAllString(s, "_")
	if len(s) > 80 {
		s = s[:80]
	}
	return s
}

func c17(c *C) {
	g := newWildGen(c)
	mode := c.Intn(200)
	switch {
	case mode < 3 && recorder != nil:
		c.Skip()
	case mode == 0:
		c17deep(c)
		return
	case mode < 3:
		c17cli(c, g)
		return
	}
	// hostile schemas in the cache
	if c.Chance(0.3) {
		for i := 0; i < 4; i++ {
			text, _ := json.Marshal(jsonable(cleanKeys(g.wildSchema(3))))
			if c.Chance(0.1) {
				text = []byte(pick(c, []string{"", "null", "[]", "1", `{"type": 3}`, `{"properties": []}`, "{", `{"items": [1]}`, `{"default": {"a": [1e999]}}`}))
			}
			os.WriteFile(filepath.Join(core.CacheDir, "schemas", fmt.Sprintf("wild.S%d.json", i)), text, 0644)
		}
		os.WriteFile(filepath.Join(core.CacheDir, "gvk", "wild_v1_K.txt"), []byte(pick(c, []string{g.schemaID(), g.schemaID(), "", "nosuch", "\n", "../x"})), 0644)
	}
	var src, how string
	switch {
	case mode < 130:
		docs := g.docs()
		if docs == nil {
			c.Skip()
		}
		e := newEmitter(c.R)
		e.comments = c.Chance(0.2)
		src, how = emitDocs(e, docs), "wild"
	case mode < 160:
		src, how = g.text(), "text"
	case mode < 185:
		docs := g.docs()
		if docs == nil {
			c.Skip()
		}
		src, how = mutate(c, emitDocs(newEmitter(c.R), docs)), "mutated"
		if mayBlowUp(src) {
			c.Skip()
		}
	default:
		src, how = mutate(c, pick(c, yamlCorpus)), "corpus"
		if mayBlowUp(src) {
			c.Skip()
		}
	}
	c.Input(src)
	o := opts{
		ShowTrace: c.Chance(0.3), RenderSources: c.Chance(0.3), RenderSpecialObjects: c.Chance(0.3),
		AllowUntypedManifest: c.Chance(0.5), DisableTypeCheck: c.Chance(0.3),
	}
	var out string
	var err error
	way := c.Intn(4)
	switch way {
	case 0:
		out, err = evalText(c, src, o)
	case 1:
		p := g.files(src)
		out, err = evalFile(c, p, o)
	case 2:
		p := g.files(src)
		record("any", p, o)
		out, err = guard(c, func() (string, error) {
			v, err := engine.NewEngine(o).EvaluateFileToAny(p)
			if err != nil {
				return "", err
			}
			if l, ok := v.([]any); ok && len(l) > 0 {
				b, err := json.Marshal(l[0])
				return string(b), err
			}
			return fmt.Sprintf("%T", v), nil
		})
	case 3:
		out, err = guard(c, func() (string, error) {
			return engine.NewEngine(o).EvaluateBytesToYaml([]byte(src), map[string]any{"a": goData(c, 2), "b": []any{1, "x", nil}})
		})
	}
	if err != nil {
		var msg string
		guard(c, func() (string, error) { msg = err.Error(); return "", nil })
		if msg == "" {
			c.Fail("empty-message", "evaluation fails without a message")
			return
		}
		c.Count(how+" refused", 1)
		c.Seen(fmt.Sprint(how, way, errClass(msg)))
		return
	}
	c.Count(how+" evaluated", 1)
	if len(out) < 4000 {
		if ds, e := readDocs(out); e == nil {
			c.Seen(fmt.Sprint(how, way, list(ds...).shape()))
		}
	}
}

// cleanKeys keeps what JSON can hold.
func cleanKeys(v *Val) *Val {
	switch v.K {
	case vFloat:
		if v.F != v.F || v.F > 1e308 || v.F < -1e308 {
			return float(1.5)
		}
	case vStr:
		return str(strings.ToValidUTF8(v.S, "?"))
	case vList:
		r := list()
		for _, x := range v.L {
			r.L = append(r.L, cleanKeys(x))
		}
		return r
	case vMap:
		r := mapv()
		for _, e := range v.M {
			r.set(keyText(e.K), cleanKeys(e.V))
		}
		return r
	}
	return v
}

// goData makes a value for a global variable.
func goData(c *C, depth int) any {
	switch c.Intn(12) {
	case 0:
		return nil
	case 1:
		return c.Chance(0.5)
	case 2:
		return int(genInt(c))
	case 3:
		return genFloat(c)
	case 4:
		return pick(c, []any{uint8(3), int64(5), float32(1.5), json.Number("7"), json.Number("x"), []string{"a"}, map[string]string{"a": "b"}, struct{}{}, [2]any{1, 2}, complex(1, 2)})
	case 5, 6, 7:
		if depth > 0 {
			l := []any{}
			for n := c.Intn(3); n > 0; n-- {
				l = append(l, goData(c, depth-1))
			}
			return l
		}
	case 8, 9:
		if depth > 0 {
			m := map[string]any{}
			for n := c.Intn(3); n > 0; n-- {
				m[genStr(c)] = goData(c, depth-1)
			}
			return m
		}
	}
	return genStr(c)
}

// c17deep nests deeply.
func c17deep(c *C) {
	n := pick(c, []int{50, 500, 3000, 9000, 20000})
	bits := [][2]string{{"[", "]"}, {"{a: ", "}"}, {"[[", "]]"}, {"!quote [", "]"}, {"!yisp [", "]"}, {"[+, ", "]"}, {"[progn, ", "]"}, {"[if, true, ", "]"}, {"[lambda, [x], ", "]"}, {"{<<: ", "}"}, {"[lists.cons, 1, ", "]"}, {"[not, ", "]"}, {"{? ", "}"}, {"[pipeline, ", "]"}, {"!T [", "]"}, {"{$schema: ", "}"}, {"[schema, ", "]"}, {"[\"lists.flatten\", !quote [", "]]"}}
	var src string
	switch c.Intn(4) {
	case 0, 1:
		b := pick(c, bits)
		src = pick(c, []string{"", "!yisp ", "--- !quote "}) + strings.Repeat(b[0], n) + pick(c, []string{"1", "", "a"}) + strings.Repeat(b[1], n)
	case 2:
		src = pick(c, []string{"", "!yisp\n"}) + strings.Repeat(pick(c, []string{"- ", "? ", "- - ", "[", "{", "!quote ", "&a ", "*a ", "- &a "}), n) + "1"
	case 3:
		var b strings.Builder
		m := min(n, 3000)
		for i := 0; i < m; i++ {
			b.WriteString(strings.Repeat(" ", i) + pick(c, []string{"a:\n", "-\n"}))
		}
		b.WriteString(strings.Repeat(" ", m) + "1\n")
		src = b.String()
	}
	if len(src) > 400 {
		c.Input(fmt.Sprintf("%s... (%d times) ...%s", src[:200], n, src[len(src)-200:]))
	} else {
		c.Input(src)
	}
	out, err := evalText(c, src, opts{})
	c.Count("deep nesting", 1)
	if err != nil {
		c.Seen(fmt.Sprint("deep", n, errClass(err.Error())))
	} else {
		c.Seen(fmt.Sprint("deep", n, len(out)))
	}
}

// c17cli runs the command with hostile input.
func c17cli(c *C, g *wildGen) {
	home := filepath.Join(c.Dir, "clihome")
	os.MkdirAll(home, 0755)
	docs := g.docs()
	if docs == nil {
		c.Skip()
	}
	src := emitDocs(newEmitter(c.R), docs)
	if c.Chance(0.3) {
		src = g.text()
	}
	p := g.files(src)
	args := []string{"build", p}
	stdin := src
	switch c.Intn(8) {
	case 0:
		args = []string{"build", "-"}
	case 1:
		args = []string{"build", filepath.Join(c.tmp, pick(c, []string{"bytes.yaml", "b.json", "t.txt", "bytes.json", "sub", "nosuch", "bytes.yisp"}))}
	case 2, 3:
		args = []string{"krm"}
		fc := ymap("apiVersion", yname("krm.yisp.gammalab.net/v1"), "kind", yname("Yisp"), "spec", ymap("yisp", ys(str(src)), "allowUntypedManifest", ys(boolean(c.Chance(0.8)))))
		if c.Chance(0.2) {
			fc = ydata(genVal(c, genOpt{depth: 2, nonstr: true}))
		}
		items := yseq()
		for n := c.Intn(3); n > 0; n-- {
			items.L = append(items.L, ydata(genVal(c, genOpt{depth: 2, nonstr: true, manifest: true})))
		}
		stdin = emitDocs(newEmitter(c.R), []*Y{ymap("kind", yname("ResourceList"), "items", items, "functionConfig", fc)})
		if c.Chance(0.3) {
			stdin = mutate(c, stdin)
		}
		if c.Chance(0.1) {
			stdin = g.text()
		}
	case 4:
		cfg := filepath.Join(c.tmp, "config.yaml")
		write(cfg, pick(c, []string{"", "allowedgopkgs: [a]\n", "allowedgopkgs: {a: 1}\n", "[", "allowedgopkgs: 3\n", "- 1\n", "\xff"}))
		args = []string{pick(c, []string{"build", "allow"}), "--config", cfg, pick(c, []string{p, "x", "", "*", "a\nb"})}
	case 5:
		args = []string{pick(c, []string{"cache-kube-schemas", "nosuch", "--nosuch", "build", "version", "help", "krm"})}
		stdin = ""
	}
	for _, f := range []string{"--enable-sourcemap", "--render-special-objects", "--allow-untyped-manifest", "--show-trace", "--disable-type-check", "--output=json", "--output=nosuch"} {
		if args[0] == "build" && c.Chance(0.2) {
			args = append(args, f)
		}
	}
	c.Input(fmt.Sprintf("yisp %q\n--- stdin\n%s--- main.yisp\n%s", args, stdin, src))
	res := runCLI(c, args, stdin, home, c.tmp)
	if res.timeout {
		c.Fail("hang", "the command does not end")
		return
	}
	if (res.code != 0 && res.code != 1) || strings.Contains(res.stderr, "goroutine ") && strings.Contains(res.stderr, "panic") {
		c.Fail("crash", "the command crashes with status %d\n%s", res.code, res.stderr)
		return
	}
	c.Count("commands", 1)
	c.Seen(fmt.Sprint("cli", args[0], res.code, errClass(res.stderr)))
}

type cliResult struct {
	stdout, stderr string
	code           int
	timeout        bool
}

// runCLI runs the built command with an environment of its own.
func runCLI(c *C, args []string, stdin, home, wd string, env ...string) cliResult {
	ctx, cancel := context.WithTimeout(context.Background(), 15*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(c.Bin, "yisp"), args...)
	cmd.Dir = wd
	cmd.Env = append([]string{"HOME=" + home, "PATH=" + filepath.Join(c.Dir, "nopath"), "TMPDIR=" + os.Getenv("TMPDIR")}, env...)
	cmd.Stdin = strings.NewReader(stdin)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	cmd.WaitDelay = time.Second
	err := cmd.Run()
	r := cliResult{stdout: o.String(), stderr: e.String(), code: cmd.ProcessState.ExitCode()}
	if ctx.Err() != nil {
		r.timeout = true
	} else if err != nil && cmd.ProcessState == nil {
		panic(err)
	}
	return r
}
