package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/totegamma/yisp/core"
	"github.com/totegamma/yisp/engine"
)

func init() {
	register(&Prop{
		ID: "C12", Quick: 30000, Thorough: 2000000, Case: c12, Setup: setupCache,
		Rule: "distinct combinations of ways manifests get into the output, whether each has the right shape, options, output format and outcome on which the engine agreed with the reference",
	})
}

// manGen makes programs that output manifests.
type manGen struct {
	*schemaGen
	kinds   []*kind
	urls    []*kind // kinds named by $schema
	anchors []*Y    // documents that come first
	wrong   bool    // some manifest in the output has the wrong shape
	unknown bool    // some manifest that is evaluated has no schema
	ways    []string
	files   int
	n       int
	outDocs []*Val
}

type madeMan struct {
	y   *Y
	v   *Val
	k   *kind // nil for anything that is no known manifest
	bad bool
}

func (g *manGen) way(s string) { g.ways = append(g.ways, s) }

// shape makes the fields of a manifest, mostly right.
func (g *manGen) shape() (*Val, *kind) {
	c := g.c
	switch n := c.Intn(16); {
	case n == 0:
		g.unknown = true
		g.way("unknown")
		api, kd := pick(c, []string{"v9", "apps/v9", "a/b/c", "nope.io/v1", "V1"}), pick(c, []string{"Pod", "pod", "Missing"})
		if c.Chance(0.6) { // close to one that is known
			k := pick(c, g.kinds)
			v := g.value(k.s, 2)
			api, kd = k.api, k.kind
			switch c.Intn(7) {
			case 0:
				api += "/x"
			case 1:
				api = "x/" + api
			case 2:
				api += "1"
			case 3:
				api = strings.ToUpper(api)
			case 4:
				kd = strings.ToLower(kd)
			case 5:
				kd += "s"
			case 6:
				api = k.api + "/" + k.api
			}
			for _, k := range g.kinds {
				if k.api == api && k.kind == kd {
					api = "v9"
				}
			}
			v.del("$schema")
			v.set("apiVersion", str(api))
			v.set("kind", str(kd))
			return v, nil
		}
		return mapv("apiVersion", str(api), "kind", str(kd), "x", integer(1)), nil
	case n == 1: // no manifest at all
		g.way("none")
		v := g.value(g.kinds[0].s, 2)
		v.del("apiVersion")
		v.del("kind")
		switch c.Intn(5) {
		case 0:
			v.set("apiVersion", str("v1"))
		case 1:
			v.set("kind", str("Pod"))
		case 2:
			v.set("apiVersion", str("v1"))
			v.set("kind", pick(c, []*Val{integer(1), null(), str(""), list()}))
		case 3:
			v.set("kind", str("Pod"))
			v.set("apiVersion", pick(c, []*Val{float(1.5), boolean(true), str("")}))
		}
		return v, nil
	case n == 2 && len(g.urls) > 0:
		k := pick(c, g.urls)
		g.way("url")
		v := mapv("$schema", str(k.api))
		for _, e := range g.fitting(k.s, func() *Val { return g.value(k.s, 2) }).M {
			v.M = append(v.M, e)
		}
		v.set("$schema", str(k.api))
		if c.Chance(0.3) { // $schema counts, not the kind
			if k.s.AP == true || k.s.prop("apiVersion") != nil {
				v.set("apiVersion", str("v9"))
				v.set("kind", str("Missing"))
			}
		}
		return v, k
	}
	k := pick(c, g.kinds)
	v := g.fitting(k.s, func() *Val { return g.manifest(k, pick(c, words), "") })
	return v, k
}

func (g *manGen) spoilt(v *Val, k *kind) *Val {
	if !g.c.Chance(0.25) {
		return v
	}
	id := map[string]*Val{}
	for _, f := range []string{"apiVersion", "kind", "$schema"} {
		id[f] = v.get(f)
	}
	w := spoilVal(g.c, v)
	if w.K != vMap {
		return v
	}
	for f, x := range id {
		if x != nil {
			w.set(f, x)
		} else {
			w.del(f)
		}
	}
	for _, e := range w.M {
		plainSchemaKeys(e.V)
	}
	return w
}

func (g *manGen) judge(v *Val, k *kind) bool {
	return k != nil && !g.d.conforms(k.s, v)
}

// fields writes the entries of a map, some of them computed.
func (g *manGen) fields(v *Val, p float64, mode string) *Y {
	y := ymap()
	for _, e := range v.M {
		var x *Y
		if g.c.Chance(p) {
			x = computed(g.c, e.V, 2)
			if mode == "quote" && x.Tag == "" {
				x.tag("!yisp")
				if x.K != ySeq && x.K != yMap {
					x = ydata(e.V)
				}
			}
		} else if mode == "quote" {
			x = ydata(e.V)
		} else {
			x = yquote(e.V)
		}
		y.M = append(y.M, YEnt{e.K, x})
	}
	return y
}

// merged moves some entries that follow each other into a map that is merged at their place.
func (g *manGen) merged(y *Y, mode string) *Y {
	c := g.c
	if len(y.M) == 0 || !c.Chance(0.3) {
		return y
	}
	i := c.Intn(len(y.M))
	j := i + 1 + c.Intn(len(y.M)-i)
	part := append([]YEnt{}, y.M[i:j]...)
	id := 0
	for _, e := range part {
		if e.K.S == "apiVersion" || e.K.S == "kind" {
			id++
		}
		if e.K.S == "$schema" {
			id += 2
		}
	}
	if id > 1 { // a manifest itself
		if id > 2 || c.Chance(0.7) {
			return y
		}
		for _, e := range y.M {
			if e.K.S == "$schema" {
				return y
			}
		}
	}
	g.way("merged")
	var from *Y
	switch c.Intn(4) {
	case 0:
		if mode == "quote" {
			k := c.Intn(len(part) + 1)
			if id > 1 {
				k = 0
			}
			from = yseq(ymap(), ymap())
			from.L[0].M, from.L[1].M = part[:k:k], part[k:]
			break
		}
		fallthrough
	case 1:
		from = ycall("if", ys(boolean(c.Chance(0.5))), ymap(), ymap())
		from.L[2].M, from.L[3].M = part, part
		if mode == "quote" {
			from.tag("!yisp")
			for _, b := range from.L[2:] {
				b.tag("!quote")
			}
		}
	default:
		from = ymap()
		from.M = part
	}
	r := ymap()
	r.M = append(append(append(r.M, y.M[:i]...), YEnt{str("<<"), from}), y.M[j:]...)
	return r
}

// item makes one value of the output, as code.
func (g *manGen) item(depth int) madeMan {
	c := g.c
	if depth > 0 {
		switch c.Intn(12) {
		case 0: // in a list
			g.way("list")
			y, v, b := yseq(), list(), false
			for n := c.Intn(3); n >= 0; n-- {
				was := g.save()
				m := g.item(depth - 1)
				if m.v.K == vList || m.y.K == yScalar && m.y.Tag == "" || m.v.K == vNull {
					g.restore(was)
					continue
				}
				y = ycall("lists.cons", m.y, y)
				v.L = append([]*Val{m.v}, v.L...)
				b = b || m.bad
			}
			return madeMan{y: y, v: v, bad: b}
		case 1: // in a map
			g.way("map")
			m := g.item(depth - 1)
			return madeMan{y: ymap("x", ys(integer(1)), "m", m.y), v: mapv("x", integer(1), "m", m.v), bad: m.bad}
		case 2: // chosen by a conditional; what is not chosen does not count
			g.way("if")
			m := g.item(depth - 1)
			was := g.save()
			o := g.item(0).y
			g.restore(was)
			t := c.Chance(0.5)
			if t {
				return madeMan{y: ycall("if", ys(boolean(true)), m.y, o), v: m.v, k: m.k, bad: m.bad}
			}
			return madeMan{y: ycall("if", ys(null()), o, m.y), v: m.v, k: m.k, bad: m.bad}
		case 3: // evaluated but not output
			g.way("unused")
			o := g.item(0)
			m := g.item(depth - 1)
			return madeMan{y: ycall("progn", o.y, m.y), v: m.v, k: m.k, bad: m.bad}
		case 4: // named, and taken out of a map again
			g.way("named")
			m := g.item(depth - 1)
			if m.v.K == vNull {
				return m
			}
			n := fmt.Sprint("n", g.n)
			g.n++
			g.anchors = append(g.anchors, ycall("if", ys(boolean(false)), ys(integer(1)), ymap("k", m.y)).tag("!yisp").anchor(n))
			g.anchorsOut(m)
			return madeMan{y: yref(n + ".k"), v: m.v, k: m.k, bad: m.bad}
		case 5: // through functions
			g.way("through")
			m := g.item(depth - 1)
			return madeMan{y: ycall("lists.car", ycall("lists.map", ycall("lists.cons", m.y, yseq()), ycall("lambda", yseq(yname("x")), yref("x")))), v: m.v, k: m.k, bad: m.bad}
		case 6: // inside another manifest
			k := g.kinds[len(g.kinds)-1] // its items may be anything
			m := g.item(depth - 1)
			g.way("nested")
			v := mapv("apiVersion", str(k.api), "kind", str(k.kind), "items", list(m.v))
			y := ymap("apiVersion", yname(k.api), "kind", yname(k.kind), "items", ycall("lists.cons", m.y, yseq()))
			b := m.bad
			if c.Chance(0.2) {
				v.set("nope", integer(1))
				y.M = append(y.M, YEnt{str("nope"), ys(integer(1))})
				b = true
			}
			return madeMan{y: y, v: v, k: k, bad: b}
		case 7: // patched in place
			n := len(g.anchors)
			m := g.item(depth - 1)
			if m.v.K != vMap || m.k == nil || len(g.anchors) != n { // what has a name would change with it
				return m
			}
			v := m.v.clone()
			ps := list()
			for n := c.Intn(3); n > 0; n-- {
				p := genPatch(c, v, 0)
				path := p.get("path")
				if path == nil || path.K != vStr || strings.HasPrefix(path.S, "/apiVersion") || strings.HasPrefix(path.S, "/kind") || strings.HasPrefix(path.S, "/$schema") {
					continue
				}
				if f := p.get("from"); f != nil {
					continue
				}
				if x := p.get("value"); x != nil {
					plainSchemaKeys(x)
				}
				w := v.clone()
				if r := attempt(func() { patchOp(w, p) }); r.err == "" && r.unspec == "" {
					v = w
					ps.L = append(ps.L, p)
				}
			}
			if len(ps.L) == 0 || m.nested() {
				return m
			}
			g.way("patched")
			return madeMan{y: ycall("maps.patch", m.y, yquote(ps)), v: v, k: m.k, bad: g.judge(v, m.k)}
		case 8: // patched as Kubernetes does
			m := g.item(0)
			if m.k == nil || m.k.kind == "" || m.v.K != vMap {
				return m
			}
			p := g.overlay(m.k.s, m.v, "")
			if p.K != vMap {
				return m
			}
			for _, f := range []string{"apiVersion", "kind", "metadata"} {
				p.del(f)
				if x := m.v.get(f); x != nil {
					p.set(f, x)
				}
			}
			if x := m.v.get("metadata"); x != nil && x.K != vMap {
				return m
			}
			if attempt(func() { manifestID(m.v) }).err != "" {
				return m
			}
			var w *Val
			plainSchemaKeys(p)
			if r := attempt(func() { w = mergeVals(m.v, p, m.k.s.strategy(g.d, 0)) }); r.err != "" || r.unspec != "" {
				return m
			}
			g.way("k8s")
			return madeMan{y: ycall("lists.car", ycall("k8s.patch", ycall("lists.cons", m.y, yseq()), ycall("lists.cons", yquote(p), yseq()))), v: w, k: m.k, bad: g.judge(w, m.k)}
		case 9: // in an included program
			m := g.item(0)
			if m.v.K == vNull || m.v.K == vList {
				return m
			}
			g.way("included")
			f := fmt.Sprintf("inc%d.yisp", g.files)
			g.files++
			e := newEmitter(c.R)
			e.tame = true
			y := m.y
			if y.K != ySeq && y.K != yMap {
				y = ycall("progn", y)
			}
			if y.Tag == "" {
				y.Tag = "!yisp"
			}
			write(filepath.Join(c.tmp, f), emitDocs(e, []*Y{y}))
			return madeMan{y: ycall("lists.car", ycall("include", yname(f))), v: m.v, k: m.k, bad: m.bad}
		case 10: // made by a function with the fields as arguments
			v, k := g.shape()
			v = g.spoilt(v, k)
			if len(v.M) == 0 {
				break
			}
			g.way("function")
			ps, body := yseq(), ymap()
			call := yseq(nil)
			for i, e := range v.M {
				n := fmt.Sprint("f", i)
				if c.Chance(0.5) {
					ps.L = append(ps.L, yname(n))
					body.M = append(body.M, YEnt{e.K, yref(n)})
					call.L = append(call.L, computed(c, e.V, 1))
				} else {
					body.M = append(body.M, YEnt{e.K, yquote(e.V)})
				}
			}
			call.L[0] = ycall("lambda", ps, body)
			return madeMan{y: call, v: v, k: k, bad: g.judge(v, k)}
		case 11: // data read from text is not checked
			v, _ := g.plainShape()
			g.way("data")
			return madeMan{y: ycall("lists.car", ycall("yaml.unmarshal", ys(str(tameDocs(c, []*Val{v}))))), v: sortedKeys(v)}
		}
	}
	v, k := g.shape()
	v = g.spoilt(v, k)
	g.way("literal")
	if c.Chance(0.5) {
		return madeMan{y: yquote(v), v: v, k: k, bad: g.judge(v, k)}
	}
	if c.Chance(0.3) {
		return madeMan{y: g.merged(g.fields(v, 0.5, "quote"), "quote").tag("!quote"), v: v, k: k, bad: g.judge(v, k)}
	}
	return madeMan{y: g.merged(g.fields(v, 0.5, "eval"), "eval"), v: v, k: k, bad: g.judge(v, k)}
}

// nested says whether a manifest contains others.
func (m madeMan) nested() bool {
	n := 0
	var walk func(v *Val)
	walk = func(v *Val) {
		if v.get("kind") != nil || v.get("$schema") != nil {
			n++
		}
		for _, x := range v.L {
			walk(x)
		}
		for _, e := range v.M {
			walk(e.V)
		}
	}
	walk(m.v)
	return n > 1
}

func (g *manGen) plainShape() (*Val, *kind) {
	u, w := g.unknown, g.ways
	v, k := g.shape()
	g.unknown, g.ways = u, w
	v = spoilVal(g.c, v)
	plainSchemaKeys(v)
	if v.K != vMap {
		v = mapv("apiVersion", str("v1"), "kind", str("Pod"), "nope", integer(1))
	}
	return v, k
}

type manState struct {
	unknown bool
	anchors []*Y
	outDocs []*Val
	wrong   bool
}

func (g *manGen) save() manState {
	return manState{g.unknown, g.anchors, g.outDocs, g.wrong}
}

// restore forgets what was made since.
func (g *manGen) restore(s manState) {
	g.unknown, g.anchors, g.outDocs, g.wrong = s.unknown, s.anchors, s.outDocs, s.wrong
}

// anchorsOut notes that a named map is output where it is defined.
func (g *manGen) anchorsOut(m madeMan) {
	if m.bad {
		g.wrong = true
	}
	g.outDocs = append(g.outDocs, mapv("k", m.v))
}

func c12(c *C) {
	g := &manGen{schemaGen: &schemaGen{c: c, prefix: fmt.Sprintf("vh%d", c.Idx), merge: c.Chance(0.5), nokey: []string{"apiVersion", "kind", "metadata", "$schema"}}}
	c.fresh()
	if c.Chance(0.2) {
		g.makeDefs(1)
	}
	g.kinds = g.someKinds(1 + c.Intn(3))
	lst := newSchema("object")
	str1, items := newSchema("string"), newSchema("array")
	items.Items = newSchema("any")
	lst.Props = []prop{{"apiVersion", str1}, {"kind", str1}, {"items", items}}
	g.kinds = append(g.kinds, &kind{api: "v1", kind: "List", s: lst})
	clean := storeKinds(g.kinds, g.prefix, g.d)
	defer clean()
	if c.Chance(0.5) {
		k := &kind{api: fmt.Sprintf("http://127.0.0.1:9/%s/%d.json", pick(c, []string{"s", "s?x=1", "ü"}), c.Idx)}
		k.s = g.object(2, false)
		g.urls = append(g.urls, k)
		b, _ := json.Marshal(jsonable(k.s.val()))
		p := filepath.Join(core.CacheDir, "schemas", base64.URLEncoding.EncodeToString([]byte(k.api))+".json")
		write(p, string(b))
		defer os.Remove(p)
	}
	eo := opts{AllowUntypedManifest: c.Chance(0.2), DisableTypeCheck: c.Chance(0.2)}
	var docs []*Y
	var want []*Val
	o := attempt(func() {
		for n := c.Intn(3); n >= 0; n-- {
			g.anchors, g.outDocs = nil, nil
			var y *Y
			var m madeMan
			if c.Chance(0.35) { // plain data
				v, k := g.shape()
				v = g.spoilt(v, k)
				g.way("plain")
				m = madeMan{v: v, k: k, bad: g.judge(v, k)}
				y = g.merged(g.fields(v, 0.2, "quote"), "quote")
				if c.Chance(0.2) {
					m.v = list(m.v)
					y = yseq(y)
				}
			} else {
				m = g.item(1 + c.Intn(3))
				if m.v.K == vNull {
					c.Skip()
				}
				y = m.y
				if y.Tag == "!quote" && y.K != yScalar {
					y.Tag = "" // what a document is anyway
				} else {
					if y.K != ySeq && y.K != yMap || y.Tag != "" {
						y = ycall("progn", y)
					}
					y.Tag = "!yisp"
				}
			}
			if m.bad {
				g.wrong = true
			}
			docs = append(docs, g.anchors...)
			docs = append(docs, y)
			want = append(want, g.outDocs...)
			want = append(want, m.v)
		}
	})
	if o.unspec != "" || o.err != "" {
		c.Skip()
	}
	switch {
	case g.unknown && !eo.AllowUntypedManifest:
		o.err = "a manifest of unknown kind"
	case g.wrong && !eo.AllowUntypedManifest && !eo.DisableTypeCheck:
		o.err = "a manifest of the wrong shape"
	default:
		o.docs = want
	}
	e := newEmitter(c.R)
	e.tame = c.Chance(0.8)
	src := emitDocs(e, docs)
	main := filepath.Join(c.tmp, "main.yisp")
	write(main, src)
	c.Input(fmt.Sprintf("%s\n# options: %+v\n# files: %s\n# kinds: %s %s\n# schemas: %s", src, eo, listFiles(c.tmp), showKinds(g.kinds), showKinds(g.urls), g.d.show()))
	format := "yaml"
	ok := false
	if c.Chance(0.25) {
		format = "native"
		ok = agreeNative(c, o, main, eo)
	} else {
		ok = agreeFile(c, o, main, eo)
	}
	if ok {
		kept := map[string]int{}
		for _, w := range g.ways {
			kept[w]++
			c.Count("way: "+w, 1)
		}
		c.Count("outcome: "+firstWord(o.err+" fine"), 1)
		c.Seen(fmt.Sprint(g.ways, g.wrong, g.unknown, eo.AllowUntypedManifest, eo.DisableTypeCheck, format, o.err))
	}
}

// agreeNative compares the native form of the output, which JSON is made from.
func agreeNative(c *C, o outcome, path string, eo opts) bool {
	var got any
	record("any", path, eo)
	_, err := guard(c, func() (string, error) {
		var err error
		got, err = engine.NewEngine(eo).EvaluateFileToAny(path)
		return "", err
	})
	if o.err != "" {
		if err == nil {
			c.Fail("no-error", "the program must fail (%s) but gives\n%v", o.err, got)
			return false
		}
		return true
	}
	if err != nil {
		c.Fail("error", "evaluation fails: %s\n--- want\n%s", errText(err), showDocs(o.docs))
		return false
	}
	want := list(o.docs...)
	if !finite(want) {
		return true
	}
	b, err := json.Marshal(got)
	if err != nil {
		c.Fail("error", "the output cannot be written as JSON: %v", err)
		return false
	}
	dec := json.NewDecoder(strings.NewReader(string(b)))
	dec.UseNumber()
	v, err := jsonVal(dec)
	if err != nil || !sameJSON(want, v) {
		c.Fail("result", "as JSON: %v\n--- want\n%s\n--- got\n%s", err, want, b)
		return false
	}
	return true
}
