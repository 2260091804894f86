package main

import (
	"fmt"
	"math/rand/v2"
	"regexp"
	"sort"
)

func init() {
	register(&Prop{
		ID: "C23", Quick: 12000, Thorough: 600000, Case: c23, Setup: setupCache,
		Rule:   "distinct sequences of uses (operators, casts, merges, patches, closures, output) after which every earlier output and every name still had the value it was defined with",
		Assume: []string{"The target of maps.patch, with everything it is made of, is documented to be modified in place: targets are values of their own, what is inserted into them is shared."},
	})
}

// bound is a name with the value it had when it was defined.
type bound struct {
	n    string
	v    *Val
	frag string // steps the value went through
}

type immGen struct {
	c      *C
	g      *schemaGen
	names  []bound
	fns    []string
	types  []string
	kinds  []*kind
	n      int
	how    []string
	exempt map[int]bool // documents that a patch is about to change
}

func (g *immGen) used(s string) { g.how = append(g.how, s) }

func (g *immGen) fresh(p string) string { g.n++; return fmt.Sprintf("%s%d", p, g.n) }

var pathKey = regexp.MustCompile(`^[a-z][a-z0-9]*$`)

// ref mentions a name, or a value inside it.
func (g *immGen) ref(b bound) (*Y, *Val) {
	c := g.c
	n, v := b.n, b.v
	for v.K == vMap && c.Chance(0.3) {
		var ks []Ent
		for _, e := range v.M {
			if e.K.K == vStr && pathKey.MatchString(e.K.S) {
				ks = append(ks, e)
			}
		}
		if len(ks) == 0 {
			break
		}
		e := pick(c, ks)
		n, v = n+"."+e.K.S, e.V
	}
	return yref(n), v
}

func (g *immGen) some(k vk) (*Y, *Val) {
	for i := 0; i < 12; i++ {
		if y, v := g.ref(pick(g.c, g.names)); v.K == k {
			return y, v
		}
	}
	return nil, nil
}

// val mentions anything, or writes something new.
func (g *immGen) val(depth int) *Y {
	c := g.c
	switch {
	case c.Chance(0.65):
		y, _ := g.ref(pick(c, g.names))
		return y
	case depth > 0 && c.Chance(0.6):
		if y := g.use(depth - 1); y != nil {
			return y
		}
	}
	return yquote(genVal(c, genOpt{depth: 1, plain: true}))
}

func (g *immGen) mapVal(depth int) *Y {
	c := g.c
	if c.Chance(0.75) {
		if y, _ := g.some(vMap); y != nil {
			return y
		}
	}
	if depth > 0 && c.Chance(0.4) {
		switch c.Intn(3) {
		case 0:
			return ycall("maps.merge", g.mapVal(depth-1), g.mapVal(depth-1))
		case 1:
			return ymap("<<", g.mapVal(depth-1), pick(c, words[:3]), g.val(depth-1))
		default:
			return ycall("maps.from-entries", ycall("maps.to-entries", g.mapVal(depth-1)))
		}
	}
	return yquote(genMap(c, genOpt{depth: 2, plain: true}))
}

func (g *immGen) listVal(depth int) *Y {
	c := g.c
	if c.Chance(0.75) {
		if y, _ := g.some(vList); y != nil {
			return y
		}
	}
	if depth > 0 && c.Chance(0.4) {
		switch c.Intn(3) {
		case 0:
			return ycall("lists.cons", g.val(depth-1), g.listVal(depth-1))
		case 1:
			return ycall("maps.values", g.mapVal(depth-1))
		default:
			return ycall("lists.cdr", g.listVal(depth-1))
		}
	}
	return yseq(g.val(0), g.val(0)).tag("!quote")
}

func (g *immGen) fn(depth int) *Y {
	c := g.c
	if len(g.fns) > 0 && c.Chance(0.4) {
		return yref(pick(c, g.fns))
	}
	var body *Y
	switch c.Intn(8) {
	case 0:
		body = yref("x")
	case 1:
		body = ycall("lists.cons", yref("x"), g.listVal(0))
	case 2:
		body = ycall("maps.merge", g.mapVal(0), yref("x"))
	case 3:
		body = ycall("maps.merge", yref("x"), g.mapVal(0))
	case 4:
		body = ymap("<<", g.mapVal(0), "a", yref("x"))
	case 5:
		body = yseq(yref("x"), g.val(0)).tag("!quote")
	case 6:
		body = ycall("progn", g.use0(), yref("x"))
	case 7:
		body = g.val(0)
	}
	x := yname("x")
	if len(g.types) > 0 && c.Chance(0.15) {
		x.tag("!" + pick(c, g.types))
	}
	return ycall("lambda", yseq(x), body)
}

func (g *immGen) use0() *Y {
	if y := g.use(0); y != nil {
		return y
	}
	return yquote(null())
}

// use makes an expression that uses named values.
func (g *immGen) use(depth int) *Y {
	c := g.c
	switch c.Intn(30) {
	case 0:
		g.used("car")
		return ycall("lists.car", g.listVal(depth))
	case 1:
		g.used("cdr")
		return ycall("lists.cdr", g.listVal(depth))
	case 2:
		g.used("cons")
		return ycall("lists.cons", g.val(depth), g.listVal(depth))
	case 3:
		g.used("map")
		return ycall("lists.map", g.listVal(depth), g.fn(depth))
	case 4:
		g.used("filter")
		return ycall("lists.filter", g.listVal(depth), ycall("lambda", yseq(yname("x")), ycall(pick(c, []string{"==", "!="}), yref("x"), g.val(0))))
	case 5:
		g.used("flatten")
		return ycall("lists.flatten", g.listVal(depth))
	case 6:
		g.used("reduce")
		f := yname("maps.merge")
		if c.Chance(0.5) {
			f = ycall("lambda", yseq(yname("x"), yname("y")), pick(c, []*Y{yseq(yref("x"), yref("y")).tag("!quote"), ycall("lists.cons", yref("y"), yref("x")), ycall("maps.merge", yref("x"), yref("y")), yref("x")}))
		}
		return ycall("lists.reduce", g.listVal(depth), f)
	case 7:
		g.used("at")
		return ycall("lists.at", g.listVal(depth), ys(integer(int64(c.Intn(3)))))
	case 8:
		g.used("contains")
		return ycall("lists.contains", g.listVal(depth), g.val(depth))
	case 9:
		g.used("to-entries")
		return ycall("maps.to-entries", g.mapVal(depth))
	case 10:
		g.used("keys")
		return ycall(pick(c, []string{"maps.keys", "maps.values"}), g.mapVal(depth))
	case 11:
		g.used("make")
		return ycall("maps.make", ys(str("k")), g.val(depth), ys(str("l")), g.val(depth))
	case 12, 13, 14:
		g.used("merge")
		y := ycall("maps.merge", g.mapVal(depth))
		for n := 1 + c.Intn(2); n > 0; n-- {
			y.L = append(y.L, g.mapVal(depth))
		}
		return y
	case 15:
		g.used("merge key")
		return ymap("<<", g.mapVal(depth), pick(c, words[:5]), g.val(depth))
	case 16:
		g.used("merge keys")
		return ymap(pick(c, words[:5]), g.val(depth), "<<", yseq(g.mapVal(0), g.mapVal(0)).tag("!quote"))
	case 17, 18, 19:
		if len(g.types) == 0 {
			return nil
		}
		g.used("cast")
		return ycall("progn", g.mapVal(depth)).tag("!" + pick(c, g.types))
	case 20:
		if len(g.types) == 0 {
			return nil
		}
		g.used("assert")
		return ycall("types.assert", yref(pick(c, g.types)), g.mapVal(depth))
	case 21:
		g.used("marshal")
		return ycall("yaml.marshal", g.val(depth))
	case 22:
		g.used("format")
		return ycall("strings.format", ys(str("%v %v")), g.val(depth), g.val(depth))
	case 23:
		g.used("equality")
		return ycall(pick(c, []string{"==", "!="}), g.val(depth), g.val(depth))
	case 24:
		g.used("quote")
		return ymap("q", g.val(depth), "r", yseq(g.val(depth), g.val(0))).tag("!quote")
	case 25:
		g.used("forms")
		return pick(c, []*Y{
			ycall("if", g.val(0), g.val(depth), g.val(depth)),
			ycall("progn", g.val(depth), g.val(0)),
			ycall("pipeline", g.val(0), g.fn(depth)),
			ycall("??", g.val(0), g.val(0)),
			ycall("and", g.val(0), g.val(0)),
			ycall("or", g.val(0), g.val(0)),
		})
	case 26:
		if len(g.fns) == 0 {
			return nil
		}
		g.used("call")
		return yseq(yref(pick(c, g.fns)), g.val(depth))
	case 27:
		g.used("from-entries")
		return ycall("maps.from-entries", ycall("maps.to-entries", g.mapVal(depth)))
	case 28, 29:
		return g.patched(depth)
	}
	return nil
}

// patched makes a maps.patch of a value of its own with named values.
func (g *immGen) patched(depth int) *Y {
	c := g.c
	g.used("patch")
	var t *Y
	fresh := mapv("a", mapv("b", integer(1), "c", list(integer(1), integer(2))), "l", list(mapv("x", integer(1)), mapv("x", integer(2))), "s", str("t"))
	switch {
	case len(g.types) > 0 && c.Chance(0.3):
		// what a type fills in is not shared either
		g.used("patched cast")
		t = ycall("progn", yquote(mapv())).tag("!" + pick(c, g.types))
		ops := yseq()
		for n := 1 + c.Intn(3); n > 0; n-- {
			p := pick(c, []string{"/zz", "/*/zz", "/*/-", "/*/*/zz", "/*"})
			if p == "/*" {
				ops.L = append(ops.L, ymap("op", yname("replace"), "path", yname(p), "value", g.val(0)))
				continue
			}
			ops.L = append(ops.L, ymap("op", yname("add"), "path", yname(p), "value", ys(integer(96))))
		}
		return ycall("maps.patch", t, ops.tag("!quote"))
	default:
		t = yquote(fresh)
	}
	ops := yseq()
	slots := []string{"/n", "/a/n", "/l/0", "/l/-", "/a/c/1", "/l/*/n", "/*", "/a/*"}
	var into []string
	for n := 1 + c.Intn(3); n > 0; n-- {
		p := pick(c, slots)
		y, v := g.ref(pick(c, g.names))
		op := pick(c, []string{"add", "add", "replace", "test"})
		if op == "replace" {
			p = pick(c, []string{"/a", "/a/b", "/l/0", "/l", "/s", "/l/*", "/a/*"})
		}
		if op == "test" {
			p = pick(c, []string{"/a", "/l"})
			ops.L = append(ops.L, ymap("op", yname("add"), "path", yname("/w"), "value", y), ymap("op", yname("test"), "path", yname("/w"), "value", y))
			into = append(into, "/w")
			continue
		}
		ops.L = append(ops.L, ymap("op", yname(op), "path", yname(p), "value", y))
		if p == "/n" || p == "/a/n" || op == "replace" && (p == "/a" || p == "/s") {
			into = append(into, p)
			if v.K == vList {
				into = append(into, p+"/-", p+"/0")
			}
		}
	}
	// and now change what was just inserted
	for n := c.Intn(4); n > 0 && len(into) > 0; n-- {
		p := pick(c, into)
		switch c.Intn(5) {
		case 0:
			ops.L = append(ops.L, ymap("op", yname("add"), "path", yname(p+"/zz"), "value", yquote(integer(99))))
		case 1:
			ops.L = append(ops.L, ymap("op", yname("add"), "path", yname(p+"/-"), "value", g.val(0)))
		case 2:
			ops.L = append(ops.L, ymap("op", yname("add"), "path", yname(p+"/*/zz"), "value", yquote(integer(98))))
		case 3:
			ops.L = append(ops.L, ymap("op", yname("remove"), "path", yname(p+pick(c, []string{"/a", "/0", "/name", "/foo", "/b", "/*"}))))
		case 4:
			ops.L = append(ops.L, ymap("op", yname(pick(c, []string{"copy", "move"})), "from", yname(p), "path", yname(pick(c, []string{"/c1", "/a/c1", "/l/0/c1"}))), ymap("op", yname("add"), "path", yname(pick(c, []string{"/c1/zz", "/a/c1/zz", "/l/0/c1/zz"})), "value", yquote(integer(97))))
		}
	}
	return ycall("maps.patch", t, ops.tag("!quote"))
}

// k8sPatch patches manifests that have names.
func (g *immGen) k8sPatch() *Y {
	c := g.c
	g.used("k8s.patch")
	pickList := func(p string) *Y {
		if c.Chance(0.3) {
			return yref(p)
		}
		y := yseq()
		for _, b := range g.names {
			if len(b.n) > 2 && b.n[:2] == p[:1]+"m" && c.Chance(0.7) {
				y.L = append(y.L, yref(b.n))
			}
		}
		return y.tag("!quote")
	}
	y := ycall("k8s.patch", pickList("targets"), pickList("patches"))
	if c.Chance(0.3) {
		y = ycall("k8s.patch", y, pickList("patches"))
	}
	return y
}

func c23(c *C) {
	g := &immGen{c: c, exempt: map[int]bool{}}
	var prog []*Y
	eo := opts{}
	def := func(n string, y *Y, v *Val) {
		prog = append(prog, ymap("v", y.anchor(n)))
		g.names = append(g.names, bound{n: n, v: v})
	}
	for n := 1 + c.Intn(3); n > 0; n-- {
		v := genVal(c, genOpt{depth: 3, plain: c.Chance(0.8)})
		for v.K != vMap && v.K != vList || c.Chance(0.2) {
			v = genVal(c, genOpt{depth: 3, plain: true})
		}
		def(g.fresh("d"), ydata(v), v)
	}
	typed := c.Chance(0.6)
	if typed {
		sg := &schemaGen{c: c, prefix: fmt.Sprintf("vh%d", c.Idx), merge: true, deflt: c.Chance(0.5), nokey: []string{"apiVersion", "kind", "metadata", "$schema"}}
		if !sg.deflt && c.Chance(0.5) {
			sg.makeDefs(1)
			defer sg.d.store()()
		}
		g.g = sg
		for n := 1 + c.Intn(2); n > 0; n-- {
			s := sg.object(2, sg.deflt)
			if sg.deflt {
				sg.decorate(s)
			}
			t := g.fresh("T")
			g.types = append(g.types, t)
			prog = append(prog, declare(t, s))
			base := sg.value(s, 3)
			for i := 1 + c.Intn(2); i > 0; i-- {
				v := base
				if i > 1 {
					v = sg.overlay(s, base, "")
				}
				if sg.deflt {
					s.omit(c, v, 0.5)
				}
				if v.K != vMap {
					continue
				}
				plainSchemaKeys(v)
				y := ydata(v)
				ok := false
				attempt(func() { ok = sg.d.conforms(s, v) })
				if ok && !sg.deflt && c.Chance(0.6) {
					y.tag("!" + t)
				}
				def(g.fresh("d"), y, v)
			}
		}
	}
	manifests := c.Chance(0.25)
	if manifests {
		sg := &schemaGen{c: c, prefix: fmt.Sprintf("vhm%d", c.Idx), merge: true, nokey: []string{"apiVersion", "kind", "metadata", "$schema"}}
		g.kinds = sg.someKinds(1 + c.Intn(2))
		defer storeKinds(g.kinds, sg.prefix, sg.d)()
		tl, pl := yseq(), yseq()
		var tv, pv []*Val
		for n := 1 + c.Intn(2); n > 0; n-- {
			k := pick(c, g.kinds)
			v := sg.fitting(k.s, func() *Val { return sg.manifest(k, pick(c, []string{"a", "b"}), "") })
			p := sg.fitting(k.s, func() *Val {
				p := sg.overlay(k.s, v, "")
				for _, f := range []string{"apiVersion", "kind", "metadata"} {
					p.del(f)
					if x := v.get(f); x != nil {
						p.set(f, x.clone())
					}
				}
				return p
			})
			plainSchemaKeys(v)
			plainSchemaKeys(p)
			a, b := g.fresh("tm"), g.fresh("pm")
			def(a, ydata(v), v)
			def(b, ydata(p), p)
			tl.L, tv = append(tl.L, yref(a)), append(tv, v)
			pl.L, pv = append(pl.L, yref(b)), append(pv, p)
		}
		def("targets", tl, list(tv...))
		def("patches", pl, list(pv...))
		if c.Chance(0.5) {
			eo.DisableTypeCheck = true
		}
	}
	seed := c.R.Uint64()
	run := func() (docs []*Val, err error) {
		// the same text for the same documents every time
		e := newEmitter(rand.New(rand.NewPCG(seed, 1)))
		e.tame = true
		src := emitDocs(e, prog)
		c.Input(src)
		docs, _, err = evalDocs(c, src, eo)
		return
	}
	docs, err := run()
	if err != nil {
		c.Count("definitions refused", 1)
		c.Skip()
	}
	// definitions give what was written, with defaults where a type filled them in
	j := 0
	for i := range g.names {
		for j < len(docs) && docs[j].K != vMap {
			j++
		}
		if j >= len(docs) {
			c.Skip()
		}
		g.names[i].v = docs[j].get("v")
		j++
	}
	probe := func() *Y {
		y := ymap()
		for _, b := range g.names {
			y.M = append(y.M, YEnt{str(b.n), yref(b.n)})
		}
		if c.Chance(0.5) {
			y.tag("!yisp")
		}
		return y
	}
	// what the types of the names are
	var asked []string
	for _, b := range g.names {
		if b.v != nil && (b.v.K == vMap || b.v.K == vList) {
			asked = append(asked, b.n)
		}
	}
	types := func() *Y {
		y := ymap()
		for _, n := range asked {
			y.M = append(y.M, YEnt{str(n), ycall("types.get", yref(n))})
		}
		return y.tag("!yisp")
	}
	before := -1
	if typed && c.Chance(0.6) {
		prog = append(prog, types())
		next, err := run()
		switch {
		case err != nil || len(next) != len(docs)+1:
			prog = prog[:len(prog)-1]
		default:
			before, docs = len(docs), next
		}
	}
	done := 0
	for n := 2 + c.Intn(6); n > 0; n-- {
		length := len(prog)
		nhow := len(g.how)
		fns := len(g.fns)
		bindTo := ""
		switch k := c.Intn(10); {
		case k == 0:
			f := g.fresh("f")
			prog = append(prog, g.fn(1).anchor(f).tag("!yisp"))
			if prog[length].K == yAlias {
				prog = prog[:length]
				continue
			}
			g.fns = append(g.fns, f)
		case k == 1:
			prog = append(prog, probe())
		case k == 2 && manifests || k == 3 && manifests:
			prog = append(prog, ymap("r", g.k8sPatch()).tag("!yisp"))
		default:
			y := g.use(2)
			if y == nil {
				continue
			}
			if y.K != yAlias && y.Tag == "" && c.Chance(0.6) {
				bindTo = g.fresh("r")
				y.anchor(bindTo)
			}
			prog = append(prog, ymap("r", y).tag("!yisp"))
		}
		next, err := run()
		if err != nil {
			prog, g.how, g.fns = prog[:length], g.how[:nhow], g.fns[:fns]
			c.Count("refused uses", 1)
			continue
		}
		if len(next) < len(docs) || !sameDocs(docs, next[:len(docs)]) {
			c.Fail("changed", "a use changed what was there before: %s\n--- before\n%s--- after\n%s", firstDiff(list(docs...), list(next...), ""), showDocs(docs), showDocs(next))
			return
		}
		if bindTo != "" && len(next) == len(docs)+1 && next[len(docs)].K == vMap {
			if v := next[len(docs)].get("r"); v != nil {
				g.names = append(g.names, bound{n: bindTo, v: v})
			}
		}
		docs = next
		done++
	}
	if before >= 0 {
		prog = append(prog, types())
		next, err := run()
		switch {
		case err != nil || len(next) != len(docs)+1:
			c.Fail("types", "the types of the names cannot be told any more: %s", errText(err))
			return
		case !same(docs[before], next[len(docs)]):
			c.Fail("types", "the types of the names have changed: %s", firstDiff(docs[before], next[len(docs)], ""))
			return
		}
		c.Count("types compared", len(asked))
		docs = next
	}
	for i := 0; i < 2; i++ {
		p := probe()
		if i == 1 {
			p = ymap()
			for _, b := range g.names {
				y := yref(b.n)
				p.M = append(p.M, YEnt{str(b.n), yseq(y, y)})
			}
			p.tag("!quote")
		}
		prog = append(prog, p)
		next, err := run()
		if err != nil {
			c.Fail("names", "the names cannot be mentioned any more: %s", errText(err))
			return
		}
		if len(next) != len(docs)+1 || !sameDocs(docs, next[:len(docs)]) {
			c.Fail("changed", "mentioning the names changed something: %s\n--- before\n%s--- after\n%s", firstDiff(list(docs...), list(next...), ""), showDocs(docs), showDocs(next))
			return
		}
		for _, b := range g.names {
			want := b.v
			if i == 1 {
				want = list(b.v, b.v)
			}
			if got := next[len(docs)].get(b.n); got == nil || !same(want, got) {
				c.Fail("names", "%s was %v and is now %v", b.n, want, got)
				return
			}
		}
		docs = next
	}
	sort.Strings(g.how)
	c.Count("uses", done)
	for _, h := range g.how {
		c.Count("use: "+h, 1)
	}
	c.Seen(fmt.Sprint(g.how, typed, manifests, len(g.names)))
}
