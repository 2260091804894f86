package main

import (
	"fmt"
	"strings"
)

func init() {
	register(&Prop{
		ID: "C10", Quick: 80000, Thorough: 4000000, Case: c10, Setup: setupCache,
		Rule: "distinct combinations of type (keywords per level), shape of the value, way of checking and verdict on which the engine agreed with the reference validator",
	})
}

// outline says which keywords a type uses.
func (s *schema) outline(d int) string {
	if s == nil {
		return "-"
	}
	k := s.Type
	if s.Ref != "" {
		k = "ref"
	}
	flag := func(ok bool, t string) {
		if ok {
			k += t
		}
	}
	flag(s.Min != nil, " min")
	flag(s.Max != nil, " max")
	flag(s.XMin != nil, " xmin")
	flag(s.XMax != nil, " xmax")
	flag(s.HasMul, " mul")
	flag(s.MinLen >= 0, " minlen")
	flag(s.MaxLen >= 0, " maxlen")
	flag(s.Format != "", " "+s.Format)
	flag(len(s.Req) > 0, " req")
	flag(s.Def != nil, " def")
	flag(s.How != "", " "+s.How)
	flag(s.Key != "", " key")
	if d > 0 {
		for _, p := range s.Props {
			k += "," + p.S.outline(d-1)
		}
		if s.Items != nil {
			k += "[" + s.Items.outline(d-1)
		}
		for _, o := range s.One {
			k += "|" + o.outline(d-1)
		}
	}
	switch ap := s.AP.(type) {
	case bool:
		k += fmt.Sprint(" ap", ap)
	case *schema:
		k += " ap" + ap.outline(d-1)
	}
	return k
}

// plainSchemaKeys keeps $schema entries from naming schemas to load.
func plainSchemaKeys(v *Val) {
	for _, x := range v.L {
		plainSchemaKeys(x)
	}
	for i, e := range v.M {
		if e.K.S == "$schema" && e.V.K == vStr {
			v.M[i].V = null()
		}
		plainSchemaKeys(v.M[i].V)
	}
}

func declare(name string, s *schema) *Y {
	return ycall("schema", yquote(s.val())).tag("!yisp").anchor(name)
}

func c10(c *C) {
	g := &schemaGen{c: c, prefix: fmt.Sprintf("vh%d", c.Idx)}
	if c.Chance(0.15) {
		c10functions(c, g)
		return
	}
	if c.Chance(0.02) {
		c10misuse(c, g)
		return
	}
	if c.Chance(0.35) {
		g.makeDefs(1 + c.Intn(3))
	}
	s := g.schema(1+c.Intn(3), true)
	if len(g.d) > 0 && s.Props == nil && s.Items == nil {
		s = newSchema("array")
		s.Items = g.ref()
	}
	if g.d != nil {
		s2 := g.schema(2, false)
		if s2.Ref == "" {
			s = s2
		}
		if c.Chance(0.05) { // a reference to nothing
			for n := range g.d {
				delete(g.d, n)
				break
			}
		}
	}
	v := g.value(s, 3)
	for n := c.Intn(3); n > 0; n-- {
		v = spoilVal(c, v)
	}
	plainSchemaKeys(v)
	clean := g.d.store()
	defer clean()
	ok := false
	o := attempt(func() { ok = g.d.conforms(s, v) })
	if o.unspec == "" && !ok {
		o.err = "the value does not conform"
	}
	way := pick(c, []string{"assert", "assert", "param", "param2", "nested"})
	var y *Y
	switch way {
	case "assert":
		y = ycall("types.assert", yref("T"), yquote(v))
	case "param":
		y = yseq(ycall("lambda", yseq(yname("x").tag("!T")), yref("x")), yquote(v))
	case "param2":
		y = yseq(ycall("lambda", yseq(yname("u"), yname("x").tag("!T"), yname("w")), yref("x")), yquote(integer(1)), yquote(v), yquote(null()))
	case "nested": // the value is computed
		y = ycall("types.assert", yref("T"), computed(c, v, 2))
	}
	o.docs = []*Val{v}
	if v.K == vNull {
		o.docs = []*Val{list(v)}
		y = yseq(y.tag("!yisp"))
	}
	prog := []*Y{declare("T", s), y}
	if prog[1].Tag == "" && v.K != vNull {
		y.tag("!yisp")
	}
	e := newEmitter(c.R)
	e.tame = c.Chance(0.8)
	src := emitDocs(e, prog)
	c.Input(src + fmt.Sprintf("\n# schemas: %s", g.d.show()))
	if agree(c, o, src, opts{}) {
		c.Count(fmt.Sprintf("%s: %v", way, o.err == ""), 1)
		c.Seen(way + s.outline(2) + v.shape() + fmt.Sprint(o.err == ""))
	}
}

func (d defs) show() string {
	var b strings.Builder
	for n, s := range d {
		fmt.Fprintf(&b, "%s = %s; ", n, s.val())
	}
	return b.String()
}

// c10misuse checks that what is no type is not taken for one, and that types
// take what they are documented to take only.
func c10misuse(c *C, g *schemaGen) {
	other := func() *Y {
		for {
			if v := genVal(c, genOpt{depth: 1, plain: true}); v.K != vMap {
				if c.Chance(0.1) {
					return ycall("lambda", yseq(yname("x")), yref("x"))
				}
				return yquote(v)
			}
		}
	}
	s := g.schema(1, false)
	v := g.value(s, 2)
	decl := declare("T", s)
	val := yquote(v)
	param := func(name string) *Y {
		return yseq(ycall("lambda", yseq(yname("x").tag("!"+name)), yref("x")), val)
	}
	named := other()
	named.Anchor = "N"
	if named.Tag == "" {
		named.tag("!yisp")
	}
	prog := []*Y{decl, ymap("n", named)}
	how := ""
	switch c.Intn(8) {
	case 0:
		how, prog = "schema of no map", append(prog, yseq(ycall("schema", other())))
	case 1:
		how, prog = "schema of nothing", append(prog, yseq(ycall("schema")))
	case 2:
		how, prog = "schema of two", append(prog, yseq(ycall("schema", yquote(s.val()), yquote(s.val()))))
	case 3:
		how, prog = "assert without type", append(prog, yseq(ycall("types.assert", pick(c, []*Y{other(), yref("N")}), val)))
	case 4:
		y := ycall("types.assert", yref("T"))
		if c.Chance(0.5) {
			y = ycall("types.assert", yref("T"), val, val)
		}
		how, prog = "assert count", append(prog, yseq(y))
	case 5:
		how, prog = "parameter without type", append(prog, yseq(param("N")))
	case 6:
		how, prog = "parameter of unknown type", append(prog, yseq(param("U")))
	case 7:
		how, prog = "type of no type", append(prog, yseq(ycall("types.get", pick(c, []*Y{other(), yref("N")}))))
	}
	if last := prog[len(prog)-1]; last.Tag == "" {
		last.tag("!yisp")
	}
	src := emitDocs(newEmitter(c.R), prog)
	c.Input(src)
	if _, err := evalText(c, emitDocs(newEmitter(c.R), prog[:2]), opts{}); err != nil {
		c.Fail("error", "the declarations fail: %s", errText(err))
		return
	}
	if out, err := evalText(c, src, opts{}); err == nil {
		c.Fail("misuse", "%s is accepted\n%s", how, out)
		return
	}
	c.Count("misuse: "+how, 1)
	c.Seen("misuse " + how + v.shape())
}

// c10functions checks functions against function types.
func c10functions(c *C, g *schemaGen) {
	var types []*schema
	for i := 0; i < 3; i++ {
		types = append(types, g.sigType(1))
	}
	fn := newSchema("function")
	fn.Args = []*schema{}
	sig := &signature{}
	params := yseq()
	if c.Chance(0.5) {
		fn.Ret = pick(c, types)
	}
	nested := func(s *schema) *schema {
		if c.Chance(0.15) {
			f := newSchema("function")
			f.Args = []*schema{s}
			if c.Chance(0.2) {
				f.Args = append(f.Args, pick(c, types))
			}
			if c.Chance(0.5) {
				f.Ret = pick(c, types)
			}
			return f
		}
		return s
	}
	near := func(s *schema) *schema {
		if s.Type != "function" {
			return pick(c, types)
		}
		f := newSchema("function")
		f.Args, f.Ret = append([]*schema{}, s.Args...), s.Ret
		switch c.Intn(4) {
		case 0:
			f.Ret = nil
		case 1:
			f.Ret = pick(c, types)
		case 2:
			f.Args[0] = pick(c, types)
		}
		return f
	}
	for n := c.Intn(4); n > 0; n-- {
		fn.Args = append(fn.Args, pick(c, types))
	}
	n := len(fn.Args)
	if c.Chance(0.15) {
		n = c.Intn(4)
	}
	all := append([]*schema{}, types...)
	for i, t := range fn.Args {
		fn.Args[i] = nested(t)
		all = append(all, fn.Args[i])
	}
	for i := 0; i < n; i++ {
		var a *schema
		p := yname(fmt.Sprint("x", i))
		if c.Chance(0.7) {
			k := c.Intn(len(all))
			if i < len(fn.Args) && c.Chance(0.7) {
				k = len(types) + i
			}
			a = all[k]
			if c.Chance(0.15) {
				a = near(a)
				all, k = append(all, a), len(all)
			}
			p.tag(fmt.Sprint("!T", k))
		}
		sig.args = append(sig.args, a)
		params.L = append(params.L, p)
	}
	if c.Chance(0.3) {
		k := c.Intn(len(all))
		if fn.Ret != nil && c.Chance(0.5) {
			all, k = append(all, fn.Ret), len(all)
		}
		sig.ret = all[k]
		params.tag(fmt.Sprint("!T", k))
	}
	var prog []*Y
	for i, t := range all {
		prog = append(prog, declare(fmt.Sprint("T", i), t))
	}
	prog = append(prog, declare("F", fn))
	v := &Val{K: vFunc, X: sig}
	f := ycall("lambda", params, ys(integer(7)))
	holder, hv := f, v
	s := fn
	if c.Chance(0.1) { // not a function at all
		hv = genVal(c, genOpt{depth: 1, plain: true})
		holder = yquote(hv)
	} else if c.Chance(0.3) {
		s = newSchema("object")
		s.Props = []prop{{"cb", fn}}
		hv = mapv("cb", v)
		holder = ymap("cb", f)
	}
	prog = append(prog, declare("S", s))
	ok := false
	o := attempt(func() { ok = g.d.conforms(s, hv) })
	if o.unspec == "" && !ok {
		o.err = "the function does not conform"
	}
	prog = append(prog, ycall("progn", ycall("types.assert", yref("S"), holder), ys(str("fine"))).tag("!yisp"))
	o.docs = []*Val{str("fine")}
	e := newEmitter(c.R)
	e.tame = true
	src := emitDocs(e, prog)
	c.Input(src)
	if agree(c, o, src, opts{}) {
		c.Count(fmt.Sprintf("function: %v", o.err == ""), 1)
		c.Seen("fn" + s.outline(1) + params.Tag + params.L0() + fmt.Sprint(o.err == ""))
	}
}

func (y *Y) L0() string {
	s := ""
	for _, x := range y.L {
		s += x.Tag + ","
	}
	return s
}

// sigType makes a type for a function signature.
func (g *schemaGen) sigType(d int) *schema {
	c := g.c
	switch n := c.Intn(6); {
	case n == 0 && d > 0:
		s := newSchema("array")
		if c.Chance(0.7) {
			s.Items = g.sigType(d - 1)
		}
		return s
	case n == 1 && d > 0:
		s := newSchema("object")
		s.Props = []prop{}
		for _, k := range []string{"a", "b"} {
			if c.Chance(0.6) {
				s.Props = append(s.Props, prop{k, g.sigType(d - 1)})
			}
		}
		return s
	}
	return newSchema(pick(c, []string{"integer", "string", "boolean", "any", "null", "float"}))
}
