package main

import (
	"fmt"
)

func init() {
	register(&Prop{
		ID: "C11", Quick: 80000, Thorough: 4000000, Case: c11, Setup: setupCache,
		Rule: "distinct combinations of type (keywords per level), shape of the value before and after, way of casting and verdict on which the engine agreed with the reference",
	})
}

// alike compares values without regard to the order of map entries.
func alike(a, b *Val) bool {
	if a.K != b.K {
		return false
	}
	switch a.K {
	case vList:
		if len(a.L) != len(b.L) {
			return false
		}
		for i := range a.L {
			if !alike(a.L[i], b.L[i]) {
				return false
			}
		}
		return true
	case vMap:
		if len(a.M) != len(b.M) {
			return false
		}
		for _, e := range a.M {
			x := b.get(e.K.S)
			if x == nil || !alike(e.V, x) {
				return false
			}
		}
		return true
	}
	return same(a, b)
}

// keptOrder says whether the entries of have come in the same order in got.
func keptOrder(have, got *Val) bool {
	if have.K != got.K {
		return false
	}
	switch have.K {
	case vList:
		for i := range have.L {
			if i >= len(got.L) || !keptOrder(have.L[i], got.L[i]) {
				return false
			}
		}
	case vMap:
		at := -1
		for _, e := range have.M {
			i, ok := got.find(e.K.S)
			if !ok || i < at || !keptOrder(e.V, got.M[i].V) {
				return false
			}
			at = i
		}
	}
	return true
}

// omit leaves out parts of a value that a type gives defaults for.
func (s *schema) omit(c *C, v *Val, p float64) {
	for _, x := range v.L {
		if s.Items != nil {
			s.Items.omit(c, x, p)
		}
	}
	if v.K != vMap {
		return
	}
	for _, q := range s.Props {
		x := v.get(q.Name)
		if x == nil {
			continue
		}
		if c.Chance(p) {
			v.del(q.Name)
			continue
		}
		q.S.omit(c, x, p)
	}
}

func c11(c *C) {
	g := &schemaGen{c: c, prefix: fmt.Sprintf("vh%d", c.Idx), deflt: true}
	var s *schema
	if c.Chance(0.8) {
		s = g.object(1+c.Intn(3), true)
		g.decorate(s)
	} else {
		s = g.schema(1+c.Intn(3), true)
	}
	v := g.value(s, 3)
	s.omit(c, v, pick(c, []float64{0, 0.3, 0.6, 1}))
	if c.Chance(0.3) {
		v = spoilVal(c, v)
	}
	plainSchemaKeys(v)
	var want *Val
	o := attempt(func() {
		want = s.fill(v)
		if !g.d.conforms(s, want) {
			bad("the filled value does not conform")
		}
	})
	if o.unspec != "" {
		c.Skip()
	}
	var prog []*Y
	way := pick(c, []string{"plain", "computed", "named", "function"})
	if v.K != vList && v.K != vMap && way == "plain" {
		way = "computed"
	}
	prog = append(prog, declare("T", s))
	before := []*Val{}
	switch way {
	case "plain": // a value written with the tag, among data
		y := ydata(v).tag("!T")
		prog = append(prog, yseq(y, ys(integer(1))))
		want = list(want, integer(1))
		v = list(v, integer(1))
	case "computed": // what an expression gives
		prog = append(prog, ymap("r", computedCall(c, v).tag("!T")).tag("!yisp"))
		want = mapv("r", want)
		v = mapv("r", v)
	case "named": // a value that is in use elsewhere
		prog = append(prog, yseq(ydata(v).anchor("v")))
		before = append(before, list(v))
		prog = append(prog, ymap("x", yref("v"), "y", ycall("progn", yref("v")).tag("!T"), "z", yref("v")).tag("!yisp"))
		want = mapv("x", v, "y", want, "z", v)
		v = mapv("x", v, "y", v, "z", v)
	case "function": // in a function, several times
		f := ycall("lambda", yseq(yname("x")), ycall("progn", yref("x")).tag("!T"))
		prog = append(prog, ycall("lists.map", yquote(list(v, v)), f).tag("!yisp"))
		want = list(want, want)
		v = list(v, v)
	}
	e := newEmitter(c.R)
	e.tame = c.Chance(0.8)
	src := emitDocs(e, prog)
	c.Input(src)
	got, out, err := evalDocs(c, src, opts{})
	if o.err != "" {
		if err == nil {
			c.Fail("no-error", "the cast must fail (%s) but gives\n%s", o.err, out)
			return
		}
	} else {
		if err != nil {
			c.Fail("error", "evaluation fails: %s\n--- want\n%s", errText(err), showDocs([]*Val{want}))
			return
		}
		wants := append(before, want)
		if len(got) != len(wants) {
			c.Fail("result", "%d documents, want %d\n%s", len(got), len(wants), out)
			return
		}
		if !alike(list(wants...), list(got...)) {
			c.Fail("result", "want\n%s--- got\n%s", showDocs(wants), showDocs(got))
			return
		}
		if !keptOrder(v, got[len(got)-1]) {
			c.Fail("order", "the entries of the value changed their order: %s\n--- got\n%s", v, showDocs(got))
			return
		}
		if !alike(v, want) {
			c.Count("values filled in", 1)
		}
	}
	c.Count(fmt.Sprintf("%s: %v", way, o.err == ""), 1)
	c.Seen(way + s.outline(2) + v.shape() + fmt.Sprint(o.err == ""))
}

// computedCall makes a call that gives a value.
func computedCall(c *C, v *Val) *Y {
	y := computed(c, v, 1)
	if y.K == ySeq && y.Tag == "" && len(y.L) > 0 {
		return y
	}
	return ycall("progn", y)
}
