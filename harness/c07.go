package main

import (
	"fmt"
)

func init() {
	register(&Prop{
		ID: "C07", Quick: 50000, Thorough: 4000000, Case: c07, Setup: setupCache,
		Rule: "distinct combinations of type (strategies and merge keys per level), shapes of the merged values and outcome on which the engine agreed with the reference merge",
	})
}

func c07(c *C) {
	if c.Chance(0.4) {
		c07plain(c)
		return
	}
	g := &schemaGen{c: c, prefix: fmt.Sprintf("vh%d", c.Idx), merge: true}
	if c.Chance(0.3) {
		g.makeDefs(1 + c.Intn(2))
	}
	s := g.object(3, false)
	for len(s.Props) == 0 {
		s = g.object(3, false)
	}
	clean := g.d.store()
	defer clean()
	whole := func() *Val { return g.value(s, 3) }
	args := []*Val{g.fitting(s, whole)}
	for n := 1 + c.Intn(3); n > 0; n-- {
		if c.Chance(0.2) {
			args = append(args, g.fitting(s, whole))
		} else {
			base := pick(c, args)
			args = append(args, g.fitting(s, func() *Val { return g.overlay(s, base, "") }))
		}
	}
	st := s.strategy(g.d, 0)
	var want *Val
	typed := c.Chance(0.85)
	o := attempt(func() {
		for i, a := range args {
			if typed && !g.d.conforms(s, a) {
				bad("argument does not conform")
			}
			if i == 0 {
				want = a
			} else if typed {
				want = mergeVals(want, a, st)
			} else {
				want = mergeVals(want, a, nil)
			}
		}
		if typed && !g.d.conforms(s, want) {
			bad("the result does not conform")
		}
	})
	prog := []*Y{declare("T", s)}
	way := pick(c, []string{"literal", "named", "reduce"})
	call := ycall("maps.merge")
	var before []*Val
	cast := func(y *Y) *Y {
		if typed {
			y.tag("!T")
		}
		return y
	}
	switch way {
	case "literal":
		for _, a := range args {
			call.L = append(call.L, cast(ycall("progn", yquote(a))))
		}
	case "named":
		for i, a := range args {
			n := fmt.Sprint("v", i)
			y := ydata(a)
			if typed {
				y.tag("!T")
			}
			prog = append(prog, yseq(y.anchor(n)))
			before = append(before, list(a))
			call.L = append(call.L, yref(n))
		}
	case "reduce":
		var l []*Y
		for _, a := range args {
			l = append(l, cast(ycall("progn", yquote(a))))
			l[len(l)-1] = ymap("v", l[len(l)-1])
		}
		y := yseq()
		for _, x := range l {
			y.L = append(y.L, x.tag("!yisp"))
		}
		call = ycall("lists.reduce", ycall("lists.map", y.tag("!quote"), ycall("lambda", yseq(yname("x")), yref("x.v"))), yname("maps.merge"))
	}
	prog = append(prog, ymap("r", call).tag("!yisp"))
	if way == "named" { // the arguments are still what they were
		for i, a := range args {
			prog = append(prog, yseq(yref(fmt.Sprint("v", i))))
			before = append(before, nil)
			before[len(before)-1] = list(a)
		}
	}
	if o.err == "" {
		n := len(before)
		if way == "named" {
			n /= 2
		}
		o.docs = append(o.docs, before[:n]...)
		o.docs = append(o.docs, mapv("r", want))
		o.docs = append(o.docs, before[n:]...)
	}
	e := newEmitter(c.R)
	e.tame = c.Chance(0.8)
	src := emitDocs(e, prog)
	c.Input(src + "\n# schemas: " + g.d.show())
	if agree(c, o, src, opts{}) {
		c.Count(fmt.Sprintf("%s, typed %v, %v", way, typed, o.err == ""), 1)
		k := way + s.outline(3) + fmt.Sprint(typed, o.err)
		for _, a := range args {
			k += a.shape()
		}
		c.Seen(k)
	}
}

// c07plain merges maps without types.
func c07plain(c *C) {
	a := &argGen{c: c, o: genOpt{depth: 4, width: 5, plain: c.Chance(0.7)}, g: newProgGen(c)}
	args := []*Val{genMap(c, a.o)}
	for n := c.Intn(4); n > 0; n-- {
		x := a.near(args[c.Intn(len(args))].clone())
		if x.K != vMap || c.Chance(0.1) {
			x = genMap(c, a.o)
		}
		args = append(args, x)
	}
	want := args[0]
	for _, x := range args[1:] {
		want = mergeVals(want, x, nil)
	}
	y := ycall("maps.merge")
	for _, x := range args {
		y.L = append(y.L, computed(c, x, 1))
	}
	e := newEmitter(c.R)
	e.tame = c.Chance(0.5)
	src := emitDocs(e, []*Y{ymap("r", y).tag("!yisp")})
	c.Input(src)
	if agree(c, outcome{docs: []*Val{mapv("r", want)}}, src, opts{}) {
		c.Count("plain", 1)
		k := ""
		for _, a := range args {
			k += a.shape()
		}
		c.Seen(k)
	}
}
