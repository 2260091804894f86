package main

import (
	"fmt"
	"strings"
)

// A type-directed generator of programs. Types only steer it away from errors;
// what a program means is the interpreter's business.

type ty struct {
	k      byte // i b s l m f a(ny)
	elem   *ty
	fields []field
	args   []*ty
	ret    *ty
}

type field struct {
	name string
	t    *ty
}

var (
	tInt  = &ty{k: 'i'}
	tBool = &ty{k: 'b'}
	tStr  = &ty{k: 's'}
	tAny  = &ty{k: 'a'}
)

func tList(e *ty) *ty { return &ty{k: 'l', elem: e} }

type binding struct {
	name string
	t    *ty
}

type progGen struct {
	c        *C
	globals  []binding
	locals   []binding
	inLambda int
	inBranch int
	next     int
	data     genOpt
	anchorP  float64
	noFuncs  bool
	special  func(t *ty, d int) *Y // other ways to write an expression
	specialP float64               // how often
}

func newProgGen(c *C) *progGen {
	return &progGen{c: c, data: genOpt{depth: 2, width: 3, plain: c.Chance(0.5)}, anchorP: 0.12, specialP: 0.2}
}

func (g *progGen) dataType(depth int) *ty {
	c := g.c
	if depth <= 0 || c.Chance(0.55) {
		return pick(c, []*ty{tInt, tInt, tStr, tStr, tBool, tAny})
	}
	if c.Chance(0.5) {
		return tList(g.dataType(depth - 1))
	}
	m := &ty{k: 'm'}
	for n := c.Intn(4); n > 0; n-- {
		name := pick(c, []string{"a", "b", "c", "foo", "bar", "name", "k1", "with-dash"})
		dup := false
		for _, f := range m.fields {
			dup = dup || f.name == name
		}
		if !dup {
			m.fields = append(m.fields, field{name, g.dataType(depth - 1)})
		}
	}
	return m
}

func (t *ty) same(o *ty) bool {
	if t.k == 'a' {
		return o.k != 'f'
	}
	if t.k != o.k {
		return false
	}
	switch t.k {
	case 'l':
		return t.elem.same(o.elem)
	case 'm':
		if len(t.fields) > len(o.fields) {
			return false
		}
		for _, f := range t.fields {
			ok := false
			for _, x := range o.fields {
				if x.name == f.name && f.t.same(x.t) {
					ok = true
				}
			}
			if !ok {
				return false
			}
		}
		return true
	case 'f':
		if len(t.args) != len(o.args) || !t.ret.same(o.ret) {
			return false
		}
		for i := range t.args {
			if !o.args[i].same(t.args[i]) {
				return false
			}
		}
		return true
	}
	return true
}

// visibleNames are the bindings in scope, innermost first, without shadowed ones.
func (g *progGen) visibleNames() []binding {
	seen := map[string]bool{}
	var out []binding
	for _, l := range [][]binding{g.locals, g.globals} {
		for i := len(l) - 1; i >= 0; i-- {
			if !seen[l[i].name] {
				seen[l[i].name] = true
				out = append(out, l[i])
			}
		}
	}
	return out
}

// ref finds a name, possibly a dotted one, of the wanted type.
func (g *progGen) ref(t *ty) *Y {
	var cands []string
	for _, b := range g.visibleNames() {
		g.paths(b.name, b.t, t, 3, &cands)
	}
	if len(cands) == 0 {
		return nil
	}
	name := pick(g.c, cands)
	if g.c.Chance(0.06) {
		name += "?"
	}
	if g.c.Chance(0.05) { // optional on the way, too
		name = strings.Replace(name, ".", "?.", 1)
	}
	if g.c.Chance(0.02) {
		name += pick(g.c, []string{".zz", ".zz?", "?.zz", ".a?.zz", ".zz?.a"})
	}
	return yref(name)
}

func (g *progGen) paths(name string, have, want *ty, depth int, out *[]string) {
	if want.same(have) {
		*out = append(*out, name)
	}
	if have.k == 'm' && depth > 0 {
		for _, f := range have.fields {
			g.paths(name+"."+f.name, f.t, want, depth-1, out)
		}
	}
}

func (g *progGen) name() string {
	g.next++
	c := g.c
	if c.Chance(0.25) {
		return pick(c, []string{"x", "y", "acc", "n", "f"})
	}
	if c.Chance(0.02) {
		return fmt.Sprint("q", g.next, "?")
	}
	return pick(c, []string{"v", "val_", "a-b", "foo", "n"}) + fmt.Sprint(g.next)
}

// nameFor names a value, at times with a name that has such a value already.
func (g *progGen) nameFor(t *ty) string {
	if g.c.Chance(0.25) {
		var cands []string
		for _, b := range g.globals {
			if b.t.same(t) {
				cands = append(cands, b.name)
			}
		}
		if len(cands) > 0 {
			return pick(g.c, cands)
		}
	}
	return g.name()
}

// lit writes a constant of the type as code.
func (g *progGen) lit(t *ty) *Y { return yquote(g.constant(t)) }

func (g *progGen) constant(t *ty) *Val {
	c := g.c
	switch t.k {
	case 'i':
		if c.Chance(0.2) {
			return integer(genInt(c))
		}
		return integer(int64(c.Intn(12) - 2))
	case 'b':
		return boolean(c.Chance(0.5))
	case 's':
		if g.data.plain {
			return str(pick(c, words))
		}
		return str(genStr(c))
	case 'l':
		v := list()
		for n := c.Intn(4); n > 0; n-- {
			v.L = append(v.L, g.constant(t.elem))
		}
		return v
	case 'm':
		v := mapv()
		for _, f := range t.fields {
			v.set(f.name, g.constant(f.t))
		}
		if c.Chance(0.1) {
			v.set(pick(c, words), genScalar(c, g.data))
		}
		return v
	}
	return genVal(c, g.data)
}

// code is an expression for evaluation mode.
func (g *progGen) code(t *ty, d int) *Y {
	y := g.code1(t, d)
	if y.K != yAlias && y.Anchor == "" && g.inLambda == 0 && g.c.Chance(g.anchorP) && (g.inBranch == 0 || g.c.Chance(0.1)) && !(y.K == yScalar && g.c.Chance(0.7)) {
		y.Anchor = g.nameFor(t)
		g.globals = append(g.globals, binding{y.Anchor, t})
	}
	return y
}

func (g *progGen) code1(t *ty, d int) *Y {
	c := g.c
	if g.special != nil && d > 0 && c.Chance(g.specialP) {
		if y := g.special(t, d-1); y != nil {
			return y
		}
	}
	if c.Chance(0.3) || d <= 0 && c.Chance(0.6) {
		if y := g.ref(t); y != nil {
			return y
		}
	}
	if d <= 0 && t.k != 'f' {
		return g.lit(t)
	}
	d--
	// forms available for every type
	switch c.Intn(16) {
	case 0:
		cond := g.code(pick(c, []*ty{tBool, tBool, tAny}), d)
		g.inBranch++
		a, b := g.code(t, d), g.code(t, d)
		g.inBranch--
		return ycall("if", cond, a, b)
	case 1:
		y := ycall("progn")
		for n := c.Intn(3); n > 0; n-- {
			y.L = append(y.L, g.code(g.dataType(1), d))
		}
		y.L = append(y.L, g.code(t, d))
		return y
	case 2:
		y := ycall(pick(c, []string{"??", "default"}))
		for n := c.Intn(2); n > 0; n-- {
			y.L = append(y.L, ys(null()))
		}
		if c.Chance(0.3) {
			y.L = append(y.L, yref("nowhere"+pick(c, []string{"?", "?.a", "?.b?"})))
		}
		y.L = append(y.L, g.code(t, d))
		if c.Chance(0.4) {
			y.L = append(y.L, g.code(tAny, d))
		}
		return y
	case 3, 4:
		if y := g.call(t, d); y != nil {
			return y
		}
	case 5:
		arg := g.dataType(1)
		return ycall("pipeline", g.code(arg, d), g.lambda(&ty{k: 'f', args: []*ty{arg}, ret: t}, d))
	case 6:
		if t.k != 'f' {
			l := g.code(tList(t), d)
			return ycall("lists.at", l, ys(integer(int64(c.Intn(2)))))
		}
	case 7:
		if t.k != 'f' {
			return ycall("lists.car", ycall("lists.cons", g.code(t, d), g.code(tList(t), d)))
		}
	case 8:
		k := pick(c, words)
		m := ymap(k, g.code(t, d))
		if c.Chance(0.5) {
			m.M = append([]YEnt{{str("other"), g.code(tAny, d)}}, m.M...)
		}
		return ycall("maps.get", m, yname(k))
	case 9:
		// a function called where it is written
		arg := g.dataType(1)
		return yseq(g.lambda(&ty{k: 'f', args: []*ty{arg}, ret: t}, d), g.code(arg, d))
	}
	switch t.k {
	case 'i':
		switch c.Intn(6) {
		case 0:
			return ycall("lists.length", g.code(tList(g.dataType(1)), d))
		case 1:
			return ycall("lists.reduce", ycall("lists.cons", g.code(tInt, d), g.code(tList(tInt), d)), yname(pick(c, []string{"+", "add", "*", "sub"})))
		}
		y := ycall(pick(c, []string{"+", "add", "-", "sub", "*", "mul", "/", "div"}))
		for n := 1 + c.Intn(3); n > 0; n-- {
			y.L = append(y.L, g.code(tInt, d))
		}
		return y
	case 'b':
		switch c.Intn(6) {
		case 0:
			return ycall(pick(c, []string{"<", "lt", "<=", "lte", ">", "gt", ">=", "gte"}), g.code(tInt, d), g.code(tInt, d))
		case 1:
			x := g.dataType(2)
			return ycall(pick(c, []string{"==", "eq", "!=", "neq"}), g.code(x, d), g.code(x, d))
		case 2:
			return ycall(pick(c, []string{"!", "not"}), g.code(g.dataType(1), d))
		case 3:
			return ycall("strings.contains", g.code(tStr, d), g.code(tStr, d))
		case 4:
			x := g.dataType(1)
			return ycall("lists.contains", g.code(tList(x), d), g.code(x, d))
		}
		y := ycall(pick(c, []string{"&&", "and", "||", "or"}))
		for n := c.Intn(4); n > 0; n-- {
			y.L = append(y.L, g.code(g.dataType(1), d))
		}
		return y
	case 's':
		switch c.Intn(10) {
		case 0:
			return ycall("strings.join", g.code(tList(tStr), d), g.code(tStr, d))
		case 1:
			return ycall("strings.replace", g.code(tStr, d), g.code(tStr, d), g.code(tStr, d))
		case 2:
			return ycall(pick(c, []string{"strings.toUpper", "strings.toLower", "strings.trim", "strings.sha256"}), g.code(tStr, d))
		case 3:
			return ycall("types.of", g.code(g.dataType(1), d))
		case 4:
			return ycall("strings.format", yname(pick(c, []string{"%v-%s", "%v/%q", "%v%%%s"})), g.code(tInt, d), g.code(tStr, d))
		}
		y := ycall("strings.concat")
		for n := c.Intn(4); n > 0; n-- {
			y.L = append(y.L, g.code(tStr, d))
		}
		return y
	case 'l':
		switch c.Intn(12) {
		case 0:
			return ycall("lists.cons", g.code(t.elem, d), g.code(t, d))
		case 1:
			return ycall("lists.cdr", g.code(t, d))
		case 2, 3:
			from := g.dataType(1)
			return ycall("lists.map", g.code(tList(from), d), g.fn(&ty{k: 'f', args: []*ty{from}, ret: t.elem}, d))
		case 4, 5:
			return ycall("lists.filter", g.code(t, d), g.fn(&ty{k: 'f', args: []*ty{t.elem}, ret: tBool}, d))
		case 6:
			y := ycall("lists.flatten")
			for n := 1 + c.Intn(2); n > 0; n-- {
				y.L = append(y.L, g.code(t, d))
			}
			return y
		case 7:
			if t.elem.k == 'i' {
				y := ycall("lists.iota", ys(integer(int64(c.Intn(6)))))
				if c.Chance(0.5) {
					y.L = append(y.L, ys(integer(int64(c.Intn(100)))))
				}
				return y
			}
			if t.elem.k == 's' {
				return ycall("strings.split", g.code(tStr, d), yname(pick(c, []string{"", ",", " ", "a", "o"})))
			}
			if t.elem.k == 'a' {
				return ycall("maps.values", g.code(g.someMap(), d))
			}
		case 8:
			if t.elem.k == 's' {
				return ycall("maps.keys", g.code(g.someMap(), d))
			}
			if t.elem.k == 'a' {
				return ycall("maps.to-entries", g.code(g.someMap(), d))
			}
		case 9:
			if t.elem.k == 'a' {
				return ycall("yaml.unmarshal", ycall("yaml.marshal", g.code(g.dataType(2), d)))
			}
		}
		return g.quoted(t, d)
	case 'm':
		switch c.Intn(7) {
		case 0:
			return ycall("maps.merge", g.code(t, d), g.code(t, d))
		case 1:
			y := ycall("maps.make")
			for _, f := range t.fields {
				y.L = append(y.L, yname(f.name), g.code(f.t, d))
			}
			return y
		case 2:
			return ycall("maps.from-entries", ycall("maps.to-entries", g.code(t, d)))
		case 3, 4:
			return g.mapSyntax(t, d, func(t *ty, d int) *Y { return g.code(t, d) })
		}
		return g.quoted(t, d)
	case 'f':
		return g.lambda(t, d)
	}
	return g.quoted(t, d)
}

func (g *progGen) someMap() *ty {
	for i := 0; i < 8; i++ {
		if t := g.dataType(2); t.k == 'm' {
			return t
		}
	}
	return &ty{k: 'm'}
}

// mapSyntax writes a mapping whose values are made by sub, perhaps with merge keys.
func (g *progGen) mapSyntax(t *ty, d int, sub func(*ty, int) *Y) *Y {
	c := g.c
	y := ymap()
	left := append([]field{}, t.fields...)
	merged := 0
	for len(left) > 0 {
		if merged < 1 && c.Chance(0.12) {
			merged++
			mt := &ty{k: 'm', fields: left}
			if c.Chance(0.5) {
				mt = &ty{k: 'm', fields: left[:1]}
			}
			var v *Y
			switch c.Intn(8) {
			case 0:
				v = ys(null())
			case 1:
				v = g.ref(g.someMap())
				if v == nil {
					v = ys(null())
				}
			case 2, 3: // a list of maps, some of them absent
				v = yseq()
				for n := c.Intn(4); n >= 0; n-- {
					var x *Y
					switch c.Intn(5) {
					case 0:
						x = ys(null())
					case 1:
						x = g.mixed(ycall("if", g.code(tAny, d-1), g.mapSyntax(g.someMap(), d-1, g.code), ys(null())))
					case 2:
						x = g.ref(g.someMap())
					case 3:
						x = g.plain(g.someMap(), d)
					}
					if x == nil {
						x = g.plain(&ty{k: 'm', fields: left[:1]}, d)
					}
					v.L = append(v.L, x)
				}
				v.Tag = "!quote"
				for _, f := range left { // the fields have to come from somewhere
					if c.Chance(0.8) {
						y.M = append(y.M, YEnt{str(f.name), sub(f.t, d)})
					}
				}
				left = nil
			default:
				v = sub(mt, d)
				left = left[len(mt.fields):]
			}
			y.M = append(y.M, YEnt{str("<<"), v})
			continue
		}
		y.M = append(y.M, YEnt{str(left[0].name), sub(left[0].t, d)})
		left = left[1:]
	}
	if c.Chance(0.1) {
		y.M = append(y.M, YEnt{str(pick(c, words)), sub(tAny, d)})
		for i, e := range y.M[:len(y.M)-1] {
			if e.K.S == y.M[len(y.M)-1].K.S {
				y.M = y.M[:len(y.M)-1]
				_ = i
				break
			}
		}
	}
	return y
}

// mixed marks code that is written in data.
func (g *progGen) mixed(y *Y) *Y {
	if y.Tag == "" && (y.K == ySeq || y.K == yMap) {
		y.Tag = "!yisp"
	}
	return y
}

// quoted is data written in code, with code inside.
func (g *progGen) quoted(t *ty, d int) *Y {
	y := g.plain(t, d)
	if (y.K == ySeq || y.K == yMap) && y.Tag == "" && !(len(y.L) == 0 && y.K == ySeq && g.c.Chance(0.5)) {
		y.Tag = "!quote"
	}
	return y
}

// plain is an expression for quote mode.
func (g *progGen) plain(t *ty, d int) *Y {
	c := g.c
	y := g.plain1(t, d)
	if y.K != yAlias && y.Anchor == "" && g.inLambda == 0 && c.Chance(g.anchorP) && (g.inBranch == 0 || c.Chance(0.1)) && !(y.K == yScalar && c.Chance(0.7)) {
		y.Anchor = g.nameFor(t)
		g.globals = append(g.globals, binding{y.Anchor, t})
	}
	return y
}

func (g *progGen) plain1(t *ty, d int) *Y {
	c := g.c
	if c.Chance(0.15) {
		if y := g.ref(t); y != nil {
			return y
		}
	}
	if t.k == 'f' || d > 0 && c.Chance(0.3) {
		y := g.code1(t, d-1)
		if y.K == ySeq && y.Tag == "" && len(y.L) > 0 || y.K == yMap && y.Tag == "" {
			y.Tag = "!yisp"
		}
		return y
	}
	switch t.k {
	case 'l':
		y := yseq()
		for n := c.Intn(4); n > 0; n-- {
			y.L = append(y.L, g.plain(t.elem, d-1))
		}
		return y
	case 'm':
		return g.mapSyntax(t, d, func(t *ty, d int) *Y { return g.plain(t, d-1) })
	}
	y := ydata(g.constant(t))
	return y
}

// fn is a function value: written in place, named, or the name of an operator.
func (g *progGen) fn(t *ty, d int) *Y {
	c := g.c
	if len(t.args) == 1 && c.Chance(0.2) {
		a := t.args[0]
		switch {
		case t.ret.k == 'b' && a.k != 'f':
			return yname(pick(c, []string{"!", "not", "and", "or"}))
		case t.ret.k == 's' && a.k == 's':
			return yname(pick(c, []string{"strings.toUpper", "strings.trim", "strings.sha256", "strings.concat"}))
		case t.ret.k == 's':
			return yname("types.of")
		case t.ret.k == 'i' && a.k == 'l':
			return yname("lists.length")
		case t.ret.k == 'i' && a.k == 'i':
			return yname(pick(c, []string{"+", "*", "-"}))
		case t.ret.k == 'a':
			return yname(pick(c, []string{"progn", "types.of", "not"}))
		}
	}
	if c.Chance(0.3) {
		if y := g.ref(t); y != nil {
			return y
		}
	}
	return g.lambda(t, d)
}

func (g *progGen) lambda(t *ty, d int) *Y {
	c := g.c
	ps := yseq()
	saved := len(g.locals)
	used := map[string]bool{}
	var bs []binding
	for _, a := range t.args {
		n := pick(c, []string{"x", "y", "acc", "n", "item", "k_v"})
		for used[n] {
			n += "1"
		}
		used[n] = true
		p := yname(n)
		if c.Chance(0.15) {
			switch a.k {
			case 'i':
				p.Tag = "!int"
			case 's':
				p.Tag = "!string"
			case 'b':
				p.Tag = "!bool"
			}
		}
		ps.L = append(ps.L, p)
		bs = append(bs, binding{n, a})
	}
	g.locals = append(g.locals, bs...)
	g.inLambda++
	body := g.code(t.ret, d)
	g.inLambda--
	g.locals = g.locals[:saved]
	return ycall("lambda", ps, body)
}

// call calls a named function of the wanted result.
func (g *progGen) call(t *ty, d int) *Y {
	var cands []binding
	for _, b := range g.visibleNames() {
		if b.t.k == 'f' && t.same(b.t.ret) {
			cands = append(cands, b)
		}
	}
	if len(cands) == 0 {
		return nil
	}
	b := pick(g.c, cands)
	y := yseq(yref(b.name))
	for _, a := range b.t.args {
		y.L = append(y.L, g.code(a, d))
	}
	return y
}

// recursive defines a function that calls itself.
func (g *progGen) recursive() *Y {
	c := g.c
	name := g.name()
	self := func(args ...*Y) *Y { return yseq(append([]*Y{yref(name)}, args...)...) }
	var y *Y
	var t *ty
	switch c.Intn(4) {
	case 0: // factorial
		y = ycall("lambda", yseq(yname("n")), ycall("if", ycall("<=", yref("n"), ys(integer(1))), ys(integer(1)), ycall("*", yref("n"), self(ycall("-", yref("n"), ys(integer(1)))))))
		t = &ty{k: 'f', args: []*ty{tInt}, ret: tInt}
	case 1: // length of a list
		y = ycall("lambda", yseq(yname("x")), ycall("if", yref("x"), ycall("+", ys(integer(1)), self(ycall("lists.cdr", yref("x")))), ys(integer(0))))
		t = &ty{k: 'f', args: []*ty{tList(tAny)}, ret: tInt}
	case 2: // reverse onto an accumulator
		y = ycall("lambda", yseq(yname("x"), yname("acc")), ycall("if", yref("x"), self(ycall("lists.cdr", yref("x")), ycall("lists.cons", ycall("lists.car", yref("x")), yref("acc"))), yref("acc")))
		t = &ty{k: 'f', args: []*ty{tList(tStr), tList(tStr)}, ret: tList(tStr)}
	default: // fibonacci
		y = ycall("lambda", yseq(yname("n")), ycall("if", ycall("<", yref("n"), ys(integer(2))), yref("n"), ycall("+", self(ycall("-", yref("n"), ys(integer(1)))), self(ycall("-", yref("n"), ys(integer(2)))))))
		t = &ty{k: 'f', args: []*ty{tInt}, ret: tInt}
	}
	y.Anchor = name
	g.globals = append(g.globals, binding{name, t})
	return y
}

// adder defines a function that returns functions.
func (g *progGen) adder() *Y {
	c := g.c
	name := g.name()
	inner := ycall("lambda", yseq(yname("y")), ycall(pick(c, []string{"+", "-", "*"}), yref("x"), yref("y")))
	y := ycall("lambda", yseq(yname("x")), inner)
	y.Anchor = name
	g.globals = append(g.globals, binding{name, &ty{k: 'f', args: []*ty{tInt}, ret: &ty{k: 'f', args: []*ty{tInt}, ret: tInt}}})
	return y
}

// capture defines a function that uses a name, defines the name again, and calls the function.
func (g *progGen) capture() []*Y {
	c := g.c
	t := g.dataType(1)
	name, f := g.name(), g.name()
	for f == name {
		f = g.name()
	}
	def := func() *Y {
		y := g.plain(t, 2)
		if y.K == yAlias || y.Anchor != "" {
			y = ydata(g.constant(t))
		}
		y.Anchor = name
		return y
	}
	docs := []*Y{def()}
	g.globals = append(g.globals, binding{name, t})
	body := yref(name)
	arg := g.dataType(1)
	var y *Y
	switch c.Intn(4) {
	case 0:
		y = ycall("lambda", yseq(yname("p")), body)
	case 1: // captured by a function inside
		y = ycall("lambda", yseq(yname("p")), yseq(ycall("lambda", yseq(yname("q")), ycall("progn", yref("q"), body)), yref("p")))
	case 2: // the parameter hides it
		y = ycall("lambda", yseq(yname("p"), yname(name)), ycall("progn", yref("p"), body))
	default:
		y = ycall("lambda", yseq(yname("p")), ycall("if", yref("p"), body, ycall("progn", body)))
	}
	ft := &ty{k: 'f', args: []*ty{arg}, ret: t}
	if len(y.L[1].L) == 2 {
		ft.args = append(ft.args, t)
	}
	y.Tag, y.Anchor = "!yisp", f
	docs = append(docs, y)
	g.globals = append(g.globals, binding{f, ft})
	for n := c.Intn(3); n > 0; n-- {
		docs = append(docs, def())
	}
	call := yseq(yref(f))
	for _, a := range ft.args {
		call.L = append(call.L, g.code(a, 1))
	}
	call.Tag = "!yisp"
	return append(docs, call)
}

// shadow makes a name that means one map outside and another value inside of a
// function, which takes it apart.
func (g *progGen) shadow() []*Y {
	c := g.c
	keys := []string{"a", "b", "c"}
	var value func(d int) *Val
	value = func(d int) *Val {
		if d == 0 || c.Chance(0.15) {
			return pick(c, []*Val{integer(int64(c.Intn(9))), str(pick(c, words)), null(), list(), boolean(false), list(integer(1))})
		}
		m := mapv()
		for _, k := range keys {
			if c.Chance(0.6) {
				m.set(k, value(d-1))
			}
		}
		return m
	}
	name := g.name()
	outer := ydata(value(3))
	for outer.K != yMap {
		outer = ydata(value(3))
	}
	outer.Anchor = name
	path := name
	for n := 1 + c.Intn(3); n > 0; n-- {
		if c.Chance(0.03) {
			path += "?"
		}
		path += "." + pick(c, keys)
	}
	if c.Chance(0.08) {
		path += "?"
	}
	body := yref(path)
	switch c.Intn(4) {
	case 0:
		body = ycall("??", body, yref(name))
	case 1:
		body = yseq(yref(name), body).tag("!quote")
	}
	f := ycall("lambda", yseq(yname(name)), body)
	if c.Chance(0.3) {
		f = ycall("lambda", yseq(yname("p")), yseq(ycall("lambda", yseq(yname(name)), body), yref("p")))
	}
	arg := yquote(value(2))
	y := yseq(f, arg)
	if c.Chance(0.3) { // used where it means the outer map
		y = ycall("lists.map", yquote(list(value(2), value(2))), f)
	}
	return []*Y{outer, y.tag("!yisp"), ymap("outer", yref(path))}[:2+c.Intn(2)]
}

// layers is a stream of mappings that are merged into each other, made from so
// few keys that they disagree about most of them, often with a mapping on both
// sides.
func layers(c *C) []*Y {
	keys := []string{"a", "b", "c", "d"}
	var value func(d int) *Val
	value = func(d int) *Val {
		if d == 0 || c.Chance(0.2) {
			return pick(c, []*Val{integer(int64(c.Intn(9))), str(pick(c, words)), null(), list(), mapv(), boolean(false), list(integer(1), str("x"))})
		}
		m := mapv()
		for _, i := range c.R.Perm(len(keys))[:1+c.Intn(3)] {
			m.set(keys[i], value(d-1))
		}
		return m
	}
	var docs []*Y
	var names []string
	for n := 2 + c.Intn(3); n > 0; n-- {
		var y *Y
		for y == nil || y.K != yMap {
			y = ydata(value(2))
		}
		if len(names) > 0 {
			from := yref(pick(c, names))
			if c.Chance(0.4) {
				from = yseq(from)
				for k := c.Intn(3); k > 0; k-- {
					from.L = append(from.L, yref(pick(c, names)))
				}
				if c.Chance(0.2) {
					from.L = append(from.L, ys(null()))
				}
			} else if c.Chance(0.2) {
				from = ydata(value(2))
				for from.K != yMap {
					from = ydata(value(2))
				}
			}
			i := c.Intn(len(y.M) + 1)
			y.M = append(y.M[:i:i], append([]YEnt{{str("<<"), from}}, y.M[i:]...)...)
		}
		if c.Chance(0.7) {
			y.Anchor = fmt.Sprintf("m%d", len(names))
			names = append(names, y.Anchor)
		}
		docs = append(docs, y)
	}
	return docs
}

// program is a stream of documents.
func (g *progGen) program() []*Y {
	c := g.c
	var docs []*Y
	for n := 1 + c.Intn(4); n > 0; n-- {
		var y *Y
		if c.Chance(0.08) {
			docs = append(docs, g.capture()...)
			continue
		}
		if c.Chance(0.05) {
			docs = append(docs, g.shadow()...)
			continue
		}
		if len(docs) == 0 && c.Chance(0.06) {
			docs = append(docs, layers(c)...)
			continue
		}
		switch c.Intn(10) {
		case 0, 1:
			y = g.recursive()
			y.Tag = "!yisp"
		case 2:
			y = g.adder()
			y.Tag = "!yisp"
		case 3: // a named function
			t := &ty{k: 'f', ret: g.dataType(1)}
			for k := c.Intn(3); k > 0; k-- {
				t.args = append(t.args, g.dataType(1))
			}
			y = g.lambda(t, 3)
			y.Tag = "!yisp"
			y.Anchor = g.name()
			g.globals = append(g.globals, binding{y.Anchor, t})
		case 4, 5:
			y = g.code(g.dataType(2), 3)
			if y.K == ySeq || y.K == yMap {
				if y.Tag == "" {
					y.Tag = "!yisp"
				}
			}
		case 6:
			y = ycall("lists.as-toplevel", g.code(tList(g.dataType(1)), 2))
			y.Tag = "!yisp"
		default:
			y = g.plain(g.dataType(3), 3)
		}
		docs = append(docs, y)
	}
	return docs
}

// spoil makes a program wrong, or at least different, in one place.
func (g *progGen) spoil(docs []*Y) {
	c := g.c
	var nodes []*Y
	for _, d := range docs {
		d.walk(func(y *Y) { nodes = append(nodes, y) })
	}
	for try := 0; try < 20; try++ {
		y := pick(c, nodes)
		switch {
		case y.K == ySeq && len(y.L) > 1 && y.L[0].K == yScalar && y.L[0].V.K == vStr && y.L[0].Anchor == "" && c.Chance(0.12):
			// the function is said by an alias, which works for functions but
			// does not make a special form
			inner := yseq(append([]*Y{yref("zz")}, y.L[1:]...)...)
			y.L = []*Y{ys(str("progn")), y.L[0].anchor("zz"), inner}
			return
		case y.K == yMap && c.Chance(0.25): // merging what is no mapping
			from := ydata(pick(c, []*Val{str(""), str("x"), integer(0), boolean(false), list(str("")), list(mapv(), integer(0)), list(list()), list(), null(), mapv()}))
			if from.K == ySeq {
				from.Tag = "!quote"
			}
			for i, e := range y.M {
				if e.K.K == vStr && e.K.S == "<<" {
					y.M = append(y.M[:i:i], y.M[i+1:]...)
					break
				}
			}
			i := c.Intn(len(y.M) + 1)
			y.M = append(y.M[:i:i], append([]YEnt{{str("<<"), from}}, y.M[i:]...)...)
			return
		case y.K == ySeq && len(y.L) > 0 && c.Chance(0.6):
			i := c.Intn(len(y.L))
			switch c.Intn(5) {
			case 0:
				y.L = append(y.L[:i:i], y.L[i+1:]...)
			case 1:
				y.L = append(y.L, yquote(genVal(c, genOpt{depth: 1, plain: true})))
			case 2:
				y.L[i] = yquote(genVal(c, genOpt{depth: 1}))
			case 3:
				y.L[i] = ys(null())
			case 4:
				j := c.Intn(len(y.L))
				y.L[i], y.L[j] = y.L[j], y.L[i]
			}
			return
		case y.K == yAlias && c.Chance(0.4):
			y.Name = pick(c, []string{"undefined", "x", y.Name + ".a", y.Name + ".zz?", "n", "undefined?", "int"})
			return
		case y.K == yScalar && y.V.K == vStr && opModels[y.V.S] != nil && c.Chance(0.7):
			y.V = str(pick(c, []string{y.V.S + ".x", y.V.S + ".", "." + y.V.S, strings.ToUpper(y.V.S), y.V.S + " ", "nosuch", "lists.nosuch", "nosuch.at", "+", "lists.car", "maps.get", "strings.concat", "==", "not", "if", "lambda"}))
			return
		case y.K != yAlias && y.Tag == "" && (y.K == ySeq || y.K == yMap) && c.Chance(0.3):
			y.Tag = pick(c, []string{"!yisp", "!quote"})
			return
		}
	}
}
