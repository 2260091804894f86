package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
)

// One operator is applied to generated arguments, right and wrong ones, and the
// outcome compared with its model.

// sigs lists how each operator is usually called: a letter for each argument.
//
//	a any   n number  i integer  s string  S strings  l list  m map  t tuples
//	d document list   k a key    1 2 functions of one or two arguments
//	p a position      c a count  e an item of the first argument  = like the first
var sigs = map[string][]string{
	"+": {"", "i", "ii", "iii", "iiiiii"}, "add": {"", "ii"}, "-": {"", "i", "ii", "iiii"}, "sub": {"i", "ii"},
	"*": {"", "i", "ii", "iii"}, "mul": {"ii"}, "/": {"", "i", "ii", "iii", "iiii"}, "div": {"i", "ii"},
	"==": {"aa", "a=", "a=", "nn", "n="}, "eq": {"a=", "n="}, "!=": {"a=", "n=", "aa"}, "neq": {"a="},
	"<": {"nn", "n="}, "lt": {"n="}, "<=": {"nn", "n="}, "lte": {"n="}, ">": {"nn", "n="}, "gt": {"n="}, ">=": {"nn", "n="}, "gte": {"n="},
	"&&": {"", "a", "aa", "aaa"}, "and": {"aa", "aaaa"}, "||": {"", "a", "aa", "aaa"}, "or": {"aaaa"}, "!": {"a"}, "not": {"a"},
	"??": {"", "a", "aa", "aaa"}, "default": {"aa", "aaaa"},

	"strings.concat": {"", "s", "ss", "sss", "ssss"}, "strings.contains": {"ss", "s="}, "strings.quote": {"a", "s"},
	"strings.format": {"F"}, "strings.join": {"Ss", "Ss"}, "strings.replace": {"sss", "s=s", "s=sc", "sssc"},
	"strings.sha256": {"s"}, "strings.split": {"ss", "s="}, "strings.toUpper": {"s"}, "strings.toLower": {"s"}, "strings.trim": {"s"},

	"lists.car": {"l"}, "lists.cdr": {"l"}, "lists.cons": {"al", "ld"}, "lists.contains": {"la", "le", "le"}, "lists.filter": {"l1", "d1"},
	"lists.map": {"l1", "d1"}, "lists.reduce": {"l2"}, "lists.flatten": {"", "l", "ll", "L", "LL", "a", "al", "d", "dd"},
	"lists.iota": {"c", "cc"}, "lists.length": {"l", "d"}, "lists.at": {"lp"}, "lists.as-toplevel": {"", "l", "a", "ll", "la"},

	"maps.from-entries": {"t", "t"}, "maps.to-entries": {"m"}, "maps.keys": {"m"}, "maps.values": {"m"}, "maps.get": {"mk", "mk"},
	"maps.make": {"", "sa", "sasa", "sasasa"}, "maps.merge": {"", "m", "m=", "m==", "mm"},
}

type argGen struct {
	c   *C
	o   genOpt
	g   *progGen
	dup bool
}

func (a *argGen) str() *Val {
	if a.o.plain && a.c.Chance(0.6) {
		return str(pick(a.c, words))
	}
	return str(genStr(a.c))
}

func (a *argGen) num() *Val {
	c := a.c
	if c.Chance(0.5) {
		return integer(genInt(c))
	}
	if c.Chance(0.03) {
		return float(math.NaN())
	}
	return float(genFloat(c))
}

// near makes a value equal or almost equal to another one.
func (a *argGen) near(v *Val) *Val {
	c := a.c
	switch v.K {
	case vInt:
		switch c.Intn(5) {
		case 0:
			return float(float64(v.I))
		case 1:
			return float(math.Nextafter(float64(v.I), pick(c, []float64{math.Inf(1), math.Inf(-1)})))
		case 2:
			return integer(v.I + int64(c.Intn(3)) - 1)
		case 3:
			return str(fmt.Sprint(v.I))
		}
		return v
	case vFloat:
		switch c.Intn(5) {
		case 0:
			if math.Abs(v.F) < 9e18 {
				return integer(int64(v.F))
			}
		case 1:
			return float(math.Nextafter(v.F, pick(c, []float64{math.Inf(1), math.Inf(-1)})))
		case 2:
			return float(-v.F)
		}
		return v
	case vStr:
		r := []rune(v.S)
		if len(r) == 0 || c.Chance(0.3) {
			return v
		}
		i, j := c.Intn(len(r)+1), c.Intn(len(r)+1)
		if i > j {
			i, j = j, i
		}
		return str(string(r[i:j]))
	case vList:
		n := list()
		for _, x := range v.L {
			if c.Chance(0.15) {
				x = a.near(x)
			}
			n.L = append(n.L, x)
		}
		if c.Chance(0.1) && len(n.L) > 0 {
			n.L = n.L[1:]
		}
		if c.Chance(0.1) {
			n.L = append(n.L, genScalar(c, a.o))
		}
		return n
	case vMap:
		n := mapv()
		for _, e := range v.M {
			if c.Chance(0.15) {
				if c.Chance(0.5) {
					continue
				}
				e.V = a.near(e.V)
			}
			n.M = append(n.M, e)
		}
		if c.Chance(0.5) {
			c.R.Shuffle(len(n.M), func(i, j int) { n.M[i], n.M[j] = n.M[j], n.M[i] })
		}
		if c.Chance(0.2) {
			n.set(genKey(c, a.o).S, genVal(c, genOpt{depth: 1}))
		}
		return n
	}
	if c.Chance(0.2) {
		return genScalar(c, a.o)
	}
	return v
}

func (a *argGen) list() *Val {
	c := a.c
	v := list()
	for n := c.Intn(6); n > 0; n-- {
		if len(v.L) > 0 && c.Chance(0.2) {
			v.L = append(v.L, a.near(pick(c, v.L)))
			continue
		}
		v.L = append(v.L, genVal(c, a.o))
	}
	return v
}

// arg makes the syntax of one argument.
func (a *argGen) arg(k byte, first *Val) (*Y, *Val) {
	c := a.c
	if c.Chance(0.02) {
		k = pick(c, []byte("anislmtd12"))
	}
	q := func(v *Val) (*Y, *Val) { return yquote(v), v }
	switch k {
	case 'n':
		return q(a.num())
	case 'i':
		if c.Chance(0.08) {
			return q(genScalar(c, a.o))
		}
		return q(integer(genInt(c)))
	case 's':
		return q(a.str())
	case 'S':
		v := list()
		for n := c.Intn(5); n > 0; n-- {
			v.L = append(v.L, a.str())
		}
		if c.Chance(0.04) {
			v.L = append(v.L, genScalar(c, a.o))
		}
		return q(v)
	case 'l':
		return q(a.list())
	case 'L':
		v := list()
		for n := c.Intn(4); n > 0; n-- {
			if c.Chance(0.2) {
				v.L = append(v.L, genScalar(c, a.o))
			} else {
				v.L = append(v.L, a.list())
			}
		}
		return q(v)
	case 'd':
		v := a.list()
		return ycall("lists.as-toplevel", yquote(v)), v
	case 'm':
		return q(genMap(c, a.o))
	case 't':
		v := list()
		for n := c.Intn(5); n > 0; n-- {
			k := genKey(c, a.o)
			if len(v.L) > 0 && c.Chance(0.25) {
				k = v.L[c.Intn(len(v.L))].L[0]
			}
			t := list(k, genVal(c, genOpt{depth: 1}))
			if c.Chance(0.02) {
				t.L = append(t.L, null())
			}
			if c.Chance(0.02) {
				t.L = t.L[:1]
			}
			v.L = append(v.L, t)
		}
		return q(v)
	case 'k':
		if first != nil && first.K == vMap && len(first.M) > 0 && c.Chance(0.8) {
			return q(pick(c, first.M).K)
		}
		if first != nil && first.K == vMap && len(first.M) > 0 && c.Chance(0.6) {
			return q(a.near(pick(c, first.M).K))
		}
		return q(a.str())
	case 'p':
		n := 0
		if first != nil {
			n = len(first.L)
		}
		return q(integer(int64(c.Intn(n+3) - 1)))
	case 'c':
		return q(integer(int64(c.Intn(8) - 1)))
	case 'e':
		if first != nil && len(first.L) > 0 {
			return q(a.near(pick(c, first.L)))
		}
		return q(genVal(c, a.o))
	case '=':
		if first != nil {
			return q(a.near(first))
		}
	case '1':
		if c.Chance(0.1) { // it may not fit the items
			return yname(pick(c, []string{"strings.toUpper", "lists.car", "lists.length", "not", "strings.trim", "maps.keys", "+", "lists.flatten", "maps.to-entries"})), nil
		}
		return a.g.fn(&ty{k: 'f', args: []*ty{tAny}, ret: pick(c, []*ty{tAny, tBool, tStr, tInt, tList(tAny)})}, 2), nil
	case '2':
		if c.Chance(0.4) {
			return yname(pick(c, []string{"progn", "??", "and", "or", "==", "lists.flatten", "lists.as-toplevel", "maps.make"})), nil
		}
		return a.g.lambda(&ty{k: 'f', args: []*ty{tAny, tAny}, ret: tAny}, 2), nil
	}
	return q(genVal(c, a.o))
}

// formatArgs makes a format string and arguments that fit it.
func (a *argGen) formatArgs() []*Y {
	c := a.c
	var f strings.Builder
	args := []*Y{nil}
	for n := c.Intn(4); n > 0; n-- {
		f.WriteString(pick(c, []string{"", "a", " ", "%%", "é: ", "\n", "'"}))
		switch c.Intn(8) {
		case 0:
			f.WriteString(pick(c, []string{"%d", "%5d", "%-4d|", "%x", "%03d", "%+d", "%c"}))
			args = append(args, ys(integer(int64(c.Intn(300)-10))))
		case 1:
			f.WriteString(pick(c, []string{"%s", "%q", "%10s", "%-6s|", "%x", "%.2s", "%v"}))
			args = append(args, yquote(a.str()))
		case 2:
			f.WriteString(pick(c, []string{"%f", "%.2f", "%g", "%e", "%8.1f", "%v"}))
			args = append(args, yquote(float(genFloat(c))))
		case 3:
			f.WriteString(pick(c, []string{"%t", "%v"}))
			args = append(args, ys(boolean(c.Chance(0.5))))
		case 4:
			f.WriteString(pick(c, []string{"%d", "%s", "%t", "%q"}))
			args = append(args, yquote(genVal(c, genOpt{depth: 1, plain: true})))
		default:
			f.WriteString("%v")
			args = append(args, yquote(genVal(c, genOpt{depth: 2})))
		}
	}
	if c.Chance(0.08) {
		f.WriteString(pick(c, []string{"%", "%z", "%v", "%!", "%[1]v"}))
	}
	if c.Chance(0.05) {
		args = append(args, ys(integer(1)))
	}
	args[0] = yquote(str(f.String()))
	return args
}

// call makes a call of an operator.
func (a *argGen) call(op string) *Y {
	c := a.c
	sig := pick(c, sigs[op])
	y := ycall(op)
	var first *Val
	if sig == "F" {
		y.L = append(y.L, a.formatArgs()...)
		sig = ""
	}
	for i := 0; i < len(sig); i++ {
		x, v := a.arg(sig[i], first)
		if i == 0 {
			first = v
		}
		y.L = append(y.L, x)
	}
	if c.Chance(0.05) { // the wrong number of arguments
		if len(y.L) > 1 && c.Chance(0.5) {
			y.L = y.L[:len(y.L)-1]
		} else {
			x, _ := a.arg('a', nil)
			y.L = append(y.L, x)
		}
	}
	// the argument may come from somewhere else
	for i := 1; i < len(y.L); i++ {
		if y.L[i].K == ySeq && len(y.L[i].L) > 0 && y.L[i].L[0].K == yScalar && y.L[i].L[0].V.S == "lambda" {
			continue
		}
		switch c.Intn(30) {
		case 0:
			y.L[i] = ycall("progn", y.L[i])
		case 1:
			y.L[i] = ycall("lists.car", ycall("lists.cons", y.L[i], yseq()))
		case 2:
			y.L[i] = ycall("maps.get", ymap("k", y.L[i]), yname("k"))
		case 3:
			y.L[i] = yseq(ycall("lambda", yseq(yname("w")), yref("w")), y.L[i])
		}
	}
	return y
}

func opCase(names []string) func(c *C) {
	return func(c *C) {
		a := &argGen{c: c, o: genOpt{depth: 2, plain: c.Chance(0.4)}, g: newProgGen(c)}
		op := pick(c, names)
		y := a.call(op)
		if len(y.L) > 1 && c.Chance(0.15) { // the same through a named function
			ps, refs := yseq(), []*Y{}
			for i := range y.L[1:] {
				ps.L = append(ps.L, yname(fmt.Sprint("p", i)))
				refs = append(refs, yref(fmt.Sprint("p", i)))
			}
			y = yseq(append([]*Y{ycall("lambda", ps, ycall(op, refs...))}, y.L[1:]...)...)
		}
		y.Tag = "!yisp"
		docs := []*Y{y}
		if c.Chance(0.3) {
			docs = []*Y{yseq(y)}
		} else if c.Chance(0.2) {
			docs = []*Y{ymap("r", y)}
		}
		e := newEmitter(c.R)
		e.tame = c.Chance(0.5)
		src := emitDocs(e, docs)
		c.Input(src)
		if malformed(src) {
			c.Skip()
		}
		in := newInterp()
		in.check = builtinCheck
		o := in.runDocs(docs, newFrame())
		if agree(c, o, src, opts{}) {
			key := op
			for _, x := range y.L[1:] {
				switch x.K {
				case yScalar:
					key += " " + kindName(x.V)
				case yAlias:
					key += " name"
				default:
					key += fmt.Sprintf(" %d%s%d", x.K, x.Tag, min(len(x.L)+len(x.M), 4))
				}
			}
			if o.err != "" {
				key += " error"
			} else if len(o.docs) > 0 {
				key += fmt.Sprintf(" = %d %s", len(o.docs), o.docs[0].shape())
			}
			c.Seen(key)
			c.Count("calls of "+op, 1)
		}
	}
}

func opNames(prefix string) []string {
	var names []string
	for n := range sigs {
		if prefix == "" && !strings.Contains(n, ".") || prefix != "" && strings.HasPrefix(n, prefix+".") {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	return names
}

func init() {
	rule := "distinct combinations of operator, kinds and sizes of arguments, and shape of the result (or error) on which the engine agreed with the model"
	register(&Prop{ID: "C03", Quick: 150000, Thorough: 3000000, Case: opCase(opNames("")), Rule: rule})
	register(&Prop{ID: "C04", Quick: 150000, Thorough: 6000000, Case: opCase(opNames("strings")), Rule: rule})
	register(&Prop{ID: "C05", Quick: 150000, Thorough: 6000000, Case: opCase(opNames("lists")), Rule: rule})
	register(&Prop{ID: "C06", Quick: 150000, Thorough: 6000000, Case: opCase(opNames("maps")), Rule: rule})
}
