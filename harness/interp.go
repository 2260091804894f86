package main

import (
	"strings"
)

// A reference interpreter of the language over syntax trees.

type frame struct {
	vars   map[string]*Val
	parent *frame
}

func (f *frame) root() *frame {
	for f.parent != nil {
		f = f.parent
	}
	return f
}

func (f *frame) lookup(key string) (*Val, bool) {
	for ; f != nil; f = f.parent {
		if v, ok := f.vars[key]; ok {
			return v, true
		}
	}
	return nil, false
}

// lookupEither finds a name that is written with a ? of its own, or without it.
func (f *frame) lookupEither(exact, key string) (*Val, bool) {
	for ; f != nil; f = f.parent {
		if v, ok := f.vars[exact]; ok {
			return v, true
		}
		if v, ok := f.vars[key]; ok {
			return v, true
		}
	}
	return nil, false
}

type closure struct {
	params []param
	body   *Y
	env    *frame
}

type param struct {
	name string
	typ  string
}

// typeVal is a value of the language that is a type.
type typeVal struct {
	name   string
	schema *schema
}

type interp struct {
	steps int
	limit int
	depth int
	// what happened, for coverage
	events map[string]int
	// onApply sees every operator call, onFault the node an error comes from
	fault  *Y
	cast   func(in *interp, t *typeVal, v *Val) *Val
	check  func(in *interp, t *typeVal, v *Val) bool
	strict bool
	world  *world // the files that programs name, or nil
	execs  *execs // the commands that programs start, or nil
	// places, when pos is set: what is being evaluated, outermost first, and
	// at the first failure what was then, and the operands of the failed call
	pos    bool
	stack  []*Y
	trace  []*Y
	failed []*Val
	about  *Val
}

func newInterp() *interp {
	return &interp{limit: 20000, events: map[string]int{}}
}

func newFrame() *frame {
	f := &frame{vars: map[string]*Val{}}
	for _, n := range []string{"null", "bool", "int", "float", "string"} {
		f.vars[n] = &Val{K: vFunc, X: &typeVal{name: n}}
	}
	return f
}

const (
	quoting = iota
	evaluating
)

func (in *interp) get(env *frame, name string) *Val {
	segs := strings.Split(name, ".")
	first, optional := strings.CutSuffix(segs[0], "?")
	v, ok := env.lookupEither(segs[0], first)
	if !ok {
		if optional {
			return null()
		}
		bad("undefined name %s", name)
	}
	for _, s := range segs[1:] {
		s, optional := strings.CutSuffix(s, "?")
		if v.K != vMap {
			if optional {
				unspec("optional name below something that is not a map")
			}
			bad("no names below %s", name)
		}
		x := v.get(s)
		if x == nil {
			if optional {
				return null()
			}
			bad("undefined name %s", name)
		}
		v = x
	}
	return v
}

// at runs f and remembers the node whose evaluation failed, innermost first.
func (in *interp) at(y *Y, f func() *Val) *Val {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(misuse); ok && in.fault == nil {
				in.fault = y
				in.trace = append([]*Y{}, in.stack...)
			}
			panic(r)
		}
	}()
	return f()
}

func (in *interp) eval(y *Y, env *frame, mode int) *Val {
	in.steps++
	if in.steps > in.limit {
		unspec("too long")
	}
	in.depth++
	if in.depth > 400 {
		unspec("too deep")
	}
	if in.pos {
		in.stack = append(in.stack, y)
	}
	defer func() {
		in.depth--
		if in.pos {
			in.stack = in.stack[:len(in.stack)-1]
		}
	}()
	return in.at(y, func() *Val {
		v := in.evalIn(y, env, mode)
		if y.Tag != "" && y.Tag != "!yisp" && y.Tag != "!quote" && in.cast != nil {
			if t, ok := env.lookup(strings.TrimPrefix(y.Tag, "!")); ok && t.K == vFunc {
				if tv, ok := t.X.(*typeVal); ok {
					v = in.cast(in, tv, v)
				}
			}
		}
		if y.Anchor != "" {
			env.root().vars[y.Anchor] = v
			if v.K == vFunc {
				if c, ok := v.X.(*closure); ok {
					c.env.vars[y.Anchor] = v
				}
			}
		}
		return v
	})
}

func (in *interp) evalIn(y *Y, env *frame, mode int) *Val {
	switch y.Tag {
	case "!yisp":
		mode = evaluating
	case "!quote":
		mode = quoting
	}
	switch y.K {
	case yAlias:
		in.events["name"]++
		v := in.get(env, y.Name)
		if in.pos && v.At == nil && v.Srcs == nil && (v.K == vNull || v.K == vFunc) { // nothing, or a type that is always there
			n := *v
			n.At = y
			return &n
		}
		return v
	case yScalar:
		if y.Tag != "" {
			unspec("tagged scalar")
		}
		if in.world != nil {
			v := *y.V
			v.From = y.File
			if in.pos {
				v.At = y
			}
			return &v
		}
		return y.V
	case ySeq:
		if len(y.L) == 0 {
			return in.written(&Val{K: vList, From: y.File}, y)
		}
		if mode == quoting {
			r := in.written(&Val{K: vList, From: y.File}, y)
			for _, x := range y.L {
				r.L = append(r.L, in.eval(x, env, mode))
			}
			return r
		}
		return in.call(y, env)
	}
	r := in.written(&Val{K: vMap, From: y.File}, y)
	for _, e := range y.M {
		v := in.eval(e.V, env, mode)
		if e.K.K == vStr && e.K.S == "<<" {
			in.events["merge key"]++
			in.at(e.V, func() *Val {
				switch v.K {
				case vMap:
					for _, m := range v.M {
						r.set(m.K.S, m.V)
					}
				case vList:
					for _, x := range v.L {
						switch x.K {
						case vMap:
							for _, m := range x.M {
								r.set(m.K.S, m.V)
							}
						case vNull:
						default:
							guilty = x
							in.about = x
							bad("merging something else than a map")
						}
					}
				case vNull:
				default:
					bad("merging something else than a map")
				}
				return nil
			})
			continue
		}
		r.set(keyText(e.K), v)
	}
	return r
}

func (in *interp) call(y *Y, env *frame) *Val {
	head := y.L[0]
	op := ""
	if head.K == yScalar && head.V.K == vStr {
		op = head.V.S
	}
	switch op {
	case "if":
		if len(y.L) != 4 {
			bad("if needs three arguments")
		}
		if truthy(in.eval(y.L[1], env, evaluating)) {
			in.events["if true"]++
			return in.eval(y.L[2], env, evaluating)
		}
		in.events["if false"]++
		return in.eval(y.L[3], env, evaluating)
	case "lambda":
		if len(y.L) < 3 {
			bad("lambda needs parameters and a body")
		}
		if len(y.L) > 3 {
			unspec("lambda with more than one body")
		}
		if y.L[1].K != ySeq {
			bad("lambda needs a list of parameters")
		}
		if y.L[1].Tag != "" {
			unspec("tagged parameter list")
		}
		c := &closure{body: y.L[2], env: &frame{vars: map[string]*Val{}, parent: env.parent}}
		for k, v := range env.vars {
			c.env.vars[k] = v
		}
		for _, p := range y.L[1].L {
			if p.K != yScalar {
				if p.K == yAlias {
					unspec("name as parameter")
				}
				bad("parameter")
			}
			if p.V.K != vStr {
				unspec("parameter that is not a string")
			}
			typ := strings.TrimPrefix(p.Tag, "!")
			if typ != "" {
				t, ok := env.lookup(typ)
				if !ok || t.K != vFunc {
					bad("parameter type")
				}
				if _, ok := t.X.(*typeVal); !ok {
					bad("parameter type")
				}
			}
			c.params = append(c.params, param{p.V.S, typ})
		}
		in.events["lambda"]++
		return in.written(&Val{K: vFunc, X: c, From: y.File}, y)
	case "import":
		if in.world != nil {
			return in.world.imports(in, y, env)
		}
		unspec("import")
	case "yaml.unmarshal":
		if len(y.L) == 2 && y.L[1].K == ySeq && y.L[1].Tag != "!quote" && len(y.L[1].L) == 2 && y.L[1].L[0].K == yScalar && y.L[1].L[0].V.K == vStr && y.L[1].L[0].V.S == "yaml.marshal" {
			in.stack = append(in.stack, y.L[1])
			v := in.eval(y.L[1].L[1], env, evaluating)
			in.stack = in.stack[:len(in.stack)-1]
			if v.K == vFunc || v.Doc {
				unspec("marshalling functions or documents")
			}
			in.events["round trip"]++
			r := list(sortedKeys(visible(v)))
			if in.pos {
				r = r.clone()
				r.unmark()
				madeBy(r, map[*Y]bool{y: true, y.L[1]: true}, []*Val{v}, false)
			}
			return r
		}
	}
	var items []*Val
	for _, x := range y.L {
		items = append(items, in.eval(x, env, evaluating))
	}
	if in.pos {
		defer func() {
			if r := recover(); r != nil {
				if in.fault == nil && in.failed == nil {
					in.failed, in.about = items, guilty
				}
				panic(r)
			}
		}()
		guilty = nil
	}
	r := in.apply(env, items[0], items[1:]...)
	if in.world != nil {
		r = located(r, y.File)
	}
	if in.pos {
		madeBy(r, map[*Y]bool{y: true}, items, false)
	}
	return r
}

func (in *interp) written(v *Val, y *Y) *Val {
	if in.pos {
		v.At = y
	}
	return v
}

func (v *Val) unmark() {
	v.At, v.Srcs = nil, nil
	for _, x := range v.L {
		x.unmark()
	}
	for _, e := range v.M {
		e.V.unmark()
	}
}

// sources collects the places that a value and what it holds come from.
func (v *Val) sources(into map[*Y]bool) {
	if v.At != nil {
		into[v.At] = true
	}
	for y := range v.Srcs {
		into[y] = true
	}
	for _, x := range v.L {
		x.sources(into)
	}
	for _, e := range v.M {
		e.V.sources(into)
	}
}

// madeBy marks what an operator made: it is from the call or from operands.
// What a function made while another one called it may be put at that call, too.
func madeBy(v *Val, srcs map[*Y]bool, args []*Val, open bool) {
	done := false
	var mark func(v *Val)
	mark = func(v *Val) {
		if v.At == nil && (v.Srcs == nil || v.Open) {
			if !done {
				done = true
				for _, a := range args {
					a.sources(srcs)
				}
			}
			if v.Srcs == nil {
				v.Srcs = srcs
			} else {
				union := map[*Y]bool{}
				for y := range srcs {
					union[y] = true
				}
				for y := range v.Srcs {
					union[y] = true
				}
				v.Srcs = union
			}
			v.Open = open
		} else if v.At != nil {
			return
		}
		for _, x := range v.L {
			mark(x)
		}
		for _, e := range v.M {
			mark(e.V)
		}
	}
	mark(v)
}

func (in *interp) apply(env *frame, f *Val, args ...*Val) *Val {
	switch f.K {
	case vFunc:
		c, ok := f.X.(*closure)
		if !ok {
			bad("calling a type")
		}
		if len(args) > len(c.params) {
			bad("too many arguments")
		}
		if len(args) < len(c.params) {
			unspec("too few arguments")
		}
		fr := &frame{vars: map[string]*Val{}, parent: c.env}
		for i, a := range args {
			if t := c.params[i].typ; t != "" {
				tv, _ := c.env.lookup(t)
				if in.check == nil || tv == nil {
					unspec("typed parameter")
				}
				if !in.check(in, tv.X.(*typeVal), a) {
					bad("argument of the wrong type")
				}
			}
			fr.vars[c.params[i].name] = a
		}
		in.events["call function"]++
		return in.eval(c.body, fr, evaluating)
	case vStr:
		if in.world != nil {
			if r, ok := in.world.op(in, f.S, args); ok {
				return r
			}
		}
		if in.execs != nil {
			if r, ok := in.execs.op(in, env, f.S, args); ok {
				return r
			}
		}
		m, ok := opModels[f.S]
		if !ok {
			switch {
			case strings.Count(f.S, ".") > 1:
			case strings.HasPrefix(f.S, "exec."), strings.HasPrefix(f.S, "files."), strings.HasPrefix(f.S, "k8s."),
				f.S == "maps.patch", f.S == "include", f.S == "schema", f.S == "types.assert", f.S == "types.get", strings.HasPrefix(f.S, "yaml."):
				unspec("operator " + f.S)
			}
			bad("unknown operator %s", f.S)
		}
		in.events["op "+f.S]++
		return m(func(f *Val, args ...*Val) *Val {
			r := in.apply(env, f, args...)
			if in.world != nil {
				r = located(r, f.From)
			}
			if in.pos {
				srcs := map[*Y]bool{}
				f.sources(srcs)
				madeBy(r, srcs, args, true)
			}
			return r
		}, args)
	}
	bad("calling a value")
	return nil
}

type outcome struct {
	docs   []*Val
	err    string // not empty when the program must fail
	unspec string // not empty when nothing says what happens
	fault  *Y
}

// runDocs evaluates a stream of documents as a file is evaluated.
func (in *interp) runDocs(docs []*Y, env *frame) (o outcome) {
	defer func() {
		switch r := recover().(type) {
		case nil:
		case misuse:
			o = outcome{err: string(r), fault: in.fault}
		case unspecified:
			o = outcome{unspec: string(r)}
		default:
			panic(r)
		}
	}()
	for _, d := range docs {
		v := in.eval(d, env, quoting)
		switch {
		case v.K == vNull:
		case v.K == vList && v.Doc:
			for _, x := range v.L {
				if x := visible(x); x != nil {
					o.docs = append(o.docs, x)
				}
			}
		default:
			if x := visible(v); x != nil {
				o.docs = append(o.docs, x)
			}
		}
	}
	return o
}
