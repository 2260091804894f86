package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"unicode/utf8"

	"github.com/totegamma/yisp/core"
)

// schema is the harness's own model of a type.
type schema struct {
	Type   string // null boolean integer float string array object function any, or "" for the others
	Format string
	Ref    string // name of a definition
	Form   string // how the reference is written
	Side   []Ent  // what is written next to a reference, which counts for nothing
	Req    []string
	Props  []prop
	Items  *schema
	AP     any // nil, bool or *schema
	Args   []*schema
	Ret    *schema
	Def    *Val
	One    []*schema
	Mult   int64
	HasMul bool

	Min, Max, XMin, XMax *Val // numbers
	MinLen, MaxLen       int  // -1 when absent

	How, Key string // patch strategy and merge key
	K8s      bool   // spelled as Kubernetes spells them
	Desc     string
}

type prop struct {
	Name string
	S    *schema
}

func newSchema(t string) *schema { return &schema{Type: t, MinLen: -1, MaxLen: -1} }

func (s *schema) prop(name string) *schema {
	for _, p := range s.Props {
		if p.Name == name {
			return p.S
		}
	}
	return nil
}

// defs are the definitions references refer to.
type defs map[string]*schema

func (d defs) deref(s *schema) *schema {
	if s != nil && s.Ref != "" {
		return d[s.Ref]
	}
	return s
}

// val writes a schema as data.
func (s *schema) val() *Val {
	m := mapv()
	if s.Ref != "" {
		m.set("$ref", str(s.Form+s.Ref))
		m.M = append(m.M, s.Side...)
		return m
	}
	opt := func(k, v string) {
		if v != "" {
			m.set(k, str(v))
		}
	}
	opt("description", s.Desc)
	opt("type", s.Type)
	opt("format", s.Format)
	strs := func(l []string) *Val {
		v := list()
		for _, x := range l {
			v.L = append(v.L, str(x))
		}
		return v
	}
	subs := func(l []*schema) *Val {
		v := list()
		for _, x := range l {
			v.L = append(v.L, x.val())
		}
		return v
	}
	if s.Req != nil {
		m.set("required", strs(s.Req))
	}
	if s.Props != nil {
		v := mapv()
		for _, p := range s.Props {
			v.set(p.Name, p.S.val())
		}
		m.set("properties", v)
	}
	if s.Items != nil {
		m.set("items", s.Items.val())
	}
	switch ap := s.AP.(type) {
	case bool:
		m.set("additionalProperties", boolean(ap))
	case *schema:
		m.set("additionalProperties", ap.val())
	}
	if s.Type == "function" {
		m.set("arguments", subs(s.Args))
		if s.Ret != nil {
			m.set("returns", s.Ret.val())
		}
	}
	if s.Def != nil {
		m.set("default", s.Def)
	}
	if s.One != nil {
		m.set("oneOf", subs(s.One))
	}
	if s.HasMul {
		m.set("multipleOf", integer(s.Mult))
	}
	for k, v := range map[string]*Val{"minimum": s.Min, "maximum": s.Max, "exclusiveMinimum": s.XMin, "exclusiveMaximum": s.XMax} {
		if v != nil {
			m.set(k, v)
		}
	}
	slices.SortStableFunc(m.M, func(a, b Ent) int { return strings.Compare(a.K.S, b.K.S) })
	if s.MinLen >= 0 {
		m.set("minLength", integer(int64(s.MinLen)))
	}
	if s.MaxLen >= 0 {
		m.set("maxLength", integer(int64(s.MaxLen)))
	}
	if s.K8s {
		opt("x-kubernetes-patch-strategy", s.How)
		opt("x-kubernetes-patch-merge-key", s.Key)
	} else {
		opt("patchStrategy", s.How)
		opt("patchMergeKey", s.Key)
	}
	return m
}

// strategy is what a schema says about merging.
func (s *schema) strategy(d defs, depth int) *strategy {
	s = d.deref(s)
	if s == nil || depth > 6 {
		return nil
	}
	t := &strategy{How: s.How, Key: s.Key, Props: map[string]*strategy{}}
	for _, p := range s.Props {
		t.Props[p.Name] = p.S.strategy(d, depth+1)
	}
	t.Items = s.Items.strategy(d, depth+1)
	return t
}

// conforms says whether a value is what a schema asks for.
func (d defs) conforms(s *schema, v *Val) bool {
	s = d.deref(s)
	if s == nil {
		return false
	}
	if s.One != nil {
		for _, x := range s.One {
			if d.conforms(x, v) {
				return true
			}
		}
		return false
	}
	number := func() bool {
		bound := func(b *Val, ok func(c int) bool) bool {
			if b == nil {
				return true
			}
			c, ordered := cmpNum(v, b)
			return ordered && ok(c)
		}
		if v.K == vFloat && math.IsNaN(v.F) && (s.Min != nil || s.Max != nil || s.XMin != nil || s.XMax != nil || s.HasMul) {
			unspec("bounds of NaN")
		}
		if !bound(s.Min, func(c int) bool { return c >= 0 }) || !bound(s.Max, func(c int) bool { return c <= 0 }) ||
			!bound(s.XMin, func(c int) bool { return c > 0 }) || !bound(s.XMax, func(c int) bool { return c < 0 }) {
			return false
		}
		if s.HasMul {
			if s.Mult == 0 {
				unspec("multiple of zero")
			}
			x, ok := bigNum(v)
			if !ok {
				return false
			}
			if x.IsInf() {
				unspec("multiple of infinity")
			}
			q, _ := x.Rat(nil)
			return q.Quo(q, new(big.Rat).SetInt64(s.Mult)).IsInt()
		}
		return true
	}
	switch s.Type {
	case "any":
		return true
	case "null":
		return v.K == vNull
	case "boolean":
		return v.K == vBool
	case "integer":
		return v.K == vInt && number()
	case "float":
		return v.K == vFloat && number()
	case "string":
		if v.K == vInt && s.Format == "int-or-string" {
			return true
		}
		if v.K != vStr {
			return false
		}
		n := utf8.RuneCountInString(v.S)
		return (s.MinLen < 0 || n >= s.MinLen) && (s.MaxLen < 0 || n <= s.MaxLen)
	case "array":
		if v.K != vList {
			return false
		}
		for _, x := range v.L {
			if s.Items != nil && !d.conforms(s.Items, x) {
				return false
			}
		}
		return true
	case "object":
		if v.K != vMap {
			return false
		}
		for _, r := range s.Req {
			if v.get(r) == nil {
				return false
			}
		}
		for _, e := range v.M {
			if p := s.prop(e.K.S); p != nil {
				if !d.conforms(p, e.V) {
					return false
				}
				continue
			}
			if e.K.S == "$schema" {
				continue
			}
			switch ap := s.AP.(type) {
			case bool:
				if !ap {
					return false
				}
			case *schema:
				if !d.conforms(ap, e.V) {
					return false
				}
			default:
				return false
			}
		}
		return true
	case "function":
		f, ok := v.X.(*signature)
		if v.K != vFunc || !ok || len(f.args) != len(s.Args) {
			return false
		}
		for i, a := range f.args {
			if a != nil && !s.Args[i].equals(a) {
				return false
			}
		}
		return s.Ret == nil || f.ret == nil || s.Ret.equals(f.ret)
	}
	unspec("type " + s.Type)
	return false
}

// signature is what a type sees of a function.
type signature struct {
	args []*schema
	ret  *schema
}

// equals says whether two types in a function signature are the same type.
func (s *schema) equals(o *schema) bool {
	if s == nil || o == nil {
		return s == o
	}
	if s.Type != o.Type || s.Type == "" {
		return false
	}
	switch s.Type {
	case "array":
		return s.Items.equals(o.Items)
	case "object":
		if len(s.Props) != len(o.Props) {
			return false
		}
		for _, p := range s.Props {
			if q := o.prop(p.Name); q == nil || !p.S.equals(q) {
				return false
			}
		}
	case "function":
		if len(s.Args) != len(o.Args) {
			return false
		}
		for i := range s.Args {
			if !s.Args[i].equals(o.Args[i]) {
				return false
			}
		}
		return s.Ret.equals(o.Ret)
	}
	return true
}

// fill gives a value with the defaults of a type; it is misuse when the value
// has another kind or lacks a required property.
func (s *schema) fill(v *Val) *Val {
	if s.Ref != "" {
		return v
	}
	switch s.Type {
	case "array":
		wantK(v, vList)
		if s.Items == nil {
			return v
		}
		r := list()
		for _, x := range v.L {
			r.L = append(r.L, s.Items.fill(x))
		}
		return r
	case "object":
		wantK(v, vMap)
		r := mapv()
		for _, e := range v.M {
			if p := s.prop(e.K.S); p != nil {
				e.V = p.fill(e.V)
			}
			r.M = append(r.M, e)
		}
		for _, p := range s.Props {
			if v.get(p.Name) != nil {
				continue
			}
			if slices.Contains(s.Req, p.Name) {
				bad("required property %s", p.Name)
			}
			switch {
			case p.S.Def != nil:
				if p.S.Def.K == vNull {
					unspec("null as default")
				}
				r.set(p.Name, p.S.fill(p.S.Def))
			case p.S.Type == "object" && p.S.Ref == "":
				var x *Val
				if o := attempt(func() { x = p.S.fill(mapv()) }); o.unspec != "" {
					unspec(o.unspec)
				} else if o.err == "" && len(x.M) > 0 {
					r.set(p.Name, x)
				}
			}
		}
		return r
	}
	return v
}

// --- generating

type schemaGen struct {
	c      *C
	d      defs
	prefix string
	deflt  bool // with defaults
	merge  bool // with patch strategies
	nokey  []string
}

var propNames = []string{"a", "b", "c", "name", "port", "image", "spec", "items", "x-y", "é", "true", "1", "A", "Name"}

func (g *schemaGen) number(t string) *Val {
	c := g.c
	if t == "integer" || c.Chance(0.4) {
		return integer(int64(c.Intn(41) - 20))
	}
	return float(float64(c.Intn(161)-80) / 4)
}

func (g *schemaGen) scalar() *schema {
	c := g.c
	s := newSchema(pick(c, []string{"null", "boolean", "integer", "integer", "integer", "float", "float", "string", "string", "string", "any"}))
	if s.Type != "string" && c.Chance(0.1) { // says nothing
		s.Format = pick(c, []string{"int32", "int64", "double", "float", "int-or-string", "date-time"})
	}
	switch s.Type {
	case "integer", "float":
		if c.Chance(0.3) {
			s.Min = g.number("")
		}
		if c.Chance(0.3) {
			s.Max = g.number("")
		}
		if c.Chance(0.15) {
			s.XMin = g.number("")
		}
		if c.Chance(0.15) {
			s.XMax = g.number("")
		}
		if c.Chance(0.15) {
			s.HasMul, s.Mult = true, pick(c, []int64{1, 2, 3, 5, 7, 10, -2})
		}
	case "string":
		if c.Chance(0.15) {
			s.Format = "int-or-string"
		} else {
			if c.Chance(0.1) {
				s.Format = pick(c, []string{"date-time", "byte", "int64-or-string", "number-or-string", "int", "string"})
			}
			if c.Chance(0.3) {
				s.MinLen = c.Intn(5)
			}
			if c.Chance(0.3) {
				s.MaxLen = c.Intn(8)
			}
		}
	}
	return s
}

// schema makes a type.
func (g *schemaGen) schema(depth int, noref bool) *schema {
	c := g.c
	if !noref && len(g.d) > 0 && c.Chance(0.2) {
		return g.ref()
	}
	if depth <= 0 || c.Chance(0.25) {
		s := g.scalar()
		g.decorate(s)
		return s
	}
	var s *schema
	switch n := c.Intn(12); {
	case n < 1 && !g.merge:
		s = newSchema("")
		sub := *g
		sub.deflt = false
		for i := 1 + c.Intn(3); i > 0; i-- {
			s.One = append(s.One, sub.schema(depth-1, true))
		}
		return s
	case n < 5:
		s = newSchema("array")
		if c.Chance(0.9) {
			s.Items = g.schema(depth-1, noref)
			if g.merge && c.Chance(0.6) && s.Items.Ref == "" {
				s.Items = g.object(depth-1, noref)
			}
		}
		if g.merge && c.Chance(0.7) {
			s.How = pick(c, []string{"merge", "merge", "merge", "replace", "merge,retainKeys", "retainKeys,merge"})
			s.K8s = c.Chance(0.5)
			if it := g.d.deref(s.Items); it != nil && it.Type == "object" && c.Chance(0.8) {
				s.Key = "name"
				if len(it.Props) > 0 && c.Chance(0.5) {
					s.Key = pick(c, it.Props).Name
				}
			}
		}
	default:
		s = g.object(depth, noref)
	}
	g.decorate(s)
	return s
}

func (g *schemaGen) ref() *schema {
	c := g.c
	var names []string
	for n := range g.d {
		names = append(names, n)
	}
	slices.Sort(names)
	s := newSchema("")
	s.Ref = pick(c, names)
	s.Form = pick(c, []string{"#/definitions/", "#/components/schemas/", "", "#/"})
	if c.Chance(0.2) {
		s.Side = append(s.Side, Ent{str("description"), str("a reference")})
	}
	if c.Chance(0.15) {
		s.Side = append(s.Side, Ent{str("type"), str(pick(c, []string{"string", "integer", "any", "boolean"}))})
	}
	return s
}

func (g *schemaGen) object(depth int, noref bool) *schema {
	c := g.c
	s := newSchema("object")
	if c.Chance(0.9) {
		s.Props = []prop{}
		for n := c.Intn(5); n > 0; n-- {
			name := pick(c, propNames)
			if s.prop(name) == nil && !slices.Contains(g.nokey, name) {
				s.Props = append(s.Props, prop{name, g.schema(depth-1, noref)})
			}
		}
	}
	if c.Chance(0.4) {
		s.Req = []string{}
		for _, p := range s.Props {
			if c.Chance(0.4) {
				s.Req = append(s.Req, p.Name)
			}
		}
		if c.Chance(0.1) && !g.deflt {
			s.Req = append(s.Req, pick(c, propNames))
		}
	}
	switch c.Intn(5) {
	case 0:
		s.AP = true
	case 1:
		s.AP = false
	case 2:
		sub := *g
		sub.deflt = false
		s.AP = sub.schema(depth-1, noref)
	}
	return s
}

func (g *schemaGen) decorate(s *schema) {
	c := g.c
	if c.Chance(0.1) {
		s.Desc = "about it"
	}
	if !g.deflt || !c.Chance(0.45) || s.Ref != "" || s.Type == "null" {
		return
	}
	sub := *g
	v := sub.value(s, 2)
	if c.Chance(0.05) {
		v = genVal(c, genOpt{depth: 1, plain: true})
	}
	if v.K != vNull && plainJSON(v, s) {
		s.Def = v
	}
}

// plainJSON says whether a default keeps its meaning when written as JSON.
func plainJSON(v *Val, s *schema) bool {
	switch v.K {
	case vInt:
		return s == nil || s.Type != "float" // which would make it a float
	case vFloat:
		if math.IsNaN(v.F) || math.IsInf(v.F, 0) || v.F == 0 && math.Signbit(v.F) {
			return false
		}
		return s != nil && s.Type == "float" || v.F != math.Trunc(v.F)
	case vList:
		for _, x := range v.L {
			var t *schema
			if s != nil {
				t = s.Items
			}
			if !plainJSON(x, t) {
				return false
			}
		}
	case vMap:
		for _, e := range v.M {
			var t *schema
			if s != nil {
				t = s.prop(e.K.S)
			}
			if !plainJSON(e.V, t) {
				return false
			}
		}
	}
	return true
}

// value makes a value that mostly conforms to a type.
func (g *schemaGen) value(s *schema, depth int) *Val {
	c := g.c
	s = g.d.deref(s)
	if s == nil {
		return genScalar(c, genOpt{plain: true})
	}
	if len(s.One) > 0 {
		return g.value(pick(c, s.One), depth)
	}
	switch s.Type {
	case "null":
		return null()
	case "boolean":
		return boolean(c.Chance(0.5))
	case "integer", "float":
		var bs []*Val
		for _, b := range []*Val{s.Min, s.Max, s.XMin, s.XMax} {
			if b != nil {
				bs = append(bs, b)
			}
		}
		f := float64(c.Intn(41) - 20)
		if len(bs) > 0 && c.Chance(0.9) {
			b := pick(c, bs)
			x, _ := bigNum(b)
			f, _ = x.Float64()
			if b == s.Min || b == s.XMin {
				f += float64(c.Intn(3))
			} else {
				f -= float64(c.Intn(3))
			}
			if s.Type == "integer" {
				f = math.Floor(f + float64(c.Intn(2)))
			} else if c.Chance(0.3) {
				f = math.Nextafter(f, pick(c, []float64{1, -1})*math.MaxFloat64)
			}
		} else if s.Type == "float" && c.Chance(0.5) {
			f += float64(c.Intn(4)) / 4
		}
		if s.HasMul && s.Mult != 0 && c.Chance(0.8) {
			f = math.Trunc(f/float64(s.Mult)) * float64(s.Mult)
		}
		if s.Type == "integer" {
			if len(bs) == 0 && !s.HasMul && c.Chance(0.2) {
				return integer(genInt(c))
			}
			return integer(int64(f))
		}
		if f == 0 {
			f = 0
		}
		return float(f)
	case "string":
		if s.Format == "int-or-string" && c.Chance(0.5) || s.Format != "" && c.Chance(0.1) {
			return integer(int64(c.Intn(100)))
		}
		if s.MinLen < 0 && s.MaxLen < 0 {
			if c.Chance(0.5) {
				return str(genStr(c))
			}
			return str(pick(c, words))
		}
		n := max(s.MinLen, 0)
		if s.MaxLen >= 0 && c.Chance(0.5) {
			n = s.MaxLen
		}
		if c.Chance(0.15) {
			n += c.Intn(3) - 1
		}
		t := ""
		for i := 0; i < n; i++ {
			t += pick(c, []string{"a", "b", "z", "é", "日", "😀", " ", "0"})
		}
		return str(t)
	case "array":
		v := list()
		for n := c.Intn(4); n > 0 && depth > -4; n-- {
			if s.Items == nil {
				v.L = append(v.L, genScalar(c, genOpt{plain: true}))
			} else {
				v.L = append(v.L, g.value(s.Items, depth-1))
			}
		}
		return v
	case "object":
		v := mapv()
		for _, p := range s.Props {
			if slices.Contains(s.Req, p.Name) && depth > -4 || c.Chance(0.6) && depth > 0 {
				v.set(p.Name, g.value(p.S, depth-1))
			}
		}
		for _, r := range s.Req {
			if s.prop(r) == nil {
				v.set(r, str("x"))
			}
		}
		switch ap := s.AP.(type) {
		case bool:
			if ap && c.Chance(0.4) {
				v.set("extra", genScalar(c, genOpt{plain: true}))
			}
		case *schema:
			for n := c.Intn(3); n > 0 && depth > 0; n-- {
				v.set(pick(c, []string{"extra", "more", "z"}), g.value(ap, depth-1))
			}
		}
		if c.Chance(0.5) {
			c.R.Shuffle(len(v.M), func(i, j int) { v.M[i], v.M[j] = v.M[j], v.M[i] })
		}
		return v
	}
	return genVal(c, genOpt{depth: min(depth, 2), plain: true})
}

// spoilVal changes one place of a value.
func spoilVal(c *C, v *Val) *Val {
	v = v.clone()
	var places []*Val
	var walk func(x *Val)
	walk = func(x *Val) {
		places = append(places, x)
		for _, y := range x.L {
			walk(y)
		}
		for _, e := range x.M {
			walk(e.V)
		}
	}
	walk(v)
	p := pick(c, places)
	switch n := c.Intn(6); {
	case n == 0 && p.K == vMap && len(p.M) > 0:
		p.del(pick(c, p.M).K.S)
	case n == 1 && p.K == vMap:
		p.set(pick(c, append([]string{"zz", "$schema", "$ref", "$id", "$", "schema", "Spec", "PORT"}, propNames...)), integer(int64(c.Intn(9))))
	case n == 2 && p.K == vInt:
		*p = *pick(c, []*Val{float(float64(p.I)), integer(p.I + 1), integer(p.I - 1), str(fmt.Sprint(p.I)), integer(-p.I)})
	case n == 2 && p.K == vFloat && math.Abs(p.F) < 1e6:
		*p = *pick(c, []*Val{integer(int64(p.F)), float(p.F + 0.25), float(-p.F)})
	case n == 2 && p.K == vStr:
		*p = *pick(c, []*Val{str(p.S + "é"), str(""), str(strings.ToUpper(p.S) + "日本"), null()})
	case n == 3 && p.K == vList && len(p.L) > 0:
		*p = *p.L[0]
	case n == 3:
		*p = *list(p.clone())
	default:
		*p = *genVal(c, genOpt{depth: 1, plain: true})
	}
	return v
}

// makeDefs generates definitions that may refer to each other.
func (g *schemaGen) makeDefs(n int) {
	g.d = defs{}
	for i := 0; i < n; i++ {
		g.d[fmt.Sprintf("%s.D%d", g.prefix, i)] = newSchema("any")
	}
	for i := 0; i < n; i++ {
		s := g.schema(2, false)
		for s.Ref != "" || s.One != nil {
			s = g.schema(2, false)
		}
		g.d[fmt.Sprintf("%s.D%d", g.prefix, i)] = s
	}
}

// --- a schema cache of one's own

func setupCache(w *W) {
	core.CacheDir = filepath.Join(w.Dir, "cache")
	for _, d := range []string{"schemas", "gvk"} {
		if err := os.MkdirAll(filepath.Join(core.CacheDir, d), 0755); err != nil {
			panic(err)
		}
	}
}

// keepStored leaves what store puts into the cache there.
var keepStored bool

// store puts definitions into the cache and returns what removes them.
func (d defs) store() func() {
	var paths []string
	for n, s := range d {
		b, err := json.Marshal(jsonable(s.val()))
		if err != nil {
			panic(err)
		}
		p := filepath.Join(core.CacheDir, "schemas", n+".json")
		if err := os.WriteFile(p, b, 0644); err != nil {
			panic(err)
		}
		paths = append(paths, p)
	}
	return func() {
		if keepStored {
			return
		}
		for _, p := range paths {
			os.Remove(p)
		}
	}
}

// jsonable turns a value into what encoding/json writes as it is.
func jsonable(v *Val) any {
	switch v.K {
	case vBool:
		return v.B
	case vInt:
		return v.I
	case vFloat:
		return v.F
	case vStr:
		return v.S
	case vList:
		l := []any{}
		for _, x := range v.L {
			l = append(l, jsonable(x))
		}
		return l
	case vMap:
		m := map[string]any{}
		for _, e := range v.M {
			m[e.K.S] = jsonable(e.V)
		}
		return m
	}
	return nil
}

// overlay makes a value to be merged over another one of the same type.
func (g *schemaGen) overlay(s *schema, v *Val, key string) *Val {
	c := g.c
	s = g.d.deref(s)
	if s == nil {
		return v
	}
	if c.Chance(0.04) {
		return genVal(c, genOpt{depth: 1, plain: true})
	}
	switch {
	case v.K == vMap && s.Type == "object":
		r := mapv()
		for _, e := range v.M {
			if e.K.S == key {
				if c.Chance(0.97) {
					r.M = append(r.M, e)
				}
			} else if c.Chance(0.6) {
				p := s.prop(e.K.S)
				if ap, ok := s.AP.(*schema); ok && p == nil {
					p = ap
				}
				r.M = append(r.M, Ent{e.K, g.overlay(p, e.V, "")})
			}
		}
		for _, p := range s.Props {
			if r.get(p.Name) == nil && c.Chance(0.3) {
				r.set(p.Name, g.value(p.S, 1))
			}
		}
		if c.Chance(0.4) {
			c.R.Shuffle(len(r.M), func(i, j int) { r.M[i], r.M[j] = r.M[j], r.M[i] })
		}
		return r
	case v.K == vList && s.Type == "array":
		r := list()
		for _, x := range v.L {
			if c.Chance(0.6) {
				r.L = append(r.L, g.overlay(s.Items, x, s.Key))
			}
		}
		for n := c.Intn(2); n > 0 && s.Items != nil; n-- {
			r.L = append(r.L, g.value(s.Items, 1))
		}
		if c.Chance(0.3) {
			c.R.Shuffle(len(r.L), func(i, j int) { r.L[i], r.L[j] = r.L[j], r.L[i] })
		}
		return r
	}
	if c.Chance(0.5) {
		return v
	}
	return g.value(s, 1)
}

// kind is a kind of manifest known to the schema cache.
type kind struct {
	api, kind string
	s         *schema
}

// manifestType makes the type of a kind of manifest.
func (g *schemaGen) manifestType() *schema {
	c := g.c
	s := g.object(2, false)
	var props []prop
	str := newSchema("string")
	meta := newSchema("object")
	labels := newSchema("object")
	labels.AP = str
	meta.Props = []prop{{"name", str}, {"namespace", str}, {"labels", labels}}
	props = append(props, prop{"apiVersion", str}, prop{"kind", str})
	if c.Chance(0.95) {
		props = append(props, prop{"metadata", meta})
	}
	for _, p := range s.Props {
		props = append(props, p)
	}
	s.Props = props
	return s
}

// manifest makes a manifest of a kind.
func (g *schemaGen) manifest(k *kind, name, namespace string) *Val {
	c := g.c
	v := g.value(k.s, 3)
	m := mapv("apiVersion", str(k.api), "kind", str(k.kind))
	meta := mapv()
	if name != "" {
		meta.set("name", str(name))
	}
	if namespace != "" {
		meta.set("namespace", str(namespace))
	}
	if c.Chance(0.2) {
		meta.set("labels", mapv("app", str(pick(c, words))))
	}
	if len(meta.M) > 0 || c.Chance(0.2) {
		m.set("metadata", meta)
	}
	for _, e := range v.M {
		if e.K.S != "apiVersion" && e.K.S != "kind" && e.K.S != "metadata" {
			m.M = append(m.M, e)
		}
	}
	if c.Chance(0.2) {
		c.R.Shuffle(len(m.M), func(i, j int) { m.M[i], m.M[j] = m.M[j], m.M[i] })
	}
	return m
}

// storeKinds puts kinds into the cache and returns what removes them.
func storeKinds(ks []*kind, prefix string, d defs) func() {
	all := defs{}
	for n, s := range d {
		all[n] = s
	}
	var paths []string
	for i, k := range ks {
		id := fmt.Sprintf("%s.K%d", prefix, i)
		all[id] = k.s
		group, version := "", k.api
		if g, v, ok := strings.Cut(k.api, "/"); ok {
			group, version = g, v
		}
		p := filepath.Join(core.CacheDir, "gvk", fmt.Sprintf("%s_%s_%s.txt", group, version, k.kind))
		if err := os.WriteFile(p, []byte(id), 0644); err != nil {
			panic(err)
		}
		paths = append(paths, p)
	}
	clean := all.store()
	return func() {
		clean()
		for _, p := range paths {
			os.Remove(p)
		}
	}
}

// fitting makes a value until it conforms, most of the time.
func (g *schemaGen) fitting(s *schema, f func() *Val) *Val {
	v := f()
	for n := 0; n < 8 && !g.c.Chance(0.02); n++ {
		ok := false
		attempt(func() { ok = g.d.conforms(s, v) })
		if ok {
			break
		}
		v = f()
	}
	return v
}
