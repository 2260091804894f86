package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"

	upstream "gopkg.in/yaml.v3"
)

// Kinds of values.
type vk int

const (
	vNull vk = iota
	vBool
	vInt
	vFloat
	vStr
	vList
	vMap
	vFunc // a function or type, which has no representation in YAML
)

// Val is the harness's own model of a YAML 1.2 core-schema value.
type Val struct {
	K   vk
	B   bool
	I   int64
	F   float64
	S   string
	L   []*Val
	M   []Ent
	X   any  // whatever vFunc stands for
	Doc bool // list whose items are documents (result of include, as-toplevel)
	T   any  // the type of a map, where a model wants one
	// the file it was written in, where a model keeps track of files
	From string
	// what wrote it, where a model keeps track of places: exactly this, or for
	// what was computed any of these
	At   *Y
	Srcs map[*Y]bool
	Open bool // more may be added to Srcs
}

// Ent is a map entry. Keys of yisp maps are strings; documents may have others.
type Ent struct {
	K *Val
	V *Val
}

func null() *Val           { return &Val{K: vNull} }
func boolean(b bool) *Val  { return &Val{K: vBool, B: b} }
func integer(i int64) *Val { return &Val{K: vInt, I: i} }
func float(f float64) *Val { return &Val{K: vFloat, F: f} }
func str(s string) *Val    { return &Val{K: vStr, S: s} }
func list(l ...*Val) *Val  { return &Val{K: vList, L: l} }
func mapv(kv ...any) *Val {
	m := &Val{K: vMap}
	for i := 0; i < len(kv); i += 2 {
		m.set(kv[i].(string), kv[i+1].(*Val))
	}
	return m
}

func (v *Val) find(key string) (int, bool) {
	for i, e := range v.M {
		if e.K.K == vStr && e.K.S == key {
			return i, true
		}
	}
	return -1, false
}

func (v *Val) get(key string) *Val {
	if i, ok := v.find(key); ok {
		return v.M[i].V
	}
	return nil
}

// set replaces the value of a key in its place, or adds it at the end.
func (v *Val) set(key string, x *Val) {
	if i, ok := v.find(key); ok {
		v.M[i].V = x
		return
	}
	v.M = append(v.M, Ent{str(key), x})
}

func (v *Val) del(key string) {
	if i, ok := v.find(key); ok {
		v.M = append(v.M[:i:i], v.M[i+1:]...)
	}
}

func (v *Val) clone() *Val {
	if v == nil {
		return nil
	}
	n := *v
	if v.L != nil {
		n.L = make([]*Val, len(v.L))
		for i, x := range v.L {
			n.L[i] = x.clone()
		}
	}
	if v.M != nil {
		n.M = make([]Ent, len(v.M))
		for i, e := range v.M {
			n.M[i] = Ent{e.K.clone(), e.V.clone()}
		}
	}
	return &n
}

// same says whether two values are the same data, map order included. Numbers
// of different type are different, NaN is itself, and zeros differ by sign.
func same(a, b *Val) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a.K != b.K {
		return false
	}
	switch a.K {
	case vNull:
		return true
	case vBool:
		return a.B == b.B
	case vInt:
		return a.I == b.I
	case vFloat:
		return a.F == b.F && math.Signbit(a.F) == math.Signbit(b.F) || math.IsNaN(a.F) && math.IsNaN(b.F)
	case vStr:
		return a.S == b.S
	case vList:
		if len(a.L) != len(b.L) {
			return false
		}
		for i := range a.L {
			if !same(a.L[i], b.L[i]) {
				return false
			}
		}
		return true
	case vMap:
		if len(a.M) != len(b.M) {
			return false
		}
		for i := range a.M {
			if !same(a.M[i].K, b.M[i].K) || !same(a.M[i].V, b.M[i].V) {
				return false
			}
		}
		return true
	}
	return a.X == b.X
}

func sameDocs(a, b []*Val) bool {
	return same(list(a...), list(b...))
}

// cmpNum orders two numbers exactly; ok is false when they are not both
// numbers or one of them is not a number at all.
func cmpNum(a, b *Val) (int, bool) {
	x, okx := bigNum(a)
	y, oky := bigNum(b)
	if !okx || !oky {
		return 0, false
	}
	return x.Cmp(y), true
}

func bigNum(v *Val) (*big.Float, bool) {
	switch v.K {
	case vInt:
		return new(big.Float).SetPrec(200).SetInt64(v.I), true
	case vFloat:
		if math.IsNaN(v.F) {
			return nil, false
		}
		return new(big.Float).SetPrec(200).SetFloat64(v.F), true
	}
	return nil, false
}

// equal is the language's equality: numbers by value, collections by content
// whatever the order of map entries.
func equal(a, b *Val) bool {
	if (a.K == vInt || a.K == vFloat) && (b.K == vInt || b.K == vFloat) {
		c, ok := cmpNum(a, b)
		return ok && c == 0
	}
	if a.K != b.K {
		return false
	}
	switch a.K {
	case vList:
		if len(a.L) != len(b.L) {
			return false
		}
		for i := range a.L {
			if !equal(a.L[i], b.L[i]) {
				return false
			}
		}
		return true
	case vMap:
		if len(a.M) != len(b.M) {
			return false
		}
		for _, e := range a.M {
			x := b.get(e.K.S)
			if x == nil || !equal(e.V, x) {
				return false
			}
		}
		return true
	}
	return same(a, b)
}

func truthy(v *Val) bool {
	switch v.K {
	case vNull:
		return false
	case vBool:
		return v.B
	case vInt:
		return v.I != 0
	case vFloat:
		return v.F != 0
	case vStr:
		return v.S != ""
	case vList:
		return len(v.L) > 0
	case vMap:
		return len(v.M) > 0
	}
	return true
}

// String shows a value unambiguously, for reports and coverage keys.
func (v *Val) String() string {
	var b strings.Builder
	v.show(&b)
	return b.String()
}

func (v *Val) show(b *strings.Builder) {
	if v == nil {
		b.WriteString("<none>")
		return
	}
	switch v.K {
	case vNull:
		b.WriteString("null")
	case vBool:
		fmt.Fprint(b, v.B)
	case vInt:
		fmt.Fprintf(b, "%d", v.I)
	case vFloat:
		fmt.Fprintf(b, "f%s", strconv.FormatFloat(v.F, 'g', -1, 64))
	case vStr:
		fmt.Fprintf(b, "%q", v.S)
	case vList:
		b.WriteByte('[')
		for i, x := range v.L {
			if i > 0 {
				b.WriteString(", ")
			}
			x.show(b)
		}
		b.WriteByte(']')
	case vMap:
		b.WriteByte('{')
		for i, e := range v.M {
			if i > 0 {
				b.WriteString(", ")
			}
			e.K.show(b)
			b.WriteString(": ")
			e.V.show(b)
		}
		b.WriteByte('}')
	default:
		fmt.Fprintf(b, "<function>")
	}
}

func showDocs(ds []*Val) string {
	var b strings.Builder
	for _, d := range ds {
		b.WriteString("--- ")
		d.show(&b)
		b.WriteByte('\n')
	}
	return b.String()
}

// shape is the structure of a value without its scalars, a coverage key.
func (v *Val) shape() string {
	switch v.K {
	case vList:
		s := "["
		for _, x := range v.L {
			s += x.shape()
		}
		return s + "]"
	case vMap:
		s := "{"
		for _, x := range v.M {
			s += x.V.shape()
		}
		return s + "}"
	}
	return string("nbifs"[min(int(v.K), 4)])
}

// --- reading YAML 1.2 core-schema values

var (
	reInt   = regexp.MustCompile(`^[-+]?[0-9]+$`)
	reOct   = regexp.MustCompile(`^0o[0-7]+$`)
	reHex   = regexp.MustCompile(`^0x[0-9a-fA-F]+$`)
	reFloat = regexp.MustCompile(`^[-+]?(\.[0-9]+|[0-9]+(\.[0-9]*)?)([eE][-+]?[0-9]+)?$`)
	reInf   = regexp.MustCompile(`^[-+]?\.(inf|Inf|INF)$`)
	reNaN   = regexp.MustCompile(`^\.(nan|NaN|NAN)$`)
)

// resolvePlain gives a plain scalar its YAML 1.2 core-schema value.
func resolvePlain(s string) (*Val, error) {
	switch s {
	case "", "~", "null", "Null", "NULL":
		return null(), nil
	case "true", "True", "TRUE":
		return boolean(true), nil
	case "false", "False", "FALSE":
		return boolean(false), nil
	}
	base, digits := 0, s
	switch {
	case reInt.MatchString(s):
		base = 10
	case reOct.MatchString(s):
		base, digits = 8, s[2:]
	case reHex.MatchString(s):
		base, digits = 16, s[2:]
	}
	if base != 0 {
		i, err := strconv.ParseInt(strings.TrimPrefix(digits, "+"), base, 64)
		if err != nil {
			return nil, err
		}
		return integer(i), nil
	}
	switch {
	case reFloat.MatchString(s):
		f, err := strconv.ParseFloat(s, 64)
		if err != nil && !math.IsInf(f, 0) {
			return nil, err
		}
		return float(f), nil
	case reInf.MatchString(s):
		if s[0] == '-' {
			return float(math.Inf(-1)), nil
		}
		return float(math.Inf(1)), nil
	case reNaN.MatchString(s):
		return float(math.NaN()), nil
	}
	return str(s), nil
}

// nodeVal turns a node of the reference YAML library into a value, resolving
// plain scalars by the core schema and not by the library's own rules.
func nodeVal(n *upstream.Node) (*Val, error) {
	switch n.Kind {
	case upstream.DocumentNode:
		if len(n.Content) == 0 {
			return null(), nil
		}
		return nodeVal(n.Content[0])
	case upstream.AliasNode:
		return nodeVal(n.Alias)
	case upstream.ScalarNode:
		if n.Style&(upstream.SingleQuotedStyle|upstream.DoubleQuotedStyle|upstream.LiteralStyle|upstream.FoldedStyle) != 0 {
			if n.Style&upstream.TaggedStyle == 0 || n.Tag == "!!str" || n.Tag == "!" {
				return str(n.Value), nil
			}
		}
		if n.Style&upstream.TaggedStyle != 0 {
			if n.Tag == "!!str" {
				return str(n.Value), nil
			}
			v, err := resolvePlain(n.Value)
			if err != nil {
				return nil, err
			}
			switch n.Tag {
			case "!!null":
				return null(), nil
			case "!!float":
				if v.K == vInt {
					v = float(float64(v.I))
				}
				if v.K == vFloat {
					return v, nil
				}
			case "!!int":
				if v.K == vInt {
					return v, nil
				}
			case "!!bool":
				if v.K == vBool {
					return v, nil
				}
			}
			return nil, fmt.Errorf("tag %s on %q", n.Tag, n.Value)
		}
		return resolvePlain(n.Value)
	case upstream.SequenceNode:
		v := list()
		for _, x := range n.Content {
			e, err := nodeVal(x)
			if err != nil {
				return nil, err
			}
			v.L = append(v.L, e)
		}
		return v, nil
	case upstream.MappingNode:
		v := mapv()
		for i := 0; i+1 < len(n.Content); i += 2 {
			k, err := nodeVal(n.Content[i])
			if err != nil {
				return nil, err
			}
			x, err := nodeVal(n.Content[i+1])
			if err != nil {
				return nil, err
			}
			v.M = append(v.M, Ent{k, x})
		}
		return v, nil
	}
	return nil, fmt.Errorf("node kind %d", n.Kind)
}

func readNodes(text string) ([]*upstream.Node, error) {
	dec := upstream.NewDecoder(bytes.NewReader([]byte(text)))
	var out []*upstream.Node
	for {
		var n upstream.Node
		err := dec.Decode(&n)
		if errors.Is(err, io.EOF) {
			return out, nil
		}
		if err != nil {
			return nil, err
		}
		out = append(out, &n)
	}
}

// malformed says whether a text is no YAML, apart from names that only yisp reads.
func malformed(text string) bool {
	_, err := readNodes(text)
	return err != nil && !strings.Contains(err.Error(), "unknown anchor") && !strings.Contains(err.Error(), "did not find expected alphabetic or numeric character")
}

// readDocs reads output as a YAML 1.2 core-schema stream.
func readDocs(text string) ([]*Val, error) {
	nodes, err := readNodes(text)
	if err != nil {
		return nil, err
	}
	var out []*Val
	for _, n := range nodes {
		v, err := nodeVal(n)
		if err != nil {
			return nil, err
		}
		out = append(out, v)
	}
	return out, nil
}

// reading11 says whether the YAML 1.1-ish rules of the reference library give
// the scalars of the output the same types, so that either kind of reader agrees.
func libraryAgrees(n *upstream.Node) error {
	if n.Kind == upstream.ScalarNode {
		v, err := nodeVal(n)
		if err != nil {
			return err
		}
		want := map[vk]string{vNull: "!!null", vBool: "!!bool", vInt: "!!int", vFloat: "!!float", vStr: "!!str"}[v.K]
		if got := n.ShortTag(); got != want {
			return fmt.Errorf("%q reads as %s for yaml.v3 and as %s in the core schema", n.Value, got, want)
		}
	}
	for _, x := range n.Content {
		if err := libraryAgrees(x); err != nil {
			return err
		}
	}
	return nil
}

// libraryVal reads a node by the YAML library's own rules.
func libraryVal(n *upstream.Node) (*Val, error) {
	switch n.Kind {
	case upstream.DocumentNode:
		return libraryVal(n.Content[0])
	case upstream.AliasNode:
		return libraryVal(n.Alias)
	case upstream.SequenceNode:
		v := list()
		for _, x := range n.Content {
			e, err := libraryVal(x)
			if err != nil {
				return nil, err
			}
			v.L = append(v.L, e)
		}
		return v, nil
	case upstream.MappingNode:
		v := mapv()
		for i := 0; i+1 < len(n.Content); i += 2 {
			k, err := libraryVal(n.Content[i])
			if err != nil {
				return nil, err
			}
			x, err := libraryVal(n.Content[i+1])
			if err != nil {
				return nil, err
			}
			v.M = append(v.M, Ent{k, x})
		}
		return v, nil
	}
	switch n.ShortTag() {
	case "!!null":
		return null(), nil
	case "!!bool":
		var b bool
		err := n.Decode(&b)
		return boolean(b), err
	case "!!int":
		var i int64
		err := n.Decode(&i)
		return integer(i), err
	case "!!float":
		var f float64
		err := n.Decode(&f)
		return float(f), err
	}
	return str(n.Value), nil
}

func libraryDocs(text string) ([]*Val, error) {
	nodes, err := readNodes(text)
	if err != nil {
		return nil, err
	}
	var out []*Val
	for _, n := range nodes {
		v, err := libraryVal(n)
		if err != nil {
			return nil, err
		}
		out = append(out, v)
	}
	return out, nil
}
