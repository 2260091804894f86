package main

import (
	"crypto/sha256"
	"fmt"
	"math"
	"sort"
	"strings"
)

// Models of the operators, written from the documentation. They panic with
// misuse when the operator must report an error, and with unspecified when
// nothing says what happens.
type misuse string
type unspecified string

func bad(format string, args ...any) { panic(misuse(fmt.Sprintf(format, args...))) }
func unspec(what string)             { panic(unspecified(what)) }

type applier func(f *Val, args ...*Val) *Val

type opModel func(ap applier, a []*Val) *Val

func wantN(a []*Val, lo, hi int) {
	if len(a) < lo || hi >= 0 && len(a) > hi {
		bad("argument count %d", len(a))
	}
}

// guilty is the value that the last failure was about, if it was about one.
var guilty *Val

// badFor fails because of one of the values.
func badFor(v *Val, why string) {
	guilty = v
	bad(why)
}

func wantK(v *Val, ks ...vk) {
	for _, k := range ks {
		if v.K == k {
			return
		}
	}
	guilty = v
	bad("argument kind")
}

var opModels = map[string]opModel{}

func alias(m opModel, names ...string) {
	for _, n := range names {
		opModels[n] = m
	}
}

func compareModel(ok func(c int) bool) opModel {
	return func(_ applier, a []*Val) *Val {
		wantN(a, 2, 2)
		wantK(a[0], vInt, vFloat)
		wantK(a[1], vInt, vFloat)
		c, ordered := cmpNum(a[0], a[1])
		return boolean(ordered && ok(c))
	}
}

// checkedInts folds integers, leaving overflow unspecified.
func checkedInts(a []*Val, start int64, f func(x, y int64) (int64, bool)) *Val {
	r := start
	for _, v := range a {
		wantK(v, vInt)
	}
	for _, v := range a {
		var ok bool
		r, ok = f(r, v.I)
		if !ok {
			unspec("overflow")
		}
	}
	return integer(r)
}

func addExact(x, y int64) (int64, bool) { r := x + y; return r, (r > x) == (y > 0) }
func subExact(x, y int64) (int64, bool) { r := x - y; return r, (r < x) == (y > 0) }
func mulExact(x, y int64) (int64, bool) {
	if x == 0 || y == 0 {
		return 0, true
	}
	r := x * y
	return r, r/y == x && !(x == -1 && y == math.MinInt64) && !(y == -1 && x == math.MinInt64)
}

// native is what a value is to the formatting verbs.
func native(v *Val) any {
	switch v.K {
	case vNull:
		return nil
	case vBool:
		return v.B
	case vInt:
		return int(v.I)
	case vFloat:
		return v.F
	case vStr:
		return v.S
	case vList:
		l := make([]any, len(v.L))
		for i, x := range v.L {
			l[i] = native(x)
		}
		return l
	case vMap:
		m := map[string]any{}
		for _, e := range v.M {
			m[e.K.S] = native(e.V)
		}
		return m
	}
	unspec("native form of a function")
	return nil
}

// sortedKeys is the value as plain data files and unmarshalled YAML give it.
func sortedKeys(v *Val) *Val {
	switch v.K {
	case vList:
		n := list()
		for _, x := range v.L {
			n.L = append(n.L, sortedKeys(x))
		}
		return n
	case vMap:
		n := mapv()
		for _, e := range v.M {
			n.M = append(n.M, Ent{e.K, sortedKeys(e.V)})
		}
		sort.SliceStable(n.M, func(i, j int) bool { return n.M[i].K.S < n.M[j].K.S })
		return n
	}
	return v
}

// visible drops functions and types, which are not part of output.
func visible(v *Val) *Val {
	switch v.K {
	case vList:
		n := &Val{K: vList, Doc: v.Doc, At: v.At, Srcs: v.Srcs}
		for _, x := range v.L {
			if y := visible(x); y != nil {
				n.L = append(n.L, y)
			}
		}
		return n
	case vMap:
		n := mapv()
		n.At, n.Srcs = v.At, v.Srcs
		for _, e := range v.M {
			if y := visible(e.V); y != nil {
				n.M = append(n.M, Ent{e.K, y})
			}
		}
		return n
	case vFunc:
		return nil
	}
	return v
}

func kindName(v *Val) string {
	if v.K == vFunc {
		if _, ok := v.X.(*closure); ok {
			return "lambda"
		}
		return "type"
	}
	return []string{"null", "bool", "int", "float", "string", "array", "map"}[v.K]
}

func docList(l []*Val, doc bool) *Val { return &Val{K: vList, L: l, Doc: doc} }

func init() {
	// arithmetic
	alias(func(_ applier, a []*Val) *Val { return checkedInts(a, 0, addExact) }, "+", "add")
	alias(func(_ applier, a []*Val) *Val { return checkedInts(a, 1, mulExact) }, "*", "mul")
	alias(func(_ applier, a []*Val) *Val {
		if len(a) == 0 {
			return integer(0)
		}
		wantK(a[0], vInt)
		return checkedInts(a[1:], a[0].I, subExact)
	}, "-", "sub")
	alias(func(_ applier, a []*Val) *Val {
		if len(a) == 0 {
			return integer(0)
		}
		wantK(a[0], vInt)
		for _, v := range a {
			wantK(v, vInt)
		}
		for _, v := range a[1:] {
			if v.I == 0 {
				guilty = v
				bad("division by zero")
			}
		}
		return checkedInts(a[1:], a[0].I, func(x, y int64) (int64, bool) {
			if x == math.MinInt64 && y == -1 {
				return 0, false
			}
			return x / y, true
		})
	}, "/", "div")
	// comparison
	alias(func(_ applier, a []*Val) *Val { wantN(a, 2, 2); return boolean(equal(a[0], a[1])) }, "==", "eq")
	alias(func(_ applier, a []*Val) *Val { wantN(a, 2, 2); return boolean(!equal(a[0], a[1])) }, "!=", "neq")
	alias(compareModel(func(c int) bool { return c < 0 }), "<", "lt")
	alias(compareModel(func(c int) bool { return c <= 0 }), "<=", "lte")
	alias(compareModel(func(c int) bool { return c > 0 }), ">", "gt")
	alias(compareModel(func(c int) bool { return c >= 0 }), ">=", "gte")
	// logic
	alias(func(_ applier, a []*Val) *Val {
		for _, v := range a {
			if !truthy(v) {
				return boolean(false)
			}
		}
		return boolean(true)
	}, "&&", "and")
	alias(func(_ applier, a []*Val) *Val {
		for _, v := range a {
			if truthy(v) {
				return boolean(true)
			}
		}
		return boolean(false)
	}, "||", "or")
	alias(func(_ applier, a []*Val) *Val { wantN(a, 1, 1); return boolean(!truthy(a[0])) }, "!", "not")
	alias(func(_ applier, a []*Val) *Val {
		for _, v := range a {
			if v.K != vNull {
				return v
			}
		}
		return null()
	}, "??", "default")
	// control
	alias(func(_ applier, a []*Val) *Val { wantN(a, 1, -1); return a[len(a)-1] }, "progn")
	alias(func(ap applier, a []*Val) *Val {
		wantN(a, 1, -1)
		v := a[0]
		for _, f := range a[1:] {
			v = ap(f, v)
		}
		return v
	}, "pipeline")

	// lists
	alias(func(_ applier, a []*Val) *Val {
		wantN(a, 1, 1)
		wantK(a[0], vList)
		if len(a[0].L) == 0 {
			badFor(a[0], "empty list")
		}
		return a[0].L[0]
	}, "lists.car")
	alias(func(_ applier, a []*Val) *Val {
		wantN(a, 1, 1)
		wantK(a[0], vList)
		if len(a[0].L) == 0 {
			badFor(a[0], "empty list")
		}
		return list(a[0].L[1:]...)
	}, "lists.cdr")
	alias(func(_ applier, a []*Val) *Val {
		wantN(a, 2, 2)
		wantK(a[1], vList)
		return list(append([]*Val{a[0]}, a[1].L...)...)
	}, "lists.cons")
	alias(func(_ applier, a []*Val) *Val {
		wantN(a, 2, 2)
		wantK(a[0], vList)
		for _, x := range a[0].L {
			if equal(x, a[1]) {
				return boolean(true)
			}
		}
		return boolean(false)
	}, "lists.contains")
	alias(func(ap applier, a []*Val) *Val {
		wantN(a, 2, -1)
		wantK(a[0], vList)
		if len(a) > 2 {
			unspec("more than a list and a function")
		}
		r := docList(nil, a[0].Doc)
		for _, x := range a[0].L {
			if truthy(ap(a[1], x)) {
				r.L = append(r.L, x)
			}
		}
		return r
	}, "lists.filter")
	alias(func(ap applier, a []*Val) *Val {
		wantN(a, 2, -1)
		wantK(a[0], vList)
		if len(a) > 2 {
			unspec("more than a list and a function")
		}
		r := docList(nil, a[0].Doc)
		for _, x := range a[0].L {
			r.L = append(r.L, ap(a[1], x))
		}
		return r
	}, "lists.map")
	alias(func(ap applier, a []*Val) *Val {
		wantN(a, 2, -1)
		wantK(a[0], vList)
		if len(a) > 2 {
			unspec("more than a list and a function")
		}
		if len(a[0].L) == 0 {
			badFor(a[0], "empty list")
		}
		r := a[0].L[0]
		for _, x := range a[0].L[1:] {
			r = ap(a[1], r, x)
		}
		return r
	}, "lists.reduce")
	alias(func(_ applier, a []*Val) *Val {
		r := docList(nil, len(a) > 0)
		for _, v := range a {
			if !v.Doc {
				r.Doc = false
			}
			if v.K != vList {
				r.L = append(r.L, v)
				continue
			}
			for _, x := range v.L {
				if x.K == vList {
					r.L = append(r.L, x.L...)
				} else {
					r.L = append(r.L, x)
				}
			}
		}
		return r
	}, "lists.flatten")
	alias(func(_ applier, a []*Val) *Val {
		wantN(a, 1, -1)
		wantK(a[0], vInt)
		start := int64(0)
		if len(a) > 2 {
			unspec("iota with more than two arguments")
		}
		if len(a) == 2 {
			wantK(a[1], vInt)
			start = a[1].I
			if start < 0 {
				badFor(a[1], "negative start")
			}
		}
		if a[0].I < 0 || a[0].I > math.MaxInt32 {
			badFor(a[0], "length")
		}
		if a[0].I > 100000 || start > math.MaxInt64-a[0].I {
			unspec("very long list")
		}
		r := list()
		for i := int64(0); i < a[0].I; i++ {
			r.L = append(r.L, integer(start+i))
		}
		return r
	}, "lists.iota")
	alias(func(_ applier, a []*Val) *Val {
		wantN(a, 1, 1)
		wantK(a[0], vList)
		return integer(int64(len(a[0].L)))
	}, "lists.length")
	alias(func(_ applier, a []*Val) *Val {
		wantN(a, 2, 2)
		wantK(a[0], vList)
		wantK(a[1], vInt)
		if a[1].I < 0 || a[1].I >= int64(len(a[0].L)) {
			badFor(a[1], "position")
		}
		return a[0].L[a[1].I]
	}, "lists.at")
	alias(func(_ applier, a []*Val) *Val {
		r := docList(nil, true)
		for _, v := range a {
			if v.K == vList {
				r.L = append(r.L, v.L...)
			} else {
				r.L = append(r.L, v)
			}
		}
		return r
	}, "lists.as-toplevel")

	// maps
	alias(func(_ applier, a []*Val) *Val {
		wantN(a, 1, 1)
		wantK(a[0], vList)
		r := mapv()
		for _, t := range a[0].L {
			wantK(t, vList)
			if len(t.L) != 2 {
				badFor(t, "tuple")
			}
			wantK(t.L[0], vStr)
			r.set(t.L[0].S, t.L[1])
		}
		return r
	}, "maps.from-entries")
	alias(func(_ applier, a []*Val) *Val {
		wantN(a, 1, 1)
		wantK(a[0], vMap)
		r := list()
		for _, e := range a[0].M {
			r.L = append(r.L, list(str(e.K.S), e.V))
		}
		return r
	}, "maps.to-entries")
	alias(func(_ applier, a []*Val) *Val {
		wantN(a, 1, 1)
		wantK(a[0], vMap)
		r := list()
		for _, e := range a[0].M {
			r.L = append(r.L, str(e.K.S))
		}
		return r
	}, "maps.keys")
	alias(func(_ applier, a []*Val) *Val {
		wantN(a, 1, 1)
		wantK(a[0], vMap)
		r := list()
		for _, e := range a[0].M {
			r.L = append(r.L, e.V)
		}
		return r
	}, "maps.values")
	alias(func(_ applier, a []*Val) *Val {
		wantN(a, 2, 2)
		wantK(a[0], vMap)
		wantK(a[1], vStr)
		v := a[0].get(a[1].S)
		if v == nil {
			badFor(a[1], "no such key")
		}
		return v
	}, "maps.get")
	alias(func(_ applier, a []*Val) *Val {
		if len(a)%2 != 0 {
			bad("odd")
		}
		r := mapv()
		for i := 0; i < len(a); i += 2 {
			wantK(a[i], vStr)
			r.set(a[i].S, a[i+1])
		}
		return r
	}, "maps.make")
	alias(func(_ applier, a []*Val) *Val {
		if len(a) == 0 {
			return null()
		}
		r := a[0]
		for _, v := range a {
			if v.K != vMap {
				unspec("merging something else than maps")
			}
		}
		for _, v := range a[1:] {
			r = mergeVals(r, v, nil)
		}
		return r
	}, "maps.merge")

	// strings
	alias(func(_ applier, a []*Val) *Val {
		s := ""
		for _, v := range a {
			wantK(v, vStr)
			s += v.S
		}
		return str(s)
	}, "strings.concat")
	alias(func(_ applier, a []*Val) *Val {
		wantN(a, 2, 2)
		wantK(a[0], vStr)
		wantK(a[1], vStr)
		return boolean(strings.Contains(a[0].S, a[1].S))
	}, "strings.contains")
	alias(func(_ applier, a []*Val) *Val {
		wantN(a, 1, 1)
		var s string
		switch a[0].K {
		case vStr:
			s = a[0].S
		case vInt:
			s = fmt.Sprint(a[0].I)
		case vBool:
			s = fmt.Sprint(a[0].B)
		case vFloat:
			s = tameFloat(a[0].F)
		default:
			unspec("quoting something else than a scalar")
		}
		if strings.HasPrefix(s, "'") || strings.HasSuffix(s, "'") {
			unspec("single quotes at the ends")
		}
		s = fmt.Sprintf("%q", s)
		return str(s[1 : len(s)-1])
	}, "strings.quote")
	alias(func(_ applier, a []*Val) *Val {
		wantN(a, 1, -1)
		wantK(a[0], vStr)
		var args []any
		for _, v := range a[1:] {
			args = append(args, native(v))
		}
		return str(fmt.Sprintf(a[0].S, args...))
	}, "strings.format")
	alias(func(_ applier, a []*Val) *Val {
		wantN(a, 2, 2)
		wantK(a[0], vList)
		wantK(a[1], vStr)
		var l []string
		for _, v := range a[0].L {
			wantK(v, vStr)
			l = append(l, v.S)
		}
		return str(strings.Join(l, a[1].S))
	}, "strings.join")
	alias(func(_ applier, a []*Val) *Val {
		wantN(a, 3, -1)
		if len(a) > 4 {
			unspec("replace with more than four arguments")
		}
		n := int64(-1)
		for _, v := range a[:3] {
			wantK(v, vStr)
		}
		if len(a) == 4 {
			wantK(a[3], vInt)
			n = a[3].I
		}
		return str(replaceModel(a[0].S, a[1].S, a[2].S, n))
	}, "strings.replace")
	alias(func(_ applier, a []*Val) *Val {
		wantN(a, 1, 1)
		wantK(a[0], vStr)
		return str(fmt.Sprintf("%x", sha256.Sum256([]byte(a[0].S))))
	}, "strings.sha256")
	alias(func(_ applier, a []*Val) *Val {
		wantN(a, 2, 2)
		wantK(a[0], vStr)
		wantK(a[1], vStr)
		r := list()
		for _, s := range splitModel(a[0].S, a[1].S) {
			r.L = append(r.L, str(s))
		}
		return r
	}, "strings.split")
	for name, f := range map[string]func(string) string{"toUpper": strings.ToUpper, "toLower": strings.ToLower, "trim": strings.TrimSpace} {
		alias(func(_ applier, a []*Val) *Val {
			wantN(a, 1, 1)
			wantK(a[0], vStr)
			return str(f(a[0].S))
		}, "strings."+name)
	}

	// types
	alias(func(_ applier, a []*Val) *Val { wantN(a, 1, 1); return str(kindName(a[0])) }, "types.of")
}

// replaceModel replaces the first n occurrences from the left, all for n < 0.
// The empty string occurs before every character and at the end.
func replaceModel(s, old, new string, n int64) string {
	if old == "" {
		if n == 0 {
			return s
		}
		var b strings.Builder
		for _, r := range s {
			if n != 0 {
				b.WriteString(new)
				n--
			}
			b.WriteRune(r)
		}
		if n != 0 {
			b.WriteString(new)
		}
		return b.String()
	}
	var b strings.Builder
	for i := 0; i < len(s); {
		if n != 0 && strings.HasPrefix(s[i:], old) {
			b.WriteString(new)
			i += len(old)
			n--
			continue
		}
		b.WriteByte(s[i])
		i++
	}
	return b.String()
}

func splitModel(s, sep string) []string {
	var out []string
	if sep == "" {
		for _, r := range s {
			out = append(out, string(r))
		}
		return out
	}
	cur := ""
	for i := 0; i < len(s); {
		if strings.HasPrefix(s[i:], sep) {
			out = append(out, cur)
			cur = ""
			i += len(sep)
			continue
		}
		cur += s[i : i+1]
		i++
	}
	return append(out, cur)
}
