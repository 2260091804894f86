package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"github.com/totegamma/yisp/engine"
)

func init() {
	register(&Prop{
		ID: "C13", Quick: 50000, Thorough: 1500000, Case: c13,
		Rule: "distinct shapes of values (kinds, nesting, class of every string) whose YAML output was read back by two independent readers, or whose JSON output or marshalled text was read back",
	})
}

// computed makes an expression whose value is v, computed in some way.
func computed(c *C, v *Val, d int) *Y {
	if d <= 0 {
		return yquote(v)
	}
	d--
	other := func() *Y { return yquote(genVal(c, genOpt{depth: 1})) }
	switch c.Intn(16) {
	case 0:
		return ycall("if", ys(boolean(true)), computed(c, v, d), other())
	case 1:
		return ycall("lists.car", ycall("lists.cons", computed(c, v, d), other1(c)))
	case 2:
		return ycall("maps.get", ymap("a", other(), "b", computed(c, v, d)), yname("b"))
	case 3:
		return yseq(ycall("lambda", yseq(yname("x")), yref("x")), computed(c, v, d))
	case 4:
		return ycall("pipeline", computed(c, list(v), d), yname("lists.car"))
	case 5:
		if v.K != vNull {
			return ycall("??", ys(null()), computed(c, v, d))
		}
	case 6:
		if keysSorted(v) {
			return ycall("lists.at", ycall("yaml.unmarshal", ycall("yaml.marshal", computed(c, v, d))), ys(integer(0)))
		}
	case 7:
		return ycall("progn", other(), computed(c, v, d))
	}
	switch v.K {
	case vInt:
		if v.I > math.MinInt64/4 && v.I < math.MaxInt64/4 {
			k := int64(c.Intn(100))
			switch c.Intn(4) {
			case 0:
				return ycall("+", computed(c, integer(v.I-k), d), ys(integer(k)))
			case 1:
				return ycall("-", computed(c, integer(v.I+k), d), ys(integer(k)))
			case 2:
				return ycall("*", ys(integer(-1)), computed(c, integer(-v.I), d))
			}
		}
		if v.I >= 0 && v.I < 5 {
			l := list()
			for i := int64(0); i < v.I; i++ {
				l.L = append(l.L, genScalar(c, genOpt{}))
			}
			return ycall("lists.length", computed(c, l, d))
		}
	case vBool:
		switch c.Intn(4) {
		case 0:
			return ycall("!", computed(c, boolean(!v.B), d))
		case 1:
			return ycall("==", computed(c, integer(1), d), ys(integer(map[bool]int64{true: 1, false: 2}[v.B])))
		case 2:
			return ycall("strings.contains", computed(c, str("a\nb"), d), ys(str(map[bool]string{true: "a", false: "x"}[v.B])))
		}
	case vStr:
		r := []rune(v.S)
		i := c.Intn(len(r) + 1)
		a, b := string(r[:i]), string(r[i:])
		switch c.Intn(8) {
		case 0, 1:
			return ycall("strings.concat", computed(c, str(a), d), computed(c, str(b), d))
		case 2:
			return ycall("strings.join", computed(c, list(str(a), str(b)), d), yname(""))
		case 3:
			if strings.Count(v.S, "z") == 0 {
				return ycall("strings.replace", computed(c, str(a+"zz"+b), d), yname("zz"), yname(""))
			}
		case 4:
			return ycall("strings.format", yname("%s%s"), computed(c, str(a), d), computed(c, str(b), d))
		case 5:
			if strings.TrimSpace(v.S) == v.S {
				return ycall("strings.trim", computed(c, str(" "+v.S+"\n"), d))
			}
		case 6:
			if strings.ToUpper(v.S) == v.S {
				return ycall("strings.toUpper", computed(c, str(v.S), d))
			}
		case 7:
			if a != "" && b != "" && !strings.Contains(a, ",") {
				return ycall("lists.at", ycall("strings.split", computed(c, str(a+","+strings.ReplaceAll(v.S, ",", ";")), d), yname(",")), ys(integer(0))).subst(v.S == a, yquote(v))
			}
		}
	case vList:
		switch c.Intn(8) {
		case 0:
			if len(v.L) > 0 {
				return ycall("lists.cons", computed(c, v.L[0], d), computed(c, list(v.L[1:]...), d))
			}
		case 1:
			return ycall("lists.cdr", computed(c, list(append([]*Val{integer(1)}, v.L...)...), d))
		case 2:
			return ycall("lists.map", computed(c, v, d), ycall("lambda", yseq(yname("x")), yref("x")))
		case 3:
			return ycall("lists.filter", computed(c, v, d), ycall("lambda", yseq(yname("x")), ys(boolean(true))))
		case 4:
			i := c.Intn(len(v.L) + 1)
			return ycall("lists.flatten", computed(c, list(list(v.L[:i]...), list(v.L[i:]...)), d))
		case 5:
			m := mapv()
			for i, x := range v.L {
				m.set(fmt.Sprint("k", i), x)
			}
			return ycall("maps.values", computed(c, m, d))
		case 6:
			y := yseq()
			for _, x := range v.L {
				z := computed(c, x, d)
				if z.Tag == "" && (z.K == ySeq || z.K == yMap) && len(z.L)+len(z.M) > 0 {
					z.Tag = "!yisp"
				}
				y.L = append(y.L, z)
			}
			return y.tag("!quote")
		}
	case vMap:
		switch c.Intn(6) {
		case 0:
			t := list()
			for _, e := range v.M {
				t.L = append(t.L, list(e.K, e.V))
			}
			return ycall("maps.from-entries", computed(c, t, d))
		case 1:
			y := ycall("maps.make")
			for _, e := range v.M {
				y.L = append(y.L, computed(c, e.K, d), computed(c, e.V, d))
			}
			return y
		case 2:
			i := c.Intn(len(v.M) + 1)
			return ycall("maps.merge", computed(c, &Val{K: vMap, M: v.M[:i]}, d), computed(c, &Val{K: vMap, M: v.M[i:]}, d))
		case 3:
			y := ymap()
			for _, e := range v.M {
				y.M = append(y.M, YEnt{e.K, computed(c, e.V, d)})
			}
			return y
		case 4:
			i := c.Intn(len(v.M) + 1)
			y := ymap()
			y.M = append(y.M, YEnt{str("<<"), computed(c, &Val{K: vMap, M: v.M[:i]}, d)})
			for _, e := range v.M[i:] {
				y.M = append(y.M, YEnt{e.K, computed(c, e.V, d)})
			}
			return y
		}
	}
	return yquote(v)
}

// subst replaces the expression unless ok.
func (y *Y) subst(ok bool, z *Y) *Y {
	if ok {
		return y
	}
	return z
}

func other1(c *C) *Y {
	return yquote(list(genScalar(c, genOpt{})))
}

// keysSorted says whether reading the value as plain data keeps its order.
func keysSorted(v *Val) bool {
	return same(v, sortedKeys(v))
}

// checkOutput reads a YAML output with every reader and compares.
func checkOutput(c *C, want []*Val, out string) bool {
	nodes, err := readNodes(out)
	if err != nil {
		c.Fail("unreadable-output", "the output does not read back: %v\n--- want\n%s--- output\n%s", err, showDocs(want), out)
		return false
	}
	got, err := readDocs(out)
	if err != nil {
		c.Fail("unreadable-output", "the output does not read back: %v\n--- want\n%s--- output\n%s", err, showDocs(want), out)
		return false
	}
	if !checkDocs(c, "result", want, got, out) {
		return false
	}
	for _, n := range nodes {
		if err := libraryAgrees(n); err != nil {
			c.Fail("ambiguous-output", "%v\n--- output\n%s", err, out)
			return false
		}
	}
	got, err = readSecond(out)
	if err == errNoReader {
		c.Count("no second reader", 1)
		return true
	}
	if err != nil && strings.Contains(err.Error(), "deficient indentation") && commentInFlow.MatchString(out) {
		c.Fail("flow-comment-indentation", "another reader rejects the output: %v\n--- output\n%s", err, out)
		return true
	}
	if err != nil {
		c.Fail("second-reader", "another reader rejects the output: %v\n--- want\n%s--- output\n%s", err, showDocs(want), out)
		return false
	}
	c.Count("read by both readers", 1)
	return checkDocs(c, "second-reader", want, got, out)
}

var commentInFlow = regexp.MustCompile(`(?m)[\[{,](.* #.*)?$`)

func c13(c *C) {
	o := genOpt{depth: 3, nan: true, plain: c.Chance(0.1)}
	switch c.Intn(8) {
	case 0:
		c13json(c, o)
		return
	case 1:
		c13marshal(c, o)
		return
	case 2: // a program with functions and types in its result
		g := newProgGen(c)
		docs := g.program()
		src := emitDocs(progEmitter(c), docs)
		c.Input(src)
		in := newInterp()
		in.check = builtinCheck
		out := in.runDocs(docs, newFrame())
		if out.err != "" || out.unspec != "" {
			c.Skip()
		}
		text, err := evalText(c, src, opts{})
		if err != nil {
			c.Skip()
		}
		if checkOutput(c, out.docs, text) {
			c.Seen("program " + eventKey(in))
		}
		return
	}
	var docs []*Y
	var want []*Val
	for n := 1 + c.Intn(3); n > 0; n-- {
		v := genVal(c, o)
		y := computed(c, v, 1+c.Intn(4))
		if c.Chance(0.03) { // a computed key that merges nothing
			k := computed(c, str("<<"), c.Intn(3))
			v = mapv("<<", v)
			if c.Chance(0.5) {
				y = ycall("maps.make", k, y)
			} else {
				y = ycall("maps.from-entries", ycall("lists.cons", ycall("lists.cons", k, ycall("lists.cons", y, yseq().tag("!quote"))), yseq().tag("!quote")))
			}
		}
		if y.K == ySeq || y.K == yMap {
			if y.Tag == "" {
				y.Tag = "!yisp"
			}
		}
		if c.Chance(0.1) {
			v, y = list(v, integer(1)), yseq(y, ys(integer(1)))
		}
		docs = append(docs, y)
		if v.K != vNull {
			want = append(want, v)
		}
	}
	e := newEmitter(c.R)
	e.tame = c.Chance(0.5)
	e.comments = c.Chance(0.2)
	src := emitDocs(e, docs)
	c.Input(src)
	eo := opts{RenderSources: c.Chance(0.1)}
	out, err := evalText(c, src, eo)
	if err != nil {
		c.Fail("error", "evaluation fails: %s", errText(err))
		return
	}
	if checkOutput(c, want, out) {
		for _, v := range want {
			c.Seen(v.shape())
		}
	}
}

// jsonVal decodes JSON keeping the order of keys and the text of numbers.
func jsonVal(dec *json.Decoder) (*Val, error) {
	t, err := dec.Token()
	if err != nil {
		return nil, err
	}
	switch t := t.(type) {
	case nil:
		return null(), nil
	case bool:
		return boolean(t), nil
	case string:
		return str(t), nil
	case json.Number:
		if i, err := strconv.ParseInt(string(t), 10, 64); err == nil {
			return integer(i), nil
		}
		f, err := t.Float64()
		return float(f), err
	case json.Delim:
		if t == '[' {
			v := list()
			for dec.More() {
				x, err := jsonVal(dec)
				if err != nil {
					return nil, err
				}
				v.L = append(v.L, x)
			}
			_, err := dec.Token()
			return v, err
		}
		v := mapv()
		for dec.More() {
			k, err := dec.Token()
			if err != nil {
				return nil, err
			}
			x, err := jsonVal(dec)
			if err != nil {
				return nil, err
			}
			v.M = append(v.M, Ent{str(k.(string)), x})
		}
		_, err := dec.Token()
		return v, err
	}
	return nil, fmt.Errorf("token %v", t)
}

// sameJSON compares as JSON does: numbers by value, objects in any order.
func sameJSON(a, b *Val) bool {
	if (a.K == vInt || a.K == vFloat) && (b.K == vInt || b.K == vFloat) {
		if a.K == vInt && b.K == vInt {
			return a.I == b.I
		}
		if a.K == vFloat && b.K == vInt { // the shortest digits that read back as it
			return float64(b.I) == a.F
		}
		n, ok := cmpNum(a, b)
		return ok && n == 0
	}
	if a.K != b.K || len(a.L) != len(b.L) || len(a.M) != len(b.M) {
		return false
	}
	for i := range a.L {
		if !sameJSON(a.L[i], b.L[i]) {
			return false
		}
	}
	for _, e := range a.M {
		x := b.get(e.K.S)
		if x == nil || !sameJSON(e.V, x) {
			return false
		}
	}
	return a.K == vList || a.K == vMap || same(a, b)
}

func finite(v *Val) bool {
	if v.K == vFloat && (math.IsInf(v.F, 0) || math.IsNaN(v.F)) {
		return false
	}
	for _, x := range v.L {
		if !finite(x) {
			return false
		}
	}
	for _, e := range v.M {
		if !finite(e.V) {
			return false
		}
	}
	return true
}

func c13json(c *C, o genOpt) {
	v := genVal(c, o)
	if v.K == vNull || !finite(v) {
		c.Skip()
	}
	y := computed(c, v, 1+c.Intn(3))
	if y.Tag == "" && (y.K == ySeq || y.K == yMap) {
		y.Tag = "!yisp"
	}
	docs := []*Y{y}
	if c.Chance(0.3) {
		docs = append([]*Y{ycall("lambda", yseq(), ys(integer(1))).tag("!yisp").anchor("f")}, docs...)
	}
	src := emitDocs(newEmitter(c.R), docs)
	c.Input(src)
	path := filepath.Join(c.Dir, "j.yisp")
	if err := os.WriteFile(path, []byte(src), 0644); err != nil {
		panic(err)
	}
	text, err := guard(c, func() (string, error) {
		r, err := engine.NewEngine(opts{}).EvaluateFileToAny(path)
		if err != nil {
			return "", err
		}
		b, err := json.Marshal(r)
		return string(b), err
	})
	if err != nil {
		c.Fail("json-error", "no JSON output: %s", errText(err))
		return
	}
	dec := json.NewDecoder(bytes.NewReader([]byte(text)))
	dec.UseNumber()
	got, err := jsonVal(dec)
	if err != nil || got.K != vList || len(got.L) != 1 || !sameJSON(v, got.L[0]) {
		c.Fail("json", "want %v\ngot %v\n--- output\n%s", v, got, text)
		return
	}
	c.Count("JSON outputs", 1)
	c.Seen("json " + v.shape())
}

func noNaN(v *Val) bool {
	if v.K == vFloat && math.IsNaN(v.F) {
		return false
	}
	for _, x := range v.L {
		if !noNaN(x) {
			return false
		}
	}
	for _, e := range v.M {
		if !noNaN(e.V) {
			return false
		}
	}
	return true
}

func c13marshal(c *C, o genOpt) {
	v := genVal(c, o)
	x := computed(c, v, c.Intn(3))
	call := ycall("yaml.unmarshal", ycall("yaml.marshal", x))
	prog := call
	want := list(sortedKeys(v))
	if v.K == vList && c.Chance(0.3) { // a document each
		call = ycall("yaml.unmarshal", ycall("yaml.marshal", ycall("lists.as-toplevel", x)))
		prog, want = call, sortedKeys(v)
	} else if c.Chance(0.3) && noNaN(v) {
		prog = ycall("==", ycall("lists.car", call), yquote(v))
		want = boolean(true)
	}
	prog.Tag = "!yisp"
	src := emitDocs(newEmitter(c.R), []*Y{prog})
	c.Input(src)
	out, err := evalText(c, src, opts{})
	if err != nil {
		c.Fail("marshal-error", "evaluation fails: %s", errText(err))
		return
	}
	if checkOutput(c, []*Val{want}, out) {
		c.Count("marshalled", 1)
		c.Seen("marshal " + v.shape())
	}
}
