package main

import (
	"fmt"
	"strconv"
	"strings"
)

func init() {
	register(&Prop{
		ID: "C08", Quick: 100000, Thorough: 4000000, Case: c08,
		Rule: "distinct sequences of (operation, way the path ends, wildcards, outcome) on which the engine agreed with the JSON Patch model",
	})
}

// pointer splits a JSON pointer into its tokens.
func pointer(p string) []string {
	if p == "" {
		return nil
	}
	if p[0] != '/' {
		bad("pointer without a slash")
	}
	ts := strings.Split(p[1:], "/")
	for i, t := range ts {
		ts[i] = strings.NewReplacer("~1", "/", "~0", "~").Replace(t)
	}
	return ts
}

func pointerText(ts []string) string {
	var b strings.Builder
	for _, t := range ts {
		b.WriteString("/" + strings.NewReplacer("~", "~0", "/", "~1").Replace(t))
	}
	return b.String()
}

// index reads the index of an item of a list of n items.
func index(t string, n int) int {
	i, err := strconv.Atoi(t)
	if err != nil {
		bad("not an index: %s", t)
	}
	if strconv.Itoa(i) != t {
		unspec("index that is not canonical")
	}
	if i < 0 || i >= n {
		bad("no item %d", i)
	}
	return i
}

func pget(v *Val, ts []string) *Val {
	for _, t := range ts {
		switch v.K {
		case vMap:
			v = v.get(t)
			if v == nil {
				bad("no key %s", t)
			}
		case vList:
			v = v.L[index(t, len(v.L))]
		default:
			bad("nothing below a scalar")
		}
	}
	return v
}

func shallow(into, from *Val) {
	for _, e := range from.clone().M {
		into.set(e.K.S, e.V)
	}
}

// each calls f for the values a path stands for up to its last token.
func each(v *Val, ts []string, f func(holder *Val, last string)) {
	if len(ts) == 1 {
		f(v, ts[0])
		return
	}
	if ts[0] != "*" {
		each(pget(v, ts[:1]), ts[1:], f)
		return
	}
	switch v.K {
	case vMap:
		for _, e := range v.M {
			each(e.V, ts[1:], f)
		}
	case vList:
		for _, x := range v.L {
			each(x, ts[1:], f)
		}
	default:
		bad("wildcard on a scalar")
	}
}

func padd(v *Val, ts []string, x *Val) {
	wild := false
	for _, t := range ts {
		wild = wild || t == "*"
	}
	each(v, ts, func(h *Val, last string) {
		if last == "*" {
			put := func(old *Val) *Val {
				if old.K == vMap && x.K == vMap {
					shallow(old, x)
					return old
				}
				return x.clone()
			}
			switch h.K {
			case vMap:
				for i := range h.M {
					h.M[i].V = put(h.M[i].V)
				}
			case vList:
				for i := range h.L {
					h.L[i] = put(h.L[i])
				}
			default:
				bad("wildcard on a scalar")
			}
			return
		}
		switch h.K {
		case vMap:
			if old := h.get(last); wild && old != nil && old.K == vMap && x.K == vMap {
				shallow(old, x)
				return
			}
			h.set(last, x.clone())
		case vList:
			i := len(h.L)
			if last != "-" && last != fmt.Sprint(i) {
				i = index(last, i)
				if old := h.L[i]; wild && old.K == vMap && x.K == vMap {
					shallow(old, x)
					return
				}
			}
			h.L = append(h.L[:i:i], append([]*Val{x.clone()}, h.L[i:]...)...)
		default:
			bad("nothing below a scalar")
		}
	})
}

func premove(v *Val, ts []string) {
	each(v, ts, func(h *Val, last string) {
		switch h.K {
		case vMap:
			if last == "*" {
				h.M = nil
				return
			}
			if h.get(last) == nil {
				bad("no key %s", last)
			}
			h.del(last)
		case vList:
			if last == "*" {
				h.L = nil
				return
			}
			i := index(last, len(h.L))
			h.L = append(h.L[:i:i], h.L[i+1:]...)
		default:
			bad("nothing below a scalar")
		}
	})
}

func preplace(v *Val, ts []string, x *Val) {
	each(v, ts, func(h *Val, last string) {
		if last == "*" {
			switch h.K {
			case vMap:
				for i := range h.M {
					h.M[i].V = x.clone()
				}
			case vList:
				for i := range h.L {
					h.L[i] = x.clone()
				}
			default:
				bad("wildcard on a scalar")
			}
			return
		}
		switch h.K {
		case vMap:
			if h.get(last) == nil {
				bad("no key %s", last)
			}
			h.set(last, x.clone())
		case vList:
			h.L[index(last, len(h.L))] = x.clone()
		default:
			bad("nothing below a scalar")
		}
	})
}

// patchOp applies one patch operation to a value in place.
func patchOp(v *Val, p *Val) {
	wantK(p, vMap)
	text := func(k string) string {
		x := p.get(k)
		if x == nil || x.K != vStr {
			bad("no %s", k)
		}
		return x.S
	}
	value := func() *Val {
		x := p.get("value")
		if x == nil {
			bad("no value")
		}
		return x
	}
	op := text("op")
	path := pointer(text("path"))
	if len(path) == 0 {
		unspec("the root")
	}
	switch op {
	case "add":
		padd(v, path, value())
	case "remove":
		premove(v, path)
	case "replace":
		preplace(v, path, value())
	case "move", "copy":
		from := pointer(text("from"))
		if op == "move" && len(from) == 0 {
			bad("moving the root")
		}
		for _, t := range from {
			if t == "*" {
				unspec("wildcard in from")
			}
		}
		x := pget(v, from).clone()
		if op == "move" {
			if len(from) < len(path) && pointerText(path[:len(from)]) == pointerText(from) {
				bad("moving a value into itself")
			}
			premove(v, from)
		}
		padd(v, path, x)
	case "test":
		for _, t := range path {
			if t == "*" {
				unspec("wildcard in test")
			}
		}
		if !equal(pget(v, path), value()) {
			bad("test fails")
		}
	default:
		bad("unknown operation")
	}
}

// attempt says how f ended.
func attempt(f func()) (o outcome) {
	defer func() {
		switch r := recover().(type) {
		case nil:
		case misuse:
			o.err = string(r)
		case unspecified:
			o.unspec = string(r)
		default:
			panic(r)
		}
	}()
	f()
	return
}

var patchKeys = []string{"a", "b", "c", "name", "x/y", "m~n", "", "0", "1", "-", "a.b", "~1", "日本"}

func patchVal(c *C, d int) *Val {
	switch n := c.Intn(9); {
	case d > 0 && n < 4:
		v := mapv()
		for i := c.Intn(4); i > 0; i-- {
			v.set(pick(c, patchKeys), patchVal(c, d-1))
		}
		return v
	case d > 0 && n < 7:
		v := list()
		for i := c.Intn(4); i > 0; i-- {
			v.L = append(v.L, patchVal(c, d-1))
		}
		return v
	}
	return genScalar(c, genOpt{plain: true})
}

// patchPath walks down a value and returns where it got to.
func patchPath(c *C, v *Val, wild float64, adding bool) []string {
	var ts []string
	for depth := 0; ; depth++ {
		last := c.Chance(0.35) || depth > 4
		if c.Chance(wild) {
			ts = append(ts, "*")
			if last {
				return ts
			}
			switch {
			case v.K == vMap && len(v.M) > 0:
				v = pick(c, v.M).V
			case v.K == vList && len(v.L) > 0:
				v = pick(c, v.L)
			default:
				return ts
			}
			continue
		}
		switch {
		case v.K == vMap && len(v.M) > 0 && !c.Chance(0.12):
			e := pick(c, v.M)
			if last && adding && c.Chance(0.5) {
				return append(ts, pick(c, patchKeys))
			}
			ts = append(ts, e.K.S)
			v = e.V
		case v.K == vList && (len(v.L) > 0 || last):
			if last && adding && c.Chance(0.5) {
				return append(ts, pick(c, []string{"-", fmt.Sprint(len(v.L)), fmt.Sprint(c.Intn(len(v.L) + 1))}))
			}
			if len(v.L) == 0 || c.Chance(0.04) {
				return append(ts, pick(c, []string{"-", "0", "-1", "9", "x", ""}))
			}
			i := c.Intn(len(v.L))
			ts = append(ts, fmt.Sprint(i))
			v = v.L[i]
		default:
			return append(ts, pick(c, patchKeys))
		}
		if last {
			return ts
		}
	}
}

// genPatch makes an operation for the present state of a document.
func genPatch(c *C, v *Val, wild float64) *Val {
	op := pick(c, []string{"add", "add", "add", "remove", "replace", "replace", "move", "copy", "test"})
	ws := wild
	if op == "test" {
		ws = 0
	}
	path := patchPath(c, v, ws, op == "add" || op == "move" || op == "copy")
	if c.Chance(0.06) && len(path) > 0 { // leads nowhere at some place
		path[c.Intn(len(path))] = pick(c, []string{"-", "-1", "2", "9", "99999999999999999999", "x", "", pick(c, patchKeys)})
		if c.Chance(0.5) {
			path = append(path, pick(c, []string{"*", "0", "-", pick(c, patchKeys)}))
		}
	}
	p := mapv("op", str(op), "path", str(pointerText(path)))
	switch op {
	case "add", "replace":
		p.set("value", patchVal(c, 2))
	case "test":
		x := patchVal(c, 1)
		attempt(func() { x = (&argGen{c: c}).near(pget(v, path).clone()) })
		if c.Chance(0.7) {
			attempt(func() { x = pget(v, path).clone() })
		}
		p.set("value", x)
	case "move", "copy":
		p.set("from", str(pointerText(patchPath(c, v, 0, false))))
		if c.Chance(0.04) {
			p.set("path", str(p.get("from").S+pointerText([]string{pick(c, patchKeys)})))
		}
	}
	switch c.Intn(150) {
	case 0:
		p.del(pick(c, p.M).K.S)
	case 1:
		p.set(pick(c, p.M).K.S, genScalar(c, genOpt{plain: true}))
	case 2:
		p.set("op", str(pick(c, []string{"Add", "merge", "", "delete"})))
	case 3:
		p.set("path", str(strings.TrimPrefix(p.get("path").S, "/")))
	}
	if c.Chance(0.3) {
		c.R.Shuffle(len(p.M), func(i, j int) { p.M[i], p.M[j] = p.M[j], p.M[i] })
	}
	return p
}

func c08(c *C) {
	wild := pick(c, []float64{0, 0, 0.15, 0.4})
	var targets []*Val
	docs := c.Chance(0.25)
	n := 1
	if docs {
		n = c.Intn(4)
	}
	for i := 0; i < n; i++ {
		t := patchVal(c, 3)
		for t.K != vMap && t.K != vList || c.Chance(0.3) {
			t = patchVal(c, 3)
		}
		if i > 0 && c.Chance(0.7) { // alike documents, so that patches fit all of them
			t = (&argGen{c: c}).near(targets[0].clone()).clone()
		}
		targets = append(targets, t)
	}
	if n == 0 && !docs {
		c.Skip()
	}
	target := list()
	for _, t := range targets {
		target.L = append(target.L, t.clone())
	}
	shadow := mapv()
	if n > 0 {
		shadow = targets[0].clone()
	}
	patches := list()
	for i := c.Intn(6); i >= 0; i-- {
		p := genPatch(c, shadow, wild)
		if r := attempt(func() { patchOp(shadow, p) }); r.err != "" && c.Chance(0.8) || r.unspec != "" {
			continue
		}
		patches.L = append(patches.L, p)
	}
	var keys []string
	o := attempt(func() {
		for _, t := range targets {
			for _, p := range patches.L {
				patchOp(t, p)
				path := p.get("path").S
				k := p.get("op").S
				if strings.Contains(path, "*") {
					k += fmt.Sprint("*", strings.Count(path, "*"), strings.HasSuffix(path, "*"))
				}
				if strings.HasSuffix(path, "-") {
					k += "-"
				}
				keys = append(keys, fmt.Sprint(k, strings.Count(path, "/")))
			}
		}
	})
	var arg, pargs *Y
	if docs {
		arg = ycall("lists.as-toplevel", yquote(target))
	} else {
		arg = yquote(target.L[0])
	}
	pargs = yquote(patches)
	if len(patches.L) == 1 && c.Chance(0.5) {
		pargs = yquote(patches.L[0])
	} else if c.Chance(0.05) {
		pargs = yquote(pick(c, []*Val{null(), integer(1), str("x"), list(null()), list(str("x"))}))
		if pargs.V == nil || n > 0 {
			o = outcome{err: "patches of another kind"}
		}
		if n == 0 {
			c.Skip()
		}
	} else if c.Chance(0.15) { // patches one by one
		y := arg
		for _, p := range patches.L {
			y = ycall("maps.patch", y, yquote(p))
		}
		if len(patches.L) > 0 {
			arg, pargs = y, nil
		}
	}
	y := arg
	if pargs != nil {
		y = ycall("maps.patch", arg, pargs)
	}
	if c.Chance(0.3) && pargs != nil {
		y = yseq(ycall("lambda", yseq(yname("t"), yname("p")), ycall("maps.patch", yref("t"), yref("p"))), arg, pargs)
	}
	want := targets
	if !docs && targets[0].K == vNull {
		c.Skip()
	}
	prog := []*Y{y.tag("!yisp")}
	if !docs && c.Chance(0.3) {
		prog = []*Y{ymap("r", y.tag("!yisp"))}
		want = []*Val{mapv("r", targets[0])}
	} else if docs && c.Chance(0.2) {
		prog = []*Y{yseq(y)}
		want = []*Val{list(list(targets...))}
	}
	o.docs = nil
	for _, w := range want {
		if w.K != vNull {
			o.docs = append(o.docs, w)
		}
	}
	e := newEmitter(c.R)
	e.tame = c.Chance(0.7)
	src := emitDocs(e, prog)
	c.Input(src)
	if agree(c, o, src, opts{}) {
		c.Count("operations", len(keys))
		if o.err != "" {
			keys = append(keys, "!"+firstWord(o.err))
		}
		c.Seen(strings.Join(keys, " "))
	}
}
