package main

import (
	"fmt"
	"path/filepath"
	"strings"
)

func init() {
	register(&Prop{
		ID: "C09", Quick: 35000, Thorough: 2000000, Case: c09, Setup: setupCache,
		Rule: "distinct combinations of identities of targets and patches, which patches met which targets, sources and outcome on which the engine agreed with the reference",
	})
}

// nearText makes a text that is almost the given one.
func nearText(c *C, s string) string {
	switch c.Intn(8) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	case 2:
		return s + pick(c, []string{"x", " ", ".", "-", "/", "\u0301", "*"})
	case 3:
		return pick(c, []string{"x", " ", ".", "-", "/"}) + s
	case 4:
		if s != "" {
			return s[:len(s)-1]
		}
	case 5:
		if s != "" {
			return s[1:]
		}
	case 6:
		return strings.NewReplacer("a", "b", "/", ".", "v", "w").Replace(s)
	}
	return s + s
}

// manifestID names a manifest.
func manifestID(v *Val) string {
	wantK(v, vMap)
	text := func(m *Val, k string) string {
		x := m.get(k)
		if x == nil || x.K == vNull {
			return ""
		}
		wantK(x, vStr)
		return x.S
	}
	id := []string{text(v, "apiVersion"), text(v, "kind")}
	m := v.get("metadata")
	if m == nil {
		m = mapv()
	}
	wantK(m, vMap)
	return fmt.Sprintf("%q", append(id, text(m, "namespace"), text(m, "name")))
}

// someKinds makes kinds of manifests.
func (g *schemaGen) someKinds(n int) []*kind {
	c := g.c
	var ks []*kind
	for _, id := range [][2]string{{"v1", "Pod"}, {"apps/v1", "Pod"}, {"v1", "Service"}, {"example.com/v1beta1", "Widget"}}[:n] {
		k := &kind{api: id[0], kind: id[1]}
		if len(ks) > 0 && c.Chance(0.3) {
			k.s = ks[0].s
		} else {
			k.s = g.manifestType()
		}
		ks = append(ks, k)
	}
	return ks
}

func c09(c *C) {
	g := &schemaGen{c: c, prefix: fmt.Sprintf("vh%d", c.Idx), merge: true, nokey: []string{"apiVersion", "kind", "metadata", "$schema"}}
	if c.Chance(0.2) {
		g.makeDefs(1)
	}
	kinds := g.someKinds(1 + c.Intn(4))
	clean := storeKinds(kinds, g.prefix, g.d)
	defer clean()
	eo := opts{}
	unknown := &kind{api: "v9", kind: "Unknown", s: kinds[0].s}
	pool := kinds
	switch c.Intn(6) {
	case 0:
		eo.AllowUntypedManifest = true
		pool = append(pool, unknown)
	case 1:
		eo.DisableTypeCheck = true
	}
	byID := map[string]*kind{}
	for _, k := range kinds {
		byID[k.api+" "+k.kind] = k
	}
	names := []string{"a", "b", "a/b", ""}
	spaces := []string{"", "", "x", "a", "x/a", "default", "X"}
	one := func() (*Val, *kind) {
		k := pick(c, pool)
		n, ns := pick(c, names), pick(c, spaces)
		v := g.fitting(k.s, func() *Val { return g.manifest(k, n, ns) })
		return v, k
	}
	var targets, patches []*Val
	var tk []*kind
	for n := c.Intn(5); n > 0; n-- {
		v, k := one()
		if len(targets) > 0 && c.Chance(0.15) { // the same again
			i := c.Intn(len(targets))
			v, k = targets[i].clone(), tk[i]
		}
		targets = append(targets, v)
		tk = append(tk, k)
	}
	for n := c.Intn(5); n > 0; n-- {
		if len(targets) > 0 && c.Chance(0.85) {
			i := c.Intn(len(targets))
			p := g.overlay(tk[i].s, targets[i], "")
			if p.K == vMap { // for the target or for something almost like it
				for _, f := range []string{"apiVersion", "kind", "metadata"} {
					p.del(f)
					if x := targets[i].get(f); x != nil {
						p.set(f, x.clone())
					}
				}
				if c.Chance(0.15) {
					k := pick(c, pool)
					p.set("apiVersion", str(k.api))
					p.set("kind", str(k.kind))
				}
				if m := p.get("metadata"); m != nil && c.Chance(0.15) {
					m.set("namespace", str(pick(c, spaces)))
				}
				if m := p.get("metadata"); m != nil && c.Chance(0.12) {
					f := pick(c, []string{"name", "namespace"})
					if x := m.get(f); x != nil && x.K == vStr {
						m.set(f, str(nearText(c, x.S)))
					}
				}
				if eo.AllowUntypedManifest && c.Chance(0.2) {
					f := pick(c, []string{"kind", "apiVersion"})
					if x := p.get(f); x != nil && x.K == vStr {
						p.set(f, str(nearText(c, x.S)))
					}
				}
				if c.Chance(0.3) {
					c.R.Shuffle(len(p.M), func(i, j int) { p.M[i], p.M[j] = p.M[j], p.M[i] })
				}
			}
			patches = append(patches, p)
			continue
		}
		v, _ := one()
		patches = append(patches, v)
	}
	if c.Chance(0.06) && len(targets)+len(patches) > 0 { // something that is no manifest, or an odd one
		l := &patches
		if len(*l) == 0 || len(targets) > 0 && c.Chance(0.5) {
			l = &targets
		}
		i := c.Intn(len(*l))
		switch v := (*l)[i]; {
		case c.Chance(0.3) || v.K != vMap:
			(*l)[i] = genVal(c, genOpt{depth: 1, plain: true})
		case c.Chance(0.5):
			v.set("metadata", genVal(c, genOpt{depth: 1, plain: true}))
		default:
			v.set(pick(c, []string{"metadata", "kind", "apiVersion"}), pick(c, []*Val{null(), integer(3), str(""), list(), mapv("name", integer(1)), mapv("name", null()), mapv("namespace", pick(c, []*Val{integer(1), list(), mapv(), boolean(true), null()}), "name", str("a"))}))
		}
	}
	for _, v := range append(append([]*Val{}, targets...), patches...) {
		plainSchemaKeys(v)
	}

	// sources: code is typed as it is evaluated, data is not
	c.fresh()
	source := func(vs []*Val, name string) (y *Y, pre []*Y, typed bool, docs int) {
		maps := true
		for _, v := range vs {
			if v.K != vMap {
				maps = false
			}
		}
		lits := yseq()
		for _, v := range vs {
			lits.L = append(lits.L, ydata(v))
		}
		switch n := c.Intn(6); {
		case n == 0 && maps && len(vs) > 0: // an included data file
			f := name + ".yaml"
			write(filepath.Join(c.tmp, f), tameDocs(c, vs))
			return ycall("include", yname(f)), nil, false, 0
		case n == 1 && maps && len(vs) > 0: // an included program
			f := name + ".yisp"
			write(filepath.Join(c.tmp, f), tameDocs(c, vs))
			return ycall("include", yname(f)), nil, true, 0
		case n == 2 && maps && len(vs) > 0: // read from text
			return ycall("yaml.unmarshal", ys(str(tameDocs(c, vs)))), nil, false, 0
		case n == 3: // named earlier
			return yref(name), []*Y{yseq(lits.anchor(name))}, true, 1
		case n == 4 && len(vs) > 0: // each named earlier
			var r *Y = yseq()
			for i := len(vs) - 1; i >= 0; i-- {
				pre = append(pre, yseq(ydata(vs[i]).anchor(fmt.Sprint(name, i))))
				r = ycall("lists.cons", yref(fmt.Sprint(name, i)), r)
			}
			return r, pre, true, len(pre)
		}
		return lits.tag("!quote"), nil, true, 0
	}
	// every map with apiVersion and kind in code is typed, whatever it is
	ty, tpre, ttyped, tdocs := source(targets, "targets")
	py, ppre, ptyped, pdocs := source(patches, "patches")
	sortedT, sortedP := targets, patches
	if !ttyped {
		sortedT = sortAll(targets)
	}
	if !ptyped {
		sortedP = sortAll(patches)
	}
	typeOf := func(v *Val, typed bool) *kind {
		if v.K != vMap || !typed {
			return nil
		}
		a, k := v.get("apiVersion"), v.get("kind")
		if a == nil || k == nil || a.K != vStr || k.K != vStr || a.S == "" || k.S == "" {
			return nil
		}
		x := byID[a.S+" "+k.S]
		if x == nil && !eo.AllowUntypedManifest {
			bad("unknown kind")
		}
		return x
	}
	var result []*Val
	met := ""
	o := attempt(func() {
		var types []*kind
		for _, v := range sortedT {
			types = append(types, typeOf(v, ttyped))
		}
		var pt []*kind
		for _, v := range sortedP {
			pt = append(pt, typeOf(v, ptyped))
		}
		result = append(result, sortedT...)
		for j, p := range sortedP {
			id := manifestID(p)
			for i, t := range result {
				if manifestID(t) != id {
					continue
				}
				var st *strategy
				if k := byID[t.get2("apiVersion")+" "+t.get2("kind")]; k != nil {
					st = k.s.strategy(g.d, 0)
				}
				result[i] = mergeVals(t, p, st)
				if types[i] == nil {
					types[i] = pt[j]
				}
				met += fmt.Sprint(j, ">", i, " ")
			}
		}
		if !eo.AllowUntypedManifest && !eo.DisableTypeCheck {
			for i, v := range result {
				if types[i] != nil && !g.d.conforms(types[i].s, v) {
					bad("the patched manifest does not conform")
				}
			}
		}
	})
	// what is left out of lists of documents
	var out []*Val
	asDocs := false
	if ty.K == ySeq && len(ty.L) > 0 && ty.L[0].K == yScalar && ty.L[0].V != nil && ty.L[0].V.S == "include" {
		asDocs = c.Chance(0.5)
	}
	call := ycall("k8s.patch", ty, py)
	var prog []*Y
	pre := append(tpre, ppre...)
	prog = append(prog, pre...)
	if o.err == "" && o.unspec == "" {
		for i, d := range pre {
			_ = i
			o.docs = append(o.docs, yval(d))
		}
		if !eo.AllowUntypedManifest && !eo.DisableTypeCheck { // they are output as well, so they must conform
			o2 := attempt(func() {
				check := func(vs []*Val, n int) {
					for _, v := range vs {
						if k := typeOf(v, true); n > 0 && k != nil && !g.d.conforms(k.s, v) {
							bad("a manifest does not conform")
						}
					}
				}
				check(targets, tdocs)
				check(patches, pdocs)
			})
			if o2.err != "" || o2.unspec != "" {
				o.err, o.unspec, o.docs = o2.err, o2.unspec, nil
			}
		}
	}
	if asDocs {
		prog = append(prog, call.tag("!yisp"))
		out = result
	} else {
		prog = append(prog, ymap("r", call).tag("!yisp"))
		out = []*Val{mapv("r", list(result...))}
	}
	if o.err == "" {
		for _, v := range out {
			if v.K != vNull {
				o.docs = append(o.docs, v)
			}
		}
	}
	e := newEmitter(c.R)
	e.tame = c.Chance(0.8)
	src := emitDocs(e, prog)
	main := filepath.Join(c.tmp, "main.yisp")
	write(main, src)
	c.Input(fmt.Sprintf("%s\n# options: %+v\n# files: %s\n# kinds: %s\n# schemas: %s", src, eo, listFiles(c.tmp), showKinds(kinds), g.d.show()))
	if agreeFile(c, o, main, eo) {
		c.Count("patches that met a target", strings.Count(met, ">"))
		c.Seen(met + fmt.Sprint(len(targets), len(patches), ttyped, ptyped, eo.AllowUntypedManifest, eo.DisableTypeCheck, o.err, len(result)))
	}
}

func (v *Val) get2(k string) string {
	if x := v.get(k); x != nil && x.K == vStr {
		return x.S
	}
	return ""
}

func sortAll(vs []*Val) []*Val {
	var r []*Val
	for _, v := range vs {
		r = append(r, sortedKeys(v))
	}
	return r
}

// yval is the value of syntax that is all data.
func yval(y *Y) *Val {
	switch y.K {
	case ySeq:
		v := list()
		for _, x := range y.L {
			v.L = append(v.L, yval(x))
		}
		return v
	case yMap:
		v := mapv()
		for _, e := range y.M {
			v.M = append(v.M, Ent{e.K, yval(e.V)})
		}
		return v
	}
	return y.V
}

func showKinds(ks []*kind) string {
	s := ""
	for _, k := range ks {
		s += fmt.Sprintf("%s %s = %s; ", k.api, k.kind, k.s.val())
	}
	return s
}
