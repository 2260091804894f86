package main

import (
	"fmt"
	"strings"
)

func init() {
	register(&Prop{
		ID: "C01", Quick: 120000, Thorough: 4000000, Case: c01,
		Rule: "distinct structures (shape of every document and how often each scalar notation class occurs) of tag-free YAML streams whose output was read back and compared scalar by scalar with the generated data",
	})
}

// expandPlain gives the data of a tag-free document: anchors name values for
// everything that follows and merge keys apply in order.
func expandPlain(y *Y, env map[string]*Val) *Val {
	var v *Val
	switch y.K {
	case yAlias:
		return env[y.Name]
	case yScalar:
		v = y.V
	case ySeq:
		v = list()
		for _, x := range y.L {
			v.L = append(v.L, expandPlain(x, env))
		}
	case yMap:
		v = mapv()
		for _, e := range y.M {
			x := expandPlain(e.V, env)
			if e.K.K == vStr && e.K.S == "<<" {
				src := []*Val{x}
				if x.K == vList {
					src = x.L
				}
				for _, s := range src {
					for _, m := range s.M {
						setEnt(v, m)
					}
				}
				continue
			}
			if e.K.K == vStr && e.K.S == quotedMergeKey {
				e.K = str("<<")
			}
			setEnt(v, Ent{e.K, x})
		}
	}
	if y.Anchor != "" {
		env[y.Anchor] = v
	}
	return v
}

func setEnt(v *Val, m Ent) {
	for i := range v.M {
		if same(v.M[i].K, m.K) {
			v.M[i].V = m.V
			return
		}
	}
	v.M = append(v.M, m)
}

// sprinkleAnchors names some nodes and refers to the names afterwards, in
// document order.
func sprinkleAnchors(c *C, y *Y, names *[]string, maps *[]string) {
	switch y.K {
	case ySeq:
		for i, x := range y.L {
			if len(*names) > 0 && c.Chance(0.1) {
				y.L[i] = yref(pick(c, *names))
				continue
			}
			sprinkleAnchors(c, x, names, maps)
		}
	case yMap:
		strKeys := true
		for _, e := range y.M {
			if e.K.K != vStr {
				strKeys = false
			}
		}
		merges := 0
		for i := 0; i < len(y.M); i++ {
			if strKeys && len(*maps) > 0 && merges < 1 && c.Chance(0.1) {
				merges++
				var v *Y
				if c.Chance(0.3) {
					v = yseq(yref(pick(c, *maps)))
					if c.Chance(0.5) {
						v.L = append(v.L, yref(pick(c, *maps)))
					}
				} else {
					v = yref(pick(c, *maps))
				}
				y.M = append(y.M[:i:i], append([]YEnt{{str("<<"), v}}, y.M[i:]...)...)
				continue
			}
			if len(*names) > 0 && c.Chance(0.1) {
				y.M[i].V = yref(pick(c, *names))
				continue
			}
			sprinkleAnchors(c, y.M[i].V, names, maps)
		}
	}
	if y.Tag == "" && y.Anchor == "" && y.K != yAlias && c.Chance(0.12) {
		y.Anchor = fmt.Sprintf("n%d", len(*names))
		if c.Chance(0.15) && len(*names) > 0 {
			y.Anchor = pick(c, *names) // the same name again
		}
		*names = append(*names, y.Anchor)
		ok := y.K == yMap
		for _, e := range y.M {
			if e.K.K != vStr {
				ok = false
			}
		}
		// a name given to something else is no longer safe to merge
		kept := (*maps)[:0:0]
		for _, m := range *maps {
			if m != y.Anchor {
				kept = append(kept, m)
			}
		}
		*maps = kept
		if ok {
			*maps = append(*maps, y.Anchor)
		}
	}
}

func c01(c *C) {
	o := genOpt{depth: 1 + c.Intn(4), width: 1 + c.Intn(5), nan: true, nonstr: true}
	anchors := c.Chance(0.35)
	var docs []*Y
	var names, maps []string
	for n := 1 + c.Intn(3); n > 0; n-- {
		y := ydata(genVal(c, o))
		if anchors && c.Chance(0.08) {
			y = ymap()
			for i, l := range layers(c) {
				y.M = append(y.M, YEnt{str(fmt.Sprintf("l%d", i)), l})
			}
		} else if anchors {
			// anchors reach later documents, too, which is yisp and not YAML,
			// so a plain document only refers to its own
			names, maps = nil, nil
			sprinkleAnchors(c, y, &names, &maps)
		}
		y.walk(func(y *Y) {
			if len(y.M) > 0 && c.Chance(0.02) {
				y.M[c.Intn(len(y.M))].K = str(quotedMergeKey)
			}
		})
		docs = append(docs, y)
	}
	e := newEmitter(c.R)
	e.comments = c.Chance(0.4)
	e.explicit = true
	e.flowP = pick(c, []float64{0, 0.1, 0.3, 0.8})
	src := emitDocs(e, docs)
	c.Input(src)

	var want []*Val
	for _, d := range docs {
		v := expandPlain(d, map[string]*Val{})
		want = append(want, v)
	}
	// the spelling must mean what the generator meant, by the YAML library's reading
	if !anchors {
		got, err := libraryDocs(src)
		if err != nil || !sameDocs(got, want) {
			c.Count("respelled", 1)
			c.Skip()
		}
	} else if _, err := readNodes(src); err != nil {
		c.Count("respelled", 1)
		c.Skip()
	}
	kept := want[:0:0]
	for _, v := range want {
		if v.K != vNull {
			kept = append(kept, v)
		}
	}
	o2 := opts{RenderSources: c.Chance(0.25), AllowUntypedManifest: c.Chance(0.2), DisableTypeCheck: c.Chance(0.2), RenderSpecialObjects: c.Chance(0.2)}
	got, out, err := evalDocs(c, src, o2)
	if err != nil {
		c.Fail("error", "evaluation of plain data fails: %s", errText(err))
		return
	}
	if !checkDocs(c, "data", kept, got, out) {
		return
	}
	nodes, _ := readNodes(out)
	for _, n := range nodes {
		if err := libraryAgrees(n); err != nil {
			c.Fail("library-reading", "%v\n--- output\n%s", err, out)
		}
	}
	sh := ""
	for _, v := range kept {
		sh += v.shape()
		c.Count("documents", 1)
	}
	for _, s := range []string{"|", ">", "'", "\"", "? ", "<<", "*", "# ", "0x", "!!"} {
		if strings.Contains(src, s) {
			sh += s
		}
	}
	c.Seen(sh)
}
