package main

import "strings"

// strategy is what a type says about merging, as far as a reference needs it.
type strategy struct {
	How   string // replace, merge, merge with retained keys, or something unknown
	Key   string
	Props map[string]*strategy
	Items *strategy
}

// mergeVals is the reference merge: maps recursively, keys in order of first
// appearance, everything else from the later value unless the strategy of a
// list asks for merging.
func mergeVals(dst, src *Val, s *strategy) *Val {
	if s == nil {
		s = &strategy{}
	}
	switch {
	case dst.K == vMap && src.K == vMap:
		r := mapv()
		for _, e := range dst.M {
			x := src.get(e.K.S)
			if x == nil {
				r.M = append(r.M, e)
			} else {
				r.M = append(r.M, Ent{e.K, mergeVals(e.V, x, s.Props[e.K.S])})
			}
		}
		for _, e := range src.M {
			if dst.get(e.K.S) == nil {
				r.M = append(r.M, e)
			}
		}
		return r
	case dst.K == vList && src.K == vList:
		hows := strings.Split(s.How, ",")
		merge := false
		for _, h := range hows {
			switch h {
			case "merge":
				merge = true
			}
		}
		if !merge || strings.Contains(s.How, "replace") {
			if !merge && s.How != "" && !strings.Contains(s.How, "replace") {
				bad("unknown strategy")
			}
			return src
		}
		if s.Key == "" {
			return list(append(append([]*Val{}, dst.L...), src.L...)...)
		}
		r := list(append([]*Val{}, dst.L...)...)
		for _, x := range src.L {
			wantK(x, vMap)
			k := x.get(s.Key)
			if k == nil {
				bad("no merge key")
			}
			found := false
			for i, d := range r.L {
				wantK(d, vMap)
				if o := d.get(s.Key); o != nil && equal(o, k) {
					r.L[i] = mergeVals(d, x, s.Items)
					found = true
					break
				}
			}
			if !found {
				r.L = append(r.L, x)
			}
		}
		return r
	}
	return src
}
