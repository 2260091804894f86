package main

import (
	"bytes"
	"fmt"
	"regexp"
	"slices"
	"sort"
	"strings"

	upstream "gopkg.in/yaml.v3"
)

func init() {
	register(&Prop{
		ID: "C24", Quick: 120000, Thorough: 1500000, Case: c24,
		Rule: "distinct arrangements of comments (roles and depths of those on each entry, styles, computed neighbours) in documents whose comments were found on the same entries in the output",
		Assume: []string{
			"comments that yaml.v3 itself does not keep on their entry, once, when it writes what it has read are not judged",
			"where a comment stands around its entry (before, behind, after) is judged only where yaml.v3 keeps that, too",
		},
	})
}

var remark = regexp.MustCompile(`#[#!]? (?:note|remark|head) [0-9]+`)

// remarked is a comment as the YAML library sees it.
type remarked struct {
	path, role string
}

// remarks finds the comments of a stream and the entries that they are on.
func remarks(text string) (map[string][]remarked, []string, error) {
	nodes, err := readNodes(text)
	if err != nil {
		return nil, nil, err
	}
	at := map[string][]remarked{}
	var paths []string
	var walk func(n *upstream.Node, path string)
	note := func(n *upstream.Node, path string) {
		for _, r := range []struct{ role, text string }{{"before", n.HeadComment}, {"behind", n.LineComment}, {"after", n.FootComment}} {
			for _, id := range remark.FindAllString(r.text, -1) {
				at[id] = append(at[id], remarked{path, r.role})
			}
		}
	}
	walk = func(n *upstream.Node, path string) {
		note(n, path)
		paths = append(paths, path)
		switch n.Kind {
		case upstream.DocumentNode:
			walk(n.Content[0], path)
		case upstream.SequenceNode:
			for i, x := range n.Content {
				walk(x, fmt.Sprintf("%s/%d", path, i))
			}
		case upstream.MappingNode:
			for i := 0; i+1 < len(n.Content); i += 2 {
				p := path + "/" + n.Content[i].Value
				note(n.Content[i], p)
				walk(n.Content[i+1], p)
			}
		}
	}
	for i, n := range nodes {
		walk(n, fmt.Sprint(i))
	}
	return at, paths, nil
}

// rewritten is a stream as the YAML library writes it, with a scalar in the
// place of each computed value, which keeps the
// comments on it or not, and the values of aliases in theirs.
func rewritten(text string, calls map[string]bool, keep bool) (string, error) {
	nodes, err := readNodes(text)
	if err != nil {
		return "", err
	}
	var b bytes.Buffer
	enc := upstream.NewEncoder(&b)
	enc.SetIndent(2)
	var walk func(n *upstream.Node, path string)
	walk = func(n *upstream.Node, path string) {
		if calls[path] {
			was := *n
			*n = upstream.Node{Kind: upstream.ScalarNode, Value: "text"}
			if keep {
				n.HeadComment, n.LineComment, n.FootComment = was.HeadComment, was.LineComment, was.FootComment
			}
			return
		}
		n.Anchor = ""
		switch n.Kind {
		case upstream.AliasNode:
			was := *n
			*n = *n.Alias
			n.Anchor, n.HeadComment, n.LineComment, n.FootComment = "", was.HeadComment, was.LineComment, was.FootComment
		case upstream.DocumentNode:
			walk(n.Content[0], path)
		case upstream.SequenceNode:
			for i, x := range n.Content {
				walk(x, fmt.Sprintf("%s/%d", path, i))
			}
		case upstream.MappingNode:
			for i := 0; i+1 < len(n.Content); i += 2 {
				walk(n.Content[i+1], path+"/"+n.Content[i].Value)
			}
		}
	}
	for i, n := range nodes {
		walk(n, fmt.Sprint(i))
		if err := enc.Encode(n); err != nil {
			return "", err
		}
	}
	err = enc.Close()
	return b.String(), err
}

func c24(c *C) {
	o := genOpt{depth: 1 + c.Intn(3), width: 1 + c.Intn(4)}
	o.plain = c.Chance(0.6)
	var docs []*Y
	for n := 1 + pickInt(c.Chance(0.3), c.Intn(3), 0); n > 0; n-- {
		v := genVal(c, o)
		if v.K != vMap && v.K != vList && c.Chance(0.8) {
			v = mapv("a", v, "b", genVal(c, o))
		}
		if v.K == vNull {
			v = list(v)
		}
		y := ydata(v)
		y.walk(func(y *Y) {
			if y.K == yScalar && y.V.K == vNull { // comments behind an empty value are read as those of a neighbour
				y.Raw = pick(c, []string{"null", "~"})
			}
		})
		docs = append(docs, y)
	}
	// aliases and computed values between the others
	computed := c.Chance(0.5)
	aliases := 0
	if computed {
		for _, d := range docs {
			var leaves []*Y
			d.walk(func(y *Y) {
				if y.K == yScalar && y != d {
					leaves = append(leaves, y)
				}
			})
			for i, y := range leaves {
				if !c.Chance(0.2) || y.Anchor != "" {
					continue
				}
				switch c.Intn(3) {
				case 0:
					if i == 0 {
						break
					}
					t := leaves[c.Intn(i)]
					if t.K != yScalar {
						break
					}
					if t.Anchor == "" {
						aliases++
						t.Anchor = fmt.Sprintf("k%d", aliases)
					}
					*y = *yref(t.Anchor)
				default:
					v := ys(y.V)
					v.Raw = y.Raw
					if v.V.K == vStr {
						v = yname("text")
					}
					*y = *pick(c, []*Y{
						ycall("progn", v),
						ycall("if", ys(boolean(true)), v, ys(null())),
						ycall("default", v, v),
						ycall("lists.car", yseq(v).tag("!quote")),
					}).tag("!yisp")
					y.Mark = 1
				}
			}
		}
	}

	e := newEmitter(c.R)
	e.comments, e.rich, e.hush = true, c.Chance(0.7), true
	e.tame = c.Chance(0.3)
	e.flowP = pick(c, []float64{0, 0, 0.1, 0.4})
	src := ""
	for i, d := range docs {
		if c.Chance(0.1) {
			e.w(fmt.Sprintf("# remark %d\n", 900+i) + pick(c, []string{"", "\n"}))
		}
		e.doc(d, i > 0 || c.Chance(0.2))
	}
	src = e.b.String()
	if c.Chance(0.1) && !e.afterKeep {
		src += pick(c, []string{"", "\n"}) + "# remark 999\n"
	}
	c.Input(src)

	// the comments of computed values are those of what computes them
	calls := map[string]bool{}
	for i, d := range docs {
		var walk func(y *Y, path string)
		walk = func(y *Y, path string) {
			if y.Mark == 1 {
				calls[path] = true
				return
			}
			for i, x := range y.L {
				walk(x, fmt.Sprintf("%s/%d", path, i))
			}
			for _, x := range y.M {
				walk(x.V, path+"/"+keyText(x.K))
			}
		}
		walk(d, fmt.Sprint(i))
	}
	inside := func(path string) bool {
		for p := range calls {
			if strings.HasPrefix(path+"/", p+"/") {
				return true
			}
		}
		return false
	}

	before, paths, err := remarks(src)
	if err != nil {
		c.Skip()
	}
	again := ""
	var afters []map[string][]remarked
	for _, keep := range []bool{false, true} {
		if keep && len(calls) == 0 {
			break
		}
		again, err = rewritten(src, calls, keep)
		if err != nil {
			c.Skip()
		}
		after, apaths, err := remarks(again)
		if err != nil || fmt.Sprint(slices.DeleteFunc(slices.Clone(paths), inside)) != fmt.Sprint(slices.DeleteFunc(apaths, inside)) {
			c.Skip()
		}
		afters = append(afters, after)
	}
	out, err := evalText(c, src, opts{AllowUntypedManifest: true})
	if err != nil {
		c.Fail("error", "evaluation of plain data fails: %s", errText(err))
		return
	}
	got, gpaths, err := remarks(out)
	if err != nil {
		c.Fail("unreadable-output", "the output does not read back: %v\n%s", err, out)
		return
	}
	if a, b := fmt.Sprint(slices.DeleteFunc(paths, inside)), fmt.Sprint(slices.DeleteFunc(gpaths, inside)); a != b {
		c.Fail("entries", "the output has other entries\n%s\n--- want\n%s\n--- output\n%s", b, a, out)
		return
	}
	// where comments stand among those on the same entry
	place := func(text string) map[string]int {
		m := map[string]int{}
		for i, id := range remark.FindAllString(text, -1) {
			m[id] = i
		}
		return m
	}
	in, libs, res := place(src), place(again), place(out)
	group := map[remarked]string{}
	for _, id := range remark.FindAllString(src, -1) {
		l := before[id]
		if len(l) != 1 || len(got[id]) != 1 || inside(l[0].path) {
			continue
		}
		_, kept := libs[id]
		last, ok := group[l[0]]
		if ok && kept && libs[last] < libs[id] && in[last] < in[id] {
			c.Count("comments in order", 1)
			if res[last] > res[id] {
				c.Fail("order", "%q comes before %q (%s %s)\n--- output\n%s--- yaml.v3\n%s", id, last, l[0].role, l[0].path, out, again)
				return
			}
		}
		if kept {
			group[l[0]] = id
		}
	}
	key := ""
	for _, id := range sortedNames(before) {
		l := before[id]
		stays, role := len(l) == 1, true
		for _, after := range afters {
			stays = stays && len(after[id]) == 1 && after[id][0].path == l[0].path
			role = role && stays && after[id][0].role == l[0].role
		}
		if !stays {
			c.Count("comments the library does not keep", 1)
			continue
		}
		if inside(l[0].path) {
			c.Count("comments on computed values", 1)
			continue
		}
		g := got[id]
		switch {
		case len(g) == 0:
			c.Fail("lost", "%q (%s %s) is lost\n--- output\n%s--- yaml.v3\n%s", id, l[0].role, l[0].path, out, again)
			return
		case len(g) > 1:
			c.Fail("repeated", "%q (%s %s) is there %d times\n--- output\n%s", id, l[0].role, l[0].path, len(g), out)
			return
		case !strings.Contains(l[0].path, "/"):
			// blank lines, which set comments of a document apart, are not judged
			if strings.SplitN(g[0].path, "/", 2)[0] != l[0].path {
				c.Fail("moved", "%q of document %s is on %s\n--- output\n%s--- yaml.v3\n%s", id, l[0].path, g[0].path, out, again)
				return
			}
		case g[0].path != l[0].path:
			c.Fail("moved", "%q (%s %s) is on %s\n--- output\n%s--- yaml.v3\n%s", id, l[0].role, l[0].path, g[0].path, out, again)
			return
		case g[0].role != l[0].role && role:
			c.Fail("role", "%q (%s %s) is %s\n--- output\n%s--- yaml.v3\n%s", id, l[0].role, l[0].path, g[0].role, out, again)
			return
		}
		c.Count("comments kept", 1)
		key += fmt.Sprint(l[0].role, strings.Count(l[0].path, "/"))
	}
	c.Seen(key)
}

func sortedNames[T any](m map[string]T) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
