package main

import (
	"fmt"
	"strings"

	upstream "gopkg.in/yaml.v3"
)

func init() {
	register(&Prop{
		ID: "C26", Quick: 200000, Thorough: 1500000, Case: c26,
		Rule: "distinct notations (kinds, styles and depths of all nodes) of outputs that came out unchanged when they were evaluated again, and of plain documents that kept the notation they were written in",
		Assume: []string{
			"comments are left to C24",
			"strings that their notation does not suit, because they would read back differently, are quoted or written as blocks instead; scalars other than strings are written plainly",
		},
	})
}

// notation describes how a stream is written.
func notation(nodes []*upstream.Node) string {
	var b strings.Builder
	var walk func(n *upstream.Node, d int)
	walk = func(n *upstream.Node, d int) {
		fmt.Fprintf(&b, "%d.%d.%d ", d, n.Kind, n.Style)
		for _, x := range n.Content {
			walk(x, d+1)
		}
	}
	for _, n := range nodes {
		walk(n, 0)
	}
	return b.String()
}

// restyled finds a node of a stream that is not written as in the source.
func restyled(src, out *upstream.Node, path string) string {
	if src.Kind == upstream.AliasNode {
		return ""
	}
	if src.Kind != out.Kind || len(src.Content) != len(out.Content) {
		return "other nodes at " + path
	}
	switch src.Kind {
	case upstream.SequenceNode, upstream.MappingNode:
		if src.Style&upstream.FlowStyle != out.Style&upstream.FlowStyle && len(src.Content) > 0 {
			return "flow style at " + path
		}
		if src.Style&upstream.FlowStyle != 0 {
			// what is inside takes this style
			return ""
		}
	case upstream.ScalarNode:
		const styles = upstream.DoubleQuotedStyle | upstream.SingleQuotedStyle | upstream.LiteralStyle | upstream.FoldedStyle
		a, b := src.Style&styles, out.Style&styles
		if a != b && b != upstream.DoubleQuotedStyle {
			if src.ShortTag() == "!!str" && !(a == 0 && b == upstream.SingleQuotedStyle) && !strings.Contains(src.Value, "\n") {
				return fmt.Sprintf("style %d of %q at %s is %d", a, src.Value, path, b)
			}
		}
	}
	for i := range src.Content {
		if r := restyled(src.Content[i], out.Content[i], fmt.Sprintf("%s/%d", path, i)); r != "" {
			return r
		}
	}
	return ""
}

func c26(c *C) {
	var src string
	plain := c.Chance(0.5)
	if plain {
		e := newEmitter(c.R)
		e.flowP = pick(c, []float64{0.05, 0.2, 0.4, 0.4})
		e.explicit = c.Chance(0.1)
		var docs []*Y
		for n := 1 + pickInt(c.Chance(0.3), c.Intn(3), 0); n > 0; n-- {
			docs = append(docs, ydata(genVal(c, genOpt{depth: 1 + c.Intn(4), width: 1 + c.Intn(5), nonstr: c.Chance(0.3), nan: true})))
		}
		src = emitDocs(e, docs)
	} else {
		var docs []*Y
		if c.Chance(0.5) {
			for n := 1 + c.Intn(2); n > 0; n-- {
				v := genVal(c, genOpt{depth: 3, nan: true})
				docs = append(docs, computed(c, v, 1+c.Intn(4)))
				if d := docs[len(docs)-1]; (d.K == ySeq || d.K == yMap) && d.Tag == "" {
					d.Tag = "!yisp"
				}
			}
		} else {
			docs = newProgGen(c).program()
			in := newInterp()
			in.check = builtinCheck
			if out := in.runDocs(docs, newFrame()); out.err != "" || out.unspec != "" {
				c.Skip()
			}
		}
		e := newEmitter(c.R)
		e.flowP = pick(c, []float64{0, 0.1, 0.4})
		src = emitDocs(e, docs)
	}
	c.Input(src)
	out, err := evalText(c, src, opts{AllowUntypedManifest: true})
	if err != nil {
		if plain {
			c.Fail("error", "plain data fails: %s", errText(err))
		}
		c.Skip()
	}
	got, err := readNodes(out)
	if err != nil {
		c.Fail("unreadable", "the output does not read: %v\n%s", err, out)
		return
	}
	for _, n := range got {
		if n.Kind == upstream.DocumentNode && n.Content[0].ShortTag() == "!!null" {
			c.Skip() // documents that are null are not part of the output
		}
	}
	again, err := evalText(c, out, opts{AllowUntypedManifest: true})
	if err != nil {
		c.Fail("refused", "the output is refused: %s\n--- output\n%s", errText(err), out)
		return
	}
	if again != out {
		c.Fail("changed", "the output is another one when it is evaluated again\n--- output\n%s\n--- again\n%s", out, again)
		return
	}
	if plain {
		from, err := readNodes(src)
		if err != nil {
			c.Skip()
		}
		if len(from) == len(got) {
			for i := range from {
				if r := restyled(from[i], got[i], fmt.Sprint(i)); r != "" {
					c.Fail("notation", "%s\n--- output\n%s", r, out)
					return
				}
			}
			c.Count("notations kept", 1)
		}
	}
	c.Seen(notation(got))
}
