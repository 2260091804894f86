package main

import (
	"sort"
	"strings"
)

func init() {
	register(&Prop{
		ID: "C02", Quick: 300000, Thorough: 3000000, Case: c02,
		Rule: "distinct combinations of language events (operators applied, functions called, branches taken, names, merge keys, error or not) seen by the reference interpreter in programs the engine agreed on",
	})
}

func builtinCheck(in *interp, t *typeVal, v *Val) bool {
	switch t.name {
	case "null":
		return v.K == vNull
	case "bool":
		return v.K == vBool
	case "int":
		return v.K == vInt
	case "float":
		return v.K == vFloat
	case "string":
		return v.K == vStr
	}
	unspec("type")
	return false
}

func progEmitter(c *C) *emitter {
	e := newEmitter(c.R)
	e.comments = c.Chance(0.15)
	e.tame = c.Chance(0.2)
	e.flowP = pick(c, []float64{0, 0.2, 0.6, 0.9})
	return e
}

// agree runs a program and compares what happens with the expected outcome.
func agree(c *C, o outcome, src string, eo opts) bool {
	return agreeOn(c, o, func() (string, error) { return evalText(c, src, eo) })
}

// agreeFile does the same for a program in a file.
func agreeFile(c *C, o outcome, path string, eo opts) bool {
	return agreeOn(c, o, func() (string, error) { return evalFile(c, path, eo) })
}

func agreeOn(c *C, o outcome, run func() (string, error)) bool {
	if o.unspec != "" {
		c.Count("unspecified: "+firstWord(o.unspec), 1)
		c.Skip()
	}
	out, err := run()
	if o.err != "" {
		if err == nil {
			c.Fail("no-error", "the program must fail (%s) but gives\n%s", o.err, out)
			return false
		}
		c.Count("errors agreed", 1)
		return true
	}
	if err != nil {
		c.Fail("error", "evaluation fails: %s\n--- want\n%s", errText(err), showDocs(o.docs))
		return false
	}
	got, rerr := readDocs(out)
	if rerr != nil {
		c.Fail("unreadable-output", "the output does not read back: %v\n--- output\n%s", rerr, out)
		return false
	}
	c.Count("results agreed", 1)
	return checkDocs(c, "result", o.docs, got, out)
}

func firstWord(s string) string {
	return strings.SplitN(s, " ", 2)[0]
}

func eventKey(in *interp) string {
	var ks []string
	for k := range in.events {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return strings.Join(ks, "|")
}

func c02(c *C) {
	g := newProgGen(c)
	docs := g.program()
	if c.Chance(0.25) {
		g.spoil(docs)
	}
	src := emitDocs(progEmitter(c), docs)
	c.Input(src)
	if malformed(src) {
		c.Skip()
	}
	in := newInterp()
	in.check = builtinCheck
	o := in.runDocs(docs, newFrame())
	if agree(c, o, src, opts{}) {
		k := eventKey(in)
		if o.err != "" {
			k += "!" + o.err
		}
		c.Seen(k)
	}
}
