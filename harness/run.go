package main

import (
	"fmt"
	"runtime/debug"
	"strings"

	"github.com/totegamma/yisp/engine"
)

type opts = engine.Options

// job is one evaluation.
type job struct {
	Kind string `json:"kind"` // text, file, any
	Src  string `json:"src"`  // program or path
	O    opts   `json:"o"`
}

// recorder, when set, is told about every evaluation.
var recorder func(j job)

func record(kind, src string, o opts) {
	if recorder != nil {
		recorder(job{kind, src, o})
	}
}

// evalText evaluates a program given as text. A panic is reported as a failure.
func evalText(c *C, src string, o opts) (out string, err error) {
	record("text", src, o)
	return guard(c, func() (string, error) {
		return engine.NewEngine(o).EvaluateReaderToYaml(strings.NewReader(src), "inline")
	})
}

func evalFile(c *C, path string, o opts) (out string, err error) {
	record("file", path, o)
	return guard(c, func() (string, error) {
		return engine.NewEngine(o).EvaluateFileToYaml(path)
	})
}

func guard(c *C, f func() (string, error)) (out string, err error) {
	defer func() {
		if r := recover(); r != nil {
			c.Fail("panic", "evaluation panics: %v\n%s", r, debug.Stack())
			panic(skipCase{})
		}
	}()
	return f()
}

// evalDocs evaluates a program and reads its output back.
func evalDocs(c *C, src string, o opts) (docs []*Val, out string, err error) {
	out, err = evalText(c, src, o)
	if err != nil {
		return nil, "", err
	}
	docs, rerr := readDocs(out)
	if rerr != nil {
		c.Fail("unreadable-output", "the output does not read back: %v\n--- output\n%s", rerr, out)
		panic(skipCase{})
	}
	return docs, out, nil
}

// emitDocs writes documents as one YAML stream.
func emitDocs(e *emitter, docs []*Y) string {
	for i, d := range docs {
		e.doc(d, i > 0 || e.chance(0.3))
	}
	return e.b.String()
}

func errText(err error) string {
	if err == nil {
		return "<no error>"
	}
	s := err.Error()
	if len(s) > 700 {
		s = s[:700] + "..."
	}
	return s
}

// firstDiff names the first place where two values differ.
func firstDiff(a, b *Val, path string) string {
	if same(a, b) {
		return ""
	}
	if a != nil && b != nil && a.K == b.K {
		switch {
		case a.K == vList && len(a.L) == len(b.L):
			for i := range a.L {
				if d := firstDiff(a.L[i], b.L[i], fmt.Sprintf("%s[%d]", path, i)); d != "" {
					return d
				}
			}
		case a.K == vMap && len(a.M) == len(b.M):
			for i := range a.M {
				if !same(a.M[i].K, b.M[i].K) {
					return fmt.Sprintf("key %d at %s: want %v, got %v", i, path, a.M[i].K, b.M[i].K)
				}
				if d := firstDiff(a.M[i].V, b.M[i].V, path+"/"+keyText(a.M[i].K)); d != "" {
					return d
				}
			}
		}
	}
	s := fmt.Sprintf("at %s: want %v, got %v", path, a, b)
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	return s
}

// checkDocs fails the case when the documents are not the expected ones.
func checkDocs(c *C, sig string, want, got []*Val, out string) bool {
	if sameDocs(want, got) {
		return true
	}
	c.Fail(sig, "%s\n--- want\n%s--- got\n%s--- output\n%s", firstDiff(list(want...), list(got...), ""), showDocs(want), showDocs(got), out)
	return false
}
