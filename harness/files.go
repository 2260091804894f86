package main

import (
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
)

// fresh gives the case an empty directory of its own.
func (c *C) fresh() string {
	dir := filepath.Join(c.Dir, "case")
	if err := os.RemoveAll(dir); err != nil {
		panic(err)
	}
	if err := os.MkdirAll(dir, 0755); err != nil {
		panic(err)
	}
	c.tmp = dir
	return dir
}

func write(path, text string) {
	if err := os.WriteFile(path, []byte(text), 0644); err != nil {
		panic(err)
	}
}

// tameDocs writes values as plain YAML documents.
func tameDocs(c *C, vs []*Val) string {
	e := newEmitter(c.R)
	e.tame = true
	var ds []*Y
	for _, v := range vs {
		ds = append(ds, ydata(v))
	}
	return emitDocs(e, ds)
}

// listFiles shows the files below a directory.
func listFiles(dir string) string {
	var b strings.Builder
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err == nil && !d.IsDir() {
			t, _ := os.ReadFile(p)
			r, _ := filepath.Rel(dir, p)
			fmt.Fprintf(&b, "\n== %s\n%s", r, t)
		}
		return nil
	})
	return b.String()
}
