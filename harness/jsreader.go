package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
)

// A second, independent YAML 1.2 reader: the event stream of js-yaml, when it
// is installed, with scalars resolved by the core schema here.

const jsReader = `
const rl = require('readline').createInterface({input: process.stdin, terminal: false});
let y = null;
for (const p of ['/opt/veriftools/node/node_modules/mocha/node_modules/js-yaml', '/opt/veriftools/node/node_modules/js-yaml']) {
  try { const m = require(p); if (m.parseEvents && m.getScalarValue) { y = m; break; } } catch (e) {}
}
if (!y) { console.log('none'); process.exit(0); }
console.log('ready');
rl.on('line', (line) => {
  let out;
  try {
    const src = JSON.parse(line);
    out = y.parseEvents(src).map((e) => e.type === 4
      ? [4, e.style, e.tagStart >= 0 ? src.slice(e.tagStart, e.tagEnd) : '', y.getScalarValue(src, e)]
      : [e.type, 0, e.tagStart >= 0 ? src.slice(e.tagStart, e.tagEnd) : '', '']);
    y.loadAll(src, {schema: y.CORE_SCHEMA});
  } catch (e) { out = String(e.message); }
  console.log(JSON.stringify(out));
});
`

type secondReader struct {
	in  io.WriteCloser
	out *bufio.Reader
	cmd *exec.Cmd
}

var second *secondReader
var secondTried bool

func getSecondReader() *secondReader {
	if secondTried {
		return second
	}
	secondTried = true
	cmd := exec.Command("node", "-e", jsReader)
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil
	}
	cmd.Stderr = os.Stderr
	if cmd.Start() != nil {
		return nil
	}
	r := &secondReader{in, bufio.NewReaderSize(out, 1<<20), cmd}
	if line, err := r.out.ReadString('\n'); err != nil || line != "ready\n" {
		return nil
	}
	second = r
	return r
}

var errNoReader = errors.New("no second reader")

// readSecond reads a stream with the second reader.
func readSecond(text string) ([]*Val, error) {
	r := getSecondReader()
	if r == nil {
		return nil, errNoReader
	}
	b, _ := json.Marshal(text)
	if _, err := r.in.Write(append(b, '\n')); err != nil {
		second = nil
		return nil, errNoReader
	}
	line, err := r.out.ReadBytes('\n')
	if err != nil {
		second = nil
		return nil, errNoReader
	}
	if len(line) > 0 && line[0] == '"' {
		var s string
		json.Unmarshal(line, &s)
		return nil, errors.New(s)
	}
	var evs [][4]any
	if err := json.Unmarshal(line, &evs); err != nil {
		return nil, fmt.Errorf("second reader: %v", err)
	}
	pos := 0
	var node func() (*Val, error)
	node = func() (*Val, error) {
		if pos >= len(evs) {
			return nil, errors.New("events end early")
		}
		e := evs[pos]
		pos++
		tag, _ := e[2].(string)
		switch int(e[0].(float64)) {
		case 2:
			v := list()
			for int(evs[pos][0].(float64)) != 6 {
				x, err := node()
				if err != nil {
					return nil, err
				}
				v.L = append(v.L, x)
			}
			pos++
			return v, nil
		case 3:
			v := mapv()
			for int(evs[pos][0].(float64)) != 6 {
				k, err := node()
				if err != nil {
					return nil, err
				}
				x, err := node()
				if err != nil {
					return nil, err
				}
				v.M = append(v.M, Ent{k, x})
			}
			pos++
			return v, nil
		case 4:
			s := e[3].(string)
			if tag == "!!str" || tag == "!" || int(e[1].(float64)) != 1 && tag == "" {
				return str(s), nil
			}
			v, err := resolvePlain(s)
			if err != nil {
				return nil, err
			}
			want := map[vk]string{vNull: "!!null", vBool: "!!bool", vInt: "!!int", vFloat: "!!float", vStr: "!!str"}[v.K]
			if tag != "" && tag != want {
				return nil, fmt.Errorf("tag %s on %q", tag, s)
			}
			return v, nil
		}
		return nil, fmt.Errorf("event %v", e)
	}
	var docs []*Val
	for pos < len(evs) {
		pos++
		v, err := node()
		if err != nil {
			return nil, err
		}
		docs = append(docs, v)
		pos++
	}
	return docs, nil
}
