package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/totegamma/yisp/core"
	"github.com/totegamma/yisp/engine"
)

func init() {
	register(&Prop{
		ID: "C22", Quick: 3000, Thorough: 80000, Case: c22, Setup: c22setup, Timeout: 60 * time.Second,
		Rule: "each case is a sequence of loads from a server that misbehaves, loads at the same time, a command killed or failing at one of its system calls, or a store of Kubernetes schemas under faults; distinct cases by kind, fault, number of processes and what was stored when",
		Assume: []string{
			"what is served is judged by a model of types independent of the code",
			"a process dies between two system calls, or one of them fails; lost writes of a crashed machine are not simulated",
		},
	})
	helpers["c22child"] = c22child
}

// schemaServer serves schemas, or something else.
type schemaServer struct {
	mu    sync.Mutex
	srv   *httptest.Server
	texts map[string]string   // by request URI
	plan  map[string][]string // faults to come
	log   []string            // URI and what was done
	delay time.Duration
	open  map[net.Conn]bool
}

func c22setup(w *W) {
	s := &schemaServer{open: map[net.Conn]bool{}}
	s.srv = httptest.NewUnstartedServer(http.HandlerFunc(s.serve))
	s.srv.Config.ConnState = func(c net.Conn, state http.ConnState) {
		s.mu.Lock()
		defer s.mu.Unlock()
		if state == http.StateClosed || state == http.StateHijacked {
			delete(s.open, c)
		} else {
			s.open[c] = true
		}
	}
	s.srv.Start()
	w.Data = s
}

// settle waits until everything that processes which are gone had asked for is
// dealt with, so that it is not taken for what is asked for from now on.
func (s *schemaServer) settle(c *C) {
	http.DefaultClient.CloseIdleConnections()
	// connections are accepted in the order they were made
	own := &http.Client{Transport: &http.Transport{DisableKeepAlives: true}}
	if r, err := own.Get(s.srv.URL + "/settle"); err == nil {
		r.Body.Close()
	}
	for until := time.Now().Add(20 * time.Second); ; time.Sleep(time.Millisecond) {
		s.mu.Lock()
		n := len(s.open)
		s.mu.Unlock()
		if n == 0 {
			break
		}
		if time.Now().After(until) {
			c.Count("servers that did not settle", 1)
			c.Skip()
		}
	}
	s.taken()
}

func (s *schemaServer) reset() {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.texts, s.plan, s.log, s.delay = map[string]string{}, map[string][]string{}, nil, 0
}

func (s *schemaServer) taken() (l []string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	l, s.log = s.log, nil
	return l
}

var schemaFaults = []string{"404", "500", "503", "206", "cut", "cut chunks", "short", "tail", "empty", "null", "list", "number", "html", "type", "reset", "loop", "301 lost", "twice"}

func (s *schemaServer) serve(rw http.ResponseWriter, r *http.Request) {
	uri := r.URL.RequestURI()
	s.mu.Lock()
	text, fault := s.texts[uri], ""
	if p := s.plan[uri]; len(p) > 0 {
		fault = p[0]
		s.plan[uri] = p[1:]
	}
	if uri == "/loop" {
		fault = "loop"
	}
	if text == "" && fault == "" {
		fault = "404"
	}
	s.log = append(s.log, uri+" "+fault)
	delay := s.delay
	s.mu.Unlock()
	time.Sleep(delay)
	rw.Header().Set("Content-Type", "application/json")
	switch fault {
	case "":
		rw.Write([]byte(text))
	case "slow":
		for i := 0; i < len(text); i += len(text)/4 + 1 {
			rw.Write([]byte(text[i:min(len(text), i+len(text)/4+1)]))
			rw.(http.Flusher).Flush()
			time.Sleep(3 * time.Millisecond)
		}
	case "moved":
		s.mu.Lock()
		to := "/moved/" + url.QueryEscape(uri)
		s.texts[to] = text
		s.mu.Unlock()
		rw.Header().Set("Location", s.srv.URL+to)
		rw.WriteHeader(302)
	case "404", "500", "503", "206":
		var code int
		fmt.Sscan(fault, &code)
		rw.WriteHeader(code)
		rw.Write([]byte(text))
	case "cut":
		rw.Header().Set("Content-Length", fmt.Sprint(len(text)))
		rw.Write([]byte(text[:len(text)*2/3]))
	case "cut chunks":
		rw.Write([]byte(text)) // all of it, but without the end
		rw.(http.Flusher).Flush()
		panic(http.ErrAbortHandler)
	case "short":
		rw.Write([]byte(text[:len(text)-1]))
	case "tail":
		rw.Write([]byte(text + "\n<!-- served -->"))
	case "twice":
		rw.Write([]byte(text + "\n" + `{"type": "object", "additionalProperties": true}`))
	case "empty":
	case "null", "list", "number", "html", "type":
		rw.Write([]byte(map[string]string{"null": "null", "list": "[]", "number": "3", "html": "<html></html>", "type": `{"type": 3}`}[fault]))
	case "reset":
		panic(http.ErrAbortHandler)
	case "loop":
		rw.Header().Set("Location", s.srv.URL+"/loop")
		rw.WriteHeader(302)
	case "301 lost":
		http.Redirect(rw, r, "/nowhere", 301)
	}
}

// served is a version of what a URL gives.
type served struct {
	n    int
	s    *schema
	text string
}

type c22case struct {
	*C
	srv  *schemaServer
	g    *schemaGen
	next int
	dir  string
}

// version makes a schema that tells itself apart from all others.
func (k *c22case) version() *served {
	k.next++
	body := k.g.object(2, true)
	s := newSchema("object")
	n := newSchema("integer")
	st := newSchema("string")
	s.Props = []prop{{"$schema", st}, {"apiVersion", st}, {"kind", st}, {fmt.Sprintf("v%d", k.next), n}, {"body", body}}
	s.Req = []string{fmt.Sprintf("v%d", k.next)}
	if k.Chance(0.3) {
		s.Desc = strings.Repeat(pick(k.C, words), 1+k.Intn(2000))
	}
	b, err := json.Marshal(jsonable(s.val()))
	if err != nil {
		panic(err)
	}
	return &served{k.next, s, string(b)}
}

// probe is a program that is a manifest of a version, and shows its type.
func (k *c22case) probe(v *served, head ...any) (text string, ok bool) {
	s := v.s
	body := k.g.fitting(s.prop("body"), func() *Val { return k.g.value(s.prop("body"), 2) })
	if k.Chance(0.4) {
		body = spoilVal(k.C, body)
	}
	if body.K != vMap || len(body.M) == 0 || body.get("$schema") != nil || body.get("<<") != nil {
		body = mapv()
	}
	m := mapv(head...)
	m.set(fmt.Sprintf("v%d", v.n), integer(1))
	m.set("body", body)
	judged := attempt(func() { ok = k.g.d.conforms(s, m) })
	if judged.unspec != "" {
		k.Skip()
	}
	e := newEmitter(k.R)
	show := ycall("types.get", quoted(m))
	show.Tag = "!yisp"
	return emitDocs(e, []*Y{quoted(m), show}), ok
}

func quoted(v *Val) *Y {
	y := ydata(v)
	y.Tag = "!quote"
	return y
}

func (k *c22case) eval(text string) (string, error) {
	return guard(k.C, func() (string, error) {
		return engine.NewEngine(opts{}).EvaluateReaderToYaml(strings.NewReader(text), "inline")
	})
}

func (k *c22case) listing() string {
	l, _ := filepath.Glob(filepath.Join(k.dir, "*", "*"))
	s := ""
	for _, f := range l {
		b, _ := os.ReadFile(f)
		s += fmt.Sprintf("%s %x\n", filepath.Base(f), hashKey(string(b)))
	}
	return s
}

func c22(c *C) {
	srv := c.W.Data.(*schemaServer)
	srv.reset()
	c.fresh()
	k := &c22case{C: c, srv: srv, dir: filepath.Join(c.tmp, "cache")}
	k.g = &schemaGen{c: c, prefix: fmt.Sprintf("vh%d", c.Idx), merge: c.Chance(0.5), nokey: []string{"$schema", "apiVersion", "kind", "metadata", "<<"}}
	k.next = c.Intn(1000) * 100
	old := core.CacheDir
	core.CacheDir = k.dir
	defer func() { core.CacheDir = old }()
	switch n := c.Intn(20); {
	case n < 10:
		k.sequence()
	case n < 13:
		k.together()
	case n < 16:
		k.crash()
	default:
		k.kube()
	}
}

// spellings are URLs that are nearly the same.
func (k *c22case) urls() []string {
	base := k.srv.srv.URL
	long := strings.Repeat("long/", 20+k.Intn(400))
	us := []string{"/s/a", "/s/A", "/s/a/", "/s/a?x=1", "/s/a?x=2", "/s/a?x=1&y=2", "/s/a%2Fb", "/s/a/b", "/s/é", "/s/a.json", "/s/a_json", "/s/a-json", "/s/a~?>", "/s/a~>?", "/" + long + "a", "/" + long + "b", "/" + long + "a/b", "/s/../s/a", "/s/a%20b", "/"}
	k.R.Shuffle(len(us), func(i, j int) { us[i], us[j] = us[j], us[i] })
	us = us[:2+k.Intn(5)]
	for i := range us {
		us[i] = base + us[i]
		if k.Chance(0.1) {
			us[i] = strings.Replace(us[i], "127.0.0.1", "localhost", 1)
		}
		if k.Chance(0.1) {
			us[i] += "#/part"
		}
	}
	return us
}

func requestURI(u string) string {
	r, err := http.NewRequest("GET", u, nil)
	if err != nil {
		panic(err)
	}
	return r.URL.RequestURI()
}

type stored struct {
	v     *served
	shown string
}

func (k *c22case) sequence() {
	c := k.C
	us := k.urls()
	now := map[string]*served{} // by request
	have := map[string]*stored{}
	trail := ""
	for step := 5 + c.Intn(20); step > 0; step-- {
		u := pick(c, us)
		uri := requestURI(u)
		if now[uri] == nil || c.Chance(0.2) { // something new is served
			now[uri] = k.version()
			k.srv.texts[uri] = now[uri].text
		}
		fault := ""
		switch {
		case c.Chance(0.35):
			fault = pick(c, schemaFaults)
		case c.Chance(0.2):
			fault = pick(c, []string{"slow", "moved"})
		}
		k.srv.plan[uri] = nil
		if fault != "" {
			k.srv.plan[uri] = []string{fault}
		}
		if fault == "reset" { // which the client may try again
			for i := 0; i < 20; i++ {
				k.srv.plan[uri] = append(k.srv.plan[uri], fault)
			}
		}
		v := now[uri]
		if have[u] != nil {
			v = have[u].v
		}
		text, ok := k.probe(v, "$schema", str(u))
		before := k.listing()
		k.srv.taken()
		disk := ""
		if have[u] == nil && c.Chance(0.08) { // no place for it
			disk = " without a directory"
			os.RemoveAll(filepath.Join(k.dir))
			write(k.dir, "in the way")
			have = map[string]*stored{}
		}
		trail += fmt.Sprintf("load %s fault %q%s stored %v\n", u, fault, disk, have[u] != nil)
		c.Input(trail + "--- program\n" + text)
		out, err := k.eval(text)
		log := k.srv.taken()
		if disk != "" {
			os.Remove(k.dir)
			if err == nil {
				if !ok {
					c.Fail("accepted", "a manifest that its schema refuses is accepted")
					return
				}
				c.Count("loads that could not be stored", 1)
			}
			continue
		}
		if have[u] != nil {
			if len(log) > 0 {
				c.Fail("fetched-again", "a schema that is stored is fetched again: %v", log)
				return
			}
			c.Count("loads from the cache", 1)
		} else {
			good := fault == "" || fault == "slow" || fault == "moved"
			if good {
				if len(log) == 0 {
					c.Fail("not-fetched", "a schema that was never loaded is not fetched, and the evaluation gives (%v)\n%s", err, out)
					return
				}
				c.Count("fetches", 1)
			} else {
				c.Count("failed fetches", 1)
				c.Seen("fault " + fault)
				if err == nil {
					c.Fail("bad-fetch", "the answer of the server is no schema (%s), but the evaluation gives\n%s", fault, out)
					return
				}
				if after := k.listing(); after != before {
					c.Fail("leftover", "a failed fetch (%s) changes the cache\n--- before\n%s--- after\n%s", fault, before, after)
					return
				}
				continue
			}
		}
		if ok != (err == nil) {
			if err == nil {
				c.Fail("accepted", "a manifest that its schema refuses is accepted\n--- schema\n%s\n--- output\n%s", v.text, out)
			} else {
				c.Fail("refused", "a manifest that its schema accepts is refused: %s\n--- schema\n%s", errText(err), v.text)
			}
			return
		}
		if have[u] == nil {
			have[u] = &stored{v: v}
			if l, _ := filepath.Glob(filepath.Join(k.dir, "schemas", "*")); len(l) == 0 {
				c.Fail("elsewhere", "a fetched schema is not in the directory that was chosen")
				return
			}
		}
		if _, shown, two := strings.Cut(out, "\n---\n"); ok && two {
			if have[u].shown == "" {
				have[u].shown = shown
			} else if have[u].shown != shown {
				c.Fail("meaning", "the stored schema is not the one that was loaded\n%s", diffText(have[u].shown, shown))
				return
			} else {
				c.Count("types compared", 1)
			}
		}
	}
	c.Seen(fmt.Sprintf("sequence of %d, %d stored", len(us), len(have)))
}

// c22child evaluates texts at the same time in a process of its own.
func c22child(args []string) int {
	var in struct {
		Cache string   `json:"cache"`
		Texts []string `json:"texts"`
		Limit int      `json:"limit"`
	}
	if err := json.NewDecoder(os.Stdin).Decode(&in); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	core.CacheDir = in.Cache
	res := make([]string, len(in.Texts))
	var wg sync.WaitGroup
	for i, t := range in.Texts {
		wg.Add(1)
		go func() {
			defer wg.Done()
			_, err := engine.NewEngine(opts{}).EvaluateReaderToYaml(strings.NewReader(t), "inline")
			res[i] = "ok"
			if err != nil {
				res[i] = errText(err)
			}
		}()
	}
	wg.Wait()
	json.NewEncoder(os.Stdout).Encode(res)
	return 0
}

// together loads the same and different URLs at the same time in several processes.
func (k *c22case) together() {
	c := k.C
	us := k.urls()
	vs := map[string]*served{}
	faults := map[string]int{}
	k.srv.delay = time.Duration(c.Intn(4)) * time.Millisecond
	for _, u := range us {
		uri := requestURI(u)
		if vs[uri] == nil {
			vs[uri] = k.version()
			k.srv.texts[uri] = vs[uri].text
			for n := c.Intn(4); n > 0; n-- {
				f := pick(c, []string{"", "slow", "cut", "cut chunks", "short", "500", "empty", "tail", "reset", "null"})
				k.srv.plan[uri] = append(k.srv.plan[uri], f)
				if f != "" && f != "slow" {
					faults[uri]++
				}
			}
		}
	}
	type probe struct {
		u  string
		ok bool
	}
	procs := 1 + c.Intn(4)
	texts := make([][]string, procs)
	probes := make([][]probe, procs)
	desc := fmt.Sprintf("%d processes\n", procs)
	for p := range texts {
		for n := 2 + c.Intn(8); n > 0; n-- {
			u := pick(c, us)
			t, ok := k.probe(vs[requestURI(u)], "$schema", str(u))
			texts[p] = append(texts[p], t)
			probes[p] = append(probes[p], probe{u, ok})
			desc += fmt.Sprintf("process %d loads %s\n", p, u)
		}
	}
	desc += fmt.Sprintf("plan %v\n", k.srv.plan)
	c.Input(desc)
	kill := -1
	if c.Chance(0.3) && procs > 1 {
		kill = c.Intn(procs)
	}
	after := time.Duration(c.Intn(30000)) * time.Microsecond
	results := make([][]string, procs)
	var wg sync.WaitGroup
	self, _ := os.Executable()
	for p := range texts {
		b, _ := json.Marshal(map[string]any{"cache": k.dir, "texts": texts[p]})
		wg.Add(1)
		go func() {
			defer wg.Done()
			cmd := exec.Command(self, "c22child")
			cmd.Stdin = bytes.NewReader(b)
			var out, errOut bytes.Buffer
			cmd.Stdout, cmd.Stderr = &out, &errOut
			if err := cmd.Start(); err != nil {
				panic(err)
			}
			if p == kill {
				time.Sleep(after)
				cmd.Process.Kill()
			}
			cmd.Wait()
			json.Unmarshal(out.Bytes(), &results[p])
			if results[p] == nil && p != kill {
				results[p] = []string{"crash " + tail(errOut.String())}
			}
		}()
	}
	wg.Wait()
	failed := map[string]int{}
	for p := range texts {
		if p == kill && results[p] == nil {
			c.Count("processes killed", 1)
			continue
		}
		if len(results[p]) != len(texts[p]) {
			c.Fail("crash", "a process that loads schemas crashes: %v", results[p])
			return
		}
		for i, r := range results[p] {
			pr := probes[p][i]
			uri := requestURI(pr.u)
			c.Count("concurrent loads", 1)
			switch {
			case pr.ok == (r == "ok"):
			case r == "ok":
				c.Fail("accepted", "a manifest that its schema refuses is accepted\n--- program\n%s", texts[p][i])
				return
			default:
				failed[uri]++
				if failed[uri] > faults[uri] {
					c.Fail("refused", "%d loads of %s failed, but the server failed at most %d times, the last one with: %s\n--- program\n%s", failed[uri], pr.u, faults[uri], r, texts[p][i])
					return
				}
			}
		}
	}
	c.Seen(fmt.Sprintf("together %d processes, %d urls, killed %v", procs, len(us), kill >= 0))
	// from now on the server gives nothing
	k.srv.mu.Lock()
	for u := range k.srv.texts {
		k.srv.texts[u] = ""
	}
	k.srv.plan = map[string][]string{}
	k.srv.delay = 0
	k.srv.mu.Unlock()
	k.srv.settle(c)
	k.afterwards(us, func(u string) []*served { return []*served{vs[requestURI(u)]} })
}

// afterwards checks that what is stored now is one of the versions, or nothing.
func (k *c22case) afterwards(us []string, versions func(u string) []*served) bool {
	c := k.C
	for _, u := range us {
		for try := 0; try < 2; try++ {
			ok := 0
			var texts []string
			for _, v := range versions(u) {
				body := mapv("$schema", str(u), fmt.Sprintf("v%d", v.n), integer(1))
				text := emitDocs(newEmitter(c.R), []*Y{quoted(body)})
				texts = append(texts, text)
				if !k.g.d.conforms(v.s, body) {
					panic("the simplest manifest is wrong")
				}
				if _, err := k.eval(text); err == nil {
					ok++
				}
			}
			wrong := mapv("$schema", str(u), "nothing", integer(1))
			if out, err := k.eval(emitDocs(newEmitter(c.R), []*Y{quoted(wrong)})); err == nil {
				c.Fail("accepted", "afterwards a manifest that no schema for %s accepts gives\n%s", u, out)
				return false
			}
			log := k.srv.taken()
			if ok > 1 || ok == 1 && len(log) > 0 && len(texts) == 1 {
				c.Fail("partial", "afterwards %d versions of %s are accepted, with these fetches: %v", ok, u, log)
				return false
			}
			if ok == 1 {
				c.Count("schemas found whole afterwards", 1)
			} else {
				c.Count("schemas missing afterwards", 1)
			}
			c.Seen(fmt.Sprintf("afterwards %d", ok))
		}
	}
	return true
}

var syscallFaults = []string{"openat", "write", "close", "fchmodat", "renameat", "mkdirat", "read", "newfstatat"}

// traced runs the command with one of its system calls failing or being its last.
func (k *c22case) traced(args []string, stdin, path string) (r cliResult, how string) {
	c := k.C
	call := pick(c, syscallFaults)
	n := 1 + c.Intn(6)
	if call == "openat" || call == "read" || call == "close" {
		n = 1 + c.Intn(20)
	}
	what := "signal=SIGKILL"
	if c.Chance(0.4) {
		what = "error=" + pick(c, []string{"ENOSPC", "EIO", "EMFILE", "EACCES"})
	}
	how = fmt.Sprintf("inject=%s:%s:when=%d", call, what, n)
	full := append([]string{"-f", "-qq", "-o", "/dev/null", "-e", "trace=" + call, "-e", how, filepath.Join(c.Bin, "yisp")}, args...)
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "/usr/bin/strace", full...)
	cmd.Dir = c.tmp
	cmd.Env = []string{"HOME=" + filepath.Join(c.tmp, "home"), "PATH=" + path, "GOMAXPROCS=2"}
	cmd.Stdin = strings.NewReader(stdin)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	runGroup(cmd)
	return cliResult{stdout: o.String(), stderr: e.String(), code: cmd.ProcessState.ExitCode(), timeout: ctx.Err() != nil}, how
}

// runGroup runs a command, and ends all it has started when it ends or takes too long.
func runGroup(cmd *exec.Cmd) {
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	kill := func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	cmd.Cancel = kill
	cmd.WaitDelay = time.Second
	cmd.Run()
	if cmd.Process != nil {
		kill()
	}
}

// crash kills the command at one of its system calls, or makes one fail.
func (k *c22case) crash() {
	c := k.C
	u := k.srv.srv.URL + pick(c, []string{"/s/a", "/s/a?x=1", "/" + strings.Repeat("long/", 60)})
	v := k.version()
	k.srv.texts[requestURI(u)] = v.text
	os.MkdirAll(filepath.Join(c.tmp, "home"), 0755)
	p := filepath.Join(c.tmp, "main.yisp")
	body := mapv("$schema", str(u), fmt.Sprintf("v%d", v.n), integer(1))
	text := emitDocs(newEmitter(c.R), []*Y{quoted(body)})
	write(p, text)
	if c.Chance(0.5) {
		os.MkdirAll(filepath.Join(k.dir, "schemas"), 0755)
	}
	trail := ""
	for n := 1 + c.Intn(4); n > 0; n-- {
		r, how := k.traced([]string{"build", "--cache-dir", k.dir, p}, "", "/nowhere")
		trail += how + fmt.Sprintf(" -> %d\n", r.code)
		c.Input(trail + "--- program\n" + text)
		if strings.Contains(r.stderr, "strace:") || strings.Contains(r.stderr, "ptrace") {
			c.Count("runs without strace", 1)
		}
		c.Count("commands with a fault", 1)
		c.Seen(fmt.Sprintf("crash %s %d", how, r.code))
		if r.timeout {
			c.Count("commands that hung", 1)
		}
	}
	// the server now gives another version
	w := k.version()
	k.srv.texts[requestURI(u)] = ""
	k.srv.settle(c)
	if !k.afterwards([]string{u}, func(string) []*served { return []*served{v, w} }) {
		return
	}
	k.srv.texts[requestURI(u)] = w.text
	k.srv.taken()
	okV, okW := false, false
	for _, x := range []*served{v, w} {
		m := mapv("$schema", str(u), fmt.Sprintf("v%d", x.n), integer(1))
		_, err := k.eval(emitDocs(newEmitter(c.R), []*Y{quoted(m)}))
		if x == v {
			okV = err == nil
		} else {
			okW = err == nil
		}
	}
	log := k.srv.taken()
	if okV == okW || okW != (len(log) == 1) || okV && len(log) > 0 {
		c.Fail("no-recovery", "after the faults the first version is accepted: %v, the one served now: %v, with these fetches: %v", okV, okW, log)
	}
}

// ---- Kubernetes schemas

type kubeDef struct {
	id   string
	s    *schema
	n    int
	gvks []gvk
}

type gvk struct{ group, version, kind string }

func (g gvk) api() string {
	if g.group == "" {
		return g.version
	}
	return g.group + "/" + g.version
}

// document makes the answer of a cluster.
func (k *c22case) document(ids []string, kinds [][]gvk) (ds []*kubeDef, text string) {
	c := k.C
	k.next++
	st := newSchema("string")
	all := map[string]any{}
	k.g.d = defs{}
	for i, id := range ids {
		d := &kubeDef{id: id, n: k.next, gvks: kinds[i]}
		if len(d.gvks) == 0 {
			d.s = k.g.object(1, true)
		} else {
			n := newSchema("integer")
			d.s = newSchema("object")
			d.s.Props = []prop{{"apiVersion", st}, {"kind", st}, {fmt.Sprintf("v%d", d.n), n}}
			d.s.Req = []string{fmt.Sprintf("v%d", d.n)}
			body := newSchema("object")
			body.AP = true
			if len(k.g.d) > 0 && c.Chance(0.6) {
				body = k.g.ref()
				body.Form = "#/definitions/"
				if len(k.g.d[body.Ref].Req) > 0 && strings.HasPrefix(k.g.d[body.Ref].Req[0], "v") && k.g.d[body.Ref].Req[0] == d.s.Req[0] {
					body = newSchema("object")
					body.AP = true
				}
			}
			d.s.Props = append(d.s.Props, prop{"body", body})
		}
		if c.Chance(0.3) {
			d.s.Desc = strings.Repeat(pick(c, words)+" ", 1+c.Intn(300))
		}
		k.g.d[id] = d.s
		js := jsonable(d.s.val()).(map[string]any)
		if len(d.gvks) > 0 {
			var l []any
			for _, g := range d.gvks {
				if c.Chance(0.05) {
					// what names no kind is no kind
					l = append(l, pick(c, []any{
						map[string]any{"group": g.group, "version": g.version}, map[string]any{"version": "v9", "kind": g.kind}, map[string]any{"group": g.group, "kind": g.kind},
						"Pod", nil, []any{}, map[string]any{},
					}))
				}
				l = append(l, map[string]any{"group": g.group, "version": g.version, "kind": g.kind})
			}
			js["x-kubernetes-group-version-kind"] = l
		} else if c.Chance(0.1) {
			js["x-kubernetes-group-version-kind"] = pick(c, []any{"Pod", nil, map[string]any{}, []any{}, []any{map[string]any{"group": "g", "version": "v1"}}})
		}
		all[id] = js
		ds = append(ds, d)
	}
	b, err := json.Marshal(map[string]any{"swagger": "2.0", "info": map[string]any{"title": "Kubernetes"}, "definitions": all})
	if err != nil {
		panic(err)
	}
	return ds, string(b)
}

// manifestOf is the simplest manifest of a kind, and whether its type accepts it.
func (k *c22case) manifestOf(d *kubeDef, g gvk, mark int) (text string, ok bool) {
	m := mapv("apiVersion", str(g.api()), "kind", str(g.kind), fmt.Sprintf("v%d", mark), integer(1))
	if k.Chance(0.5) {
		if b := k.g.value(d.s.prop("body"), 2); b.K == vMap && len(b.M) > 0 && b.get("kind") == nil && b.get("$schema") == nil && b.get("<<") == nil {
			m.set("body", b)
		}
	}
	judged := attempt(func() { ok = k.g.d.conforms(d.s, m) })
	if judged.unspec != "" {
		k.Skip()
	}
	return emitDocs(newEmitter(k.R), []*Y{quoted(m)}), ok
}

// complete checks that every definition and every kind can be found.
func (k *c22case) complete(ds []*kubeDef, cli bool, home string, flags []string) bool {
	c := k.C
	kinds := 0
	for _, d := range ds {
		if len(d.gvks) == 0 {
			part := k.g.value(d.s, 2)
			ok := false
			if attempt(func() { ok = k.g.d.conforms(d.s, part) }).unspec != "" {
				continue
			}
			decl := ycall("schema", yquote(mapv("type", str("object"), "properties", mapv("part", mapv("$ref", str("#/definitions/"+d.id))))))
			decl.Tag, decl.Anchor = "!yisp", "T"
			v := ydata(mapv("part", part))
			v.Tag = "!quote"
			use := ycall("types.assert", yref("T"), v)
			use.Tag = "!yisp"
			if part.K == vMap && (part.get("kind") != nil || part.get("$schema") != nil || part.get("<<") != nil) {
				continue
			}
			text := emitDocs(newEmitter(c.R), []*Y{decl, use})
			if _, err := k.eval(text); ok != (err == nil) {
				c.Fail("not-stored", "definition %s: a value must be accepted: %v, but the outcome is: %v\n--- program\n%s", d.id, ok, errString(err), text)
				return false
			}
			c.Count("definitions used", 1)
			continue
		}
		for _, g := range d.gvks {
			kinds++
			text, ok := k.manifestOf(d, g, d.n)
			var err error
			if cli && c.Chance(0.2) {
				p := filepath.Join(c.tmp, "m.yisp")
				write(p, text)
				r := runCLI(c, append(append([]string{}, flags...), "build", p), "", home, c.tmp)
				if r.code != 0 {
					err = fmt.Errorf("%s", r.stderr)
				}
			} else {
				_, err = k.eval(text)
			}
			if ok != (err == nil) {
				c.Fail("not-stored", "kind %v of %s: a manifest must be accepted: %v, but the outcome is: %v\n--- program\n%s", g, d.id, ok, errString(err), text)
				return false
			}
			c.Count("kinds used", 1)
			text, _ = k.manifestOf(d, g, d.n+1)
			if out, err := k.eval(text); err == nil {
				c.Fail("accepted", "a manifest without what its type requires gives\n%s", out)
				return false
			}
		}
	}
	l, _ := filepath.Glob(filepath.Join(core.CacheDir, "gvk", "*"))
	if len(l) != kinds {
		c.Fail("entries", "%d kinds have %d lookup entries", kinds, len(l))
		return false
	}
	return true
}

func errString(err error) string {
	if err == nil {
		return "accepted"
	}
	return errText(err)
}

func (k *c22case) kube() {
	c := k.C
	n := 1 + c.Intn(6)
	mode := pick(c, []string{"", "", "", "exit", "garbage", "cut", "empty", "no answer", "null", "descriptors", "size", "file", "directory", "traced", "traced", "traced"})
	if mode == "descriptors" {
		n = 40 + c.Intn(60)
	}
	var ids []string
	var kinds [][]gvk
	seen := map[string]bool{}
	for len(ids) < n {
		kind := pick(c, []string{"Pod", "PodList", "Service", "Widget", "WidgetList", "X"})
		group := pick(c, []string{"", "apps", "example.com", "a.b-c.d"})
		version := pick(c, []string{"v1", "v1beta1", "v2"})
		if n > 30 {
			kind += fmt.Sprint(len(ids))
		}
		id := pick(c, []string{"io.k8s.api.", "com.example.", ""}) + version + "." + kind + pick(c, []string{"", "Spec", "_v2", "-x"})
		if seen[id] {
			if len(ids) > 0 && c.Chance(0.2) {
				break
			}
			continue
		}
		seen[id] = true
		var gs []gvk
		for m := pick(c, []int{0, 1, 1, 1, 2, 4}); m > 0; m-- {
			g := gvk{group, version, kind}
			if !seen[fmt.Sprint(g)] {
				seen[fmt.Sprint(g)] = true
				gs = append(gs, g)
			}
			group = pick(c, []string{"", "apps", "batch", "example.com", "policy.k8s.io"})
			version = pick(c, []string{"v1", "v1beta1", "v2alpha3"})
		}
		ids = append(ids, id)
		kinds = append(kinds, gs)
	}

	home := filepath.Join(c.tmp, "home")
	bin := filepath.Join(c.tmp, "bin")
	flags := []string{"--cache-dir", k.dir}
	switch c.Intn(4) {
	case 0:
		flags = []string{"--cache-dir=cache"}
	case 1:
		flags = nil
		k.dir = filepath.Join(home, ".cache", "yisp")
		core.CacheDir = k.dir
	}
	os.MkdirAll(home, 0755)
	os.MkdirAll(bin, 0755)
	answer := filepath.Join(c.tmp, "answer.json")
	asked := filepath.Join(c.tmp, "asked")
	kubectl := func(exit int) {
		write(filepath.Join(bin, "kubectl"), fmt.Sprintf("#!/bin/sh\necho \"$*\" >> %s\n/bin/cat %s\nexit %d\n", asked, answer, exit))
		os.Chmod(filepath.Join(bin, "kubectl"), 0755)
	}
	kubectl(0)
	run := func() cliResult {
		return runCLI(c, append(append([]string{}, flags...), "cache-kube-schemas"), "\n", home, c.tmp, "PATH="+bin)
	}

	// perhaps there is something already
	var first []*kubeDef
	if c.Chance(0.5) {
		var text string
		first, text = k.document(ids, kinds)
		write(answer, text)
		r := run()
		c.Input(fmt.Sprintf("%v\n--- answer\n%s", flags, text))
		if r.code != 0 || !strings.Contains(r.stdout, "successfully") {
			c.Fail("fails", "caching schemas fails with status %d\n%s", r.code, r.stderr)
			return
		}
		if !k.complete(first, true, home, flags) {
			return
		}
		c.Count("clusters stored", 1)
	}
	firstDefs := k.g.d

	ds, text := k.document(ids, kinds)
	c.Input(fmt.Sprintf("mode %s\n%v\n--- answer\n%s", mode, flags, text))
	write(answer, text)
	os.Remove(asked)
	must := true // fail
	stdin := "\n"
	wrap := ""
	clean := func() {}
	block := func(p string, dir bool) {
		os.MkdirAll(filepath.Dir(p), 0755)
		os.RemoveAll(p)
		if dir {
			os.MkdirAll(filepath.Join(p, "x"), 0755)
		} else {
			write(p, "in the way")
		}
		clean = func() { os.RemoveAll(p) }
	}
	switch mode {
	case "":
		must = false
	case "exit":
		kubectl(1 + c.Intn(3))
	case "garbage":
		write(answer, pick(c, []string{"not found", "<html>", "[]", "{\"definitions\": []}", "{\"definitions\": 3}", text + "x"}))
	case "cut":
		write(answer, text[:1+c.Intn(len(text)-2)])
	case "empty":
		write(answer, "")
	case "no answer":
		stdin = ""
	case "null":
		write(answer, strings.Replace(text, `"definitions":{`, `"definitions":{"nothing":null,`, 1))
	case "descriptors":
		wrap = fmt.Sprintf("ulimit -n %d; ", 9+c.Intn(12))
		must = false
	case "size":
		wrap = "ulimit -f 1; "
		must = false
	case "file":
		block(filepath.Join(k.dir, pick(c, []string{"schemas", "gvk"})), false)
		if first != nil && c.Chance(0.5) {
			clean()
			block(k.dir, false)
		}
	case "directory":
		d := pick(c, ds)
		p := filepath.Join(k.dir, "schemas", d.id+".json")
		if len(d.gvks) > 0 && c.Chance(0.5) {
			g := pick(c, d.gvks)
			p = filepath.Join(k.dir, "gvk", fmt.Sprintf("%s_%s_%s.txt", g.group, g.version, g.kind))
		}
		block(p, true)
	}
	var r cliResult
	how := mode
	args := append(append([]string{}, flags...), "cache-kube-schemas")
	switch {
	case mode == "traced":
		r, how = k.traced(args, stdin, bin)
		must = false
	case wrap != "":
		ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
		defer cancel()
		cmd := exec.CommandContext(ctx, "/bin/sh", append([]string{"-c", wrap + `exec "$0" "$@"`, filepath.Join(c.Bin, "yisp")}, args...)...)
		cmd.Dir = c.tmp
		cmd.Env = []string{"HOME=" + home, "PATH=" + bin}
		cmd.Stdin = strings.NewReader(stdin)
		var o, e bytes.Buffer
		cmd.Stdout, cmd.Stderr = &o, &e
		runGroup(cmd)
		r = cliResult{stdout: o.String(), stderr: e.String(), code: cmd.ProcessState.ExitCode()}
	default:
		r = runCLI(c, args, stdin, home, c.tmp, "PATH="+bin)
	}
	c.Count("stores with fault "+mode, 1)
	c.Seen(fmt.Sprintf("kube %s %d defs %d status %d before %v", how, min(n, 7), len(ids), r.code, first != nil))
	if mode == "" && r.code != 0 {
		c.Fail("fails", "caching schemas fails with status %d\n%s", r.code, r.stderr)
		return
	}
	if must && r.code == 0 {
		c.Fail("no-failure", "mode %s: not everything could be stored, but the command reports success\n--- stdout\n%s--- stderr\n%s", mode, r.stdout, r.stderr)
		return
	}
	if r.code != 0 && strings.Contains(r.stdout, "saved successfully") {
		c.Fail("no-failure", "mode %s: the command reports success and fails with status %d", mode, r.code)
		return
	}
	if r.code == 1 && strings.TrimSpace(r.stderr) == "" {
		c.Fail("silent", "mode %s: the command fails and gives no reason", mode)
		return
	}
	_, err := os.Stat(asked)
	if mode == "no answer" && err == nil {
		c.Fail("asked", "the cluster is asked although nobody agreed")
		return
	}
	if r.code == 0 {
		if !k.complete(ds, true, home, flags) {
			return
		}
		c.Count("clusters stored", 1)
	} else {
		// nothing is accepted but by one of the versions
		for i, d := range ds {
			for _, g := range d.gvks {
				accepted := 0
				text, ok := k.manifestOf(d, g, d.n)
				if _, err := k.eval(text); err == nil {
					accepted++
					_ = ok
				}
				if first != nil {
					now := k.g.d
					k.g.d = firstDefs
					m := mapv("apiVersion", str(g.api()), "kind", str(g.kind), fmt.Sprintf("v%d", first[i].n), integer(1))
					if _, err := k.eval(emitDocs(newEmitter(c.R), []*Y{quoted(m)})); err == nil {
						accepted++
					}
					k.g.d = now
				}
				m := mapv("apiVersion", str(g.api()), "kind", str(g.kind), "nothing", integer(1))
				out, err := k.eval(emitDocs(newEmitter(c.R), []*Y{quoted(m)}))
				if err == nil || accepted > 1 {
					c.Fail("partial", "after the failure %d versions of %v are accepted, and without any of them the outcome is (%v)\n%s", accepted, g, errString(err), out)
					return
				}
				c.Count(fmt.Sprintf("kinds with %d versions after a failure", accepted), 1)
			}
		}
		clean()
		kubectl(0)
		write(answer, text)
		if r := run(); r.code != 0 {
			c.Fail("no-recovery", "after the failure caching schemas fails with status %d\n%s", r.code, r.stderr)
			return
		}
		if !k.complete(ds, true, home, flags) {
			return
		}
		c.Count("recoveries", 1)
	}
	if b, _ := os.ReadFile(asked); mode == "" && strings.TrimSpace(string(b)) != "get --raw /openapi/v2" {
		c.Fail("asked", "the cluster is asked for %q", b)
	}
}
