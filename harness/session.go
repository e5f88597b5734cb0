package main

import (
	"bytes"
	"crypto/sha1"
	"encoding/base64"
	"encoding/json"
	"fmt"
	gotok "go/token"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sync"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
	"github.com/jschaf/bibtex/render"
	"github.com/jschaf/bibtex/scanner"
	"github.com/jschaf/bibtex/token"
)

func init() {
	ops["session"] = opSession
	ops["stress"] = opStress
}

// A call of a session: what is done, on which instance, with which text.
type call struct {
	Do   string `json:"do"`
	Inst int    `json:"inst"`
	B    string `json:"b"`
	Mode uint   `json:"mode"`
}

// A client runs one call after another and waits at every gate for its turn.
type client struct {
	turn chan struct{}
	ev   chan arr
	free bool // no gates
}

func (c *client) gate() {
	if c == nil || c.free {
		return
	}
	c.ev <- arr{"gate"}
	<-c.turn
}

// A session: instances and texts that its clients share.
type session struct {
	mu    sync.Mutex
	who   map[interface{}]*client // tree or writer -> client
	insts []*bibtex.Biber
	texts [][]byte
	trees []*ast.File // shared, for calls that only read them
	dir   string
	kept  []*ast.File // trees of the calls so far
}

func (s *session) client(k interface{}) *client {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.who[k]
}
func (s *session) claim(k interface{}, c *client) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.who[k] = c
}
func (s *session) keep(f *ast.File) {
	if f == nil {
		return
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.kept = append(s.kept, f)
}

// gateReader hands out its text in chunks of 5 bytes.
type gateReader struct {
	c    *client
	text []byte
	n    int
}

func (g *gateReader) Read(p []byte) (int, error) {
	if g.n < 3 {
		g.n++
		g.c.gate()
	}
	if len(g.text) == 0 {
		return 0, io.EOF
	}
	k := 5
	if g.n == 3 {
		k = len(g.text)
	}
	if k > len(p) {
		k = len(p)
	}
	if k > len(g.text) {
		k = len(g.text)
	}
	copy(p, g.text[:k])
	g.text = g.text[k:]
	return k, nil
}

type gateWriter struct {
	c   *client
	buf bytes.Buffer
	n   int
	max int // fails from this write on; 0: never
}

func (g *gateWriter) Write(p []byte) (int, error) {
	if g.n < 4 {
		g.n++
		g.c.gate()
	}
	if g.max > 0 && g.n >= g.max {
		return 0, io.ErrClosedPipe
	}
	return g.buf.Write(p)
}

func newSession(calls []call, cold bool) *session {
	s := &session{who: map[interface{}]*client{}}
	gate := bibtex.ResolverFunc(func(n ast.Node) error {
		s.client(n).gate()
		return nil
	})
	full := func() *bibtex.Biber {
		return bibtex.New(
			bibtex.WithParserMode(parser.ParseStrings|parser.AllErrors),
			bibtex.WithResolvers(gate, bibtex.NewAuthorResolver("author", "editor"), gate),
			bibtex.WithResolvers(bibtex.ResolverFunc(bibtex.SimplifyEscapedTextResolver), gate, bibtex.NewRenderParsedTextResolver()),
			bibtex.WithRenderer(ast.KindText, func(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error) {
				if t, ok := n.(*ast.Text); ok && entering {
					if _, err := io.WriteString(w, "<"+t.Value+">"); err != nil {
						return ast.WalkStop, err
					}
				}
				return ast.WalkContinue, nil
			}))
	}
	s.insts = []*bibtex.Biber{
		bibtex.New(),
		bibtex.New(bibtex.WithParserMode(0), bibtex.WithResolvers(gate)),
		full(),
		full(),
	}
	for _, c := range calls {
		b, _ := base64.StdEncoding.DecodeString(c.B)
		s.texts = append(s.texts, b)
		if cold { // nothing is parsed before the calls
			continue
		}
		// a shared tree per text; parsed apart from the instances
		f, _ := parser.ParseFile(gotok.NewFileSet(), "shared.bib", append([]byte{}, b...), parser.ParseStrings)
		s.trees = append(s.trees, f)
	}
	return s
}

func digest(x interface{}) string {
	b, err := json.Marshal(x)
	if err != nil {
		panic(err)
	}
	return fmt.Sprintf("%x", sha1.Sum(b))[:16]
}

func entriesOf(es []bibtex.Entry) arr {
	out := arr{}
	for _, en := range es {
		tags := arr{}
		for _, k := range sortedKeys(en.Tags) {
			tags = append(tags, arr{k, newTreeEncoder().expr(en.Tags[k])})
		}
		out = append(out, arr{en.Type, en.Key, tags})
	}
	return out
}

// perform makes one call and returns its result.
func (s *session) perform(i int, c call, cl *client) (res interface{}) {
	defer func() {
		if e := recover(); e != nil {
			res = arr{"panic", fmt.Sprint(e)}
		}
	}()
	src := s.texts[i]
	inst := s.insts[c.Inst]
	file := func(f *ast.File, err error) interface{} {
		s.keep(f)
		r := result(nil, 1, newText(src), "f.bib", f, err)
		if err != nil {
			r["msg"] = err.Error()
		}
		return r
	}
	switch c.Do {
	case "parse": // through an instance
		f, err := inst.Parse(&gateReader{c: cl, text: src})
		r := file(f, err).(obs)
		delete(r, "name")
		return r
	case "bytes": // all callers hand in the same bytes
		cl.gate()
		f, err := parser.ParseFile(gotok.NewFileSet(), "f.bib", src, parser.Mode(c.Mode))
		return file(f, err)
	case "reader":
		f, err := parser.ParseFile(gotok.NewFileSet(), "f.bib", &gateReader{c: cl, text: src}, parser.Mode(c.Mode))
		return file(f, err)
	case "expr":
		cl.gate()
		e, err := parser.ParseExpr(string(src))
		pos := arr{}
		if e != nil && err == nil {
			pos = append(pos, int(e.Pos()))
		}
		return arr{newTreeEncoder().expr(e), fmt.Sprint(err), pos}
	case "scan":
		var sc scanner.Scanner
		out := arr{}
		sc.Init(gotok.NewFileSet().AddFile("f", -1, len(src)), src, func(p gotok.Position, m string) { out = append(out, arr{p.Offset, m}) }, scanner.Mode(c.Mode))
		for k := 0; k < 2*len(src)+8; k++ {
			if k < 4 {
				cl.gate()
			}
			p, t, l := sc.Scan()
			out = append(out, arr{p, t.String(), l})
			if t == token.EOF {
				break
			}
		}
		return out
	case "resolve", "resolve twice":
		f, _ := parser.ParseFile(gotok.NewFileSet(), "f.bib", append([]byte{}, src...), parser.ParseStrings)
		s.claim(f, cl)
		es, err := inst.Resolve(f)
		if c.Do == "resolve twice" {
			es, err = inst.Resolve(f)
		}
		return arr{entriesOf(es), fmt.Sprint(err), newTreeEncoder().expr(f)}
	case "render":
		f, _ := parser.ParseFile(gotok.NewFileSet(), "f.bib", append([]byte{}, src...), parser.ParseStrings)
		w := &gateWriter{c: cl}
		err := inst.Render(w, f)
		return arr{w.buf.String(), fmt.Sprint(err)}
	case "render failing":
		w := &gateWriter{c: cl, max: 3}
		err := inst.Render(w, s.trees[i])
		return arr{w.buf.String(), err != nil}
	case "render shared":
		w := &gateWriter{c: cl}
		err := inst.Render(w, s.trees[i])
		return arr{w.buf.String(), fmt.Sprint(err)}
	case "text shared":
		out := arr{}
		for _, t := range parsedStrings(s.trees[i]) {
			w := &gateWriter{c: cl}
			err := render.NewTextRenderer().Render(w, t)
			out = append(out, arr{w.buf.String(), fmt.Sprint(err)})
		}
		return out
	case "authors shared":
		out := arr{}
		cl.gate()
		for k, t := range parsedStrings(s.trees[i]) {
			if k < 3 {
				cl.gate()
			}
			as, err := bibtex.ExtractAuthors(t)
			var n ast.Node
			if err == nil {
				n = as
			}
			out = append(out, arr{newTreeEncoder().expr(n), fmt.Sprint(err)})
		}
		return out
	case "walk shared":
		out := arr{}
		k := 0
		err := ast.Walk(s.trees[i], func(n ast.Node, entering bool) (ast.WalkStatus, error) {
			if k < 4 {
				k++
				cl.gate()
			}
			out = append(out, arr{n.Kind().String(), entering})
			return ast.WalkContinue, nil
		})
		return append(out, fmt.Sprint(err))
	case "package":
		p := filepath.Join(s.dir, "f.bib")
		q := filepath.Join(s.dir, fmt.Sprintf("g%d.bib", i))
		cl.gate()
		pkg, err := parser.ParsePackage([]string{q, p, filepath.Join(s.dir, "missing")}, parser.Mode(c.Mode))
		out := arr{}
		for _, x := range []string{q, p} {
			f := pkg.Files[x]
			s.keep(f)
			out = append(out, f != nil)
			if f != nil {
				out = append(out, newTreeEncoder().expr(f))
			}
		}
		return append(out, len(pkg.Files), errKind(err))
	}
	panic("unknown call " + c.Do)
}

func (s *session) files() {
	dir, err := os.MkdirTemp("", "vbib.ses")
	if err != nil {
		panic(err)
	}
	s.dir = dir
	for i, b := range s.texts {
		if err := os.WriteFile(filepath.Join(dir, fmt.Sprintf("g%d.bib", i)), b, 0o600); err != nil {
			panic(err)
		}
	}
	if err := os.WriteFile(filepath.Join(dir, "f.bib"), []byte("@a{f, t = {f}}"), 0o600); err != nil {
		panic(err)
	}
}

// pointers collects the pointers to nodes reachable from a value.
func pointers(v reflect.Value, seen map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || seen[v.Pointer()] {
			return
		}
		if v.Elem().Type().Size() > 0 {
			seen[v.Pointer()] = true
		}
		pointers(v.Elem(), seen)
	case reflect.Interface:
		if !v.IsNil() {
			pointers(v.Elem(), seen)
		}
	case reflect.Slice:
		if v.Cap() > 0 && v.Type().Elem().Size() > 0 {
			seen[v.Pointer()] = true
		}
		for i := 0; i < v.Len(); i++ {
			pointers(v.Index(i), seen)
		}
	case reflect.Map:
		if !v.IsNil() {
			seen[v.Pointer()] = true
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			pointers(v.Field(i), seen)
		}
	}
}

// shared counts nodes that are in two of the trees kept.
func (s *session) shared() int {
	total := 0
	all := map[uintptr]bool{}
	for _, f := range s.kept {
		own := map[uintptr]bool{}
		pointers(reflect.ValueOf(f), own)
		for p := range own {
			if all[p] {
				total++
			}
			all[p] = true
		}
	}
	return total
}

// opSession runs the programs of several clients in a given order of turns.
func opSession(r req) obs {
	var x struct {
		Calls []call            `json:"calls"`
		Progs [][]int           `json:"progs"` // 1-based calls
		Sched []int             `json:"sched"` // 1-based clients
		Refs  map[string]string `json:"refs"`
	}
	args(r, &x)
	s := newSession(x.Calls, false)
	s.files()
	defer os.RemoveAll(s.dir)
	copies := [][]byte{}
	shots := []string{}
	for i, t := range s.texts {
		copies = append(copies, append([]byte{}, t...))
		shots = append(shots, digest(newTreeEncoder().expr(s.trees[i])))
	}
	cls := make([]*client, len(x.Progs))
	for i, prog := range x.Progs {
		cls[i] = &client{turn: make(chan struct{}), ev: make(chan arr)}
		go func(cl *client, prog []int) {
			<-cl.turn
			for k, ci := range prog {
				res := s.perform(ci-1, x.Calls[ci-1], cl)
				cl.ev <- arr{"ret", ci, digest(res)}
				if k < len(prog)-1 {
					<-cl.turn
				}
			}
		}(cls[i], prog)
	}
	done := make([]int, len(cls))
	events := arr{}
	step := func(i int) bool {
		if done[i] == len(x.Progs[i]) {
			return false
		}
		cls[i].turn <- struct{}{}
		e := <-cls[i].ev
		if e[0] == "ret" {
			done[i]++
			ok := 1
			for j := range s.texts {
				if !bytes.Equal(s.texts[j], copies[j]) {
					ok = 0
				}
			}
			events = append(events, append(append(arr{i + 1}, e...), ok))
		} else {
			events = append(events, arr{i + 1, "gate"})
		}
		return true
	}
	for _, c := range x.Sched {
		step(c - 1)
	}
	for i := range cls {
		for step(i) {
		}
	}
	// trees stay as they are when the texts are overwritten afterwards
	before := []string{}
	for _, f := range s.kept {
		before = append(before, digest(newTreeEncoder().expr(f)))
	}
	for _, t := range s.texts {
		for i := range t {
			t[i] = 'X'
		}
	}
	alias := 0
	for i, f := range s.kept {
		if digest(newTreeEncoder().expr(f)) != before[i] {
			alias++
		}
	}
	for i, t := range s.trees {
		if digest(newTreeEncoder().expr(t)) != shots[i] {
			alias++
		}
	}
	refs := arr{}
	for i := range x.Calls {
		refs = append(refs, x.Refs[fmt.Sprint(i+1)])
	}
	return obs{"op": "session", "progs": x.Progs, "sched": x.Sched, "events": events, "refs": refs, "shared": s.shared(), "alias": alias}
}

// opStress lets many clients make calls at the same time.
func opStress(r req) obs {
	var x struct {
		Calls   []call            `json:"calls"`
		Clients int               `json:"clients"`
		Rounds  int               `json:"rounds"`
		Seed    int64             `json:"seed"`
		Cold    bool              `json:"cold"` // no shared trees
		Refs    map[string]string `json:"refs"`
	}
	args(r, &x)
	s := newSession(x.Calls, x.Cold)
	s.files()
	defer os.RemoveAll(s.dir)
	var wg sync.WaitGroup
	var mu sync.Mutex
	results := map[[2]string]int{}
	free := &client{free: true}
	start := make(chan struct{})
	for c := 0; c < x.Clients; c++ {
		wg.Add(1)
		go func(c int) {
			defer wg.Done()
			rnd := rand.New(rand.NewSource(x.Seed + int64(c)))
			own := map[[2]string]int{}
			<-start
			for k := 0; k < x.Rounds; k++ {
				i := rnd.Intn(len(x.Calls))
				res := s.perform(i, x.Calls[i], free)
				own[[2]string{fmt.Sprint(i + 1), digest(res)}]++
			}
			mu.Lock()
			defer mu.Unlock()
			for k, n := range own {
				results[k] += n
			}
		}(c)
	}
	close(start)
	wg.Wait()
	res := arr{}
	for k, n := range results {
		res = append(res, arr{k[0], k[1], n})
	}
	refs := arr{}
	for i := range x.Calls {
		refs = append(refs, x.Refs[fmt.Sprint(i+1)])
	}
	return obs{"op": "stress", "results": res, "refs": refs, "shared": s.shared(), "alias": 0}
}
