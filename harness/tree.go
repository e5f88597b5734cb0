package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	goscan "go/scanner"
	gotok "go/token"
	"io"
	"io/fs"
	"os"
	"regexp"
	"strconv"
	"unicode/utf8"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
	"github.com/jschaf/bibtex/render"
	"github.com/jschaf/bibtex/token"
)

func init() {
	ops["walk"] = opWalk
	ops["render"] = opRender
	ops["text"] = opText
	ops["accent"] = opAccent
	ops["authors"] = opAuthors
	ops["resolve"] = opResolve
}

type oddError struct{ s []string }

func (o *oddError) Error() string { return "odd failure" }

// failures are the errors a walker, a resolver, a writer or a reader fails
// with, by name.
var failures = map[string]error{
	"":               errors.New("injected failure"),
	"eof":            io.EOF,
	"unexpected eof": io.ErrUnexpectedEOF,
	"short":          io.ErrShortWrite,
	"closed":         io.ErrClosedPipe,
	"progress":       io.ErrNoProgress,
	"not exist":      os.ErrNotExist,
	"file closed":    os.ErrClosed,
	"path":           &os.PathError{Op: "open", Path: "f.bib", Err: os.ErrNotExist},
	"canceled":       context.Canceled,
	"skip dir":       fs.SkipDir,
	"skip all":       fs.SkipAll,
	"wrapped eof":    fmt.Errorf("read: %w", io.EOF),
	"wrapped":        fmt.Errorf("run resolvers[7]: %w", errors.New("deep")),
	"joined":         errors.Join(io.EOF, errors.New("second")),
	"list":           &goscan.ErrorList{{Msg: "m"}},
	"one":            &goscan.Error{Msg: "m"},
	"typed nil":      (*oddError)(nil),
	"empty":          errors.New(""),
}

// injected is the error of this request.
var injected = failures[""]

// errKind is "none", "same" (the injected error itself), "wraps" or "other".
func errKind(err error) string {
	switch {
	case err == nil:
		return "none"
	case err == injected:
		return "same"
	case errors.Is(err, injected):
		return "wraps"
	}
	return "other"
}

func args(r req, x interface{}) {
	if len(r.X) > 0 {
		if err := json.Unmarshal(r.X, x); err != nil {
			panic(mistake(err.Error()))
		}
	}
}

// treeOf returns the tree a request is about: a given tree or the file that a
// source parses to.
func treeOf(r req, t *tnode) ast.Node {
	if t != nil {
		return build(*t)
	}
	f, _ := parser.ParseFile(gotok.NewFileSet(), "f.bib", r.src(), parser.Mode(r.Mode))
	return f
}

var statuses = map[string]ast.WalkStatus{"go": ast.WalkContinue, "skip": ast.WalkSkipChildren, "stop": ast.WalkStop}

// answer splits an answer like "skip" or "go!" (an error with that status).
func answer(s string) (ast.WalkStatus, error) {
	if s[len(s)-1] == '!' {
		return statuses[s[:len(s)-1]], injected
	}
	return statuses[s], nil
}

// opWalk walks a tree with a walker that gives the scripted answers, then
// continues.
func opWalk(r req) obs {
	var x struct {
		Tree    *tnode   `json:"tree"`
		Answers []string `json:"answers"`
	}
	args(r, &x)
	n := treeOf(r, x.Tree)
	e := newTreeEncoder()
	tree := e.expr(n)
	calls := arr{}
	i := 0
	err := ast.Walk(n, func(n ast.Node, entering bool) (ast.WalkStatus, error) {
		calls = append(calls, arr{e.ids.id(n), b2i(entering)})
		a := "go"
		if i < len(x.Answers) {
			a = x.Answers[i]
		}
		i++
		return answer(a)
	})
	if x.Answers == nil {
		x.Answers = []string{}
	}
	return obs{"op": "walk", "tree": tree, "answers": x.Answers, "calls": calls, "err": errKind(err)}
}

// faultWriter accepts failAt-1 characters and then fails (failAt 0: never).
// The write that fails takes nothing of what it is given, or all of it (full 1)
// or its first byte (full 2).
type faultWriter struct {
	buf                       bytes.Buffer
	failAt, full, size, after int
	failed              bool
}

func (f *faultWriter) Write(p []byte) (int, error) {
	if f.failed {
		f.after++
		return 0, injected
	}
	if f.failAt > 0 && f.size+utf8.RuneCount(p) > f.failAt-1 {
		f.failed = true
		switch {
		case f.full == 1:
			n, _ := f.buf.Write(p)
			return n, injected
		case f.full == 2 && p[0] < utf8.RuneSelf:
			f.buf.WriteByte(p[0])
			return 1, injected
		}
		return 0, injected
	}
	f.size += utf8.RuneCount(p)
	return f.buf.Write(p)
}

func (f *faultWriter) String() string { return f.buf.String() }

var kindNames = map[string]ast.NodeKind{
	"BadExpr": ast.KindBadExpr, "Ident": ast.KindIdent, "Number": ast.KindNumber, "Authors": ast.KindAuthors,
	"Author": ast.KindAuthor, "Unparsed": ast.KindUnparsedText, "Parsed": ast.KindParsedText, "Text": ast.KindText,
	"Comma": ast.KindTextComma, "Escaped": ast.KindTextEscaped, "Hyphen": ast.KindTextHyphen, "Math": ast.KindTextMath,
	"NBSP": ast.KindTextNBSP, "Space": ast.KindTextSpace, "Macro": ast.KindTextMacro, "Concat": ast.KindConcatExpr,
	"BadStmt": ast.KindBadStmt, "TagStmt": ast.KindTagStmt, "BadDecl": ast.KindBadDecl, "AbbrevDecl": ast.KindAbbrevDecl,
	"BibDecl": ast.KindBibDecl, "PreambleDecl": ast.KindPreambleDecl, "File": ast.KindFile, "Package": ast.KindPackage,
}

type repl struct {
	Kind    string   `json:"kind"`
	Nil     bool     `json:"nil"`     // remove the renderer
	Mark    string   `json:"mark"`    // what the replacement writes
	Answers []string `json:"answers"` // what it answers, then "go"
}

// opRender renders a tree with an instance whose renderers are replaced as
// given, and with a default instance made before and used after.
func opRender(r req) obs {
	var x struct {
		Tree   *tnode `json:"tree"`
		Repls  []repl `json:"repls"`
		FailAt int    `json:"failat"`
		Full   int    `json:"full"`
	}
	args(r, &x)
	n := treeOf(r, x.Tree)
	e := newTreeEncoder()
	tree := e.expr(n)
	calls := arr{}
	opts := []bibtex.Option{}
	repls := arr{}
	plain := bibtex.New()
	for i, rp := range x.Repls {
		i, rp := i, rp
		if rp.Answers == nil {
			rp.Answers = []string{}
		}
		repls = append(repls, arr{rp.Kind, b2i(rp.Nil), cps(rp.Mark), rp.Answers})
		if rp.Nil {
			opts = append(opts, bibtex.WithRenderer(kindNames[rp.Kind], nil))
			continue
		}
		k := 0
		opts = append(opts, bibtex.WithRenderer(kindNames[rp.Kind], func(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error) {
			calls = append(calls, arr{i + 1, e.ids.id(n), b2i(entering)})
			if _, err := io.WriteString(w, rp.Mark); err != nil {
				return ast.WalkStop, err
			}
			a := "go"
			if k < len(rp.Answers) {
				a = rp.Answers[k]
			}
			k++
			return answer(a)
		}))
	}
	b := bibtex.New(opts...)
	w := &faultWriter{failAt: x.FailAt, full: x.Full}
	err := b.Render(w, n)
	pw := &faultWriter{}
	perr := plain.Render(pw, n)
	return obs{"op": "render", "tree": tree, "repls": repls, "failat": x.FailAt, "full": x.Full, "out": cps(w.String()), "err": errKind(err),
		"calls": calls, "after": w.after, "plain": cps(pw.String()), "perr": errKind(perr)}
}

// opText renders an expression with the text renderer.
func opText(r req) obs {
	var x struct {
		Tree   *tnode `json:"tree"`
		FailAt int    `json:"failat"`
		Full   int    `json:"full"`
	}
	args(r, &x)
	e := newTreeEncoder()
	var n ast.Expr
	if x.Tree != nil {
		n = buildExpr(*x.Tree)
	} else {
		n, _ = parser.ParseExpr(string(r.src()))
	}
	if isNil(n) {
		return obs{"op": "text", "tree": node("nil", -1, -1, 0, nil, nil), "failat": 0, "full": 0, "out": []int{}, "err": "none", "after": 0, "same": 1}
	}
	tree := e.expr(n)
	w := &faultWriter{failAt: x.FailAt, full: x.Full}
	err := render.NewTextRenderer().Render(w, n)
	tree2 := newTreeEncoder().expr(n)
	return obs{"op": "text", "tree": tree, "failat": x.FailAt, "full": x.Full, "out": cps(w.String()), "err": errKind(err), "after": w.after,
		"same": b2i(fmt.Sprint(tree) == fmt.Sprint(tree2))}
}

func opAccent(r req) obs {
	var x struct {
		Pairs [][2]int `json:"pairs"` // accent, letter (0: empty text, <0: -n letters)
	}
	args(r, &x)
	res := arr{}
	for _, p := range x.Pairs {
		txt := ""
		switch {
		case p[1] > 0:
			txt = string(rune(p[1]))
		case p[1] < 0:
			for i := 0; i < -p[1]; i++ {
				txt += "a"
			}
		}
		c, err := render.RenderAccent(token.Accent(p[0]), txt)
		res = append(res, arr{p[0], p[1], int(c), b2i(err == nil)})
	}
	return obs{"op": "accent", "res": res}
}

// opAuthors extracts the authors of a string, given as a tree or as source.
func opAuthors(r req) obs {
	var x struct {
		Tree *tnode `json:"tree"`
	}
	args(r, &x)
	var n ast.Expr
	if x.Tree != nil {
		n = buildExpr(*x.Tree)
	} else {
		n, _ = parser.ParseExpr(string(r.src()))
	}
	o := obs{"op": "authors", "skip": 0, "ok": 0, "authors": arr{}, "same": 1}
	txt, ok := n.(*ast.ParsedText)
	if !ok || txt == nil {
		o["skip"] = 1
		o["tree"] = node("nil", -1, -1, 0, nil, nil)
		return o
	}
	tree := newTreeEncoder().expr(txt)
	as, err := bibtex.ExtractAuthors(txt)
	o["tree"] = tree
	o["ok"] = b2i(err == nil)
	o["same"] = b2i(fmt.Sprint(tree) == fmt.Sprint(newTreeEncoder().expr(txt)))
	if err != nil && as != nil {
		o["same"] = 0
	}
	list := arr{}
	for _, a := range as {
		parts := arr{}
		for _, p := range []ast.Expr{a.First, a.Prefix, a.Last, a.Suffix} {
			t, ok := p.(*ast.Text)
			if !ok || t == nil {
				parts = append(parts, []int{-5})
			} else {
				parts = append(parts, cps(t.Value))
			}
		}
		list = append(list, append(parts, b2i(a.IsOthers()), b2i(a.IsEmpty())))
	}
	o["authors"] = list
	return o
}

// opResolve resolves a tree with a pipeline of resolvers.
func opResolve(r req) obs {
	var x struct {
		Tree  *tnode     `json:"tree"`
		Pipe  [][]string `json:"pipe"`
		Twice bool       `json:"twice"`
	}
	args(r, &x)
	n := treeOf(r, x.Tree)
	e := newTreeEncoder()
	tree := e.expr(n)
	ran := arr{}
	opts := []bibtex.Option{}
	for i, p := range x.Pipe {
		i, p := i, p
		var rs bibtex.Resolver
		switch p[0] {
		case "authors":
			rs = bibtex.NewAuthorResolver(p[1:]...)
		case "escape":
			rs = bibtex.ResolverFunc(bibtex.SimplifyEscapedTextResolver)
		case "render":
			rs = bibtex.NewRenderParsedTextResolver()
		case "log":
			rs = bibtex.ResolverFunc(func(m ast.Node) error {
				ran = append(ran, arr{i, b2i(keyOf(m) == keyOf(n))})
				return nil
			})
		case "fail":
			rs = bibtex.ResolverFunc(func(m ast.Node) error {
				ran = append(ran, arr{i, b2i(keyOf(m) == keyOf(n))})
				return injected
			})
		case "tag": // sets a field of every entry
			rs = bibtex.ResolverFunc(func(m ast.Node) error {
				ran = append(ran, arr{i, b2i(keyOf(m) == keyOf(n))})
				return ast.Walk(m, func(n ast.Node, entering bool) (ast.WalkStatus, error) {
					if d, ok := n.(*ast.BibDecl); ok && entering {
						d.Tags = append(d.Tags, &ast.TagStmt{Name: p[1], RawName: p[1], Value: &ast.Text{Value: p[2]}})
					}
					return ast.WalkContinue, nil
				})
			})
		}
		opts = append(opts, bibtex.WithResolvers(rs))
	}
	b := bibtex.New(opts...)
	entries, err := b.Resolve(n)
	if x.Twice {
		entries, err = b.Resolve(n)
	}
	o := obs{"op": "resolve", "tree": tree, "ran": ran, "err": errKind(err), "nilentries": b2i(len(entries) == 0)}
	pipe := arr{}
	for _, p := range x.Pipe {
		ps := arr{p[0]}
		for _, a := range p[1:] {
			ps = append(ps, cps(a))
		}
		pipe = append(pipe, ps)
	}
	o["pipe"] = pipe
	o["twice"] = b2i(x.Twice)
	o["after"] = newTreeEncoder().expr(n)
	es := arr{}
	for _, en := range entries {
		tags := arr{}
		for _, k := range sortedKeys(en.Tags) {
			tags = append(tags, arr{cps(k), newTreeEncoder().expr(en.Tags[k])})
		}
		es = append(es, arr{cps(en.Type), cps(en.Key), tags})
	}
	o["entries"] = es
	nums := []int{}
	if err != nil {
		for _, s := range regexp.MustCompile(`\d+`).FindAllString(err.Error(), -1) {
			n, _ := strconv.Atoi(s)
			nums = append(nums, n)
		}
	}
	o["nums"] = nums
	return o
}
