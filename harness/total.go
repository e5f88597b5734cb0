package main

import (
	"bytes"
	"encoding/base64"
	"fmt"
	goscan "go/scanner"
	gotok "go/token"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
	"github.com/jschaf/bibtex/render"
	"github.com/jschaf/bibtex/scanner"
	"github.com/jschaf/bibtex/token"
)

func init() { ops["total"] = opTotal }

// guard runs one call and records how it came back.
func guard(calls *arr, name string, mode int, f func() (res int, nerr int, size int)) {
	c := arr{name, mode, "panic", 0, 0, 0}
	defer func() {
		if e := recover(); e != nil {
			c = append(c, fmt.Sprint(e))
		}
		*calls = append(*calls, c)
	}()
	res, nerr, size := f()
	c[2], c[3], c[4], c[5] = "returned", res, nerr, size
}

func nerrs(err error) int {
	if err == nil {
		return 0
	}
	if l, ok := err.(goscan.ErrorList); ok {
		return len(l)
	}
	return 1
}

// strings collects the parsed strings of a tree.
func parsedStrings(n ast.Node) []*ast.ParsedText {
	var out []*ast.ParsedText
	_ = ast.Walk(n, func(n ast.Node, entering bool) (ast.WalkStatus, error) {
		if p, ok := n.(*ast.ParsedText); ok && entering && p.Depth == 0 && len(out) < 40 {
			out = append(out, p)
		}
		return ast.WalkContinue, nil
	})
	return out
}

func countNodes(n ast.Node) int {
	k := 0
	_ = ast.Walk(n, func(n ast.Node, entering bool) (ast.WalkStatus, error) {
		if entering {
			k++
		}
		return ast.WalkContinue, nil
	})
	return k
}

// opTotal sends one source through every entry point and records that and how
// each call came back.
func opTotal(r req) obs {
	var x struct {
		Rep   [][2]interface{} `json:"rep"` // base64 chunk, count
		Modes []int            `json:"modes"`
	}
	args(r, &x)
	src := r.src()
	for _, c := range x.Rep {
		b, err := base64.StdEncoding.DecodeString(c[0].(string))
		if err != nil {
			panic(err)
		}
		src = append(src, bytes.Repeat(b, int(c[1].(float64)))...)
	}
	calls := arr{}
	tree := func(name string, mode int, n ast.Node) {
		guard(&calls, name+"/walk", mode, func() (int, int, int) { return 1, 0, countNodes(n) })
		guard(&calls, name+"/render", mode, func() (int, int, int) {
			var w bytes.Buffer
			err := bibtex.New().Render(&w, n)
			return 1, nerrs(err), w.Len()
		})
		var txts []*ast.ParsedText
		guard(&calls, name+"/strings", mode, func() (int, int, int) { txts = parsedStrings(n); return 1, 0, len(txts) })
		for _, t := range txts {
			t := t
			guard(&calls, name+"/text", mode, func() (int, int, int) {
				var w bytes.Buffer
				err := render.NewTextRenderer().Render(&w, t)
				return 1, nerrs(err), w.Len()
			})
			guard(&calls, name+"/authors", mode, func() (int, int, int) {
				as, err := bibtex.ExtractAuthors(t)
				return 1, nerrs(err), len(as)
			})
		}
	}
	for _, m := range x.Modes {
		m := m
		guard(&calls, "scan", m, func() (int, int, int) {
			var s scanner.Scanner
			n := 0
			s.Init(gotok.NewFileSet().AddFile("f", -1, len(src)), src, func(gotok.Position, string) { n++ }, scanner.Mode(m))
			for k := 1; k <= 2*len(src)+8; k++ {
				if _, t, _ := s.Scan(); t == token.EOF {
					return 1, n, k
				}
			}
			return 0, n, 2*len(src) + 9
		})
		var f *ast.File
		parse := func() (int, int, int) {
			var err error
			f, err = parser.ParseFile(gotok.NewFileSet(), "f.bib", src, parser.Mode(m))
			return b2i(f != nil), nerrs(err), 0
		}
		guard(&calls, "parse", m, parse)
		if f == nil {
			continue
		}
		tree("file", m, f)
		for i, rs := range []bibtex.Resolver{bibtex.ResolverFunc(bibtex.SimplifyEscapedTextResolver), bibtex.NewAuthorResolver("author", "a", "t", "k"),
			bibtex.NewRenderParsedTextResolver()} {
			rs := rs
			guard(&calls, fmt.Sprintf("resolve%d", i), m, func() (int, int, int) {
				es, err := bibtex.New(bibtex.WithResolvers(rs)).Resolve(f)
				return b2i(es != nil), nerrs(err), len(es)
			})
		}
		guard(&calls, "file/walk", m, func() (int, int, int) { return 1, 0, countNodes(f) })
	}
	var e ast.Expr
	guard(&calls, "expr", 2, func() (int, int, int) {
		var err error
		e, err = parser.ParseExpr(string(src))
		return b2i(!isNil(e)), nerrs(err), 0
	})
	if !isNil(e) {
		tree("expr", 2, e)
	}
	guard(&calls, "biber", 2, func() (int, int, int) {
		f, err := bibtex.New().Parse(bytes.NewReader(src))
		return b2i(f != nil), nerrs(err), 0
	})
	// calls of one kind with the same outcome are recorded once, with the
	// largest sizes
	seen := map[string]int{}
	sum := arr{}
	for _, c := range calls {
		c := c.(arr)
		k := fmt.Sprint(c[0], c[1], c[2], c[3], c[4] != 0)
		if i, ok := seen[k]; ok {
			for j := 4; j <= 5; j++ {
				if c[j].(int) > sum[i].(arr)[j].(int) {
					sum[i].(arr)[j] = c[j]
				}
			}
			continue
		}
		seen[k] = len(sum)
		sum = append(sum, c)
	}
	return obs{"op": "total", "n": len(src), "calls": sum}
}
