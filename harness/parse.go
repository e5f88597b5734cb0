package main

import (
	"bytes"
	"encoding/json"
	goscan "go/scanner"
	gotok "go/token"
	"sort"

	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
	"github.com/jschaf/bibtex/scanner"
	"github.com/jschaf/bibtex/token"
)

func init() {
	ops["file"] = opFile
	ops["expr"] = opExpr
	ops["scan"] = opScan
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func strMode(m uint) int { return b2i(parser.Mode(m)&parser.ParseStrings != 0) }

// walkKinds walks a tree and returns the number of nodes entered and how many
// of them were nil.
func walkKinds(n ast.Node) (count, nils int) {
	_ = ast.Walk(n, func(n ast.Node, entering bool) (ast.WalkStatus, error) {
		if entering {
			count++
			if isNil(n) {
				nils++
			}
		}
		return ast.WalkContinue, nil
	})
	return
}

func opFile(r req) obs {
	src := r.src()
	var x struct {
		Name string `json:"name"`
		Pre  int    `json:"pre"` // size of an earlier file in the file set
		LC   bool   `json:"lc"`  // record lines and columns
	}
	if len(r.X) > 0 {
		if err := json.Unmarshal(r.X, &x); err != nil {
			panic(mistake(err.Error()))
		}
	}
	fset := gotok.NewFileSet()
	if x.Pre > 0 {
		fset.AddFile("earlier", -1, x.Pre)
	}
	base := fset.Base()
	f, err := parser.ParseFile(fset, x.Name, src, parser.Mode(r.Mode))
	t := newText(r.src())
	ek, el := errList(t, err)
	o := obs{"op": "file", "srcmod": b2i(!bytes.Equal(src, r.src())), "src": t.cps, "ps": strMode(r.Mode), "mode": int(r.Mode), "ok": b2i(err == nil), "ekind": ek, "errs": el}
	errname := 1
	if l, ok := err.(goscan.ErrorList); ok {
		for _, e := range l {
			if e.Pos.Filename != x.Name {
				errname = 0
			}
		}
	}
	o["errname"] = errname
	if f == nil {
		o["nofile"] = 1
		o["decls"], o["coms"], o["fdoc"], o["nils"], o["name"] = arr{}, arr{}, []int{}, 0, 0
		o["lc"] = arr{}
		return o
	}
	e := newEncoder(t, base)
	o["nofile"] = 0
	o["decls"] = e.decls(f.Entries)
	o["coms"] = e.comments(f.Comments)
	o["fdoc"] = e.doc(f.Doc)
	o["nils"] = e.nils
	if e.nils == 0 {
		_, nils := walkKinds(f)
		o["nils"] = nils
	}
	o["name"] = b2i(f.Name == x.Name)
	lc := arr{}
	if x.LC {
		ps := make([]int, 0, len(e.lcs))
		for p := range e.lcs {
			ps = append(ps, int(p))
		}
		sort.Ints(ps)
		for _, p := range ps {
			pos := fset.Position(gotok.Pos(p))
			lc = append(lc, arr{e.lcs[gotok.Pos(p)], pos.Line, pos.Column, b2i(pos.Filename == x.Name)})
		}
	}
	o["lc"] = lc
	return o
}

func opExpr(r req) obs {
	src := r.src()
	x, err := parser.ParseExpr(string(src))
	t := newText(append([]byte("="), src...))
	ek, el := errList(t, err)
	o := obs{"op": "expr", "src": t.cps, "ps": 1, "ok": b2i(err == nil), "ekind": ek, "errs": el}
	e := newEncoder(t, 1)
	o["tree"] = e.expr(x)
	o["nils"] = 0
	if err == nil {
		o["nils"] = e.nils
	}
	return o
}

// opScan scans a source, optionally with a scanner that was used before.
func opScan(r req) obs {
	src := r.src()
	var x struct {
		Prior string `json:"prior"` // base64 source scanned before
		Steps int    `json:"steps"` // number of tokens taken from it
	}
	if len(r.X) > 0 {
		if err := json.Unmarshal(r.X, &x); err != nil {
			panic(mistake(err.Error()))
		}
	}
	var s scanner.Scanner
	fset := gotok.NewFileSet()
	if x.Steps > 0 {
		prior := req{B: x.Prior}.src()
		s.Init(fset.AddFile("prior", -1, len(prior)), prior, func(gotok.Position, string) {}, scanner.Mode(2*(x.Steps%2)))
		for i := 0; i < x.Steps; i++ {
			s.Scan()
		}
	}
	t := newText(src)
	file := fset.AddFile("f", -1, len(src))
	handled := 0
	errs := arr{}
	s.Init(file, src, func(p gotok.Position, _ string) {
		handled++
		if len(errs) < 50 {
			errs = append(errs, t.at(p.Offset))
		}
	}, scanner.Mode(r.Mode))
	toks := arr{}
	end := 0
	max := 4*len(src) + 16
	for n := 0; n < max; n++ {
		pos, tok, lit := s.Scan()
		toks = append(toks, arr{tok.String(), t.at(file.Offset(pos)), cps(lit), handled,
			b2i(tok.IsLiteral()) + 2*b2i(tok.IsStringLiteral()) + 4*b2i(tok.IsOperator()) + 8*b2i(tok.IsCommand())})
		if tok == token.EOF {
			end = 1
			break
		}
	}
	// once more without a handler
	var q scanner.Scanner
	quiet := 0
	q.Init(fset.AddFile("g", -1, len(src)), src, nil, scanner.Mode(r.Mode))
	for quiet < max {
		quiet++
		if _, tok, _ := q.Scan(); tok == token.EOF {
			break
		}
	}
	return obs{"op": "scan", "srcmod": b2i(!bytes.Equal(src, r.src())), "quiet": arr{quiet, q.ErrorCount}, "src": t.cps, "ps": b2i(scanner.Mode(r.Mode)&scanner.ScanStrings != 0),
		"toks": toks, "eof": end, "handled": handled, "count": s.ErrorCount, "errs": errs}
}
