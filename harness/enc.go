package main

import (
	"fmt"
	goscan "go/scanner"
	gotok "go/token"
	"reflect"
	"sort"
	"unicode/utf8"

	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/token"
)

type arr = []interface{}

// text is a source text as code points; -1 is an invalid byte.
type text struct {
	cps []int
	idx []int // byte offset -> code point index, -7 inside a code point
}

func newText(b []byte) *text {
	t := &text{cps: make([]int, 0, len(b)), idx: make([]int, len(b)+1)}
	for i := 0; i < len(b); {
		r, w := utf8.DecodeRune(b[i:])
		t.idx[i] = len(t.cps)
		for j := 1; j < w; j++ {
			t.idx[i+j] = -7
		}
		c := int(r)
		if r == utf8.RuneError && w <= 1 {
			c, w = -1, 1
		}
		t.cps = append(t.cps, c)
		i += w
	}
	t.idx[len(b)] = len(t.cps)
	return t
}

func (t *text) at(off int) int {
	if off < 0 || off >= len(t.idx) {
		return -9
	}
	return t.idx[off]
}

func cps(s string) []int { return newText([]byte(s)).cps }

// encoder turns trees into the tuples of the specification.
type encoder struct {
	t    *text
	base int               // position of offset 0
	lcs  map[gotok.Pos]int // every position seen -> index
	nils int
	deep int
	ids  *idents // number the nodes instead of recording positions
}

// newTreeEncoder numbers the nodes in the order they are written down.
func newTreeEncoder() *encoder {
	return &encoder{ids: &idents{ids: map[idKey]int{}}, lcs: map[gotok.Pos]int{}}
}

func newEncoder(t *text, base int) *encoder {
	return &encoder{t: t, base: base, lcs: map[gotok.Pos]int{}}
}

func (e *encoder) pos(p gotok.Pos) int {
	if p == gotok.NoPos {
		return -1
	}
	if e.t == nil {
		return -1
	}
	i := e.t.at(int(p) - e.base)
	e.lcs[p] = i
	return i
}

func node(k string, p, end, num int, s []int, kids arr) arr {
	if s == nil {
		s = []int{}
	}
	if kids == nil {
		kids = arr{}
	}
	return arr{k, p, end, num, s, kids}
}

func isNil(x interface{}) bool {
	if x == nil {
		return true
	}
	v := reflect.ValueOf(x)
	return v.Kind() == reflect.Ptr && v.IsNil()
}

func (e *encoder) exprs(xs []ast.Expr) arr {
	out := make(arr, 0, len(xs))
	for _, x := range xs {
		out = append(out, e.expr(x))
	}
	return out
}

func (e *encoder) expr(x ast.Node) arr {
	if isNil(x) {
		e.nils++
		return node("nil", -1, -1, 0, nil, nil)
	}
	// The reader of the specification has a limit; no text it is given nests that deep.
	e.deep++
	defer func() { e.deep-- }()
	if e.deep > 110 {
		return node("TooDeep", -1, -1, 0, nil, nil)
	}
	if e.ids == nil {
		return e.expr1(x)
	}
	id, ok := e.ids.ids[keyOf(x)]
	if !ok {
		id = len(e.ids.ids) + 1
		e.ids.ids[keyOf(x)] = id
	}
	out := e.expr1(x)
	out[1], out[2] = id, -1
	switch t := x.(type) {
	case *ast.TextSpace:
		out[4] = cps(t.Value)
	case *ast.BibDecl:
		kids := arr{}
		if t.Key != nil {
			kids = append(kids, node("Key", -1, -1, 0, cps(t.Key.Name), nil))
		}
		extra := 0
		if t.Key == nil {
			extra = 1 // no key, but extra ones
		}
		for _, k := range t.ExtraKeys {
			kids = append(kids, node("Key", -1, -1, extra, cps(k.Name), nil))
		}
		out[5] = append(kids, out[5].(arr)...)
	}
	return out
}

func (e *encoder) expr1(x ast.Node) arr {
	switch t := x.(type) {
	case *ast.BadExpr:
		return node("BadExpr", e.pos(t.From), -1, 0, nil, nil)
	case *ast.BadStmt:
		return node("BadStmt", e.pos(t.From), -1, 0, nil, nil)
	case *ast.Ident:
		return node("Ident", e.pos(t.NamePos), -1, 0, cps(t.Name), nil)
	case *ast.Number:
		return node("Number", e.pos(t.ValuePos), -1, 0, cps(t.Value), nil)
	case *ast.UnparsedText:
		d := 0
		switch t.Type {
		case token.String:
			d = '"'
		case token.BraceString:
			d = '{'
		}
		return node("Unparsed", e.pos(t.ValuePos), -1, d, cps(t.Value), nil)
	case *ast.ParsedText:
		d := 0
		switch t.Delim {
		case ast.QuoteDelimiter:
			d = '"'
		case ast.BraceDelimiter:
			d = '{'
		}
		return node("Parsed", e.pos(t.Opener), e.pos(t.Closer), t.Depth, []int{d}, e.exprs(t.Values))
	case *ast.Text:
		return node("Text", e.pos(t.ValuePos), -1, 0, cps(t.Value), nil)
	case *ast.TextAccent:
		if t.Text == nil {
			return node("Accent", e.pos(t.ValuePos), -1, int(t.Accent), nil, nil)
		}
		return node("Accent", e.pos(t.ValuePos), -1, int(t.Accent), cps(t.Text.Value), nil)
	case *ast.TextComma:
		return node("Comma", e.pos(t.ValuePos), -1, 0, nil, nil)
	case *ast.TextEscaped:
		return node("Escaped", e.pos(t.ValuePos), -1, 0, cps(t.Value), nil)
	case *ast.TextHyphen:
		return node("Hyphen", e.pos(t.ValuePos), -1, 0, nil, nil)
	case *ast.TextMath:
		return node("Math", e.pos(t.ValuePos), -1, 0, cps(t.Value), nil)
	case *ast.TextNBSP:
		return node("NBSP", e.pos(t.ValuePos), -1, 0, nil, nil)
	case *ast.TextSpace:
		return node("Space", e.pos(t.ValuePos), -1, 0, nil, nil)
	case *ast.TextMacro:
		return node("Macro", e.pos(t.Cmd), e.pos(t.RBrace), 0, cps(t.Name), e.exprs(t.Values))
	case *ast.ConcatExpr:
		kids := arr{e.expr(t.X), e.expr(t.Y)}
		p := -1
		if !isNil(t.X) {
			p = e.pos(t.Pos())
		}
		return node("Concat", p, e.pos(t.OpPos), 0, nil, kids)
	case ast.Authors:
		kids := arr{}
		for _, a := range t {
			kids = append(kids, e.expr(a))
		}
		return node("Authors", -1, -1, 0, nil, kids)
	case *ast.Author:
		return node("Author", -1, -1, 0, nil,
			arr{e.expr(t.First), e.expr(t.Prefix), e.expr(t.Last), e.expr(t.Suffix)})
	case *ast.TagStmt:
		return node("TagStmt", e.pos(t.NamePos), -1, 0, cps(t.Name), arr{e.expr(t.Value)})
	case *ast.BibDecl:
		kids := arr{}
		for _, t := range t.Tags {
			kids = append(kids, e.expr(t))
		}
		return node("BibDecl", e.pos(t.Entry), -1, 0, cps(t.Type), kids)
	case *ast.AbbrevDecl:
		return node("AbbrevDecl", e.pos(t.Entry), -1, 0, nil, arr{e.expr(t.Tag)})
	case *ast.PreambleDecl:
		return node("PreambleDecl", e.pos(t.Entry), -1, 0, nil, arr{e.expr(t.Text)})
	case *ast.BadDecl:
		return node("BadDecl", e.pos(t.From), -1, 0, nil, nil)
	case *ast.File:
		kids := arr{}
		for _, d := range t.Entries {
			kids = append(kids, e.expr(d))
		}
		return node("File", -1, -1, 0, nil, kids)
	case *ast.Package:
		kids := arr{}
		names := make([]string, 0, len(t.Files))
		for k := range t.Files {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, k := range names {
			kids = append(kids, e.expr(t.Files[k]))
		}
		return node("Package", -1, -1, 0, nil, kids)
	}
	panic(fmt.Sprintf("unknown node %T", x))
}

func (e *encoder) doc(g *ast.TexCommentGroup) []int {
	out := []int{}
	if g == nil {
		return out
	}
	for _, c := range g.List {
		out = append(out, e.pos(c.Start))
	}
	return out
}

func (e *encoder) ident(x *ast.Ident) arr {
	if x == nil {
		e.nils++
		return arr{-1, []int{}}
	}
	return arr{e.pos(x.NamePos), cps(x.Name)}
}

func (e *encoder) tag(t *ast.TagStmt) arr {
	if t == nil {
		e.nils++
		return arr{-1, []int{}, []int{}, []int{}, e.expr(nil)}
	}
	return arr{e.pos(t.NamePos), cps(t.Name), cps(t.RawName), e.doc(t.Doc), e.expr(t.Value)}
}

func (e *encoder) decl(d ast.Decl) arr {
	if isNil(d) {
		e.nils++
		return arr{"nil", -1, -1, []int{}, []int{}, arr{}, arr{}, arr{}, arr{}}
	}
	switch t := d.(type) {
	case *ast.BibDecl:
		key, xs, tags := arr{}, arr{}, arr{}
		if t.Key != nil {
			key = append(key, e.ident(t.Key))
		}
		for _, k := range t.ExtraKeys {
			xs = append(xs, e.ident(k))
		}
		for _, tag := range t.Tags {
			tags = append(tags, e.tag(tag))
		}
		return arr{"Bib", e.pos(t.Entry), e.pos(t.RBrace), cps(t.Type), e.doc(t.Doc), key, xs, tags, arr{}}
	case *ast.AbbrevDecl:
		return arr{"Abbrev", e.pos(t.Entry), e.pos(t.RBrace), []int{}, e.doc(t.Doc), arr{}, arr{}, arr{e.tag(t.Tag)}, arr{}}
	case *ast.PreambleDecl:
		return arr{"Preamble", e.pos(t.Entry), e.pos(t.RBrace), []int{}, e.doc(t.Doc), arr{}, arr{}, arr{}, arr{e.expr(t.Text)}}
	case *ast.BadDecl:
		return arr{"BadDecl", e.pos(t.From), -1, []int{}, []int{}, arr{}, arr{}, arr{}, arr{}}
	}
	panic(fmt.Sprintf("unknown decl %T", d))
}

func (e *encoder) decls(ds []ast.Decl) arr {
	out := arr{}
	for _, d := range ds {
		out = append(out, e.decl(d))
	}
	return out
}

func (e *encoder) comments(gs []*ast.TexCommentGroup) arr {
	out := arr{}
	for _, g := range gs {
		ga := arr{}
		if g == nil {
			e.nils++
		} else {
			for _, c := range g.List {
				ga = append(ga, arr{e.pos(c.Start), cps(c.Text)})
			}
		}
		out = append(out, ga)
	}
	return out
}

// errs encodes an error list as <<offset, line, column>>.
func errList(t *text, err error) (kind string, list arr) {
	list = arr{}
	switch x := err.(type) {
	case nil:
		return "none", list
	case goscan.ErrorList:
		for _, e := range x {
			list = append(list, arr{t.at(e.Pos.Offset), e.Pos.Line, e.Pos.Column})
		}
		return "list", list
	default:
		return "other", list
	}
}
