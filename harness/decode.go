package main

import (
	"encoding/json"
	"fmt"
	gotok "go/token"
	"reflect"
	"sort"

	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/token"
)

// tnode is a node tuple <<kind, pos, end, num, text, kids>> of the
// specification.
type tnode struct {
	kind     string
	pos, end int
	num      int
	str      string
	kids     []tnode
}

func (t *tnode) UnmarshalJSON(b []byte) error {
	var raw []json.RawMessage
	if err := json.Unmarshal(b, &raw); err != nil {
		return err
	}
	if len(raw) != 6 {
		return fmt.Errorf("node of %d parts", len(raw))
	}
	var s []int
	for i, p := range []interface{}{&t.kind, &t.pos, &t.end, &t.num, &s, &t.kids} {
		if err := json.Unmarshal(raw[i], p); err != nil {
			return err
		}
	}
	t.str = str(s)
	return nil
}

func str(s []int) string {
	b := []byte{}
	for _, c := range s {
		if c < 0 {
			b = append(b, 0xff)
		} else {
			b = append(b, string(rune(c))...)
		}
	}
	return string(b)
}

type builder struct {
	done []ast.Node
}

func build(t tnode) ast.Node     { return new(builder).node(t) }
func buildExpr(t tnode) ast.Expr { return new(builder).expr(t) }

func (b *builder) expr(t tnode) ast.Expr {
	if t.kind == "nil" {
		return nil
	}
	return b.node(t).(ast.Expr)
}

func (b *builder) exprs(ts []tnode) []ast.Expr {
	out := make([]ast.Expr, len(ts))
	for i, t := range ts {
		out[i] = b.expr(t)
	}
	return out
}

// node makes the tree a tuple describes.  The kind "Again" stands for the
// num-th tree that was finished before it, the very same object.
func (b *builder) node(t tnode) ast.Node {
	if t.kind == "Again" {
		return b.done[t.num]
	}
	n := b.make(t)
	b.done = append(b.done, n)
	return n
}

func (b *builder) make(t tnode) ast.Node {
	p := gotok.Pos(t.pos)
	switch t.kind {
	case "BadExpr":
		return &ast.BadExpr{From: p, To: p}
	case "BadStmt":
		return &ast.BadStmt{From: p, To: p}
	case "BadDecl":
		return &ast.BadDecl{From: p, To: p}
	case "Ident":
		return &ast.Ident{NamePos: p, Name: t.str}
	case "Number":
		return &ast.Number{ValuePos: p, Value: t.str}
	case "Unparsed":
		ty := token.String
		if t.num == '{' {
			ty = token.BraceString
		}
		return &ast.UnparsedText{ValuePos: p, Type: ty, Value: t.str}
	case "Parsed":
		d := ast.QuoteDelimiter
		if t.str == "{" {
			d = ast.BraceDelimiter
		}
		return &ast.ParsedText{Opener: p, Depth: t.num, Delim: d, Values: b.exprs(t.kids), Closer: gotok.Pos(t.end)}
	case "Text":
		return &ast.Text{ValuePos: p, Value: t.str}
	case "Accent":
		return &ast.TextAccent{ValuePos: p, Accent: token.Accent(t.num), Text: &ast.Text{Value: t.str}}
	case "Comma":
		return &ast.TextComma{ValuePos: p}
	case "Escaped":
		return &ast.TextEscaped{ValuePos: p, Value: t.str}
	case "Hyphen":
		return &ast.TextHyphen{ValuePos: p}
	case "Math":
		return &ast.TextMath{ValuePos: p, Value: t.str}
	case "NBSP":
		return &ast.TextNBSP{ValuePos: p}
	case "Space":
		return &ast.TextSpace{ValuePos: p, Value: t.str}
	case "Macro":
		return &ast.TextMacro{Cmd: p, Name: t.str, Values: b.exprs(t.kids)}
	case "Concat":
		return &ast.ConcatExpr{X: b.expr(t.kids[0]), Y: b.expr(t.kids[1]), OpPos: gotok.Pos(t.end)}
	case "Authors":
		as := make(ast.Authors, 0, len(t.kids))
		for _, k := range t.kids {
			as = append(as, b.node(k).(*ast.Author))
		}
		return as
	case "Author":
		return &ast.Author{First: b.expr(t.kids[0]), Prefix: b.expr(t.kids[1]), Last: b.expr(t.kids[2]), Suffix: b.expr(t.kids[3])}
	case "TagStmt":
		return &ast.TagStmt{NamePos: p, Name: t.str, RawName: "Raw" + t.str, Value: b.expr(t.kids[0])}
	case "BibDecl":
		d := &ast.BibDecl{Entry: p, Type: t.str}
		for _, k := range t.kids {
			if k.kind == "Key" {
				id := &ast.Ident{NamePos: gotok.Pos(k.pos), Name: k.str}
				if d.Key == nil && k.num == 0 {
					d.Key = id
				} else {
					d.ExtraKeys = append(d.ExtraKeys, id)
				}
				continue
			}
			d.Tags = append(d.Tags, b.node(k).(*ast.TagStmt))
		}
		return d
	case "AbbrevDecl":
		d := &ast.AbbrevDecl{Entry: p}
		if t.kids[0].kind != "nil" {
			d.Tag = b.node(t.kids[0]).(*ast.TagStmt)
		}
		return d
	case "PreambleDecl":
		return &ast.PreambleDecl{Entry: p, Text: b.expr(t.kids[0])}
	case "File":
		f := &ast.File{Scope: ast.NewScope(nil), Name: t.str}
		for _, k := range t.kids {
			f.Entries = append(f.Entries, b.node(k).(ast.Decl))
		}
		return f
	case "Package":
		pk := &ast.Package{Files: map[string]*ast.File{}}
		for i, k := range t.kids {
			pk.Files[fmt.Sprintf("f%02d.bib", i)] = b.node(k).(*ast.File)
		}
		return pk
	}
	panic(mistake("unknown kind " + t.kind))
}

// ident numbers the nodes of a tree; a node is known by its address.
type idents struct {
	ids map[idKey]int
}

type idKey struct {
	typ string
	ptr uintptr
}

func keyOf(n ast.Node) idKey {
	v := reflect.ValueOf(n)
	k := idKey{typ: v.Type().String()}
	switch v.Kind() {
	case reflect.Ptr, reflect.Slice:
		k.ptr = v.Pointer()
	}
	return k
}

func (s *idents) id(n ast.Node) int {
	if isNil(n) {
		return -1
	}
	if i, ok := s.ids[keyOf(n)]; ok {
		return i
	}
	return -2
}

func sortedKeys(m map[string]ast.Expr) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
