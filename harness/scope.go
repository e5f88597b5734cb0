package main

import (
	gotok "go/token"
	"sort"
	"strings"

	"github.com/jschaf/bibtex/ast"
)

func init() { ops["scope"] = opScope }

// opScope runs a history of operations on scopes.
func opScope(r req) obs {
	var x struct {
		Pool  [][]interface{} `json:"pool"` // name, declared by, key, position, kind
		Hist  [][]interface{} `json:"hist"`
		Names []string        `json:"names"`
	}
	args(r, &x)
	objs := []*ast.Object{}
	num := map[*ast.Object]int{nil: 0}
	pos := arr{}
	for i, p := range x.Pool {
		name, by, key := p[0].(string), p[1].(string), p[2].(string)
		kinds := map[string]ast.ObjKind{"bad": ast.Bad, "entry": ast.Entry, "abbrev": ast.Abbrev, "other": ast.ObjKind(2)}
		o := ast.NewObj(kinds[p[4].(string)], name)
		at := gotok.Pos(int(p[3].(float64)))
		switch by {
		case "bib":
			o.Decl = &ast.BibDecl{Entry: at + 100, Type: "a", Key: &ast.Ident{NamePos: at, Name: key}}
		case "nokey":
			o.Decl = &ast.BibDecl{Entry: at + 100, Type: "a"}
		case "abbrev":
			o.Decl = &ast.AbbrevDecl{Entry: at + 100, Tag: &ast.TagStmt{NamePos: at, Name: key, RawName: key, Value: &ast.Text{ValuePos: at + 9, Value: key}}}
		case "empty abbrev":
			o.Decl = &ast.AbbrevDecl{Entry: at + 100}
		case "extra": // the key given is not the first one
			o.Decl = &ast.BibDecl{Entry: at + 100, Type: key, Key: &ast.Ident{NamePos: at + 7, Name: key + "x"}, ExtraKeys: []*ast.Ident{{NamePos: at, Name: key}},
				Tags: []*ast.TagStmt{{NamePos: at + 8, Name: key, RawName: key, Value: &ast.Ident{NamePos: at + 9, Name: key}}}}
		case "extra only":
			o.Decl = &ast.BibDecl{Entry: at + 100, Type: key, ExtraKeys: []*ast.Ident{{NamePos: at, Name: key}}}
		case "bib and extra":
			o.Decl = &ast.BibDecl{Entry: at + 100, Type: "a", Key: &ast.Ident{NamePos: at, Name: key}, ExtraKeys: []*ast.Ident{{NamePos: at + 7, Name: key}}, RBrace: at + 200}
		case "preamble":
			o.Decl = &ast.PreambleDecl{Entry: at, Text: &ast.Text{ValuePos: at, Value: key}}
		case "tag":
			o.Decl = &ast.TagStmt{NamePos: at, Name: key, RawName: key}
		case "ident":
			o.Decl = &ast.Ident{NamePos: at, Name: key}
		case "file":
			o.Decl = &ast.File{Name: key, Scope: ast.NewScope(nil)}
		case "bad":
			o.Decl = &ast.BadDecl{From: at, To: at}
		case "string":
			o.Decl = key
		case "scope":
			o.Decl = ast.NewScope(nil)
		}
		objs = append(objs, o)
		num[o] = i + 1
		pos = append(pos, int(o.Pos()))
	}
	id := func(o *ast.Object) int {
		if n, ok := num[o]; ok {
			return n
		}
		return -1
	}
	var ss []*ast.Scope
	snum := map[*ast.Scope]int{nil: 0}
	steps := arr{}
	for _, h := range x.Hist {
		res := 0
		arg := func(i int) int { return int(h[i].(float64)) }
		switch h[0] {
		case "new":
			var outer *ast.Scope
			if arg(1) > 0 {
				outer = ss[arg(1)-1]
			}
			s := ast.NewScope(outer)
			ss = append(ss, s)
			snum[s] = len(ss)
		case "ins":
			res = id(ss[arg(1)-1].Insert(objs[arg(2)-1]))
		case "look":
			res = id(ss[arg(1)-1].Lookup(h[2].(string)))
		case "ren":
			objs[arg(1)-1].Name = h[2].(string)
		}
		outers, contents, looks := arr{}, arr{}, arr{}
		for _, s := range ss {
			if n, ok := snum[s.Outer]; ok {
				outers = append(outers, n)
			} else {
				outers = append(outers, -1)
			}
			c := arr{}
			names := []string{}
			for n := range s.Objects {
				names = append(names, n)
			}
			sort.Strings(names)
			for _, n := range names {
				c = append(c, arr{n, id(s.Objects[n])})
			}
			contents = append(contents, c)
			lk := arr{}
			for _, n := range x.Names {
				lk = append(lk, arr{n, id(s.Lookup(n))})
			}
			looks = append(looks, lk)
			if d := s.String(); !strings.HasPrefix(d, "scope") {
				panic("scope dump: " + d)
			}
		}
		steps = append(steps, arr{h, res, outers, contents, looks})
	}
	last := arr{}
	for _, o := range objs {
		last = append(last, int(o.Pos()))
	}
	return obs{"op": "scope", "pool": x.Pool, "pos": pos, "last": last, "steps": steps}
}
