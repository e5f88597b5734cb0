package main

import (
	"encoding/json"
	"fmt"
	"io"
	"regexp"
	"strconv"
	"strings"

	goscan "go/scanner"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
)

func init() { ops["options"] = opOptions }

func errNums(err error) []int {
	nums := []int{}
	if err != nil {
		for _, s := range regexp.MustCompile(`\d+`).FindAllString(err.Error(), -1) {
			n, _ := strconv.Atoi(s)
			nums = append(nums, n)
		}
	}
	return nums
}

func marksOf(d *ast.BibDecl) []int {
	ms := []int{}
	for _, t := range d.Tags {
		if v, ok := t.Value.(*ast.Text); ok && t.Name == "m" {
			n, _ := strconv.Atoi(v.Value)
			ms = append(ms, n)
		}
	}
	return ms
}

// lookAt records what an instance does.
func lookAt(b *bibtex.Biber, ran *arr) obs {
	o := obs{}
	f, err := b.Parse(strings.NewReader("@a{k,t={x}}"))
	if err != nil {
		o["strings"] = -1
	} else {
		_, ok := f.Entries[0].(*ast.BibDecl).Tags[0].Value.(*ast.ParsedText)
		o["strings"] = b2i(ok)
	}
	_, err = b.Parse(strings.NewReader(strings.Repeat("x\n@a{k,,}\n", 40)))
	n := -1
	if l, ok := err.(goscan.ErrorList); ok {
		n = len(l)
	}
	o["all"] = b2i(n > 20)
	runs := arr{}
	for i := 0; i < 2; i++ {
		*ran = arr{}
		d := &ast.BibDecl{Type: "a"}
		file := &ast.File{Entries: []ast.Decl{d}}
		es, err := b.Resolve(file)
		last := 0
		if len(es) == 1 {
			if v, ok := es[0].Tags["m"].(*ast.Text); ok {
				last, _ = strconv.Atoi(v.Value)
			}
		}
		runs = append(runs, obs{"ran": *ran, "err": errKind(err), "nums": errNums(err), "entries": len(es), "last": last, "marks": marksOf(d)})
	}
	o["runs"] = runs
	w := &faultWriter{}
	err = b.Render(w, &ast.ParsedText{Delim: ast.BraceDelimiter, Values: []ast.Expr{&ast.Text{Value: "t"}, &ast.TextComma{}, &ast.TextEscaped{Value: "%"}}})
	o["out"], o["err"] = cps(w.String()), errKind(err)
	return o
}

// opOptions builds instances from a list of options and looks at them.
func opOptions(r req) obs {
	var x struct {
		Opts  []json.RawMessage `json:"opts"`
		Other []json.RawMessage `json:"other"` // options of another instance
	}
	args(r, &x)
	ran := arr{}
	slices := map[string][]bibtex.Resolver{} // equal lists are the same slice
	resolver := func(id int) bibtex.Resolver {
		return bibtex.ResolverFunc(func(n ast.Node) error {
			d := n.(*ast.File).Entries[0].(*ast.BibDecl)
			ran = append(ran, arr{id, marksOf(d)})
			if id == 9 {
				return injected
			}
			d.Tags = append(d.Tags, &ast.TagStmt{Name: "m", RawName: "m", Value: &ast.Text{Value: strconv.Itoa(id)}})
			return nil
		})
	}
	build := func(list []json.RawMessage) (opts []bibtex.Option, recs arr) {
		recs = arr{}
		for _, raw := range list {
			var o []json.RawMessage
			if err := json.Unmarshal(raw, &o); err != nil {
				panic(mistake(err.Error()))
			}
			var rec interface{}
			_ = json.Unmarshal(raw, &rec)
			recs = append(recs, rec)
			var name string
			_ = json.Unmarshal(o[0], &name)
			switch name {
			case "mode":
				var m uint
				_ = json.Unmarshal(o[1], &m)
				opts = append(opts, bibtex.WithParserMode(parser.Mode(m)))
			case "res":
				var ids []int
				_ = json.Unmarshal(o[1], &ids)
				rs, ok := slices[fmt.Sprint(ids)]
				if !ok {
					rs = make([]bibtex.Resolver, 0, len(ids)+3) // with room to append
					for _, id := range ids {
						rs = append(rs, resolver(id))
					}
					slices[fmt.Sprint(ids)] = rs
				}
				opts = append(opts, bibtex.WithResolvers(rs...))
			case "rend":
				var kind string
				var id int
				_ = json.Unmarshal(o[1], &kind)
				_ = json.Unmarshal(o[2], &id)
				if id == 0 {
					opts = append(opts, bibtex.WithRenderer(kindNames[kind], nil))
					continue
				}
				opts = append(opts, bibtex.WithRenderer(kindNames[kind], func(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error) {
					if entering {
						if _, err := io.WriteString(w, "<"+strconv.Itoa(id)+">"); err != nil {
							return ast.WalkStop, err
						}
					}
					return ast.WalkContinue, nil
				}))
			}
		}
		return
	}
	opts, recs := build(x.Opts)
	opts2, recs2 := build(x.Other)
	a := bibtex.New(opts...)
	first := lookAt(a, &ran)
	g := bibtex.New(opts2...)
	b, d := bibtex.New(opts...), bibtex.New()
	e := bibtex.New(bibtex.WithParserMode(0), bibtex.WithResolvers(resolver(4)), bibtex.WithRenderer(ast.KindText, nil)) // others in between
	_ = lookAt(e, &ran)
	insts := arr{first, lookAt(b, &ran), lookAt(d, &ran), lookAt(a, &ran), lookAt(g, &ran)}
	return obs{"op": "options", "opts": recs, "insts": insts, "other": recs2, "plain": []int{0, 0, 1, 0, 2}}
}
