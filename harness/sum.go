package main

import (
	"bytes"
	"encoding/base64"
	gotok "go/token"
	"sort"

	"github.com/jschaf/bibtex/parser"
)

func init() { ops["sum"] = opSum }

// opSum parses some parts, and the file put together from them.
func opSum(r req) obs {
	var x struct {
		Parts []string `json:"parts"` // base64
		Seq   []int    `json:"seq"`   // 1-based
		Pre   int      `json:"pre"`
	}
	args(r, &x)
	one := func(src []byte) obs {
		fset := gotok.NewFileSet()
		if x.Pre > 0 {
			fset.AddFile("earlier", -1, x.Pre)
		}
		base := fset.Base()
		t := newText(src)
		f, err := parser.ParseFile(fset, "f.bib", src, parser.Mode(r.Mode))
		_, el := errList(t, err)
		o := obs{"ok": b2i(err == nil), "errs": el, "decls": arr{}, "coms": arr{}, "lc": arr{}, "n": len(t.cps), "lines": bytes.Count(src, []byte("\n"))}
		if f == nil {
			return o
		}
		e := newEncoder(t, base)
		o["decls"] = e.decls(f.Entries)
		o["coms"] = e.comments(f.Comments)
		ps := make([]int, 0, len(e.lcs))
		for p := range e.lcs {
			ps = append(ps, int(p))
		}
		sort.Ints(ps)
		lc := arr{}
		for _, p := range ps {
			pos := fset.Position(gotok.Pos(p))
			lc = append(lc, arr{e.lcs[gotok.Pos(p)], pos.Line, pos.Column, b2i(pos.Filename == "f.bib")})
		}
		o["lc"] = lc
		return o
	}
	var srcs [][]byte
	parts := arr{}
	for _, b := range x.Parts {
		src, err := base64.StdEncoding.DecodeString(b)
		if err != nil {
			panic(err)
		}
		srcs = append(srcs, src)
		parts = append(parts, one(src))
	}
	// Only the last part may be malformed.
	var all []byte
	seq := []int{}
	for j, i := range x.Seq {
		if j < len(x.Seq)-1 && parts[i-1].(obs)["ok"] == 0 {
			continue
		}
		seq = append(seq, i)
		all = append(all, srcs[i-1]...)
	}
	return obs{"op": "sum", "parts": parts, "seq": seq, "whole": one(all), "ps": strMode(r.Mode)}
}
