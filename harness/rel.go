package main

import (
	"encoding/base64"
	"fmt"
	gotok "go/token"

	"github.com/jschaf/bibtex/parser"
)

func init() { ops["rel"] = opRel }

// opRel parses several sources, each in several modes, and records the trees.
// Runs of one source with the same result are recorded once.
func opRel(r req) obs {
	var x struct {
		Kind  string   `json:"kind"`
		Srcs  []string `json:"srcs"`  // base64
		Modes []int    `json:"modes"` // for each source
	}
	args(r, &x)
	srcs := arr{}
	runs := arr{}
	for i, b := range x.Srcs {
		src, err := base64.StdEncoding.DecodeString(b)
		if err != nil {
			panic(err)
		}
		srcs = append(srcs, newText(src).cps)
		seen := map[string]int{}
		for _, m := range x.Modes {
			fset := gotok.NewFileSet()
			t := newText(src)
			f, err := parser.ParseFile(fset, "f.bib", src, parser.Mode(m))
			decls := arr{}
			if f != nil {
				e := newEncoder(t, 1)
				decls = e.decls(f.Entries)
			}
			k := fmt.Sprint(strMode(uint(m)), err == nil, decls)
			if j, ok := seen[k]; ok {
				o := runs[j].(obs)
				o["modes"] = append(o["modes"].([]int), m)
				continue
			}
			seen[k] = len(runs)
			runs = append(runs, obs{"v": i + 1, "ps": strMode(uint(m)), "modes": []int{m}, "ok": b2i(err == nil), "decls": decls})
		}
	}
	return obs{"op": "rel", "kind": x.Kind, "srcs": srcs, "runs": runs}
}
