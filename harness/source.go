package main

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"errors"
	"fmt"
	goscan "go/scanner"
	gotok "go/token"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"
	"testing/iotest"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
)

func init() {
	ops["read"] = opRead
	ops["kinds"] = opKinds
	ops["package"] = opPackage
}

// schedReader delivers its text in chunks of the given sizes and then ends.
type schedReader struct {
	text  []byte
	sizes []int
	end   string
	i     int
}

func (s *schedReader) Read(p []byte) (int, error) {
	ended := func() error {
		if strings.HasSuffix(s.end, "fail") {
			return injected
		}
		return io.EOF
	}
	if s.i >= len(s.sizes) {
		return 0, ended()
	}
	k := s.sizes[s.i]
	if k > len(s.text) {
		k = len(s.text)
	}
	if k > len(p) { // the rest of the chunk comes with the next read
		k = copy(p, s.text)
		s.text = s.text[k:]
		s.sizes[s.i] -= k
		return k, nil
	}
	s.i++
	copy(p, s.text[:k])
	s.text = s.text[k:]
	if s.i == len(s.sizes) && strings.HasPrefix(s.end, "data") {
		return k, ended()
	}
	return k, nil
}

// result describes the outcome of parsing a source.
func result(fset *gotok.FileSet, base int, t *text, name string, f *ast.File, err error) obs {
	ek, el := errList(t, err)
	if ek == "other" {
		ek = errKind(err)
	}
	o := obs{"nofile": b2i(f == nil), "ok": b2i(err == nil), "ekind": ek, "errs": el, "decls": arr{}, "coms": arr{}, "fdoc": []int{}, "name": 1, "errname": 1, "lc": arr{}}
	if l, ok := err.(goscan.ErrorList); ok {
		for _, e := range l {
			if e.Pos.Filename != name {
				o["errname"] = 0
			}
		}
	}
	if f == nil {
		return o
	}
	e := newEncoder(t, base)
	o["decls"], o["coms"], o["fdoc"] = e.decls(f.Entries), e.comments(f.Comments), e.doc(f.Doc)
	o["name"] = b2i(f.Name == name)
	lc := arr{}
	if fset != nil {
		for _, d := range f.Entries {
			p := fset.Position(d.Pos())
			lc = append(lc, arr{p.Line, p.Column, p.Offset, b2i(p.Filename == name)})
		}
	}
	o["lc"] = lc
	return o
}

func parseAs(name string, content []byte, src interface{}, mode uint) obs {
	fset := gotok.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.Mode(mode))
	return result(fset, 1, newText(content), name, f, err)
}

func opRead(r req) obs {
	var x struct {
		Sizes []int  `json:"sizes"`
		End   string `json:"end"`
		Name  string `json:"name"`
	}
	args(r, &x)
	src := r.src()
	n := 0
	for _, k := range x.Sizes {
		n += k
	}
	if n > len(src) {
		n = len(src)
	}
	rd := func() *schedReader { return &schedReader{text: src, sizes: append([]int{}, x.Sizes...), end: x.End} }
	ref := parseAs(x.Name, src[:n], append([]byte{}, src[:n]...), r.Mode)
	got := parseAs(x.Name, src[:n], rd(), r.Mode)
	b := bibtex.New(bibtex.WithParserMode(parser.Mode(r.Mode)))
	f, err := b.Parse(rd())
	biber := result(nil, 1, newText(src[:n]), "", f, err)
	return obs{"op": "read", "len": len(src), "sched": arr{x.Sizes, x.End}, "ref": ref, "got": got, "biber": biber}
}

// namedReader is a reader that has a name of its own.
type namedReader struct{ *bytes.Reader }

func (namedReader) Name() string { return "other.bib" }

func opKinds(r req) obs {
	var x struct {
		Base string `json:"base"` // of the file
		Bare int    `json:"bare"` // 1: the name is the base alone; 2: it is empty
	}
	args(r, &x)
	src := r.src()
	dir, err := os.MkdirTemp("", "vbib.src")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	if x.Base == "" {
		x.Base = "f.bib"
	}
	name := filepath.Join(dir, x.Base)
	if err := os.MkdirAll(filepath.Dir(name), 0o700); err != nil {
		panic(err)
	}
	onDisk := name
	if x.Bare > 0 {
		wd, err := os.Getwd()
		if err != nil {
			panic(err)
		}
		if err := os.Chdir(dir); err != nil {
			panic(err)
		}
		defer os.Chdir(wd)
		name = x.Base
		if x.Bare == 2 {
			name = ""
		}
	}
	write := func(p string, b []byte) {
		if err := os.WriteFile(p, b, 0o600); err != nil {
			panic(err)
		}
	}
	write(onDisk, []byte("@decoy{decoy, decoy = {decoy}}"))
	var kinds []string
	var results []obs
	try := func(kind, name string, s interface{}) {
		kinds = append(kinds, kind)
		results = append(results, parseAs(name, src, s, r.Mode))
	}
	clone := func() []byte { return append([]byte{}, src...) }
	try("string", name, string(src))
	try("bytes", name, clone())
	if len(src) == 0 {
		try("nil bytes", name, []byte(nil))
	}
	roomy := append(make([]byte, 0, len(src)+9), src...)
	try("roomy bytes", name, roomy)
	try("roomy buffer", name, bytes.NewBuffer(append(make([]byte, 0, len(src)+700), src...)))
	try("string buffer", name, bytes.NewBufferString(string(src)))
	try("buffer", name, bytes.NewBuffer(clone()))
	used := bytes.NewBuffer(append([]byte("@x{"), src...))
	used.Next(3)
	try("used buffer", name, used)
	try("bytes reader", name, bytes.NewReader(src))
	try("strings reader", name, strings.NewReader(string(src)))
	try("named reader", name, namedReader{bytes.NewReader(src)})
	try("bufio", name, bufio.NewReaderSize(bytes.NewReader(src), 16))
	try("one byte", name, iotest.OneByteReader(bytes.NewReader(src)))
	try("half", name, iotest.HalfReader(bytes.NewReader(src)))
	try("data with eof", name, iotest.DataErrReader(bytes.NewReader(src)))
	sizes := []int{}
	for n := 0; n < len(src); n += 3 {
		sizes = append(sizes, 0, 3)
	}
	try("empty reads", name, &schedReader{text: src, sizes: append(sizes, 0), end: "eof"})
	try("limited", name, io.LimitReader(io.MultiReader(bytes.NewReader(src), strings.NewReader("@junk{")), int64(len(src))))
	try("section", name, io.NewSectionReader(strings.NewReader("ab"+string(src)+"@"), 2, int64(len(src))))
	pr, pw := io.Pipe()
	go func() {
		for i := 0; i < len(src); i += 7 {
			j := i + 7
			if j > len(src) {
				j = len(src)
			}
			pw.Write(src[i:j])
		}
		pw.Close()
	}()
	try("pipe", name, pr)
	try("failing", name, iotest.ErrReader(injected))
	try("failing later", name, io.MultiReader(bytes.NewReader(src), iotest.ErrReader(injected)))
	try("failing with data", name, &schedReader{text: src, sizes: []int{3, 1}, end: "datafail"})
	try("nil buffer", name, (*bytes.Buffer)(nil))
	try("int", name, 7)
	try("runes", name, []rune(string(src)))
	try("bytes array", name, [3]byte{'@', 'a', '{'})
	try("struct", name, struct{}{})
	try("func", name, func() string { return string(src) })
	write(onDisk, src)
	if x.Bare < 2 {
		try("file", name, nil)
	}
	fd, err := os.Open(onDisk)
	if err != nil {
		panic(err)
	}
	try("open file", name, fd)
	fd.Close()
	try("closed file", name, fd)
	try("missing", filepath.Join(dir, "missing.bib"), nil)
	try("directory", dir, nil)
	try("not a directory", filepath.Join(onDisk, "x.bib"), nil)
	groups := arr{}
	seen := map[string]int{}
	for i, res := range results {
		k := fmt.Sprint(res)
		if j, ok := seen[k]; ok {
			g := groups[j].(obs)
			g["kinds"] = append(g["kinds"].([]string), kinds[i])
			continue
		}
		seen[k] = len(groups)
		groups = append(groups, obs{"kinds": []string{kinds[i]}, "res": res})
	}
	return obs{"op": "kinds", "groups": groups, "bare": x.Bare}
}

// opPackage parses a list of files.
func opPackage(r req) obs {
	var x struct {
		Pool  []string `json:"pool"`  // base64 content, "missing" or "dir"
		Paths []int    `json:"paths"` // 1-based
		Names []string `json:"names"` // of the files, where not empty
	}
	args(r, &x)
	dir, err := os.MkdirTemp("", "vbib.pkg")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	wd, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
	defer os.Chdir(wd)
	paths := []string{}
	texts := []*text{}
	var contents [][]byte
	denied := false
	for i, c := range x.Pool {
		base := fmt.Sprintf("f%d.bib", i+1)
		p := filepath.Join(dir, base)
		switch i % 8 { // the path as given counts
		case 1:
			p = dir + "/./" + base
		case 2:
			p = base // relative
		case 3:
			p = "./" + base
		case 4:
			p = dir + "//" + base
		case 5:
			p = "../" + filepath.Base(dir) + "/" + base
		case 6:
			p = filepath.Join(dir, fmt.Sprintf("no extension %d", i+1))
		case 7:
			p = filepath.Join(dir, fmt.Sprintf("Übersicht \t%d.BIB", i+1))
		}
		if i < len(x.Names) && x.Names[i] != "" {
			p = filepath.Join(dir, x.Names[i])
			if i%2 == 1 {
				p = x.Names[i]
			}
			if err := os.MkdirAll(filepath.Dir(p), 0o700); err != nil {
				panic(err)
			}
		}
		var b []byte
		switch {
		case c == "missing":
		case c == "dir":
			err = os.Mkdir(p, 0o700)
		case c == "denied":
			err = os.WriteFile(p, []byte("@a{k}"), 0)
			denied = true
		case strings.HasPrefix(c, "as:"): // an earlier file under another name
			var j int
			fmt.Sscan(c[3:], &j)
			b = contents[j-1]
			if _, e := os.Stat(paths[j-1]); e == nil && i%2 == 0 {
				p = dir + "/././" + strings.Repeat("/", i) + filepath.Base(paths[j-1])
			} else if e == nil {
				abs, _ := filepath.Abs(paths[j-1])
				err = os.Symlink(abs, p)
			}
		default:
			b, _ = base64.StdEncoding.DecodeString(c)
			err = os.WriteFile(p, b, 0o644)
		}
		if err != nil {
			panic(err)
		}
		contents = append(contents, b)
		paths = append(paths, p)
		texts = append(texts, newText(b))
	}
	if denied && os.Geteuid() == 0 {
		// Root may read everything, so read as somebody else.
		if err := os.Chmod(dir, 0o755); err != nil {
			panic(err)
		}
		runtime.LockOSThread()
		defer runtime.UnlockOSThread()
		if syscall.Setfsuid(65534) == nil {
			defer syscall.Setfsuid(0)
		}
	}
	alone := arr{}
	first := map[int]int{}
	for i, p := range paths {
		fset := gotok.NewFileSet()
		f, err := parser.ParseFile(fset, p, nil, parser.Mode(r.Mode))
		alone = append(alone, result(nil, 1, texts[i], p, f, err))
		if f != nil && len(f.Entries) > 0 {
			first[i] = int(f.Entries[0].Pos()) - 1
		}
	}
	list := []string{}
	for _, i := range x.Paths {
		list = append(list, paths[i-1])
	}
	given := fmt.Sprint(list)
	pkg, err := parser.ParsePackage(list, parser.Mode(r.Mode))
	if fmt.Sprint(list) != given {
		panic("list of paths was changed")
	}
	e := obs{"ekind": errKind(err), "errs": arr{}, "path": 0}
	files := arr{}
	if pkg != nil {
		num := map[string]int{}
		for i, p := range paths {
			num[p] = i + 1
		}
		for p, f := range pkg.Files {
			i := num[p] // 0: never given
			if i == 0 || f == nil {
				files = append(files, obs{"path": 0, "decls": arr{}, "name": 0})
				continue
			}
			base := 1
			if len(f.Entries) > 0 {
				base = int(f.Entries[0].Pos()) - first[i-1]
			}
			files = append(files, obs{"path": i, "decls": newEncoder(texts[i-1], base).decls(f.Entries), "name": b2i(f.Name == p)})
		}
	}
	for i, p := range paths {
		var pe *os.PathError
		if l, ok := err.(goscan.ErrorList); ok && len(l) > 0 && l[0].Pos.Filename == p {
			e["ekind"], e["errs"] = errList(texts[i], err)
			e["path"] = i + 1
		} else if errors.As(err, &pe) && pe.Path == p {
			e["path"] = i + 1
		}
	}
	return obs{"op": "package", "paths": x.Paths, "alone": alone, "files": files, "err": e, "nopkg": b2i(pkg == nil || pkg.Files == nil)}
}
