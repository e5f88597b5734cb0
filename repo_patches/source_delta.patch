From fb8c3aed8c0a93e5475acadea7bc2507ecd249fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:13 +0000
Subject: [PATCH 01/26] fix: scanner: no out of range slice for a string cut
 off by the end of the source

---
 scanner/scanner.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index f321e28..b41df15 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -225,7 +225,7 @@ func (s *Scanner) scanString() string {
 		ch := s.ch
 		if ch < 0 {
 			s.error(offs, "string literal in double quotes not terminated")
-			break
+			return string(s.src[offs:s.offset])
 		}
 		s.next()
 		if ch == '"' {
@@ -254,7 +254,7 @@ func (s *Scanner) scanBraceString() string {
 		ch := s.ch
 		if ch < 0 {
 			s.error(offs, "string literal in braces not terminated")
-			break
+			return string(s.src[offs:s.offset])
 		}
 		s.next()
 		if ch == '}' {
-- 
2.43.0


From db6cadc5fb30207249f202d03d44b6bda25bb7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:15 +0000
Subject: [PATCH 02/26] fix: scanner: do not skip the first character of a
 nested brace string

---
 scanner/scanner.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index b41df15..f49117c 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -261,7 +261,6 @@ func (s *Scanner) scanBraceString() string {
 			break
 		}
 		if ch == '{' {
-			s.next()
 			s.scanBraceString()
 		}
 	}
-- 
2.43.0


From b059cfaaff69990cd4cb35897698d6a996000812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:16 +0000
Subject: [PATCH 03/26] fix: scanner, parser: terminate on a parsed string cut
 off by the end of the source

---
 parser/parser.go   | 3 ++-
 scanner/scanner.go | 8 ++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 28a5804..7fdbb79 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -401,7 +401,7 @@ func (p *parser) parseMacroURL(name string) ast.Expr {
 	p.expect(token.StringLBrace)
 	sb := strings.Builder{}
 	sb.Grow(32)
-	for p.tok != token.StringRBrace && p.tok != token.StringSpace {
+	for p.tok != token.StringRBrace && p.tok != token.StringSpace && p.tok != token.EOF {
 		sb.WriteString(p.lit)
 		p.next()
 	}
@@ -471,6 +471,7 @@ func (p *parser) parseText(depth int) (txt ast.Expr) {
 		return p.parseStringAccent()
 	default:
 		p.error(p.pos, "unknown text type: "+p.tok.String())
+		txt = &ast.BadExpr{From: p.pos, To: p.pos}
 	}
 
 	p.next()
diff --git a/scanner/scanner.go b/scanner/scanner.go
index f49117c..801cfd8 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -407,6 +407,14 @@ func (s *Scanner) scanInString() (pos gotok.Pos, tok token.Token, lit string) {
 		panic("called scanInString but not in quote")
 	}
 	pos = s.file.Pos(s.offset)
+	if s.ch < 0 {
+		// Leave the string so that the next token is EOF.
+		s.error(s.offset, "string literal not terminated")
+		s.endQuoteCh = 0
+		s.braceDepth = 0
+		tok = token.Illegal
+		return
+	}
 	if !s.isSpecialStringChar(s.ch) {
 		tok = token.StringContents
 		lit = s.scanStringContents()
-- 
2.43.0


From 009c088dab8c31d520cb8b76a241189335151c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:17 +0000
Subject: [PATCH 04/26] fix: scanner: require a letter after an accent followed
 by spaces

---
 scanner/scanner.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index 801cfd8..dbcaead 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -364,8 +364,12 @@ func (s *Scanner) scanSpecialCharStringAccent() (token.Token, string) {
 		for s.ch == ' ' {
 			s.next()
 		}
+		if !IsAsciiLetter(s.ch) {
+			s.errorf(offs, "expected ascii letter after accent sequence %q , got %q", tokStr, s.ch)
+			return token.Illegal, ""
+		}
 		// append accented char, e.g. 'c'
-		tokStr += string(s.src[s.offset])
+		tokStr += string(s.ch)
 		s.next() // consume the letter that's accented
 		return token.StringAccent, tokStr
 	} else {
-- 
2.43.0


From 3775bb265740a0f1f37db0770023af78c26a0cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:18 +0000
Subject: [PATCH 05/26] fix: scanner: Init resets the string state of a reused
 scanner

---
 scanner/scanner.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index dbcaead..d8d8ec6 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -138,6 +138,9 @@ func (s *Scanner) Init(file *gotok.File, src []byte, err ErrorHandler, mode Mode
 	s.offset = 0
 	s.rdOffset = 0
 	s.lineOffset = 0
+	s.prev = token.Illegal
+	s.endQuoteCh = 0
+	s.braceDepth = 0
 	s.ErrorCount = 0
 
 	s.next()
-- 
2.43.0


From dd9ad4da90b9e7c1c434aaeb098cc3c3a5771fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:19 +0000
Subject: [PATCH 06/26] fix: scanner: check the first character after @

---
 scanner/scanner.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index d8d8ec6..7e767a9 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -201,7 +201,6 @@ func IsName(ch rune) bool {
 
 func (s *Scanner) scanCommand() string {
 	offs := s.offset - 1 // Already consumed @
-	s.next()
 	if !isLetter(s.ch) {
 		s.error(s.offset, "expected letter after @ for a command")
 	}
-- 
2.43.0


From 34242379476df33994e212a81883aff66a69ad78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:20 +0000
Subject: [PATCH 07/26] fix: scanner: do not split names that begin with digits

---
 scanner/scanner.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index 7e767a9..c52ce5f 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -504,6 +504,11 @@ func (s *Scanner) Scan() (pos gotok.Pos, tok token.Token, lit string) {
 	case isDecimal(ch):
 		tok = token.Number
 		lit = s.scanNumber()
+		if IsName(s.ch) {
+			// A name may begin with digits, like the cite key 2019foo.
+			tok = token.Ident
+			lit += s.scanIdent()
+		}
 
 	case IsName(ch):
 		tok = token.Ident
-- 
2.43.0


From 53b0c0c200c3a830f63318b927bac34aceaaf9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:21 +0000
Subject: [PATCH 08/26] fix: parser: tag names are not cite keys, and a cite
 key needs no trailing comma

---
 parser/parser.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 7fdbb79..8752148 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -776,21 +776,14 @@ func (p *parser) parseBibDecl() *ast.BibDecl {
 			}
 			tags = append(tags, tag)
 		default:
-			// Keep going.
-		}
-		switch p.tok {
-		case token.Comma:
 			// It's a cite key.
-			p.next()
 			if bibKey == nil {
 				bibKey = key
 			} else {
 				extraKeys = append(extraKeys, key)
 			}
-			continue
-		default:
-			// Keep going.
 		}
+		p.expectOptional(token.Comma)
 	}
 	closer := p.expectCloser(opener)
 	p.expectOptional(token.Comma) // trailing commas allowed
-- 
2.43.0


From 6bf824723c006ac62bd61e3e649e8bdf606eb8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:22 +0000
Subject: [PATCH 09/26] fix: resolve entries without a cite key

---
 bibtex.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bibtex.go b/bibtex.go
index b765e6a..3fe4700 100644
--- a/bibtex.go
+++ b/bibtex.go
@@ -174,10 +174,12 @@ func (b *Biber) Resolve(node ast.Node) ([]Entry, error) {
 
 func (b *Biber) resolveEntry(decl *ast.BibDecl) Entry {
 	entry := Entry{
-		Key:  decl.Key.Name,
 		Type: decl.Type,
 		Tags: make(map[Field]ast.Expr, 4),
 	}
+	if decl.Key != nil {
+		entry.Key = decl.Key.Name
+	}
 	for _, tag := range decl.Tags {
 		entry.Tags[tag.Name] = tag.Value
 	}
-- 
2.43.0


From 166ac9ecf3702b28cc1dfc526c746f22b4d596a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:23 +0000
Subject: [PATCH 10/26] fix: parser: concatenate after a parsed string, record
 the position of #

---
 parser/parser.go | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 8752148..fbd05a1 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -571,20 +571,10 @@ func (p *parser) parseExpr() (x ast.Expr) {
 	pos := p.pos
 	switch {
 	case p.tok.IsLiteral():
-		x = p.parseBasicLit()
-		if p.tok == token.Concat {
-			p.next()
-			opPos := p.pos
-			y := p.parseExpr()
-			x = &ast.ConcatExpr{
-				X:     x,
-				OpPos: opPos,
-				Y:     y,
-			}
-		}
+		x = p.parseConcat(p.parseBasicLit())
 
 	case p.tok.IsStringLiteral():
-		x = p.parseStringLiteral()
+		x = p.parseConcat(p.parseStringLiteral())
 
 	default:
 		p.errorExpected(p.pos, "literal: number or string")
@@ -597,6 +587,22 @@ func (p *parser) parseExpr() (x ast.Expr) {
 	return
 }
 
+// parseConcat parses the rest of a concatenation, if any, following the operand
+// x.
+func (p *parser) parseConcat(x ast.Expr) ast.Expr {
+	if p.tok != token.Concat {
+		return x
+	}
+	opPos := p.pos
+	p.next()
+	y := p.parseExpr()
+	return &ast.ConcatExpr{
+		X:     x,
+		OpPos: opPos,
+		Y:     y,
+	}
+}
+
 func (p *parser) parseIdent() *ast.Ident {
 	pos := p.pos
 	name := "_"
@@ -762,7 +768,7 @@ func (p *parser) parseBibDecl() *ast.BibDecl {
 			p.next()
 			var val ast.Expr
 			if key.Name == "url" && p.tok.IsStringLiteral() {
-				val = p.parseURLStringLiteral()
+				val = p.parseConcat(p.parseURLStringLiteral())
 			} else {
 				val = p.parseExpr()
 			}
-- 
2.43.0


From fda0fcbdd6926af6e5d8df24beb8a1e6c59cf579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:24 +0000
Subject: [PATCH 11/26] fix: scanner: a brace after '#' or '(' opens a string

---
 scanner/scanner.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index c52ce5f..3099498 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -548,7 +548,9 @@ func (s *Scanner) Scan() (pos gotok.Pos, tok token.Token, lit string) {
 			// a brace string. If preceded by '=', it's a string for a tag. If
 			// preceded by an LBrace, it's a value in a block like:
 			//   @preamble { {foo} }
-			if s.prev == token.Assign || s.prev == token.LBrace {
+			// The same goes for LParen and for an operand of a concatenation.
+			if s.prev == token.Assign || s.prev == token.LBrace ||
+				s.prev == token.LParen || s.prev == token.Concat {
 				if s.mode&ScanStrings != 0 {
 					s.endQuoteCh = '}'
 					tok = token.StringLBrace
-- 
2.43.0


From 657aff61d5adb55ceb8ef6a47fe97cdf0cd13fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:25 +0000
Subject: [PATCH 12/26] fix: scanner: allow a comment between '=' and a brace
 string

---
 scanner/scanner.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index 3099498..90344de 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -583,6 +583,8 @@ func (s *Scanner) Scan() (pos gotok.Pos, tok token.Token, lit string) {
 		}
 	}
 
-	s.prev = tok
+	if tok != token.TexComment {
+		s.prev = tok // a comment doesn't change the meaning of a brace
+	}
 	return
 }
-- 
2.43.0


From fc3bd9a1fc3783dfd646d1441e8a45b43cc57c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:22 +0000
Subject: [PATCH 13/26] fix: parser: ParseExpr returns an error instead of
 panicking on many errors

---
 parser/interface.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/parser/interface.go b/parser/interface.go
index 02ef814..3676036 100644
--- a/parser/interface.go
+++ b/parser/interface.go
@@ -107,20 +107,27 @@ func ParseFile(fset *gotok.FileSet, filename string, src interface{}, mode Mode)
 	return
 }
 
-func ParseExpr(str string) (ast.Expr, error) {
+func ParseExpr(str string) (expr ast.Expr, err error) {
 	fset := gotok.NewFileSet()
 	// use '=' to trick parser into treating '{' as a string
 	src := []byte("=" + str)
 	var p parser
+	defer func() {
+		if e := recover(); e != nil {
+			// resume same panic if it's not a bailout
+			if _, ok := e.(bailout); !ok {
+				panic(e)
+			}
+		}
+		p.errors.Sort()
+		if err = p.errors.Err(); err != nil {
+			expr = nil
+		}
+	}()
 	p.init(fset, "", src, ParseStrings)
 	p.next() // consume the '='
-	expr := p.parseExpr()
-	p.errors.Sort()
-	err := p.errors.Err()
-	if err != nil {
-		return nil, err
-	}
-	return expr, nil
+	expr = p.parseExpr()
+	return
 }
 
 // ParsePackage calls ParseFile for all files specified by paths.
-- 
2.43.0


From 5af7c89d7e2e3b0ce87a3b6a9dfa5eb6ebfa9a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:23 +0000
Subject: [PATCH 14/26] fix: parser: keep the parsed declarations when stopping
 after too many errors

---
 parser/interface.go | 12 +++++++-----
 parser/parser.go    |  7 ++++---
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/parser/interface.go b/parser/interface.go
index 3676036..c625f0c 100644
--- a/parser/interface.go
+++ b/parser/interface.go
@@ -87,12 +87,14 @@ func ParseFile(fset *gotok.FileSet, filename string, src interface{}, mode Mode)
 
 		// set result values
 		if f == nil {
-			// source is not a valid bibtex source file - satisfy
-			// ParseFile API and return a valid (but) empty
-			// *ast.File
+			// source is not a valid bibtex source file or has too many
+			// errors - satisfy ParseFile API and return a valid
+			// *ast.File with the declarations parsed so far, if any
 			f = &ast.File{
-				Name:  filename,
-				Scope: ast.NewScope(nil),
+				Name:     filename,
+				Entries:  p.decls,
+				Scope:    ast.NewScope(nil),
+				Comments: p.comments,
 			}
 		}
 
diff --git a/parser/parser.go b/parser/parser.go
index fbd05a1..9e74be3 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -39,6 +39,8 @@ type parser struct {
 	syncPos gotok.Pos // last synchronization position
 	syncCnt int       // number of parser.advance calls without progress
 
+	decls []ast.Decl // declarations parsed so far
+
 	// Ordinary cite key scopes
 	pkgScope   *ast.Scope   // pkgScope.Outer == nil
 	topScope   *ast.Scope   // top-most scope; may be pkgScope
@@ -846,9 +848,8 @@ func (p *parser) parseFile() *ast.File {
 
 	p.openScope()
 	p.pkgScope = p.topScope
-	var decls []ast.Decl
 	for p.tok != token.EOF && p.tok != token.Illegal {
-		decls = append(decls, p.parseDecl())
+		p.decls = append(p.decls, p.parseDecl())
 	}
 	p.closeScope()
 	assert(p.topScope == nil, "unbalanced scopes")
@@ -867,7 +868,7 @@ func (p *parser) parseFile() *ast.File {
 
 	return &ast.File{
 		Doc:        doc,
-		Entries:    decls,
+		Entries:    p.decls,
 		Scope:      p.pkgScope,
 		Unresolved: p.unresolved[0:i],
 		Comments:   p.comments,
-- 
2.43.0


From 8b132d571417ed836c9e70a2583343b4bfce0ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:24 +0000
Subject: [PATCH 15/26] fix: parser: set the name of a parsed file

---
 parser/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/parser.go b/parser/parser.go
index 9e74be3..d1a6224 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -867,6 +867,7 @@ func (p *parser) parseFile() *ast.File {
 	}
 
 	return &ast.File{
+		Name:       p.file.Name(),
 		Doc:        doc,
 		Entries:    p.decls,
 		Scope:      p.pkgScope,
-- 
2.43.0


From 78f9b9a3b217e5eca7b19497a1a241bb13277457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:25 +0000
Subject: [PATCH 16/26] fix: parser: ParsePackage no longer writes to a nil map

---
 parser/interface.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/interface.go b/parser/interface.go
index c625f0c..30fe576 100644
--- a/parser/interface.go
+++ b/parser/interface.go
@@ -140,7 +140,7 @@ func ParseExpr(str string) (expr ast.Expr, err error) {
 // encountered are returned.
 func ParsePackage(paths []string, mode Mode) (pkg *ast.Package, first error) {
 	fset := gotok.NewFileSet()
-	pkg = &ast.Package{}
+	pkg = &ast.Package{Files: make(map[string]*ast.File, len(paths))}
 	for _, filename := range paths {
 		if src, err := ParseFile(fset, filename, nil, mode); err == nil {
 			pkg.Files[filename] = src
-- 
2.43.0


From 215c3260b40cb72daa1da202f0eba8f38b2cc3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:26 +0000
Subject: [PATCH 17/26] fix: ast: Walk visits tag values and abbreviations

---
 ast/walk.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ast/walk.go b/ast/walk.go
index 46756a2..e574419 100644
--- a/ast/walk.go
+++ b/ast/walk.go
@@ -80,6 +80,18 @@ func walkHelper(n Node, walker Walker) (WalkStatus, error) {
 					return st, err
 				}
 			}
+		case *AbbrevDecl:
+			if t.Tag != nil {
+				if st, err := walkHelper(t.Tag, walker); st == WalkStop || err != nil {
+					return st, err
+				}
+			}
+		case *TagStmt:
+			if t.Value != nil {
+				if st, err := walkHelper(t.Value, walker); st == WalkStop || err != nil {
+					return st, err
+				}
+			}
 		case *PreambleDecl:
 			if st, err := walkHelper(t.Text, walker); st == WalkStop || err != nil {
 				return st, err
-- 
2.43.0


From 6c1db02f2cfa2aef23a54d49d5f21ac1d03f7eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:26 +0000
Subject: [PATCH 18/26] fix: render: default renderers write each piece once
 and do not panic on text

---
 render/render.go | 61 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 48 insertions(+), 13 deletions(-)

diff --git a/render/render.go b/render/render.go
index 3774dca..28a6e8b 100644
--- a/render/render.go
+++ b/render/render.go
@@ -60,7 +60,10 @@ func renderBadExpr(io.Writer, ast.Node, bool) (ast.WalkStatus, error) {
 	return ast.WalkStop, fmt.Errorf("render bad expr")
 }
 
-func renderIdent(w io.Writer, n ast.Node, _ bool) (ast.WalkStatus, error) {
+func renderIdent(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error) {
+	if !entering {
+		return ast.WalkContinue, nil
+	}
 	ident := n.(*ast.Ident)
 	_, _ = w.Write([]byte(ident.Name))
 	return ast.WalkContinue, nil
@@ -100,22 +103,42 @@ func renderParsedText(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, e
 	return ast.WalkContinue, nil
 }
 
-func renderText(w io.Writer, n ast.Node, _ bool) (ast.WalkStatus, error) {
-	txt := n.(*ast.TextSpace)
-	if _, err := w.Write([]byte(txt.Value)); err != nil {
+func renderText(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error) {
+	if !entering {
+		return ast.WalkContinue, nil
+	}
+	var val string
+	switch t := n.(type) {
+	case *ast.Text:
+		val = t.Value
+	case *ast.TextAccent:
+		// TextAccent is also of kind KindText.
+		r, err := RenderAccent(t.Accent, t.Text.Value)
+		if err != nil {
+			return ast.WalkStop, fmt.Errorf("default renderText accent: %w", err)
+		}
+		val = string(r)
+	}
+	if _, err := w.Write([]byte(val)); err != nil {
 		return ast.WalkStop, fmt.Errorf("default renderText: %w", err)
 	}
 	return ast.WalkContinue, nil
 }
 
-func renderTextComma(w io.Writer, _ ast.Node, _ bool) (ast.WalkStatus, error) {
+func renderTextComma(w io.Writer, _ ast.Node, entering bool) (ast.WalkStatus, error) {
+	if !entering {
+		return ast.WalkContinue, nil
+	}
 	if _, err := w.Write([]byte(",")); err != nil {
 		return ast.WalkStop, fmt.Errorf("default renderTextComma: %w", err)
 	}
 	return ast.WalkContinue, nil
 }
 
-func renderTextEscaped(w io.Writer, n ast.Node, _ bool) (ast.WalkStatus, error) {
+func renderTextEscaped(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error) {
+	if !entering {
+		return ast.WalkContinue, nil
+	}
 	esc := n.(*ast.TextEscaped)
 	if _, err := w.Write([]byte(`\` + esc.Value)); err != nil {
 		return ast.WalkStop, fmt.Errorf("default renderTextEscaped: %w", err)
@@ -123,16 +146,19 @@ func renderTextEscaped(w io.Writer, n ast.Node, _ bool) (ast.WalkStatus, error)
 	return ast.WalkContinue, nil
 }
 
-func renderTextHyphen(w io.Writer, _ ast.Node, _ bool) (ast.WalkStatus, error) {
+func renderTextHyphen(w io.Writer, _ ast.Node, entering bool) (ast.WalkStatus, error) {
+	if !entering {
+		return ast.WalkContinue, nil
+	}
 	if _, err := w.Write([]byte("-")); err != nil {
 		return ast.WalkStop, fmt.Errorf("default renderTextHyphen: %w", err)
 	}
 	return ast.WalkContinue, nil
 }
 
-func renderTextMath(w io.Writer, _ ast.Node, entering bool) (ast.WalkStatus, error) {
+func renderTextMath(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error) {
 	if entering {
-		if _, err := w.Write([]byte("$")); err != nil {
+		if _, err := w.Write([]byte("$" + n.(*ast.TextMath).Value)); err != nil {
 			return ast.WalkStop, fmt.Errorf("default renderTextMath left: %w", err)
 		}
 	} else {
@@ -143,16 +169,25 @@ func renderTextMath(w io.Writer, _ ast.Node, entering bool) (ast.WalkStatus, err
 	return ast.WalkContinue, nil
 }
 
-func renderTextNBSP(w io.Writer, _ ast.Node, _ bool) (ast.WalkStatus, error) {
+func renderTextNBSP(w io.Writer, _ ast.Node, entering bool) (ast.WalkStatus, error) {
+	if !entering {
+		return ast.WalkContinue, nil
+	}
 	if _, err := w.Write([]byte(" ")); err != nil {
 		return ast.WalkStop, fmt.Errorf("default renderTextNBSP: %w", err)
 	}
 	return ast.WalkContinue, nil
 }
 
-func renderTextSpace(w io.Writer, n ast.Node, _ bool) (ast.WalkStatus, error) {
-	sp := n.(*ast.TextSpace)
-	if _, err := w.Write([]byte(sp.Value)); err != nil {
+func renderTextSpace(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error) {
+	if !entering {
+		return ast.WalkContinue, nil
+	}
+	val := n.(*ast.TextSpace).Value
+	if val == "" {
+		val = " " // the parser doesn't record the whitespace
+	}
+	if _, err := w.Write([]byte(val)); err != nil {
 		return ast.WalkStop, fmt.Errorf("default renderTextSpace: %w", err)
 	}
 	return ast.WalkContinue, nil
-- 
2.43.0


From 19e86813ed7e086afcb1d2030e2ba9c8b70419d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:27 +0000
Subject: [PATCH 19/26] fix: scanner: a macro name ends at the first non-letter
 and may begin with c

---
 scanner/scanner.go | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index 90344de..cdf27d0 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -308,8 +308,12 @@ func (s *Scanner) scanStringEscape() (token.Token, string) {
 		// a single non-alphabetical character
 		s.next()
 		return token.StringBackslash, string(s.src[offs:s.offset])
+	case rune(token.AccentCedilla):
+		if s.isMacroName() {
+			break // like \cite
+		}
+		return s.scanSpecialCharStringAccent()
 	case rune(token.AccentAcute),
-		rune(token.AccentCedilla),
 		rune(token.AccentCircumflex),
 		rune(token.AccentDot),
 		rune(token.AccentGrave),
@@ -324,24 +328,24 @@ func (s *Scanner) scanStringEscape() (token.Token, string) {
 
 	// It must be a macro made up of ascii letters.
 	lo := s.offset
-	for !s.isSpecialStringChar(s.ch) && s.ch != 0 {
+	for IsAsciiLetter(s.ch) {
 		s.next()
 	}
 	name := string(s.src[lo:s.offset])
 	if len(name) == 0 {
-		s.error(offs, "expected macro name after backslash, got nothing")
-		return token.Illegal, string(s.src[offs : s.offset-1])
-	}
-	// Check that it's only ascii letters.
-	for _, c := range name {
-		if !IsAsciiLetter(c) {
-			s.errorf(offs, "expected command name to only contain ascii letters, got %q", name)
-			return token.Illegal, string(s.src[offs : s.offset-1])
-		}
+		s.errorf(offs, "expected macro name of ascii letters after backslash, got %q", s.ch)
+		return token.Illegal, string(s.src[offs:s.offset])
 	}
 	return token.StringMacro, name
 }
 
+// isMacroName returns true if the current letter begins a macro name of more
+// than two letters instead of the accent \c applied to a letter, like \cc.
+func (s *Scanner) isMacroName() bool {
+	rest := s.src[s.rdOffset:]
+	return len(rest) >= 2 && IsAsciiLetter(rune(rest[0])) && IsAsciiLetter(rune(rest[1]))
+}
+
 // scanSpecialCharStringAccent scans a string that begins with a backslash
 // followed by a special char like \'o, \'{o} or \^{o}.
 func (s *Scanner) scanSpecialCharStringAccent() (token.Token, string) {
-- 
2.43.0


From 8b01ab88941e6342108031c19c7dcc388867d24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:28 +0000
Subject: [PATCH 20/26] fix: parser: keep ties and commas of a braced url,
 match the url tag in any case

---
 parser/parser.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index d1a6224..68a9786 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -727,10 +727,15 @@ func fixUpFields(tag string, val ast.Expr) ast.Expr {
 		sb := strings.Builder{}
 		sb.Grow(32)
 		for _, child := range txt.Values {
-			if cTxt, ok := child.(*ast.Text); !ok {
+			switch c := child.(type) {
+			case *ast.Text:
+				sb.WriteString(c.Value)
+			case *ast.TextNBSP:
+				sb.WriteString("~")
+			case *ast.TextComma:
+				sb.WriteString(",")
+			default:
 				return val
-			} else {
-				sb.WriteString(cTxt.Value)
 			}
 		}
 		return &ast.ParsedText{
@@ -769,12 +774,12 @@ func (p *parser) parseBibDecl() *ast.BibDecl {
 			}
 			p.next()
 			var val ast.Expr
-			if key.Name == "url" && p.tok.IsStringLiteral() {
+			if strings.ToLower(key.Name) == "url" && p.tok.IsStringLiteral() {
 				val = p.parseConcat(p.parseURLStringLiteral())
 			} else {
 				val = p.parseExpr()
 			}
-			fixVal := fixUpFields(key.Name, val)
+			fixVal := fixUpFields(strings.ToLower(key.Name), val)
 			tag := &ast.TagStmt{
 				Doc:     doc,
 				NamePos: key.Pos(),
-- 
2.43.0


From e2fab4f10255fc729fcb1e375637e97de33c5940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:29 +0000
Subject: [PATCH 21/26] fix: parser: record the position of closers, accents
 and url arguments themselves

---
 parser/parser.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 68a9786..903300f 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -401,6 +401,7 @@ func (p *parser) parseMacroURL(name string) ast.Expr {
 	urlCmd := &ast.TextMacro{Cmd: p.pos, Name: name}
 	p.next()
 	p.expect(token.StringLBrace)
+	pos := p.pos
 	sb := strings.Builder{}
 	sb.Grow(32)
 	for p.tok != token.StringRBrace && p.tok != token.StringSpace && p.tok != token.EOF {
@@ -408,16 +409,15 @@ func (p *parser) parseMacroURL(name string) ast.Expr {
 		p.next()
 	}
 	urlCmd.Values = []ast.Expr{
-		&ast.Text{ValuePos: p.pos, Value: sb.String()},
+		&ast.Text{ValuePos: pos, Value: sb.String()},
 	}
 	if p.tok == token.StringSpace {
 		p.next()
 	}
 	urlCmd.RBrace = p.pos
 
-	pos := p.pos
 	if p.tok != token.StringRBrace {
-		p.errorExpected(pos, "'"+token.StringRBrace.String()+"'")
+		p.errorExpected(p.pos, "'"+token.StringRBrace.String()+"'")
 	}
 	return urlCmd
 }
@@ -461,13 +461,14 @@ func (p *parser) parseText(depth int) (txt ast.Expr) {
 			}
 			values = append(values, text)
 		}
+		closer := p.pos
 		p.next() // consume closing '}'
 		return &ast.ParsedText{
 			Depth:  depth,
 			Opener: opener,
 			Delim:  ast.BraceDelimiter,
 			Values: values,
-			Closer: p.pos,
+			Closer: closer,
 		}
 	case token.StringAccent:
 		return p.parseStringAccent()
@@ -493,13 +494,14 @@ func (p *parser) parseStringLiteral() ast.Expr {
 			}
 			values = append(values, p.parseText(1))
 		}
+		closer := p.pos
 		p.next() // consume closing '"'
 		txt := &ast.ParsedText{
 			Opener: pos,
 			Depth:  0,
 			Delim:  ast.QuoteDelimiter,
 			Values: values,
-			Closer: p.pos,
+			Closer: closer,
 		}
 		return txt
 
@@ -527,13 +529,13 @@ func (p *parser) parseURLStringLiteral() ast.Expr {
 		if p.tok == token.StringMacro {
 			url := p.parseMacroURL(p.lit)
 			p.expect(token.StringRBrace)
-			p.expect(token.DoubleQuote)
+			closer := p.expect(token.DoubleQuote)
 			return &ast.ParsedText{
 				Opener: pos,
 				Depth:  0,
 				Delim:  ast.QuoteDelimiter,
 				Values: []ast.Expr{url},
-				Closer: p.pos,
+				Closer: closer,
 			}
 		}
 
@@ -639,7 +641,7 @@ func (p *parser) parseTagStmt() *ast.TagStmt {
 }
 
 func (p *parser) parseStringAccent() ast.Expr {
-	lit := p.lit
+	pos, lit := p.pos, p.lit
 	p.next()
 	if len(lit) <= 2 {
 		p.error(p.pos, "invalid accent string")
@@ -654,10 +656,10 @@ func (p *parser) parseStringAccent() ast.Expr {
 		value = value[1 : len(value)-1]
 	}
 	return &ast.TextAccent{
-		ValuePos: p.pos,
+		ValuePos: pos,
 		Accent:   token.Accent(lit[1]),
 		Text: &ast.Text{
-			ValuePos: p.pos + 2,
+			ValuePos: pos + 2,
 			Value:    value,
 		},
 	}
-- 
2.43.0


From c04a9c8f513d427ab97dc7558307075aaefe2cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:50 +0000
Subject: [PATCH 22/26] fix: authors: split names at whole words, keep suffixes
 and every word, no panics

Words were cut apart at accents and braces, words after the first of a
suffix or after a lowercase given name were lost, and macros or invalid
accents panicked.
---
 author.go | 303 ++++++++++++++++++++++++------------------------------
 1 file changed, 136 insertions(+), 167 deletions(-)

diff --git a/author.go b/author.go
index 8582785..b5ebaa9 100644
--- a/author.go
+++ b/author.go
@@ -19,22 +19,25 @@ func ExtractAuthors(txt *ast.ParsedText) (ast.Authors, error) {
 	// to extractAuthor to get the Author.
 	authors := make([]*ast.Author, 0, 4)
 	aExprs := make([]ast.Expr, 0, 8)
-	for _, v := range txt.Values {
-		switch t := v.(type) {
-		case *ast.Text:
-			if t.Value == authorSep {
-				a := extractAuthor(aExprs)
-				if a.IsEmpty() {
-					return nil, fmt.Errorf("found an empty author")
-				}
-				authors = append(authors, a)
-				aExprs = aExprs[:0]
-				continue
+	for i, v := range txt.Values {
+		if isAuthorSep(i, txt.Values) {
+			a, err := extractAuthor(aExprs)
+			if err != nil {
+				return nil, err
 			}
+			if a.IsEmpty() {
+				return nil, fmt.Errorf("found an empty author")
+			}
+			authors = append(authors, a)
+			aExprs = aExprs[:0]
+			continue
 		}
 		aExprs = append(aExprs, v)
 	}
-	final := extractAuthor(aExprs)
+	final, err := extractAuthor(aExprs)
+	if err != nil {
+		return nil, err
+	}
 	if final.IsEmpty() {
 		return nil, fmt.Errorf("found an empty author")
 	}
@@ -42,29 +45,42 @@ func ExtractAuthors(txt *ast.ParsedText) (ast.Authors, error) {
 	return authors, nil
 }
 
+// isAuthorSep returns true if the expression at idx is the author separator
+// and a whole word, not the rest of a word like "and" in "{B}and".
+func isAuthorSep(idx int, xs []ast.Expr) bool {
+	t, ok := xs[idx].(*ast.Text)
+	return ok && t.Value == authorSep &&
+		(idx == 0 || isWordBreak(xs[idx-1])) &&
+		(idx == len(xs)-1 || isWordBreak(xs[idx+1]))
+}
+
+// isNameSpace returns true if the expression separates words of a name.
+func isNameSpace(x ast.Expr) bool {
+	switch x.(type) {
+	case *ast.TextSpace, *ast.TextNBSP:
+		return true
+	default:
+		return false
+	}
+}
+
+func isWordBreak(x ast.Expr) bool {
+	_, isComma := x.(*ast.TextComma)
+	return isComma || isNameSpace(x)
+}
+
 func trimSpaces(xs []ast.Expr) []ast.Expr {
 	lo, hi := 0, len(xs)
-
-	for i := 0; i < len(xs); i++ {
-		if _, ok := xs[i].(*ast.TextSpace); !ok {
-			break
-		}
+	for lo < hi && isNameSpace(xs[lo]) {
 		lo++
 	}
-
-	for i := len(xs) - 1; i >= 0; i-- {
-		if _, ok := xs[i].(*ast.TextSpace); !ok {
-			break
-		}
+	for lo < hi && isNameSpace(xs[hi-1]) {
 		hi--
 	}
-	if hi <= lo {
-		return xs[lo:lo]
-	}
 	return xs[lo:hi]
 }
 
-func extractAuthor(xs []ast.Expr) *ast.Author {
+func extractAuthor(xs []ast.Expr) (*ast.Author, error) {
 	xs = trimSpaces(xs)
 	commas := findCommas(xs)
 	if len(commas) == 0 {
@@ -74,135 +90,132 @@ func extractAuthor(xs []ast.Expr) *ast.Author {
 	}
 }
 
-type resolveAction int
-
-const (
-	resolveContinue resolveAction = iota
-	resolveNextPart
-)
-
-func parseFirstName(idx int, xs []ast.Expr) (string, resolveAction) {
-	x := xs[idx]
-	if _, ok := x.(*ast.TextSpace); ok && idx < len(xs)-1 {
-		if t, ok := xs[idx+1].(*ast.Text); ok && !hasUpperPrefix(t.Value) {
-			// lowercase after space means we're out of the first name
-			return "", resolveNextPart
-		}
-	}
-
-	if _, ok := x.(*ast.Text); !ok {
-		return parseDefault(idx, xs), resolveContinue
-	}
-
-	t := x.(*ast.Text)
-
-	return t.Value, resolveContinue
-}
-
 func hasUpperPrefix(s string) bool {
 	r, _ := utf8.DecodeRuneInString(s)
 	return unicode.IsUpper(r)
 }
 
-func parsePrefixName(idx int, xs []ast.Expr) (string, resolveAction) {
-	x := xs[idx]
-	if _, ok := x.(*ast.Text); !ok {
-		return parseDefault(idx, xs), resolveContinue
+// startsLower returns true if x is the start of a lowercase word. The case of a
+// braced word doesn't count unless the word starts with an accent.
+func startsLower(x ast.Expr) bool {
+	switch t := x.(type) {
+	case *ast.Text:
+		return !hasUpperPrefix(t.Value)
+	case *ast.TextAccent:
+		return !hasUpperPrefix(t.Text.Value)
+	case *ast.ParsedText:
+		if len(t.Values) == 0 {
+			return false
+		}
+		acc, ok := t.Values[0].(*ast.TextAccent)
+		return ok && startsLower(acc)
+	default:
+		return false
 	}
+}
 
-	t := x.(*ast.Text)
-	if hasUpperPrefix(t.Value) {
-		return "", resolveNextPart // Only lowercase goes in prefix
+// wordStarts returns the offsets of the first expression of every word in xs.
+func wordStarts(xs []ast.Expr) []int {
+	starts := make([]int, 0, 4)
+	for i, x := range xs {
+		if !isNameSpace(x) && (i == 0 || isNameSpace(xs[i-1])) {
+			starts = append(starts, i)
+		}
 	}
-	return t.Value, resolveContinue
+	return starts
 }
 
-func parseLastName(idx int, xs []ast.Expr) (string, resolveAction) {
-	return parseDefault(idx, xs), resolveContinue
+// flatten returns the text of xs without surrounding whitespace.
+func flatten(xs []ast.Expr) (string, error) {
+	sb := strings.Builder{}
+	sb.Grow(16)
+	for _, x := range xs {
+		if err := writeDefault(&sb, x); err != nil {
+			return "", err
+		}
+	}
+	return strings.TrimSpace(sb.String()), nil
 }
 
 // TODO: replace with single resolver
-func parseDefault(idx int, xs []ast.Expr) string {
-	x := xs[idx]
+func writeDefault(sb *strings.Builder, x ast.Expr) error {
 	switch t := x.(type) {
 	case *ast.ParsedText:
-		sb := strings.Builder{}
-		sb.Grow(16)
-		for i := range t.Values {
-			d := parseDefault(i, t.Values)
-			sb.WriteString(d)
+		for _, v := range t.Values {
+			if err := writeDefault(sb, v); err != nil {
+				return err
+			}
+		}
+	case *ast.TextMacro:
+		for _, v := range t.Values {
+			if err := writeDefault(sb, v); err != nil {
+				return err
+			}
 		}
-		return sb.String()
 	case *ast.TextComma:
-		return ","
+		sb.WriteString(",")
 	case *ast.TextEscaped:
-		return `\` + t.Value
+		sb.WriteString(`\\` + t.Value)
 	case *ast.TextHyphen:
-		return "-"
+		sb.WriteString("-")
 	case *ast.TextNBSP, *ast.TextSpace:
-		return " "
+		sb.WriteString(" ")
 	case *ast.TextMath:
-		return "$" + t.Value + "$"
+		sb.WriteString("$" + t.Value + "$")
 	case *ast.Text:
-		return t.Value
+		sb.WriteString(t.Value)
 	case *ast.TextAccent:
 		r, err := render.RenderAccent(t.Accent, t.Text.Value)
 		if err != nil {
-			panic("cannot render accent")
+			return fmt.Errorf("extract author: %w", err)
 		}
-		return string(r)
+		sb.WriteRune(r)
 	default:
-		panic("unhandled ast.Expr value")
+		return fmt.Errorf("extract author: unhandled expression %T", x)
 	}
+	return nil
 }
 
-// resolveAuthor0 resolves an author for an entry with no commas, like
-// "First von Last".
-func resolveAuthor0(xs []ast.Expr) *ast.Author {
-	first := strings.Builder{}
-	first.Grow(16)
-	idx := 0
-	for ; idx < len(xs); idx++ {
-		if idx == len(xs)-1 {
-			// If we're on the last part, it belongs to the last name.
-			break
-		}
-		val, action := parseFirstName(idx, xs)
-		if action == resolveNextPart {
-			break
+// newAuthorParts builds an author from the expressions of each name part.
+func newAuthorParts(first, prefix, last, suffix []ast.Expr) (*ast.Author, error) {
+	texts := [4]*ast.Text{}
+	for i, xs := range [4][]ast.Expr{first, prefix, last, suffix} {
+		s, err := flatten(xs)
+		if err != nil {
+			return nil, err
 		}
-		first.WriteString(val)
+		texts[i] = &ast.Text{Value: s}
 	}
+	return &ast.Author{First: texts[0], Prefix: texts[1], Last: texts[2], Suffix: texts[3]}, nil
+}
 
-	prefix := strings.Builder{}
-	for ; idx < len(xs); idx++ {
-		if idx == len(xs)-1 {
-			// If we're on the last part, it belongs to the last name.
-			break
-		}
-		val, action := parsePrefixName(idx, xs)
-		if action == resolveNextPart {
-			break
+// splitPrefix splits off the leading lowercase words of xs. The last word is
+// never part of the prefix.
+func splitPrefix(xs []ast.Expr) (prefix, last []ast.Expr) {
+	starts := wordStarts(xs)
+	for i, start := range starts {
+		if i == len(starts)-1 || !startsLower(xs[start]) {
+			return xs[:start], xs[start:]
 		}
-		prefix.WriteString(val)
 	}
+	return nil, xs
+}
 
-	last := strings.Builder{}
-	last.Grow(16)
-	for ; idx < len(xs); idx++ {
-		val, action := parseLastName(idx, xs)
-		if action == resolveNextPart {
+// resolveAuthor0 resolves an author for an entry with no commas, like
+// "First von Last".
+func resolveAuthor0(xs []ast.Expr) (*ast.Author, error) {
+	// The first name extends to the first lowercase word after it. The last word
+	// always belongs to the last name.
+	end := 0
+	starts := wordStarts(xs)
+	for i, start := range starts {
+		end = start
+		if i == len(starts)-1 || (i > 0 && startsLower(xs[start])) {
 			break
 		}
-		last.WriteString(val)
-	}
-
-	return &ast.Author{
-		First:  &ast.Text{Value: strings.TrimSpace(first.String())},
-		Prefix: &ast.Text{Value: strings.TrimSpace(prefix.String())},
-		Last:   &ast.Text{Value: strings.TrimSpace(last.String())},
-		Suffix: &ast.Text{Value: ""},
 	}
+	prefix, last := splitPrefix(xs[end:])
+	return newAuthorParts(xs[:end], prefix, last, nil)
 }
 
 // resolveAuthorN resolves an author entry that contains 1 or more commas.
@@ -211,59 +224,15 @@ func resolveAuthor0(xs []ast.Expr) *ast.Author {
 //	1 comma:  von last, first         => Author(first, von, last, "")
 //	2 commas: last, suffix, first     => Author{first, "",  last, suffix}
 //	2 commas: von last, suffix, first => Author{first, von, last, suffix}
-func resolveAuthorN(xs []ast.Expr, commas []int) *ast.Author {
-	part1 := xs[:commas[0]]
-	idx1 := 0
-	prefix := strings.Builder{}
-	for ; idx1 < len(part1); idx1++ {
-		if idx1 == len(part1)-1 {
-			// If we're on the last part, it belongs to the last name.
-			break
-		}
-		val, action := parsePrefixName(idx1, part1)
-		if action == resolveNextPart {
-			break
-		}
-		prefix.WriteString(val)
-	}
-
-	last := strings.Builder{}
-	last.Grow(16)
-	for ; idx1 < len(part1); idx1++ {
-		val, action := parseLastName(idx1, part1)
-		if action == resolveNextPart {
-			break
-		}
-		last.WriteString(val)
-	}
-
-	part2 := xs[commas[0]+1:]
-
-	suffix := strings.Builder{}
-	suffix.Grow(16)
+func resolveAuthorN(xs []ast.Expr, commas []int) (*ast.Author, error) {
+	prefix, last := splitPrefix(xs[:commas[0]])
+	first := xs[commas[0]+1:]
+	var suffix []ast.Expr
 	if len(commas) > 1 {
-		val := parseDefault(0, xs[commas[0]+1:])
-		suffix.WriteString(val)
-		part2 = xs[commas[1]+1:]
-	}
-
-	idx2 := 0
-	first := strings.Builder{}
-	first.Grow(16)
-	for ; idx2 < len(part2); idx2++ {
-		val, action := parseFirstName(idx2, part2)
-		if action == resolveNextPart {
-			break
-		}
-		first.WriteString(val)
-	}
-
-	return &ast.Author{
-		First:  &ast.Text{Value: strings.TrimSpace(first.String())},
-		Prefix: &ast.Text{Value: strings.TrimSpace(prefix.String())},
-		Last:   &ast.Text{Value: strings.TrimSpace(last.String())},
-		Suffix: &ast.Text{Value: strings.TrimSpace(suffix.String())},
+		suffix = xs[commas[0]+1 : commas[1]]
+		first = xs[commas[1]+1:]
 	}
+	return newAuthorParts(first, prefix, last, suffix)
 }
 
 // findCommas returns the offsets of all commas in xs. Only searches
-- 
2.43.0


From c40c48d17a7bb58beb7d129e202733dedc1a9d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:33 +0000
Subject: [PATCH 23/26] fix: parser: keep every piece of a url

A quoted url tag lost whitespace, nested braces and math, and was rejected if
anything followed a leading macro. The argument of \url and \href lost braces,
math delimiters and backslashes.
---
 parser/parser.go | 121 +++++++++++++++++++++++------------------------
 1 file changed, 58 insertions(+), 63 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 903300f..c86c856 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -404,8 +404,30 @@ func (p *parser) parseMacroURL(name string) ast.Expr {
 	pos := p.pos
 	sb := strings.Builder{}
 	sb.Grow(32)
-	for p.tok != token.StringRBrace && p.tok != token.StringSpace && p.tok != token.EOF {
-		sb.WriteString(p.lit)
+	depth := 0 // of braces inside the url
+	for p.tok != token.StringSpace && p.tok != token.EOF {
+		switch p.tok {
+		case token.StringLBrace:
+			depth++
+			sb.WriteString("{")
+		case token.StringRBrace:
+			depth--
+			if depth >= 0 {
+				sb.WriteString("}")
+			}
+		case token.StringMath:
+			sb.WriteString("$" + p.lit + "$")
+		case token.StringMacro:
+			if !strings.HasPrefix(p.lit, `\`) { // like \, but not \foo
+				sb.WriteString(`\`)
+			}
+			sb.WriteString(p.lit)
+		default:
+			sb.WriteString(p.lit)
+		}
+		if depth < 0 {
+			break
+		}
 		p.next()
 	}
 	urlCmd.Values = []ast.Expr{
@@ -518,54 +540,18 @@ func (p *parser) parseStringLiteral() ast.Expr {
 	}
 }
 
+// parseURLStringLiteral parses the string of a url tag. A plain, quoted url
+// becomes a single text because urls use characters like ~ and commas.
 func (p *parser) parseURLStringLiteral() ast.Expr {
-	sb := strings.Builder{}
-	sb.Grow(32)
-	pos := p.pos
-	switch tok := p.tok; tok {
-	case token.DoubleQuote:
-		p.next()
-
-		if p.tok == token.StringMacro {
-			url := p.parseMacroURL(p.lit)
-			p.expect(token.StringRBrace)
-			closer := p.expect(token.DoubleQuote)
-			return &ast.ParsedText{
-				Opener: pos,
-				Depth:  0,
-				Delim:  ast.QuoteDelimiter,
-				Values: []ast.Expr{url},
-				Closer: closer,
-			}
-		}
-
-		for p.tok != token.DoubleQuote {
-			if p.tok == token.EOF {
-				p.errorExpected(p.pos, "double quote")
-				return &ast.BadExpr{From: pos, To: p.pos}
-			}
-
-			sb.WriteString(p.lit)
-			p.next()
-		}
-		txt := &ast.Text{
-			ValuePos: pos,
-			Value:    sb.String(),
-		}
-		p.expect(token.DoubleQuote)
-		return txt
-
-	case token.StringLBrace:
-		return p.parseText(0)
-
-	default:
-		p.errorExpected(p.pos, "string literal")
-		p.advance(stmtStart)
-		return &ast.BadExpr{
-			From: pos,
-			To:   p.pos,
-		}
+	x := p.parseStringLiteral()
+	txt, ok := x.(*ast.ParsedText)
+	if !ok || txt.Delim != ast.QuoteDelimiter {
+		return x
+	}
+	if url, ok := joinURL(txt.Values); ok {
+		return &ast.Text{ValuePos: txt.Opener, Value: url}
 	}
+	return x
 }
 
 func (p *parser) parseExpr() (x ast.Expr) {
@@ -712,6 +698,26 @@ func (p *parser) parseAbbrevDecl() *ast.AbbrevDecl {
 	}
 }
 
+// joinURL returns the url made up of the pieces xs. Returns false if there's a
+// piece that's not part of a plain url, like whitespace or a macro.
+func joinURL(xs []ast.Expr) (string, bool) {
+	sb := strings.Builder{}
+	sb.Grow(32)
+	for _, x := range xs {
+		switch t := x.(type) {
+		case *ast.Text:
+			sb.WriteString(t.Value)
+		case *ast.TextNBSP:
+			sb.WriteString("~")
+		case *ast.TextComma:
+			sb.WriteString(",")
+		default:
+			return "", false
+		}
+	}
+	return sb.String(), true
+}
+
 // fixUpFields alters val based on tag type. For example, a url tag doesn't
 // follow the normal Bibtex parsing rules because it's usually wrapped in a
 // \url{} macro.
@@ -725,26 +731,15 @@ func fixUpFields(tag string, val ast.Expr) ast.Expr {
 		if !ok || !strings.HasPrefix(child1.Value, "http") {
 			return val
 		}
-		pos := child1.ValuePos
-		sb := strings.Builder{}
-		sb.Grow(32)
-		for _, child := range txt.Values {
-			switch c := child.(type) {
-			case *ast.Text:
-				sb.WriteString(c.Value)
-			case *ast.TextNBSP:
-				sb.WriteString("~")
-			case *ast.TextComma:
-				sb.WriteString(",")
-			default:
-				return val
-			}
+		url, ok := joinURL(txt.Values)
+		if !ok {
+			return val
 		}
 		return &ast.ParsedText{
 			Opener: txt.Opener,
 			Depth:  txt.Depth,
 			Delim:  txt.Delim,
-			Values: []ast.Expr{&ast.Text{ValuePos: pos, Value: sb.String()}},
+			Values: []ast.Expr{&ast.Text{ValuePos: child1.ValuePos, Value: url}},
 			Closer: txt.Closer,
 		}
 	}
-- 
2.43.0


From 99e5d440d880a09cd68943f414efe82adeed1e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:30 +0000
Subject: [PATCH 24/26] fix: authors: an escaped character of a name has one
 backslash

---
 author.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/author.go b/author.go
index b5ebaa9..b2e2ac8 100644
--- a/author.go
+++ b/author.go
@@ -155,7 +155,7 @@ func writeDefault(sb *strings.Builder, x ast.Expr) error {
 	case *ast.TextComma:
 		sb.WriteString(",")
 	case *ast.TextEscaped:
-		sb.WriteString(`\\` + t.Value)
+		sb.WriteString(`\` + t.Value)
 	case *ast.TextHyphen:
 		sb.WriteString("-")
 	case *ast.TextNBSP, *ast.TextSpace:
-- 
2.43.0


From a9e046957ac0c3998ef118f4f9aba900ef6f842a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:53 +0000
Subject: [PATCH 25/26] fix: WithRenderer: a nil renderer is reported as
 missing instead of panicking

---
 bibtex.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bibtex.go b/bibtex.go
index 3fe4700..5f686e8 100644
--- a/bibtex.go
+++ b/bibtex.go
@@ -106,6 +106,10 @@ func WithResolvers(rs ...Resolver) Option {
 // renderer.
 func WithRenderer(kind ast.NodeKind, r render.NodeRendererFunc) Option {
 	return func(b *Biber) {
+		if r == nil {
+			b.renderers[kind] = nil // not an interface holding a nil func
+			return
+		}
 		b.renderers[kind] = r
 	}
 }
-- 
2.43.0


From a887cffa7108a69a7e9f55bfe2c20ddc3dcc9dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:54 +0000
Subject: [PATCH 26/26] fix: render: report write errors of identifiers and
 concatenations

---
 render/render.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/render/render.go b/render/render.go
index 28a6e8b..552fe91 100644
--- a/render/render.go
+++ b/render/render.go
@@ -65,7 +65,9 @@ func renderIdent(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error)
 		return ast.WalkContinue, nil
 	}
 	ident := n.(*ast.Ident)
-	_, _ = w.Write([]byte(ident.Name))
+	if _, err := w.Write([]byte(ident.Name)); err != nil {
+		return ast.WalkStop, fmt.Errorf("default renderIdent: %w", err)
+	}
 	return ast.WalkContinue, nil
 }
 
@@ -254,7 +256,9 @@ func (p TextRenderer) Render(w io.Writer, x ast.Expr) error {
 		if err := p.Render(w, t.X); err != nil {
 			return err
 		}
-		_, _ = w.Write([]byte{'#'})
+		if _, err := w.Write([]byte{'#'}); err != nil {
+			return err
+		}
 		if err := p.Render(w, t.Y); err != nil {
 			return err
 		}
-- 
2.43.0

