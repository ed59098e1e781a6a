From fab9f7f2883cbd4f45ca17859a68e8324c2f45fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:05 +0000
Subject: [PATCH 01/43] fix: parse the right operand of a binary operator with
 the operator's own precedence

---
 parser/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 61eb7f7..6847e00 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -762,6 +762,8 @@ func (p *Parser) parseInfixExp(left ast.Expression) ast.Expression {
 		Left:     left,
 	}
 
+	precedence := precedences[p.curToken.Type]
+
 	p.nextToken() // skip operator
 
 	if p.curTokenIs(token.RBRACES) {
@@ -769,7 +771,7 @@ func (p *Parser) parseInfixExp(left ast.Expression) ast.Expression {
 		return nil
 	}
 
-	exp.Right = p.parseExpression(SUM)
+	exp.Right = p.parseExpression(precedence)
 
 	return exp
 }
-- 
2.43.0


From b3e3486d6546f095a2d7cacb172ab9506cdd14a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:22 +0000
Subject: [PATCH 02/43] fix: parse a complete expression on the right-hand side
 of an assignment

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 6847e00..850209a 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -395,7 +395,7 @@ func (p *Parser) parseAssignStmt() ast.Statement {
 		return nil
 	}
 
-	stmt.Value = p.parseExpression(SUM)
+	stmt.Value = p.parseExpression(LOWEST)
 
 	return stmt
 }
-- 
2.43.0


From 8ce7275c38eae6c3cbd322db741d27860de5efe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:23 +0000
Subject: [PATCH 03/43] fix: report integer modulo by zero as an error instead
 of panicking

---
 evaluator/evaluator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index b4fcc06..0a56d85 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -844,6 +844,10 @@ func (e *Evaluator) evalIntegerInfixExp(
 
 		return &object.Int{Value: leftVal / rightVal}
 	case "%":
+		if rightVal == 0 {
+			return e.newError(leftNode, fail.ErrDivisionByZero)
+		}
+
 		return &object.Int{Value: leftVal % rightVal}
 	case "==":
 		return nativeBoolToBooleanObject(leftVal == rightVal)
-- 
2.43.0


From c2b8c23ff755fa02dc472364f799c8127afb008e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:25 +0000
Subject: [PATCH 04/43] fix: apply ! to every boolean and nil value, not only
 to literals

---
 evaluator/evaluator.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index 0a56d85..938023e 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -946,12 +946,10 @@ func (e *Evaluator) evalBangOperatorExp(
 	right object.Object,
 	node ast.Node,
 ) object.Object {
-	switch right {
-	case FALSE:
-		return TRUE
-	case TRUE:
-		return FALSE
-	case NIL:
+	switch right := right.(type) {
+	case *object.Bool:
+		return nativeBoolToBooleanObject(!right.Value)
+	case *object.Nil:
 		return TRUE
 	}
 
-- 
2.43.0


From 0f78b6f76047fea30c227965f2aac7bdfd75f6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:37 +0000
Subject: [PATCH 05/43] fix: decrement floats below one and negative floats
 correctly

---
 object/float.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/object/float.go b/object/float.go
index 00ae395..206b23e 100644
--- a/object/float.go
+++ b/object/float.go
@@ -34,6 +34,13 @@ func (f *Float) Val() any {
 }
 
 func (f *Float) SubtractFromFloat(num uint) error {
+	// The textual subtraction below works only when
+	// the integer part stays positive
+	if f.Value < float64(num) {
+		f.Value -= float64(num)
+		return nil
+	}
+
 	// Convert the float to a string
 	strValue := strconv.FormatFloat(f.Value, 'f', -1, 64)
 
-- 
2.43.0


From edefe8dbf0638c5ba731eda7b62869fac9f78f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:25 +0000
Subject: [PATCH 06/43] fix: keep '}}' at the start of a text run

---
 lexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 942a59f..2cbc1b1 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -117,7 +117,7 @@ func (l *Lexer) NextToken() token.Token {
 		return tok
 	}
 
-	if l.char == '}' && l.peekChar() == '}' && l.countCurlyBraces == 0 {
+	if !l.isHTML && l.char == '}' && l.peekChar() == '}' && l.countCurlyBraces == 0 {
 		return l.bracesToken(token.RBRACES, "}}")
 	}
 
-- 
2.43.0


From 4f0a6dc0595fda82a6170af1316f8d2f21ca0576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:27 +0000
Subject: [PATCH 07/43] fix: treat both braces after a backslash as text

---
 lexer/lexer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 2cbc1b1..9a3a76b 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -518,6 +518,12 @@ func (l *Lexer) readHTML() string {
 
 		out.WriteByte(l.char)
 		l.readChar()
+
+		// the second brace belongs to the escaped braces
+		if escapedBraces {
+			out.WriteByte(l.char)
+			l.readChar()
+		}
 	}
 
 	return out.String()
-- 
2.43.0


From f98161ab8d45b1fd75bbd777e2e9416af8ee04d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:28 +0000
Subject: [PATCH 08/43] fix: do not treat a NUL byte as the end of the template

---
 lexer/lexer.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 9a3a76b..1215d3b 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -101,7 +101,7 @@ func (l *Lexer) NextToken() token.Token {
 		l.skipWhitespace()
 	}
 
-	if l.char == 0 {
+	if l.isEOF() {
 		l.tokenBegins()
 		return l.newToken(token.EOF, "")
 	}
@@ -450,7 +450,7 @@ func (l *Lexer) readString() string {
 
 	pos := l.pos
 
-	for l.char != 0 {
+	for !l.isEOF() {
 		prevChar := l.char
 
 		l.readChar()
@@ -504,7 +504,7 @@ func (l *Lexer) readHTML() string {
 	var out bytes.Buffer
 	l.tokenBegins()
 
-	for l.isHTML && l.char != 0 {
+	for l.isHTML && !l.isEOF() {
 		isDirective, escapedDir := l.isDirectiveToken()
 		areBraces, escapedBraces := l.areBracesToken()
 
@@ -565,6 +565,12 @@ func (l *Lexer) readChar() {
 	l.shouldResetCol = l.char == '\n'
 }
 
+// isEOF determines if the whole input has been read.
+// A NUL byte inside of the input is not the end of it.
+func (l *Lexer) isEOF() bool {
+	return l.pos >= len(l.input)
+}
+
 func (l *Lexer) peekChar() byte {
 	if l.readPos >= len(l.input) {
 		return 0
@@ -580,7 +586,7 @@ func (l *Lexer) skipWhitespace() {
 }
 
 func (l *Lexer) skipComment() {
-	for l.char != 0 {
+	for !l.isEOF() {
 		if l.char != '-' || l.peekChar() != '-' {
 			l.readChar()
 			continue
-- 
2.43.0


From 6cabbc0fb479806a7ebf5f11b7ccd71db0935152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:43 +0000
Subject: [PATCH 09/43] fix: end a comment only at '--}}' and reject an
 unterminated one

---
 lexer/lexer.go | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 1215d3b..0c26612 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -107,10 +107,14 @@ func (l *Lexer) NextToken() token.Token {
 	}
 
 	if l.char == '{' && l.peekChar() == '{' {
+		pos := l.pos
 		tok := l.bracesToken(token.LBRACES, "{{")
 
 		if l.char == '-' && l.peekChar() == '-' {
-			l.skipComment()
+			if !l.skipComment() {
+				return l.newToken(token.ILLEGAL, l.input[pos:])
+			}
+
 			return l.NextToken()
 		}
 
@@ -585,23 +589,23 @@ func (l *Lexer) skipWhitespace() {
 	}
 }
 
-func (l *Lexer) skipComment() {
-	for !l.isEOF() {
-		if l.char != '-' || l.peekChar() != '-' {
-			l.readChar()
-			continue
-		}
-
-		l.readChar() // skip "-"
-		l.readChar() // skip "-"
+// skipComment moves to the first character after the comment
+// and reports if the comment has the closing "--}}".
+func (l *Lexer) skipComment() bool {
+	for !l.isEOF() && !strings.HasPrefix(l.input[l.pos:], "--}}") {
+		l.readChar()
+	}
 
-		if l.char == '}' || l.peekChar() == '}' {
-			break
-		}
+	if l.isEOF() {
+		return false
 	}
 
 	l.isHTML = true
 
+	l.readChar() // skip "-"
+	l.readChar() // skip "-"
 	l.readChar() // skip "}"
 	l.readChar() // skip "}"
+
+	return true
 }
-- 
2.43.0


From 708d606bcb922100419df5a5bd55822626b4c70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:05 +0000
Subject: [PATCH 10/43] fix: consume illegal characters and always report them
 with their own line

---
 lexer/lexer.go   | 11 ++++++++++-
 parser/parser.go | 13 ++++++++-----
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 0c26612..606cae6 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -3,6 +3,7 @@ package lexer
 import (
 	"bytes"
 	"strings"
+	"unicode/utf8"
 
 	token "github.com/textwire/textwire/v2/token"
 )
@@ -148,7 +149,15 @@ func (l *Lexer) bracesToken(tok token.TokenType, literal string) token.Token {
 
 func (l *Lexer) illegalToken() token.Token {
 	l.tokenBegins()
-	return l.newToken(token.ILLEGAL, string(l.char))
+
+	_, size := utf8.DecodeRuneInString(l.input[l.pos:])
+	literal := l.input[l.pos : l.pos+size]
+
+	for i := 0; i < size; i++ {
+		l.readChar() // skip the illegal character
+	}
+
+	return l.newToken(token.ILLEGAL, literal)
 }
 
 func (l *Lexer) directiveToken() token.Token {
diff --git a/parser/parser.go b/parser/parser.go
index 850209a..c753c8a 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -127,11 +127,6 @@ func (p *Parser) ParseProgram() *ast.Program {
 		stmt := p.parseStatement()
 
 		if p.curTokenIs(token.ILLEGAL) {
-			p.newError(
-				p.curToken.ErrorLine(),
-				fail.ErrIllegalToken,
-				p.curToken.Literal,
-			)
 			return nil
 		}
 
@@ -263,6 +258,14 @@ func (p *Parser) newError(line uint, msg string, args ...any) {
 func (p *Parser) nextToken() {
 	p.curToken = p.peekToken
 	p.peekToken = p.l.NextToken()
+
+	if p.peekTokenIs(token.ILLEGAL) {
+		p.newError(
+			p.peekToken.ErrorLine(),
+			fail.ErrIllegalToken,
+			p.peekToken.Literal,
+		)
+	}
 }
 
 func (p *Parser) parseIdentifier() ast.Expression {
-- 
2.43.0


From 3a3f714fc369d4d6e2aead46c6acaa510b73f0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:17 +0000
Subject: [PATCH 11/43] fix: do not move past the end of input in an
 unterminated string

---
 lexer/lexer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 606cae6..6fea3eb 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -475,7 +475,10 @@ func (l *Lexer) readString() string {
 
 	result = l.input[pos:l.pos]
 
-	l.readChar() // skip the last quote
+	// there is no last quote when the string is not terminated
+	if !l.isEOF() {
+		l.readChar() // skip the last quote
+	}
 
 	// remove slashes before quotes
 	return strings.ReplaceAll(result, "\\"+string(quote), string(quote))
-- 
2.43.0


From 96f2dbb067dbd5613a02681527316bfc484842cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:39 +0000
Subject: [PATCH 12/43] fix: parse empty bodies and require the closing @end of
 every block

---
 parser/parser.go | 45 ++++++++++++++++++++++-----------------------
 1 file changed, 22 insertions(+), 23 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index c753c8a..c195864 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -587,8 +587,6 @@ func (p *Parser) parseSlots() []*ast.SlotStmt {
 			if !p.expectPeek(token.RPAREN) { // move to ")"
 				return nil
 			}
-
-			p.nextToken() // skip ")"
 		}
 
 		slots = append(slots, &ast.SlotStmt{
@@ -597,12 +595,21 @@ func (p *Parser) parseSlots() []*ast.SlotStmt {
 			Body:  p.parseBlockStmt(),
 		})
 
-		p.nextToken() // skip block statement
-		p.nextToken() // skip "@end"
+		if !p.expectPeek(token.END) { // move to "@end" of the slot
+			return nil
+		}
 
-		for p.curTokenIs(token.HTML) {
+		for p.peekTokenIs(token.HTML) {
 			p.nextToken() // skip whitespace
 		}
+
+		if p.peekTokenIs(token.SLOT) {
+			p.nextToken() // move to the next "@slot"
+		}
+	}
+
+	if !p.expectPeek(token.END) { // move to "@end" of the component
+		return nil
 	}
 
 	return slots
@@ -668,8 +675,11 @@ func (p *Parser) parseInsertStmt() ast.Statement {
 	}
 
 	if hasBody {
-		p.nextToken() // skip ")"
 		stmt.Block = p.parseBlockStmt()
+
+		if !p.expectPeek(token.END) { // move to "@end"
+			return nil
+		}
 	}
 
 	p.inserts[stmt.Name.Value] = stmt
@@ -815,8 +825,6 @@ func (p *Parser) parseIfStmt() *ast.IfStmt {
 		return nil
 	}
 
-	p.nextToken() // skip ")"
-
 	stmt.Consequence = p.parseBlockStmt()
 
 	for p.peekTokenIs(token.ELSE_IF) {
@@ -858,8 +866,6 @@ func (p *Parser) parseElseIfStmt() *ast.ElseIfStmt {
 		return nil
 	}
 
-	p.nextToken() // skip ")"
-
 	return &ast.ElseIfStmt{
 		Token:       p.curToken,
 		Condition:   condition,
@@ -869,7 +875,6 @@ func (p *Parser) parseElseIfStmt() *ast.ElseIfStmt {
 
 func (p *Parser) parseAlternativeBlock() *ast.BlockStmt {
 	p.nextToken() // move to "@else"
-	p.nextToken() // skip "@else"
 
 	alt := p.parseBlockStmt()
 
@@ -916,8 +921,6 @@ func (p *Parser) parseForStmt() *ast.ForStmt {
 		return nil
 	}
 
-	p.nextToken() // skip ")"
-
 	stmt.Block = p.parseBlockStmt()
 
 	if p.peekTokenIs(token.ELSE) {
@@ -958,8 +961,6 @@ func (p *Parser) parseEachStmt() *ast.EachStmt {
 		return nil
 	}
 
-	p.nextToken() // skip ")"
-
 	stmt.Block = p.parseBlockStmt()
 
 	if p.peekTokenIs(token.ELSE) {
@@ -974,21 +975,19 @@ func (p *Parser) parseEachStmt() *ast.EachStmt {
 	return stmt
 }
 
+// parseBlockStmt parses the statements that follow the current token
+// and stops right before "@else", "@elseif", "@end" or the end of input
 func (p *Parser) parseBlockStmt() *ast.BlockStmt {
-	stmt := &ast.BlockStmt{Token: p.curToken}
+	stmt := &ast.BlockStmt{Token: p.peekToken}
+
+	for !p.peekTokenIs(token.ELSE, token.ELSE_IF, token.END, token.EOF) {
+		p.nextToken() // move to the next statement
 
-	for !p.curTokenIs(token.END) {
 		block := p.parseStatement()
 
 		if block != nil {
 			stmt.Statements = append(stmt.Statements, block)
 		}
-
-		if p.peekTokenIs(token.ELSE, token.ELSE_IF, token.END) {
-			break
-		}
-
-		p.nextToken() // skip statement
 	}
 
 	return stmt
-- 
2.43.0


From f80c7a6118b33e25a44e1edd40f0e0c66ef134f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:59 +0000
Subject: [PATCH 13/43] fix: reject unterminated braces, directive arguments
 and object literals

---
 parser/parser.go | 50 +++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 47 insertions(+), 3 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index c195864..139ea00 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -153,9 +153,9 @@ func (p *Parser) parseStatement() ast.Statement {
 	case token.HTML:
 		return p.parseHTMLStmt()
 	case token.LBRACES:
-		return p.parseEmbeddedCode()
+		return p.parseBracesStmt()
 	case token.SEMI:
-		return p.parseEmbeddedCode()
+		return p.parseBracesStmt()
 	case token.IF:
 		return p.parseIfStmt()
 	case token.FOR:
@@ -187,6 +187,22 @@ func (p *Parser) parseStatement() ast.Statement {
 	}
 }
 
+// parseBracesStmt parses one statement inside of "{{ }}" and
+// makes sure that it's followed by ";" or "}}"
+func (p *Parser) parseBracesStmt() ast.Statement {
+	stmt := p.parseEmbeddedCode()
+
+	if p.curTokenIs(token.RBRACES) || p.peekTokenIs(token.SEMI) {
+		return stmt
+	}
+
+	if !p.expectPeek(token.RBRACES) { // move to "}}"
+		return nil
+	}
+
+	return stmt
+}
+
 func (p *Parser) parseEmbeddedCode() ast.Statement {
 	p.nextToken() // skip "{{" or ";" or "("
 
@@ -366,7 +382,12 @@ func (p *Parser) parseObjectLiteral() ast.Expression {
 		if p.peekTokenIs(token.COMMA) {
 			p.nextToken() // move to ","
 			p.nextToken() // skip ","
+			continue
 		}
+
+		p.expectPeek(token.RBRACE)
+
+		return nil
 	}
 
 	return obj
@@ -419,6 +440,10 @@ func (p *Parser) parseUseStmt() ast.Statement {
 		Value: p.parseAliasPathShortcut("layouts"),
 	}
 
+	if !p.expectPeek(token.RPAREN) { // move to ")"
+		return nil
+	}
+
 	p.useStmt = stmt
 
 	return stmt
@@ -437,6 +462,10 @@ func (p *Parser) parseBreakIfStmt() ast.Statement {
 
 	stmt.Condition = p.parseExpression(LOWEST)
 
+	if !p.expectPeek(token.RPAREN) { // move to ")"
+		return nil
+	}
+
 	return stmt
 }
 
@@ -453,6 +482,10 @@ func (p *Parser) parseContinueIfStmt() ast.Statement {
 
 	stmt.Condition = p.parseExpression(LOWEST)
 
+	if !p.expectPeek(token.RPAREN) { // move to ")"
+		return nil
+	}
+
 	return stmt
 }
 
@@ -631,6 +664,10 @@ func (p *Parser) parseReserveStmt() ast.Statement {
 		Value: p.curToken.Literal,
 	}
 
+	if !p.expectPeek(token.RPAREN) { // move to ")"
+		return nil
+	}
+
 	p.reserves[stmt.Name.Value] = stmt
 
 	return stmt
@@ -664,6 +701,10 @@ func (p *Parser) parseInsertStmt() ast.Statement {
 		p.nextToken() // skip ","
 		stmt.Argument = p.parseExpression(LOWEST)
 
+		if !p.expectPeek(token.RPAREN) { // move to ")"
+			return nil
+		}
+
 		p.inserts[stmt.Name.Value] = stmt
 		hasBody = false
 
@@ -857,7 +898,10 @@ func (p *Parser) parseElseIfStmt() *ast.ElseIfStmt {
 		return nil
 	}
 
-	p.nextToken() // skip "@elseif"
+	if !p.expectPeek(token.LPAREN) { // move to "("
+		return nil
+	}
+
 	p.nextToken() // skip "("
 
 	condition := p.parseExpression(LOWEST)
-- 
2.43.0


From e4f61068571d5029b07b40a216d8a0214e314934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:35 +0000
Subject: [PATCH 14/43] fix: keep the whitespace after a component that has no
 slots

---
 parser/parser.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 139ea00..e4d1ddb 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -284,6 +284,15 @@ func (p *Parser) nextToken() {
 	}
 }
 
+// isSlotAfterPeek checks if the token after the peek token is "@slot"
+// without consuming any tokens
+func (p *Parser) isSlotAfterPeek() bool {
+	l := *p.l
+	tok := l.NextToken()
+
+	return tok.Type == token.SLOT
+}
+
 func (p *Parser) parseIdentifier() ast.Expression {
 	return &ast.Identifier{
 		Token: p.curToken,
@@ -526,13 +535,10 @@ func (p *Parser) parseComponentStmt() ast.Statement {
 	if p.peekTokenIs(token.SLOT) {
 		p.nextToken() // skip ")"
 		stmt.Slots = p.parseSlots()
-	} else if p.peekTokenIs(token.HTML) && isWhitespace(p.peekToken.Literal) {
+	} else if p.peekTokenIs(token.HTML) && isWhitespace(p.peekToken.Literal) && p.isSlotAfterPeek() {
 		p.nextToken() // skip ")"
-
-		if p.peekTokenIs(token.SLOT) {
-			p.nextToken() // skip whitespace
-			stmt.Slots = p.parseSlots()
-		}
+		p.nextToken() // skip whitespace
+		stmt.Slots = p.parseSlots()
 	}
 
 	p.components = append(p.components, stmt)
-- 
2.43.0


From 8ce9bb2e4f08388f1bde63fc39f93bc4d206c9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:46 +0000
Subject: [PATCH 15/43] fix: report too deep nesting instead of overflowing the
 stack

---
 fail/fail.go     |  1 +
 parser/parser.go | 32 +++++++++++++++++++++++++++++++-
 2 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/fail/fail.go b/fail/fail.go
index dd7897b..caece31 100644
--- a/fail/fail.go
+++ b/fail/fail.go
@@ -26,6 +26,7 @@ const (
 	ErrExpectedComponentName     = "expected component name, got empty string instead"
 	ErrUndefinedComponent        = "component '%s' is not defined. Check if component exists"
 	ErrUndefinedInsert           = "insert with the name '%s' is not defined in layout. Check if you have a matching reserve statement with the same name"
+	ErrNestingTooDeep            = "statements and expressions cannot be nested deeper than %d levels"
 	ErrDuplicateInserts          = "duplicate insert statements with the name '%s' found"
 
 	// Evaluator (interpreter) errors
diff --git a/parser/parser.go b/parser/parser.go
index e4d1ddb..d48810a 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -30,6 +30,10 @@ const (
 	POSTFIX       // X++ or X--
 )
 
+// maxDepth is the limit for how deep statements and expressions
+// can be nested. Without it deep nesting overflows the stack.
+const maxDepth = 10000
+
 var precedences = map[token.TokenType]int{
 	token.QUESTION: TERNARY,
 	token.EQ:       EQ,
@@ -61,7 +65,11 @@ type Parser struct {
 	prefixParseFns map[token.TokenType]prefixParseFn
 	infixParseFns  map[token.TokenType]infixParseFn
 
-	useStmt    *ast.UseStmt
+	useStmt *ast.UseStmt
+	// depth is the nesting level of the statement or expression
+	// that is currently being parsed
+	depth int
+
 	components []*ast.ComponentStmt
 	inserts    map[string]*ast.InsertStmt
 	reserves   map[string]*ast.ReserveStmt
@@ -149,6 +157,14 @@ func (p *Parser) ParseProgram() *ast.Program {
 }
 
 func (p *Parser) parseStatement() ast.Statement {
+	depth := p.depth
+	defer func() { p.depth = depth }()
+
+	if p.depth++; p.depth > maxDepth {
+		p.newError(p.curToken.ErrorLine(), fail.ErrNestingTooDeep, maxDepth)
+		return nil
+	}
+
 	switch p.curToken.Type {
 	case token.HTML:
 		return p.parseHTMLStmt()
@@ -1056,6 +1072,14 @@ func (p *Parser) parseExpressionStmt() ast.Statement {
 }
 
 func (p *Parser) parseExpression(precedence int) ast.Expression {
+	depth := p.depth
+	defer func() { p.depth = depth }()
+
+	if p.depth++; p.depth > maxDepth {
+		p.newError(p.curToken.ErrorLine(), fail.ErrNestingTooDeep, maxDepth)
+		return nil
+	}
+
 	prefix := p.prefixParseFns[p.curToken.Type]
 
 	if prefix == nil {
@@ -1078,6 +1102,12 @@ func (p *Parser) parseExpression(precedence int) ast.Expression {
 
 		p.nextToken()
 
+		// every operator nests the left side one level deeper
+		if p.depth++; p.depth > maxDepth {
+			p.newError(p.curToken.ErrorLine(), fail.ErrNestingTooDeep, maxDepth)
+			return nil
+		}
+
 		leftExp = infix(leftExp)
 	}
 
-- 
2.43.0


From f5866940498dbf43b8a1350b9c00177b9455fea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:57 +0000
Subject: [PATCH 16/43] fix: report iterating over a non-array as an error
 instead of panicking

---
 evaluator/evaluator.go | 7 ++++++-
 fail/fail.go           | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index 938023e..1d15ce7 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -367,7 +367,12 @@ func (e *Evaluator) evalEachStmt(node *ast.EachStmt, env *object.Env) object.Obj
 		return arrObj
 	}
 
-	elems := arrObj.(*object.Array).Elements
+	arr, isArr := arrObj.(*object.Array)
+	if !isArr {
+		return e.newError(node, fail.ErrCannotIterate, arrObj.Type())
+	}
+
+	elems := arr.Elements
 	elemsLen := len(elems)
 
 	// evaluate alternative block if array is empty
diff --git a/fail/fail.go b/fail/fail.go
index caece31..f58812c 100644
--- a/fail/fail.go
+++ b/fail/fail.go
@@ -43,6 +43,7 @@ const (
 	ErrVariableTypeMismatch    = "cannot assign variable '%s' of type '%s' to type '%s'"
 	ErrDotOperatorNotSupported = "the dot operator is not supported for type '%s'"
 	ErrPropertyNotFound        = "property '%s' not found in type '%s'"
+	ErrCannotIterate           = "cannot iterate over type '%s', an array is required"
 	ErrDivisionByZero          = "division by zero error. The right-hand side of the division operator must not be zero"
 
 	// Functions
-- 
2.43.0


From 2c2c70d2b8bfcfa7eafbb568185fc276d13510a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:59 +0000
Subject: [PATCH 17/43] fix: handle absent and assigning clauses of @for, and
 break before the post clause

---
 evaluator/evaluator.go | 25 ++++++++++++++-----------
 evaluator/utils.go     | 24 ++++++++++++++++++++++++
 fail/fail.go           |  1 +
 3 files changed, 39 insertions(+), 11 deletions(-)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index 1d15ce7..b76be1d 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -293,6 +293,10 @@ func (e *Evaluator) evalForStmt(node *ast.ForStmt, env *object.Env) object.Objec
 		}
 	}
 
+	if node.Condition == nil {
+		return e.newError(node, fail.ErrForMustHaveCondition)
+	}
+
 	// evaluate alternative block if user's condition is false
 	if node.Condition != nil {
 		cond := e.Eval(node.Condition, newEnv)
@@ -326,30 +330,29 @@ func (e *Evaluator) evalForStmt(node *ast.ForStmt, env *object.Env) object.Objec
 
 		blocks.WriteString(block.String())
 
+		if hasBreakStmt(block) {
+			break
+		}
+
+		if node.Post == nil {
+			continue
+		}
+
 		post := e.Eval(node.Post, newEnv)
 
 		if isError(post) {
 			return post
 		}
 
-		if node.Init == nil || node.Post == nil {
+		varName, hasVar := forLoopVarName(node)
+		if !hasVar {
 			continue
 		}
 
-		varName := node.Init.(*ast.AssignStmt).Name.Value
-
 		err := newEnv.Set(varName, post)
 		if err != nil {
 			return e.newError(node, "%s", err.Error())
 		}
-
-		if hasBreakStmt(block) {
-			break
-		}
-
-		if hasContinueStmt(block) {
-			continue
-		}
 	}
 
 	return &object.HTML{Value: blocks.String()}
diff --git a/evaluator/utils.go b/evaluator/utils.go
index 4893614..cbc1527 100644
--- a/evaluator/utils.go
+++ b/evaluator/utils.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"strings"
 
+	"github.com/textwire/textwire/v2/ast"
 	"github.com/textwire/textwire/v2/config"
 	"github.com/textwire/textwire/v2/fail"
 	"github.com/textwire/textwire/v2/object"
@@ -30,6 +31,29 @@ func isTruthy(obj object.Object) bool {
 	return true
 }
 
+// forLoopVarName returns the name of the variable that receives the
+// value of the post statement. There is none when the post statement
+// is an assignment or when the loop doesn't have a variable.
+func forLoopVarName(node *ast.ForStmt) (string, bool) {
+	stmt, isExp := node.Post.(*ast.ExpressionStmt)
+	if !isExp {
+		return "", false
+	}
+
+	// "i++" changes the variable that it's applied to
+	if postfix, ok := stmt.Expression.(*ast.PostfixExp); ok {
+		if ident, ok := postfix.Left.(*ast.Identifier); ok {
+			return ident.Value, true
+		}
+	}
+
+	if init, ok := node.Init.(*ast.AssignStmt); ok {
+		return init.Name.Value, true
+	}
+
+	return "", false
+}
+
 func isError(obj object.Object) bool {
 	return obj.Is(object.ERR_OBJ)
 }
diff --git a/fail/fail.go b/fail/fail.go
index f58812c..b726b2c 100644
--- a/fail/fail.go
+++ b/fail/fail.go
@@ -44,6 +44,7 @@ const (
 	ErrDotOperatorNotSupported = "the dot operator is not supported for type '%s'"
 	ErrPropertyNotFound        = "property '%s' not found in type '%s'"
 	ErrCannotIterate           = "cannot iterate over type '%s', an array is required"
+	ErrForMustHaveCondition    = "the @for loop must have a condition"
 	ErrDivisionByZero          = "division by zero error. The right-hand side of the division operator must not be zero"
 
 	// Functions
-- 
2.43.0


From 858ed81d8a4ad508041504ec6d6d2ce26ee4da68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:39 +0000
Subject: [PATCH 18/43] fix: bind component arguments that shadow a variable of
 another type

---
 evaluator/evaluator.go |  4 +++-
 object/env.go          | 12 ++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index b76be1d..f1a2184 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -266,7 +266,9 @@ func (e *Evaluator) evalComponentStmt(node *ast.ComponentStmt, env *object.Env)
 				return val
 			}
 
-			newEnv.Set(key, val)
+			if err := newEnv.Shadow(key, val); err != nil {
+				return e.newError(node, "%s", err.Error())
+			}
 		}
 	}
 
diff --git a/object/env.go b/object/env.go
index ab23e83..1bbc1a9 100644
--- a/object/env.go
+++ b/object/env.go
@@ -67,6 +67,18 @@ func (e *Env) Set(key string, val Object) error {
 	return nil
 }
 
+// Shadow stores the variable in the current scope even when an enclosing
+// scope has a variable with the same name but of a different type.
+func (e *Env) Shadow(key string, val Object) error {
+	if key == "loop" {
+		return errors.New(fail.ErrLoopVariableIsReserved)
+	}
+
+	e.store[key] = val
+
+	return nil
+}
+
 func (e *Env) SetLoopVar(pairs map[string]Object) {
 	e.store["loop"] = &Obj{Pairs: pairs}
 }
-- 
2.43.0


From 95851a49e3daf3029f3d083d133c66cb1edd3fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:08 +0000
Subject: [PATCH 19/43] fix: give every use of a component its own arguments
 and slot bodies

---
 ast/program.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ast/program.go b/ast/program.go
index 22e1ec8..096cc74 100644
--- a/ast/program.go
+++ b/ast/program.go
@@ -78,7 +78,8 @@ func (p *Program) ApplyLayout(prog *Program) {
 
 func (p *Program) ApplyComponent(name string, prog *Program, progFilePath string) *fail.Error {
 	for _, comp := range p.Components {
-		if comp.Name.Value != name {
+		// every use of a component gets its own program
+		if comp.Name.Value != name || comp.Block != nil {
 			continue
 		}
 
@@ -111,6 +112,8 @@ func (p *Program) ApplyComponent(name string, prog *Program, progFilePath string
 		}
 
 		comp.Block = prog
+
+		return nil
 	}
 
 	return nil
-- 
2.43.0


From 76924e9212ff975bc18b38fb65b82f82028913e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:09 +0000
Subject: [PATCH 20/43] fix: fill slot placeholders that are nested in blocks
 or repeated

---
 ast/program.go   | 11 +++++++++--
 parser/parser.go | 14 ++++++++++++--
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/ast/program.go b/ast/program.go
index 096cc74..dae8bf9 100644
--- a/ast/program.go
+++ b/ast/program.go
@@ -13,6 +13,7 @@ type Program struct {
 	UseStmt    *UseStmt
 	Statements []Statement
 	Components []*ComponentStmt
+	Slots      []Statement // slot placeholders at any nesting level
 	Reserves   map[string]*ReserveStmt
 	Inserts    map[string]*InsertStmt
 	Pos        token.Position
@@ -96,7 +97,7 @@ func (p *Program) ApplyComponent(name string, prog *Program, progFilePath string
 		}
 
 		for _, slot := range comp.Slots {
-			idx := findSlotStmtIndex(prog.Statements, slot.Name.Value)
+			idx := findSlotStmtIndex(prog.Slots, slot.Name.Value)
 
 			if idx == -1 {
 				if slot.Name.Value == "" {
@@ -108,7 +109,13 @@ func (p *Program) ApplyComponent(name string, prog *Program, progFilePath string
 					fail.ErrSlotNotDefined, slot.Name.Value, name)
 			}
 
-			prog.Statements[idx].(*SlotStmt).Body = slot.Body
+			for _, stmt := range prog.Slots[idx:] {
+				placeholder := stmt.(*SlotStmt)
+
+				if placeholder.Name.Value == slot.Name.Value {
+					placeholder.Body = slot.Body
+				}
+			}
 		}
 
 		comp.Block = prog
diff --git a/parser/parser.go b/parser/parser.go
index d48810a..5159d06 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -71,6 +71,7 @@ type Parser struct {
 	depth int
 
 	components []*ast.ComponentStmt
+	slots      []ast.Statement
 	inserts    map[string]*ast.InsertStmt
 	reserves   map[string]*ast.ReserveStmt
 }
@@ -149,6 +150,7 @@ func (p *Parser) ParseProgram() *ast.Program {
 	}
 
 	prog.Components = p.components
+	prog.Slots = p.slots
 	prog.Inserts = p.inserts
 	prog.UseStmt = p.useStmt
 	prog.Reserves = p.reserves
@@ -583,10 +585,14 @@ func (p *Parser) parseSlotStmt() *ast.SlotStmt {
 	tok := p.curToken
 
 	if !p.peekTokenIs(token.LPAREN) {
-		return &ast.SlotStmt{
+		stmt := &ast.SlotStmt{
 			Token: tok, // "@slot"
 			Name:  &ast.StringLiteral{Value: ""},
 		}
+
+		p.slots = append(p.slots, stmt)
+
+		return stmt
 	}
 
 	p.nextToken() // skip "@slot"
@@ -601,10 +607,14 @@ func (p *Parser) parseSlotStmt() *ast.SlotStmt {
 		return nil
 	}
 
-	return &ast.SlotStmt{
+	stmt := &ast.SlotStmt{
 		Token: tok, // "@slot"
 		Name:  slotName,
 	}
+
+	p.slots = append(p.slots, stmt)
+
+	return stmt
 }
 
 func (p *Parser) parseDumpStmt() *ast.DumpStmt {
-- 
2.43.0


From 3a4deeb82441f9c4a9b95769ecd51c9278d00330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:11 +0000
Subject: [PATCH 21/43] fix: report slot errors on the line of the slot and
 always for the first duplicate

---
 ast/program.go | 12 ++++++------
 ast/utils.go   | 10 +++++-----
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/ast/program.go b/ast/program.go
index dae8bf9..3763a64 100644
--- a/ast/program.go
+++ b/ast/program.go
@@ -84,16 +84,16 @@ func (p *Program) ApplyComponent(name string, prog *Program, progFilePath string
 			continue
 		}
 
-		duplicateName, times := findDuplicateSlot(comp.Slots)
+		duplicate, times := findDuplicateSlot(comp.Slots)
 
 		if times > 0 {
 			if name == "" {
-				return fail.New(prog.Line(), progFilePath, "parser",
+				return fail.New(duplicate.Line(), progFilePath, "parser",
 					fail.ErrDuplicateDefaultSlotUsage, times, name)
 			}
 
-			return fail.New(prog.Line(), progFilePath, "parser",
-				fail.ErrDuplicateSlotUsage, duplicateName, times, name)
+			return fail.New(duplicate.Line(), progFilePath, "parser",
+				fail.ErrDuplicateSlotUsage, duplicate.Name.Value, times, name)
 		}
 
 		for _, slot := range comp.Slots {
@@ -101,11 +101,11 @@ func (p *Program) ApplyComponent(name string, prog *Program, progFilePath string
 
 			if idx == -1 {
 				if slot.Name.Value == "" {
-					return fail.New(prog.Line(), progFilePath, "parser",
+					return fail.New(slot.Line(), progFilePath, "parser",
 						fail.ErrDefaultSlotNotDefined, name)
 				}
 
-				return fail.New(prog.Line(), progFilePath, "parser",
+				return fail.New(slot.Line(), progFilePath, "parser",
 					fail.ErrSlotNotDefined, slot.Name.Value, name)
 			}
 
diff --git a/ast/utils.go b/ast/utils.go
index 528b829..ba6b946 100644
--- a/ast/utils.go
+++ b/ast/utils.go
@@ -16,7 +16,7 @@ func findSlotStmtIndex(stmts []Statement, slotName string) int {
 	return -1
 }
 
-func findDuplicateSlot(slots []*SlotStmt) (string, int) {
+func findDuplicateSlot(slots []*SlotStmt) (*SlotStmt, int) {
 	counts := make(map[string]int)
 
 	for _, slot := range slots {
@@ -24,11 +24,11 @@ func findDuplicateSlot(slots []*SlotStmt) (string, int) {
 	}
 
 	// find the first slot name that has a count greater than 1
-	for name, times := range counts {
-		if times > 1 {
-			return name, times
+	for _, slot := range slots {
+		if times := counts[slot.Name.Value]; times > 1 {
+			return slot, times
 		}
 	}
 
-	return "", 0
+	return nil, 0
 }
-- 
2.43.0


From aa62b1e1c400b1ff5d1f1335c718943fffbe3e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:11 +0000
Subject: [PATCH 22/43] fix: make string built-ins work on characters and
 reject negative or oversized counts

---
 evaluator/str_func.go | 18 ++++++++++++++----
 evaluator/utils.go    | 27 ++++++++++++++++++++++++++-
 fail/fail.go          |  2 ++
 3 files changed, 42 insertions(+), 5 deletions(-)

diff --git a/evaluator/str_func.go b/evaluator/str_func.go
index 7f5b215..046dffd 100644
--- a/evaluator/str_func.go
+++ b/evaluator/str_func.go
@@ -94,7 +94,8 @@ func strCapitalizeFunc(_ *ctx.EvalCtx, receiver object.Object, _ ...object.Objec
 		return &object.Str{Value: ""}, nil
 	}
 
-	newVal := strings.ToUpper(val[:1]) + val[1:]
+	_, size := utf8.DecodeRuneInString(val)
+	newVal := strings.ToUpper(val[:size]) + val[size:]
 
 	return &object.Str{Value: newVal}, nil
 }
@@ -151,6 +152,11 @@ func strTruncateFunc(_ *ctx.EvalCtx, receiver object.Object, args ...object.Obje
 	val := receiver.(*object.Str).Value
 	limit := int(firstArg.Value)
 
+	if limit < 0 {
+		msg := fmt.Sprintf(fail.ErrFuncNegativeArg, "truncate", object.STR_OBJ)
+		return nil, errors.New(msg)
+	}
+
 	if limit >= utf8.RuneCountInString(val) {
 		return &object.Str{Value: val}, nil
 	}
@@ -168,7 +174,7 @@ func strTruncateFunc(_ *ctx.EvalCtx, receiver object.Object, args ...object.Obje
 		}
 	}
 
-	newVal := val[:firstArg.Value] + ellipsis
+	newVal := string([]rune(val)[:limit]) + ellipsis
 
 	return &object.Str{Value: newVal}, nil
 }
@@ -204,7 +210,7 @@ func strAtFunc(_ *ctx.EvalCtx, receiver object.Object, args ...object.Object) (o
 		index = len(chars) + index
 	}
 
-	if index >= len(chars) {
+	if index < 0 || index >= len(chars) {
 		return &object.Nil{}, nil
 	}
 
@@ -276,7 +282,11 @@ func strRepeatFunc(_ *ctx.EvalCtx, receiver object.Object, args ...object.Object
 	}
 
 	val := receiver.(*object.Str).Value
-	repeated := strings.Repeat(val, int(firstArg.Value))
+
+	repeated, err := repeatStr(val, firstArg.Value, "repeat", object.STR_OBJ)
+	if err != nil {
+		return nil, err
+	}
 
 	return &object.Str{Value: repeated}, nil
 }
diff --git a/evaluator/utils.go b/evaluator/utils.go
index cbc1527..3a742f3 100644
--- a/evaluator/utils.go
+++ b/evaluator/utils.go
@@ -12,6 +12,10 @@ import (
 	"github.com/textwire/textwire/v2/utils"
 )
 
+// maxRepeatedLen is the maximum number of bytes
+// that a string can have after repeating it
+const maxRepeatedLen = 1 << 26
+
 func isTruthy(obj object.Object) bool {
 	switch obj := obj.(type) {
 	case *object.Bool:
@@ -156,7 +160,10 @@ func addDecimals(receiver object.Object, objType object.ObjectType, args ...obje
 		decimals = int(decimalArg.Value)
 	}
 
-	zeros := strings.Repeat("0", decimals)
+	zeros, err := repeatStr("0", int64(decimals), "decimal", objType)
+	if err != nil {
+		return nil, err
+	}
 
 	if decimals == 0 {
 		return &object.Str{Value: val}, nil
@@ -164,3 +171,21 @@ func addDecimals(receiver object.Object, objType object.ObjectType, args ...obje
 
 	return &object.Str{Value: val + separator + zeros}, nil
 }
+
+// repeatStr repeats the string and returns an error when the
+// count is negative or when the result would be too long
+func repeatStr(val string, count int64, funcName string, objType object.ObjectType) (string, error) {
+	if count < 0 {
+		return "", fmt.Errorf(fail.ErrFuncNegativeArg, funcName, objType)
+	}
+
+	if val == "" {
+		return "", nil
+	}
+
+	if count > maxRepeatedLen/int64(len(val)) {
+		return "", fmt.Errorf(fail.ErrFuncResultTooLong, funcName, objType, maxRepeatedLen)
+	}
+
+	return strings.Repeat(val, int(count)), nil
+}
diff --git a/fail/fail.go b/fail/fail.go
index b726b2c..e4cf8af 100644
--- a/fail/fail.go
+++ b/fail/fail.go
@@ -54,6 +54,8 @@ const (
 	ErrFuncFirstArgStr    = "first argument for function '%s' on type '%s' must be a STRING"
 	ErrFuncSecondArgInt   = "second argument for function '%s' on type '%s' must be an INTEGER"
 	ErrFuncSecondArgStr   = "second argument for function '%s' on type '%s' must be a STRING"
+	ErrFuncNegativeArg    = "function '%s' on type '%s' doesn't accept a negative number"
+	ErrFuncResultTooLong  = "function '%s' on type '%s' cannot return a string longer than %d bytes"
 	ErrFuncMaxArgs        = "function '%s' on type '%s' accepts a maximum of '%d' arguments"
 
 	// Template errors
-- 
2.43.0


From 21360718a436f81cb6326530716a4108f59b25b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:13 +0000
Subject: [PATCH 23/43] fix: return an empty array when slice() ends before it
 starts

---
 evaluator/array_func.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/evaluator/array_func.go b/evaluator/array_func.go
index e913f39..7a3fb19 100644
--- a/evaluator/array_func.go
+++ b/evaluator/array_func.go
@@ -126,6 +126,10 @@ func arraySliceFunc(_ *ctx.EvalCtx, receiver object.Object, args ...object.Objec
 		end = elemsLen
 	}
 
+	if end < start {
+		end = start
+	}
+
 	return &object.Array{Elements: elems[start:end]}, nil
 }
 
-- 
2.43.0


From 8b961b7491de4754bd1d9a217abcb7d7e267cea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:14 +0000
Subject: [PATCH 24/43] fix: compare empty arrays structurally in contains()
 and drop the sign of -0.0 in abs()

---
 evaluator/array_func.go | 14 +-------------
 evaluator/float_func.go |  6 +-----
 evaluator/utils.go      | 42 +++++++++++++++++++++++++++++++++++++++++
 3 files changed, 44 insertions(+), 18 deletions(-)

diff --git a/evaluator/array_func.go b/evaluator/array_func.go
index 7a3fb19..77320b9 100644
--- a/evaluator/array_func.go
+++ b/evaluator/array_func.go
@@ -4,7 +4,6 @@ import (
 	"errors"
 	"fmt"
 	"math/rand"
-	"reflect"
 	"time"
 
 	"github.com/textwire/textwire/v2/ctx"
@@ -174,18 +173,7 @@ func arrayContainsFunc(_ *ctx.EvalCtx, receiver object.Object, args ...object.Ob
 	target := args[0]
 
 	for _, el := range elems {
-		isObj := el.Type() == object.OBJ_OBJ && target.Type() == object.OBJ_OBJ
-		isArr := el.Type() == object.ARR_OBJ && target.Type() == object.ARR_OBJ
-
-		if isObj || isArr {
-			if reflect.DeepEqual(el, target) {
-				return &object.Bool{Value: true}, nil
-			}
-
-			continue
-		}
-
-		if el.Val() == target.Val() {
+		if isEqual(el, target) {
 			return &object.Bool{Value: true}, nil
 		}
 	}
diff --git a/evaluator/float_func.go b/evaluator/float_func.go
index 6374d7c..9bc6d6b 100644
--- a/evaluator/float_func.go
+++ b/evaluator/float_func.go
@@ -24,11 +24,7 @@ func floatStrFunc(_ *ctx.EvalCtx, receiver object.Object, _ ...object.Object) (o
 func floatAbsFunc(_ *ctx.EvalCtx, receiver object.Object, _ ...object.Object) (object.Object, error) {
 	val := receiver.(*object.Float).Value
 
-	if val < 0 {
-		return &object.Float{Value: -val}, nil
-	}
-
-	return receiver, nil
+	return &object.Float{Value: math.Abs(val)}, nil
 }
 
 // floatCeilFunc returns the rounded up value of a float to the nearest integer
diff --git a/evaluator/utils.go b/evaluator/utils.go
index 3a742f3..7b1d77f 100644
--- a/evaluator/utils.go
+++ b/evaluator/utils.go
@@ -62,6 +62,48 @@ func isError(obj object.Object) bool {
 	return obj.Is(object.ERR_OBJ)
 }
 
+// isEqual compares two values of any type by their structure
+func isEqual(left, right object.Object) bool {
+	if left.Type() != right.Type() {
+		return false
+	}
+
+	switch left := left.(type) {
+	case *object.Array:
+		elems := right.(*object.Array).Elements
+
+		if len(left.Elements) != len(elems) {
+			return false
+		}
+
+		for i, el := range left.Elements {
+			if !isEqual(el, elems[i]) {
+				return false
+			}
+		}
+
+		return true
+	case *object.Obj:
+		pairs := right.(*object.Obj).Pairs
+
+		if len(left.Pairs) != len(pairs) {
+			return false
+		}
+
+		for key, el := range left.Pairs {
+			pair, ok := pairs[key]
+
+			if !ok || !isEqual(el, pair) {
+				return false
+			}
+		}
+
+		return true
+	}
+
+	return left.Val() == right.Val()
+}
+
 func nativeBoolToBooleanObject(input bool) object.Object {
 	if input {
 		return TRUE
-- 
2.43.0


From a8ff748b88037c96140d629d8e21204d9c27c793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:57 +0000
Subject: [PATCH 25/43] fix: convert nil pointers to nil instead of panicking

---
 object/utils.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/object/utils.go b/object/utils.go
index 0dccc70..5c64c11 100644
--- a/object/utils.go
+++ b/object/utils.go
@@ -48,6 +48,10 @@ func NativeToObject(val any) Object {
 	case reflect.Map:
 		return nativeMapToObject(val)
 	case reflect.Pointer:
+		if reflect.ValueOf(val).IsNil() {
+			return &Nil{}
+		}
+
 		// NativeToObject is used recursively to handle pointers
 		return NativeToObject(reflect.ValueOf(val).Elem().Interface())
 	}
-- 
2.43.0


From 8cf6a4c0d7bf887b5dfb7f63ae2c1b141d364dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:58 +0000
Subject: [PATCH 26/43] fix: convert values of user-defined basic types

---
 object/utils.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/object/utils.go b/object/utils.go
index 5c64c11..d8ee53c 100644
--- a/object/utils.go
+++ b/object/utils.go
@@ -54,6 +54,18 @@ func NativeToObject(val any) Object {
 
 		// NativeToObject is used recursively to handle pointers
 		return NativeToObject(reflect.ValueOf(val).Elem().Interface())
+
+	// types that are defined by a user, like "type Role string"
+	case reflect.String:
+		return &Str{Value: reflect.ValueOf(val).String()}
+	case reflect.Bool:
+		return &Bool{Value: reflect.ValueOf(val).Bool()}
+	case reflect.Float32, reflect.Float64:
+		return &Float{Value: reflect.ValueOf(val).Float()}
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		return &Int{Value: reflect.ValueOf(val).Int()}
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		return &Int{Value: int64(reflect.ValueOf(val).Uint())}
 	}
 
 	return nil
-- 
2.43.0


From e34674aa6a83c45f6f85d10e9af50816b59babb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:00 +0000
Subject: [PATCH 27/43] fix: reject unsupported values at any depth and maps
 without string keys

---
 object/utils.go | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/object/utils.go b/object/utils.go
index d8ee53c..9ec612e 100644
--- a/object/utils.go
+++ b/object/utils.go
@@ -4,6 +4,8 @@ import (
 	"reflect"
 )
 
+// NativeToObject converts a Go value to an object. It returns nil when
+// the value, or any value inside of it, has an unsupported type.
 func NativeToObject(val any) Object {
 	switch v := val.(type) {
 	case string:
@@ -76,8 +78,19 @@ func nativeMapToObject(val any) Object {
 
 	valValue := reflect.ValueOf(val)
 
+	// only string keys are reachable from a template
+	if valValue.Type().Key().Kind() != reflect.String {
+		return nil
+	}
+
 	for _, key := range valValue.MapKeys() {
-		obj.Pairs[key.String()] = NativeToObject(valValue.MapIndex(key).Interface())
+		pair := NativeToObject(valValue.MapIndex(key).Interface())
+
+		if pair == nil {
+			return nil
+		}
+
+		obj.Pairs[key.String()] = pair
 	}
 
 	return obj
@@ -113,17 +126,29 @@ func nativeStructToObject(val any) Object {
 
 		fieldVal := reflect.ValueOf(val).Field(i).Interface()
 
-		obj.Pairs[field.Name] = NativeToObject(fieldVal)
+		pair := NativeToObject(fieldVal)
+
+		if pair == nil {
+			return nil
+		}
+
+		obj.Pairs[field.Name] = pair
 	}
 
 	return obj
 }
 
-func nativeSliceToArrayObject(slice []any) *Array {
+func nativeSliceToArrayObject(slice []any) Object {
 	arr := &Array{}
 
 	for _, val := range slice {
-		arr.Elements = append(arr.Elements, NativeToObject(val))
+		elem := NativeToObject(val)
+
+		if elem == nil {
+			return nil
+		}
+
+		arr.Elements = append(arr.Elements, elem)
 	}
 
 	return arr
-- 
2.43.0


From 8321ba332a1eab20f7f517d805e0ee4dbd3c45df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:24 +0000
Subject: [PATCH 28/43] fix: reject Go values that contain themselves instead
 of overflowing the stack

---
 object/utils.go | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/object/utils.go b/object/utils.go
index 9ec612e..3634ed8 100644
--- a/object/utils.go
+++ b/object/utils.go
@@ -4,9 +4,21 @@ import (
 	"reflect"
 )
 
+// maxNativeDepth is the limit for how deep Go values can be nested
+const maxNativeDepth = 10000
+
 // NativeToObject converts a Go value to an object. It returns nil when
 // the value, or any value inside of it, has an unsupported type.
 func NativeToObject(val any) Object {
+	return nativeToObject(val, 0)
+}
+
+func nativeToObject(val any, depth int) Object {
+	// values that contain themselves don't have an end
+	if depth++; depth > maxNativeDepth {
+		return nil
+	}
+
 	switch v := val.(type) {
 	case string:
 		return &Str{Value: v}
@@ -44,18 +56,18 @@ func NativeToObject(val any) Object {
 
 	switch valType.Kind() {
 	case reflect.Struct:
-		return nativeStructToObject(val)
+		return nativeStructToObject(val, depth)
 	case reflect.Slice:
-		return nativeSliceToArrayObject(convertToInterfaceSlice(val))
+		return nativeSliceToArrayObject(convertToInterfaceSlice(val), depth)
 	case reflect.Map:
-		return nativeMapToObject(val)
+		return nativeMapToObject(val, depth)
 	case reflect.Pointer:
 		if reflect.ValueOf(val).IsNil() {
 			return &Nil{}
 		}
 
-		// NativeToObject is used recursively to handle pointers
-		return NativeToObject(reflect.ValueOf(val).Elem().Interface())
+		// nativeToObject is used recursively to handle pointers
+		return nativeToObject(reflect.ValueOf(val).Elem().Interface(), depth)
 
 	// types that are defined by a user, like "type Role string"
 	case reflect.String:
@@ -73,7 +85,7 @@ func NativeToObject(val any) Object {
 	return nil
 }
 
-func nativeMapToObject(val any) Object {
+func nativeMapToObject(val any, depth int) Object {
 	obj := &Obj{Pairs: make(map[string]Object)}
 
 	valValue := reflect.ValueOf(val)
@@ -84,7 +96,7 @@ func nativeMapToObject(val any) Object {
 	}
 
 	for _, key := range valValue.MapKeys() {
-		pair := NativeToObject(valValue.MapIndex(key).Interface())
+		pair := nativeToObject(valValue.MapIndex(key).Interface(), depth)
 
 		if pair == nil {
 			return nil
@@ -112,7 +124,7 @@ func convertToInterfaceSlice(slice any) []any {
 	return ret
 }
 
-func nativeStructToObject(val any) Object {
+func nativeStructToObject(val any, depth int) Object {
 	obj := &Obj{Pairs: make(map[string]Object)}
 
 	valType := reflect.TypeOf(val)
@@ -126,7 +138,7 @@ func nativeStructToObject(val any) Object {
 
 		fieldVal := reflect.ValueOf(val).Field(i).Interface()
 
-		pair := NativeToObject(fieldVal)
+		pair := nativeToObject(fieldVal, depth)
 
 		if pair == nil {
 			return nil
@@ -138,11 +150,11 @@ func nativeStructToObject(val any) Object {
 	return obj
 }
 
-func nativeSliceToArrayObject(slice []any) Object {
+func nativeSliceToArrayObject(slice []any, depth int) Object {
 	arr := &Array{}
 
 	for _, val := range slice {
-		elem := NativeToObject(val)
+		elem := nativeToObject(val, depth)
 
 		if elem == nil {
 			return nil
-- 
2.43.0


From 70c370c4e1a63a2332eff5ade36f799838afc85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:26 +0000
Subject: [PATCH 29/43] fix: report property access on a non-object and an
 empty property name as errors

---
 evaluator/evaluator.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index f1a2184..8a03131 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"html"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/textwire/textwire/v2/ast"
 	"github.com/textwire/textwire/v2/ctx"
@@ -547,7 +548,8 @@ func (e *Evaluator) evalObjectIndexExp(
 	}
 
 	// make first letter lowercase on idx
-	idxUpper := strings.ToUpper(idx[:1]) + idx[1:]
+	_, size := utf8.DecodeRuneInString(idx)
+	idxUpper := strings.ToUpper(idx[:size]) + idx[size:]
 
 	if pair, ok = objObj.Pairs[idxUpper]; !ok {
 		return e.newError(node, fail.ErrPropertyNotFound, idx, object.OBJ_OBJ)
@@ -563,9 +565,14 @@ func (e *Evaluator) evalDotExp(node *ast.DotExp, env *object.Env) object.Object
 		return left
 	}
 
+	obj, isObj := left.(*object.Obj)
+	if !isObj {
+		return e.newError(node, fail.ErrDotOperatorNotSupported, left.Type())
+	}
+
 	key := node.Key.(*ast.Identifier)
 
-	return e.evalObjectIndexExp(left.(*object.Obj), key.Value, node)
+	return e.evalObjectIndexExp(obj, key.Value, node)
 }
 
 func (e *Evaluator) evalString(node *ast.StringLiteral, _ *object.Env) object.Object {
-- 
2.43.0


From 0389f495b87de9e3cd6bb504096589a773b5f837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:58 +0000
Subject: [PATCH 30/43] fix: report an unsupported value returned by a custom
 array function

---
 evaluator/evaluator.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index 8a03131..2fd4a31 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -750,7 +750,13 @@ func (e *Evaluator) evalCallExp(
 			fun := e.ctx.CustomFunc.Arr[funcName]
 			nativeElems := e.objectsToNativeType(receiverObj.(*object.Array).Elements)
 			res := fun(nativeElems, nativeArgs...)
-			return object.NativeToObject(res)
+
+			obj := object.NativeToObject(res)
+			if obj == nil {
+				return e.newError(node, fail.ErrUnsupportedType, res)
+			}
+
+			return obj
 		case object.INT_OBJ:
 			fun := e.ctx.CustomFunc.Int[funcName]
 			res := fun(int(receiverObj.(*object.Int).Value), nativeArgs...)
-- 
2.43.0


From 60135a6fe97dd5589babc7cdb5393c77714e71e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:19 +0000
Subject: [PATCH 31/43] fix: do not interpret the text of a native error as a
 format

---
 fail/fail.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fail/fail.go b/fail/fail.go
index e4cf8af..4e9e0fd 100644
--- a/fail/fail.go
+++ b/fail/fail.go
@@ -154,5 +154,10 @@ func FromError(err error, line uint, absPath, origin string, args ...any) *Error
 		return nil
 	}
 
+	// the message is not a format when there are no arguments for it
+	if len(args) == 0 {
+		return New(line, absPath, origin, "%s", err.Error())
+	}
+
 	return New(line, absPath, origin, err.Error(), args...)
 }
-- 
2.43.0


From a6a75f1ddf91766b6093aaaadfaf19c5804c65ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:21 +0000
Subject: [PATCH 32/43] fix: report a file that cannot be read with the path of
 the file that uses it

---
 parser_utils.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parser_utils.go b/parser_utils.go
index 906b8f4..27a8028 100644
--- a/parser_utils.go
+++ b/parser_utils.go
@@ -54,7 +54,7 @@ func parsePrograms(paths map[string]string) (map[string]*ast.Program, *fail.Erro
 			return nil, failErr
 		}
 
-		if err := applyLayoutToProgram(prog); err != nil {
+		if err := applyLayoutToProgram(prog, absPath); err != nil {
 			return nil, err
 		}
 
@@ -70,7 +70,7 @@ func parsePrograms(paths map[string]string) (map[string]*ast.Program, *fail.Erro
 	return result, nil
 }
 
-func applyLayoutToProgram(prog *ast.Program) *fail.Error {
+func applyLayoutToProgram(prog *ast.Program, progFilePath string) *fail.Error {
 	if !prog.HasUseStmt() {
 		return nil
 	}
@@ -84,7 +84,7 @@ func applyLayoutToProgram(prog *ast.Program) *fail.Error {
 
 	layoutProg, failErr, parseErr := parseProgram(layoutAbsPath)
 	if parseErr != nil {
-		return fail.FromError(parseErr, stmt.Line(), layoutAbsPath, "template")
+		return fail.FromError(parseErr, stmt.Line(), progFilePath, "template")
 	}
 
 	if failErr != nil {
@@ -119,7 +119,7 @@ func applyComponentToProgram(prog *ast.Program, progFilePath string) *fail.Error
 					fail.ErrUndefinedComponent, comp.Name.Value)
 			}
 
-			return fail.FromError(parseErr, comp.Line(), compAbsPath, "template")
+			return fail.FromError(parseErr, comp.Line(), progFilePath, "template")
 		}
 
 		if failErr != nil {
-- 
2.43.0


From ebad9d0814a9bf4c6d865a9f5f67ca9c0ddb00db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:56 +0000
Subject: [PATCH 33/43] fix: iterate over maps in sorted order so that
 rendering is deterministic

---
 ast/program.go         |  3 ++-
 evaluator/evaluator.go |  9 +++++----
 object/env.go          |  4 +++-
 object/obj.go          | 10 ++++++----
 parser_utils.go        |  4 +++-
 utils/maps.go          | 17 +++++++++++++++++
 6 files changed, 36 insertions(+), 11 deletions(-)
 create mode 100644 utils/maps.go

diff --git a/ast/program.go b/ast/program.go
index 3763a64..1db5380 100644
--- a/ast/program.go
+++ b/ast/program.go
@@ -5,6 +5,7 @@ import (
 
 	fail "github.com/textwire/textwire/v2/fail"
 	token "github.com/textwire/textwire/v2/token"
+	"github.com/textwire/textwire/v2/utils"
 )
 
 type Program struct {
@@ -135,7 +136,7 @@ func (p *Program) HasUseStmt() bool {
 }
 
 func (p *Program) checkUndefinedInsert(inserts map[string]*InsertStmt) *fail.Error {
-	for name := range inserts {
+	for _, name := range utils.SortedKeys(inserts) {
 		if _, ok := p.Reserves[name]; ok {
 			continue
 		}
diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index 2fd4a31..820e881 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -10,6 +10,7 @@ import (
 	"github.com/textwire/textwire/v2/ctx"
 	"github.com/textwire/textwire/v2/fail"
 	"github.com/textwire/textwire/v2/object"
+	"github.com/textwire/textwire/v2/utils"
 )
 
 var (
@@ -260,8 +261,8 @@ func (e *Evaluator) evalComponentStmt(node *ast.ComponentStmt, env *object.Env)
 	newEnv := object.NewEnclosedEnv(env)
 
 	if node.Argument != nil {
-		for key, arg := range node.Argument.Pairs {
-			val := e.Eval(arg, env)
+		for _, key := range utils.SortedKeys(node.Argument.Pairs) {
+			val := e.Eval(node.Argument.Pairs[key], env)
 
 			if isError(val) {
 				return val
@@ -636,8 +637,8 @@ func (e *Evaluator) evalArrayLiteral(
 func (e *Evaluator) evalObjectLiteral(node *ast.ObjectLiteral, env *object.Env) object.Object {
 	pairs := make(map[string]object.Object)
 
-	for key, value := range node.Pairs {
-		valueObj := e.Eval(value, env)
+	for _, key := range utils.SortedKeys(node.Pairs) {
+		valueObj := e.Eval(node.Pairs[key], env)
 
 		if isError(valueObj) {
 			return valueObj
diff --git a/object/env.go b/object/env.go
index 1bbc1a9..6dcbe25 100644
--- a/object/env.go
+++ b/object/env.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 
 	fail "github.com/textwire/textwire/v2/fail"
+	"github.com/textwire/textwire/v2/utils"
 )
 
 type Env struct {
@@ -26,7 +27,8 @@ func NewEnclosedEnv(outer *Env) *Env {
 func EnvFromMap(data map[string]any) (*Env, *fail.Error) {
 	env := NewEnv()
 
-	for key, val := range data {
+	for _, key := range utils.SortedKeys(data) {
+		val := data[key]
 		obj := NativeToObject(val)
 
 		if obj == nil {
diff --git a/object/obj.go b/object/obj.go
index ee2dad8..29caa64 100644
--- a/object/obj.go
+++ b/object/obj.go
@@ -4,6 +4,8 @@ import (
 	"bytes"
 	"fmt"
 	"strings"
+
+	"github.com/textwire/textwire/v2/utils"
 )
 
 type Obj struct {
@@ -22,8 +24,8 @@ func (o *Obj) String() string {
 	idx := 0
 	last := len(o.Pairs) - 1
 
-	for key, pair := range o.Pairs {
-		out.WriteString(key + ": " + pair.String())
+	for _, key := range utils.SortedKeys(o.Pairs) {
+		out.WriteString(key + ": " + o.Pairs[key].String())
 
 		if idx != last {
 			out.WriteString(", ")
@@ -48,11 +50,11 @@ func (o *Obj) Dump(ident int) string {
 
 	insideSpaces := strings.Repeat("  ", ident)
 
-	for key, pair := range o.Pairs {
+	for _, key := range utils.SortedKeys(o.Pairs) {
 		out.WriteString(insideSpaces)
 		out.WriteString(`<span class="textwire-prop">"` + key + `"</span>`)
 		out.WriteString(": ")
-		out.WriteString(pair.Dump(ident))
+		out.WriteString(o.Pairs[key].Dump(ident))
 		out.WriteString(",\n")
 	}
 
diff --git a/parser_utils.go b/parser_utils.go
index 27a8028..14632bb 100644
--- a/parser_utils.go
+++ b/parser_utils.go
@@ -8,6 +8,7 @@ import (
 	"github.com/textwire/textwire/v2/fail"
 	"github.com/textwire/textwire/v2/lexer"
 	"github.com/textwire/textwire/v2/parser"
+	"github.com/textwire/textwire/v2/utils"
 )
 
 func parseStr(text string) (*ast.Program, []*fail.Error) {
@@ -44,7 +45,8 @@ func parseProgram(absPath string) (*ast.Program, *fail.Error, error) {
 func parsePrograms(paths map[string]string) (map[string]*ast.Program, *fail.Error) {
 	var result = map[string]*ast.Program{}
 
-	for name, absPath := range paths {
+	for _, name := range utils.SortedKeys(paths) {
+		absPath := paths[name]
 		prog, failErr, parseErr := parseProgram(absPath)
 		if parseErr != nil {
 			return nil, fail.FromError(parseErr, 0, absPath, "template")
diff --git a/utils/maps.go b/utils/maps.go
new file mode 100644
index 0000000..12ad085
--- /dev/null
+++ b/utils/maps.go
@@ -0,0 +1,17 @@
+package utils
+
+import "sort"
+
+// SortedKeys returns the keys of the map in alphabetical
+// order, so that iterating over a map is deterministic
+func SortedKeys[T any](m map[string]T) []string {
+	keys := make([]string, 0, len(m))
+
+	for key := range m {
+		keys = append(keys, key)
+	}
+
+	sort.Strings(keys)
+
+	return keys
+}
-- 
2.43.0


From 0f24ca7199dd7a6f95ae281dc7651e61b7111d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:15 +0000
Subject: [PATCH 34/43] fix: make error paths independent of concurrent and
 earlier string evaluations

---
 files.go        | 8 +++++++-
 parser_utils.go | 4 ++--
 template.go     | 2 +-
 textwire.go     | 9 +++++----
 4 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/files.go b/files.go
index 379ee3f..0a99895 100644
--- a/files.go
+++ b/files.go
@@ -8,7 +8,7 @@ import (
 )
 
 func getFullPath(filename string, appendExt bool) (string, error) {
-	if usesTemplates {
+	if usesTemplates.Load() {
 		filename = joinPaths(userConfig.TemplateDir, filename)
 	}
 
@@ -24,6 +24,12 @@ func getFullPath(filename string, appendExt bool) (string, error) {
 	return absPath, nil
 }
 
+// templatePath returns the absolute path of a template file. It doesn't
+// depend on whether strings were evaluated before.
+func templatePath(name string) (string, error) {
+	return filepath.Abs(joinPaths(userConfig.TemplateDir, name) + userConfig.TemplateExt)
+}
+
 func joinPaths(path1, path2 string) string {
 	return strings.TrimRight(path1, "/") + "/" + strings.TrimLeft(path2, "/")
 }
diff --git a/parser_utils.go b/parser_utils.go
index 14632bb..ef0216c 100644
--- a/parser_utils.go
+++ b/parser_utils.go
@@ -79,7 +79,7 @@ func applyLayoutToProgram(prog *ast.Program, progFilePath string) *fail.Error {
 
 	layoutName := prog.UseStmt.Name.Value
 	stmt := prog.UseStmt
-	layoutAbsPath, err := getFullPath(layoutName, true)
+	layoutAbsPath, err := templatePath(layoutName)
 	if err != nil {
 		return fail.FromError(err, stmt.Line(), layoutAbsPath, "template")
 	}
@@ -108,7 +108,7 @@ func applyLayoutToProgram(prog *ast.Program, progFilePath string) *fail.Error {
 func applyComponentToProgram(prog *ast.Program, progFilePath string) *fail.Error {
 	for _, comp := range prog.Components {
 		compName := comp.Name.Value
-		compAbsPath, err := getFullPath(compName, true)
+		compAbsPath, err := templatePath(compName)
 		if err != nil {
 			return fail.FromError(err, 0, "", "template")
 		}
diff --git a/template.go b/template.go
index 21271a2..d1149f6 100644
--- a/template.go
+++ b/template.go
@@ -22,7 +22,7 @@ func (t *Template) String(filename string, data map[string]any) (string, *fail.E
 		return "", envErr
 	}
 
-	absPath, err := getFullPath(filename, true)
+	absPath, err := templatePath(filename)
 	if err != nil {
 		return "", fail.New(0, filename, "template", "%s", err.Error())
 	}
diff --git a/textwire.go b/textwire.go
index d384894..1fdd54a 100644
--- a/textwire.go
+++ b/textwire.go
@@ -2,6 +2,7 @@ package textwire
 
 import (
 	"strings"
+	"sync/atomic"
 
 	"github.com/textwire/textwire/v2/config"
 	"github.com/textwire/textwire/v2/ctx"
@@ -14,7 +15,7 @@ var userConfig = config.New("templates", ".tw.html", "", false)
 var customFunc = config.NewFunc()
 
 // usesTemplates is a flag to check if user uses Textwire templates or not
-var usesTemplates = false
+var usesTemplates atomic.Bool
 
 func NewTemplate(opt *config.Config) (*Template, error) {
 	Configure(opt)
@@ -34,7 +35,7 @@ func NewTemplate(opt *config.Config) (*Template, error) {
 }
 
 func EvaluateString(inp string, data map[string]any) (string, error) {
-	usesTemplates = false
+	usesTemplates.Store(false)
 
 	prog, errs := parseStr(inp)
 
@@ -60,7 +61,7 @@ func EvaluateString(inp string, data map[string]any) (string, error) {
 }
 
 func EvaluateFile(absPath string, data map[string]any) (string, error) {
-	usesTemplates = false
+	usesTemplates.Store(false)
 
 	content, err := fileContent(absPath)
 	if err != nil {
@@ -126,7 +127,7 @@ func RegisterBoolFunc(name string, fn config.BoolCustomFunc) error {
 }
 
 func Configure(opt *config.Config) {
-	usesTemplates = true
+	usesTemplates.Store(true)
 
 	if opt == nil {
 		return
-- 
2.43.0


From f8bb967ee402dccd869e78b7d3b0c7db55d08538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:39 +0000
Subject: [PATCH 35/43] fix: register exactly the files with the extension
 under their relative names

---
 files.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/files.go b/files.go
index 0a99895..96c16e2 100644
--- a/files.go
+++ b/files.go
@@ -54,7 +54,7 @@ func findTextwireFiles() (map[string]string, error) {
 			return err
 		}
 
-		if info.IsDir() || !strings.Contains(path, userConfig.TemplateExt) {
+		if info.IsDir() || !strings.HasSuffix(info.Name(), userConfig.TemplateExt) {
 			return nil
 		}
 
@@ -64,7 +64,13 @@ func findTextwireFiles() (map[string]string, error) {
 			return err
 		}
 
-		result[nameFromPath(path)] = absPath
+		name, err := nameFromPath(path)
+
+		if err != nil {
+			return err
+		}
+
+		result[name] = absPath
 
 		return nil
 	})
@@ -76,8 +82,12 @@ func findTextwireFiles() (map[string]string, error) {
 	return result, nil
 }
 
-func nameFromPath(path string) string {
-	name := strings.Replace(path, userConfig.TemplateDir+"/", "", 1)
-	name = strings.Replace(name, userConfig.TemplateExt, "", 1)
-	return name
+func nameFromPath(path string) (string, error) {
+	name, err := filepath.Rel(userConfig.TemplateDir, path)
+
+	if err != nil {
+		return "", err
+	}
+
+	return strings.TrimSuffix(filepath.ToSlash(name), userConfig.TemplateExt), nil
 }
-- 
2.43.0


From f53cfb0cfdb0ed259a9324f183e10fad85feb78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:03 +0000
Subject: [PATCH 36/43] fix: skip consecutive comments without recursion

---
 lexer/lexer.go | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 6fea3eb..05a5d24 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -102,24 +102,22 @@ func (l *Lexer) NextToken() token.Token {
 		l.skipWhitespace()
 	}
 
-	if l.isEOF() {
-		l.tokenBegins()
-		return l.newToken(token.EOF, "")
-	}
-
-	if l.char == '{' && l.peekChar() == '{' {
+	for l.char == '{' && l.peekChar() == '{' {
 		pos := l.pos
 		tok := l.bracesToken(token.LBRACES, "{{")
 
-		if l.char == '-' && l.peekChar() == '-' {
-			if !l.skipComment() {
-				return l.newToken(token.ILLEGAL, l.input[pos:])
-			}
+		if l.char != '-' || l.peekChar() != '-' {
+			return tok
+		}
 
-			return l.NextToken()
+		if !l.skipComment() {
+			return l.newToken(token.ILLEGAL, l.input[pos:])
 		}
+	}
 
-		return tok
+	if l.isEOF() {
+		l.tokenBegins()
+		return l.newToken(token.EOF, "")
 	}
 
 	if !l.isHTML && l.char == '}' && l.peekChar() == '}' && l.countCurlyBraces == 0 {
-- 
2.43.0


From 20320e4df5a6092a94ee9f29e5457b6165b838e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:32 +0000
Subject: [PATCH 37/43] fix: reject directive names that are not strings, so
 that an unterminated argument list is an error

---
 parser/parser.go | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 5159d06..b3168c3 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -460,7 +460,9 @@ func (p *Parser) parseUseStmt() ast.Statement {
 		return nil
 	}
 
-	p.nextToken() // skip "("
+	if !p.expectPeek(token.STR) { // move to the name
+		return nil
+	}
 
 	stmt.Name = &ast.StringLiteral{
 		Token: p.curToken,
@@ -525,7 +527,9 @@ func (p *Parser) parseComponentStmt() ast.Statement {
 		return nil
 	}
 
-	p.nextToken() // skip "("
+	if !p.expectPeek(token.STR) { // move to the name
+		return nil
+	}
 
 	stmt.Name = &ast.StringLiteral{
 		Token: p.curToken,
@@ -596,7 +600,9 @@ func (p *Parser) parseSlotStmt() *ast.SlotStmt {
 	}
 
 	p.nextToken() // skip "@slot"
-	p.nextToken() // skip "("
+	if !p.expectPeek(token.STR) { // move to the name
+		return nil
+	}
 
 	slotName := &ast.StringLiteral{
 		Token: p.curToken,
@@ -644,7 +650,9 @@ func (p *Parser) parseSlots() []*ast.SlotStmt {
 
 		if p.peekTokenIs(token.LPAREN) {
 			p.nextToken() // move to "("
-			p.nextToken() // skip "("
+			if !p.expectPeek(token.STR) { // move to the name
+				return nil
+			}
 
 			slotName.Token = p.curToken
 			slotName.Value = p.curToken.Literal
@@ -689,7 +697,9 @@ func (p *Parser) parseReserveStmt() ast.Statement {
 		return nil
 	}
 
-	p.nextToken() // skip "("
+	if !p.expectPeek(token.STR) { // move to the name
+		return nil
+	}
 
 	stmt.Name = &ast.StringLiteral{
 		Token: p.curToken,
@@ -715,7 +725,9 @@ func (p *Parser) parseInsertStmt() ast.Statement {
 		return nil
 	}
 
-	p.nextToken() // skip "("
+	if !p.expectPeek(token.STR) { // move to the name
+		return nil
+	}
 
 	stmt.Name = &ast.StringLiteral{
 		Token: p.curToken, // The name of the insert statement
@@ -1018,7 +1030,9 @@ func (p *Parser) parseEachStmt() *ast.EachStmt {
 		return nil
 	}
 
-	p.nextToken() // skip "("
+	if !p.expectPeek(token.IDENT) { // move to the variable
+		return nil
+	}
 
 	stmt.Var = &ast.Identifier{
 		Token: p.curToken, // identifier
-- 
2.43.0


From 51a0331ad9ee055b5424f8358d5e787802c1b6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:21 +0000
Subject: [PATCH 38/43] fix: give the @each and @dump tokens their names

---
 token/utils.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/token/utils.go b/token/utils.go
index cb1b181..eb82ba6 100644
--- a/token/utils.go
+++ b/token/utils.go
@@ -53,6 +53,7 @@ var tokens = [...]string{
 	RESERVE:     "@reserve",
 	INSERT:      "@insert",
 	FOR:         "@for",
+	EACH:        "@each",
 	BREAK:       "@break",
 	CONTINUE:    "@continue",
 	BREAK_IF:    "@breakIf",
@@ -63,6 +64,7 @@ var tokens = [...]string{
 	END:         "@end",
 	COMPONENT:   "@component",
 	SLOT:        "@slot",
+	DUMP:        "@dump",
 }
 
 func String(t TokenType) string {
-- 
2.43.0


From 43d38de22555260038bd869c8bdc6ca648ed58d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:52 +0000
Subject: [PATCH 39/43] fix: accept reserved words as property names after a
 dot, like "user.in" for the field In

---
 parser/parser.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index b3168c3..c827cf5 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -817,8 +817,13 @@ func (p *Parser) parseDotExp(left ast.Expression) ast.Expression {
 		Left:  left,
 	}
 
-	if !p.expectPeek(token.IDENT) { // skip "." and move to identifier
-		return nil
+	switch p.peekToken.Type {
+	case token.TRUE, token.FALSE, token.NIL, token.IN:
+		p.nextToken() // reserved words are names after a dot
+	default:
+		if !p.expectPeek(token.IDENT) { // skip "." and move to identifier
+			return nil
+		}
 	}
 
 	if p.peekTokenIs(token.LPAREN) {
-- 
2.43.0


From 88504098c6be4c188e8c1714931f614ca9f92cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:52 +0000
Subject: [PATCH 40/43] fix: find properties whose names have HTML characters
 with the index operator

---
 evaluator/evaluator.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index 820e881..c18a068 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -515,7 +515,14 @@ func (e *Evaluator) evalIndexExp(
 	case left.Is(object.ARR_OBJ) && idx.Is(object.INT_OBJ):
 		return e.evalArrayIndexExp(left, idx)
 	case left.Is(object.OBJ_OBJ) && idx.Is(object.STR_OBJ):
-		return e.evalObjectIndexExp(left.(*object.Obj), idx.(*object.Str).Value, node.Index)
+		key := idx.(*object.Str).Value
+
+		// the name of a property is not output, so it's not escaped
+		if literal, ok := node.Index.(*ast.StringLiteral); ok {
+			key = literal.Value
+		}
+
+		return e.evalObjectIndexExp(left.(*object.Obj), key, node.Index)
 	}
 
 	return e.newError(node, fail.ErrIndexNotSupported, left.Type())
-- 
2.43.0


From ed476698c07555b04d11ca74c034deb56a0c3643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:27 +0000
Subject: [PATCH 41/43] fix: report @use inside of @insert instead of
 overflowing the stack

---
 fail/fail.go     | 1 +
 parser/parser.go | 8 ++++++++
 2 files changed, 9 insertions(+)

diff --git a/fail/fail.go b/fail/fail.go
index 4e9e0fd..f5f85bf 100644
--- a/fail/fail.go
+++ b/fail/fail.go
@@ -27,6 +27,7 @@ const (
 	ErrUndefinedComponent        = "component '%s' is not defined. Check if component exists"
 	ErrUndefinedInsert           = "insert with the name '%s' is not defined in layout. Check if you have a matching reserve statement with the same name"
 	ErrNestingTooDeep            = "statements and expressions cannot be nested deeper than %d levels"
+	ErrUseStmtInsideInsert       = "the '@use' statement is not allowed inside of '@insert'"
 	ErrDuplicateInserts          = "duplicate insert statements with the name '%s' found"
 
 	// Evaluator (interpreter) errors
diff --git a/parser/parser.go b/parser/parser.go
index c827cf5..6a93c2f 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -760,8 +760,16 @@ func (p *Parser) parseInsertStmt() ast.Statement {
 	}
 
 	if hasBody {
+		useStmt := p.useStmt
+
 		stmt.Block = p.parseBlockStmt()
 
+		// the layout would be rendered inside of itself
+		if p.useStmt != useStmt {
+			p.newError(p.useStmt.Line(), fail.ErrUseStmtInsideInsert)
+			return nil
+		}
+
 		if !p.expectPeek(token.END) { // move to "@end"
 			return nil
 		}
-- 
2.43.0


From 89fb97ff00d4fac35652465d6b1e6373a915ba38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:46 +0000
Subject: [PATCH 42/43] fix: escape the keys of printed and dumped objects like
 string literals

---
 object/obj.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/object/obj.go b/object/obj.go
index 29caa64..7abb893 100644
--- a/object/obj.go
+++ b/object/obj.go
@@ -3,6 +3,7 @@ package object
 import (
 	"bytes"
 	"fmt"
+	"html"
 	"strings"
 
 	"github.com/textwire/textwire/v2/utils"
@@ -25,7 +26,7 @@ func (o *Obj) String() string {
 	last := len(o.Pairs) - 1
 
 	for _, key := range utils.SortedKeys(o.Pairs) {
-		out.WriteString(key + ": " + o.Pairs[key].String())
+		out.WriteString(escapedKey(key) + ": " + o.Pairs[key].String())
 
 		if idx != last {
 			out.WriteString(", ")
@@ -52,7 +53,7 @@ func (o *Obj) Dump(ident int) string {
 
 	for _, key := range utils.SortedKeys(o.Pairs) {
 		out.WriteString(insideSpaces)
-		out.WriteString(`<span class="textwire-prop">"` + key + `"</span>`)
+		out.WriteString(`<span class="textwire-prop">"` + escapedKey(key) + `"</span>`)
 		out.WriteString(": ")
 		out.WriteString(o.Pairs[key].Dump(ident))
 		out.WriteString(",\n")
@@ -76,3 +77,9 @@ func (o *Obj) Val() any {
 func (o *Obj) Is(t ObjectType) bool {
 	return t == o.Type()
 }
+
+// escapedKey escapes a key for the output like a string literal is
+// escaped, single and double quotes stay as they are
+func escapedKey(key string) string {
+	return strings.NewReplacer("&#34;", `"`, "&#39;", "'").Replace(html.EscapeString(key))
+}
-- 
2.43.0


From 4a3d6d0d327efa8352159684ee5eed406156f2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:46 +0000
Subject: [PATCH 43/43] fix: errors of a page name the file that was loaded

---
 template.go | 15 ++++++++++++++-
 textwire.go |  2 +-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/template.go b/template.go
index d1149f6..ea28270 100644
--- a/template.go
+++ b/template.go
@@ -13,6 +13,9 @@ import (
 
 type Template struct {
 	programs map[string]*ast.Program
+
+	// paths are the absolute paths of the loaded files
+	paths map[string]string
 }
 
 func (t *Template) String(filename string, data map[string]any) (string, *fail.Error) {
@@ -22,7 +25,7 @@ func (t *Template) String(filename string, data map[string]any) (string, *fail.E
 		return "", envErr
 	}
 
-	absPath, err := templatePath(filename)
+	absPath, err := t.absPath(filename)
 	if err != nil {
 		return "", fail.New(0, filename, "template", "%s", err.Error())
 	}
@@ -80,3 +83,13 @@ func (t *Template) responseErrorPage(w http.ResponseWriter) error {
 
 	return nil
 }
+
+// absPath returns the absolute path of a template. The path of a loaded
+// file doesn't depend on what was configured after it was loaded.
+func (t *Template) absPath(filename string) (string, error) {
+	if path, ok := t.paths[filename]; ok {
+		return path, nil
+	}
+
+	return templatePath(filename)
+}
diff --git a/textwire.go b/textwire.go
index 1fdd54a..d37a5b8 100644
--- a/textwire.go
+++ b/textwire.go
@@ -31,7 +31,7 @@ func NewTemplate(opt *config.Config) (*Template, error) {
 		return nil, parseErr.Error()
 	}
 
-	return &Template{programs: programs}, nil
+	return &Template{programs: programs, paths: paths}, nil
 }
 
 func EvaluateString(inp string, data map[string]any) (string, error) {
-- 
2.43.0

