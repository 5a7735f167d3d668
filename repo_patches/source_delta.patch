From 7e784444bd6ea6edca383e7c9426c3959dd57bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:26 +0000
Subject: [PATCH 01/26] fix: shift operators bind tighter than comparisons

---
 expressions.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/expressions.go b/expressions.go
index 7767134..f03f83a 100644
--- a/expressions.go
+++ b/expressions.go
@@ -352,14 +352,23 @@ func parseExpressionWithLevel(l *Lexer, c *Compiler, level int) (value.Value, er
 			continue
 		}
 
-		// Comparison operators (level 6)
-		if level >= 6 && (ch == '<' || ch == '>') && !handled {
+		// Comparison operators (level 6) and shifts (level 5)
+		if level >= 5 && (ch == '<' || ch == '>') && !handled {
+			ch2, err2 := l.ReadChar()
+			if level < 6 && (err2 != nil || ch2 != ch) {
+				// Comparisons bind looser than shifts
+				if err2 == nil {
+					l.UnreadChar(ch2)
+				}
+				l.UnreadChar(ch)
+				break
+			}
+
 			if isLvalue {
 				left = c.builder.NewLoad(c.WordType(), left)
 				isLvalue = false
 			}
 
-			ch2, err2 := l.ReadChar()
 			var right value.Value
 
 			if ch == '<' {
-- 
2.43.0


From cfcb791d9e01639839909bd406fb95e448877418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:40 +0000
Subject: [PATCH 02/26] fix: statements after return do not alter what it does

---
 parser_stmt.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser_stmt.go b/parser_stmt.go
index 77d5221..cfccd82 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -173,6 +173,11 @@ func parseReturn(l *Lexer, c *Compiler) error {
 		c.builder.NewRet(constant.NewInt(c.WordType(), 0))
 	}
 
+	// Code after the return is unreachable: keep it out of the returning block
+	deadBlock := c.NewBlock(fmt.Sprintf("unreachable.%d", c.labelID))
+	c.labelID++
+	c.SetInsertPoint(deadBlock)
+
 	return nil
 }
 
-- 
2.43.0


From 53ebd0fccb14d9d3b83e4c832515bc299149eb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:53 +0000
Subject: [PATCH 03/26] fix: keep the character that follows else

---
 parser_stmt.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser_stmt.go b/parser_stmt.go
index cfccd82..bce4a96 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -408,9 +408,11 @@ func parseIf(l *Lexer, c *Compiler) error {
 		// Check that next char is not alphanumeric
 		ch, err := l.ReadChar()
 		if err == nil {
-			readChars = append(readChars, ch)
-			if unicode.IsLetter(ch) || unicode.IsDigit(ch) {
+			if unicode.IsLetter(ch) || unicode.IsDigit(ch) || ch == '_' {
 				isElse = false
+				readChars = append(readChars, ch)
+			} else {
+				l.UnreadChar(ch)
 			}
 		}
 	}
-- 
2.43.0


From eb0d67d7c6971daa83b938da87d484d5664f0689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:20 +0000
Subject: [PATCH 04/26] fix: store the bytes of string literals unchanged

---
 lexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lexer.go b/lexer.go
index 47b4940..fa2a66b 100644
--- a/lexer.go
+++ b/lexer.go
@@ -245,7 +245,7 @@ func (l *Lexer) Character() (int64, error) {
 
 // String parses a string literal
 func (l *Lexer) String() (string, error) {
-	var result []rune
+	var result []byte
 
 	for {
 		c, err := l.ReadChar()
@@ -267,7 +267,7 @@ func (l *Lexer) String() (string, error) {
 			}
 		}
 
-		result = append(result, c)
+		result = append(result, byte(c))
 	}
 }
 
-- 
2.43.0


From 0f4d9a214fa5cc61a8cbd67d9fcb3fcc2368a7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:32 +0000
Subject: [PATCH 05/26] fix: keep words at the start of a statement separate

---
 parser_stmt.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser_stmt.go b/parser_stmt.go
index bce4a96..c26f12c 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -123,6 +123,7 @@ func parseKeywordOrExpressionWithSwitch(l *Lexer, c *Compiler, switchID int64, c
 
 		// Otherwise it's an expression
 		l.UnreadChar(ch)
+		l.UnreadChar(' ') // keep the name apart from what follows
 		for i := len(name) - 1; i >= 0; i-- {
 			l.UnreadChar(rune(name[i]))
 		}
-- 
2.43.0


From 4a83ebe88a6b5a0bc83ee5ba5289b272c8d84531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:45 +0000
Subject: [PATCH 06/26] fix: accept white space before ( and [ in definitions
 and inside empty parentheses

---
 expressions.go  | 3 +++
 parser_decls.go | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/expressions.go b/expressions.go
index f03f83a..dc8f48a 100644
--- a/expressions.go
+++ b/expressions.go
@@ -698,6 +698,9 @@ func parsePostfix(l *Lexer, c *Compiler) (value.Value, bool, error) {
 
 			var args []value.Value
 			for {
+				if err := l.Whitespace(); err != nil {
+					return nil, false, err
+				}
 				ch, err := l.ReadChar()
 				if err != nil {
 					return nil, false, err
diff --git a/parser_decls.go b/parser_decls.go
index 4d9a9b3..89d5704 100644
--- a/parser_decls.go
+++ b/parser_decls.go
@@ -20,6 +20,9 @@ func ParseDeclarations(l *Lexer, c *Compiler) error {
 			break
 		}
 
+		if err := l.Whitespace(); err != nil {
+			return err
+		}
 		ch, err := l.ReadChar()
 		if err != nil {
 			if err == io.EOF {
@@ -245,6 +248,9 @@ func parseIvalConst(l *Lexer, c *Compiler) (constant.Constant, error) {
 
 // parseFunction parses a function definition
 func parseFunction(l *Lexer, c *Compiler, name string) error {
+	if err := l.Whitespace(); err != nil {
+		return err
+	}
 	ch, err := l.ReadChar()
 	if err != nil {
 		return err
-- 
2.43.0


From 7dfe17e8bb84b6b6e5e25209cde828943a78999a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:13 +0000
Subject: [PATCH 07/26] fix: reject numbers without digits, names starting with
 a digit and f(a,)

---
 expressions.go | 2 +-
 lexer.go       | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/expressions.go b/expressions.go
index dc8f48a..676d561 100644
--- a/expressions.go
+++ b/expressions.go
@@ -705,7 +705,7 @@ func parsePostfix(l *Lexer, c *Compiler) (value.Value, bool, error) {
 				if err != nil {
 					return nil, false, err
 				}
-				if ch == ')' {
+				if ch == ')' && len(args) == 0 {
 					break
 				}
 				l.UnreadChar(ch)
diff --git a/lexer.go b/lexer.go
index fa2a66b..4d58217 100644
--- a/lexer.go
+++ b/lexer.go
@@ -142,7 +142,9 @@ func (l *Lexer) Identifier() (string, error) {
 			return "", err
 		}
 
-		if !unicode.IsLetter(c) && !unicode.IsDigit(c) && c != '_' {
+		// A digit cannot start an identifier
+		isDigit := unicode.IsDigit(c) && len(result) > 0
+		if !unicode.IsLetter(c) && !isDigit && c != '_' {
 			l.UnreadChar(c)
 			return string(result), nil
 		}
@@ -161,6 +163,9 @@ func (l *Lexer) Number() (int64, error) {
 	if err != nil {
 		return 0, err
 	}
+	if !unicode.IsDigit(c) {
+		return 0, fmt.Errorf("unexpected character '%c', expect number", c)
+	}
 
 	base := 10
 	if c == '0' {
-- 
2.43.0


From 6bb579ded8a63a5933045d78b37f9cb55c40f1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:29 +0000
Subject: [PATCH 08/26] fix: names starting with an underscore can be used in
 statements and expressions

---
 expressions.go | 2 +-
 parser_stmt.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/expressions.go b/expressions.go
index 676d561..cab644f 100644
--- a/expressions.go
+++ b/expressions.go
@@ -882,7 +882,7 @@ func parsePrimary(l *Lexer, c *Compiler) (value.Value, bool, error) {
 		}
 		return constant.NewInt(c.WordType(), val), false, nil
 
-	case unicode.IsLetter(ch):
+	case unicode.IsLetter(ch) || ch == '_':
 		// Identifier
 		l.UnreadChar(ch)
 		name, err := l.Identifier()
diff --git a/parser_stmt.go b/parser_stmt.go
index c26f12c..5faaf76 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -50,7 +50,7 @@ func parseStatementWithSwitch(l *Lexer, c *Compiler, switchID int64, cases *[]in
 		// Null statement
 
 	default:
-		if unicode.IsLetter(ch) {
+		if unicode.IsLetter(ch) || ch == '_' {
 			l.UnreadChar(ch)
 			return parseKeywordOrExpressionWithSwitch(l, c, switchID, cases)
 		} else {
-- 
2.43.0


From a04ce9227f649ae4eefc02417c8db32b23b7090e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:19 +0000
Subject: [PATCH 09/26] fix: reject undefined labels, duplicate labels and
 duplicate cases

---
 irbuilder.go    | 23 +++++++++++++++++++++++
 parser_decls.go |  3 +++
 parser_stmt.go  | 10 +++++++++-
 3 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/irbuilder.go b/irbuilder.go
index 07842fc..dad0c85 100644
--- a/irbuilder.go
+++ b/irbuilder.go
@@ -23,6 +23,8 @@ type Compiler struct {
 	stringID  int                    // unique id for string constants
 	labelID   int                    // counter for labels
 	labels    map[string]*ir.Block   // named labels for goto
+	gotos     []string               // label names used by goto, in source order
+	defined   map[string]bool        // labels and cases already defined
 	// Store original parameter names for variadic functions
 	functionParams map[string][]string // function name -> original parameter names
 	// Cache for function types to avoid duplicate declarations
@@ -315,6 +317,8 @@ func (c *Compiler) StartFunction(fn *ir.Func) {
 	c.currentFn = fn
 	c.locals = make(map[string]value.Value)
 	c.labels = make(map[string]*ir.Block)
+	c.gotos = nil
+	c.defined = make(map[string]bool)
 	c.builder = fn.NewBlock("entry")
 
 	// Get the function name to look up original parameters
@@ -514,6 +518,25 @@ func (c *Compiler) GetInsertBlock() *ir.Block {
 	return c.builder
 }
 
+// DefineLabel marks a label as defined, and reports whether it is the first definition
+func (c *Compiler) DefineLabel(name string) bool {
+	if c.defined[name] {
+		return false
+	}
+	c.defined[name] = true
+	return true
+}
+
+// UndefinedLabel returns the first label used by goto but not defined, or ""
+func (c *Compiler) UndefinedLabel() string {
+	for _, name := range c.gotos {
+		if !c.defined[name] {
+			return name
+		}
+	}
+	return ""
+}
+
 // GetOrCreateLabel gets an existing label block or creates a new one
 func (c *Compiler) GetOrCreateLabel(name string) *ir.Block {
 	if block, ok := c.labels[name]; ok {
diff --git a/parser_decls.go b/parser_decls.go
index 89d5704..c368dab 100644
--- a/parser_decls.go
+++ b/parser_decls.go
@@ -271,6 +271,9 @@ func parseFunction(l *Lexer, c *Compiler, name string) error {
 	if err := parseStatementWithSwitch(l, c, -1, nil); err != nil {
 		return err
 	}
+	if label := c.UndefinedLabel(); label != "" {
+		return fmt.Errorf("undefined label '%s'", label)
+	}
 
 	c.EndFunction()
 	return nil
diff --git a/parser_stmt.go b/parser_stmt.go
index 5faaf76..165669b 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -107,6 +107,9 @@ func parseKeywordOrExpressionWithSwitch(l *Lexer, c *Compiler, switchID int64, c
 		}
 		if ch == ':' {
 			// Label - get or create labeled block
+			if !c.DefineLabel(name) {
+				return fmt.Errorf("label '%s' already defined", name)
+			}
 			block := c.GetOrCreateLabel(name)
 
 			// Only create a branch if the current block has no terminator
@@ -493,6 +496,7 @@ func parseGoto(l *Lexer, c *Compiler) error {
 	}
 
 	// Get or create the target label block
+	c.gotos = append(c.gotos, label)
 	targetBlock := c.GetOrCreateLabel(label)
 
 	// Branch to the label
@@ -610,7 +614,11 @@ func parseCase(l *Lexer, c *Compiler, switchID int64, cases *[]int64) error {
 	*cases = append(*cases, value)
 
 	// Create label for this case
-	caseBlock := c.GetOrCreateLabel(fmt.Sprintf("case.%d.%d", switchID, value))
+	caseName := fmt.Sprintf("case.%d.%d", switchID, value)
+	if !c.DefineLabel(caseName) {
+		return fmt.Errorf("duplicate case %d in 'switch' statement", value)
+	}
+	caseBlock := c.GetOrCreateLabel(caseName)
 
 	// Jump to case block if current block has no terminator
 	if c.builder.Term == nil {
-- 
2.43.0


From 5b9174c4837d13e7ac209d3918a6f30f21e09695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:42 +0000
Subject: [PATCH 10/26] fix: labels named entry or as a parameter do not clash
 with other names

---
 irbuilder.go   | 2 +-
 parser_stmt.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/irbuilder.go b/irbuilder.go
index dad0c85..b26c91a 100644
--- a/irbuilder.go
+++ b/irbuilder.go
@@ -236,7 +236,7 @@ func (c *Compiler) DeclareFunction(name string, paramNames []string) *ir.Func {
 		fn = c.module.NewFunc(c.globalName(name), c.WordType())
 	} else {
 		// One or more parameters: variadic with first parameter as fixed
-		firstParam := ir.NewParam(paramNames[0], c.WordType())
+		firstParam := ir.NewParam("param."+paramNames[0], c.WordType())
 		fn = c.module.NewFunc(c.globalName(name), c.WordType(), firstParam)
 		fn.Sig.Variadic = true
 	}
diff --git a/parser_stmt.go b/parser_stmt.go
index 165669b..4e39a10 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -110,7 +110,7 @@ func parseKeywordOrExpressionWithSwitch(l *Lexer, c *Compiler, switchID int64, c
 			if !c.DefineLabel(name) {
 				return fmt.Errorf("label '%s' already defined", name)
 			}
-			block := c.GetOrCreateLabel(name)
+			block := c.GetOrCreateLabel("label." + name)
 
 			// Only create a branch if the current block has no terminator
 			// This handles fall-through to labels
@@ -497,7 +497,7 @@ func parseGoto(l *Lexer, c *Compiler) error {
 
 	// Get or create the target label block
 	c.gotos = append(c.gotos, label)
-	targetBlock := c.GetOrCreateLabel(label)
+	targetBlock := c.GetOrCreateLabel("label." + label)
 
 	// Branch to the label
 	c.builder.NewBr(targetBlock)
-- 
2.43.0


From c7b0db5c13e3e82b2a503be18ca5b46126570f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:17 +0000
Subject: [PATCH 11/26] fix: reject duplicate parameter names

---
 parser_decls.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser_decls.go b/parser_decls.go
index c368dab..c7df51d 100644
--- a/parser_decls.go
+++ b/parser_decls.go
@@ -292,6 +292,11 @@ func parseArguments(l *Lexer) ([]string, error) {
 		if err != nil || name == "" {
 			return nil, fmt.Errorf("expect ')' or identifier after function arguments")
 		}
+		for _, param := range params {
+			if param == name {
+				return nil, fmt.Errorf("parameter '%s' already defined", name)
+			}
+		}
 
 		params = append(params, name)
 
-- 
2.43.0


From 6bff5ff8ff38ce1450a6a35ffd99c9c9288dec0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:32 +0000
Subject: [PATCH 12/26] fix: calling a local variable goes through its value

---
 expressions.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/expressions.go b/expressions.go
index cab644f..6c2c83e 100644
--- a/expressions.go
+++ b/expressions.go
@@ -902,6 +902,11 @@ func parsePrimary(l *Lexer, c *Compiler) (value.Value, bool, error) {
 
 		// If it's a call, handle both direct and indirect calls
 		if isCall {
+			// A local variable holds a function pointer
+			if addr, ok := c.locals[name]; ok {
+				return addr, true, nil
+			}
+
 			// Check for a declared function in module
 			if fn := c.findFuncByName(name); fn != nil {
 				return fn, false, nil
-- 
2.43.0


From 976edc140bb374cdb9640cb9d095d110e0b4a9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:46 +0000
Subject: [PATCH 13/26] fix: reject a name defined both as a function and as a
 variable

---
 parser_decls.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/parser_decls.go b/parser_decls.go
index c7df51d..bc2b80a 100644
--- a/parser_decls.go
+++ b/parser_decls.go
@@ -68,6 +68,9 @@ func ParseDeclarations(l *Lexer, c *Compiler) error {
 
 // parseGlobal parses a global variable
 func parseGlobal(l *Lexer, c *Compiler, name string) error {
+	if c.findFuncByName(name) != nil {
+		return fmt.Errorf("function redeclared as variable")
+	}
 	// Remove any existing global with the same name from the module
 	c.removeGlobalByName(name)
 
@@ -121,6 +124,9 @@ func parseGlobal(l *Lexer, c *Compiler, name string) error {
 
 // parseVector parses a global array
 func parseVector(l *Lexer, c *Compiler, name string) error {
+	if c.findFuncByName(name) != nil {
+		return fmt.Errorf("function redeclared as variable")
+	}
 	// Remove any existing global with the same name from the module
 	c.removeGlobalByName(name)
 
@@ -265,6 +271,9 @@ func parseFunction(l *Lexer, c *Compiler, name string) error {
 		}
 	}
 
+	if c.findGlobalByName(name) != nil {
+		return fmt.Errorf("variable redeclared as function")
+	}
 	fn := c.DeclareFunction(name, paramNames)
 	c.StartFunction(fn)
 
-- 
2.43.0


From b48e09687f9745c9a3c2f54ec9e4d34eee0b1dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:13 +0000
Subject: [PATCH 14/26] fix: redefining a large vector removes its old data

---
 irbuilder.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/irbuilder.go b/irbuilder.go
index b26c91a..7c27823 100644
--- a/irbuilder.go
+++ b/irbuilder.go
@@ -93,16 +93,21 @@ func (c *Compiler) findGlobalByName(name string) *ir.Global {
 	return nil
 }
 
-// removeGlobalByName removes the global with the given name from the module if present
+// removeGlobalByName removes the global with the given name from the module if present,
+// together with the separate data of a large vector
 func (c *Compiler) removeGlobalByName(name string) bool {
 	full := c.globalName(name)
-	for i, g := range c.module.Globals {
-		if g.Name() == full {
-			c.module.Globals = append(c.module.Globals[:i], c.module.Globals[i+1:]...)
-			return true
+	removed := false
+	kept := make([]*ir.Global, 0, len(c.module.Globals))
+	for _, g := range c.module.Globals {
+		if g.Name() == full || g.Name() == full+".data" {
+			removed = true
+		} else {
+			kept = append(kept, g)
 		}
 	}
-	return false
+	c.module.Globals = kept
+	return removed
 }
 
 // GetModule returns the LLVM module
-- 
2.43.0


From e9f01d50c5e55289bad0bcfb829b2ab0c53a0605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:26 +0000
Subject: [PATCH 15/26] fix: a vector has room for all its initial values

---
 irbuilder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/irbuilder.go b/irbuilder.go
index 7c27823..73b9699 100644
--- a/irbuilder.go
+++ b/irbuilder.go
@@ -169,6 +169,11 @@ func (c *Compiler) DeclareGlobalWithMultipleValues(name string, values []constan
 func (c *Compiler) DeclareGlobalArray(name string, size int64, init []constant.Constant) *ir.Global {
 	elemType := c.WordType()
 
+	// A vector has room for all its initial values
+	if size < int64(len(init)) {
+		size = int64(len(init))
+	}
+
 	// Special case: unspecified size with no initializers -> size 1, init with 0
 	if size == 0 && len(init) == 0 {
 		size = 1
-- 
2.43.0


From 1312d28260adb4e157289de2823bb9f6beefd532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:48 +0000
Subject: [PATCH 16/26] fix: extrn names can be defined in another file

---
 parser_stmt.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser_stmt.go b/parser_stmt.go
index 4e39a10..4657e0d 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -321,6 +321,7 @@ func parseExtrn(l *Lexer, c *Compiler) error {
 			g = existing
 		} else if c.findFuncByName(name) == nil && !c.usedAsFunction[name] {
 			g = c.module.NewGlobalDef(c.globalName(name), constant.NewInt(c.WordType(), 0))
+			g.Linkage = enum.LinkageCommon // give way to a definition in another file
 		} else {
 			return fmt.Errorf("function redeclared as variable")
 		}
-- 
2.43.0


From 063d9269cb460abd63f6c65a12b2e74f6ba1a35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:13 +0000
Subject: [PATCH 17/26] fix: a function with parameters can be called without
 arguments

---
 expressions.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/expressions.go b/expressions.go
index 6c2c83e..b4c6fdf 100644
--- a/expressions.go
+++ b/expressions.go
@@ -747,6 +747,11 @@ func parsePostfix(l *Lexer, c *Compiler) (value.Value, bool, error) {
 					// Bitcast the direct function symbol to the new pointer-to-function type
 					casted := c.builder.NewBitCast(fnDirect, fnPtrType)
 					result = c.builder.NewCall(casted, args...)
+				} else if len(args) < len(fnDirect.Params) {
+					// Fewer arguments than fixed params: call without arguments,
+					// leaving the value of the parameters unspecified
+					fnPtrType := types.NewPointer(types.NewFunc(c.WordType()))
+					result = c.builder.NewCall(c.builder.NewBitCast(fnDirect, fnPtrType))
 				} else {
 					result = c.builder.NewCall(fnDirect, args...)
 				}
-- 
2.43.0


From 7a0b6b34696438dd3516abe426c17138572ac931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:07 +0000
Subject: [PATCH 18/26] fix: allocate local variables once per call

---
 irbuilder.go | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/irbuilder.go b/irbuilder.go
index 73b9699..9cc12a9 100644
--- a/irbuilder.go
+++ b/irbuilder.go
@@ -16,6 +16,7 @@ type Compiler struct {
 	module    *ir.Module
 	builder   *ir.Block
 	currentFn *ir.Func
+	entryPos  int                    // where to insert allocas and their setup in the entry block
 	locals    map[string]value.Value // local variables (alloca)
 	globals   map[string]value.Value // global variables
 	functions map[string]*ir.Func    // functions
@@ -330,6 +331,7 @@ func (c *Compiler) StartFunction(fn *ir.Func) {
 	c.gotos = nil
 	c.defined = make(map[string]bool)
 	c.builder = fn.NewBlock("entry")
+	defer func() { c.entryPos = len(fn.Blocks[0].Insts) }()
 
 	// Get the function name to look up original parameters
 	var funcName string
@@ -412,11 +414,25 @@ func (c *Compiler) EndFunction() {
 	c.labels = make(map[string]*ir.Block)
 }
 
+// insertEntry adds instructions at the start of the current function, so that they are
+// executed once per call, whatever happens to the declaration they are for
+func (c *Compiler) insertEntry(insts ...ir.Instruction) {
+	entry := c.currentFn.Blocks[0]
+	tail := append([]ir.Instruction{}, entry.Insts[c.entryPos:]...)
+	entry.Insts = append(append(entry.Insts[:c.entryPos], insts...), tail...)
+	c.entryPos += len(insts)
+}
+
 // DeclareLocal allocates a local variable and initializes it to 0
 func (c *Compiler) DeclareLocal(name string) value.Value {
-	alloca := c.builder.NewAlloca(c.WordType())
+	alloca := ir.NewAlloca(c.WordType())
+	c.insertEntry(alloca)
 	// Initialize local variables to 0 (B language semantics)
-	c.builder.NewStore(constant.NewInt(c.WordType(), 0), alloca)
+	zero := constant.NewInt(c.WordType(), 0)
+	if c.builder != c.currentFn.Blocks[0] {
+		c.insertEntry(ir.NewStore(zero, alloca))
+	}
+	c.builder.NewStore(zero, alloca)
 	c.locals[name] = alloca
 	return alloca
 }
@@ -434,19 +450,23 @@ func (c *Compiler) DeclareLocalArray(name string, size int64) value.Value {
 	}
 	arraySize := size + 1 // +1 for pointer storage in first element
 	arrayType := types.NewArray(uint64(arraySize), c.WordType())
-	alloca := c.builder.NewAlloca(arrayType)
+	alloca := ir.NewAlloca(arrayType)
 
 	// Get pointer to first data element (skip the pointer storage slot)
 	// This is element [0][1] in the array
-	firstElemPtr := c.builder.NewGetElementPtr(arrayType, alloca,
+	firstElemPtr := ir.NewGetElementPtr(arrayType, alloca,
 		constant.NewInt(types.I32, 0),
 		constant.NewInt(types.I32, 1))
 
 	// Convert to i64 and store in the first slot [0][0]
-	ptrAsInt := c.builder.NewPtrToInt(firstElemPtr, c.WordType())
-	firstSlotPtr := c.builder.NewGetElementPtr(arrayType, alloca,
+	ptrAsInt := ir.NewPtrToInt(firstElemPtr, c.WordType())
+	firstSlotPtr := ir.NewGetElementPtr(arrayType, alloca,
 		constant.NewInt(types.I32, 0),
 		constant.NewInt(types.I32, 0))
+	c.insertEntry(alloca, firstElemPtr, ptrAsInt, firstSlotPtr)
+	if c.builder != c.currentFn.Blocks[0] {
+		c.insertEntry(ir.NewStore(ptrAsInt, firstSlotPtr))
+	}
 	c.builder.NewStore(ptrAsInt, firstSlotPtr)
 
 	// Store the array base address (to first slot which now contains the data pointer)
-- 
2.43.0


From 491da7a9b7530bdf727ebbf7edc5d7700686a256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:28 +0000
Subject: [PATCH 19/26] fix: accept any expression between ? and :

---
 expressions.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expressions.go b/expressions.go
index b4c6fdf..df5ff61 100644
--- a/expressions.go
+++ b/expressions.go
@@ -66,7 +66,7 @@ func parseExpressionWithLevel(l *Lexer, c *Compiler, level int) (value.Value, er
 
 			// Then branch
 			c.SetInsertPoint(thenBlock)
-			thenVal, err := parseExpressionWithLevel(l, c, 12)
+			thenVal, err := parseExpressionWithLevel(l, c, 15)
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From d81ecb665b3fc5fe90508c0cf04c8752b783a316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:00 +0000
Subject: [PATCH 20/26] fix: char returns bytes above 127 as positive values

---
 runtime/char.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/char.c b/runtime/char.c
index c5ae23a..5b34695 100644
--- a/runtime/char.c
+++ b/runtime/char.c
@@ -10,5 +10,5 @@ word_t b_char(word_t string, /*word_t i,*/ ...)
     word_t i = va_arg(ap, word_t);
     va_end(ap);
 
-    return ((char *)string)[i];
+    return ((unsigned char *)string)[i];
 }
-- 
2.43.0


From e4e3bd9afb562cbdd5426e48df28e6f499cae6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:11 +0000
Subject: [PATCH 21/26] fix: printf %d prints one minus sign before the
 smallest number

---
 runtime/printf.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/runtime/printf.c b/runtime/printf.c
index 1114417..a393f94 100644
--- a/runtime/printf.c
+++ b/runtime/printf.c
@@ -22,10 +22,6 @@ loop:
     switch (c = b_char(fmt, i++)) {
     case 'd': // decimal
         x = va_arg(ap, word_t);
-        if (x < 0) {
-            x = -x;
-            b_write('-');
-        }
         b_printd(x);
         goto loop;
 
-- 
2.43.0


From ad977627f238b454cdf42553aa54615d7d4b807b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:02 +0000
Subject: [PATCH 22/26] fix: leave no temporary or partial IR file behind on
 errors

---
 driver.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/driver.go b/driver.go
index 4bbe2d0..f073ae7 100644
--- a/driver.go
+++ b/driver.go
@@ -58,9 +58,11 @@ func compileToIR(args *CompileOptions) error {
 		}
 		if _, err := outFile.WriteString(compiler.GetModule().String()); err != nil {
 			outFile.Close()
+			os.Remove(outputPath)
 			return err
 		}
 		if err := outFile.Close(); err != nil {
+			os.Remove(outputPath)
 			return err
 		}
 		if args.Verbose {
@@ -330,6 +332,11 @@ func compileToExecutable(args *CompileOptions) error {
 
 		default:
 			// main() validated extensions, but keep a guard here
+			if !args.SaveTemps {
+				for _, t := range temps {
+					os.Remove(t)
+				}
+			}
 			return fmt.Errorf("unsupported input file extension: %s", in)
 		}
 	}
-- 
2.43.0


From dc514b55fbcbd39ca9c54b7f4c578b8e3aa2aff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:01 +0000
Subject: [PATCH 23/26] fix: a global variable used without extrn is not
 declared as a function

---
 irbuilder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/irbuilder.go b/irbuilder.go
index 9cc12a9..2115277 100644
--- a/irbuilder.go
+++ b/irbuilder.go
@@ -276,6 +276,11 @@ func (c *Compiler) GetOrDeclareFunction(name string) *ir.Func {
 		return nil
 	}
 
+	// A variable of this name that is not declared here by extrn is not a function
+	if c.findGlobalByName(name) != nil {
+		return nil
+	}
+
 	// Enforce no-context: remove any prior transient function of the same name from the module
 	c.removeFuncByName(name)
 
-- 
2.43.0


From 8d56c55ac088b1f78aae47d19a687c5a4bd2f7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:54 +0000
Subject: [PATCH 24/26] fix: reject a NUL character after + and -

---
 expressions.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/expressions.go b/expressions.go
index df5ff61..64f5505 100644
--- a/expressions.go
+++ b/expressions.go
@@ -449,14 +449,14 @@ func parseExpressionWithLevel(l *Lexer, c *Compiler, level int) (value.Value, er
 		// Addition/Subtraction (level 4)
 		if level >= 4 && (ch == '+' || ch == '-') && !handled {
 			// Check for ++ or --
-			ch2, _ := l.ReadChar()
-			if ch2 == ch {
+			ch2, err2 := l.ReadChar()
+			if err2 == nil && ch2 == ch {
 				// Postfix increment/decrement
 				l.UnreadChar(ch2)
 				l.UnreadChar(ch)
 				break
 			}
-			if ch2 != 0 {
+			if err2 == nil {
 				l.UnreadChar(ch2)
 			}
 
-- 
2.43.0


From 7afb923e572a942c79bfcbc5f58dca2ce6bb771f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:56 +0000
Subject: [PATCH 25/26] fix: an input file whose base name starts with - is not
 taken for an option

---
 driver.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/driver.go b/driver.go
index f073ae7..0ea8d09 100644
--- a/driver.go
+++ b/driver.go
@@ -30,6 +30,17 @@ func Compile(args *CompileOptions) error {
 	}
 }
 
+// outputStem returns the base name of an input file without its extension.
+// A leading '-' is hidden, or clang would take the file name for an option.
+func outputStem(inputFile string) string {
+	base := filepath.Base(inputFile)
+	stem := strings.TrimSuffix(base, filepath.Ext(base))
+	if strings.HasPrefix(stem, "-") {
+		stem = "./" + stem
+	}
+	return stem
+}
+
 // compileToIR generates LLVM IR output
 func compileToIR(args *CompileOptions) error {
 	// Helper to compile a single .b file to the provided output path
@@ -88,8 +99,7 @@ func compileToIR(args *CompileOptions) error {
 
 	// No -o: emit one .ll per input into current working directory
 	for _, inputFile := range args.InputFiles {
-		base := filepath.Base(inputFile)
-		out := strings.TrimSuffix(base, filepath.Ext(base)) + ".ll"
+		out := outputStem(inputFile) + ".ll"
 		if err := compileSingleTo(inputFile, out); err != nil {
 			return err
 		}
@@ -182,8 +192,7 @@ func compileToAssembly(args *CompileOptions) error {
 
 	// No -o: emit one .s per input in the current working directory
 	for _, in := range args.InputFiles {
-		base := filepath.Base(in)
-		out := strings.TrimSuffix(base, filepath.Ext(base)) + ".s"
+		out := outputStem(in) + ".s"
 		if err := processOne(in, out); err != nil {
 			return err
 		}
@@ -276,8 +285,7 @@ func compileToObject(args *CompileOptions) error {
 
 	// No -o: emit one .o per input in the current working directory
 	for _, in := range args.InputFiles {
-		base := filepath.Base(in)
-		out := strings.TrimSuffix(base, filepath.Ext(base)) + ".o"
+		out := outputStem(in) + ".o"
 		if err := processOne(in, out); err != nil {
 			return err
 		}
@@ -289,8 +297,7 @@ func compileToObject(args *CompileOptions) error {
 func compileToExecutable(args *CompileOptions) error {
 	// Determine output name if not set: basename of the first source file
 	if args.OutputFile == "" {
-		base := filepath.Base(args.InputFiles[0])
-		args.OutputFile = strings.TrimSuffix(base, filepath.Ext(base))
+		args.OutputFile = outputStem(args.InputFiles[0])
 	}
 
 	// Prepare temporary IR files (for .b inputs) and collect inputs for clang
@@ -307,8 +314,7 @@ func compileToExecutable(args *CompileOptions) error {
 			if len(args.InputFiles) == 1 && args.OutputFile != "" {
 				tmp = args.OutputFile + ".tmp.ll"
 			} else {
-				base := strings.TrimSuffix(filepath.Base(in), ext)
-				tmp = fmt.Sprintf("%s.tmp.%d.ll", base, i)
+				tmp = fmt.Sprintf("%s.tmp.%d.ll", outputStem(in), i)
 			}
 
 			irArgs := *args
-- 
2.43.0


From 86136a58b7f83d53963f593d4d4326498a14d2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:10 +0000
Subject: [PATCH 26/26] fix: exit with a nonzero status and a message after a
 wrong option, instead of the help and status 0

---
 main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 06b3dd1..35bd671 100644
--- a/main.go
+++ b/main.go
@@ -33,7 +33,6 @@ func usage() {
 	fmt.Fprintf(os.Stderr, "  %s  %s\n", cmd.Sprint("blang hello.b -o output -O2"), note.Sprint("  Options can be placed after arguments"))
 	fmt.Fprintf(os.Stderr, "  %s  %s\n", cmd.Sprint("blang -V"), note.Sprint("                     Show version information"))
 	fmt.Fprintf(os.Stderr, "\n")
-	os.Exit(0)
 }
 
 func main() {
@@ -83,6 +82,7 @@ func main() {
 
 	if showHelp {
 		usage()
+		os.Exit(0)
 	}
 
 	if showVersion {
-- 
2.43.0

