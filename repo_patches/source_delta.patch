From b5ecc8e36b297de33679cb495fdd7e2837febb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:43:33 +0000
Subject: [PATCH 01/38] fix: drop comments inside multi-word operators

A comment between the words of an operator, as in "a is -- x\n null", was kept
as part of the operator. The gorm backend then wrote the comment text into the
SQL statement, and the ent backends rejected the query.
---
 miniquery/tree.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/miniquery/tree.go b/miniquery/tree.go
index 26d4951..177a8be 100644
--- a/miniquery/tree.go
+++ b/miniquery/tree.go
@@ -19,8 +19,9 @@ type Tree struct {
 }
 
 var (
-	regSpace  = regexp.MustCompile(`\s+`)
-	normalize = map[string]string{
+	regSpace   = regexp.MustCompile(`\s+`)
+	regComment = regexp.MustCompile(`(--|//)[^\r\n]*[\r\n]`)
+	normalize  = map[string]string{
 		">=": "gte",
 		">":  "gt",
 		"==": "eq",
@@ -42,6 +43,7 @@ var (
 )
 
 func NormalizeOperation(s string) string {
+	s = regComment.ReplaceAllString(s, " ")
 	s = strings.TrimSpace(s)
 	s = strings.ToLower(s)
 	s = regSpace.ReplaceAllString(s, " ")
-- 
2.43.0


From aae32ce9a452f92d67f7372682b95828040024a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:43:33 +0000
Subject: [PATCH 02/38] fix: reject json references instead of misreading them

"a->b = 1" was accepted and parsed as "b = 1", and "x = 1 and a->b = 2" gave a
tree with an identifier in the operator position. There is no node for a json
reference, so Parse now reports it as unsupported.
---
 miniquery/parse.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/miniquery/parse.go b/miniquery/parse.go
index 110347f..5758df7 100644
--- a/miniquery/parse.go
+++ b/miniquery/parse.go
@@ -1,5 +1,7 @@
 package miniquery
 
+import "github.com/pkg/errors"
+
 func Parse(s string) (*Node, error) {
 	p := &MiniQueryPeg{Tree: &Tree{}, Buffer: s}
 	if err := p.Init(); err != nil {
@@ -8,6 +10,11 @@ func Parse(s string) (*Node, error) {
 	if err := p.Parse(); err != nil {
 		return nil, err
 	}
+	for _, token := range p.Tokens() {
+		if token.pegRule == ruleJsonReference {
+			return nil, errors.New("json reference is not supported")
+		}
+	}
 	p.Execute()
 	if len(p.Errors) != 0 {
 		return nil, p.Errors[0]
-- 
2.43.0


From 009305b4b7fd6dfd2c7ea5b9434935c47406ce7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:43:33 +0000
Subject: [PATCH 03/38] fix: let and bind tighter than or in the parsed tree

"a or b and c" was parsed as "(a or b) and c". The SQL backends print the query
without parentheses and so meant "a or (b and c)", but the entql backend follows
the tree and selected different rows for the same query.
---
 miniquery/tree.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/miniquery/tree.go b/miniquery/tree.go
index 177a8be..9d3b401 100644
--- a/miniquery/tree.go
+++ b/miniquery/tree.go
@@ -128,6 +128,17 @@ func (t *Tree) PopLogic() {
 	right := t.Pop()
 	op := t.Pop()
 	left := t.Pop()
+	// and binds tighter than or
+	if op.Operation == OpAnd && left.Type == LogicExpressionType && left.Op.Operation == OpOr {
+		left.Right = &Node{
+			Type:  LogicExpressionType,
+			Left:  left.Right,
+			Op:    op,
+			Right: right,
+		}
+		t.Push(left)
+		return
+	}
 	t.Push(&Node{
 		Type:  LogicExpressionType,
 		Left:  left,
-- 
2.43.0


From 9d3af8a9f0cced2c7ddb1f78a634906d2b5d8f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:43:33 +0000
Subject: [PATCH 04/38] fix: print the function's own name in Build

Build wrote the name of the root node for every function call, so
"date(a) = 1" became "(a) == 1".
---
 miniquery/node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/miniquery/node.go b/miniquery/node.go
index c89b2f8..d472233 100644
--- a/miniquery/node.go
+++ b/miniquery/node.go
@@ -176,7 +176,7 @@ func Build(n *Node) string {
 		case ReferenceNodeType:
 			buf.WriteString(strings.Join(node.Names, "."))
 		case FunctionExpressionType:
-			buf.WriteString(n.Name)
+			buf.WriteString(node.Name)
 			buf.WriteRune('(')
 			n := len(node.Params)
 			for i, v := range node.Params {
-- 
2.43.0


From bd9c3d2df5074208046d79c67ee03a399faed4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:43:33 +0000
Subject: [PATCH 05/38] fix: quote strings in Build the way the parser reads
 them

Build escaped strings with Go syntax, but the grammar has no escape sequences.
A string with a quote, a backslash or a line break came back changed, or the
built query could not be parsed.
---
 miniquery/node.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/miniquery/node.go b/miniquery/node.go
index d472233..3a14ff0 100644
--- a/miniquery/node.go
+++ b/miniquery/node.go
@@ -209,7 +209,14 @@ func buildValue(buf *strings.Builder, node *Node, visit func(node *Node)) {
 		}
 		buf.WriteRune(']')
 	case StringValueType:
-		_, _ = fmt.Fprintf(buf, "%q", node.Str)
+		// strings have no escape sequence, pick a quote the string does not contain
+		quote := `"`
+		if strings.Contains(node.Str, quote) {
+			quote = "'"
+		}
+		buf.WriteString(quote)
+		buf.WriteString(node.Str)
+		buf.WriteString(quote)
 	default:
 		value := node.Value()
 		if value == nil {
-- 
2.43.0


From 655c3d8c5d2320cee00985d0825a56599cb1cba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:44:24 +0000
Subject: [PATCH 06/38] fix: accept the gte, lte and <> operators

The grammar listed "gt", "lt" and "<" before "gte", "lte" and "<>". A PEG takes
the first alternative that matches, so "a gte 1" and "a <> 1" were rejected and
"a gtelimit" was read as "a > elimit". The generated parser is changed to match.
---
 miniquery/miniquery.peg    |  4 +-
 miniquery/miniquery.peg.go | 76 +++++++++++++++++++-------------------
 2 files changed, 40 insertions(+), 40 deletions(-)

diff --git a/miniquery/miniquery.peg b/miniquery/miniquery.peg
index c7accad..9966608 100644
--- a/miniquery/miniquery.peg
+++ b/miniquery/miniquery.peg
@@ -32,8 +32,8 @@ IdentifierReference <- {p.AddMark()} Identifier '.' Identifier ( '.' Identifier)
 JsonReference <- Identifier '->' (JsonReference / Identifier)
 Identifier    <- !"not" <[a-zA-Z]([_a-zA-Z0-9])*> {p.AddName(text)}
 
-Compare <- _ <( '>=' / '<=' / '==' / '!=' /  '>' / '<'  / '<>' / '=' )> _ {p.AddCompare(text)}
-        / _ <( "gt" / "lt" / "gte" / "lte" / "eq" / "neq" )> _ {p.AddCompare(text)}
+Compare <- _ <( '>=' / '<=' / '<>' / '==' / '!=' /  '>' / '<'  / '=' )> _ {p.AddCompare(text)}
+        / _ <( "gte" / "lte" / "gt" / "lt" / "eq" / "neq" )> _ {p.AddCompare(text)}
         / _ <( "like" / "not" __ "like" )> _ {p.AddCompare(text)}
         # / _ <( "in" / "not" __ "in"  )> _ {p.AddCompare(text)}
 
diff --git a/miniquery/miniquery.peg.go b/miniquery/miniquery.peg.go
index a1bac3b..feaae13 100644
--- a/miniquery/miniquery.peg.go
+++ b/miniquery/miniquery.peg.go
@@ -1476,7 +1476,7 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 			position, tokenIndex = position97, tokenIndex97
 			return false
 		},
-		/* 15 Compare <- <((_ <(('>' '=') / ('<' '=') / ('=' '=') / '<' / ((&('=') '=') | (&('<') ('<' '>')) | (&('>') '>') | (&('!') ('!' '='))))> _ Action15) / (_ <((('g' / 'G') ('t' / 'T')) / (('l' / 'L') ('t' / 'T')) / ((&('N' | 'n') (('n' / 'N') ('e' / 'E') ('q' / 'Q'))) | (&('E' | 'e') (('e' / 'E') ('q' / 'Q'))) | (&('L' | 'l') (('l' / 'L') ('t' / 'T') ('e' / 'E'))) | (&('G' | 'g') (('g' / 'G') ('t' / 'T') ('e' / 'E')))))> _ Action16) / (_ <((('l' / 'L') ('i' / 'I') ('k' / 'K') ('e' / 'E')) / (('n' / 'N') ('o' / 'O') ('t' / 'T') __ (('l' / 'L') ('i' / 'I') ('k' / 'K') ('e' / 'E'))))> _ Action17))> */
+		/* 15 Compare <- <((_ <(('>' '=') / ('<' '=') / ('<' '>') / ('=' '=') / ((&('=') '=') | (&('<') '<') | (&('>') '>') | (&('!') ('!' '='))))> _ Action15) / (_ <((('g' / 'G') ('t' / 'T') ('e' / 'E')) / (('l' / 'L') ('t' / 'T') ('e' / 'E')) / ((&('N' | 'n') (('n' / 'N') ('e' / 'E') ('q' / 'Q'))) | (&('E' | 'e') (('e' / 'E') ('q' / 'Q'))) | (&('L' | 'l') (('l' / 'L') ('t' / 'T'))) | (&('G' | 'g') (('g' / 'G') ('t' / 'T')))))> _ Action16) / (_ <((('l' / 'L') ('i' / 'I') ('k' / 'K') ('e' / 'E')) / (('n' / 'N') ('o' / 'O') ('t' / 'T') __ (('l' / 'L') ('i' / 'I') ('k' / 'K') ('e' / 'E'))))> _ Action17))> */
 		func() bool {
 			position112, tokenIndex112 := position, tokenIndex
 			{
@@ -1512,18 +1512,22 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 							goto l117
 						l119:
 							position, tokenIndex = position117, tokenIndex117
-							if buffer[position] != rune('=') {
+							if buffer[position] != rune('<') {
 								goto l120
 							}
 							position++
-							if buffer[position] != rune('=') {
+							if buffer[position] != rune('>') {
 								goto l120
 							}
 							position++
 							goto l117
 						l120:
 							position, tokenIndex = position117, tokenIndex117
-							if buffer[position] != rune('<') {
+							if buffer[position] != rune('=') {
+								goto l121
+							}
+							position++
+							if buffer[position] != rune('=') {
 								goto l121
 							}
 							position++
@@ -1542,10 +1546,6 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 										goto l115
 									}
 									position++
-									if buffer[position] != rune('>') {
-										goto l115
-									}
-									position++
 								case '>':
 									if buffer[position] != rune('>') {
 										goto l115
@@ -1613,6 +1613,21 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 								position++
 							}
 						l129:
+							{
+								position151, tokenIndex151 := position, tokenIndex
+								if buffer[position] != rune('e') {
+									goto l152
+								}
+								position++
+								goto l151
+							l152:
+								position, tokenIndex = position151, tokenIndex151
+								if buffer[position] != rune('E') {
+									goto l126
+								}
+								position++
+							}
+						l151:
 							goto l125
 						l126:
 							position, tokenIndex = position125, tokenIndex125
@@ -1646,6 +1661,21 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 								position++
 							}
 						l134:
+							{
+								position157, tokenIndex157 := position, tokenIndex
+								if buffer[position] != rune('e') {
+									goto l158
+								}
+								position++
+								goto l157
+							l158:
+								position, tokenIndex = position157, tokenIndex157
+								if buffer[position] != rune('E') {
+									goto l131
+								}
+								position++
+							}
+						l157:
 							goto l125
 						l131:
 							position, tokenIndex = position125, tokenIndex125
@@ -1761,21 +1791,6 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 										position++
 									}
 								l149:
-									{
-										position151, tokenIndex151 := position, tokenIndex
-										if buffer[position] != rune('e') {
-											goto l152
-										}
-										position++
-										goto l151
-									l152:
-										position, tokenIndex = position151, tokenIndex151
-										if buffer[position] != rune('E') {
-											goto l123
-										}
-										position++
-									}
-								l151:
 									break
 								default:
 									{
@@ -1808,21 +1823,6 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 										position++
 									}
 								l155:
-									{
-										position157, tokenIndex157 := position, tokenIndex
-										if buffer[position] != rune('e') {
-											goto l158
-										}
-										position++
-										goto l157
-									l158:
-										position, tokenIndex = position157, tokenIndex157
-										if buffer[position] != rune('E') {
-											goto l123
-										}
-										position++
-									}
-								l157:
 									break
 								}
 							}
-- 
2.43.0


From fabd94b805054e527f2bff033980ac27cd603f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:44:49 +0000
Subject: [PATCH 07/38] fix: accept column names that start with a keyword

Names such as "notes", "nullable" or "true_name" were rejected, because the
parser took their first letters for not, null or true. A keyword now has to end
where the word ends. The generated parser is changed to match.
---
 miniquery/miniquery.peg    |  6 +--
 miniquery/miniquery.peg.go | 99 ++++++++++++++++++++++++++++++++++++--
 2 files changed, 99 insertions(+), 6 deletions(-)

diff --git a/miniquery/miniquery.peg b/miniquery/miniquery.peg
index 9966608..33f8e21 100644
--- a/miniquery/miniquery.peg
+++ b/miniquery/miniquery.peg
@@ -30,7 +30,7 @@ Reference     <- IdentifierReference
               / Identifier
 IdentifierReference <- {p.AddMark()} Identifier '.' Identifier ( '.' Identifier)* {p.PopIdentifierReference()}
 JsonReference <- Identifier '->' (JsonReference / Identifier)
-Identifier    <- !"not" <[a-zA-Z]([_a-zA-Z0-9])*> {p.AddName(text)}
+Identifier    <- !("not" ![_a-zA-Z0-9]) <[a-zA-Z]([_a-zA-Z0-9])*> {p.AddName(text)}
 
 Compare <- _ <( '>=' / '<=' / '<>' / '==' / '!=' /  '>' / '<'  / '=' )> _ {p.AddCompare(text)}
         / _ <( "gte" / "lte" / "gt" / "lt" / "eq" / "neq" )> _ {p.AddCompare(text)}
@@ -48,8 +48,8 @@ Array         <- '[' {p.AddMark()} _ (Literal ( _ ',' _ Literal)* _ ','?)? _ ']'
               /  '(' {p.AddMark()} _ (Literal ( _ ',' _ Literal)* _ ','?)? _ ')' {p.PopArray()}
 Literal       <- String / Integer / Boolean / Null
 Integer       <- <'0' / [1-9][0-9]*> {p.AddInteger(text)}
-Boolean       <- <'true' / 'false' / 'TRUE' / 'FALSE'> {p.AddBoolean(text)}
-Null          <- <'null'/'NULL'> {p.AddNull()}
+Boolean       <- <'true' / 'false' / 'TRUE' / 'FALSE'> ![_a-zA-Z0-9] {p.AddBoolean(text)}
+Null          <- <'null'/'NULL'> ![_a-zA-Z0-9] {p.AddNull()}
 String        <- "'" <[^']*> "'" {p.AddString(text)}/ '"' <[^"]*> '"' {p.AddString(text)}
 
 SpaceComment  <- (Space / Comment)
diff --git a/miniquery/miniquery.peg.go b/miniquery/miniquery.peg.go
index feaae13..fc8bd18 100644
--- a/miniquery/miniquery.peg.go
+++ b/miniquery/miniquery.peg.go
@@ -1359,7 +1359,7 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 			position, tokenIndex = position93, tokenIndex93
 			return false
 		},
-		/* 14 Identifier <- <(!(('n' / 'N') ('o' / 'O') ('t' / 'T')) <(([a-z] / [A-Z]) ((&('0' | '1' | '2' | '3' | '4' | '5' | '6' | '7' | '8' | '9') [0-9]) | (&('A' | 'B' | 'C' | 'D' | 'E' | 'F' | 'G' | 'H' | 'I' | 'J' | 'K' | 'L' | 'M' | 'N' | 'O' | 'P' | 'Q' | 'R' | 'S' | 'T' | 'U' | 'V' | 'W' | 'X' | 'Y' | 'Z') [A-Z]) | (&('_') '_') | (&('a' | 'b' | 'c' | 'd' | 'e' | 'f' | 'g' | 'h' | 'i' | 'j' | 'k' | 'l' | 'm' | 'n' | 'o' | 'p' | 'q' | 'r' | 's' | 't' | 'u' | 'v' | 'w' | 'x' | 'y' | 'z') [a-z]))*)> Action14)> */
+		/* 14 Identifier <- <(!(('n' / 'N') ('o' / 'O') ('t' / 'T') !((&('0' | '1' | '2' | '3' | '4' | '5' | '6' | '7' | '8' | '9') [0-9]) | (&('A' | 'B' | 'C' | 'D' | 'E' | 'F' | 'G' | 'H' | 'I' | 'J' | 'K' | 'L' | 'M' | 'N' | 'O' | 'P' | 'Q' | 'R' | 'S' | 'T' | 'U' | 'V' | 'W' | 'X' | 'Y' | 'Z') [A-Z]) | (&('_') '_') | (&('a' | 'b' | 'c' | 'd' | 'e' | 'f' | 'g' | 'h' | 'i' | 'j' | 'k' | 'l' | 'm' | 'n' | 'o' | 'p' | 'q' | 'r' | 's' | 't' | 'u' | 'v' | 'w' | 'x' | 'y' | 'z') [a-z]))) <(([a-z] / [A-Z]) ((&('0' | '1' | '2' | '3' | '4' | '5' | '6' | '7' | '8' | '9') [0-9]) | (&('A' | 'B' | 'C' | 'D' | 'E' | 'F' | 'G' | 'H' | 'I' | 'J' | 'K' | 'L' | 'M' | 'N' | 'O' | 'P' | 'Q' | 'R' | 'S' | 'T' | 'U' | 'V' | 'W' | 'X' | 'Y' | 'Z') [A-Z]) | (&('_') '_') | (&('a' | 'b' | 'c' | 'd' | 'e' | 'f' | 'g' | 'h' | 'i' | 'j' | 'k' | 'l' | 'm' | 'n' | 'o' | 'p' | 'q' | 'r' | 's' | 't' | 'u' | 'v' | 'w' | 'x' | 'y' | 'z') [a-z]))*)> Action14)> */
 		func() bool {
 			position97, tokenIndex97 := position, tokenIndex
 			{
@@ -1411,6 +1411,37 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 						position++
 					}
 				l104:
+					{
+						position294, tokenIndex294 := position, tokenIndex
+						{
+							switch buffer[position] {
+							case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
+								if c := buffer[position]; c < rune('0') || c > rune('9') {
+									goto l294
+								}
+								position++
+							case 'A', 'B', 'C', 'D', 'E', 'F', 'G', 'H', 'I', 'J', 'K', 'L', 'M', 'N', 'O', 'P', 'Q', 'R', 'S', 'T', 'U', 'V', 'W', 'X', 'Y', 'Z':
+								if c := buffer[position]; c < rune('A') || c > rune('Z') {
+									goto l294
+								}
+								position++
+							case '_':
+								if buffer[position] != rune('_') {
+									goto l294
+								}
+								position++
+							default:
+								if c := buffer[position]; c < rune('a') || c > rune('z') {
+									goto l294
+								}
+								position++
+							}
+						}
+
+						goto l99
+					l294:
+						position, tokenIndex = position294, tokenIndex294
+					}
 					goto l97
 				l99:
 					position, tokenIndex = position99, tokenIndex99
@@ -2684,7 +2715,7 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 			position, tokenIndex = position236, tokenIndex236
 			return false
 		},
-		/* 22 Boolean <- <(<((&('F') ('F' 'A' 'L' 'S' 'E')) | (&('T') ('T' 'R' 'U' 'E')) | (&('f') ('f' 'a' 'l' 's' 'e')) | (&('t') ('t' 'r' 'u' 'e')))> Action26)> */
+		/* 22 Boolean <- <(<((&('F') ('F' 'A' 'L' 'S' 'E')) | (&('T') ('T' 'R' 'U' 'E')) | (&('f') ('f' 'a' 'l' 's' 'e')) | (&('t') ('t' 'r' 'u' 'e')))> !((&('0' | '1' | '2' | '3' | '4' | '5' | '6' | '7' | '8' | '9') [0-9]) | (&('A' | 'B' | 'C' | 'D' | 'E' | 'F' | 'G' | 'H' | 'I' | 'J' | 'K' | 'L' | 'M' | 'N' | 'O' | 'P' | 'Q' | 'R' | 'S' | 'T' | 'U' | 'V' | 'W' | 'X' | 'Y' | 'Z') [A-Z]) | (&('_') '_') | (&('a' | 'b' | 'c' | 'd' | 'e' | 'f' | 'g' | 'h' | 'i' | 'j' | 'k' | 'l' | 'm' | 'n' | 'o' | 'p' | 'q' | 'r' | 's' | 't' | 'u' | 'v' | 'w' | 'x' | 'y' | 'z') [a-z])) Action26)> */
 		func() bool {
 			position243, tokenIndex243 := position, tokenIndex
 			{
@@ -2774,6 +2805,37 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 
 					add(rulePegText, position245)
 				}
+				{
+					position295, tokenIndex295 := position, tokenIndex
+					{
+						switch buffer[position] {
+						case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
+							if c := buffer[position]; c < rune('0') || c > rune('9') {
+								goto l295
+							}
+							position++
+						case 'A', 'B', 'C', 'D', 'E', 'F', 'G', 'H', 'I', 'J', 'K', 'L', 'M', 'N', 'O', 'P', 'Q', 'R', 'S', 'T', 'U', 'V', 'W', 'X', 'Y', 'Z':
+							if c := buffer[position]; c < rune('A') || c > rune('Z') {
+								goto l295
+							}
+							position++
+						case '_':
+							if buffer[position] != rune('_') {
+								goto l295
+							}
+							position++
+						default:
+							if c := buffer[position]; c < rune('a') || c > rune('z') {
+								goto l295
+							}
+							position++
+						}
+					}
+
+					goto l243
+				l295:
+					position, tokenIndex = position295, tokenIndex295
+				}
 				if !_rules[ruleAction26]() {
 					goto l243
 				}
@@ -2784,7 +2846,7 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 			position, tokenIndex = position243, tokenIndex243
 			return false
 		},
-		/* 23 Null <- <(<(('n' 'u' 'l' 'l') / ('N' 'U' 'L' 'L'))> Action27)> */
+		/* 23 Null <- <(<(('n' 'u' 'l' 'l') / ('N' 'U' 'L' 'L'))> !((&('0' | '1' | '2' | '3' | '4' | '5' | '6' | '7' | '8' | '9') [0-9]) | (&('A' | 'B' | 'C' | 'D' | 'E' | 'F' | 'G' | 'H' | 'I' | 'J' | 'K' | 'L' | 'M' | 'N' | 'O' | 'P' | 'Q' | 'R' | 'S' | 'T' | 'U' | 'V' | 'W' | 'X' | 'Y' | 'Z') [A-Z]) | (&('_') '_') | (&('a' | 'b' | 'c' | 'd' | 'e' | 'f' | 'g' | 'h' | 'i' | 'j' | 'k' | 'l' | 'm' | 'n' | 'o' | 'p' | 'q' | 'r' | 's' | 't' | 'u' | 'v' | 'w' | 'x' | 'y' | 'z') [a-z])) Action27)> */
 		func() bool {
 			position247, tokenIndex247 := position, tokenIndex
 			{
@@ -2832,6 +2894,37 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 				l250:
 					add(rulePegText, position249)
 				}
+				{
+					position296, tokenIndex296 := position, tokenIndex
+					{
+						switch buffer[position] {
+						case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
+							if c := buffer[position]; c < rune('0') || c > rune('9') {
+								goto l296
+							}
+							position++
+						case 'A', 'B', 'C', 'D', 'E', 'F', 'G', 'H', 'I', 'J', 'K', 'L', 'M', 'N', 'O', 'P', 'Q', 'R', 'S', 'T', 'U', 'V', 'W', 'X', 'Y', 'Z':
+							if c := buffer[position]; c < rune('A') || c > rune('Z') {
+								goto l296
+							}
+							position++
+						case '_':
+							if buffer[position] != rune('_') {
+								goto l296
+							}
+							position++
+						default:
+							if c := buffer[position]; c < rune('a') || c > rune('z') {
+								goto l296
+							}
+							position++
+						}
+					}
+
+					goto l247
+				l296:
+					position, tokenIndex = position296, tokenIndex296
+				}
 				if !_rules[ruleAction27]() {
 					goto l247
 				}
-- 
2.43.0


From f859cf1c8fb2181f4c7f15bdc71eb9bf0c40ce65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:44:49 +0000
Subject: [PATCH 08/38] fix: make Visitor usable

Init set the default handlers on a copy, so Visit panicked on any node without
a handler. Functions were sent to the between handler, and references had no
handler at all.
---
 miniquery/visitor.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/miniquery/visitor.go b/miniquery/visitor.go
index 3373fa1..fe1e634 100644
--- a/miniquery/visitor.go
+++ b/miniquery/visitor.go
@@ -20,10 +20,11 @@ type (
 		IdentifierNode        VisitFunc
 		OperationNode         VisitFunc
 		ValueNode             VisitFunc
+		ReferenceNode         VisitFunc
 	}
 )
 
-func (v Visitor) Init() {
+func (v *Visitor) Init() {
 	noop := func(ctx context.Context, node *Node) (err error) {
 		return
 	}
@@ -33,6 +34,9 @@ func (v Visitor) Init() {
 	if v.IdentifierNode == nil {
 		v.IdentifierNode = noop
 	}
+	if v.ReferenceNode == nil {
+		v.ReferenceNode = noop
+	}
 	if v.ParenthesesExpression == nil {
 		v.ParenthesesExpression = func(ctx context.Context, node *Node) error {
 			return v.Visit(ctx, node.Expression)
@@ -116,6 +120,8 @@ func (v Visitor) Visit(ctx context.Context, n *Node) error {
 		return v.OperationNode(ctx, n)
 	case IdentifierNodeType:
 		return v.IdentifierNode(ctx, n)
+	case ReferenceNodeType:
+		return v.ReferenceNode(ctx, n)
 	case ParenthesesExpressionType:
 		return v.ParenthesesExpression(ctx, n)
 	case CompareExpressionType:
@@ -129,7 +135,7 @@ func (v Visitor) Visit(ctx context.Context, n *Node) error {
 	case BetweenExpressionType:
 		return v.BetweenExpression(ctx, n)
 	case FunctionExpressionType:
-		return v.BetweenExpression(ctx, n)
+		return v.FunctionExpression(ctx, n)
 	}
 	return errors.Errorf("invalid type %q", n.Type)
 }
-- 
2.43.0


From a1af7daa3fff8ebaaeec499c68451572c8c0bb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:44:49 +0000
Subject: [PATCH 09/38] fix: check every query of MiniQuery on its own before
 joining

The queries are wrapped in parentheses and joined with and. A query with
unbalanced parentheses, such as "1=1) or (1=1", closed its own wrapper and
turned the conjunction into a disjunction, so the other queries no longer
restricted the result.
---
 gormq/miniquery.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index 278a07f..0951ff6 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -16,6 +16,16 @@ type MiniQuery struct {
 }
 
 func (q MiniQuery) Scope(db *gorm.DB) *gorm.DB {
+	// unbalanced parentheses must not break out of their own query
+	for _, v := range q.Query {
+		if strings.TrimSpace(v) == "" {
+			continue
+		}
+		if _, err := miniquery.Parse(v); err != nil {
+			_ = db.AddError(fmt.Errorf("invalid query syntax: %v", err))
+			return db
+		}
+	}
 	return WireMiniQuery(db, miniquery.Join(q.Query))
 }
 
-- 
2.43.0


From e091bd0e6297d093ecb2d75a387ca71c973da237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:44:49 +0000
Subject: [PATCH 10/38] fix: reject fields that have no column

Relations and fields tagged gorm:"-" are part of the schema but have no column.
A query on one of them wrote an empty name as a single quote character, which
left the rest of the SQL statement inside an open quote.
---
 gormq/miniquery.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index 0951ff6..46d221d 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -240,10 +240,10 @@ func getDBName(st *schema.Schema, name string) (string, bool) {
 		return name, true
 	}
 	if f, ok := st.FieldsByName[name]; ok {
-		return f.DBName, true
+		return f.DBName, f.DBName != ""
 	}
 	for _, f := range st.Fields {
-		if strings.EqualFold(f.Name, name) {
+		if f.DBName != "" && strings.EqualFold(f.Name, name) {
 			return f.DBName, true
 		}
 	}
-- 
2.43.0


From 7164963e94623364f48c360d0992dce7a2af0879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:44:49 +0000
Subject: [PATCH 11/38] fix: separate the arguments of date with commas

"date(a, b)" was written as date(`a``b`).
---
 gormq/miniquery.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index 46d221d..3f45a93 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -223,7 +223,10 @@ func (qb *queryBuilder) visitFunction(node *miniquery.Node) (err error) {
 	case "date":
 		buf.WriteString(node.Name)
 		buf.WriteString("(")
-		for _, v := range node.Params {
+		for i, v := range node.Params {
+			if i > 0 {
+				buf.WriteString(", ")
+			}
 			if err = visit(v); err != nil {
 				return
 			}
-- 
2.43.0


From 30e848d19b18e3e85cee8428787f9c47269dd647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:44:49 +0000
Subject: [PATCH 12/38] fix: reject filters on has-many and many-to-many
 relations

gorm can only join relations with one related row. A query such as
"Pets.name = 'x'" made gorm panic while reading the rows, and many-to-many
relations gave invalid SQL.
---
 gormq/miniquery.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index 3f45a93..c1aa494 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -29,6 +29,12 @@ func (q MiniQuery) Scope(db *gorm.DB) *gorm.DB {
 	return WireMiniQuery(db, miniquery.Join(q.Query))
 }
 
+// relations with at most one related row, the only ones a filter can join
+const (
+	relationBelongsTo = schema.BelongsTo
+	relationHasOne    = schema.HasOne
+)
+
 func GetOrParseSchema(db *gorm.DB) (schema *schema.Schema, err error) {
 	stat := db.Statement
 	if stat.Schema == nil {
@@ -89,6 +95,10 @@ func WireMiniQuery(db *gorm.DB, query string) *gorm.DB {
 				return "", fmt.Errorf("relation not found: %q", s)
 			}
 
+			if r.Type != relationBelongsTo && r.Type != relationHasOne {
+				return "", fmt.Errorf("relation can not be joined: %q", s)
+			}
+
 			var name string
 			var ok bool
 			if name, ok = getDBName(r.FieldSchema, fieldName); !ok {
-- 
2.43.0


From 909c3e63326140f8919eff59546039eac9f0983f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:44:49 +0000
Subject: [PATCH 13/38] fix: qualify columns when the query joins a relation

"id = 1 and Profile.age > 1" failed with an ambiguous column name, because both
tables have an id. Columns of the model are now written with their table when
the statement has joins.
---
 gormq/miniquery.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index c1aa494..ed583cc 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -87,6 +87,9 @@ func WireMiniQuery(db *gorm.DB, query string) *gorm.DB {
 			if !ok {
 				return s, fmt.Errorf("field not found: %q", s)
 			}
+			if len(db.Statement.Joins) != 0 {
+				n = db.Statement.Table + "." + n
+			}
 			return n, nil
 		},
 		join: func(s string, fieldName string) (string, error) {
@@ -115,6 +118,12 @@ func WireMiniQuery(db *gorm.DB, query string) *gorm.DB {
 		quote: quote,
 	}
 	err = qb.visit(ast)
+	if err == nil && len(joined) != 0 {
+		// columns before the first joined relation are not qualified yet
+		buf.Reset()
+		vals = nil
+		err = qb.visit(ast)
+	}
 	if err != nil {
 		_ = db.AddError(err)
 	} else {
-- 
2.43.0


From 50f7752c7d3777b1dc9a1e7b931e7487c2301cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:46:01 +0000
Subject: [PATCH 14/38] fix: negate the predicate of not in entql

The condition was inverted: "not a = 1" was built as "a = 1", and an error below
not led to a panic.
---
 entmq/entql.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/entmq/entql.go b/entmq/entql.go
index 7f08713..1a7a181 100644
--- a/entmq/entql.go
+++ b/entmq/entql.go
@@ -86,8 +86,12 @@ func (mb *MiniQLToEntQLBuilder) visit(node *miniquery.Node) (err error) {
 		err = visit(node.Expression)
 	case miniquery.NotExpressionType:
 		err = visit(node.Expression)
-		if err != nil {
-			mb.push(entql.Not(mb.pop().(entql.P)))
+		if err == nil {
+			p, ok := mb.pop().(entql.P)
+			if !ok {
+				return errors.Errorf("expect predicate: %q", node.Expression)
+			}
+			mb.push(entql.Not(p))
 		}
 	case miniquery.FunctionExpressionType:
 		// err = qb.visitFunction(node)
-- 
2.43.0


From 134d3a34864680cfd88b894b8065e922ddd9ecae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:46:01 +0000
Subject: [PATCH 15/38] fix: report unsupported functions in entql

A function call was skipped without a word. A query of only a function built to
no predicate at all, and a function inside an expression panicked.
---
 entmq/entql.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/entmq/entql.go b/entmq/entql.go
index 1a7a181..a3e9290 100644
--- a/entmq/entql.go
+++ b/entmq/entql.go
@@ -94,8 +94,7 @@ func (mb *MiniQLToEntQLBuilder) visit(node *miniquery.Node) (err error) {
 			mb.push(entql.Not(p))
 		}
 	case miniquery.FunctionExpressionType:
-		// err = qb.visitFunction(node)
-
+		return errors.Errorf("unsupported function: %q", node.Name)
 	case miniquery.BetweenExpressionType:
 		err = visit(node.Left)
 		if err == nil {
-- 
2.43.0


From 0c86eabe48c6712ed35cb56fb715a34945d7a2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:46:01 +0000
Subject: [PATCH 16/38] fix: return an error for what entql can not express

"a is null" and queries that are not a predicate, such as "a" or "1", panicked.
The query is user input, so both are reported as errors.
---
 entmq/entql.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/entmq/entql.go b/entmq/entql.go
index a3e9290..f18f4d2 100644
--- a/entmq/entql.go
+++ b/entmq/entql.go
@@ -54,7 +54,10 @@ func (mb *MiniQLToEntQLBuilder) Build() (p entql.P, err error) {
 	}
 	err = mb.visit(node)
 	if err == nil && len(mb.stack) > 0 {
-		p = mb.pop().(entql.P)
+		var ok bool
+		if p, ok = mb.pop().(entql.P); !ok {
+			return nil, errors.Errorf("expect predicate: %q", mb.Query)
+		}
 		if len(mb.stack) > 1 {
 			slog.With("query", mb.Query).Error("unexpected MiniQLBuilder stack size", "size", len(mb.stack))
 		}
@@ -128,7 +131,7 @@ func (mb *MiniQLToEntQLBuilder) visit(node *miniquery.Node) (err error) {
 
 		}
 	case miniquery.PredicatesExpressionType:
-		panic("TODO")
+		return errors.Errorf("unsupported predicate: %q", node.Op.Operation)
 	case miniquery.LogicExpressionType:
 		fallthrough
 	case miniquery.CompareExpressionType:
-- 
2.43.0


From 8382df3b2d3435c5928a2c5f580cabe123ab0a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:46:01 +0000
Subject: [PATCH 17/38] fix: skip empty queries in ApplyEntQL

An empty query builds to no predicate, and a nil predicate panics when ent
evaluates it.
---
 entmq/entql.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/entmq/entql.go b/entmq/entql.go
index f18f4d2..2ee595a 100644
--- a/entmq/entql.go
+++ b/entmq/entql.go
@@ -15,7 +15,9 @@ func ApplyEntQL(q interface{ Where(p entql.P) }, queries []string) error {
 		if err != nil {
 			return errors.Wrapf(err, "failed to apply query: %q", v)
 		}
-		q.Where(p)
+		if p != nil {
+			q.Where(p)
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 5ecdcc0ece38b0e5c894dda2d7971b7b9c306147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:46:02 +0000
Subject: [PATCH 18/38] fix: require exactly one argument for date in entsql

"date()" panicked, and further arguments were dropped.
---
 entmq/entsql.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index 3f1c888..e275efc 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -90,6 +90,10 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 		case "date":
 			// 截取为日期
 			// date(xxx)
+			if len(node.Params) != 1 {
+				err = errors.Errorf("函数参数错误: %q", node.Name)
+				break
+			}
 			s.WriteString("DATE(")
 			err = mb.visit(node.Params[0])
 			s.WriteString(")")
-- 
2.43.0


From d9b6f89df62ed180eef5653a367cbf17e8f737a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:46:02 +0000
Subject: [PATCH 19/38] fix: report has_edge without a schema node as an error

The builder can be used without a node. A query with has_edge panicked then.
---
 entmq/entsql.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index e275efc..2409583 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -106,6 +106,10 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 			}
 
 			tab := mb.Node
+			if tab == nil {
+				err = errors.New("缺少关联信息")
+				break
+			}
 			builder := sql.Dialect(mb.Dialect()).Select().From(sql.Table(tab.Table).Schema(tab.Schema))
 			edge, ok := tab.Edges[params[0].Name]
 			if !ok {
-- 
2.43.0


From e6df045244e513e6527831cfc2e5c0dc48cfd988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:46:02 +0000
Subject: [PATCH 20/38] fix: write has_edge to the configured SQLBuilder

With SQLBuilder set, everything but has_edge was written to it. The has_edge
condition went to the embedded builder and ended up at the wrong place.
---
 entmq/entsql.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index 2409583..7550213 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -110,7 +110,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 				err = errors.New("缺少关联信息")
 				break
 			}
-			builder := sql.Dialect(mb.Dialect()).Select().From(sql.Table(tab.Table).Schema(tab.Schema))
+			builder := sql.Dialect(s.Dialect()).Select().From(sql.Table(tab.Table).Schema(tab.Schema))
 			edge, ok := tab.Edges[params[0].Name]
 			if !ok {
 				err = errors.Errorf("不存在关联: %q", params[0].Name)
@@ -156,7 +156,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 				rf = reflect.NewAt(rf.Type(), unsafe.Pointer(rf.UnsafeAddr())).Elem()
 				p := rf.Interface().(*sql.Predicate)
 				err = p.Err()
-				mb.Join(p)
+				s.Join(p)
 			}
 		default:
 			err = errors.Errorf("不支持的函数: %q", node.Name)
-- 
2.43.0


From 42f39a0919f99d4fefbb6b54a1c943e5062babaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:46:02 +0000
Subject: [PATCH 21/38] fix: keep both halves of between together in entsql

between is written as two comparisons joined by AND. "not a between 1 and 3"
became NOT a >= 1 AND a <= 3, which negates only the first half. The pair is now
wrapped in parentheses where it is an operand of not or of a comparison.
---
 entmq/entsql.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index 7550213..4dfecd1 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -48,6 +48,16 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 	if s == nil {
 		s = &mb.Builder
 	}
+	// between is written as two comparisons, keep them together
+	visitOperand := func(node *miniquery.Node) error {
+		if node.Type != miniquery.BetweenExpressionType {
+			return visit(node)
+		}
+		s.WriteString("(")
+		err := visit(node)
+		s.WriteString(")")
+		return err
+	}
 	switch node.Type {
 	case miniquery.OperationNodeType:
 		return errors.Errorf("unexpected op node: %q", node)
@@ -83,7 +93,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 		s.WriteString(")")
 	case miniquery.NotExpressionType:
 		s.WriteString("NOT ")
-		err = visit(node.Expression)
+		err = visitOperand(node.Expression)
 	case miniquery.FunctionExpressionType:
 		// err = qb.visitFunction(node)
 		switch node.Name {
@@ -189,12 +199,15 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 		if !found {
 			return errors.Errorf("unexpected predicate op %q", node.Op.Operation)
 		}
-		err = visit(node.Left)
+		err = visitOperand(node.Left)
 		s.WriteOp(op)
 	case miniquery.LogicExpressionType:
 		fallthrough
 	case miniquery.CompareExpressionType:
-		err = visit(node.Left)
+		if node.Type == miniquery.LogicExpressionType {
+			visitOperand = visit
+		}
+		err = visitOperand(node.Left)
 		op, found := entsqlOpMap[node.Op.Operation]
 		if !found {
 			switch node.Op.Operation {
@@ -213,7 +226,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 			return errors.Errorf("unexpected op %q", node.Op.Operation)
 		}
 		if err == nil {
-			err = visit(node.Right)
+			err = visitOperand(node.Right)
 		}
 	default:
 		return errors.Errorf("invalid type %q", node.Type)
-- 
2.43.0


From f1a47769835e009cd30e4960ece65511c7799dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:46:03 +0000
Subject: [PATCH 22/38] fix: cast large integers to bigint on Postgres

int is 32 bits wide on Postgres, so a query with a larger number failed.
---
 entmq/entsql_util.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/entmq/entsql_util.go b/entmq/entsql_util.go
index adbb34c..fb7ea9d 100644
--- a/entmq/entsql_util.go
+++ b/entmq/entsql_util.go
@@ -2,6 +2,7 @@ package entmq
 
 import (
 	"database/sql/driver"
+	"math"
 
 	"entgo.io/ent/dialect"
 	"entgo.io/ent/dialect/sql"
@@ -19,9 +20,12 @@ func (f typeCastParamFormatter) FormatParam(placeholder string, info *sql.StmtIn
 	// https://github.com/jackc/pgx/issues/798 pg 需要 cast 来支持 1=1 -> $1=$2
 	if info.Dialect == dialect.Postgres {
 		var typ string
-		switch f.v.(type) {
+		switch v := f.v.(type) {
 		case int:
 			typ = "int"
+			if v > math.MaxInt32 || v < math.MinInt32 {
+				typ = "bigint"
+			}
 		// 字符串不 cast - 处理时间和字符串比较的场景
 		// case string:
 		//	typ = "text"
-- 
2.43.0


From 26fff094f5a8289ff75df83482a8752563cb9c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:46:29 +0000
Subject: [PATCH 23/38] fix: keep lower case column names as they are in entsql

The snake case conversion also changed names that were already in snake case,
such as "md5hash" to "md_5hash", so those columns could not be used.
---
 entmq/entsql.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index 4dfecd1..b1bca0f 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -76,7 +76,11 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 		}
 	case miniquery.IdentifierNodeType:
 		// fixme 检测字段是否存在
-		s.Ident(xstrings.ToSnakeCase(node.Name))
+		name := node.Name
+		if strings.ToLower(name) != name {
+			name = xstrings.ToSnakeCase(name)
+		}
+		s.Ident(name)
 		/*
 			switch name {
 			case "owned":
-- 
2.43.0


From 3bf022c97028fb457fbb62c2d14ca91d28b05a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:47:42 +0000
Subject: [PATCH 24/38] fix: wrap a query with a top level or in entsql

The query is joined into the predicates of a selector, and ent does not wrap it.
With an existing condition, "a = 1 or b = 2" became x AND a = 1 OR b = 2, so the
or escaped the other condition. The same happened to the condition of has_edge.
---
 entmq/entsql.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index b1bca0f..666b2f5 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -33,7 +33,12 @@ func (mb *MiniQLToEntSQLBuilder) Query() (string, []interface{}) {
 		}
 		mb.ast = ast
 	}
-	err := mb.visit(mb.ast)
+	ast := mb.ast
+	// other predicates may be joined with and
+	if ast.Type == miniquery.LogicExpressionType && ast.Op.Operation == miniquery.OpOr {
+		ast = &miniquery.Node{Type: miniquery.ParenthesesExpressionType, Expression: ast}
+	}
+	err := mb.visit(ast)
 	if err != nil {
 		mb.AddError(err)
 		return "", nil
-- 
2.43.0


From 2d085a75c5c48065721ed1207ae6b394554e8830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:47:43 +0000
Subject: [PATCH 25/38] fix: report errors inside the condition of has_edge

ent drops the errors of a nested selector. An invalid condition, such as an
unknown edge or function inside has_edge, left Err nil and gave broken SQL.
---
 entmq/entsql.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index 666b2f5..05db3fd 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -135,6 +135,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 				err = errors.Errorf("不存在关联: %q", params[0].Name)
 				break
 			}
+			var edgeErr error
 			switch len(params) {
 			case 1:
 				sqlgraph.HasNeighbors(builder, sqlgraph.NewStep(
@@ -161,6 +162,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 						builder.Join(mb)
 						err := mb.Err()
 						if err != nil {
+							edgeErr = err
 							builder.AddError(err)
 						}
 					}))
@@ -176,6 +178,9 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 				p := rf.Interface().(*sql.Predicate)
 				err = p.Err()
 				s.Join(p)
+				if err == nil {
+					err = edgeErr
+				}
 			}
 		default:
 			err = errors.Errorf("不支持的函数: %q", node.Name)
-- 
2.43.0


From 6321ea57a2da1a2a23afea7874dbefe8d4d224ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:47:43 +0000
Subject: [PATCH 26/38] fix: resolve the condition of has_edge on the neighbor

The neighbor can have an alias in the generated subquery. A nested has_edge used
the plain table name, which names the outer row when an edge leads back to the
same table and does not exist otherwise. Plain columns also fell back to the
outer table when the neighbor has no such column.
---
 entmq/entsql.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index 05db3fd..0cab127 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -21,6 +21,7 @@ type MiniQLToEntSQLBuilder struct {
 	Graph       *sqlgraph.Schema
 	sql.Builder
 	DisableTypeCasting bool
+	selector           *sql.Selector // selector of the edge in has_edge
 }
 
 // Query impl sql.Querier
@@ -85,6 +86,9 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 		if strings.ToLower(name) != name {
 			name = xstrings.ToSnakeCase(name)
 		}
+		if mb.selector != nil {
+			name = mb.selector.C(name)
+		}
 		s.Ident(name)
 		/*
 			switch name {
@@ -130,6 +134,9 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 				break
 			}
 			builder := sql.Dialect(s.Dialect()).Select().From(sql.Table(tab.Table).Schema(tab.Schema))
+			if mb.selector != nil {
+				builder = mb.selector.Clone().SetP(nil)
+			}
 			edge, ok := tab.Edges[params[0].Name]
 			if !ok {
 				err = errors.Errorf("不存在关联: %q", params[0].Name)
@@ -158,6 +165,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 							ast:                params[1],
 							Node:               edge.To,
 							DisableTypeCasting: mb.DisableTypeCasting,
+							selector:           selector,
 						}
 						builder.Join(mb)
 						err := mb.Err()
-- 
2.43.0


From 17acdfe484c425cb7aba7e282d816ee612c46153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:54:45 +0000
Subject: [PATCH 27/38] fix: hand integers to the driver as int64 in entsql

database/sql rejects a Valuer that returns a plain int, so every query
with an integer literal failed on SQLite, MySQL and lib/pq.
---
 entmq/entsql_util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/entmq/entsql_util.go b/entmq/entsql_util.go
index fb7ea9d..66ca67f 100644
--- a/entmq/entsql_util.go
+++ b/entmq/entsql_util.go
@@ -42,5 +42,9 @@ func (f typeCastParamFormatter) FormatParam(placeholder string, info *sql.StmtIn
 }
 
 func (f typeCastParamFormatter) Value() (driver.Value, error) {
+	// int is not a driver.Value
+	if v, ok := f.v.(int); ok {
+		return int64(v), nil
+	}
 	return f.v, nil
 }
-- 
2.43.0


From 3fe081448e68872c22a2d801602f05ffce098d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:43:50 +0000
Subject: [PATCH 28/38] fix: avoid alias clash of nested has_edge without
 condition

An edge back to the same table reused the alias of the outer edge, so the
inner condition compared the outer row with itself.
---
 entmq/entsql.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index 0cab127..ad9e5fd 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -145,11 +145,17 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 			var edgeErr error
 			switch len(params) {
 			case 1:
-				sqlgraph.HasNeighbors(builder, sqlgraph.NewStep(
+				step := sqlgraph.NewStep(
 					sqlgraph.From(tab.Table, tab.ID.Column),
 					sqlgraph.To(edge.To.Table, edge.To.ID.Column),
 					sqlgraph.Edge(edge.Spec.Rel, edge.Spec.Inverse, edge.Spec.Table, edge.Spec.Columns...),
-				))
+				)
+				if mb.selector == nil {
+					sqlgraph.HasNeighbors(builder, step)
+				} else {
+					// HasNeighbors does not avoid the alias of the outer edge
+					sqlgraph.HasNeighborsWith(builder, step, func(*sql.Selector) {})
+				}
 			case 2:
 				if !params[1].IsExpression() {
 					err = errors.Errorf("关联条件错误: %q", params[1].String())
-- 
2.43.0


From 0c5230ebda94acb28186c2fc2bae5d3149e9e645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:54:06 +0000
Subject: [PATCH 29/38] fix: do not write a nested left side of between twice
 in entsql

Every nesting doubled the statement, so a short query could use up all memory.
---
 entmq/entsql.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index ad9e5fd..6ff1c01 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -206,6 +206,19 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 			lo = sql.OpLT
 			ro = sql.OpGT
 		}
+		if node.Left.Type != miniquery.IdentifierNodeType && node.Left.Type != miniquery.ValueNodeType {
+			// writing it twice would double the statement with every nesting
+			err = visit(node.Left)
+			s.Pad().WriteString(strings.ToUpper(node.Op.Operation)).Pad()
+			if err == nil {
+				err = visit(node.Params[0])
+			}
+			s.WriteString(" AND ")
+			if err == nil {
+				err = visit(node.Params[1])
+			}
+			break
+		}
 
 		err = visit(node.Left)
 		if err == nil {
-- 
2.43.0


From 2455df9d6f0c2a9c71013c027fd70a6bb47cd694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:37 +0000
Subject: [PATCH 30/38] fix: keep the error of a refused query off a shared
 gorm handle

Applying a query directly to a reusable handle left the error on it, so every
later statement of the handle failed.
---
 gormq/miniquery.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index ed583cc..4fe9f3e 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -16,6 +16,7 @@ type MiniQuery struct {
 }
 
 func (q MiniQuery) Scope(db *gorm.DB) *gorm.DB {
+	db = db.Clauses() // errors must not stay on a shared handle
 	// unbalanced parentheses must not break out of their own query
 	for _, v := range q.Query {
 		if strings.TrimSpace(v) == "" {
@@ -60,6 +61,7 @@ func WireMiniQuery(db *gorm.DB, query string) *gorm.DB {
 	if query == "" {
 		return db
 	}
+	db = db.Clauses() // errors must not stay on a shared handle
 	ast, err := miniquery.Parse(query)
 	if err != nil {
 		_ = db.AddError(fmt.Errorf("invalid query syntax: %v", err))
-- 
2.43.0


From 4643e9ed30cff01d5e152d5890066ede34e99fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:06:35 +0000
Subject: [PATCH 31/38] fix: qualify columns of a filter when a later filter
 joins a relation

---
 gormq/miniquery.go | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index 4fe9f3e..2059587 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -7,6 +7,7 @@ import (
 	"github.com/pkg/errors"
 	"github.com/wenerme/go-miniquery/miniquery"
 	"gorm.io/gorm"
+	"gorm.io/gorm/clause"
 	"gorm.io/gorm/schema"
 )
 
@@ -76,6 +77,7 @@ func WireMiniQuery(db *gorm.DB, query string) *gorm.DB {
 	var vals []interface{}
 	buf := &strings.Builder{}
 	joined := map[string][]string{}
+	qualify := false
 	quote := func(builder *strings.Builder, name string) {
 		db.QuoteTo(builder, name)
 	}
@@ -89,7 +91,7 @@ func WireMiniQuery(db *gorm.DB, query string) *gorm.DB {
 			if !ok {
 				return s, fmt.Errorf("field not found: %q", s)
 			}
-			if len(db.Statement.Joins) != 0 {
+			if qualify {
 				n = db.Statement.Table + "." + n
 			}
 			return n, nil
@@ -120,20 +122,40 @@ func WireMiniQuery(db *gorm.DB, query string) *gorm.DB {
 		quote: quote,
 	}
 	err = qb.visit(ast)
-	if err == nil && len(joined) != 0 {
-		// columns before the first joined relation are not qualified yet
+	cond := condition{plain: buf.String(), vals: vals, or: ast.Type == miniquery.LogicExpressionType && ast.Op.Operation == miniquery.OpOr}
+	if err == nil {
 		buf.Reset()
-		vals = nil
+		qualify = true
 		err = qb.visit(ast)
+		cond.qualified = buf.String()
 	}
 	if err != nil {
 		_ = db.AddError(err)
 	} else {
-		db = db.Where(buf.String(), vals...)
+		db = db.Where(cond)
 	}
 	return db
 }
 
+// condition qualifies its columns when the statement joins a relation, which
+// may also happen after the condition was added
+type condition struct {
+	plain, qualified string
+	vals             []interface{}
+	or               bool
+}
+
+func (c condition) Build(builder clause.Builder) {
+	expr := clause.Expr{SQL: c.plain, Vars: c.vals}
+	if stmt, ok := builder.(*gorm.Statement); ok && len(stmt.Joins) != 0 {
+		expr.SQL = c.qualified
+	}
+	if c.or {
+		expr.SQL = "(" + expr.SQL + ")"
+	}
+	expr.Build(builder)
+}
+
 type queryBuilder struct {
 	buf      *strings.Builder
 	addValue func(interface{})
-- 
2.43.0


From da8ff12fbee45b2a7405fa76d1aba43eaaada0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:12:15 +0000
Subject: [PATCH 32/38] fix: reject a function as the edge name of has_edge

---
 entmq/entsql.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index 6ff1c01..e0a2036 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -123,7 +123,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 		case "has_edge":
 
 			params := node.Params
-			if len(params) == 0 || params[0].Name == "" {
+			if len(params) == 0 || params[0].Type != miniquery.IdentifierNodeType {
 				err = errors.New("关联参数错误")
 				break
 			}
-- 
2.43.0


From 47832f6bdec5fd71353225943883616498e36573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:13:49 +0000
Subject: [PATCH 33/38] fix: describe the operator and left side of predicates
 and ranges in String

---
 miniquery/node.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/miniquery/node.go b/miniquery/node.go
index 3a14ff0..1b4af04 100644
--- a/miniquery/node.go
+++ b/miniquery/node.go
@@ -95,11 +95,17 @@ func (n Node) String() string {
 
 	switch n.Type {
 	case BetweenExpressionType:
+		buf.WriteString(n.Left.String())
+		buf.WriteString(",")
+		buf.WriteString(n.Op.String())
+		buf.WriteString(",")
 		buf.WriteString(n.Params[0].String())
 		buf.WriteString(",")
 		buf.WriteString(n.Params[1].String())
 	case PredicatesExpressionType:
-		buf.WriteString(n.Operation)
+		buf.WriteString(n.Left.String())
+		buf.WriteString(",")
+		buf.WriteString(n.Op.String())
 	case LogicExpressionType:
 		buf.WriteString(n.Op.String())
 		buf.WriteString(",")
-- 
2.43.0


From 51afdbf5207a28b2771421c509edbffa153875e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:28:44 +0000
Subject: [PATCH 34/38] fix: keep the parts of a filter together when gorm
 negates it

---
 gormq/miniquery.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index 2059587..1a6348e 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -122,7 +122,10 @@ func WireMiniQuery(db *gorm.DB, query string) *gorm.DB {
 		quote: quote,
 	}
 	err = qb.visit(ast)
-	cond := condition{plain: buf.String(), vals: vals, or: ast.Type == miniquery.LogicExpressionType && ast.Op.Operation == miniquery.OpOr}
+	cond := condition{plain: buf.String(), vals: vals}
+	if ast.Type == miniquery.LogicExpressionType {
+		cond.logic = ast.Op.Operation
+	}
 	if err == nil {
 		buf.Reset()
 		qualify = true
@@ -142,15 +145,24 @@ func WireMiniQuery(db *gorm.DB, query string) *gorm.DB {
 type condition struct {
 	plain, qualified string
 	vals             []interface{}
-	or               bool
+	logic            miniquery.OpType
 }
 
 func (c condition) Build(builder clause.Builder) {
 	expr := clause.Expr{SQL: c.plain, Vars: c.vals}
-	if stmt, ok := builder.(*gorm.Statement); ok && len(stmt.Joins) != 0 {
+	stmt, ok := builder.(*gorm.Statement)
+	if ok && len(stmt.Joins) != 0 {
 		expr.SQL = c.qualified
 	}
-	if c.or {
+	// or next to other conditions, and when it is negated
+	alone := false
+	if ok && c.logic == miniquery.OpAnd {
+		where, is := stmt.Clauses["WHERE"].Expression.(clause.Where)
+		if alone = is && len(where.Exprs) == 1; alone {
+			_, alone = where.Exprs[0].(condition)
+		}
+	}
+	if c.logic != "" && !alone {
 		expr.SQL = "(" + expr.SQL + ")"
 	}
 	expr.Build(builder)
-- 
2.43.0


From e6d0c3d46ac0351c32386cf06f3588c54b0b2efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:28:44 +0000
Subject: [PATCH 35/38] fix: qualify columns with the table the statement ends
 up with

---
 gormq/miniquery.go | 48 +++++++++++++++++++++++++---------------------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index 1a6348e..8a78ea5 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -77,9 +77,10 @@ func WireMiniQuery(db *gorm.DB, query string) *gorm.DB {
 	var vals []interface{}
 	buf := &strings.Builder{}
 	joined := map[string][]string{}
-	qualify := false
 	quote := func(builder *strings.Builder, name string) {
-		db.QuoteTo(builder, name)
+		// the name of the table may still change
+		builder.WriteRune('?')
+		vals = append(vals, column(name))
 	}
 	qb := &queryBuilder{
 		buf: buf,
@@ -91,10 +92,7 @@ func WireMiniQuery(db *gorm.DB, query string) *gorm.DB {
 			if !ok {
 				return s, fmt.Errorf("field not found: %q", s)
 			}
-			if qualify {
-				n = db.Statement.Table + "." + n
-			}
-			return n, nil
+			return ownColumn + n, nil
 		},
 		join: func(s string, fieldName string) (string, error) {
 			r := schema.Relationships.Relations[s]
@@ -122,37 +120,43 @@ func WireMiniQuery(db *gorm.DB, query string) *gorm.DB {
 		quote: quote,
 	}
 	err = qb.visit(ast)
-	cond := condition{plain: buf.String(), vals: vals}
-	if ast.Type == miniquery.LogicExpressionType {
-		cond.logic = ast.Op.Operation
-	}
-	if err == nil {
-		buf.Reset()
-		qualify = true
-		err = qb.visit(ast)
-		cond.qualified = buf.String()
-	}
 	if err != nil {
 		_ = db.AddError(err)
 	} else {
+		cond := condition{sql: buf.String(), vals: vals}
+		if ast.Type == miniquery.LogicExpressionType {
+			cond.logic = ast.Op.Operation
+		}
 		db = db.Where(cond)
 	}
 	return db
 }
 
+// column is a name that is quoted when the statement is built
+type column string
+
+const ownColumn = clause.CurrentTable + "."
+
 // condition qualifies its columns when the statement joins a relation, which
 // may also happen after the condition was added
 type condition struct {
-	plain, qualified string
-	vals             []interface{}
-	logic            miniquery.OpType
+	sql   string
+	vals  []interface{}
+	logic miniquery.OpType
 }
 
 func (c condition) Build(builder clause.Builder) {
-	expr := clause.Expr{SQL: c.plain, Vars: c.vals}
 	stmt, ok := builder.(*gorm.Statement)
-	if ok && len(stmt.Joins) != 0 {
-		expr.SQL = c.qualified
+	expr := clause.Expr{SQL: c.sql, Vars: make([]interface{}, 0, len(c.vals))}
+	for _, v := range c.vals {
+		if name, is := v.(column); is {
+			col := clause.Column{Name: strings.TrimPrefix(string(name), ownColumn)}
+			if col.Name != string(name) && ok && len(stmt.Joins) != 0 {
+				col.Table = clause.CurrentTable
+			}
+			v = col
+		}
+		expr.Vars = append(expr.Vars, v)
 	}
 	// or next to other conditions, and when it is negated
 	alone := false
-- 
2.43.0


From 09e00039e685724fece96ee0f92b93093464fbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:29:59 +0000
Subject: [PATCH 36/38] fix: refuse a statement whose group of conditions holds
 a rejected filter

---
 gormq/miniquery.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index 8a78ea5..e95c16d 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -24,8 +24,7 @@ func (q MiniQuery) Scope(db *gorm.DB) *gorm.DB {
 			continue
 		}
 		if _, err := miniquery.Parse(v); err != nil {
-			_ = db.AddError(fmt.Errorf("invalid query syntax: %v", err))
-			return db
+			return refuse(db, fmt.Errorf("invalid query syntax: %v", err))
 		}
 	}
 	return WireMiniQuery(db, miniquery.Join(q.Query))
@@ -65,14 +64,12 @@ func WireMiniQuery(db *gorm.DB, query string) *gorm.DB {
 	db = db.Clauses() // errors must not stay on a shared handle
 	ast, err := miniquery.Parse(query)
 	if err != nil {
-		_ = db.AddError(fmt.Errorf("invalid query syntax: %v", err))
-		return db
+		return refuse(db, fmt.Errorf("invalid query syntax: %v", err))
 	}
 
 	schema, err := GetOrParseSchema(db)
 	if err != nil {
-		_ = db.AddError(err)
-		return db
+		return refuse(db, err)
 	}
 	var vals []interface{}
 	buf := &strings.Builder{}
@@ -121,7 +118,7 @@ func WireMiniQuery(db *gorm.DB, query string) *gorm.DB {
 	}
 	err = qb.visit(ast)
 	if err != nil {
-		_ = db.AddError(err)
+		db = refuse(db, err)
 	} else {
 		cond := condition{sql: buf.String(), vals: vals}
 		if ast.Type == miniquery.LogicExpressionType {
@@ -132,6 +129,19 @@ func WireMiniQuery(db *gorm.DB, query string) *gorm.DB {
 	return db
 }
 
+// refuse also fails the statement that uses db as a group of conditions, gorm
+// takes only the conditions from there
+func refuse(db *gorm.DB, err error) *gorm.DB {
+	_ = db.AddError(err)
+	return db.Where(refused{err})
+}
+
+type refused struct{ err error }
+
+func (r refused) Build(builder clause.Builder) {
+	_ = builder.AddError(r.err)
+}
+
 // column is a name that is quoted when the statement is built
 type column string
 
-- 
2.43.0


From 447b15c86ed5029931b9b02efde20257b0609bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:40:25 +0000
Subject: [PATCH 37/38] fix: keep conditions that are operands of a comparison
 together in gorm filters

"a = b > c" and "a = b is null" were written without parentheses, so the
database grouped them differently from the query.
---
 gormq/miniquery.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index e95c16d..4265463 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -270,14 +270,18 @@ func (qb *queryBuilder) visit(node *miniquery.Node) (err error) {
 	case miniquery.LogicExpressionType:
 		fallthrough
 	case miniquery.CompareExpressionType:
-		err = visit(node.Left)
+		visitOperand := visit
+		if node.Type != miniquery.LogicExpressionType {
+			visitOperand = qb.visitOperand
+		}
+		err = visitOperand(node.Left)
 		if err == nil {
 			buf.WriteRune(' ')
 			err = visit(node.Op)
 		}
 		if err == nil && node.Right != nil {
 			buf.WriteRune(' ')
-			err = visit(node.Right)
+			err = visitOperand(node.Right)
 		}
 	default:
 		return errors.Errorf("invalid type %q", node.Type)
@@ -285,6 +289,19 @@ func (qb *queryBuilder) visit(node *miniquery.Node) (err error) {
 	return err
 }
 
+// visitOperand keeps a condition that is compared together, databases disagree
+// on how to group it
+func (qb *queryBuilder) visitOperand(node *miniquery.Node) (err error) {
+	switch node.Type {
+	case miniquery.CompareExpressionType, miniquery.BetweenExpressionType, miniquery.PredicatesExpressionType:
+		qb.buf.WriteRune('(')
+		err = qb.visit(node)
+		qb.buf.WriteRune(')')
+		return
+	}
+	return qb.visit(node)
+}
+
 func (qb *queryBuilder) visitFunction(node *miniquery.Node) (err error) {
 	buf := qb.buf
 	visit := qb.visit
-- 
2.43.0


From 4120a41dc1b7aa59fa8044df1834d9a45bdbf6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:40:25 +0000
Subject: [PATCH 38/38] fix: keep conditions that are operands of a comparison
 together in ent SQL

Only ranges got parentheses. "a = b is null" was read by the database as
"(a = b) is null".
---
 entmq/entsql.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index e0a2036..53dfa3f 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -54,13 +54,20 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 	if s == nil {
 		s = &mb.Builder
 	}
-	// between is written as two comparisons, keep them together
-	visitOperand := func(node *miniquery.Node) error {
-		if node.Type != miniquery.BetweenExpressionType {
-			return visit(node)
+	// between is written as two comparisons, keep them together, and so
+	// conditions that are compared, databases disagree on how to group them
+	visitOperand := func(operand *miniquery.Node) error {
+		switch operand.Type {
+		case miniquery.BetweenExpressionType:
+		case miniquery.CompareExpressionType, miniquery.PredicatesExpressionType:
+			if node.Type == miniquery.NotExpressionType {
+				return visit(operand)
+			}
+		default:
+			return visit(operand)
 		}
 		s.WriteString("(")
-		err := visit(node)
+		err := visit(operand)
 		s.WriteString(")")
 		return err
 	}
-- 
2.43.0

