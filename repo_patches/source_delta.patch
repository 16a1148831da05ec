From 2ed1e5ee01e4a600fab250222024f8d6e687b5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:53 +0000
Subject: [PATCH 01/39] fix: exhaust opened collections in yayamls reader on
 fatal error

After a fatal error every read is a no-op, but the collection states returned
earlier still reported unprocessed items, so `for state.HasUnprocessedItems()`
loops of generated decoders never finished (e.g. `[1, a, 2]` into []int).
---
 engines/yayamls/decode/reader.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/decode/reader.go b/engines/yayamls/decode/reader.go
index 17a90c7..a74b548 100644
--- a/engines/yayamls/decode/reader.go
+++ b/engines/yayamls/decode/reader.go
@@ -624,7 +624,7 @@ func (r *ASTReader) appendError(err error) {
 	if r.multipleDenyErrors && errors.Is(err, yamly.ErrDenied) {
 		r.denyErrors = append(r.denyErrors, err)
 	} else if r.fatalError == nil {
-		r.fatalError = err
+		r.setFatalError(err)
 	}
 }
 
@@ -642,6 +642,22 @@ func (r *ASTReader) Error() error {
 
 func (r *ASTReader) AddError(err error) {
 	if r.fatalError == nil {
-		r.fatalError = err
+		r.setFatalError(err)
 	}
 }
+
+// setFatalError stores the error and exhausts all opened collections,
+// so loops driven by CollectionState finish after the failure.
+func (r *ASTReader) setFatalError(err error) {
+	if err == nil {
+		return
+	}
+	for _, point := range r.route {
+		if point.iter != nil {
+			for !point.iter.empty() {
+				point.iter.node()
+			}
+		}
+	}
+	r.fatalError = err
+}
-- 
2.43.0


From 796d0b846ea9b1eae5f244d0d30f9ac02443e904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:53 +0000
Subject: [PATCH 02/39] fix: do not exhaust collections in goyaml reader when a
 nil error is added

Generated code calls AddError with the result of UnmarshalYAML/UnmarshalText,
which is usually nil; it silently dropped the rest of the opened collections.
---
 engines/goyaml/decode/reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/engines/goyaml/decode/reader.go b/engines/goyaml/decode/reader.go
index 7a855d4..5312e57 100644
--- a/engines/goyaml/decode/reader.go
+++ b/engines/goyaml/decode/reader.go
@@ -551,6 +551,9 @@ func (r *ASTReader) AddError(err error) {
 }
 
 func (r *ASTReader) setFatalError(err error) {
+	if err == nil {
+		return
+	}
 	for _, point := range r.route {
 		if point.iter != nil {
 			for !point.iter.empty() {
-- 
2.43.0


From 08df55b62caeb8f322458297c81ec97c2d9ac30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:53 +0000
Subject: [PATCH 03/39] fix: report denied null nodes as the latest deny in
 yayamls reader

With multiple deny errors enabled the denial of a null node was stored, but the
read went on and returned the previously extracted value.
---
 engines/yayamls/decode/reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/decode/reader.go b/engines/yayamls/decode/reader.go
index a74b548..b05f7ec 100644
--- a/engines/yayamls/decode/reader.go
+++ b/engines/yayamls/decode/reader.go
@@ -442,10 +442,10 @@ func (r *ASTReader) VisitNullNode(n *ast.NullNode) {
 		r.popRoutePoint()
 	case visitingConclusionDeny:
 		r.swapRoutePoint(point)
-		r.appendError(yamly.DenyError(&denyError{
+		r.setLatestDeny(&denyError{
 			expecter: r.currentExpecter,
 			nt:       n.Type(),
-		}))
+		})
 	default:
 		r.appendError(fmt.Errorf("unexpected conclusion: %s", point.visitingResult.conclusion))
 	}
-- 
2.43.0


From 07df6b2a28ebb91b220da8b1e2780144fb869a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:26 +0000
Subject: [PATCH 04/39] fix: replace alias with the anchored node when reading
 it

The anchored node was put above the alias on the route, so after it was consumed
the alias was read again and again: `[&a 5, *a, 7]` never finished decoding.
---
 engines/goyaml/decode/reader.go  | 2 +-
 engines/yayamls/decode/reader.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/engines/goyaml/decode/reader.go b/engines/goyaml/decode/reader.go
index 5312e57..decaa4b 100644
--- a/engines/goyaml/decode/reader.go
+++ b/engines/goyaml/decode/reader.go
@@ -385,7 +385,7 @@ func (r *ASTReader) visitNode(n *yaml.Node) {
 	case yaml.ScalarNode:
 		r.visitScalarNode(n)
 	case yaml.AliasNode:
-		r.pushRoutePoint(routePoint{
+		r.swapRoutePoint(routePoint{
 			node: n.Alias,
 		})
 		r.visitNode(n.Alias)
diff --git a/engines/yayamls/decode/reader.go b/engines/yayamls/decode/reader.go
index b05f7ec..8400446 100644
--- a/engines/yayamls/decode/reader.go
+++ b/engines/yayamls/decode/reader.go
@@ -391,7 +391,7 @@ func (r *ASTReader) VisitAliasNode(n *ast.AliasNode) {
 	if err != nil {
 		r.appendError(err)
 	} else {
-		r.pushRoutePoint(routePoint{
+		r.swapRoutePoint(routePoint{
 			node: anchored,
 		})
 		anchored.Accept(r)
-- 
2.43.0


From f97dbf024d399837a8f56801c0043f849badd379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:45 +0000
Subject: [PATCH 05/39] fix: report aliases to a node containing them instead
 of recursing forever

A document like `&a [*a]` overflowed the stack in Any (both engines) and in Raw
(goyaml), and made typed decoding endless.
---
 engines/goyaml/decode/any.go     | 21 +++++++++++++++++++--
 engines/goyaml/decode/raw.go     | 14 ++++++++++++--
 engines/goyaml/decode/reader.go  | 23 +++++++++++++++++++++--
 engines/yayamls/decode/any.go    | 18 +++++++++++++-----
 engines/yayamls/decode/reader.go | 13 +++++++++++++
 5 files changed, 78 insertions(+), 11 deletions(-)

diff --git a/engines/goyaml/decode/any.go b/engines/goyaml/decode/any.go
index a0dbe15..b4db63a 100644
--- a/engines/goyaml/decode/any.go
+++ b/engines/goyaml/decode/any.go
@@ -17,7 +17,14 @@ type anyBuilder struct {
 	extractMergeMap bool
 	mergeMap        map[string]any
 
-	errors []error
+	expanding map[*yaml.Node]struct{}
+	errors    []error
+}
+
+func newAnyBuilder() anyBuilder {
+	return anyBuilder{
+		expanding: map[*yaml.Node]struct{}{},
+	}
 }
 
 func (a *anyBuilder) extractAnyValue(n *yaml.Node) (any, error) {
@@ -43,8 +50,18 @@ func (a *anyBuilder) visitNode(n *yaml.Node) {
 	case yaml.ScalarNode:
 		a.visitScalarNode(n)
 	case yaml.AliasNode:
-		a.visitNode(n.Alias)
+		a.visitAliasNode(n)
+	}
+}
+
+func (a *anyBuilder) visitAliasNode(n *yaml.Node) {
+	if _, ok := a.expanding[n.Alias]; ok {
+		a.appendError(AliasDereferenceError{name: n.Value})
+		return
 	}
+	a.expanding[n.Alias] = struct{}{}
+	a.visitNode(n.Alias)
+	delete(a.expanding, n.Alias)
 }
 
 func (a *anyBuilder) visitSequenceNode(n *yaml.Node) {
diff --git a/engines/goyaml/decode/raw.go b/engines/goyaml/decode/raw.go
index d9c60f5..a36f58d 100644
--- a/engines/goyaml/decode/raw.go
+++ b/engines/goyaml/decode/raw.go
@@ -21,12 +21,16 @@ type rawTransformer struct {
 	topLevelAnchor string
 	metAnchors     map[string]struct{}
 
+	visiting map[*yaml.Node]struct{}
+	err      error
+
 	dereferencedAliases []dereferencedAliasInfo
 }
 
 func newRawTransformer() rawTransformer {
 	return rawTransformer{
 		metAnchors: map[string]struct{}{},
+		visiting:   map[*yaml.Node]struct{}{},
 	}
 }
 
@@ -36,17 +40,23 @@ type dereferencedAliasInfo struct {
 	idx    int
 }
 
-func (rt *rawTransformer) transform(n *yaml.Node) *yaml.Node {
+func (rt *rawTransformer) transform(n *yaml.Node) (*yaml.Node, error) {
 	rt.topLevelAnchor = n.Anchor
 	n.Anchor = ""
 	rt.visitNode(n)
 	if n.Kind == yaml.AliasNode {
 		n = n.Alias
 	}
-	return n
+	return n, rt.err
 }
 
 func (rt *rawTransformer) visitNode(n *yaml.Node) {
+	if _, ok := rt.visiting[n]; ok {
+		rt.err = AliasDereferenceError{name: n.Anchor}
+		return
+	}
+	rt.visiting[n] = struct{}{}
+	defer delete(rt.visiting, n)
 	if n.Anchor != "" {
 		rt.metAnchors[n.Anchor] = struct{}{}
 	}
diff --git a/engines/goyaml/decode/reader.go b/engines/goyaml/decode/reader.go
index decaa4b..f009170 100644
--- a/engines/goyaml/decode/reader.go
+++ b/engines/goyaml/decode/reader.go
@@ -299,7 +299,7 @@ func (r *ASTReader) Any() any {
 		r.latestDenyError = nil
 		return nil
 	}
-	valueBuilder := anyBuilder{}
+	valueBuilder := newAnyBuilder()
 	v, err := valueBuilder.extractAnyValue(r.currentNode())
 	if err != nil {
 		r.appendError(err)
@@ -322,7 +322,11 @@ func (r *ASTReader) Raw() []byte {
 	}
 	curNode := r.currentNode()
 	transformer := newRawTransformer()
-	v, err := yaml.Marshal(transformer.transform(curNode))
+	var v []byte
+	tree, err := transformer.transform(curNode)
+	if err == nil {
+		v, err = yaml.Marshal(tree)
+	}
 	transformer.restore(curNode)
 	if err != nil {
 		r.appendError(err)
@@ -385,6 +389,10 @@ func (r *ASTReader) visitNode(n *yaml.Node) {
 	case yaml.ScalarNode:
 		r.visitScalarNode(n)
 	case yaml.AliasNode:
+		if r.isOnRoute(n.Alias) {
+			r.appendError(AliasDereferenceError{name: n.Value})
+			return
+		}
 		r.swapRoutePoint(routePoint{
 			node: n.Alias,
 		})
@@ -493,6 +501,17 @@ func (r *ASTReader) currentNode() *yaml.Node {
 	return r.route[len(r.route)-1].node
 }
 
+// isOnRoute shows if the node is being read right now,
+// i.e. an alias to it would make the node contain itself.
+func (r *ASTReader) isOnRoute(n *yaml.Node) bool {
+	for i := range r.route {
+		if r.route[i].node == n {
+			return true
+		}
+	}
+	return false
+}
+
 func (r *ASTReader) pushRoutePoint(point routePoint) {
 	r.route = append(r.route, point)
 }
diff --git a/engines/yayamls/decode/any.go b/engines/yayamls/decode/any.go
index fd7b9de..a6fffcb 100644
--- a/engines/yayamls/decode/any.go
+++ b/engines/yayamls/decode/any.go
@@ -17,13 +17,15 @@ type anyBuilder struct {
 	extractMergeMap bool
 	mergeMap        map[string]any
 
-	anchors *anchorsKeeper
-	errors  []error
+	anchors   *anchorsKeeper
+	expanding map[ast.Node]struct{}
+	errors    []error
 }
 
 func newAnyBuilder(anchors *anchorsKeeper) anyBuilder {
 	return anyBuilder{
-		anchors: anchors,
+		anchors:   anchors,
+		expanding: map[ast.Node]struct{}{},
 	}
 }
 
@@ -49,9 +51,15 @@ func (a *anyBuilder) VisitAliasNode(n *ast.AliasNode) {
 	anchored, err := a.anchors.DereferenceAlias(n.Text())
 	if err != nil {
 		a.appendError(err)
-	} else {
-		a.visitNode(anchored)
+		return
+	}
+	if _, ok := a.expanding[anchored]; ok {
+		a.appendError(AliasDereferenceError{name: n.Text()})
+		return
 	}
+	a.expanding[anchored] = struct{}{}
+	a.visitNode(anchored)
+	delete(a.expanding, anchored)
 }
 
 func (a *anyBuilder) VisitTextNode(n *ast.TextNode) {
diff --git a/engines/yayamls/decode/reader.go b/engines/yayamls/decode/reader.go
index 8400446..23704b8 100644
--- a/engines/yayamls/decode/reader.go
+++ b/engines/yayamls/decode/reader.go
@@ -390,6 +390,8 @@ func (r *ASTReader) VisitAliasNode(n *ast.AliasNode) {
 	anchored, err := r.anchors.DereferenceAlias(n.Text())
 	if err != nil {
 		r.appendError(err)
+	} else if r.isOnRoute(anchored) {
+		r.appendError(AliasDereferenceError{name: n.Text()})
 	} else {
 		r.swapRoutePoint(routePoint{
 			node: anchored,
@@ -588,6 +590,17 @@ func (r *ASTReader) currentNode() ast.Node {
 	return r.route[len(r.route)-1].node
 }
 
+// isOnRoute shows if the node is being read right now,
+// i.e. an alias to it would make the node contain itself.
+func (r *ASTReader) isOnRoute(n ast.Node) bool {
+	for i := range r.route {
+		if r.route[i].node == n {
+			return true
+		}
+	}
+	return false
+}
+
 func (r *ASTReader) pushRoutePoint(point routePoint) {
 	r.route = append(r.route, point)
 }
-- 
2.43.0


From 78c44f94c8e9d9416a937da7c100e7eeb30c441b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:14 +0000
Subject: [PATCH 06/39] fix: convert every integer the schema recognizes

`+1` was recognized as unsigned integer but failed to convert, `089` failed and
`0123` was converted as octal, though YAML octals have 0o prefix.
---
 engines/pkg/schema/schema.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/engines/pkg/schema/schema.go b/engines/pkg/schema/schema.go
index 4898acc..0ab3c8b 100644
--- a/engines/pkg/schema/schema.go
+++ b/engines/pkg/schema/schema.go
@@ -84,7 +84,7 @@ func FromInteger(val int64) string {
 
 // ToInteger tries to convert YAML into Go integer with given bit size.
 func ToInteger(src string, bitSize int) (int64, error) {
-	return strconv.ParseInt(src, 0, bitSize)
+	return strconv.ParseInt(src, integerBase(src), bitSize)
 }
 
 // FromUnsignedInteger converts Go unsigned integer value into YAML integer.
@@ -94,7 +94,16 @@ func FromUnsignedInteger(val uint64) string {
 
 // ToUnsignedInteger tries to convert YAML into Go unsigned integer with given bit size.
 func ToUnsignedInteger(src string, bitSize int) (uint64, error) {
-	return strconv.ParseUint(src, 0, bitSize)
+	return strconv.ParseUint(strings.TrimPrefix(src, "+"), integerBase(src), bitSize)
+}
+
+// integerBase returns a base for strconv functions: octal (0o) and hexadecimal (0x) integers
+// are recognized by prefix, any other YAML integer is decimal (including ones with leading zeros).
+func integerBase(src string) int {
+	if strings.HasPrefix(src, "0o") || strings.HasPrefix(src, "0x") {
+		return 0
+	}
+	return 10
 }
 
 var (
-- 
2.43.0


From 141f20f1f81d2c288e9afd5a891607a3dc1fe4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:14 +0000
Subject: [PATCH 07/39] fix: use the reference year in timestamp layouts

Layouts with 2001 never matched a date, so short and space separated timestamps
were not recognized.
---
 engines/pkg/schema/schema.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/engines/pkg/schema/schema.go b/engines/pkg/schema/schema.go
index 0ab3c8b..462ff1a 100644
--- a/engines/pkg/schema/schema.go
+++ b/engines/pkg/schema/schema.go
@@ -167,9 +167,9 @@ var timestampLayouts = []string{
 	time.RFC3339Nano,
 	time.DateOnly,
 	"2006-1-2T15:4:5.999999999Z07:00", // short RFC339Nano
-	"2001-1-2t15:4:5.999999999-07:00", // lower t + time zone without 'Z'
-	"2001-1-2 15:4:5.999999999",       // space separated
-	"2001-1-2",                        // date only short form
+	"2006-1-2t15:4:5.999999999-07:00", // lower t + time zone without 'Z'
+	"2006-1-2 15:4:5.999999999",       // space separated
+	"2006-1-2",                        // date only short form
 }
 
 // IsTimestamp shows if string represents a YAML timedate.
-- 
2.43.0


From d04ab93ec60b3030f541cfac5c54cf2306863844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:14 +0000
Subject: [PATCH 08/39] fix: keep fractional seconds of encoded timestamps

---
 engines/pkg/schema/schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engines/pkg/schema/schema.go b/engines/pkg/schema/schema.go
index 462ff1a..480393f 100644
--- a/engines/pkg/schema/schema.go
+++ b/engines/pkg/schema/schema.go
@@ -185,7 +185,7 @@ func IsTimestamp(s string) bool {
 
 // FromTimestamp converts Go time.Time value into YAML timedate.
 func FromTimestamp(val time.Time) string {
-	return val.Format(time.RFC3339)
+	return val.Format(time.RFC3339Nano)
 }
 
 // ToTimestamp tries to convert YAML string into Go time.Time value.
-- 
2.43.0


From a37d7b59889c2959be61b34e232937cfdeb5941d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:14 +0000
Subject: [PATCH 09/39] fix: unescape the digits of \x, \u and \U escapes, not
 the text after them

The slice was taken after the digits: wrong result or out of range panic.
---
 engines/yayamls/yamlchar/transformations.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/engines/yayamls/yamlchar/transformations.go b/engines/yayamls/yamlchar/transformations.go
index 2da178c..d2f45a0 100644
--- a/engines/yayamls/yamlchar/transformations.go
+++ b/engines/yayamls/yamlchar/transformations.go
@@ -221,8 +221,8 @@ func unescapeUnicodeCharacter(runes []rune, i int) (rune, int, error) {
 			return 0, 0, fmt.Errorf("expected to have 2 hexadecimal digits after \\x, but have %s",
 				string(runes[i:i+2]))
 		}
-		i += 2
 		escaped = runes[i : i+2]
+		i += 2
 	case 'u':
 		i++
 		if len(runes)-i < 4 {
@@ -232,8 +232,8 @@ func unescapeUnicodeCharacter(runes []rune, i int) (rune, int, error) {
 			return 0, 0, fmt.Errorf("expected to have 4 hexadecimal digits after \\u, but have %s",
 				string(runes[i:i+4]))
 		}
-		i += 4
 		escaped = runes[i : i+4]
+		i += 4
 	case 'U':
 		i++
 		if len(runes)-i < 8 {
@@ -243,8 +243,8 @@ func unescapeUnicodeCharacter(runes []rune, i int) (rune, int, error) {
 			return 0, 0, fmt.Errorf("expected to have 8 hexadecimal digits after \\U, but have %s",
 				string(runes[i:i+8]))
 		}
-		i += 8
 		escaped = runes[i : i+8]
+		i += 8
 	}
 	result, err := parseEscapedHexDigits(escaped)
 	return result, i, err
-- 
2.43.0


From 492d11cfb4395c4c109fe2a48b54326e36186a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:18 +0000
Subject: [PATCH 10/39] fix: drop the leaked checkpoint after an escaped line
 break in double quotes

---
 engines/yayamls/parser/flow.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/engines/yayamls/parser/flow.go b/engines/yayamls/parser/flow.go
index 75a9898..284eaec 100644
--- a/engines/yayamls/parser/flow.go
+++ b/engines/yayamls/parser/flow.go
@@ -297,6 +297,7 @@ func (p *parser) parseDoubleEscaped(ind *indentation, buf *bytes.Buffer) ast.Nod
 		savedLen := buf.Len()
 		if !ast.ValidNode(p.parseEmpty(ind, flowInContext, buf)) {
 			buf.Truncate(savedLen)
+			p.rollback()
 			break
 		}
 		p.commit()
-- 
2.43.0


From 1d8d43cecf4f0504a75cd48a9b632df8d24e7d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:03 +0000
Subject: [PATCH 11/39] fix: report unparsed trailing tokens instead of
 dropping them

---
 engines/yayamls/parser/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/engines/yayamls/parser/parser.go b/engines/yayamls/parser/parser.go
index 2a71018..a0f0162 100644
--- a/engines/yayamls/parser/parser.go
+++ b/engines/yayamls/parser/parser.go
@@ -136,6 +136,9 @@ func (p *parser) Parse() (ast.Node, error) {
 	p.next()
 	p.startOfLine = true
 	result := p.parseStream()
+	if !p.hasErrors() && p.tok.Type != token.EOFType {
+		p.appendError(DeadEndError{Pos: p.tok.Start})
+	}
 	return result, p.error()
 }
 
-- 
2.43.0


From 0047ada294549d86504689908a4582224f05104d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:03 +0000
Subject: [PATCH 12/39] fix: give the nounsafe string conversions the names
 their callers use

---
 engines/yayamls/pkg/strslice/nounsafe.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/pkg/strslice/nounsafe.go b/engines/yayamls/pkg/strslice/nounsafe.go
index f3460f8..94e3d1a 100644
--- a/engines/yayamls/pkg/strslice/nounsafe.go
+++ b/engines/yayamls/pkg/strslice/nounsafe.go
@@ -2,10 +2,10 @@
 
 package strslice
 
-func StringToBytes(s string) []byte {
+func StringToBytesSlice(s string) []byte {
 	return []byte(s)
 }
 
-func BytesToString(s []byte) string {
+func BytesSliceToString(s []byte) string {
 	return string(s)
 }
-- 
2.43.0


From c05d2cc07e31808227fe8951482e030cb35f9504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:03 +0000
Subject: [PATCH 13/39] fix: accept the same single-character escapes when
 checking and unescaping

---
 engines/yayamls/yamlchar/chars.go           | 2 +-
 engines/yayamls/yamlchar/transformations.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/yamlchar/chars.go b/engines/yayamls/yamlchar/chars.go
index b3df724..1db76b7 100644
--- a/engines/yayamls/yamlchar/chars.go
+++ b/engines/yayamls/yamlchar/chars.go
@@ -222,7 +222,7 @@ func IsJSONChar(r rune) bool {
 }
 
 // YAML specification: [41-58] ns-esc-...
-const singleEscapedCharacters = "0at\tnvfre \"/\\N_LP"
+const singleEscapedCharacters = "0abt\tnvfre \"/\\N_LP"
 
 // IsEscapedCharacter checks if given runes are valid escaped sequence of characters in YAML
 // (i.e. \<valid single escaped character>, \x<two hex digits>, \u<four hex digits> or
diff --git a/engines/yayamls/yamlchar/transformations.go b/engines/yayamls/yamlchar/transformations.go
index d2f45a0..2596fab 100644
--- a/engines/yayamls/yamlchar/transformations.go
+++ b/engines/yayamls/yamlchar/transformations.go
@@ -174,7 +174,7 @@ func unescapeASCIICharacter(runes []rune, i int) (rune, int, error) {
 		result = '\a'
 	case 'b':
 		result = '\b'
-	case 't':
+	case 't', '\t':
 		result = '\t'
 	case 'n':
 		result = '\n'
-- 
2.43.0


From 61bed2020f70ef5b160b21fb1bf0e47fd0fb7302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:57 +0000
Subject: [PATCH 14/39] fix: report a key without value when ending a mapping
 in goyaml builder

---
 engines/goyaml/encode/builder.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/engines/goyaml/encode/builder.go b/engines/goyaml/encode/builder.go
index 681d980..75a09c9 100644
--- a/engines/goyaml/encode/builder.go
+++ b/engines/goyaml/encode/builder.go
@@ -131,6 +131,8 @@ func (b *ASTBuilder) EndMapping() {
 			"failed to end mapping: expected mapping, but currenlty at %s",
 			kindToString(currentNode.Kind),
 		)
+	case len(currentNode.Content)%2 != 0:
+		b.fatalError = fmt.Errorf("failed to end mapping: the last key does not have a value")
 	default:
 		b.popNode()
 	}
-- 
2.43.0


From 35200098841c59778c6f8793a9249d96f82942f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:57 +0000
Subject: [PATCH 15/39] fix: report unfinished and repeated roots instead of
 losing inserted nodes

---
 engines/goyaml/encode/builder.go  | 11 ++++++++++-
 engines/yayamls/encode/builder.go | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/engines/goyaml/encode/builder.go b/engines/goyaml/encode/builder.go
index 75a09c9..e5631a4 100644
--- a/engines/goyaml/encode/builder.go
+++ b/engines/goyaml/encode/builder.go
@@ -174,6 +174,9 @@ func (b *ASTBuilder) InsertRawText(data []byte, err error) {
 func (b *ASTBuilder) Result() (*yaml.Node, error) {
 	root := b.root
 	err := b.fatalError
+	if err == nil && len(b.route) > 0 {
+		err = fmt.Errorf("failed to build tree: sequence or mapping is not finished")
+	}
 	b.route = b.route[:0]
 	b.root = nil
 	b.fatalError = nil
@@ -197,8 +200,14 @@ func (b *ASTBuilder) insertNode(n *yaml.Node, pushToRoute bool) {
 	}
 	currentNode := b.currentNode()
 	if currentNode == nil {
-		b.pushNode(n)
+		if b.root != nil {
+			b.fatalError = fmt.Errorf("cannot insert new node to tree: root node is already finished")
+			return
+		}
 		b.root = n
+		if pushToRoute {
+			b.pushNode(n)
+		}
 		return
 	}
 
diff --git a/engines/yayamls/encode/builder.go b/engines/yayamls/encode/builder.go
index f795bfb..9652cbc 100644
--- a/engines/yayamls/encode/builder.go
+++ b/engines/yayamls/encode/builder.go
@@ -152,6 +152,9 @@ func (b *ASTBuilder) InsertRawText(text []byte, err error) {
 func (b *ASTBuilder) Result() (ast.Node, error) {
 	root := b.root
 	err := b.fatalError
+	if err == nil && len(b.route) > 0 {
+		err = fmt.Errorf("failed to build tree: sequence or mapping is not finished")
+	}
 	b.route = b.route[:0]
 	b.root = nil
 	b.fatalError = nil
@@ -174,8 +177,14 @@ func (b *ASTBuilder) insertNode(n ast.Node, pushToRoute bool) {
 	}
 	currentNode := b.currentNode()
 	if !ast.ValidNode(currentNode) {
-		b.pushNode(n)
+		if b.root != nil {
+			b.fatalError = fmt.Errorf("cannot insert new node to tree: root node is already finished")
+			return
+		}
 		b.root = n
+		if pushToRoute {
+			b.pushNode(n)
+		}
 		return
 	}
 
-- 
2.43.0


From c75513fdd0206884c552106b38ac6a131e277434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:16 +0000
Subject: [PATCH 16/39] fix: keep mappings nested in a merged mapping when
 building any values

---
 engines/goyaml/decode/any.go  | 6 ++----
 engines/yayamls/decode/any.go | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/engines/goyaml/decode/any.go b/engines/goyaml/decode/any.go
index b4db63a..ccd1c4d 100644
--- a/engines/goyaml/decode/any.go
+++ b/engines/goyaml/decode/any.go
@@ -135,11 +135,9 @@ func mergeMaps(dst, src map[string]any) {
 func (a *anyBuilder) processMappingPair(keyNode, valueNode *yaml.Node) {
 	savedExtractString, savedExtractMergeMap := a.extractString, a.extractMergeMap
 
-	a.extractString = true
+	a.extractString, a.extractMergeMap = true, false
 	a.visitNode(keyNode)
-	if a.stringValue == schema.MergeKey {
-		a.extractMergeMap = true
-	}
+	a.extractMergeMap = a.stringValue == schema.MergeKey
 
 	key := a.stringValue
 	a.extractString = false
diff --git a/engines/yayamls/decode/any.go b/engines/yayamls/decode/any.go
index a6fffcb..98e3181 100644
--- a/engines/yayamls/decode/any.go
+++ b/engines/yayamls/decode/any.go
@@ -128,11 +128,9 @@ func mergeMaps(dst, src map[string]any) {
 func (a *anyBuilder) VisitMappingEntryNode(n *ast.MappingEntryNode) {
 	savedExtractString, savedExtractMergeMap := a.extractString, a.extractMergeMap
 
-	a.extractString = true
+	a.extractString, a.extractMergeMap = true, false
 	a.visitNode(n.Key())
-	if a.stringValue == schema.MergeKey {
-		a.extractMergeMap = true
-	}
+	a.extractMergeMap = a.stringValue == schema.MergeKey
 
 	key := a.stringValue
 	a.extractString = false
-- 
2.43.0


From 760bd8b36cc3107ea3f08c018516b16ca6e179d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:16 +0000
Subject: [PATCH 17/39] fix: keep anchors of subtrees which are consumed
 without being visited

---
 engines/yayamls/decode/anchors.go | 28 ++++++++++++++++++++++++++++
 engines/yayamls/decode/reader.go  |  3 +++
 2 files changed, 31 insertions(+)

diff --git a/engines/yayamls/decode/anchors.go b/engines/yayamls/decode/anchors.go
index 917c47d..fcba66a 100644
--- a/engines/yayamls/decode/anchors.go
+++ b/engines/yayamls/decode/anchors.go
@@ -28,6 +28,34 @@ func (ak *anchorsKeeper) BindToLatestAnchor(n ast.Node) {
 	}
 }
 
+// CollectAnchors stores all anchors met in the subtree which is consumed without visiting its nodes.
+func (ak *anchorsKeeper) CollectAnchors(n ast.Node) {
+	switch n := n.(type) {
+	case *ast.StreamNode:
+		for _, document := range n.Documents() {
+			ak.CollectAnchors(document)
+		}
+	case *ast.SequenceNode:
+		for _, entry := range n.Entries() {
+			ak.CollectAnchors(entry)
+		}
+	case *ast.MappingNode:
+		for _, entry := range n.Entries() {
+			ak.CollectAnchors(entry)
+		}
+	case *ast.MappingEntryNode:
+		ak.CollectAnchors(n.Key())
+		ak.CollectAnchors(n.Value())
+	case *ast.ContentNode:
+		if properties, ok := n.Properties().(*ast.PropertiesNode); ok {
+			if anchor, ok := properties.Anchor().(*ast.AnchorNode); ok {
+				ak.anchors[anchor.Text()] = n.Content()
+			}
+		}
+		ak.CollectAnchors(n.Content())
+	}
+}
+
 func (ak *anchorsKeeper) DereferenceAlias(alias string) (ast.Node, error) {
 	anchored, ok := ak.anchors[alias]
 	if !ok {
diff --git a/engines/yayamls/decode/reader.go b/engines/yayamls/decode/reader.go
index 23704b8..bd98eb8 100644
--- a/engines/yayamls/decode/reader.go
+++ b/engines/yayamls/decode/reader.go
@@ -335,6 +335,7 @@ func (r *ASTReader) Raw() []byte {
 		r.appendError(err)
 		return nil
 	}
+	r.anchors.CollectAnchors(r.currentNode())
 	r.popRoutePoint()
 	return v
 }
@@ -351,6 +352,7 @@ func (r *ASTReader) Node() ast.Node {
 		return nil
 	}
 	n := r.currentNode()
+	r.anchors.CollectAnchors(n)
 	r.popRoutePoint()
 	return n
 }
@@ -526,6 +528,7 @@ func (r *ASTReader) processComplexPoint(point routePoint, childrenSize int, opts
 	r.swapRoutePoint(point)
 	switch point.visitingResult.conclusion {
 	case visitingConclusionConsume:
+		r.anchors.CollectAnchors(point.node)
 		r.popRoutePoint()
 	case visitingConclusionMatch:
 	case visitingConclusionDeny:
-- 
2.43.0


From 409f854d83492fad5ec3f1c5f909e9a49428edec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:13 +0000
Subject: [PATCH 18/39] fix: remember the last buffered element for the next
 checkpoint

---
 engines/yayamls/pkg/cpaccessor/accessor.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/engines/yayamls/pkg/cpaccessor/accessor.go b/engines/yayamls/pkg/cpaccessor/accessor.go
index e9fb6bd..8da8e60 100644
--- a/engines/yayamls/pkg/cpaccessor/accessor.go
+++ b/engines/yayamls/pkg/cpaccessor/accessor.go
@@ -62,6 +62,8 @@ func (a *CheckpointingAccessor[T]) Next() T {
 		if a.bufIndicator == len(a.buf) {
 			if len(a.checkpointsStack) == 0 {
 				// there are no checkpoints - buffer elements will not be used anymore
+				// except the last one: the next checkpoint may roll back to it.
+				a.saved = val
 				a.buf = a.buf[:0]
 			}
 			a.bufIndicator = withoutBuffer
-- 
2.43.0


From 24befc4c7857263085a4f5a89b5e1f24a6883629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:18 +0000
Subject: [PATCH 19/39] fix: recognise indicators right after a byte order mark

---
 engines/yayamls/token/token.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engines/yayamls/token/token.go b/engines/yayamls/token/token.go
index ba912fe..46bf2f1 100644
--- a/engines/yayamls/token/token.go
+++ b/engines/yayamls/token/token.go
@@ -156,7 +156,7 @@ func IsNonBreak(tok Token) bool {
 // MayPrecedeWord shows if given token may precede word (or string).
 func MayPrecedeWord(tok Token) bool {
 	switch tok.Type {
-	case SpaceType, TabType, LineBreakType, UnknownType:
+	case SpaceType, TabType, LineBreakType, BOMType, UnknownType:
 		return true
 	default:
 		return false
-- 
2.43.0


From a3718d48bf8f7053ce7033aee54a2f2adef62399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:11 +0000
Subject: [PATCH 20/39] fix: accept the tag and URI characters of the YAML
 specification

Tag names with '-', '(' or ')' were refused, URIs with parentheses too, while
braces, which no URI contains, were accepted in verbatim tags.
---
 engines/yayamls/yamlchar/chars.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/engines/yayamls/yamlchar/chars.go b/engines/yayamls/yamlchar/chars.go
index 1db76b7..36ce5f0 100644
--- a/engines/yayamls/yamlchar/chars.go
+++ b/engines/yayamls/yamlchar/chars.go
@@ -71,7 +71,7 @@ func IsWord(s string) bool {
 
 // YAML specification: [39] ns-uri-char
 func IsURI(s string) bool {
-	const URIOnlyChars = "-#;/?:@&=+$_.!~*'"
+	const URIOnlyChars = "-#;/?:@&=+$,_.!~*'()[]"
 
 	runes := []rune(s)
 	n := len(runes)
@@ -85,7 +85,7 @@ func IsURI(s string) bool {
 			i++
 		default:
 			r := runes[i]
-			if !(IsDigit(r) || IsASCIILetter(r) || IsFlowIndicatorChar(r) || strings.ContainsRune(URIOnlyChars, r)) {
+			if !(IsDigit(r) || IsASCIILetter(r) || strings.ContainsRune(URIOnlyChars, r)) {
 				return false
 			}
 		}
@@ -95,7 +95,7 @@ func IsURI(s string) bool {
 
 // YAML specification: [40] ns-tag-char
 func IsTagString(s string) bool {
-	const TagOnlyChars = "#;/?:@&=+$_.~*'"
+	const TagOnlyChars = "-#;/?:@&=+$_.~*'()"
 
 	runes := []rune(s)
 	n := len(runes)
-- 
2.43.0


From 4fd2ef18b8feb96239a710f63c18382412b2f413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:01 +0000
Subject: [PATCH 21/39] fix: write empty collections and end scalar documents
 with a line break

Empty sequences and mappings were written as nothing and read back as null; the
document end mark was glued to a scalar document.
---
 engines/yayamls/encode/writer.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/engines/yayamls/encode/writer.go b/engines/yayamls/encode/writer.go
index 325f2af..777c1d0 100644
--- a/engines/yayamls/encode/writer.go
+++ b/engines/yayamls/encode/writer.go
@@ -134,6 +134,7 @@ func (w *ASTWriter) VisitStreamNode(n *ast.StreamNode) {
 	for _, doc := range n.Documents() {
 		w.buf.WriteString("---\n")
 		doc.Accept(w)
+		w.maybeWriteLineBreak()
 		w.buf.WriteString("...\n")
 	}
 }
@@ -195,6 +196,10 @@ func (w *ASTWriter) VisitTextNode(n *ast.TextNode) {
 }
 
 func (w *ASTWriter) VisitSequenceNode(n *ast.SequenceNode) {
+	if len(n.Entries()) == 0 {
+		w.writeEmptyCollection("[]")
+		return
+	}
 	w.writePreparedData(n)
 	for _, entry := range n.Entries() {
 		w.maybeWriteIndentation()
@@ -209,6 +214,10 @@ func (w *ASTWriter) VisitSequenceNode(n *ast.SequenceNode) {
 }
 
 func (w *ASTWriter) VisitMappingNode(n *ast.MappingNode) {
+	if len(n.Entries()) == 0 {
+		w.writeEmptyCollection("{}")
+		return
+	}
 	w.writePreparedData(n)
 	for _, entry := range n.Entries() {
 		w.maybeWriteIndentation()
@@ -230,6 +239,7 @@ func (w *ASTWriter) VisitMappingEntryNode(n *ast.MappingEntryNode) {
 
 	if isComplexKey {
 		w.decreaseIndentation()
+		w.maybeWriteLineBreak()
 	}
 	w.buf.WriteByte(':')
 	w.writeBeforeComplexElements("\n")
@@ -295,6 +305,15 @@ func (w *ASTWriter) writePreparedData(n ast.Node) {
 	w.beforeSimple = ""
 }
 
+// writeEmptyCollection writes an empty collection in flow style, because
+// block style has no notation for it.
+func (w *ASTWriter) writeEmptyCollection(s string) {
+	w.buf.WriteString(w.beforeSimple)
+	w.beforeComplex = ""
+	w.beforeSimple = ""
+	w.buf.WriteString(s)
+}
+
 func (w *ASTWriter) increaseIndentation() {
 	w.indentation += w.indentationDelta
 }
-- 
2.43.0


From ed19fc742a715a3cc9c0fe647ae89626e9cf766d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:01 +0000
Subject: [PATCH 22/39] fix: indent the value indicator of nested complex keys

It was written at the start of the line, so the mapping could not be read back.
Literal texts used as keys are written as complex keys, as they take several lines.
---
 engines/yayamls/encode/writer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/engines/yayamls/encode/writer.go b/engines/yayamls/encode/writer.go
index 777c1d0..2cd8649 100644
--- a/engines/yayamls/encode/writer.go
+++ b/engines/yayamls/encode/writer.go
@@ -240,6 +240,7 @@ func (w *ASTWriter) VisitMappingEntryNode(n *ast.MappingEntryNode) {
 	if isComplexKey {
 		w.decreaseIndentation()
 		w.maybeWriteLineBreak()
+		w.maybeWriteIndentation()
 	}
 	w.buf.WriteByte(':')
 	w.writeBeforeComplexElements("\n")
@@ -402,6 +403,10 @@ func isComplex(n ast.Node) bool {
 		return true
 	case ast.ContentType:
 		return isComplex(n.(*ast.ContentNode).Content()) // nolint: forcetypeassert
+	case ast.TextType:
+		// literal text takes several lines
+		text, ok := n.(*ast.TextNode)
+		return ok && text.QuotingType() == ast.AbsentQuotingType && isMultiline(text.Text())
 	default:
 		return false
 	}
-- 
2.43.0


From 7f40d828b2ee91f10dc4c441b6869b21e4d9b3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:01 +0000
Subject: [PATCH 23/39] fix: separate node properties from their content when
 writing

At the root the content was glued to the anchor, in a sequence a nested collection
was put on the line of its properties.
---
 engines/yayamls/encode/writer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/engines/yayamls/encode/writer.go b/engines/yayamls/encode/writer.go
index 2cd8649..31f17c2 100644
--- a/engines/yayamls/encode/writer.go
+++ b/engines/yayamls/encode/writer.go
@@ -275,8 +275,11 @@ func (w *ASTWriter) VisitContentNode(n *ast.ContentNode) {
 	w.writePreparedData(n)
 	properties, content := n.Properties(), n.Content()
 	if ast.ValidNode(properties) {
-		w.buf.WriteByte(' ')
+		w.buf.WriteString(w.beforeSimple)
 		properties.Accept(w)
+		// the content follows on the same line, or on the next one if it is complex
+		w.writeBeforeComplexElements("\n")
+		w.writeBeforeSimpleElements(" ")
 
 		if w.opts.anchorsKeeper != nil {
 			w.opts.anchorsKeeper.BindToLatestAnchor(n)
-- 
2.43.0


From 094f2b4001fc75ee3dc8cd0dd5757c79e05419fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:01 +0000
Subject: [PATCH 24/39] fix: quote texts which cannot be written without quotes

Empty texts were read back as null, a leading space or line break of a literal text
was taken for indentation.
---
 engines/yayamls/encode/writer.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/engines/yayamls/encode/writer.go b/engines/yayamls/encode/writer.go
index 31f17c2..8935c6d 100644
--- a/engines/yayamls/encode/writer.go
+++ b/engines/yayamls/encode/writer.go
@@ -177,9 +177,12 @@ func (w *ASTWriter) VisitTextNode(n *ast.TextNode) {
 	w.writePreparedData(n)
 	switch txt := n.Text(); n.QuotingType() {
 	case ast.AbsentQuotingType:
-		if isMultiline(txt) {
+		switch {
+		case !isRepresentableWithoutQuotes(txt):
+			w.writeDoubleQuotedText(txt)
+		case isMultiline(txt):
 			w.writeMultilineLiteralText(txt)
-		} else {
+		default:
 			w.buf.WriteString(txt)
 		}
 	case ast.SingleQuotingType:
@@ -187,7 +190,7 @@ func (w *ASTWriter) VisitTextNode(n *ast.TextNode) {
 	case ast.DoubleQuotingType:
 		w.writeDoubleQuotedText(txt)
 	default:
-		if isMultiline(txt) {
+		if isMultiline(txt) || !isRepresentableWithoutQuotes(txt) {
 			w.writeDoubleQuotedText(txt)
 		} else {
 			w.buf.WriteString(txt)
@@ -400,6 +403,12 @@ func isMultiline(s string) bool {
 	return strings.ContainsRune(s, '\n')
 }
 
+// isRepresentableWithoutQuotes shows if given text can be written without quotes.
+// Empty text would be read as null, leading space would be taken for an indentation.
+func isRepresentableWithoutQuotes(s string) bool {
+	return s != "" && s[0] != ' ' && s[0] != '\n'
+}
+
 func isComplex(n ast.Node) bool {
 	switch n.Type() {
 	case ast.SequenceType, ast.MappingType:
@@ -409,7 +418,8 @@ func isComplex(n ast.Node) bool {
 	case ast.TextType:
 		// literal text takes several lines
 		text, ok := n.(*ast.TextNode)
-		return ok && text.QuotingType() == ast.AbsentQuotingType && isMultiline(text.Text())
+		return ok && text.QuotingType() == ast.AbsentQuotingType &&
+			isMultiline(text.Text()) && isRepresentableWithoutQuotes(text.Text())
 	default:
 		return false
 	}
-- 
2.43.0


From e129f3526a92cb7beb45dc379dcf122703d29f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:19 +0000
Subject: [PATCH 25/39] fix: yayamls writer: alias of an empty node is written
 as null

---
 engines/yayamls/encode/writer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/engines/yayamls/encode/writer.go b/engines/yayamls/encode/writer.go
index 8935c6d..2554738 100644
--- a/engines/yayamls/encode/writer.go
+++ b/engines/yayamls/encode/writer.go
@@ -164,6 +164,8 @@ func (w *ASTWriter) VisitAliasNode(n *ast.AliasNode) {
 			w.appendError(err)
 		} else if ast.ValidNode(anchored) {
 			anchored.Accept(w)
+		} else {
+			ast.NewNullNode().Accept(w)
 		}
 		return
 	}
-- 
2.43.0


From 72a89f26fc5de29743ff82acbd51ef5f94c0a9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:36 +0000
Subject: [PATCH 26/39] fix: generator: code for interface fields compiles

---
 engines/goyaml/engine.go  |  5 +++--
 engines/yayamls/engine.go |  4 ++--
 generator/decoder.go      | 10 +++++++---
 generator/encoder.go      |  8 ++++++--
 4 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/engines/goyaml/engine.go b/engines/goyaml/engine.go
index f2fc3f7..ac728f9 100644
--- a/engines/goyaml/engine.go
+++ b/engines/goyaml/engine.go
@@ -87,11 +87,12 @@ func (engineGenerator) MarshalersImplementationCheck(
 
 func (engineGenerator) GenerateUnmarshalEmptyInterfaceAssertions(dst io.Writer, outArg string, indent int) error {
 	whitespace := strings.Repeat(" ", indent)
-	fmt.Fprintln(dst, whitespace+"if m, ok := "+outArg+".(yaml.Unmarshaler); ok {")
+	fmt.Fprintln(dst, whitespace+"if m, ok := ("+outArg+").(yaml.Unmarshaler); ok {")
 	fmt.Fprintln(dst, whitespace+"  if extIn, ok := in.(yamly.ExtendedDecoder[*yaml.Node]); ok {")
-	fmt.Fprintln(dst, whitespace+"    in.AddError(m.UnmarshalYAML(extIn.Node())")
+	fmt.Fprintln(dst, whitespace+"    in.AddError(m.UnmarshalYAML(extIn.Node()))")
 	fmt.Fprintln(dst, whitespace+"  } else {")
 	fmt.Fprintln(dst, whitespace+"    "+outArg+" = in.Any()")
+	fmt.Fprintln(dst, whitespace+"  }")
 	fmt.Fprintln(dst, whitespace+"} else {")
 	fmt.Fprintln(dst, whitespace+"  "+outArg+" = in.Any()")
 	fmt.Fprintln(dst, whitespace+"}")
diff --git a/engines/yayamls/engine.go b/engines/yayamls/engine.go
index 7c0a700..bf25238 100644
--- a/engines/yayamls/engine.go
+++ b/engines/yayamls/engine.go
@@ -87,7 +87,7 @@ func (engineGenerator) MarshalersImplementationCheck(
 
 func (engineGenerator) GenerateUnmarshalEmptyInterfaceAssertions(dst io.Writer, outArg string, indent int) error {
 	whitespace := strings.Repeat(" ", indent)
-	fmt.Fprintln(dst, whitespace+"if m, ok := "+outArg+".(yayamls.Unmarshaler); ok {")
+	fmt.Fprintln(dst, whitespace+"if m, ok := ("+outArg+").(yayamls.Unmarshaler); ok {")
 	fmt.Fprintln(dst, whitespace+"  in.AddError(m.UnmarshalYAML(in.Raw()))")
 	fmt.Fprintln(dst, whitespace+"} else {")
 	fmt.Fprintln(dst, whitespace+"  "+outArg+" = in.Any()")
@@ -97,7 +97,7 @@ func (engineGenerator) GenerateUnmarshalEmptyInterfaceAssertions(dst io.Writer,
 
 func (engineGenerator) GenerateMarshalEmptyInterfaceAssertions(dst io.Writer, inArg string, indent int) error {
 	whitespace := strings.Repeat(" ", indent)
-	fmt.Fprintln(dst, whitespace+"if m, ok := "+inArg+".(yayamls.Marshaler); ok {")
+	fmt.Fprintln(dst, whitespace+"if m, ok := ("+inArg+").(yayamls.Marshaler); ok {")
 	fmt.Fprintln(dst, whitespace+"  out.InsertRaw(m.MarshalYAML())")
 	fmt.Fprintln(dst, whitespace+"} else {")
 	// TODO: add reflect-based marshaler for yayamls
diff --git a/generator/decoder.go b/generator/decoder.go
index fefce15..c7e192e 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -307,7 +307,11 @@ func (g *Generator) generateDecoderBodyWithoutCheck(
 	case reflect.Interface:
 		if t.NumMethod() > 0 {
 			if implementsUnmarshalerYamly(t) {
-				fmt.Fprintln(g.out, whitespace+"_ = "+outArg+".UnmarshalYamly(in)")
+				fmt.Fprintln(g.out, whitespace+"if "+outArg+" == nil {")
+				fmt.Fprintln(g.out, whitespace+"  in.AddError(yamly.ErrUnmarshalerImplementation)")
+				fmt.Fprintln(g.out, whitespace+"} else {")
+				fmt.Fprintln(g.out, whitespace+"  ("+outArg+").UnmarshalYamly(in)")
+				fmt.Fprintln(g.out, whitespace+"}")
 			} else if implResult, err := g.engineGen.UnmarshalersImplementationCheck(g.out, t, outArg, indent); err != nil {
 				return err
 			} else {
@@ -321,8 +325,8 @@ func (g *Generator) generateDecoderBodyWithoutCheck(
 				}
 			}
 		} else {
-			fmt.Fprintln(g.out, whitespace+"if m, ok := "+outArg+".(yamly.UnmarshalerYamly); ok {")
-			fmt.Fprintln(g.out, whitespace+"  in.AddError(m.UnmarshalYamly(in))")
+			fmt.Fprintln(g.out, whitespace+"if m, ok := ("+outArg+").(yamly.UnmarshalerYamly); ok {")
+			fmt.Fprintln(g.out, whitespace+"  m.UnmarshalYamly(in)")
 			fmt.Fprintln(g.out, whitespace+"} else {")
 			if err := g.engineGen.GenerateUnmarshalEmptyInterfaceAssertions(g.out, outArg, indent+indentDelta); err != nil {
 				return err
diff --git a/generator/encoder.go b/generator/encoder.go
index 49a9bfa..734b447 100644
--- a/generator/encoder.go
+++ b/generator/encoder.go
@@ -315,7 +315,11 @@ func (g *Generator) generateEncoderBodyWithoutCheck(
 	case reflect.Interface:
 		if t.NumMethod() > 0 {
 			if implementMarshalerYamly(t) {
-				fmt.Fprintln(g.out, whitespace+"_ = "+inArg+".MarshalYamly(out)")
+				fmt.Fprintln(g.out, whitespace+"if "+inArg+" == nil {")
+				fmt.Fprintln(g.out, whitespace+"  out.InsertNull()")
+				fmt.Fprintln(g.out, whitespace+"} else {")
+				fmt.Fprintln(g.out, whitespace+"  ("+inArg+").MarshalYamly(out)")
+				fmt.Fprintln(g.out, whitespace+"}")
 			} else if implResult, err := g.engineGen.MarshalersImplementationCheck(g.out, t, inArg, indent); err != nil {
 				return err
 			} else {
@@ -329,7 +333,7 @@ func (g *Generator) generateEncoderBodyWithoutCheck(
 				}
 			}
 		} else {
-			fmt.Fprintln(g.out, whitespace+"if m, ok := "+inArg+".(yamly.MarshalerYamly) {")
+			fmt.Fprintln(g.out, whitespace+"if m, ok := ("+inArg+").(yamly.MarshalerYamly); ok {")
 			fmt.Fprintln(g.out, whitespace+"  m.MarshalYamly(out)")
 			fmt.Fprintln(g.out, whitespace+"} else {")
 			if err := g.engineGen.GenerateMarshalEmptyInterfaceAssertions(g.out, inArg, indent+2); err != nil {
-- 
2.43.0


From 157ecbe8767389ba66ded37661d28ba55391d12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:36 +0000
Subject: [PATCH 27/39] fix: goyaml engine: code for fields with
 yaml.Unmarshaler compiles

---
 engines/goyaml/engine.go | 2 +-
 generator/decoder.go     | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/engines/goyaml/engine.go b/engines/goyaml/engine.go
index ac728f9..2878177 100644
--- a/engines/goyaml/engine.go
+++ b/engines/goyaml/engine.go
@@ -64,7 +64,7 @@ func (engineGenerator) UnmarshalersImplementationCheck(
 	if reflect.PtrTo(t).Implements(unmarshalIface) {
 		whitespace := strings.Repeat(" ", indent)
 		fmt.Fprintln(dst, whitespace+"if extIn, ok := in.(yamly.ExtendedDecoder[*yaml.Node]); ok {")
-		fmt.Fprintln(dst, whitespace+"  in.AddError(("+outArg+").UnmarshalYAML(extIn.Node())")
+		fmt.Fprintln(dst, whitespace+"  in.AddError(("+outArg+").UnmarshalYAML(extIn.Node()))")
 		fmt.Fprintln(dst, whitespace, "} else {")
 		return generator.ImplementationResultConditional, nil
 	}
diff --git a/generator/decoder.go b/generator/decoder.go
index c7e192e..3218c47 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -164,6 +164,7 @@ func (g *Generator) generateDecoderBody(
 		unmarshalIface = reflect.TypeOf((*encoding.TextUnmarshaler)(nil)).Elem()
 		if reflect.PtrTo(t).Implements(unmarshalIface) {
 			fmt.Fprintln(g.out, whitespace+"in.AddError(("+outArg+").UnmarshalText([]byte(in.String())))")
+			fmt.Fprintln(g.out, finishingText)
 			return nil
 		}
 	}
-- 
2.43.0


From a7bbd765a2753f5bd74c6d0769d907061df4d739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:36 +0000
Subject: [PATCH 28/39] fix: generator: code for byte arrays compiles

---
 generator/decoder.go | 2 +-
 generator/encoder.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/decoder.go b/generator/decoder.go
index 3218c47..97522fe 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -226,7 +226,7 @@ func (g *Generator) generateDecoderBodyWithoutCheck(
 
 		if elem.Kind() == reflect.Uint8 && elem.Name() == "uint8" {
 			fmt.Fprintln(g.out, whitespace+"if !in.TryNull() {")
-			fmt.Fprintln(g.out, whitespace+"  copy("+outArg+", []byte(in.String()))")
+			fmt.Fprintln(g.out, whitespace+"  copy(("+outArg+")[:], []byte(in.String()))")
 			fmt.Fprintln(g.out, whitespace+"}")
 		} else {
 			arrayStateVar := g.generateVarName("SeqState")
diff --git a/generator/encoder.go b/generator/encoder.go
index 734b447..bcbb0bd 100644
--- a/generator/encoder.go
+++ b/generator/encoder.go
@@ -245,7 +245,7 @@ func (g *Generator) generateEncoderBodyWithoutCheck(
 		elem := t.Elem()
 
 		if elem.Kind() == reflect.Uint8 && elem.Name() == "uint8" {
-			fmt.Fprintln(g.out, whitespace+"out.InsertString(string("+inArg+"[:]))")
+			fmt.Fprintln(g.out, whitespace+"out.InsertString(string(("+inArg+")[:]))")
 		} else {
 			iVar := g.generateVarName()
 			fmt.Fprintln(g.out, whitespace+"out.StartSequence()")
-- 
2.43.0


From f177430d9d321409ad45828f55a2769de6624197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:36 +0000
Subject: [PATCH 29/39] fix: generator: encoders call marshalling methods
 through pointers

---
 engines/yayamls/engine.go | 2 +-
 generator/encoder.go      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/engines/yayamls/engine.go b/engines/yayamls/engine.go
index bf25238..0f15496 100644
--- a/engines/yayamls/engine.go
+++ b/engines/yayamls/engine.go
@@ -79,7 +79,7 @@ func (engineGenerator) MarshalersImplementationCheck(
 ) (generator.ImplementationResult, error) {
 	marshalIface := reflect.TypeOf((*Marshaler)(nil)).Elem()
 	if reflect.PtrTo(t).Implements(marshalIface) {
-		fmt.Fprintln(dst, strings.Repeat(" ", indent)+"out.InsertRaw("+inArg+".MarshalYAML())")
+		fmt.Fprintln(dst, strings.Repeat(" ", indent)+"out.InsertRaw(("+inArg+").MarshalYAML())")
 		return generator.ImplementationResultTrue, nil
 	}
 	return generator.ImplementationResultFalse, nil
diff --git a/generator/encoder.go b/generator/encoder.go
index bcbb0bd..5d6e15f 100644
--- a/generator/encoder.go
+++ b/generator/encoder.go
@@ -164,7 +164,7 @@ func (g *Generator) generateEncoderBody(
 
 		marshalIface := reflect.TypeOf((*yamly.MarshalerYamly)(nil)).Elem()
 		if reflect.PtrTo(t).Implements(marshalIface) {
-			fmt.Fprintln(g.out, whitespace+inArg+".MarshalYamly(out)")
+			fmt.Fprintln(g.out, whitespace+"("+inArg+").MarshalYamly(out)")
 			return nil
 		}
 
@@ -183,7 +183,7 @@ func (g *Generator) generateEncoderBody(
 
 		marshalIface = reflect.TypeOf((*encoding.TextMarshaler)(nil)).Elem()
 		if reflect.PtrTo(t).Implements(marshalIface) {
-			fmt.Fprintln(g.out, whitespace+"out.InsertRawText("+inArg+".MarshalText())")
+			fmt.Fprintln(g.out, whitespace+"out.InsertRawText(("+inArg+").MarshalText())")
 			return nil
 		}
 	}
-- 
2.43.0


From 5619b17428be4cc8fa465bed9835fe267d11b934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:18 +0000
Subject: [PATCH 30/39] fix: generator: field names are quoted in generated
 code

---
 generator/decoder.go | 2 +-
 generator/encoder.go | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/generator/decoder.go b/generator/decoder.go
index 97522fe..2d81660 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -127,7 +127,7 @@ func (g *Generator) generateStructFieldDecoder(f reflect.StructField) error {
 		name = tags.name
 	}
 
-	fmt.Fprintln(g.out, "    case \""+name+"\":")
+	fmt.Fprintln(g.out, "    case "+strconv.Quote(name)+":")
 	return g.generateDecoderBody(f.Type, "out."+f.Name, tags, 6, true)
 }
 
diff --git a/generator/encoder.go b/generator/encoder.go
index 5d6e15f..bfd0e2f 100644
--- a/generator/encoder.go
+++ b/generator/encoder.go
@@ -4,6 +4,7 @@ import (
 	"encoding"
 	"fmt"
 	"reflect"
+	"strconv"
 	"strings"
 
 	"github.com/KSpaceer/yamly"
@@ -122,7 +123,7 @@ func (g *Generator) generateStructFieldEncoder(f reflect.StructField) error {
 		fmt.Fprintln(g.out, "  {")
 	}
 
-	fmt.Fprintln(g.out, "    out.InsertString(\""+name+"\")")
+	fmt.Fprintln(g.out, "    out.InsertString("+strconv.Quote(name)+")")
 	if err := g.generateEncoderBody(f.Type, "in."+f.Name, tags, 6, canBeNull); err != nil {
 		return err
 	}
-- 
2.43.0


From cca7727467652bcd000ca776bbc75d2db8ca1bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:19 +0000
Subject: [PATCH 31/39] fix: generator: function names for types named outside
 ASCII

---
 generator/generator.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index 70e8497..bcf39f0 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -373,12 +373,10 @@ func joinFunctionNameParts(keepFirst bool, parts ...string) string {
 		if i == 0 && keepFirst {
 			buf.WriteString(parts[i])
 		} else {
-			n := len(parts[i])
-			if n > 0 {
-				buf.WriteString(strings.ToUpper(string(parts[i][0])))
-			}
-			if n > 1 {
-				buf.WriteString(parts[i][1:])
+			part := []rune(parts[i])
+			if len(part) > 0 {
+				buf.WriteString(strings.ToUpper(string(part[0])))
+				buf.WriteString(string(part[1:]))
 			}
 		}
 	}
-- 
2.43.0


From 5a5bcbad2667cd9a0e1d610e7e41e92cdbbbb3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:00 +0000
Subject: [PATCH 32/39] fix: generator: inlined fields are reached through the
 fields that hold them

---
 generator/decoder.go   | 24 +++++++----------
 generator/encoder.go   | 21 +++++++++------
 generator/generator.go | 59 +++++++++++++++++++++++++++++++++++-------
 3 files changed, 71 insertions(+), 33 deletions(-)

diff --git a/generator/decoder.go b/generator/decoder.go
index 2d81660..5944aed 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -79,14 +79,6 @@ func (g *Generator) generateStructDecoder(t reflect.Type) error {
 	fmt.Fprintln(g.out, "  }")
 	fmt.Fprintln(g.out)
 
-	for i := 0; i < t.NumField(); i++ {
-		f := t.Field(i)
-		if !f.Anonymous || f.Type.Kind() != reflect.Pointer {
-			continue
-		}
-		fmt.Fprintln(g.out, "  out."+f.Name+" = new("+g.extractTypeName(f.Type.Elem())+")")
-	}
-
 	fields, err := g.getStructFields(t)
 	if err != nil {
 		return fmt.Errorf("cannot generate decoder for %s: %w", t, err)
@@ -116,19 +108,21 @@ func (g *Generator) generateStructDecoder(t reflect.Type) error {
 	return nil
 }
 
-func (g *Generator) generateStructFieldDecoder(f reflect.StructField) error {
+func (g *Generator) generateStructFieldDecoder(f structField) error {
 	tags := parseTags(f.Tag)
 
 	if tags.omitField {
 		return nil
 	}
-	name := f.Name
-	if tags.name != "" {
-		name = tags.name
-	}
 
-	fmt.Fprintln(g.out, "    case "+strconv.Quote(name)+":")
-	return g.generateDecoderBody(f.Type, "out."+f.Name, tags, 6, true)
+	fmt.Fprintln(g.out, "    case "+strconv.Quote(f.key())+":")
+	selectors, types := f.pointerHolders("out")
+	for i, selector := range selectors {
+		fmt.Fprintln(g.out, "      if "+selector+" == nil {")
+		fmt.Fprintln(g.out, "        "+selector+" = new("+g.extractTypeName(types[i].Elem())+")")
+		fmt.Fprintln(g.out, "      }")
+	}
+	return g.generateDecoderBody(f.Type, f.selector("out"), tags, 6, true)
 }
 
 func (g *Generator) generateDecoderBody(
diff --git a/generator/encoder.go b/generator/encoder.go
index bfd0e2f..b9626b7 100644
--- a/generator/encoder.go
+++ b/generator/encoder.go
@@ -105,26 +105,31 @@ func (g *Generator) generateStructEncoder(t reflect.Type) error {
 	return nil
 }
 
-func (g *Generator) generateStructFieldEncoder(f reflect.StructField) error {
+func (g *Generator) generateStructFieldEncoder(f structField) error {
 	tags := parseTags(f.Tag)
 
 	if tags.omitField {
 		return nil
 	}
-	name := f.Name
-	if tags.name != "" {
-		name = tags.name
-	}
 	canBeNull := !(g.omitempty || tags.omitempty)
 
+	selector := f.selector("in")
+	conditions, _ := f.pointerHolders("in")
+	for i := range conditions {
+		conditions[i] += " != nil"
+	}
 	if !canBeNull {
-		fmt.Fprintln(g.out, "  if "+g.generateNotEmptyCheck(f.Type, "in."+f.Name)+" {")
+		conditions = append(conditions, g.generateNotEmptyCheck(f.Type, selector))
+	}
+
+	if len(conditions) > 0 {
+		fmt.Fprintln(g.out, "  if "+strings.Join(conditions, " && ")+" {")
 	} else {
 		fmt.Fprintln(g.out, "  {")
 	}
 
-	fmt.Fprintln(g.out, "    out.InsertString("+strconv.Quote(name)+")")
-	if err := g.generateEncoderBody(f.Type, "in."+f.Name, tags, 6, canBeNull); err != nil {
+	fmt.Fprintln(g.out, "    out.InsertString("+strconv.Quote(f.key())+")")
+	if err := g.generateEncoderBody(f.Type, selector, tags, 6, canBeNull); err != nil {
 		return err
 	}
 	fmt.Fprintln(g.out, "  }")
diff --git a/generator/generator.go b/generator/generator.go
index bcf39f0..7c72f8c 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -383,14 +383,50 @@ func joinFunctionNameParts(keepFirst bool, parts ...string) string {
 	return buf.String()
 }
 
-func (g *Generator) getStructFields(t reflect.Type) ([]reflect.StructField, error) {
+// structField is a field which is a part of struct's mapping.
+type structField struct {
+	reflect.StructField
+
+	// holders are inlined fields the field is reached through, starting from the outermost one.
+	holders []reflect.StructField
+}
+
+// key returns the name of mapping entry for the field.
+func (f structField) key() string {
+	if name := parseTags(f.Tag).name; name != "" {
+		return name
+	}
+	return f.Name
+}
+
+// selector returns an expression selecting the field from arg.
+func (f structField) selector(arg string) string {
+	for _, holder := range f.holders {
+		arg += "." + holder.Name
+	}
+	return arg + "." + f.Name
+}
+
+// pointerHolders returns inlined fields of pointer kind with expressions selecting them from arg.
+func (f structField) pointerHolders(arg string) (selectors []string, types []reflect.Type) {
+	for _, holder := range f.holders {
+		arg += "." + holder.Name
+		if holder.Type.Kind() == reflect.Pointer {
+			selectors = append(selectors, arg)
+			types = append(types, holder.Type)
+		}
+	}
+	return selectors, types
+}
+
+func (g *Generator) getStructFields(t reflect.Type) ([]structField, error) {
 	if t.Kind() != reflect.Struct {
 		return nil, fmt.Errorf("expected struct, but got %s", t)
 	}
 
 	var (
-		embeddedFields []reflect.StructField
-		fields         []reflect.StructField
+		embeddedFields []structField
+		fields         []structField
 	)
 
 	for i := 0; i < t.NumField(); i++ {
@@ -410,11 +446,14 @@ func (g *Generator) getStructFields(t reflect.Type) ([]reflect.StructField, erro
 			if err != nil {
 				return nil, fmt.Errorf("error processing embedded field: %w", err)
 			}
+			for i := range fs {
+				fs[i].holders = append([]reflect.StructField{f}, fs[i].holders...)
+			}
 			embeddedFields = mergeStructFields(embeddedFields, fs)
 		} else if (t.Kind() >= reflect.Bool && t.Kind() <= reflect.Complex128) || t.Kind() == reflect.String {
 			// kind is basic
-			if strings.Contains(f.Name, ".") || unicode.IsUpper([]rune(f.Name)[0]) {
-				fields = append(fields, f)
+			if unicode.IsUpper([]rune(f.Name)[0]) {
+				fields = append(fields, structField{StructField: f})
 			}
 		}
 	}
@@ -428,23 +467,23 @@ func (g *Generator) getStructFields(t reflect.Type) ([]reflect.StructField, erro
 
 		c := []rune(f.Name)[0]
 		if unicode.IsUpper(c) {
-			fields = append(fields, f)
+			fields = append(fields, structField{StructField: f})
 		}
 	}
 
 	return mergeStructFields(embeddedFields, fields), nil
 }
 
-func mergeStructFields(firstFields, secondFields []reflect.StructField) []reflect.StructField {
-	fields := make([]reflect.StructField, 0, len(firstFields))
+func mergeStructFields(firstFields, secondFields []structField) []structField {
+	fields := make([]structField, 0, len(firstFields))
 	used := make(map[string]bool)
 	for _, f := range secondFields {
-		used[f.Name] = true
+		used[f.key()] = true
 		fields = append(fields, f)
 	}
 
 	for _, f := range firstFields {
-		if !used[f.Name] {
+		if !used[f.key()] {
 			fields = append(fields, f)
 		}
 	}
-- 
2.43.0


From 406e937944b22bcb9ef1942f604c55fd45720e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:01 +0000
Subject: [PATCH 33/39] fix: generator: struct decoder stops after null

---
 generator/decoder.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/generator/decoder.go b/generator/decoder.go
index 5944aed..180d6f9 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -76,6 +76,7 @@ func (g *Generator) generateStructDecoder(t reflect.Type) error {
 	fmt.Fprintln(g.out, "  if in.TryNull() {")
 	fmt.Fprintln(g.out, "    var zeroValue "+tname)
 	fmt.Fprintln(g.out, "    *out = zeroValue")
+	fmt.Fprintln(g.out, "    return")
 	fmt.Fprintln(g.out, "  }")
 	fmt.Fprintln(g.out)
 
-- 
2.43.0


From 4f7d1e63cccc29b338e3b074d1b0791aeef40ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:01 +0000
Subject: [PATCH 34/39] fix: generator: array decoder skips elements the array
 has no place for

---
 generator/decoder.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/generator/decoder.go b/generator/decoder.go
index 180d6f9..1bedb18 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -229,8 +229,11 @@ func (g *Generator) generateDecoderBodyWithoutCheck(
 			fmt.Fprintln(g.out, whitespace+"if !in.TryNull() {")
 			fmt.Fprintln(g.out, whitespace+"  "+iterVar+" := 0")
 			fmt.Fprintln(g.out, whitespace+"  "+arrayStateVar+" := in.Sequence()")
-			fmt.Fprintln(g.out, whitespace+"  for "+arrayStateVar+".HasUnprocessedItems() && "+iterVar+
-				" < "+strconv.Itoa(t.Len())+"{")
+			fmt.Fprintln(g.out, whitespace+"  for "+arrayStateVar+".HasUnprocessedItems() {")
+			fmt.Fprintln(g.out, whitespace+"    if "+iterVar+" >= "+strconv.Itoa(t.Len())+" {")
+			fmt.Fprintln(g.out, whitespace+"      in.Skip()")
+			fmt.Fprintln(g.out, whitespace+"      continue")
+			fmt.Fprintln(g.out, whitespace+"    }")
 
 			if err := g.generateDecoderBody(elem, "("+outArg+")["+iterVar+"]", tags, indent+4, true); err != nil {
 				return err
-- 
2.43.0


From 841e7c2a5aca964815db11fbf367109a791bf7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:02 +0000
Subject: [PATCH 35/39] fix: generator: unknown field with null value is
 reported when unknown fields are disallowed

---
 generator/decoder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/generator/decoder.go b/generator/decoder.go
index 1bedb18..a090ecb 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -88,9 +88,6 @@ func (g *Generator) generateStructDecoder(t reflect.Type) error {
 	fmt.Fprintln(g.out, "  structMappingState := in.Mapping()")
 	fmt.Fprintln(g.out, "  for structMappingState.HasUnprocessedItems() {")
 	fmt.Fprintln(g.out, "    key := in.String()")
-	fmt.Fprintln(g.out, "    if in.TryNull() {")
-	fmt.Fprintln(g.out, "      continue")
-	fmt.Fprintln(g.out, "    }")
 	fmt.Fprintln(g.out, "    switch key {")
 	for _, f := range fields {
 		if err = g.generateStructFieldDecoder(f); err != nil {
@@ -117,6 +114,9 @@ func (g *Generator) generateStructFieldDecoder(f structField) error {
 	}
 
 	fmt.Fprintln(g.out, "    case "+strconv.Quote(f.key())+":")
+	fmt.Fprintln(g.out, "      if in.TryNull() {")
+	fmt.Fprintln(g.out, "        continue")
+	fmt.Fprintln(g.out, "      }")
 	selectors, types := f.pointerHolders("out")
 	for i, selector := range selectors {
 		fmt.Fprintln(g.out, "      if "+selector+" == nil {")
-- 
2.43.0


From dd60254d574c2d911b5e2beb0136d1043515a76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:01 +0000
Subject: [PATCH 36/39] fix: generator: inline option on a field that can't be
 inlined is an error, embedded non-structs are not lost

---
 generator/generator.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index 7c72f8c..c0ab6b4 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -450,8 +450,10 @@ func (g *Generator) getStructFields(t reflect.Type) ([]structField, error) {
 				fs[i].holders = append([]reflect.StructField{f}, fs[i].holders...)
 			}
 			embeddedFields = mergeStructFields(embeddedFields, fs)
-		} else if (t.Kind() >= reflect.Bool && t.Kind() <= reflect.Complex128) || t.Kind() == reflect.String {
-			// kind is basic
+		} else if tags.inline && t.Kind() != reflect.String && (t.Kind() < reflect.Bool || t.Kind() > reflect.Complex128) {
+			return nil, fmt.Errorf("can't inline field %s of type %s: expected struct", f.Name, f.Type)
+		} else {
+			// there is nothing to inline
 			if unicode.IsUpper([]rune(f.Name)[0]) {
 				fields = append(fields, structField{StructField: f})
 			}
-- 
2.43.0


From 3595f482edc74e93005c65e9c4820648e349d301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:32 +0000
Subject: [PATCH 37/39] fix: generator/parser: package path in GOPATH mode
 keeps the last element of directory

---
 generator/parser/pkgpath.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/parser/pkgpath.go b/generator/parser/pkgpath.go
index 65e730c..62dd0e0 100644
--- a/generator/parser/pkgpath.go
+++ b/generator/parser/pkgpath.go
@@ -39,7 +39,7 @@ func pkgPathFromGOPATH(dirPath string) (string, error) {
 		prefix := filepath.Join(p, "src") + string(filepath.Separator)
 		rel, err := filepath.Rel(prefix, dirPath)
 		if err == nil && !strings.HasPrefix(rel, ".."+string(filepath.Separator)) {
-			return path.Dir(filePathToPackagePath(rel)), nil
+			return filePathToPackagePath(rel), nil
 		}
 	}
 	return "", fmt.Errorf("directory '%v' is not in GOPATH '%v'", dirPath, gopath)
-- 
2.43.0


From d36849862c634376748a1afe280b96c9485ba041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:04 +0000
Subject: [PATCH 38/39] fix: compare the places of children when comparing
 trees

Only the sequence of visited nodes was compared, so trees that nest the
same nodes differently ([[a], b] and [[a, b]]) were equal.
---
 engines/yayamls/ast/astcmp/comparator.go | 26 +++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/engines/yayamls/ast/astcmp/comparator.go b/engines/yayamls/ast/astcmp/comparator.go
index 7496c50..2b5cdec 100644
--- a/engines/yayamls/ast/astcmp/comparator.go
+++ b/engines/yayamls/ast/astcmp/comparator.go
@@ -52,7 +52,7 @@ func (c *Comparator) compareNodes(first, second ast.Node) bool {
 	if first == nil || second == nil {
 		return false
 	}
-	if first.Type() != second.Type() {
+	if first.Type() != second.Type() || !sameChildren(first, second) {
 		return false
 	}
 
@@ -67,6 +67,30 @@ func (c *Comparator) compareNodes(first, second ast.Node) bool {
 	}
 }
 
+// sameChildren shows if nodes have children at the same places, so that
+// only equal trees give equal sequences of visited nodes.
+func sameChildren(first, second ast.Node) bool {
+	switch f := first.(type) {
+	case *ast.StreamNode:
+		s, ok := second.(*ast.StreamNode)
+		return ok && len(f.Documents()) == len(s.Documents())
+	case *ast.SequenceNode:
+		s, ok := second.(*ast.SequenceNode)
+		return ok && len(f.Entries()) == len(s.Entries())
+	case *ast.MappingNode:
+		s, ok := second.(*ast.MappingNode)
+		return ok && len(f.Entries()) == len(s.Entries())
+	case *ast.MappingEntryNode:
+		s, ok := second.(*ast.MappingEntryNode)
+		return ok && (f.Key() == nil) == (s.Key() == nil) && (f.Value() == nil) == (s.Value() == nil)
+	case *ast.ContentNode:
+		s, ok := second.(*ast.ContentNode)
+		return ok && (f.Properties() == nil) == (s.Properties() == nil) && (f.Content() == nil) == (s.Content() == nil)
+	default:
+		return true
+	}
+}
+
 type comparingVisitor struct {
 	cmpChan chan<- ast.Node
 }
-- 
2.43.0


From 811db9dcbf372c526873e6198557b48e6d1a800a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:57 +0000
Subject: [PATCH 39/39] fix: write nodes anchored outside of the raw part
 instead of aliases to them

---
 engines/yayamls/decode/reader.go |  2 +-
 engines/yayamls/encode/writer.go | 10 ++++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/engines/yayamls/decode/reader.go b/engines/yayamls/decode/reader.go
index bd98eb8..81869db 100644
--- a/engines/yayamls/decode/reader.go
+++ b/engines/yayamls/decode/reader.go
@@ -329,7 +329,7 @@ func (r *ASTReader) Raw() []byte {
 		r.latestDenyError = nil
 		return nil
 	}
-	w := encode.NewASTWriter()
+	w := encode.NewASTWriter(encode.WithAnchorsKeeper(&r.anchors))
 	v, err := w.WriteBytes(r.currentNode())
 	if err != nil {
 		r.appendError(err)
diff --git a/engines/yayamls/encode/writer.go b/engines/yayamls/encode/writer.go
index 2554738..634b58f 100644
--- a/engines/yayamls/encode/writer.go
+++ b/engines/yayamls/encode/writer.go
@@ -3,6 +3,7 @@ package encode
 import (
 	"bytes"
 	"errors"
+	"fmt"
 	"io"
 	"strings"
 
@@ -31,6 +32,8 @@ type ASTWriter struct {
 	beforeSimple  string
 
 	metAnchors map[string]struct{}
+	// dereferenced contains aliases which are being replaced with anchored nodes
+	dereferenced map[string]struct{}
 
 	opts writeOptions
 }
@@ -42,6 +45,7 @@ func NewASTWriter(opts ...WriteOption) *ASTWriter {
 		indentation:      defaultBasicIndentation,
 		indentationDelta: defaultIndendationDelta,
 		metAnchors:       map[string]struct{}{},
+		dereferenced:     map[string]struct{}{},
 	}
 
 	for _, opt := range opts {
@@ -159,6 +163,12 @@ func (w *ASTWriter) VisitAliasNode(n *ast.AliasNode) {
 	alias := n.Text()
 	_, hasWroteAnchor := w.metAnchors[alias]
 	if w.opts.anchorsKeeper != nil && !hasWroteAnchor {
+		if _, ok := w.dereferenced[alias]; ok {
+			w.appendError(fmt.Errorf("alias %q refers to the node containing it", alias))
+			return
+		}
+		w.dereferenced[alias] = struct{}{}
+		defer delete(w.dereferenced, alias)
 		anchored, err := w.opts.anchorsKeeper.DereferenceAlias(alias)
 		if err != nil {
 			w.appendError(err)
-- 
2.43.0

