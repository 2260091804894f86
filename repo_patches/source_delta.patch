From 1a3b00a1b2c633511e32289dfdae152a0b008bae Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:50:02 +0000
Subject: [PATCH 01/99] fix: read every spelling of a YAML boolean

True and TRUE (and booleans that are already native values) evaluated to
false because only the text "true" was recognised.
---
 engine/eval.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/engine/eval.go b/engine/eval.go
index 78be504..f5fa6f7 100644
--- a/engine/eval.go
+++ b/engine/eval.go
@@ -6,8 +6,15 @@ import (
 	"strings"
 
 	"github.com/totegamma/yisp/core"
+	"github.com/totegamma/yisp/internal/yaml"
 )
 
+// decodeScalar decodes the text of a YAML scalar with the given tag
+func decodeScalar(tag, value string, out any) error {
+	node := yaml.Node{Kind: yaml.ScalarNode, Tag: tag, Value: value}
+	return node.Decode(out)
+}
+
 // Eval evaluates a core.YispNode in the given environment
 func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*core.YispNode, error) {
 
@@ -57,9 +64,16 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 		}
 
 	case core.KindBool:
-		val := false
-		if node.Value == "true" {
-			val = true
+		val, ok := node.Value.(bool)
+		if !ok {
+			bStr, ok := node.Value.(string)
+			if !ok {
+				return nil, core.NewEvaluationError(node, fmt.Sprintf("invalid bool type: %T", node.Value))
+			}
+
+			if err := decodeScalar("!!bool", bStr, &val); err != nil {
+				return nil, core.NewEvaluationError(node, fmt.Sprintf("invalid bool value: %s", bStr))
+			}
 		}
 		result = &core.YispNode{
 			Kind:  core.KindBool,
-- 
2.43.0


From 2b6b7239b3de4a1f375a25c728d44d2f4974ccd5 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:50:06 +0000
Subject: [PATCH 02/99] fix: read every YAML integer notation

Hexadecimal, octal, binary and underscored integers failed to evaluate and
0644 lost its octal meaning (it was written back as the decimal 644).
---
 engine/eval.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/engine/eval.go b/engine/eval.go
index f5fa6f7..294be28 100644
--- a/engine/eval.go
+++ b/engine/eval.go
@@ -116,9 +116,7 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 				return nil, core.NewEvaluationError(node, fmt.Sprintf("invalid int type: %T", node.Value))
 			}
 
-			var err error
-			i, err = strconv.Atoi(iStr)
-			if err != nil {
+			if err := decodeScalar("!!int", iStr, &i); err != nil {
 				return nil, core.NewEvaluationError(node, fmt.Sprintf("invalid int value: %s", iStr))
 			}
 		}
-- 
2.43.0


From efaee2209687b655dfa3f12883122780ad98953f Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:50:26 +0000
Subject: [PATCH 03/99] fix: keep the exact value of floats

Floats were written with six decimals, so small values became 0.000000 and
others lost digits; .inf, .nan and underscored floats failed to evaluate.
---
 core/util.go     | 26 ++++++++++++++++++++++++++
 engine/eval.go   |  5 +----
 engine/render.go |  2 +-
 lib/strings.go   |  2 +-
 4 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/core/util.go b/core/util.go
index 5ab2c5e..84a2ff5 100644
--- a/core/util.go
+++ b/core/util.go
@@ -5,11 +5,14 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"math"
 	"net/http"
 	"net/url"
 	"os"
 	"path/filepath"
 	"slices"
+	"strconv"
+	"strings"
 )
 
 // JsonPrint prints an object as formatted JSON with a tag
@@ -18,6 +21,29 @@ func JsonPrint(tag string, obj any) {
 	fmt.Println(tag, string(b))
 }
 
+// FormatFloat formats a float value as a YAML float that reads back as the same value
+func FormatFloat(v any) string {
+	f, ok := v.(float64)
+	if !ok {
+		return fmt.Sprintf("%v", v)
+	}
+
+	switch {
+	case math.IsInf(f, 1):
+		return ".inf"
+	case math.IsInf(f, -1):
+		return "-.inf"
+	case math.IsNaN(f):
+		return ".nan"
+	}
+
+	text := strconv.FormatFloat(f, 'g', -1, 64)
+	if !strings.ContainsAny(text, ".e") {
+		text += ".0"
+	}
+	return text
+}
+
 func VerifyTypes(node *YispNode, allowUntypedManifest bool) error {
 	// If this node has a schema attached, validate it
 	if node.Type != nil && !allowUntypedManifest {
diff --git a/engine/eval.go b/engine/eval.go
index 294be28..bb1585d 100644
--- a/engine/eval.go
+++ b/engine/eval.go
@@ -2,7 +2,6 @@ package engine
 
 import (
 	"fmt"
-	"strconv"
 	"strings"
 
 	"github.com/totegamma/yisp/core"
@@ -92,9 +91,7 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 				return nil, core.NewEvaluationError(node, fmt.Sprintf("invalid float type: %T", node.Value))
 			}
 
-			var err error
-			f, err = strconv.ParseFloat(fStr, 64)
-			if err != nil {
+			if err := decodeScalar("!!float", fStr, &f); err != nil {
 				return nil, core.NewEvaluationError(node, fmt.Sprintf("invalid float value: %s", fStr))
 			}
 		}
diff --git a/engine/render.go b/engine/render.go
index 91a17fc..bf93e18 100644
--- a/engine/render.go
+++ b/engine/render.go
@@ -55,7 +55,7 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 	case core.KindFloat:
 		return &yaml.Node{
 			Kind:        yaml.ScalarNode,
-			Value:       fmt.Sprintf("%f", node.Value),
+			Value:       core.FormatFloat(node.Value),
 			Tag:         "!!float",
 			HeadComment: node.Attr.HeadComment,
 			LineComment: e.getLineComment(node),
diff --git a/lib/strings.go b/lib/strings.go
index 2042682..71c53b5 100644
--- a/lib/strings.go
+++ b/lib/strings.go
@@ -76,7 +76,7 @@ func opQuote(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Eng
 	case core.KindInt:
 		value = fmt.Sprintf("%d", cdr[0].Value)
 	case core.KindFloat:
-		value = fmt.Sprintf("%f", cdr[0].Value)
+		value = core.FormatFloat(cdr[0].Value)
 	case core.KindBool:
 		if cdr[0].Value.(bool) {
 			value = "true"
-- 
2.43.0


From f0a8d3267e4df642366361bc134518ed51fe5346 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:50:28 +0000
Subject: [PATCH 04/99] fix: report missing operator arguments instead of
 crashing

progn, pipeline, the comparison operators, strings.format,
maps.from-entries, files.glob and files.read indexed an empty argument
list.
---
 engine/apply.go | 8 ++++++++
 engine/util.go  | 4 ++--
 lib/files.go    | 5 ++++-
 lib/maps.go     | 3 +++
 lib/strings.go  | 3 +++
 5 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/engine/apply.go b/engine/apply.go
index 9d76a39..ec525f1 100644
--- a/engine/apply.go
+++ b/engine/apply.go
@@ -396,11 +396,19 @@ func opInclude(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.E
 }
 
 func opProgn(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (*core.YispNode, error) {
+	if len(cdr) == 0 {
+		return nil, core.NewEvaluationError(nil, "progn requires at least 1 argument, got 0")
+	}
+
 	return cdr[len(cdr)-1], nil
 }
 
 func opPipeline(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (*core.YispNode, error) {
 
+	if len(cdr) == 0 {
+		return nil, core.NewEvaluationError(nil, "pipeline requires at least 1 argument, got 0")
+	}
+
 	value := cdr[0]
 
 	for _, fn := range cdr[1:] {
diff --git a/engine/util.go b/engine/util.go
index d9279a8..02b4a42 100644
--- a/engine/util.go
+++ b/engine/util.go
@@ -52,7 +52,7 @@ func EvalAndCastAny[T any](value any, env *core.Env, mode core.EvalMode, e core.
 // It only compares values of the same type
 func compareValues(cdr []*core.YispNode, opName string, expectEqual bool) (*core.YispNode, error) {
 	if len(cdr) != 2 {
-		return nil, core.NewEvaluationError(cdr[0], fmt.Sprintf("%s requires 2 arguments, got %d", opName, len(cdr)))
+		return nil, core.NewEvaluationError(nil, fmt.Sprintf("%s requires 2 arguments, got %d", opName, len(cdr)))
 	}
 
 	firstNode := cdr[0]
@@ -115,7 +115,7 @@ func compareValues(cdr []*core.YispNode, opName string, expectEqual bool) (*core
 // It handles both integers and floating point numbers
 func compareNumbers(cdr []*core.YispNode, opName string, cmp func(float64, float64) bool) (*core.YispNode, error) {
 	if len(cdr) != 2 {
-		return nil, core.NewEvaluationError(cdr[0], fmt.Sprintf("%s requires 2 arguments, got %d", opName, len(cdr)))
+		return nil, core.NewEvaluationError(nil, fmt.Sprintf("%s requires 2 arguments, got %d", opName, len(cdr)))
 	}
 
 	firstNode := cdr[0]
diff --git a/lib/files.go b/lib/files.go
index 00fa479..affeb18 100644
--- a/lib/files.go
+++ b/lib/files.go
@@ -17,6 +17,9 @@ func init() {
 }
 
 func opGlob(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (*core.YispNode, error) {
+	if len(cdr) == 0 {
+		return nil, core.NewEvaluationError(nil, "glob requires at least 1 argument, got 0")
+	}
 
 	result := make([]any, 0)
 
@@ -91,7 +94,7 @@ func opGlob(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engi
 func opReadAll(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (*core.YispNode, error) {
 
 	if len(cdr) != 1 {
-		return nil, core.NewEvaluationError(cdr[0], "read-file expects exactly one argument")
+		return nil, core.NewEvaluationError(nil, "read-file expects exactly one argument")
 	}
 
 	str, ok := cdr[0].Value.(string)
diff --git a/lib/maps.go b/lib/maps.go
index 32ad9e5..8646257 100644
--- a/lib/maps.go
+++ b/lib/maps.go
@@ -17,6 +17,9 @@ func init() {
 }
 
 func opFromEntries(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (*core.YispNode, error) {
+	if len(cdr) != 1 {
+		return nil, core.NewEvaluationError(nil, fmt.Sprintf("fromEntries requires 1 argument, got %d", len(cdr)))
+	}
 
 	node := cdr[0]
 	arr, ok := node.Value.([]any)
diff --git a/lib/strings.go b/lib/strings.go
index 71c53b5..bee537e 100644
--- a/lib/strings.go
+++ b/lib/strings.go
@@ -100,6 +100,9 @@ func opQuote(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Eng
 }
 
 func opFormat(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (*core.YispNode, error) {
+	if len(cdr) == 0 {
+		return nil, core.NewEvaluationError(nil, "format requires at least 1 argument, got 0")
+	}
 
 	formatNode := cdr[0]
 	argsNode := cdr[1:]
-- 
2.43.0


From 6a8bf419cfae38bb60bede8faca0f4aca25c9a9b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:51:12 +0000
Subject: [PATCH 05/99] fix: compare collections by value

== and lists.contains crashed on two arrays (comparing uncomparable values)
and compared maps by identity.
---
 core/util.go   | 56 ++++++++++++++++++++++++++++++++++++++++++++++++++
 engine/util.go | 46 +----------------------------------------
 lib/lists.go   |  2 +-
 3 files changed, 58 insertions(+), 46 deletions(-)

diff --git a/core/util.go b/core/util.go
index 84a2ff5..47649f8 100644
--- a/core/util.go
+++ b/core/util.go
@@ -44,6 +44,62 @@ func FormatFloat(v any) string {
 	return text
 }
 
+// Equal reports whether two nodes hold the same value.
+// Numbers compare by value, arrays element by element and maps key by key in any order.
+func Equal(a, b *YispNode) bool {
+	switch v1 := a.Value.(type) {
+	case int:
+		switch v2 := b.Value.(type) {
+		case int:
+			return v1 == v2
+		case float64:
+			return float64(v1) == v2
+		}
+		return false
+	case float64:
+		switch v2 := b.Value.(type) {
+		case int:
+			return v1 == float64(v2)
+		case float64:
+			return v1 == v2
+		}
+		return false
+	case []any:
+		v2, ok := b.Value.([]any)
+		if !ok || len(v1) != len(v2) {
+			return false
+		}
+		for i := range v1 {
+			if !equalItems(v1[i], v2[i]) {
+				return false
+			}
+		}
+		return true
+	case *YispMap:
+		v2, ok := b.Value.(*YispMap)
+		if !ok || v1.Len() != v2.Len() {
+			return false
+		}
+		for key, item1 := range v1.AllFromFront() {
+			item2, ok := v2.Get(key)
+			if !ok || !equalItems(item1, item2) {
+				return false
+			}
+		}
+		return true
+	case map[string]*YispNode:
+		return a == b
+	default:
+		return a.Value == b.Value
+	}
+}
+
+func equalItems(a, b any) bool {
+	nodeA, okA := a.(*YispNode)
+	nodeB, okB := b.(*YispNode)
+	return okA && okB && Equal(nodeA, nodeB)
+}
+
 func VerifyTypes(node *YispNode, allowUntypedManifest bool) error {
 	// If this node has a schema attached, validate it
 	if node.Type != nil && !allowUntypedManifest {
diff --git a/engine/util.go b/engine/util.go
index 02b4a42..7ff1358 100644
--- a/engine/util.go
+++ b/engine/util.go
@@ -49,56 +49,12 @@ func EvalAndCastAny[T any](value any, env *core.Env, mode core.EvalMode, e core.
 }
 
 // compareValues compares two values of any type for equality
-// It only compares values of the same type
 func compareValues(cdr []*core.YispNode, opName string, expectEqual bool) (*core.YispNode, error) {
 	if len(cdr) != 2 {
 		return nil, core.NewEvaluationError(nil, fmt.Sprintf("%s requires 2 arguments, got %d", opName, len(cdr)))
 	}
 
-	firstNode := cdr[0]
-	secondNode := cdr[1]
-
-	// Only compare values of the same type
-	equal := false
-
-	// Handle different type combinations
-	switch v1 := firstNode.Value.(type) {
-	case int:
-		switch v2 := secondNode.Value.(type) {
-		case int:
-			equal = v1 == v2
-		case float64:
-			equal = float64(v1) == v2
-		default:
-			equal = false // Different types
-		}
-	case float64:
-		switch v2 := secondNode.Value.(type) {
-		case int:
-			equal = v1 == float64(v2)
-		case float64:
-			equal = v1 == v2
-		default:
-			equal = false // Different types
-		}
-	case string:
-		switch v2 := secondNode.Value.(type) {
-		case string:
-			equal = v1 == v2
-		default:
-			equal = false // Different types
-		}
-	case bool:
-		switch v2 := secondNode.Value.(type) {
-		case bool:
-			equal = v1 == v2
-		default:
-			equal = false // Different types
-		}
-	default:
-		// For other types, we just check if they're the same type and value
-		equal = firstNode.Value == secondNode.Value
-	}
+	equal := core.Equal(cdr[0], cdr[1])
 
 	// For != operation, invert the result
 	if !expectEqual {
diff --git a/lib/lists.go b/lib/lists.go
index 75ae2be..b9aa1b9 100644
--- a/lib/lists.go
+++ b/lib/lists.go
@@ -129,7 +129,7 @@ func opListContains(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e c
 		if !ok {
 			return nil, core.NewEvaluationError(listNode, fmt.Sprintf("invalid item type: %T", item))
 		}
-		if itemNode.Value == elemNode.Value {
+		if core.Equal(itemNode, elemNode) {
 			return &core.YispNode{
 				Kind:  core.KindBool,
 				Value: true,
-- 
2.43.0


From fb32d363a09a1be1b902cedbd18923851e548833 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:51:13 +0000
Subject: [PATCH 06/99] fix: order large integers exactly

Integers above 2^53 were compared as floats, so neighbouring values counted
as equal.
---
 engine/util.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/engine/util.go b/engine/util.go
index 7ff1358..b96458b 100644
--- a/engine/util.go
+++ b/engine/util.go
@@ -1,6 +1,7 @@
 package engine
 
 import (
+	gocmp "cmp"
 	"encoding/json"
 	"fmt"
 
@@ -96,6 +97,13 @@ func compareNumbers(cdr []*core.YispNode, opName string, cmp func(float64, float
 		return nil, core.NewEvaluationError(secondNode, fmt.Sprintf("invalid second argument type for %s: %T (value: %v)", opName, secondNode.Value, secondNode.Value))
 	}
 
+	firstInt, firstIsInt := firstNode.Value.(int)
+	secondInt, secondIsInt := secondNode.Value.(int)
+	if firstIsInt && secondIsInt {
+		// float64 cannot tell large integers apart, so compare their order instead
+		firstNum, secondNum = float64(gocmp.Compare(firstInt, secondInt)), 0
+	}
+
 	return &core.YispNode{
 		Kind:  core.KindBool,
 		Value: cmp(firstNum, secondNum),
-- 
2.43.0


From 9b75c222407b2cc11354f1bb8aa218ef1d81d979 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:51:30 +0000
Subject: [PATCH 07/99] fix: report malformed lambdas and surplus arguments
 instead of crashing

---
 engine/apply.go | 4 ++++
 engine/eval.go  | 7 ++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/engine/apply.go b/engine/apply.go
index ec525f1..347038d 100644
--- a/engine/apply.go
+++ b/engine/apply.go
@@ -23,6 +23,10 @@ func (e *engine) Apply(car *core.YispNode, cdr []*core.YispNode, env *core.Env,
 			return nil, core.NewEvaluationError(car, fmt.Sprintf("invalid lambda type: %T", car.Value))
 		}
 
+		if len(cdr) > len(lambda.Arguments) {
+			return nil, core.NewEvaluationError(car, fmt.Sprintf("lambda takes %d arguments, got %d", len(lambda.Arguments), len(cdr)))
+		}
+
 		newEnv := lambda.Clojure.CreateChild()
 		for i, node := range cdr {
 			if lambda.Arguments[i].Schema != nil {
diff --git a/engine/eval.go b/engine/eval.go
index bb1585d..153c0ac 100644
--- a/engine/eval.go
+++ b/engine/eval.go
@@ -192,8 +192,13 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 				paramsNode := nodes[1]
 				bodyNode := nodes[2]
 
+				paramItems, ok := paramsNode.Value.([]any)
+				if !ok {
+					return nil, core.NewEvaluationError(paramsNode, fmt.Sprintf("lambda requires a list of parameters, got %s", paramsNode.Kind))
+				}
+
 				params := make([]core.TypedSymbol, 0)
-				for _, item := range paramsNode.Value.([]any) {
+				for _, item := range paramItems {
 					paramNode, ok := item.(*core.YispNode)
 					if !ok {
 						return nil, core.NewEvaluationError(nil, fmt.Sprintf("invalid param type: %T", item))
-- 
2.43.0


From 2e21884078816084db8262959c5de1f9528ed87a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:51:51 +0000
Subject: [PATCH 08/99] fix: resolve optional references to existing names

*x? was null even when x was defined, and a name with an empty segment
crashed the lookup.
---
 core/env.go | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/core/env.go b/core/env.go
index f99aa75..1891f66 100644
--- a/core/env.go
+++ b/core/env.go
@@ -89,14 +89,12 @@ func (e *Env) Get(key string) (*YispNode, bool) {
 
 	split := strings.Split(key, ".")
 
-	fst := split[0]
-	optional := false
-	if fst[len(fst)-1] == '?' {
-		fst = fst[:len(fst)-1]
-		optional = true
-	}
+	fst, optional := strings.CutSuffix(split[0], "?")
 
 	value, ok := e.Vars[split[0]]
+	if !ok && optional {
+		value, ok = e.Vars[fst]
+	}
 	if !ok {
 		if e.Parent != nil {
 			return e.Parent.Get(key)
@@ -111,12 +109,7 @@ func (e *Env) Get(key string) (*YispNode, bool) {
 	}
 
 	for _, key := range split[1:] {
-		if key[len(key)-1] == '?' {
-			key = key[:len(key)-1]
-			optional = true
-		} else {
-			optional = false
-		}
+		key, optional = strings.CutSuffix(key, "?")
 
 		maps, ok := value.Value.(map[string]*YispNode)
 		if !ok {
-- 
2.43.0


From 10ad9322f6454a3b0b5f61a0ec3b0163e25228af Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:52:07 +0000
Subject: [PATCH 09/99] fix: leave functions and types out of the output
 instead of crashing

A function or type inside a list or map rendered as a nil node, which
crashed the YAML encoder.
---
 engine/render.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/engine/render.go b/engine/render.go
index bf93e18..0c754cb 100644
--- a/engine/render.go
+++ b/engine/render.go
@@ -79,17 +79,20 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 		if !ok {
 			return nil, fmt.Errorf("invalid array value. Actual type: %T", node.Value)
 		}
-		results := make([]*yaml.Node, len(arr))
-		for i, item := range arr {
+		results := make([]*yaml.Node, 0, len(arr))
+		for _, item := range arr {
 			node, ok := item.(*core.YispNode)
 			if !ok {
 				return nil, fmt.Errorf("invalid item type: %T", item)
 			}
-			var err error
-			results[i], err = e.renderYamlNodes(node)
+			content, err := e.renderYamlNodes(node)
 			if err != nil {
 				return nil, err
 			}
+			if content == nil { // special objects have no representation
+				continue
+			}
+			results = append(results, content)
 		}
 		return &yaml.Node{
 			Kind:        yaml.SequenceNode,
@@ -115,6 +118,9 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 			if err != nil {
 				return nil, err
 			}
+			if content == nil { // special objects have no representation
+				continue
+			}
 
 			results = append(results, &yaml.Node{
 				Kind:        yaml.ScalarNode,
-- 
2.43.0


From 25541c6f0f92064ee98965479fb85e40c05474d8 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:52:35 +0000
Subject: [PATCH 10/99] fix: report output that cannot be written as YAML

Encoding errors were dropped, so the affected documents silently went
missing from the output.
---
 engine/render.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/engine/render.go b/engine/render.go
index 0c754cb..7111168 100644
--- a/engine/render.go
+++ b/engine/render.go
@@ -237,9 +237,13 @@ func (e *engine) Render(node *core.YispNode) (string, error) {
 				continue
 			}
 
-			enc.Encode(rendered)
+			if err := enc.Encode(rendered); err != nil {
+				return "", err
+			}
+		}
+		if err := enc.Close(); err != nil {
+			return "", err
 		}
-		enc.Close()
 		return buf.String(), nil
 
 	} else {
@@ -247,7 +251,10 @@ func (e *engine) Render(node *core.YispNode) (string, error) {
 		if err != nil {
 			return "", err
 		}
-		b, _ := yaml.Marshal(rendered)
+		b, err := yaml.Marshal(rendered)
+		if err != nil {
+			return "", err
+		}
 		return string(b), nil
 	}
 }
-- 
2.43.0


From 5499dc75c5b6cd052a1c1dc10c0891382164c8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:53:20 +0000
Subject: [PATCH 11/99] fix: keep map keys the strings they are

A key computed at run time, or read from JSON or YAML data, was written
plain, so "1", "true" or "null" came back as another type.
---
 core/types.go    |  1 +
 engine/parse.go  |  1 +
 engine/render.go | 11 +++++++++++
 3 files changed, 13 insertions(+)

diff --git a/core/types.go b/core/types.go
index 2bfb08c..9f6e1b6 100644
--- a/core/types.go
+++ b/core/types.go
@@ -92,6 +92,7 @@ type Attribute struct {
 	LineComment string
 	FootComment string
 
+	KeyTag   string
 	KeyStyle yaml.Style
 	Style    yaml.Style
 }
diff --git a/engine/parse.go b/engine/parse.go
index 9232107..cd948e7 100644
--- a/engine/parse.go
+++ b/engine/parse.go
@@ -77,6 +77,7 @@ func Parse(filename string, node *yaml.Node) (*core.YispNode, error) {
 				return nil, err
 			}
 
+			value.Attr.KeyTag = keyNode.ShortTag()
 			value.Attr.KeyStyle = keyNode.Style
 			value.Attr.KeyHeadComment = keyNode.HeadComment
 			value.Attr.KeyLineComment = keyNode.LineComment
diff --git a/engine/render.go b/engine/render.go
index 7111168..3846868 100644
--- a/engine/render.go
+++ b/engine/render.go
@@ -16,6 +16,16 @@ func (e *engine) getLineComment(node *core.YispNode) string {
 	return lineComment
 }
 
+// keyTag returns the tag to render a map key with. Keys are strings unless
+// the key was written as another type and still reads as that type.
+func keyTag(key, sourceTag string) string {
+	plain := yaml.Node{Kind: yaml.ScalarNode, Value: key}
+	if tag := plain.ShortTag(); tag == sourceTag {
+		return tag
+	}
+	return "!!str"
+}
+
 // Render converts a YispNode to a yaml.Node
 func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 	switch node.Kind {
@@ -125,6 +135,7 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 			results = append(results, &yaml.Node{
 				Kind:        yaml.ScalarNode,
 				Value:       key,
+				Tag:         keyTag(key, node.Attr.KeyTag),
 				HeadComment: node.Attr.KeyHeadComment,
 				LineComment: e.getLineComment(node),
 				FootComment: node.Attr.KeyFootComment,
-- 
2.43.0


From 75f3f84ebf01fff8cc9c86da3388a886b0569838 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:53:44 +0000
Subject: [PATCH 12/99] fix: put line comments back on the entry they belong to

Keys were written with the line comment of their value, so comments moved
to the next entry and the key's own comment was lost.
---
 engine/render.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/engine/render.go b/engine/render.go
index 3846868..2ae8017 100644
--- a/engine/render.go
+++ b/engine/render.go
@@ -16,6 +16,15 @@ func (e *engine) getLineComment(node *core.YispNode) string {
 	return lineComment
 }
 
+// getKeyLineComment returns the line comment of the key that holds the given value
+func (e *engine) getKeyLineComment(node *core.YispNode) string {
+	lineComment := node.Attr.KeyLineComment
+	if e.renderSources && (node.Kind == core.KindArray || node.Kind == core.KindMap) {
+		lineComment += node.Sourcemap()
+	}
+	return lineComment
+}
+
 // keyTag returns the tag to render a map key with. Keys are strings unless
 // the key was written as another type and still reads as that type.
 func keyTag(key, sourceTag string) string {
@@ -137,7 +146,7 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 				Value:       key,
 				Tag:         keyTag(key, node.Attr.KeyTag),
 				HeadComment: node.Attr.KeyHeadComment,
-				LineComment: e.getLineComment(node),
+				LineComment: e.getKeyLineComment(node),
 				FootComment: node.Attr.KeyFootComment,
 				Style:       node.Attr.KeyStyle,
 			})
-- 
2.43.0


From f35537c6648d8d3eac7b0c2f76c50359a1f89dbc Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:53:45 +0000
Subject: [PATCH 13/99] fix: separate the source position from an existing line
 comment

---
 engine/render.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/engine/render.go b/engine/render.go
index 2ae8017..069cd8f 100644
--- a/engine/render.go
+++ b/engine/render.go
@@ -8,10 +8,17 @@ import (
 	"github.com/totegamma/yisp/internal/yaml"
 )
 
+func joinComments(a, b string) string {
+	if a == "" || b == "" {
+		return a + b
+	}
+	return a + " " + b
+}
+
 func (e *engine) getLineComment(node *core.YispNode) string {
 	lineComment := node.Attr.LineComment
 	if e.renderSources {
-		lineComment += node.Sourcemap()
+		lineComment = joinComments(lineComment, node.Sourcemap())
 	}
 	return lineComment
 }
@@ -20,7 +27,7 @@ func (e *engine) getLineComment(node *core.YispNode) string {
 func (e *engine) getKeyLineComment(node *core.YispNode) string {
 	lineComment := node.Attr.KeyLineComment
 	if e.renderSources && (node.Kind == core.KindArray || node.Kind == core.KindMap) {
-		lineComment += node.Sourcemap()
+		lineComment = joinComments(lineComment, node.Sourcemap())
 	}
 	return lineComment
 }
-- 
2.43.0


From 356dc278ad76aa7b976953c18381dc0cb7077c5c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:54:08 +0000
Subject: [PATCH 14/99] fix: give plain data files a reproducible key order

Maps read from YAML or JSON data were built in Go's random map order, so
the same input produced different output on every run.
---
 core/parse.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/parse.go b/core/parse.go
index 5fa819c..dd3ddc7 100644
--- a/core/parse.go
+++ b/core/parse.go
@@ -4,7 +4,9 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"maps"
 	"reflect"
+	"slices"
 
 	"gopkg.in/yaml.v3"
 )
@@ -82,8 +84,9 @@ func ParseAny(filename string, v any) (*YispNode, error) {
 			return nil, fmt.Errorf("expected map[string]any, got %T", v)
 		}
 
-		for key, value := range dict {
-			itemNode, err := ParseAny(filename, value)
+		// go maps have no order, so use a fixed one to keep the output reproducible
+		for _, key := range slices.Sorted(maps.Keys(dict)) {
+			itemNode, err := ParseAny(filename, dict[key])
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 2438d44edb0eb03a016cd1a3dc83483b43afc19d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:54:11 +0000
Subject: [PATCH 15/99] fix: keep integers from JSON data integers

80 in a JSON file became 80.000000, which arithmetic and the int type
rejected.
---
 core/parse.go  | 14 ++++++++++++++
 core/schema.go |  5 ++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/core/parse.go b/core/parse.go
index dd3ddc7..b60e6d7 100644
--- a/core/parse.go
+++ b/core/parse.go
@@ -7,12 +7,25 @@ import (
 	"maps"
 	"reflect"
 	"slices"
+	"strconv"
 
 	"gopkg.in/yaml.v3"
 )
 
 func ParseAny(filename string, v any) (*YispNode, error) {
 
+	if number, ok := v.(json.Number); ok {
+		if i, err := strconv.Atoi(number.String()); err == nil {
+			v = i
+		} else {
+			f, err := number.Float64()
+			if err != nil {
+				return nil, fmt.Errorf("invalid number: %s", number)
+			}
+			v = f
+		}
+	}
+
 	typ := reflect.TypeOf(v)
 	if typ == nil {
 		return &YispNode{
@@ -138,6 +151,7 @@ func ParseAny(filename string, v any) (*YispNode, error) {
 func ParseJson(filename string, reader io.Reader) (*YispNode, error) {
 	var data any
 	decoder := json.NewDecoder(reader)
+	decoder.UseNumber()
 	if err := decoder.Decode(&data); err != nil {
 		return nil, fmt.Errorf("failed to decode JSON: %v", err)
 	}
diff --git a/core/schema.go b/core/schema.go
index a4e0f1d..4d8fbba 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -1,6 +1,7 @@
 package core
 
 import (
+	"bytes"
 	"encoding/base64"
 	"encoding/json"
 	"fmt"
@@ -149,7 +150,9 @@ func (s *Schema) ToYispNode() (*YispNode, error) {
 	}
 
 	var anyValue any
-	err = json.Unmarshal(jsonStr, &anyValue)
+	decoder := json.NewDecoder(bytes.NewReader(jsonStr))
+	decoder.UseNumber()
+	err = decoder.Decode(&anyValue)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 8742720c2d6a8f9f5e27810f5b5fd457c6f5f218 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:55:04 +0000
Subject: [PATCH 16/99] fix: include every document of a YAML file

Only the first document of a multi-document YAML file was read; the rest
were silently dropped.
---
 core/parse.go | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/core/parse.go b/core/parse.go
index b60e6d7..0881021 100644
--- a/core/parse.go
+++ b/core/parse.go
@@ -2,6 +2,7 @@ package core
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 	"io"
 	"maps"
@@ -165,17 +166,35 @@ func ParseJson(filename string, reader io.Reader) (*YispNode, error) {
 }
 
 // ParseYaml parses standard YAML (not yisp-extended YAML) into a YispNode
+// A stream of several documents becomes a list of documents
 func ParseYaml(filename string, reader io.Reader) (*YispNode, error) {
-	var data any
+	documents := make([]any, 0)
 	decoder := yaml.NewDecoder(reader)
-	if err := decoder.Decode(&data); err != nil {
-		return nil, fmt.Errorf("failed to decode YAML: %v", err)
+	for {
+		var data any
+		if err := decoder.Decode(&data); err != nil {
+			if errors.Is(err, io.EOF) && len(documents) > 0 {
+				break
+			}
+			return nil, fmt.Errorf("failed to decode YAML: %v", err)
+		}
+
+		node, err := ParseAny(filename, data)
+		if err != nil {
+			return nil, fmt.Errorf("failed to parse YAML: %v", err)
+		}
+		documents = append(documents, node)
 	}
 
-	node, err := ParseAny(filename, data)
-	if err != nil {
-		return nil, fmt.Errorf("failed to parse YAML: %v", err)
+	if len(documents) == 1 {
+		return documents[0].(*YispNode), nil
 	}
 
-	return node, nil
+	return &YispNode{
+		Kind: KindArray,
+		Value: slices.DeleteFunc(documents, func(document any) bool {
+			return document.(*YispNode).Kind == KindNull
+		}),
+		IsDocumentRoot: true,
+	}, nil
 }
-- 
2.43.0


From 8bf33d3c91b78464e4c245378ce851ea829a46a4 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:55:06 +0000
Subject: [PATCH 17/99] fix: honour fractional bounds on integers

The bounds were truncated before the comparison: minimum 1.5 accepted 1 and
exclusiveMinimum -1.5 rejected -1.
---
 core/schema.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/schema.go b/core/schema.go
index 4d8fbba..912cffa 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -299,16 +299,16 @@ func (s *Schema) Validate(node *YispNode) error {
 		if node.Kind != KindInt {
 			return NewEvaluationError(node, fmt.Sprintf("expected int, got %s", node.Kind))
 		}
-		if s.Minimum != nil && node.Value.(int) < int(*s.Minimum) {
+		if s.Minimum != nil && float64(node.Value.(int)) < *s.Minimum {
 			return NewEvaluationError(node, fmt.Sprintf("value %d is less than minimum %f", node.Value.(int), *s.Minimum))
 		}
-		if s.Maximum != nil && node.Value.(int) > int(*s.Maximum) {
+		if s.Maximum != nil && float64(node.Value.(int)) > *s.Maximum {
 			return NewEvaluationError(node, fmt.Sprintf("value %d is greater than maximum %f", node.Value.(int), *s.Maximum))
 		}
-		if s.ExclusiveMinimum != nil && node.Value.(int) <= int(*s.ExclusiveMinimum) {
+		if s.ExclusiveMinimum != nil && float64(node.Value.(int)) <= *s.ExclusiveMinimum {
 			return NewEvaluationError(node, fmt.Sprintf("value %d is not greater than exclusive minimum %f", node.Value.(int), *s.ExclusiveMinimum))
 		}
-		if s.ExclusiveMaximum != nil && node.Value.(int) >= int(*s.ExclusiveMaximum) {
+		if s.ExclusiveMaximum != nil && float64(node.Value.(int)) >= *s.ExclusiveMaximum {
 			return NewEvaluationError(node, fmt.Sprintf("value %d is not less than exclusive maximum %f", node.Value.(int), *s.ExclusiveMaximum))
 		}
 		if s.MultipleOf != nil {
-- 
2.43.0


From a728e7c3e29c599d59d08de253d63395d3eb6a77 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:55:10 +0000
Subject: [PATCH 18/99] fix: require the properties a schema lists as required

Names in required that have no entry under properties were not enforced.
---
 core/schema.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/core/schema.go b/core/schema.go
index 912cffa..2de25b1 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -385,15 +385,17 @@ func (s *Schema) Validate(node *YispNode) error {
 			return NewEvaluationError(node, fmt.Sprintf("expected map, got %T", node.Value))
 		}
 
+		for _, key := range s.Required {
+			if _, ok := m.Get(key); !ok {
+				return NewEvaluationError(node, fmt.Sprintf("missing required property: %s", key))
+			}
+		}
+
 		processed := make(map[string]bool)
 		for key, subSchema := range s.GetProperties() {
 			item, ok := m.Get(key)
 			if !ok {
-				if slices.Contains(s.Required, key) {
-					return NewEvaluationError(node, fmt.Sprintf("missing required property: %s", key))
-				} else {
-					continue
-				}
+				continue
 			}
 			itemNode, ok := item.(*YispNode)
 			if !ok {
-- 
2.43.0


From f4db9b644e4fdbebef6fae6e799aba16b84e3a8c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:56:26 +0000
Subject: [PATCH 19/99] fix: leave int-or-string integers alone when validating

---
 core/schema.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/core/schema.go b/core/schema.go
index 2de25b1..f5fffeb 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -343,11 +343,9 @@ func (s *Schema) Validate(node *YispNode) error {
 				if node.Kind != KindInt {
 					return NewEvaluationError(node, fmt.Sprintf("expected string or int, got %s", node.Kind))
 				}
-				node.Kind = KindString
-				node.Value = fmt.Sprintf("%d", node.Value.(int))
-			} else {
-				return NewEvaluationError(node, fmt.Sprintf("expected string, got %s", node.Kind))
+				return nil
 			}
+			return NewEvaluationError(node, fmt.Sprintf("expected string, got %s", node.Kind))
 		}
 		if s.MinLength != nil && len(node.Value.(string)) < *s.MinLength {
 			return NewEvaluationError(node, fmt.Sprintf("string length %d is less than minimum %d", len(node.Value.(string)), *s.MinLength))
-- 
2.43.0


From 0341c5a462b215e964ffcaa4af35f5b129cd1aba Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:57:39 +0000
Subject: [PATCH 20/99] fix: report schemas that cannot be resolved instead of
 crashing

---
 core/schema.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/core/schema.go b/core/schema.go
index f5fffeb..84c79ce 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -64,11 +64,10 @@ func (s *Schema) GetProperties() map[string]*Schema {
 
 	newProperties := make(map[string]*Schema, len(s.Properties))
 	for key, value := range s.Properties {
-		if value.Ref != "" {
+		if value != nil && value.Ref != "" {
 			refSchema, err := LoadSchemaFromID(value.Ref)
 			if err != nil {
-				fmt.Printf("Error loading schema from ref %s: %v\n", value.Ref, err)
-				continue
+				fmt.Fprintf(os.Stderr, "Error loading schema from ref %s: %v\n", value.Ref, err)
 			}
 			newProperties[key] = refSchema
 		} else {
@@ -83,7 +82,7 @@ func (s *Schema) GetItems() *Schema {
 	if s.Items != nil && s.Items.Ref != "" {
 		refSchema, err := LoadSchemaFromID(s.Items.Ref)
 		if err != nil {
-			fmt.Printf("Error loading schema from ref %s: %v\n", s.Items.Ref, err)
+			fmt.Fprintf(os.Stderr, "Error loading schema from ref %s: %v\n", s.Items.Ref, err)
 			return nil
 		}
 		return refSchema
@@ -114,7 +113,7 @@ func (s *Schema) GetAdditionalProperties() any {
 		if additionalSchema.Ref != "" {
 			refSchema, err := LoadSchemaFromID(additionalSchema.Ref)
 			if err != nil {
-				fmt.Printf("Error loading schema from ref %s: %v\n", additionalSchema.Ref, err)
+				fmt.Fprintf(os.Stderr, "Error loading schema from ref %s: %v\n", additionalSchema.Ref, err)
 			}
 			return refSchema
 		}
@@ -272,6 +271,10 @@ func LoadSchemaFromGVK(group, version, kind string) (*Schema, error) {
 
 func (s *Schema) Validate(node *YispNode) error {
 
+	if s == nil {
+		return NewEvaluationError(node, "schema is missing or could not be loaded")
+	}
+
 	if s.OneOf != nil {
 		var errors []string
 		for _, subSchema := range s.OneOf {
@@ -469,7 +472,6 @@ func (s *Schema) Validate(node *YispNode) error {
 		}
 
 	default:
-		JsonPrint("schema", s)
 		return NewEvaluationError(node, fmt.Sprintf("unknown type: %s", s.Type))
 	}
 
@@ -477,6 +479,9 @@ func (s *Schema) Validate(node *YispNode) error {
 }
 
 func (s *Schema) InterpolateDefaults(node *YispNode) error {
+	if s == nil {
+		return nil
+	}
 	switch s.Type {
 	case "array":
 		if node.Kind != KindArray {
@@ -571,6 +576,10 @@ func (s *Schema) Cast(node *YispNode) (*YispNode, error) {
 
 func (s *Schema) Equals(other *Schema) bool {
 
+	if s == nil || other == nil {
+		return s == other
+	}
+
 	if s.Type != other.Type {
 		return false
 	}
-- 
2.43.0


From adfdfc7d19b13c5eb0f29b9744f38919137a7e76 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:57:40 +0000
Subject: [PATCH 21/99] fix: check multipleOf and string lengths as JSON Schema
 defines them

---
 core/schema.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/core/schema.go b/core/schema.go
index 84c79ce..740e9d9 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -6,11 +6,13 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"math"
 	"net/http"
 	"os"
 	"path/filepath"
 	"slices"
 	"strings"
+	"unicode/utf8"
 )
 
 var schemaTypeToKind = map[string]Kind{
@@ -315,7 +317,7 @@ func (s *Schema) Validate(node *YispNode) error {
 			return NewEvaluationError(node, fmt.Sprintf("value %d is not less than exclusive maximum %f", node.Value.(int), *s.ExclusiveMaximum))
 		}
 		if s.MultipleOf != nil {
-			if node.Value.(int)%*s.MultipleOf != 0 {
+			if *s.MultipleOf == 0 || node.Value.(int)%*s.MultipleOf != 0 {
 				return NewEvaluationError(node, fmt.Sprintf("value %d is not a multiple of %d", node.Value.(int), *s.MultipleOf))
 			}
 		}
@@ -336,7 +338,7 @@ func (s *Schema) Validate(node *YispNode) error {
 			return NewEvaluationError(node, fmt.Sprintf("value %f is not less than exclusive maximum %f", node.Value.(float64), *s.ExclusiveMaximum))
 		}
 		if s.MultipleOf != nil {
-			if int(node.Value.(float64))%*s.MultipleOf != 0 {
+			if math.Mod(node.Value.(float64), float64(*s.MultipleOf)) != 0 {
 				return NewEvaluationError(node, fmt.Sprintf("value %f is not a multiple of %d", node.Value.(float64), *s.MultipleOf))
 			}
 		}
@@ -350,11 +352,12 @@ func (s *Schema) Validate(node *YispNode) error {
 			}
 			return NewEvaluationError(node, fmt.Sprintf("expected string, got %s", node.Kind))
 		}
-		if s.MinLength != nil && len(node.Value.(string)) < *s.MinLength {
-			return NewEvaluationError(node, fmt.Sprintf("string length %d is less than minimum %d", len(node.Value.(string)), *s.MinLength))
+		length := utf8.RuneCountInString(node.Value.(string))
+		if s.MinLength != nil && length < *s.MinLength {
+			return NewEvaluationError(node, fmt.Sprintf("string length %d is less than minimum %d", length, *s.MinLength))
 		}
-		if s.MaxLength != nil && len(node.Value.(string)) > *s.MaxLength {
-			return NewEvaluationError(node, fmt.Sprintf("string length %d is greater than maximum %d", len(node.Value.(string)), *s.MaxLength))
+		if s.MaxLength != nil && length > *s.MaxLength {
+			return NewEvaluationError(node, fmt.Sprintf("string length %d is greater than maximum %d", length, *s.MaxLength))
 		}
 	case "array":
 		if node.Kind != KindArray {
-- 
2.43.0


From 8b13c92fa27bff919f91081e51ebf3854fc6ba34 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:58:08 +0000
Subject: [PATCH 22/99] fix: report out of range integers instead of crashing

---
 core/schema.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/core/schema.go b/core/schema.go
index 740e9d9..83a7f15 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -304,21 +304,25 @@ func (s *Schema) Validate(node *YispNode) error {
 		if node.Kind != KindInt {
 			return NewEvaluationError(node, fmt.Sprintf("expected int, got %s", node.Kind))
 		}
-		if s.Minimum != nil && float64(node.Value.(int)) < *s.Minimum {
-			return NewEvaluationError(node, fmt.Sprintf("value %d is less than minimum %f", node.Value.(int), *s.Minimum))
+		number, ok := node.Value.(int)
+		if !ok {
+			return NewEvaluationError(node, fmt.Sprintf("integer %v is out of range", node.Value))
+		}
+		if s.Minimum != nil && float64(number) < *s.Minimum {
+			return NewEvaluationError(node, fmt.Sprintf("value %d is less than minimum %f", number, *s.Minimum))
 		}
-		if s.Maximum != nil && float64(node.Value.(int)) > *s.Maximum {
-			return NewEvaluationError(node, fmt.Sprintf("value %d is greater than maximum %f", node.Value.(int), *s.Maximum))
+		if s.Maximum != nil && float64(number) > *s.Maximum {
+			return NewEvaluationError(node, fmt.Sprintf("value %d is greater than maximum %f", number, *s.Maximum))
 		}
-		if s.ExclusiveMinimum != nil && float64(node.Value.(int)) <= *s.ExclusiveMinimum {
-			return NewEvaluationError(node, fmt.Sprintf("value %d is not greater than exclusive minimum %f", node.Value.(int), *s.ExclusiveMinimum))
+		if s.ExclusiveMinimum != nil && float64(number) <= *s.ExclusiveMinimum {
+			return NewEvaluationError(node, fmt.Sprintf("value %d is not greater than exclusive minimum %f", number, *s.ExclusiveMinimum))
 		}
-		if s.ExclusiveMaximum != nil && float64(node.Value.(int)) >= *s.ExclusiveMaximum {
-			return NewEvaluationError(node, fmt.Sprintf("value %d is not less than exclusive maximum %f", node.Value.(int), *s.ExclusiveMaximum))
+		if s.ExclusiveMaximum != nil && float64(number) >= *s.ExclusiveMaximum {
+			return NewEvaluationError(node, fmt.Sprintf("value %d is not less than exclusive maximum %f", number, *s.ExclusiveMaximum))
 		}
 		if s.MultipleOf != nil {
-			if *s.MultipleOf == 0 || node.Value.(int)%*s.MultipleOf != 0 {
-				return NewEvaluationError(node, fmt.Sprintf("value %d is not a multiple of %d", node.Value.(int), *s.MultipleOf))
+			if *s.MultipleOf == 0 || number%*s.MultipleOf != 0 {
+				return NewEvaluationError(node, fmt.Sprintf("value %d is not a multiple of %d", number, *s.MultipleOf))
 			}
 		}
 	case "float":
-- 
2.43.0


From e70eed2b123d5fc41d03529a3bb974ce68bbc023 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:59:27 +0000
Subject: [PATCH 23/99] fix: fill in the default values a schema declares

---
 core/schema.go  | 106 +++++++++++++++++++++++++++++++++++-------------
 core/util.go    |  13 ------
 engine/apply.go |   6 +--
 3 files changed, 81 insertions(+), 44 deletions(-)

diff --git a/core/schema.go b/core/schema.go
index 83a7f15..1528bec 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -6,6 +6,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"maps"
 	"math"
 	"net/http"
 	"os"
@@ -144,6 +145,17 @@ func (s *Schema) GetPatchMergeKey() string {
 	return ""
 }
 
+// DecodeSchema reads a schema from JSON, keeping the numbers in it as they are
+func DecodeSchema(reader io.Reader) (*Schema, error) {
+	var schema Schema
+	decoder := json.NewDecoder(reader)
+	decoder.UseNumber()
+	if err := decoder.Decode(&schema); err != nil {
+		return nil, err
+	}
+	return &schema, nil
+}
+
 func (s *Schema) ToYispNode() (*YispNode, error) {
 	jsonStr, err := json.Marshal(s)
 	if err != nil {
@@ -172,13 +184,7 @@ func LoadSchemaFromURL(url string) (*Schema, error) {
 	file, err := os.Open(schemasPath)
 	if err == nil {
 		defer file.Close()
-		var schema Schema
-		decoder := json.NewDecoder(file)
-		err = decoder.Decode(&schema)
-		if err != nil {
-			return nil, err
-		}
-		return &schema, nil
+		return DecodeSchema(file)
 	} else {
 		resp, err := http.Get(url)
 		if err != nil {
@@ -195,8 +201,7 @@ func LoadSchemaFromURL(url string) (*Schema, error) {
 			return nil, err
 		}
 
-		var schema Schema
-		err = json.Unmarshal(body, &schema)
+		schema, err := DecodeSchema(bytes.NewReader(body))
 		if err != nil {
 			return nil, err
 		}
@@ -213,12 +218,12 @@ func LoadSchemaFromURL(url string) (*Schema, error) {
 		defer file.Close()
 
 		encoder := json.NewEncoder(file)
-		err = encoder.Encode(&schema)
+		err = encoder.Encode(schema)
 		if err != nil {
 			return nil, err
 		}
 
-		return &schema, nil
+		return schema, nil
 	}
 }
 
@@ -240,13 +245,7 @@ func LoadSchemaFromID(id string) (*Schema, error) {
 	}
 	defer file.Close()
 
-	var schema Schema
-	decoder := json.NewDecoder(file)
-	err = decoder.Decode(&schema)
-	if err != nil {
-		return nil, err
-	}
-	return &schema, nil
+	return DecodeSchema(file)
 }
 
 func LoadSchemaFromGVK(group, version, kind string) (*Schema, error) {
@@ -522,31 +521,39 @@ func (s *Schema) InterpolateDefaults(node *YispNode) error {
 		if !ok {
 			return NewEvaluationError(node, fmt.Sprintf("expected map, got %T", node.Value))
 		}
-		for key, subSchema := range s.Properties {
+		// go maps have no order, so use a fixed one to keep the output reproducible
+		for _, key := range slices.Sorted(maps.Keys(s.Properties)) {
+			subSchema := s.Properties[key]
 			item, ok := m.Get(key)
 			if !ok {
 				if slices.Contains(s.Required, key) {
 					return NewEvaluationError(node, fmt.Sprintf("missing required property: %s", key))
 				}
+				if subSchema == nil {
+					continue
+				}
 				if subSchema.Default != nil {
-					defaultNode := &YispNode{
-						Kind:  schemaTypeToKind[subSchema.Type],
-						Value: subSchema.Default,
-						Tag:   node.Tag,
-						Attr:  node.Attr,
-						Type:  subSchema,
+					defaultNode, err := subSchema.defaultNode(node.Attr.Sources)
+					if err != nil {
+						return NewEvaluationErrorWithParent(node, fmt.Sprintf("invalid default value for property %s", key), err)
 					}
 					m.Set(key, defaultNode)
 					continue
 				}
+				if subSchema.Type != "object" {
+					continue
+				}
+				// an omitted object is filled in only when it has defaults of its own
 				dummyNode := &YispNode{
-					Kind: schemaTypeToKind[subSchema.Type],
+					Kind:  KindMap,
+					Value: NewYispMap(),
+					Attr:  Attribute{Sources: node.Attr.Sources},
 				}
 				err := subSchema.InterpolateDefaults(dummyNode)
 				if err != nil {
-					return NewEvaluationError(node, fmt.Sprintf("failed to interpolate dummy Node %v", err))
+					continue
 				}
-				if !IsZero(dummyNode.Value) {
+				if dummyNode.Value.(*YispMap).Len() != 0 {
 					m.Set(key, dummyNode)
 				}
 				continue
@@ -565,6 +572,49 @@ func (s *Schema) InterpolateDefaults(node *YispNode) error {
 	}
 }
 
+// restoreFloats turns integers into floats where the schema says so,
+// because JSON does not keep them apart
+func (s *Schema) restoreFloats(node *YispNode) {
+	if s == nil {
+		return
+	}
+	switch value := node.Value.(type) {
+	case int:
+		if s.Type == "float" {
+			node.Kind = KindFloat
+			node.Value = float64(value)
+		}
+	case []any:
+		for _, item := range value {
+			s.Items.restoreFloats(item.(*YispNode))
+		}
+	case *YispMap:
+		for key, item := range value.AllFromFront() {
+			s.Properties[key].restoreFloats(item.(*YispNode))
+		}
+	}
+}
+
+// defaultNode makes a node that holds the default value of the schema
+func (s *Schema) defaultNode(sources []FilePos) (*YispNode, error) {
+	node, err := ParseAny("", s.Default)
+	if err != nil {
+		return nil, err
+	}
+	s.restoreFloats(node)
+	node.Attr.Sources = sources
+
+	if s.Type == "object" || s.Type == "array" {
+		err = s.InterpolateDefaults(node)
+		if err != nil {
+			return nil, err
+		}
+	}
+	node.Type = s
+
+	return node, nil
+}
+
 func (s *Schema) Cast(node *YispNode) (*YispNode, error) {
 	err := s.InterpolateDefaults(node)
 	if err != nil {
diff --git a/core/util.go b/core/util.go
index 47649f8..fff68af 100644
--- a/core/util.go
+++ b/core/util.go
@@ -317,19 +317,6 @@ func DeepMergeYispNode(dst, src *YispNode, schema *Schema) (*YispNode, error) {
 	}
 }
 
-func IsZero(v any) bool {
-	if v == nil {
-		return true
-	}
-
-	switch v := v.(type) {
-	case *YispMap:
-		return v.Len() == 0
-	default:
-		panic("iszero")
-	}
-}
-
 func RenderCode(file string, line, after, before int, comments []Comment) (string, error) {
 	f, err := os.Open(file)
 	if err != nil {
diff --git a/engine/apply.go b/engine/apply.go
index 347038d..d4ebc16 100644
--- a/engine/apply.go
+++ b/engine/apply.go
@@ -1,6 +1,7 @@
 package engine
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"os"
@@ -444,15 +445,14 @@ func opSchema(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.En
 		return nil, core.NewEvaluationErrorWithParent(node, "failed to marshal schema", err)
 	}
 
-	var schema core.Schema
-	err = json.Unmarshal(schemaBytes, &schema)
+	schema, err := core.DecodeSchema(bytes.NewReader(schemaBytes))
 	if err != nil {
 		return nil, core.NewEvaluationErrorWithParent(node, "failed to unmarshal schema", err)
 	}
 
 	return &core.YispNode{
 		Kind:  core.KindType,
-		Value: &schema,
+		Value: schema,
 		Attr:  node.Attr,
 	}, nil
 
-- 
2.43.0


From d207ca8dbef0ff912fbbbf47c6868dc3b3de67d7 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:59:43 +0000
Subject: [PATCH 24/99] fix: cast a copy of the value instead of the value
 itself

---
 core/schema.go |  2 ++
 core/types.go  | 27 +++++++++++++++++++++++++++
 engine/eval.go | 22 +++++++++++-----------
 3 files changed, 40 insertions(+), 11 deletions(-)

diff --git a/core/schema.go b/core/schema.go
index 1528bec..7bd7855 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -616,6 +616,8 @@ func (s *Schema) defaultNode(sources []FilePos) (*YispNode, error) {
 }
 
 func (s *Schema) Cast(node *YispNode) (*YispNode, error) {
+	node = node.Clone() // the value may be in use elsewhere
+
 	err := s.InterpolateDefaults(node)
 	if err != nil {
 		return nil, fmt.Errorf("failed to cast %v to %v (%v)", node, s, err)
diff --git a/core/types.go b/core/types.go
index 9f6e1b6..6aed766 100644
--- a/core/types.go
+++ b/core/types.go
@@ -144,6 +144,33 @@ type YispNode struct {
 	Type           *Schema
 }
 
+// Clone copies the node together with the arrays and maps below it
+func (n *YispNode) Clone() *YispNode {
+	clone := *n
+	switch value := n.Value.(type) {
+	case []any:
+		items := make([]any, len(value))
+		for i, item := range value {
+			items[i] = cloneItem(item)
+		}
+		clone.Value = items
+	case *YispMap:
+		m := NewYispMap()
+		for key, item := range value.AllFromFront() {
+			m.Set(key, cloneItem(item))
+		}
+		clone.Value = m
+	}
+	return &clone
+}
+
+func cloneItem(item any) any {
+	if node, ok := item.(*YispNode); ok {
+		return node.Clone()
+	}
+	return item
+}
+
 func (n *YispNode) String() string {
 	if len(n.Attr.Sources) == 0 {
 		return fmt.Sprintf("%s | <unknown>", n.Kind)
diff --git a/engine/eval.go b/engine/eval.go
index 153c0ac..f01a14e 100644
--- a/engine/eval.go
+++ b/engine/eval.go
@@ -466,17 +466,6 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 		}
 	}
 
-	if node.Anchor != "" {
-		env.Root().Set(node.Anchor, result) // anchor is global
-
-		if result.Kind == core.KindLambda {
-			lambda, ok := result.Value.(*core.Lambda)
-			if ok {
-				lambda.Clojure.Set(node.Anchor, result)
-			}
-		}
-	}
-
 	if node.Tag != "" && node.Tag != "!quote" && node.Tag != "!yisp" {
 		typeName := strings.TrimPrefix(node.Tag, "!")
 		if typeName != "" && !strings.HasPrefix(typeName, "!") {
@@ -494,5 +483,16 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 		}
 	}
 
+	if node.Anchor != "" {
+		env.Root().Set(node.Anchor, result) // anchor is global
+
+		if result.Kind == core.KindLambda {
+			lambda, ok := result.Value.(*core.Lambda)
+			if ok {
+				lambda.Clojure.Set(node.Anchor, result)
+			}
+		}
+	}
+
 	return result, nil
 }
-- 
2.43.0


From efe20fa3bb61fa1a7e3905610955efbe3620c17b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:59:43 +0000
Subject: [PATCH 25/99] fix: merge lists whose patch strategy is
 merge,retainKeys

---
 core/util.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/util.go b/core/util.go
index fff68af..4cdb853 100644
--- a/core/util.go
+++ b/core/util.go
@@ -146,11 +146,11 @@ func VerifyTypes(node *YispNode, allowUntypedManifest bool) error {
 
 func DeepMergeYispNode(dst, src *YispNode, schema *Schema) (*YispNode, error) {
 
-	strategy := "replace"
+	strategies := []string{"replace"}
 	mergeKey := ""
 	if schema != nil {
 		if schema.GetPatchStrategy() != "" {
-			strategy = schema.GetPatchStrategy()
+			strategies = strings.Split(schema.GetPatchStrategy(), ",") // e.g. merge,retainKeys
 		}
 		mergeKey = schema.GetPatchMergeKey()
 	}
@@ -223,9 +223,9 @@ func DeepMergeYispNode(dst, src *YispNode, schema *Schema) (*YispNode, error) {
 		}
 
 		var result []any
-		if strategy == "replace" {
+		if slices.Contains(strategies, "replace") {
 			result = srcArray
-		} else if strategy == "merge" {
+		} else if slices.Contains(strategies, "merge") {
 			if mergeKey == "" {
 				result = append(result, dstArray...)
 				result = append(result, srcArray...)
@@ -303,7 +303,7 @@ func DeepMergeYispNode(dst, src *YispNode, schema *Schema) (*YispNode, error) {
 				}
 			}
 		} else {
-			return nil, fmt.Errorf("unknown patch strategy: %s", strategy)
+			return nil, fmt.Errorf("unknown patch strategy: %s", strings.Join(strategies, ","))
 		}
 
 		return &YispNode{
-- 
2.43.0


From b18ff84803255cfb3ecb4fa3a5beb843b5fc9122 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:59:45 +0000
Subject: [PATCH 26/99] fix: merge list items whose merge key is not a string

---
 core/util.go | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/core/util.go b/core/util.go
index 4cdb853..60f1513 100644
--- a/core/util.go
+++ b/core/util.go
@@ -252,11 +252,6 @@ func DeepMergeYispNode(dst, src *YispNode, schema *Schema) (*YispNode, error) {
 						return nil, fmt.Errorf("expected YispNode for merge key, got %T", keyItem)
 					}
 
-					key, ok := keyNode.Value.(string)
-					if !ok {
-						return nil, fmt.Errorf("expected string for merge key, got %T", keyNode.Value)
-					}
-
 					// Check if the key already exists in the result
 					found := false
 					for i, dstItem := range result {
@@ -280,12 +275,7 @@ func DeepMergeYispNode(dst, src *YispNode, schema *Schema) (*YispNode, error) {
 							return nil, fmt.Errorf("expected YispNode for existing merge key, got %T", existingKeyItem)
 						}
 
-						existingKey, ok := existingKeyNode.Value.(string)
-						if !ok {
-							return nil, fmt.Errorf("expected string for existing merge key, got %T", existingKeyNode.Value)
-						}
-
-						if existingKey == key {
+						if Equal(existingKeyNode, keyNode) {
 							// Merge the srcMap into the existing dstMap
 							mergedNode, err := DeepMergeYispNode(dstNode, srcNode, subSchema)
 							if err != nil {
-- 
2.43.0


From 4673025e6370ad7199164fbba46525fbfee40b3b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 15:59:48 +0000
Subject: [PATCH 27/99] fix: leave the values given to maps.merge and k8s.patch
 alone

---
 core/util.go | 2 +-
 lib/k8s.go   | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/util.go b/core/util.go
index 60f1513..082e2d0 100644
--- a/core/util.go
+++ b/core/util.go
@@ -230,7 +230,7 @@ func DeepMergeYispNode(dst, src *YispNode, schema *Schema) (*YispNode, error) {
 				result = append(result, dstArray...)
 				result = append(result, srcArray...)
 			} else {
-				result = dstArray
+				result = slices.Clone(dstArray)
 				for _, srcItem := range srcArray {
 					srcNode, ok := srcItem.(*YispNode)
 					if !ok {
diff --git a/lib/k8s.go b/lib/k8s.go
index 313fefb..71f0c50 100644
--- a/lib/k8s.go
+++ b/lib/k8s.go
@@ -2,6 +2,7 @@ package lib
 
 import (
 	"fmt"
+	"slices"
 
 	"github.com/totegamma/yisp/core"
 )
@@ -27,6 +28,8 @@ func opPatch(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Eng
 		return nil, core.NewEvaluationError(targets, fmt.Sprintf("invalid target type: %T", targets.Value))
 	}
 
+	targetArray = slices.Clone(targetArray) // the targets may be in use elsewhere
+
 	patchArray, ok := patches.Value.([]any)
 	if !ok {
 		return nil, core.NewEvaluationError(patches, fmt.Sprintf("invalid patch type: %T", patches.Value))
@@ -64,7 +67,9 @@ func opPatch(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Eng
 		}
 	}
 
-	return targets, nil
+	result := *targets
+	result.Value = targetArray
+	return &result, nil
 }
 
 func getManifestID(node *core.YispNode) (string, error) {
-- 
2.43.0


From 491e598c7f582c115b8f4d1988e575d526300a87 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:00:30 +0000
Subject: [PATCH 28/99] fix: keep the values that maps.patch puts in several
 places independent

---
 lib/patch.go | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/lib/patch.go b/lib/patch.go
index 9f799c1..334d685 100644
--- a/lib/patch.go
+++ b/lib/patch.go
@@ -149,7 +149,7 @@ func addValue(node *core.YispNode, path string, value *core.YispNode) error {
 		if !ok {
 			return fmt.Errorf("expected map, got %T", current.Value)
 		}
-		m.Set(lastToken, value)
+		m.Set(lastToken, value.Clone())
 	} else if current.Kind == core.KindArray {
 		arr, ok := current.Value.([]any)
 		if !ok {
@@ -158,7 +158,7 @@ func addValue(node *core.YispNode, path string, value *core.YispNode) error {
 
 		// RFC 6902: "-" means append to end of array
 		if lastToken == "-" {
-			current.Value = append(arr, value)
+			current.Value = append(arr, value.Clone())
 		} else {
 			idx, err := strconv.Atoi(lastToken)
 			if err != nil {
@@ -170,12 +170,12 @@ func addValue(node *core.YispNode, path string, value *core.YispNode) error {
 			}
 			if idx == len(arr) {
 				// Append to array
-				current.Value = append(arr, value)
+				current.Value = append(arr, value.Clone())
 			} else {
 				// Insert at index, shifting elements to the right
 				newArr := make([]any, len(arr)+1)
 				copy(newArr, arr[:idx])
-				newArr[idx] = value
+				newArr[idx] = value.Clone()
 				copy(newArr[idx+1:], arr[idx:])
 				current.Value = newArr
 			}
@@ -249,7 +249,7 @@ func addValueWithWildcard(node *core.YispNode, tokens []string, wildcardIndex in
 					if !ok {
 						return fmt.Errorf("expected map, got %T", targetNode.Value)
 					}
-					valueMap, ok := value.Value.(*core.YispMap)
+					valueMap, ok := value.Clone().Value.(*core.YispMap)
 					if !ok {
 						return fmt.Errorf("expected map, got %T", value.Value)
 					}
@@ -259,7 +259,7 @@ func addValueWithWildcard(node *core.YispNode, tokens []string, wildcardIndex in
 					}
 				} else {
 					// Replace the entire value
-					m.Set(key, value)
+					m.Set(key, value.Clone())
 				}
 			}
 		} else {
@@ -285,7 +285,7 @@ func addValueWithWildcard(node *core.YispNode, tokens []string, wildcardIndex in
 					if !ok {
 						return fmt.Errorf("expected map, got %T", existingValue.Value)
 					}
-					valueMap, ok := value.Value.(*core.YispMap)
+					valueMap, ok := value.Clone().Value.(*core.YispMap)
 					if !ok {
 						return fmt.Errorf("expected map, got %T", value.Value)
 					}
@@ -323,7 +323,7 @@ func addValueWithWildcard(node *core.YispNode, tokens []string, wildcardIndex in
 					if !ok {
 						return fmt.Errorf("expected map, got %T", targetNode.Value)
 					}
-					valueMap, ok := value.Value.(*core.YispMap)
+					valueMap, ok := value.Clone().Value.(*core.YispMap)
 					if !ok {
 						return fmt.Errorf("expected map, got %T", value.Value)
 					}
@@ -333,7 +333,7 @@ func addValueWithWildcard(node *core.YispNode, tokens []string, wildcardIndex in
 					}
 				} else {
 					// Replace the entire value
-					arr[i] = value
+					arr[i] = value.Clone()
 				}
 			}
 		} else {
@@ -359,7 +359,7 @@ func addValueWithWildcard(node *core.YispNode, tokens []string, wildcardIndex in
 					if !ok {
 						return fmt.Errorf("expected map, got %T", existingValue.Value)
 					}
-					valueMap, ok := value.Value.(*core.YispMap)
+					valueMap, ok := value.Clone().Value.(*core.YispMap)
 					if !ok {
 						return fmt.Errorf("expected map, got %T", value.Value)
 					}
@@ -457,7 +457,7 @@ func replaceValue(node *core.YispNode, path string, value *core.YispNode) error
 		if _, ok := m.Get(lastToken); !ok {
 			return fmt.Errorf("key not found for replace: %s", lastToken)
 		}
-		m.Set(lastToken, value)
+		m.Set(lastToken, value.Clone())
 	} else if current.Kind == core.KindArray {
 		arr, ok := current.Value.([]any)
 		if !ok {
@@ -470,7 +470,7 @@ func replaceValue(node *core.YispNode, path string, value *core.YispNode) error
 		if idx < 0 || idx >= len(arr) {
 			return fmt.Errorf("array index out of bounds: %d", idx)
 		}
-		arr[idx] = value
+		arr[idx] = value.Clone()
 	} else {
 		return fmt.Errorf("cannot set value in %s", current.Kind)
 	}
@@ -529,7 +529,7 @@ func replaceValueWithWildcard(node *core.YispNode, tokens []string, wildcardInde
 		if wildcardIndex == len(tokens)-1 {
 			// Iterate over all keys and replace the value
 			for key := range m.AllFromFront() {
-				m.Set(key, value)
+				m.Set(key, value.Clone())
 			}
 		} else {
 			// Wildcard is in the middle, need to apply remaining path to all matching keys
@@ -563,7 +563,7 @@ func replaceValueWithWildcard(node *core.YispNode, tokens []string, wildcardInde
 		if wildcardIndex == len(tokens)-1 {
 			// Iterate over all array elements and replace the value
 			for i := range arr {
-				arr[i] = value
+				arr[i] = value.Clone()
 			}
 		} else {
 			// Wildcard is in the middle, need to apply remaining path to all array elements
-- 
2.43.0


From d8abd447860f798465177f5dec8a0cedd896e637 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:00:32 +0000
Subject: [PATCH 29/99] fix: compare the values in maps.patch test operations

---
 lib/patch.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/patch.go b/lib/patch.go
index 334d685..6457aad 100644
--- a/lib/patch.go
+++ b/lib/patch.go
@@ -1029,11 +1029,9 @@ func applyPatches(target *core.YispNode, patchesArray []any) error {
 			if err != nil {
 				return core.NewEvaluationError(patchNode, fmt.Sprintf("test operation failed: %v", err))
 			}
-			// Compare values (simple comparison for now)
-			if value.Kind != expectedNode.Kind {
-				return core.NewEvaluationError(patchNode, fmt.Sprintf("test operation failed: kind mismatch"))
+			if !core.Equal(value, expectedNode) {
+				return core.NewEvaluationError(patchNode, "test operation failed: values differ")
 			}
-			// TODO: Deep comparison if needed
 
 		default:
 			return core.NewEvaluationError(patchNode, fmt.Sprintf("unknown operation: %s", op))
-- 
2.43.0


From 0ff8cc5f2687c0da7b939c808fb4733983e21024 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:00:52 +0000
Subject: [PATCH 30/99] fix: keep escaped double quotes at the ends of a quoted
 string

---
 lib/strings.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/strings.go b/lib/strings.go
index bee537e..0b32153 100644
--- a/lib/strings.go
+++ b/lib/strings.go
@@ -89,7 +89,7 @@ func opQuote(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Eng
 
 	node := cdr[0]
 	str := fmt.Sprintf("%q", value)
-	str = strings.Trim(str, "\"")
+	str = str[1 : len(str)-1] // without the surrounding double quotes
 	str = strings.Trim(str, "'")
 
 	return &core.YispNode{
-- 
2.43.0


From 57f291db92001462e3c8ed5e13593846a5aee3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:00:54 +0000
Subject: [PATCH 31/99] fix: read globbed files relative to the file that names
 them

---
 lib/files.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/files.go b/lib/files.go
index affeb18..4ec96e7 100644
--- a/lib/files.go
+++ b/lib/files.go
@@ -35,7 +35,7 @@ func opGlob(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engi
 
 		dirFs := os.DirFS(filepath.Dir(node.Attr.File()))
 
-		paths, err := doublestar.Glob(dirFs, entry)
+		paths, err := doublestar.Glob(dirFs, entry, doublestar.WithFilesOnly())
 		if err != nil {
 			return nil, core.NewEvaluationError(node, fmt.Sprintf("failed to glob path: %s", entry))
 		}
@@ -49,7 +49,7 @@ func opGlob(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engi
 			}
 
 			filename := filepath.Base(path)
-			body, err := os.ReadFile(path)
+			body, err := os.ReadFile(includedFile)
 			if err != nil {
 				return nil, core.NewEvaluationError(node, fmt.Sprintf("failed to read file: %s", path))
 			}
@@ -74,7 +74,7 @@ func opGlob(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engi
 				Attr: core.Attribute{
 					Sources: []core.FilePos{
 						{
-							File:   path,
+							File:   includedFile,
 							Line:   node.Attr.Line(),
 							Column: node.Attr.Column(),
 						},
-- 
2.43.0


From e525462752139c674d811eccafb6eb11f8f789c4 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:01:57 +0000
Subject: [PATCH 32/99] fix: resolve local paths as file names

Paths with spaces, #, ? or % were cut or escaped as if they were URLs,
files named by a program read from stdin were looked up in the parent
directory, and what was left of such a program could answer a prompt.
---
 core/util.go | 77 ++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 59 insertions(+), 18 deletions(-)

diff --git a/core/util.go b/core/util.go
index 082e2d0..8f5f865 100644
--- a/core/util.go
+++ b/core/util.go
@@ -2,6 +2,7 @@ package core
 
 import (
 	"bufio"
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"io"
@@ -363,6 +364,38 @@ func RenderCode(file string, line, after, before int, comments []Comment) (strin
 	return result, nil
 }
 
+func isRemote(path string) bool {
+	return strings.HasPrefix(path, "http://") || strings.HasPrefix(path, "https://")
+}
+
+// resolvePath resolves the path of a file or a URL that is named in the file base
+func resolvePath(path, base string) (string, error) {
+	if !isRemote(path) && !isRemote(base) {
+		if local, ok := strings.CutPrefix(path, "file://"); ok {
+			return local, nil
+		}
+		if base == "" || filepath.IsAbs(path) {
+			return path, nil
+		}
+		return filepath.Join(filepath.Dir(base), path), nil
+	}
+
+	targetURL, err := url.Parse(path)
+	if err != nil {
+		return "", fmt.Errorf("failed to parse URL: %v", err)
+	}
+
+	if isRemote(base) {
+		baseURL, err := url.Parse(base)
+		if err != nil {
+			return "", fmt.Errorf("failed to parse base URL: %v", err)
+		}
+		targetURL = baseURL.ResolveReference(targetURL)
+	}
+
+	return targetURL.String(), nil
+}
+
 func CallEngineByPath(path, base string, env *Env, e Engine) (*YispNode, error) {
 
 	var reader io.Reader
@@ -371,48 +404,56 @@ func CallEngineByPath(path, base string, env *Env, e Engine) (*YispNode, error)
 	source := ""
 
 	if path == "-" {
-		var err error
-		reader = os.Stdin
-		source, err = os.Getwd()
+		cwd, err := os.Getwd()
 		if err != nil {
 			return nil, fmt.Errorf("failed to get current working directory: %v", err)
 		}
+		source = filepath.Join(cwd, "<stdin>")
+
+		// read the whole program first, so that what is left of it cannot answer a prompt
+		program, err := io.ReadAll(os.Stdin)
+		if err != nil {
+			return nil, fmt.Errorf("failed to read stdin: %v", err)
+		}
+		reader = bytes.NewReader(program)
 	} else {
-		targetURL, err := url.Parse(path)
+		var err error
+		source, err = resolvePath(path, base)
 		if err != nil {
-			return nil, fmt.Errorf("failed to parse URL: %v", err)
+			return nil, err
 		}
 
-		if base != "" {
-			baseURL, err := url.Parse(base)
+		if isRemote(source) {
+			body, err := fetchRemote(source)
 			if err != nil {
-				return nil, fmt.Errorf("failed to parse base URL: %v", err)
+				return nil, fmt.Errorf("failed to fetch remote file: %v", err)
 			}
-			targetURL = baseURL.ResolveReference(targetURL)
-		}
+			defer body.Close()
+			reader = body
 
-		if targetURL.Scheme == "http" || targetURL.Scheme == "https" {
-			reader, err = fetchRemote(targetURL.String())
+			sourceURL, err := url.Parse(source)
 			if err != nil {
-				return nil, fmt.Errorf("failed to fetch remote file: %v", err)
+				return nil, fmt.Errorf("failed to parse URL: %v", err)
 			}
+			extension = filepath.Ext(sourceURL.Path)
 		} else {
 
-			stat, err := os.Stat(targetURL.Path)
+			stat, err := os.Stat(source)
 			if err != nil {
 				return nil, fmt.Errorf("failed to stat file: %v", err)
 			}
 
 			if stat.IsDir() {
-				targetURL = &url.URL{Path: filepath.Join(targetURL.Path, "index.yisp")}
+				source = filepath.Join(source, "index.yisp")
 			}
-			reader, err = os.Open(targetURL.Path)
+			file, err := os.Open(source)
 			if err != nil {
 				return nil, fmt.Errorf("failed to open file: %v", err)
 			}
+			defer file.Close()
+			reader = file
+			extension = filepath.Ext(source)
 		}
-		extension = filepath.Ext(targetURL.Path)
-		source = targetURL.String()
 	}
 
 	switch extension {
-- 
2.43.0


From 25c3909c05181a0acdf71404e7dc1e952eb7b10a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:02:27 +0000
Subject: [PATCH 33/99] fix: report command failures on stderr and in the exit
 code

---
 cmd/build.go | 31 +++++++++++++++----------------
 cmd/krm.go   | 18 +++++++++---------
 2 files changed, 24 insertions(+), 25 deletions(-)

diff --git a/cmd/build.go b/cmd/build.go
index ba80db5..60d5c89 100644
--- a/cmd/build.go
+++ b/cmd/build.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"github.com/spf13/cobra"
 	"github.com/spf13/viper"
+	"os"
 	"path/filepath"
 	"strings"
 
@@ -56,8 +57,7 @@ var buildCmd = &cobra.Command{
 		if yamlFile != "-" && !strings.HasPrefix(yamlFile, "http://") && !strings.HasPrefix(yamlFile, "https://") {
 			yamlFile, err = filepath.Abs(yamlFile)
 			if err != nil {
-				fmt.Println("Error:", err)
-				return
+				fail("Error:", err)
 			}
 		}
 
@@ -65,48 +65,47 @@ var buildCmd = &cobra.Command{
 		case "yaml":
 			result, err := e.EvaluateFileToYaml(yamlFile)
 			if err != nil {
-				fmt.Println("Error:", err)
-				return
+				fail("Error:", err)
 			}
 
 			fmt.Println(result)
 		case "json":
 			resultAny, err := e.EvaluateFileToAny(yamlFile)
 			if err != nil {
-				fmt.Println("Error:", err)
-				return
+				fail("Error:", err)
 			}
 
 			resultArr, ok := resultAny.([]any)
 			if !ok {
-				fmt.Println("Error: Result is not an array")
-				return
+				fail("Error: Result is not an array")
 			}
 
 			if len(resultArr) == 0 {
-				fmt.Println("Error: Result is empty")
-				return
+				fail("Error: Result is empty")
 			}
 
 			if len(resultArr) > 1 {
-				fmt.Printf("Error: Json output only supports a single document, but got %v objects\n", len(resultArr))
-				return
+				fail(fmt.Sprintf("Error: Json output only supports a single document, but got %v objects", len(resultArr)))
 			}
 
 			jsonResult, err := json.MarshalIndent(resultArr[0], "", "  ")
 			if err != nil {
-				fmt.Println("Error:", err)
-				return
+				fail("Error:", err)
 			}
 
 			fmt.Println(string(jsonResult))
 		default:
-			fmt.Println("Error: Unsupported output format. Use 'yaml' or 'json'.")
-			return
+			fail("Error: Unsupported output format. Use 'yaml' or 'json'.")
 		}
 	},
 }
 
+// fail reports an error apart from the output and ends the command
+func fail(message ...any) {
+	fmt.Fprintln(os.Stderr, message...)
+	os.Exit(1)
+}
+
 func init() {
 	rootCmd.AddCommand(buildCmd)
 	buildCmd.Flags().BoolP("allow-cmd", "", false, "Allow command execution")
diff --git a/cmd/krm.go b/cmd/krm.go
index 1a19199..75e89d5 100644
--- a/cmd/krm.go
+++ b/cmd/krm.go
@@ -44,13 +44,13 @@ var krmCmd = &cobra.Command{
 
 		inputStr, err := io.ReadAll(os.Stdin)
 		if err != nil {
-			panic(err)
+			fail("Error:", err)
 		}
 
 		var krmInput KRMInput
 		err = yaml.Unmarshal(inputStr, &krmInput)
 		if err != nil {
-			panic(err)
+			fail("Error:", err)
 		}
 
 		e := engine.NewEngine(engine.Options{
@@ -64,12 +64,13 @@ var krmCmd = &cobra.Command{
 
 		wd, err := os.Getwd()
 		if err != nil {
-			panic(err)
+			fail("Error:", err)
 		}
 
 		var items []any
 		for _, item := range krmInput.Items {
-			apiVersion, ok := item.(map[string]any)["apiVersion"]
+			manifest, _ := item.(map[string]any)
+			apiVersion, ok := manifest["apiVersion"]
 			if ok && apiVersion == "krm.yisp.gammalab.net/v1" {
 				continue
 			}
@@ -78,7 +79,7 @@ var krmCmd = &cobra.Command{
 
 		itemNodes, err := core.ParseAny(filepath.Join(wd, "items.krm.yaml"), items)
 		if err != nil {
-			panic(err)
+			fail("Error:", err)
 		}
 		itemNodes.IsDocumentRoot = true
 
@@ -94,14 +95,13 @@ var krmCmd = &cobra.Command{
 			if target != "-" && !strings.HasPrefix(target, "http://") && !strings.HasPrefix(target, "https://") {
 				target, err = filepath.Abs(target)
 				if err != nil {
-					fmt.Println("Error:", err)
-					return
+					fail("Error:", err)
 				}
 			}
 
 			result, err := e.EvaluateFileToYamlWithEnv(target, env)
 			if err != nil {
-				panic(err)
+				fail("Error:", err)
 			}
 
 			fmt.Println(result)
@@ -114,7 +114,7 @@ var krmCmd = &cobra.Command{
 
 			result, err := e.EvaluateReaderToYamlWithEnv(scriptReader, env, tmp)
 			if err != nil {
-				panic(err)
+				fail("Error:", err)
 			}
 
 			fmt.Println(result)
-- 
2.43.0


From 79bbe35079cfb5d3f7634ecd0aea6cbfb5698216 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:02:27 +0000
Subject: [PATCH 34/99] fix: report schemas that could not be cached and close
 their files

---
 cmd/cachekubeschemas.go | 28 ++++++----------------------
 1 file changed, 6 insertions(+), 22 deletions(-)

diff --git a/cmd/cachekubeschemas.go b/cmd/cachekubeschemas.go
index df903a7..6a8245a 100644
--- a/cmd/cachekubeschemas.go
+++ b/cmd/cachekubeschemas.go
@@ -103,19 +103,12 @@ func saveSchemas(openapi open) error {
 
 		schemaPath := filepath.Join(schemasPath, fmt.Sprintf("%s.json", key))
 
-		file, err := os.Create(schemaPath)
+		content, err := json.MarshalIndent(def, "", "  ")
 		if err != nil {
-			fmt.Println("Error creating file:", err)
-			continue
+			return fmt.Errorf("failed to encode schema %s: %v", key, err)
 		}
-		defer file.Close()
-
-		encoder := json.NewEncoder(file)
-		encoder.SetIndent("", "  ")
-		err = encoder.Encode(def)
-		if err != nil {
-			fmt.Println("Error encoding JSON to file:", err)
-			continue
+		if err := os.WriteFile(schemaPath, content, 0644); err != nil {
+			return err
 		}
 		fmt.Printf("Created file: %s\n", schemaPath)
 
@@ -156,17 +149,8 @@ func saveSchemas(openapi open) error {
 
 			gvkPath := filepath.Join(gvkPath, fmt.Sprintf("%s_%s_%s.txt", group, version, kind))
 
-			file, err = os.Create(gvkPath)
-			if err != nil {
-				fmt.Println("Error creating file:", err)
-				continue
-			}
-
-			//write key
-			_, err = file.WriteString(key)
-			if err != nil {
-				fmt.Println("Error writing to file:", err)
-				continue
+			if err := os.WriteFile(gvkPath, []byte(key), 0644); err != nil {
+				return err
 			}
 			fmt.Printf("Created GVK file: %s\n", gvkPath)
 
-- 
2.43.0


From 468590797ba03d562775534b978095196d4fbf36 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:02:29 +0000
Subject: [PATCH 35/99] fix: look up schemas in the directory given by
 --cache-dir

---
 cmd/root.go    |  4 ++++
 core/schema.go | 25 ++++++++++++++++++-------
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/cmd/root.go b/cmd/root.go
index 6c8d24f..478a26d 100644
--- a/cmd/root.go
+++ b/cmd/root.go
@@ -6,6 +6,8 @@ import (
 
 	"github.com/spf13/cobra"
 	"github.com/spf13/viper"
+
+	"github.com/totegamma/yisp/core"
 )
 
 var rootCmd = &cobra.Command{
@@ -28,6 +30,8 @@ func init() {
 
 func initConfig() {
 
+	core.CacheDir, _ = rootCmd.PersistentFlags().GetString("cache-dir")
+
 	configPath, _ := rootCmd.PersistentFlags().GetString("config")
 
 	if configPath == "" {
diff --git a/core/schema.go b/core/schema.go
index 7bd7855..505cf19 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -173,14 +173,28 @@ func (s *Schema) ToYispNode() (*YispNode, error) {
 	return ParseAny("", anyValue)
 }
 
+// CacheDir is the directory that holds cached schemas. When empty, $HOME/.cache/yisp is used.
+var CacheDir string
+
+func cachePath(elem ...string) (string, error) {
+	dir := CacheDir
+	if dir == "" {
+		home, err := os.UserHomeDir()
+		if err != nil {
+			return "", err
+		}
+		dir = filepath.Join(home, ".cache", "yisp")
+	}
+	return filepath.Join(append([]string{dir}, elem...)...), nil
+}
+
 func LoadSchemaFromURL(url string) (*Schema, error) {
 
 	cachekey := base64.StdEncoding.EncodeToString([]byte(url))
-	home, err := os.UserHomeDir()
+	schemasPath, err := cachePath("schemas", cachekey+".json")
 	if err != nil {
 		return nil, err
 	}
-	schemasPath := filepath.Join(home, ".cache", "yisp", "schemas", cachekey+".json")
 	file, err := os.Open(schemasPath)
 	if err == nil {
 		defer file.Close()
@@ -234,11 +248,10 @@ func LoadSchemaFromID(id string) (*Schema, error) {
 		id = split[len(split)-1]
 	}
 
-	home, err := os.UserHomeDir()
+	schemasPath, err := cachePath("schemas", id+".json")
 	if err != nil {
 		return nil, err
 	}
-	schemasPath := filepath.Join(home, ".cache", "yisp", "schemas", id+".json")
 	file, err := os.Open(schemasPath)
 	if err != nil {
 		return nil, err
@@ -250,12 +263,10 @@ func LoadSchemaFromID(id string) (*Schema, error) {
 
 func LoadSchemaFromGVK(group, version, kind string) (*Schema, error) {
 
-	home, err := os.UserHomeDir()
+	gvkPath, err := cachePath("gvk", fmt.Sprintf("%s_%s_%s.txt", group, version, kind))
 	if err != nil {
 		return nil, err
 	}
-
-	gvkPath := filepath.Join(home, ".cache", "yisp", "gvk", fmt.Sprintf("%s_%s_%s.txt", group, version, kind))
 	file, err := os.Open(gvkPath)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 665bbd00eb3b952b2f71872e3afd3e29810ca822 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:02:54 +0000
Subject: [PATCH 36/99] fix: never leave a partly written schema in the cache

---
 core/schema.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/core/schema.go b/core/schema.go
index 505cf19..ef1870f 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -188,6 +188,27 @@ func cachePath(elem ...string) (string, error) {
 	return filepath.Join(append([]string{dir}, elem...)...), nil
 }
 
+// writeFileAtomic writes a file so that readers see either all of it or none of it
+func writeFileAtomic(path string, content []byte) error {
+	file, err := os.CreateTemp(filepath.Dir(path), ".tmp-*")
+	if err != nil {
+		return err
+	}
+	defer os.Remove(file.Name())
+
+	_, err = file.Write(content)
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
+	if err == nil {
+		err = os.Chmod(file.Name(), 0644)
+	}
+	if err != nil {
+		return err
+	}
+	return os.Rename(file.Name(), path)
+}
+
 func LoadSchemaFromURL(url string) (*Schema, error) {
 
 	cachekey := base64.StdEncoding.EncodeToString([]byte(url))
@@ -225,14 +246,12 @@ func LoadSchemaFromURL(url string) (*Schema, error) {
 			return nil, err
 		}
 
-		file, err := os.Create(schemasPath)
+		content, err := json.Marshal(schema)
 		if err != nil {
 			return nil, err
 		}
-		defer file.Close()
 
-		encoder := json.NewEncoder(file)
-		err = encoder.Encode(schema)
+		err = writeFileAtomic(schemasPath, content)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From da009e69c0fc591ee953f31d3916e6df69e13484 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:02:55 +0000
Subject: [PATCH 37/99] fix: cache schemas whose encoded URL contains a slash

---
 core/schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/schema.go b/core/schema.go
index ef1870f..1a046eb 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -211,7 +211,7 @@ func writeFileAtomic(path string, content []byte) error {
 
 func LoadSchemaFromURL(url string) (*Schema, error) {
 
-	cachekey := base64.StdEncoding.EncodeToString([]byte(url))
+	cachekey := base64.URLEncoding.EncodeToString([]byte(url))
 	schemasPath, err := cachePath("schemas", cachekey+".json")
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 26286dc174bac3fdd334ee3fa44261d4d05f4dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:04:18 +0000
Subject: [PATCH 38/99] fix: report lists.iota lengths that no list can have
 instead of crashing

---
 lib/lists.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/lists.go b/lib/lists.go
index b9aa1b9..ba32002 100644
--- a/lib/lists.go
+++ b/lib/lists.go
@@ -2,6 +2,7 @@ package lib
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/totegamma/yisp/core"
 )
@@ -339,6 +340,10 @@ func opIota(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engi
 		return nil, core.NewEvaluationError(nNode, "iota requires a non-negative integer")
 	}
 
+	if n > math.MaxInt32 {
+		return nil, core.NewEvaluationError(nNode, fmt.Sprintf("iota: %d items are too many for a list", n))
+	}
+
 	start := 0
 	if len(cdr) >= 2 {
 		startNode := cdr[1]
-- 
2.43.0


From a4bcd8b73e3d3ccb319975610f7c1a19d8100345 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:20:02 +0000
Subject: [PATCH 39/99] fix: output nothing when there are no documents to
 output

---
 engine/render.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/engine/render.go b/engine/render.go
index 069cd8f..b32db8c 100644
--- a/engine/render.go
+++ b/engine/render.go
@@ -250,6 +250,7 @@ func (e *engine) Render(node *core.YispNode) (string, error) {
 		buf := bytes.Buffer{}
 		enc := yaml.NewEncoder(&buf)
 		enc.SetIndent(2)
+		encoded := false
 		for _, item := range arr {
 			node, ok := item.(*core.YispNode)
 			if !ok {
@@ -267,6 +268,10 @@ func (e *engine) Render(node *core.YispNode) (string, error) {
 			if err := enc.Encode(rendered); err != nil {
 				return "", err
 			}
+			encoded = true
+		}
+		if !encoded { // there is no stream to close
+			return "", nil
 		}
 		if err := enc.Close(); err != nil {
 			return "", err
-- 
2.43.0


From ac9e6074356f6e5b3745eac9bf8d947eef1d4cec Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:27:28 +0000
Subject: [PATCH 40/99] fix: take a quoted << for the ordinary key it is

---
 engine/parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/parse.go b/engine/parse.go
index cd948e7..7ce617c 100644
--- a/engine/parse.go
+++ b/engine/parse.go
@@ -68,7 +68,7 @@ func Parse(filename string, node *yaml.Node) (*core.YispNode, error) {
 			valueNode := node.Content[i+1]
 
 			key := keyNode.Value
-			if key == "<<" {
+			if key == "<<" && keyNode.ShortTag() == "!!merge" { // a quoted << is an ordinary key
 				key = core.YISP_SPECIAL_MERGE_KEY + xid.New().String()
 			}
 
-- 
2.43.0


From 2f2764b89ffc2acaf02b7f3556c977ff142dc376 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:27:28 +0000
Subject: [PATCH 41/99] fix: give aliased values the key and comments of their
 own place

---
 engine/eval.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/engine/eval.go b/engine/eval.go
index f01a14e..382c93b 100644
--- a/engine/eval.go
+++ b/engine/eval.go
@@ -14,6 +14,25 @@ func decodeScalar(tag, value string, out any) error {
 	return node.Decode(out)
 }
 
+// placed returns a value as it appears in the place of the given node, with
+// the key and the comments that are written there.
+func placed(value, place *core.YispNode) *core.YispNode {
+	attr := value.Attr
+	attr.KeyTag = place.Attr.KeyTag
+	attr.KeyStyle = place.Attr.KeyStyle
+	attr.KeyHeadComment = place.Attr.KeyHeadComment
+	attr.KeyLineComment = place.Attr.KeyLineComment
+	attr.KeyFootComment = place.Attr.KeyFootComment
+	if place.Kind == core.KindSymbol {
+		attr.HeadComment = place.Attr.HeadComment
+		attr.LineComment = place.Attr.LineComment
+		attr.FootComment = place.Attr.FootComment
+	}
+	copied := *value
+	copied.Attr = attr
+	return &copied
+}
+
 // Eval evaluates a core.YispNode in the given environment
 func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*core.YispNode, error) {
 
@@ -342,7 +361,7 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 				if err != nil {
 					return nil, core.NewEvaluationErrorWithParent(node, "failed to evaluate item", err)
 				}
-				results[i] = result
+				results[i] = placed(result, node)
 			}
 			result = &core.YispNode{
 				Kind:  core.KindArray,
@@ -416,7 +435,7 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 					return nil, core.NewEvaluationError(node, fmt.Sprintf("invalid merge item type: %T", val))
 				}
 			} else {
-				results.Set(key, val)
+				results.Set(key, placed(val, node))
 			}
 		}
 
-- 
2.43.0


From 2ed4c2732fbb3b02eeee161cffac55924ba46f08 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:27:28 +0000
Subject: [PATCH 42/99] fix: write strings and comments so that the output
 reads back

---
 engine/render.go | 87 ++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 84 insertions(+), 3 deletions(-)

diff --git a/engine/render.go b/engine/render.go
index b32db8c..75c9551 100644
--- a/engine/render.go
+++ b/engine/render.go
@@ -2,7 +2,10 @@ package engine
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
+	"strconv"
+	"strings"
 
 	"github.com/totegamma/yisp/core"
 	"github.com/totegamma/yisp/internal/yaml"
@@ -32,6 +35,49 @@ func (e *engine) getKeyLineComment(node *core.YispNode) string {
 	return lineComment
 }
 
+// placeComments moves comments to places where the YAML writer puts them on
+// the node they belong to.
+func (e *engine) placeComments(node *yaml.Node, isMapValue, inFlow bool) {
+	inFlow = inFlow || node.Style&yaml.FlowStyle != 0
+
+	// The line comment of a block collection is written after the whole
+	// collection, which is on whatever comes next.
+	isBlock := !inFlow && len(node.Content) > 0
+	if isBlock && !isMapValue && node.LineComment != "" {
+		if node.HeadComment != "" {
+			node.HeadComment += "\n"
+		}
+		node.HeadComment += node.LineComment
+		node.LineComment = ""
+	}
+
+	// The line comment of a block scalar has to fit on the line of its header.
+	if node.Kind == yaml.ScalarNode && node.Style&(yaml.LiteralStyle|yaml.FoldedStyle) != 0 {
+		node.LineComment = strings.ReplaceAll(node.LineComment, "\n", " ")
+	}
+
+	for i, item := range node.Content {
+		isMapValue := node.Kind == yaml.MappingNode && i%2 == 1
+		e.placeComments(item, isMapValue, inFlow)
+		if !isMapValue || item.Kind == yaml.ScalarNode {
+			continue
+		}
+		key := node.Content[i-1]
+		if inFlow || item.Style&yaml.FlowStyle != 0 || len(item.Content) == 0 {
+			// a comment between a key and a flow collection breaks the collection
+			if item.LineComment == "" {
+				item.LineComment = key.LineComment
+			}
+			key.LineComment = ""
+		} else {
+			if key.LineComment == "" {
+				key.LineComment = item.LineComment
+			}
+			item.LineComment = ""
+		}
+	}
+}
+
 // keyTag returns the tag to render a map key with. Keys are strings unless
 // the key was written as another type and still reads as that type.
 func keyTag(key, sourceTag string) string {
@@ -42,6 +88,36 @@ func keyTag(key, sourceTag string) string {
 	return "!!str"
 }
 
+// stringStyle returns the style to write a string in. Strings that would not
+// read back as themselves in the requested style are quoted.
+func stringStyle(value string, style yaml.Style) yaml.Style {
+	if style&(yaml.SingleQuotedStyle|yaml.DoubleQuotedStyle) != 0 {
+		return style
+	}
+	if value == "<<" {
+		return yaml.DoubleQuotedStyle // or it would be a merge key
+	}
+	if style&(yaml.LiteralStyle|yaml.FoldedStyle) == 0 && strings.Contains(value, "\n") {
+		style |= yaml.LiteralStyle
+	}
+	isBlock := style&(yaml.LiteralStyle|yaml.FoldedStyle) != 0
+	if isBlock && strings.ContainsAny(value, "\u2028\u2029") {
+		return yaml.DoubleQuotedStyle // not every reader takes these for the same line breaks
+	}
+	if isBlock && (strings.HasPrefix(value, "\n") || strings.HasPrefix(value, "\t")) {
+		return yaml.DoubleQuotedStyle // block scalars lose or misread what comes first
+	}
+	if style&yaml.FoldedStyle != 0 && (strings.HasSuffix(value, "\n\n") || strings.Contains(value, "\n ") || strings.Contains(value, "\n\t")) {
+		return style&^yaml.FoldedStyle | yaml.LiteralStyle // these line breaks are not folded, but written as if they were
+	}
+	_, intErr := strconv.ParseInt(value, 0, 64)
+	_, floatErr := strconv.ParseFloat(value, 64)
+	if errors.Is(intErr, strconv.ErrRange) || errors.Is(floatErr, strconv.ErrRange) {
+		return yaml.DoubleQuotedStyle // too large for a number here, but not for every reader
+	}
+	return style
+}
+
 // Render converts a YispNode to a yaml.Node
 func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 	switch node.Kind {
@@ -90,14 +166,15 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 		}, nil
 
 	case core.KindString:
+		value := fmt.Sprintf("%s", node.Value)
 		return &yaml.Node{
 			Kind:        yaml.ScalarNode,
-			Value:       fmt.Sprintf("%s", node.Value),
+			Value:       value,
 			Tag:         "!!str",
 			HeadComment: node.Attr.HeadComment,
 			LineComment: e.getLineComment(node),
 			FootComment: node.Attr.FootComment,
-			Style:       node.Attr.Style,
+			Style:       stringStyle(value, node.Attr.Style),
 		}, nil
 
 	case core.KindArray:
@@ -155,7 +232,7 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 				HeadComment: node.Attr.KeyHeadComment,
 				LineComment: e.getKeyLineComment(node),
 				FootComment: node.Attr.KeyFootComment,
-				Style:       node.Attr.KeyStyle,
+				Style:       stringStyle(key, node.Attr.KeyStyle),
 			})
 
 			results = append(results, content)
@@ -264,6 +341,7 @@ func (e *engine) Render(node *core.YispNode) (string, error) {
 			if rendered == nil {
 				continue
 			}
+			e.placeComments(rendered, false, false)
 
 			if err := enc.Encode(rendered); err != nil {
 				return "", err
@@ -283,6 +361,9 @@ func (e *engine) Render(node *core.YispNode) (string, error) {
 		if err != nil {
 			return "", err
 		}
+		if rendered != nil {
+			e.placeComments(rendered, false, false)
+		}
 		b, err := yaml.Marshal(rendered)
 		if err != nil {
 			return "", err
-- 
2.43.0


From f04a2a3c084c4d1a5bca4b8199e86ea14705e51e Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:33:17 +0000
Subject: [PATCH 43/99] fix: keep comments out of block scalars and of
 following entries

---
 engine/render.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/engine/render.go b/engine/render.go
index 75c9551..96e567d 100644
--- a/engine/render.go
+++ b/engine/render.go
@@ -51,14 +51,26 @@ func (e *engine) placeComments(node *yaml.Node, isMapValue, inFlow bool) {
 		node.LineComment = ""
 	}
 
-	// The line comment of a block scalar has to fit on the line of its header.
-	if node.Kind == yaml.ScalarNode && node.Style&(yaml.LiteralStyle|yaml.FoldedStyle) != 0 {
-		node.LineComment = strings.ReplaceAll(node.LineComment, "\n", " ")
+	// The foot comment of a sequence is written into the next entry.
+	if isBlock && node.Kind == yaml.SequenceNode && node.FootComment != "" {
+		last := node.Content[len(node.Content)-1]
+		if last.FootComment != "" {
+			last.FootComment += "\n\n"
+		}
+		last.FootComment += node.FootComment
+		node.FootComment = ""
 	}
 
 	for i, item := range node.Content {
 		isMapValue := node.Kind == yaml.MappingNode && i%2 == 1
 		e.placeComments(item, isMapValue, inFlow)
+		if item.Kind == yaml.ScalarNode && item.Style&(yaml.LiteralStyle|yaml.FoldedStyle) != 0 {
+			// comments have to fit on the line before the text
+			item.LineComment = strings.ReplaceAll(item.LineComment, "\n", " ")
+			if isMapValue {
+				node.Content[i-1].LineComment = strings.ReplaceAll(node.Content[i-1].LineComment, "\n", " ")
+			}
+		}
 		if !isMapValue || item.Kind == yaml.ScalarNode {
 			continue
 		}
-- 
2.43.0


From b3aed1138ee4c96de21ba8a0d88691601ed1e8fa Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:34:08 +0000
Subject: [PATCH 44/99] fix: call functions named like a special form

---
 engine/eval.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/engine/eval.go b/engine/eval.go
index 382c93b..d1ab636 100644
--- a/engine/eval.go
+++ b/engine/eval.go
@@ -173,9 +173,9 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 			}
 
 			// check special forms
-			op, ok := nodes[0].Value.(string)
-			if !ok {
-				op = ""
+			op := ""
+			if nodes[0].Kind == core.KindString {
+				op, _ = nodes[0].Value.(string)
 			}
 			switch op {
 			case "if":
-- 
2.43.0


From 0386479af780d30cd1ae25f4738007b74fbd1ede Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:39:00 +0000
Subject: [PATCH 45/99] fix: compare integers with floats exactly

---
 core/util.go   | 52 +++++++++++++++++++++++++++++++++++++++++---------
 engine/util.go | 27 +++++++-------------------
 2 files changed, 50 insertions(+), 29 deletions(-)

diff --git a/core/util.go b/core/util.go
index 8f5f865..c3e33e3 100644
--- a/core/util.go
+++ b/core/util.go
@@ -3,6 +3,7 @@ package core
 import (
 	"bufio"
 	"bytes"
+	"cmp"
 	"encoding/json"
 	"fmt"
 	"io"
@@ -45,26 +46,59 @@ func FormatFloat(v any) string {
 	return text
 }
 
-// Equal reports whether two nodes hold the same value.
-// Numbers compare by value, arrays element by element and maps key by key in any order.
-func Equal(a, b *YispNode) bool {
+// CompareNumbers compares two numbers exactly. It reports false when they have
+// no order, because one of them is not a number.
+func CompareNumbers(a, b *YispNode) (int, bool) {
 	switch v1 := a.Value.(type) {
 	case int:
 		switch v2 := b.Value.(type) {
 		case int:
-			return v1 == v2
+			return cmp.Compare(v1, v2), true
 		case float64:
-			return float64(v1) == v2
+			if math.IsNaN(v2) {
+				return 0, false
+			}
+			return compareIntFloat(v1, v2), true
 		}
-		return false
 	case float64:
 		switch v2 := b.Value.(type) {
 		case int:
-			return v1 == float64(v2)
+			if math.IsNaN(v1) {
+				return 0, false
+			}
+			return -compareIntFloat(v2, v1), true
 		case float64:
-			return v1 == v2
+			if math.IsNaN(v1) || math.IsNaN(v2) {
+				return 0, false
+			}
+			return cmp.Compare(v1, v2), true
 		}
-		return false
+	}
+	return 0, false
+}
+
+// compareIntFloat compares without rounding the integer to a float
+func compareIntFloat(i int, f float64) int {
+	if f >= 1<<63 {
+		return -1
+	}
+	if f < -1<<63 {
+		return 1
+	}
+	whole, fraction := math.Modf(f)
+	if order := cmp.Compare(i, int(whole)); order != 0 {
+		return order
+	}
+	return cmp.Compare(0, fraction)
+}
+
+// Equal reports whether two nodes hold the same value.
+// Numbers compare by value, arrays element by element and maps key by key in any order.
+func Equal(a, b *YispNode) bool {
+	switch v1 := a.Value.(type) {
+	case int, float64:
+		order, ok := CompareNumbers(a, b)
+		return ok && order == 0
 	case []any:
 		v2, ok := b.Value.([]any)
 		if !ok || len(v1) != len(v2) {
diff --git a/engine/util.go b/engine/util.go
index b96458b..40dc5b6 100644
--- a/engine/util.go
+++ b/engine/util.go
@@ -1,7 +1,6 @@
 package engine
 
 import (
-	gocmp "cmp"
 	"encoding/json"
 	"fmt"
 
@@ -76,37 +75,25 @@ func compareNumbers(cdr []*core.YispNode, opName string, cmp func(float64, float
 	}
 
 	firstNode := cdr[0]
-	var firstNum float64
-	switch v := firstNode.Value.(type) {
-	case int:
-		firstNum = float64(v)
-	case float64:
-		firstNum = v
+	switch firstNode.Value.(type) {
+	case int, float64:
 	default:
 		return nil, core.NewEvaluationError(firstNode, fmt.Sprintf("invalid first argument type for %s: %T (value: %v)", opName, firstNode.Value, firstNode.Value))
 	}
 
 	secondNode := cdr[1]
-	var secondNum float64
-	switch v := secondNode.Value.(type) {
-	case int:
-		secondNum = float64(v)
-	case float64:
-		secondNum = v
+	switch secondNode.Value.(type) {
+	case int, float64:
 	default:
 		return nil, core.NewEvaluationError(secondNode, fmt.Sprintf("invalid second argument type for %s: %T (value: %v)", opName, secondNode.Value, secondNode.Value))
 	}
 
-	firstInt, firstIsInt := firstNode.Value.(int)
-	secondInt, secondIsInt := secondNode.Value.(int)
-	if firstIsInt && secondIsInt {
-		// float64 cannot tell large integers apart, so compare their order instead
-		firstNum, secondNum = float64(gocmp.Compare(firstInt, secondInt)), 0
-	}
+	// float64 cannot tell large integers apart, so compare the order of the numbers instead
+	order, ok := core.CompareNumbers(firstNode, secondNode)
 
 	return &core.YispNode{
 		Kind:  core.KindBool,
-		Value: cmp(firstNum, secondNum),
+		Value: ok && cmp(float64(order), 0),
 	}, nil
 }
 
-- 
2.43.0


From ab3194f62363a74cb0d3d17f2c976728cf5245c2 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:39:17 +0000
Subject: [PATCH 46/99] fix: format collections by their content instead of
 their address

---
 lib/strings.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/strings.go b/lib/strings.go
index 0b32153..6011d7e 100644
--- a/lib/strings.go
+++ b/lib/strings.go
@@ -84,7 +84,11 @@ func opQuote(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Eng
 			value = "false"
 		}
 	default:
-		value = fmt.Sprintf("%v", cdr[0].Value)
+		native, err := cdr[0].ToNative()
+		if err != nil {
+			return nil, core.NewEvaluationErrorWithParent(cdr[0], "failed to convert argument", err)
+		}
+		value = fmt.Sprintf("%v", native)
 	}
 
 	node := cdr[0]
@@ -114,7 +118,11 @@ func opFormat(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.En
 
 	args := make([]any, len(argsNode))
 	for i, arg := range argsNode {
-		args[i] = arg.Value
+		native, err := arg.ToNative()
+		if err != nil {
+			return nil, core.NewEvaluationErrorWithParent(arg, "failed to convert argument", err)
+		}
+		args[i] = native
 	}
 
 	return &core.YispNode{
-- 
2.43.0


From 3b33f186c87227cba1c4cef4257cff63cb9ca7bb Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:39:18 +0000
Subject: [PATCH 47/99] fix: filter documents into documents and lists into
 lists

---
 lib/lists.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/lib/lists.go b/lib/lists.go
index ba32002..0ffb420 100644
--- a/lib/lists.go
+++ b/lib/lists.go
@@ -151,7 +151,6 @@ func opFilter(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.En
 
 	arrNode := cdr[0]
 	fnNode := cdr[1]
-	isDocumentRoot := true
 	filtered := make([]any, 0)
 
 	if arrNode.Kind != core.KindArray {
@@ -168,9 +167,6 @@ func opFilter(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.En
 		if !ok {
 			return nil, core.NewEvaluationError(arrNode, fmt.Sprintf("invalid item type: %T", item))
 		}
-		if !itemNode.IsDocumentRoot {
-			isDocumentRoot = false
-		}
 		args := []*core.YispNode{itemNode}
 		rawResult, err := e.Apply(fnNode, args, env, mode)
 		if err != nil {
@@ -190,14 +186,14 @@ func opFilter(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.En
 	return &core.YispNode{
 		Kind:           core.KindArray,
 		Value:          filtered,
-		IsDocumentRoot: isDocumentRoot,
+		IsDocumentRoot: arrNode.IsDocumentRoot,
 	}, nil
 }
 
 func opFlatten(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (*core.YispNode, error) {
 
 	flattened := make([]any, 0)
-	isDocumentRoot := true
+	isDocumentRoot := len(cdr) > 0
 
 	for _, node := range cdr {
 		if !node.IsDocumentRoot {
-- 
2.43.0


From c47e0cd40bb664f09624705a540511f6a0581c3e Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:40:02 +0000
Subject: [PATCH 48/99] fix: report type errors the same way every time

---
 core/schema.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/schema.go b/core/schema.go
index 1a046eb..a8d967c 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -429,7 +429,10 @@ func (s *Schema) Validate(node *YispNode) error {
 		}
 
 		processed := make(map[string]bool)
-		for key, subSchema := range s.GetProperties() {
+		properties := s.GetProperties()
+		// go maps have no order, so use a fixed one to report the same error every time
+		for _, key := range slices.Sorted(maps.Keys(properties)) {
+			subSchema := properties[key]
 			item, ok := m.Get(key)
 			if !ok {
 				continue
@@ -650,11 +653,11 @@ func (s *Schema) Cast(node *YispNode) (*YispNode, error) {
 
 	err := s.InterpolateDefaults(node)
 	if err != nil {
-		return nil, fmt.Errorf("failed to cast %v to %v (%v)", node, s, err)
+		return nil, err
 	}
 	err = s.Validate(node)
 	if err != nil {
-		return nil, fmt.Errorf("failed to cast %v to %v (%v)", node, s, err)
+		return nil, err
 	}
 
 	node.Type = s
-- 
2.43.0


From f804d7428aed8bb512179ed170538594385fb166 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:47:24 +0000
Subject: [PATCH 49/99] fix: write computed numbers plainly even when made from
 quoted text

---
 engine/render.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/engine/render.go b/engine/render.go
index 96e567d..d2acb21 100644
--- a/engine/render.go
+++ b/engine/render.go
@@ -130,6 +130,15 @@ func stringStyle(value string, style yaml.Style) yaml.Style {
 	return style
 }
 
+// plainStyle returns the style to write a scalar other than a string in, which
+// would become a string in the style of one.
+func plainStyle(style yaml.Style) yaml.Style {
+	if style&yaml.TaggedStyle != 0 {
+		return style
+	}
+	return style &^ (yaml.SingleQuotedStyle | yaml.DoubleQuotedStyle | yaml.LiteralStyle | yaml.FoldedStyle)
+}
+
 // Render converts a YispNode to a yaml.Node
 func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 	switch node.Kind {
@@ -141,7 +150,7 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 			HeadComment: node.Attr.HeadComment,
 			LineComment: e.getLineComment(node),
 			FootComment: node.Attr.FootComment,
-			Style:       node.Attr.Style,
+			Style:       plainStyle(node.Attr.Style),
 		}, nil
 
 	case core.KindBool:
@@ -152,7 +161,7 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 			HeadComment: node.Attr.HeadComment,
 			LineComment: e.getLineComment(node),
 			FootComment: node.Attr.FootComment,
-			Style:       node.Attr.Style,
+			Style:       plainStyle(node.Attr.Style),
 		}, nil
 
 	case core.KindInt:
@@ -163,7 +172,7 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 			HeadComment: node.Attr.HeadComment,
 			LineComment: e.getLineComment(node),
 			FootComment: node.Attr.FootComment,
-			Style:       node.Attr.Style,
+			Style:       plainStyle(node.Attr.Style),
 		}, nil
 
 	case core.KindFloat:
@@ -174,7 +183,7 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 			HeadComment: node.Attr.HeadComment,
 			LineComment: e.getLineComment(node),
 			FootComment: node.Attr.FootComment,
-			Style:       node.Attr.Style,
+			Style:       plainStyle(node.Attr.Style),
 		}, nil
 
 	case core.KindString:
-- 
2.43.0


From 3159ac3b0b08807474da8b022fe3aeff42cd4d91 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:48:06 +0000
Subject: [PATCH 50/99] fix: keep the comments of a block scalar document out
 of its text

---
 engine/render.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/engine/render.go b/engine/render.go
index d2acb21..4126599 100644
--- a/engine/render.go
+++ b/engine/render.go
@@ -40,6 +40,11 @@ func (e *engine) getKeyLineComment(node *core.YispNode) string {
 func (e *engine) placeComments(node *yaml.Node, isMapValue, inFlow bool) {
 	inFlow = inFlow || node.Style&yaml.FlowStyle != 0
 
+	if node.Kind == yaml.ScalarNode && node.Style&(yaml.LiteralStyle|yaml.FoldedStyle) != 0 {
+		// comments have to fit on the line before the text
+		node.LineComment = strings.ReplaceAll(node.LineComment, "\n", " ")
+	}
+
 	// The line comment of a block collection is written after the whole
 	// collection, which is on whatever comes next.
 	isBlock := !inFlow && len(node.Content) > 0
@@ -64,12 +69,8 @@ func (e *engine) placeComments(node *yaml.Node, isMapValue, inFlow bool) {
 	for i, item := range node.Content {
 		isMapValue := node.Kind == yaml.MappingNode && i%2 == 1
 		e.placeComments(item, isMapValue, inFlow)
-		if item.Kind == yaml.ScalarNode && item.Style&(yaml.LiteralStyle|yaml.FoldedStyle) != 0 {
-			// comments have to fit on the line before the text
-			item.LineComment = strings.ReplaceAll(item.LineComment, "\n", " ")
-			if isMapValue {
-				node.Content[i-1].LineComment = strings.ReplaceAll(node.Content[i-1].LineComment, "\n", " ")
-			}
+		if isMapValue && item.Kind == yaml.ScalarNode && item.Style&(yaml.LiteralStyle|yaml.FoldedStyle) != 0 {
+			node.Content[i-1].LineComment = strings.ReplaceAll(node.Content[i-1].LineComment, "\n", " ")
 		}
 		if !isMapValue || item.Kind == yaml.ScalarNode {
 			continue
-- 
2.43.0


From 9eca7532222a0dd1e9d8097886707dec2ffb1ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:51:11 +0000
Subject: [PATCH 51/99] fix: leave functions and types out of JSON output as
 out of YAML

---
 engine/engine.go |  4 ++++
 engine/render.go | 47 +++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 51 insertions(+)

diff --git a/engine/engine.go b/engine/engine.go
index af6146f..885db53 100644
--- a/engine/engine.go
+++ b/engine/engine.go
@@ -115,6 +115,10 @@ func (e *engine) EvaluateFileToAny(path string) (any, error) {
 		}
 	}
 
+	if !e.renderSpecialObjects {
+		evaluated = withoutSpecialObjects(evaluated)
+	}
+
 	result, err := evaluated.ToNative()
 	if err != nil {
 		return "", err
diff --git a/engine/render.go b/engine/render.go
index 4126599..7513bc4 100644
--- a/engine/render.go
+++ b/engine/render.go
@@ -393,3 +393,50 @@ func (e *engine) Render(node *core.YispNode) (string, error) {
 		return string(b), nil
 	}
 }
+
+// withoutSpecialObjects returns the node without the parts that have no
+// representation in the output, or nil if it is such a part itself
+func withoutSpecialObjects(node *core.YispNode) *core.YispNode {
+	switch node.Kind {
+	case core.KindArray:
+		arr, ok := node.Value.([]any)
+		if !ok {
+			return node
+		}
+		results := make([]any, 0, len(arr))
+		for _, item := range arr {
+			if itemNode, ok := item.(*core.YispNode); ok {
+				if itemNode = withoutSpecialObjects(itemNode); itemNode == nil {
+					continue
+				}
+				item = itemNode
+			}
+			results = append(results, item)
+		}
+		copied := *node
+		copied.Value = results
+		return &copied
+	case core.KindMap:
+		m, ok := node.Value.(*core.YispMap)
+		if !ok {
+			return node
+		}
+		results := core.NewYispMap()
+		for key, item := range m.AllFromFront() {
+			if itemNode, ok := item.(*core.YispNode); ok {
+				if itemNode = withoutSpecialObjects(itemNode); itemNode == nil {
+					continue
+				}
+				item = itemNode
+			}
+			results.Set(key, item)
+		}
+		copied := *node
+		copied.Value = results
+		return &copied
+	case core.KindLambda, core.KindParameter, core.KindSymbol, core.KindType:
+		return nil
+	default:
+		return node
+	}
+}
-- 
2.43.0


From f981f7e89c0ba9fc1a3fc2aa56f28c64c3e47bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:56:33 +0000
Subject: [PATCH 52/99] fix: quote text that YAML 1.2 readers would read back
 differently

---
 engine/render.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/engine/render.go b/engine/render.go
index 7513bc4..2ea5c86 100644
--- a/engine/render.go
+++ b/engine/render.go
@@ -104,6 +104,12 @@ func keyTag(key, sourceTag string) string {
 // stringStyle returns the style to write a string in. Strings that would not
 // read back as themselves in the requested style are quoted.
 func stringStyle(value string, style yaml.Style) yaml.Style {
+	if strings.ContainsAny(value, "\u0085\u2028\u2029") {
+		return yaml.DoubleQuotedStyle // not every reader takes these for the same line breaks
+	}
+	if style&yaml.SingleQuotedStyle != 0 && strings.HasSuffix(value, "\n") {
+		return yaml.DoubleQuotedStyle // the closing quote would be left of everything else
+	}
 	if style&(yaml.SingleQuotedStyle|yaml.DoubleQuotedStyle) != 0 {
 		return style
 	}
@@ -114,10 +120,7 @@ func stringStyle(value string, style yaml.Style) yaml.Style {
 		style |= yaml.LiteralStyle
 	}
 	isBlock := style&(yaml.LiteralStyle|yaml.FoldedStyle) != 0
-	if isBlock && strings.ContainsAny(value, "\u2028\u2029") {
-		return yaml.DoubleQuotedStyle // not every reader takes these for the same line breaks
-	}
-	if isBlock && (strings.HasPrefix(value, "\n") || strings.HasPrefix(value, "\t")) {
+	if isBlock && strings.IndexAny(value, " \n\t") == 0 {
 		return yaml.DoubleQuotedStyle // block scalars lose or misread what comes first
 	}
 	if style&yaml.FoldedStyle != 0 && (strings.HasSuffix(value, "\n\n") || strings.Contains(value, "\n ") || strings.Contains(value, "\n\t")) {
-- 
2.43.0


From 1dcca7e79d7e3a69c740016de203d4073c367c10 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:04:01 +0000
Subject: [PATCH 53/99] fix: copy the value of a patch operation before adding
 it below itself

---
 lib/patch.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/patch.go b/lib/patch.go
index 6457aad..4016b36 100644
--- a/lib/patch.go
+++ b/lib/patch.go
@@ -1007,8 +1007,8 @@ func applyPatches(target *core.YispNode, patchesArray []any) error {
 			if err != nil {
 				return core.NewEvaluationError(patchNode, fmt.Sprintf("copy operation (get) failed: %v", err))
 			}
-			// Add to 'path'
-			err = addValue(target, path, value)
+			// Add to 'path' (a copy, as the value may contain the places it is added to)
+			err = addValue(target, path, value.Clone())
 			if err != nil {
 				return core.NewEvaluationError(patchNode, fmt.Sprintf("copy operation (add) failed: %v", err))
 			}
-- 
2.43.0


From 235db72f2cc0ee32b73d2cad2a860de21ae48ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:09:30 +0000
Subject: [PATCH 54/99] fix: reject patch operations that move a value into
 itself

---
 lib/patch.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/patch.go b/lib/patch.go
index 4016b36..0d1fa85 100644
--- a/lib/patch.go
+++ b/lib/patch.go
@@ -971,6 +971,10 @@ func applyPatches(target *core.YispNode, patchesArray []any) error {
 				return core.NewEvaluationError(fromNode, fmt.Sprintf("expected string for from, got %T", fromNode.Value))
 			}
 
+			if strings.HasPrefix(path, from+"/") {
+				return core.NewEvaluationError(patchNode, "move operation failed: cannot move a value into itself")
+			}
+
 			// Get value from 'from' path
 			value, err := getValue(target, from)
 			if err != nil {
-- 
2.43.0


From c7b4200508d1a0c8bcce19796563e503df782a6f Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:19:07 +0000
Subject: [PATCH 55/99] fix: patch included manifests by the rules of their
 type

---
 lib/k8s.go | 42 ++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/lib/k8s.go b/lib/k8s.go
index 71f0c50..bcd429d 100644
--- a/lib/k8s.go
+++ b/lib/k8s.go
@@ -3,6 +3,7 @@ package lib
 import (
 	"fmt"
 	"slices"
+	"strings"
 
 	"github.com/totegamma/yisp/core"
 )
@@ -58,11 +59,14 @@ func opPatch(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Eng
 			}
 
 			if patchID == targetID {
-				targetArray[i], err = core.DeepMergeYispNode(targetNode, patchNode, targetNode.Type)
+				merged, err := core.DeepMergeYispNode(targetNode, patchNode, getManifestSchema(targetNode))
 				if err != nil {
 					return nil, core.NewEvaluationErrorWithParent(patchNode, "failed to apply patch", err)
 				}
-
+				if targetNode.Type != nil {
+					merged.Type = targetNode.Type // the patch may be plain data
+				}
+				targetArray[i] = merged
 			}
 		}
 	}
@@ -72,6 +76,40 @@ func opPatch(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Eng
 	return &result, nil
 }
 
+// getManifestSchema returns the type of a manifest. Manifests that come from plain
+// data files carry none, so it is looked up. Unknown manifests have none at all.
+func getManifestSchema(node *core.YispNode) *core.Schema {
+	if node.Type != nil {
+		return node.Type
+	}
+	m, ok := node.Value.(*core.YispMap)
+	if !ok {
+		return nil
+	}
+	field := func(key string) string {
+		valueAny, _ := m.Get(key)
+		valueNode, ok := valueAny.(*core.YispNode)
+		if !ok {
+			return ""
+		}
+		value, _ := valueNode.Value.(string)
+		return value
+	}
+	apiVersion, kind := field("apiVersion"), field("kind")
+	if apiVersion == "" || kind == "" {
+		return nil
+	}
+	group, version, ok := strings.Cut(apiVersion, "/")
+	if !ok {
+		group, version = "", apiVersion
+	}
+	schema, err := core.LoadSchemaFromGVK(group, version, kind)
+	if err != nil {
+		return nil
+	}
+	return schema
+}
+
 func getManifestID(node *core.YispNode) (string, error) {
 	if node.Kind != core.KindMap {
 		return "", fmt.Errorf("expected core.KindMap for GVK, got %s", node.Kind)
-- 
2.43.0


From 684b1ee8547033db6d6e740f04e04c492d6032f0 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:19:27 +0000
Subject: [PATCH 56/99] fix: refuse to patch manifests whose identity is not
 text

---
 lib/k8s.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/lib/k8s.go b/lib/k8s.go
index bcd429d..71df7fb 100644
--- a/lib/k8s.go
+++ b/lib/k8s.go
@@ -131,7 +131,10 @@ func getManifestID(node *core.YispNode) (string, error) {
 		if !ok {
 			return "", fmt.Errorf("expected core.YispNode for apiVersion, got %T", apiVersionAny)
 		}
-		apiVersion, _ = apiVersionNode.Value.(string)
+		apiVersion, ok = apiVersionNode.Value.(string)
+		if !ok && apiVersionNode.Kind != core.KindNull {
+			return "", fmt.Errorf("expected core.KindString for apiVersion, got %s", apiVersionNode.Kind)
+		}
 	}
 
 	kindAny, ok := m.Get("kind")
@@ -140,7 +143,10 @@ func getManifestID(node *core.YispNode) (string, error) {
 		if !ok {
 			return "", fmt.Errorf("expected core.YispNode for kind, got %T", kindAny)
 		}
-		kind, _ = kindNode.Value.(string)
+		kind, ok = kindNode.Value.(string)
+		if !ok && kindNode.Kind != core.KindNull {
+			return "", fmt.Errorf("expected core.KindString for kind, got %s", kindNode.Kind)
+		}
 	}
 
 	metadataAny, ok := m.Get("metadata")
@@ -163,7 +169,10 @@ func getManifestID(node *core.YispNode) (string, error) {
 			if !ok {
 				return "", fmt.Errorf("expected core.YispNode for namespace, got %T", namespaceAny)
 			}
-			namespace, _ = namespaceNode.Value.(string)
+			namespace, ok = namespaceNode.Value.(string)
+			if !ok && namespaceNode.Kind != core.KindNull {
+				return "", fmt.Errorf("expected core.KindString for namespace, got %s", namespaceNode.Kind)
+			}
 		}
 
 		nameAny, ok := metadataMap.Get("name")
@@ -172,7 +181,10 @@ func getManifestID(node *core.YispNode) (string, error) {
 			if !ok {
 				return "", fmt.Errorf("expected core.YispNode for name, got %T", nameAny)
 			}
-			name, _ = nameNode.Value.(string)
+			name, ok = nameNode.Value.(string)
+			if !ok && nameNode.Kind != core.KindNull {
+				return "", fmt.Errorf("expected core.KindString for name, got %s", nameNode.Kind)
+			}
 		}
 	}
 
-- 
2.43.0


From c007533f85c62dc9a8859aad42d7bd95bc0c15cd Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:45:19 +0000
Subject: [PATCH 57/99] fix: keep the line comments of a key and its value
 together

---
 engine/render.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/engine/render.go b/engine/render.go
index 2ea5c86..9fa7f95 100644
--- a/engine/render.go
+++ b/engine/render.go
@@ -72,10 +72,18 @@ func (e *engine) placeComments(node *yaml.Node, isMapValue, inFlow bool) {
 		if isMapValue && item.Kind == yaml.ScalarNode && item.Style&(yaml.LiteralStyle|yaml.FoldedStyle) != 0 {
 			node.Content[i-1].LineComment = strings.ReplaceAll(node.Content[i-1].LineComment, "\n", " ")
 		}
-		if !isMapValue || item.Kind == yaml.ScalarNode {
+		if !isMapValue {
 			continue
 		}
 		key := node.Content[i-1]
+		if item.Kind == yaml.ScalarNode {
+			// the writer has only one line for both, and would put the other one on the next key
+			if item.LineComment != "" {
+				item.LineComment = joinComments(key.LineComment, item.LineComment)
+				key.LineComment = ""
+			}
+			continue
+		}
 		if inFlow || item.Style&yaml.FlowStyle != 0 || len(item.Content) == 0 {
 			// a comment between a key and a flow collection breaks the collection
 			if item.LineComment == "" {
-- 
2.43.0


From 7a24718b6dc027d121efc1d6ffd72ae977c516cb Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:46:46 +0000
Subject: [PATCH 58/99] fix: keep manifests apart whose namespaces and names
 contain slashes

---
 lib/k8s.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/k8s.go b/lib/k8s.go
index 71df7fb..f73446d 100644
--- a/lib/k8s.go
+++ b/lib/k8s.go
@@ -188,5 +188,5 @@ func getManifestID(node *core.YispNode) (string, error) {
 		}
 	}
 
-	return fmt.Sprintf("%s/%s/%s/%s", apiVersion, kind, namespace, name), nil
+	return fmt.Sprintf("%q/%q/%q/%q", apiVersion, kind, namespace, name), nil // fields may contain slashes
 }
-- 
2.43.0


From 53bbb423be262bd827b21f800552768059c6b1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 18:04:58 +0000
Subject: [PATCH 59/99] fix: report unknown operators with more than one dot in
 their name

---
 engine/apply.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/apply.go b/engine/apply.go
index d4ebc16..d57778b 100644
--- a/engine/apply.go
+++ b/engine/apply.go
@@ -49,7 +49,7 @@ func (e *engine) Apply(car *core.YispNode, cdr []*core.YispNode, env *core.Env,
 		}
 
 		split := strings.Split(op, ".")
-		if len(split) > 1 { // lib operator
+		if len(split) == 2 { // lib operator
 			fn, ok := lib.GetOperator(split[0], split[1])
 			if !ok {
 				return nil, core.NewEvaluationError(car, fmt.Sprintf("unknown function name: %s", op))
-- 
2.43.0


From d1414c58447a6c62e8eb70cad9dd26efa58901b1 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 18:14:04 +0000
Subject: [PATCH 60/99] fix: report undefined aliases when decoding YAML into
 values

---
 internal/yaml/decode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/yaml/decode.go b/internal/yaml/decode.go
index ae16220..a21d562 100644
--- a/internal/yaml/decode.go
+++ b/internal/yaml/decode.go
@@ -533,6 +533,9 @@ func (d *decoder) document(n *Node, out reflect.Value) (good bool) {
 }
 
 func (d *decoder) alias(n *Node, out reflect.Value) (good bool) {
+	if n.Alias == nil {
+		failf("unknown anchor '%s' referenced", n.Value)
+	}
 	if d.aliases[n] {
 		// TODO this could actually be allowed in some circumstances.
 		failf("anchor '%s' value contains itself", n.Value)
-- 
2.43.0


From b212340f6e491acbcba3348f954dc14c13c6e86b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 18:14:04 +0000
Subject: [PATCH 61/99] fix: report when the allow list cannot be written

---
 cmd/allow.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/allow.go b/cmd/allow.go
index 4adbeb6..8156879 100644
--- a/cmd/allow.go
+++ b/cmd/allow.go
@@ -22,7 +22,7 @@ var allowCmd = &cobra.Command{
 		)
 		err := viper.WriteConfig()
 		if err != nil {
-			panic(err)
+			fail("Error:", err)
 		}
 		fmt.Printf("Added %s to allowed go pkgs\n", pkg)
 	},
-- 
2.43.0


From 39e725a580d75406e373923da041af0ac88f17d5 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 18:14:30 +0000
Subject: [PATCH 62/99] fix: work without a configuration where it cannot be
 kept

---
 cmd/root.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/cmd/root.go b/cmd/root.go
index 478a26d..11cd453 100644
--- a/cmd/root.go
+++ b/cmd/root.go
@@ -37,14 +37,12 @@ func initConfig() {
 	if configPath == "" {
 		home, err := os.UserHomeDir()
 		if err != nil {
-			panic(err)
+			// without a place for it there is no configuration
+			return
 		}
 		configDir := filepath.Join(home, ".config", "yisp")
 		if _, err := os.Stat(configDir); os.IsNotExist(err) {
-			err := os.MkdirAll(configDir, os.ModePerm)
-			if err != nil {
-				panic(err)
-			}
+			_ = os.MkdirAll(configDir, os.ModePerm)
 		}
 
 		configPath = filepath.Join(configDir, "config.yaml")
-- 
2.43.0


From fd52e8d01c1b2149378567741044cc42065c5919 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 18:14:31 +0000
Subject: [PATCH 63/99] fix: refuse definitions without a schema

---
 cmd/cachekubeschemas.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/cachekubeschemas.go b/cmd/cachekubeschemas.go
index 6a8245a..90615c2 100644
--- a/cmd/cachekubeschemas.go
+++ b/cmd/cachekubeschemas.go
@@ -99,6 +99,9 @@ func saveSchemas(openapi open) error {
 
 	for key, def := range openapi.Definitions {
 
+		if def == nil {
+			return fmt.Errorf("no schema given for %s", key)
+		}
 		def["$id"] = key
 
 		schemaPath := filepath.Join(schemasPath, fmt.Sprintf("%s.json", key))
-- 
2.43.0


From 2e9295dfbec2cdde169cf443f232da1b20d3b203 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 18:43:58 +0000
Subject: [PATCH 64/99] fix: find files by patterns with .. and by absolute
 paths

---
 core/util.go    | 35 ++++++++++++++++++++++++++++++++---
 engine/apply.go | 11 +----------
 lib/files.go    | 20 ++++++++------------
 3 files changed, 41 insertions(+), 25 deletions(-)

diff --git a/core/util.go b/core/util.go
index c3e33e3..f54b78f 100644
--- a/core/util.go
+++ b/core/util.go
@@ -15,6 +15,8 @@ import (
 	"slices"
 	"strconv"
 	"strings"
+
+	"github.com/bmatcuk/doublestar/v4"
 )
 
 // JsonPrint prints an object as formatted JSON with a tag
@@ -402,8 +404,8 @@ func isRemote(path string) bool {
 	return strings.HasPrefix(path, "http://") || strings.HasPrefix(path, "https://")
 }
 
-// resolvePath resolves the path of a file or a URL that is named in the file base
-func resolvePath(path, base string) (string, error) {
+// ResolvePath resolves the path of a file or a URL that is named in the file base
+func ResolvePath(path, base string) (string, error) {
 	if !isRemote(path) && !isRemote(base) {
 		if local, ok := strings.CutPrefix(path, "file://"); ok {
 			return local, nil
@@ -430,6 +432,33 @@ func resolvePath(path, base string) (string, error) {
 	return targetURL.String(), nil
 }
 
+// Glob returns the paths that match a pattern that is named in the file base.
+// Like the pattern, they are relative to the directory of that file.
+func Glob(pattern, base string, opts ...doublestar.GlobOption) ([]string, error) {
+	if isRemote(base) {
+		return nil, nil
+	}
+
+	// what is matched is always below a directory, but that may be any directory
+	root, pattern := doublestar.SplitPattern(strings.TrimPrefix(pattern, "./"))
+	dir := root
+	if !filepath.IsAbs(dir) {
+		dir = filepath.Join(filepath.Dir(base), dir)
+	}
+
+	paths, err := doublestar.Glob(os.DirFS(dir), pattern, opts...)
+	if err != nil {
+		return nil, err
+	}
+
+	if root != "." {
+		for i, path := range paths {
+			paths[i] = filepath.Join(root, path)
+		}
+	}
+	return paths, nil
+}
+
 func CallEngineByPath(path, base string, env *Env, e Engine) (*YispNode, error) {
 
 	var reader io.Reader
@@ -452,7 +481,7 @@ func CallEngineByPath(path, base string, env *Env, e Engine) (*YispNode, error)
 		reader = bytes.NewReader(program)
 	} else {
 		var err error
-		source, err = resolvePath(path, base)
+		source, err = ResolvePath(path, base)
 		if err != nil {
 			return nil, err
 		}
diff --git a/engine/apply.go b/engine/apply.go
index d57778b..ecc0911 100644
--- a/engine/apply.go
+++ b/engine/apply.go
@@ -4,12 +4,9 @@ import (
 	"bytes"
 	"encoding/json"
 	"fmt"
-	"os"
 	"path/filepath"
 	"strings"
 
-	"github.com/bmatcuk/doublestar/v4"
-
 	"github.com/totegamma/yisp/core"
 	"github.com/totegamma/yisp/lib"
 )
@@ -343,13 +340,7 @@ func opInclude(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.E
 			return nil, core.NewEvaluationError(node, fmt.Sprintf("invalid path type: %T", node.Value))
 		}
 
-		if after, ok := strings.CutPrefix(entry, "./"); ok {
-			entry = after
-		}
-
-		dirFs := os.DirFS(filepath.Dir(node.Attr.File()))
-
-		paths, err := doublestar.Glob(dirFs, entry)
+		paths, err := core.Glob(entry, node.Attr.File())
 		if err != nil {
 			return nil, core.NewEvaluationError(node, fmt.Sprintf("failed to glob path: %s", entry))
 		}
diff --git a/lib/files.go b/lib/files.go
index 4ec96e7..0069f92 100644
--- a/lib/files.go
+++ b/lib/files.go
@@ -4,7 +4,6 @@ import (
 	"fmt"
 	"os"
 	"path/filepath"
-	"strings"
 
 	"github.com/bmatcuk/doublestar/v4"
 
@@ -29,13 +28,7 @@ func opGlob(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engi
 			return nil, core.NewEvaluationError(node, fmt.Sprintf("invalid argument type for open: %T", node))
 		}
 
-		if after, ok := strings.CutPrefix(entry, "./"); ok {
-			entry = after
-		}
-
-		dirFs := os.DirFS(filepath.Dir(node.Attr.File()))
-
-		paths, err := doublestar.Glob(dirFs, entry, doublestar.WithFilesOnly())
+		paths, err := core.Glob(entry, node.Attr.File(), doublestar.WithFilesOnly())
 		if err != nil {
 			return nil, core.NewEvaluationError(node, fmt.Sprintf("failed to glob path: %s", entry))
 		}
@@ -43,7 +36,10 @@ func opGlob(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engi
 		for _, path := range paths {
 
 			includingFile := filepath.Clean(node.Attr.File())
-			includedFile := filepath.Clean(filepath.Join(filepath.Dir(node.Attr.File()), path))
+			includedFile, err := core.ResolvePath(path, node.Attr.File())
+			if err != nil {
+				return nil, core.NewEvaluationErrorWithParent(node, fmt.Sprintf("failed to resolve path: %s", path), err)
+			}
 			if includingFile == includedFile {
 				continue
 			}
@@ -102,9 +98,9 @@ func opReadAll(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.E
 		return nil, core.NewEvaluationError(cdr[0], fmt.Sprintf("invalid argument type for read-file: %T", cdr[0]))
 	}
 
-	path := str
-	if cdr[0].Attr.File() != "" {
-		path = filepath.Clean(filepath.Join(filepath.Dir(cdr[0].Attr.File()), str))
+	path, err := core.ResolvePath(str, cdr[0].Attr.File())
+	if err != nil {
+		return nil, core.NewEvaluationErrorWithParent(cdr[0], fmt.Sprintf("failed to resolve path: %s", str), err)
 	}
 
 	body, err := os.ReadFile(path)
-- 
2.43.0


From 9204de8587cd79a8d1ac29f9215a33773dd38773 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 18:44:11 +0000
Subject: [PATCH 65/99] fix: include each file once, and never the file itself
 by way of its directory or absolute path

---
 core/util.go    | 23 ++++++++++++++---------
 engine/apply.go | 15 +++++++++++++--
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/core/util.go b/core/util.go
index f54b78f..1a428f1 100644
--- a/core/util.go
+++ b/core/util.go
@@ -432,6 +432,19 @@ func ResolvePath(path, base string) (string, error) {
 	return targetURL.String(), nil
 }
 
+// LocateFile resolves the path of a file like ResolvePath. The path of a
+// directory means the index.yisp in it.
+func LocateFile(path, base string) (string, error) {
+	source, err := ResolvePath(path, base)
+	if err != nil || isRemote(source) {
+		return source, err
+	}
+	if stat, err := os.Stat(source); err == nil && stat.IsDir() {
+		source = filepath.Join(source, "index.yisp")
+	}
+	return source, nil
+}
+
 // Glob returns the paths that match a pattern that is named in the file base.
 // Like the pattern, they are relative to the directory of that file.
 func Glob(pattern, base string, opts ...doublestar.GlobOption) ([]string, error) {
@@ -481,7 +494,7 @@ func CallEngineByPath(path, base string, env *Env, e Engine) (*YispNode, error)
 		reader = bytes.NewReader(program)
 	} else {
 		var err error
-		source, err = ResolvePath(path, base)
+		source, err = LocateFile(path, base)
 		if err != nil {
 			return nil, err
 		}
@@ -501,14 +514,6 @@ func CallEngineByPath(path, base string, env *Env, e Engine) (*YispNode, error)
 			extension = filepath.Ext(sourceURL.Path)
 		} else {
 
-			stat, err := os.Stat(source)
-			if err != nil {
-				return nil, fmt.Errorf("failed to stat file: %v", err)
-			}
-
-			if stat.IsDir() {
-				source = filepath.Join(source, "index.yisp")
-			}
 			file, err := os.Open(source)
 			if err != nil {
 				return nil, fmt.Errorf("failed to open file: %v", err)
diff --git a/engine/apply.go b/engine/apply.go
index ecc0911..d98ae0e 100644
--- a/engine/apply.go
+++ b/engine/apply.go
@@ -349,14 +349,25 @@ func opInclude(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.E
 			paths = []string{entry}
 		}
 
+		included := make(map[string]bool)
 		for _, path := range paths {
 
+			includedFile, err := core.LocateFile(path, node.Attr.File())
+			if err != nil {
+				return nil, core.NewEvaluationErrorWithParent(node, fmt.Sprintf("failed to include file: %s", path), err)
+			}
+
 			// continue if the file is the same as the including file
 			includingFile := filepath.Clean(node.Attr.File())
-			includedFile := filepath.Clean(filepath.Join(filepath.Dir(node.Attr.File()), path))
-			if includingFile == includedFile {
+			if includingFile == filepath.Clean(includedFile) {
+				continue
+			}
+
+			// a pattern may match a directory as well as the index in it
+			if included[includedFile] {
 				continue
 			}
+			included[includedFile] = true
 
 			evaluated, err := core.CallEngineByPath(path, node.Attr.File(), core.NewEnv(), e)
 			if err != nil {
-- 
2.43.0


From 988c14f577ec728335fb3f966c8ced4a1fe17ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 18:44:24 +0000
Subject: [PATCH 66/99] fix: include files whose names are no valid patterns

---
 engine/apply.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/engine/apply.go b/engine/apply.go
index d98ae0e..e76d429 100644
--- a/engine/apply.go
+++ b/engine/apply.go
@@ -340,12 +340,9 @@ func opInclude(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.E
 			return nil, core.NewEvaluationError(node, fmt.Sprintf("invalid path type: %T", node.Value))
 		}
 
+		// names of files may look like broken patterns
 		paths, err := core.Glob(entry, node.Attr.File())
-		if err != nil {
-			return nil, core.NewEvaluationError(node, fmt.Sprintf("failed to glob path: %s", entry))
-		}
-
-		if len(paths) == 0 {
+		if err != nil || len(paths) == 0 {
 			paths = []string{entry}
 		}
 
-- 
2.43.0


From b22c7630cadff7c2098cf88cea4d83efa00b73f3 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 18:52:44 +0000
Subject: [PATCH 67/99] fix: resolve computed paths against the file that
 computes them

---
 engine/apply.go | 44 ++++++++++++++++++++++++++++++++++++++++++++
 engine/eval.go  |  3 ++-
 2 files changed, 46 insertions(+), 1 deletion(-)

diff --git a/engine/apply.go b/engine/apply.go
index e76d429..a884f48 100644
--- a/engine/apply.go
+++ b/engine/apply.go
@@ -13,6 +13,50 @@ import (
 
 // Apply applies a function to arguments
 func (e *engine) Apply(car *core.YispNode, cdr []*core.YispNode, env *core.Env, mode core.EvalMode) (*core.YispNode, error) {
+	result, err := e.apply(car, cdr, env, mode)
+	if err != nil {
+		return nil, err
+	}
+	return located(result, car), nil
+}
+
+// located returns a value that was computed in the given place. What it holds
+// that was written somewhere keeps the place where it was written.
+func located(value, place *core.YispNode) *core.YispNode {
+	if len(value.Attr.Sources) > 0 {
+		return value
+	}
+
+	copied := *value
+	copied.Attr.Sources = place.Attr.Sources
+
+	switch v := value.Value.(type) {
+	case []any:
+		items := make([]any, len(v))
+		for i, item := range v {
+			if node, ok := item.(*core.YispNode); ok {
+				item = located(node, place)
+			}
+			items[i] = item
+		}
+		copied.Value = items
+	case *core.YispMap:
+		entries := core.NewYispMap()
+		for key, item := range v.AllFromFront() {
+			if node, ok := item.(*core.YispNode); ok {
+				item = located(node, place)
+			}
+			entries.Set(key, item)
+		}
+		copied.Value = entries
+	case map[string]*core.YispNode: // an imported module is known by its identity
+		return value
+	}
+
+	return &copied
+}
+
+func (e *engine) apply(car *core.YispNode, cdr []*core.YispNode, env *core.Env, mode core.EvalMode) (*core.YispNode, error) {
 
 	switch car.Kind {
 	case core.KindLambda:
diff --git a/engine/eval.go b/engine/eval.go
index d1ab636..926f311 100644
--- a/engine/eval.go
+++ b/engine/eval.go
@@ -338,10 +338,11 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 				}
 
 				var err error
-				result, err = e.Apply(evaluated[0], evaluated[1:], env, mode)
+				result, err = e.apply(evaluated[0], evaluated[1:], env, mode)
 				if err != nil {
 					return nil, core.NewEvaluationErrorWithParent(node, "failed to apply function", err)
 				}
+				result = located(result, node)
 			}
 
 		} else {
-- 
2.43.0


From 49085597a1d4c9d23cce24b7f47074136e220554 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 18:57:30 +0000
Subject: [PATCH 68/99] fix: recognise the including file by relative and
 absolute paths

---
 core/util.go    | 10 ++++++++++
 engine/apply.go |  4 +---
 lib/files.go    |  3 +--
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/core/util.go b/core/util.go
index 1a428f1..4e15ab0 100644
--- a/core/util.go
+++ b/core/util.go
@@ -445,6 +445,16 @@ func LocateFile(path, base string) (string, error) {
 	return source, nil
 }
 
+// SameFile reports whether two resolved paths name the same file
+func SameFile(a, b string) bool {
+	if a == b || isRemote(a) || isRemote(b) {
+		return a == b
+	}
+	absA, errA := filepath.Abs(a)
+	absB, errB := filepath.Abs(b)
+	return errA == nil && errB == nil && absA == absB
+}
+
 // Glob returns the paths that match a pattern that is named in the file base.
 // Like the pattern, they are relative to the directory of that file.
 func Glob(pattern, base string, opts ...doublestar.GlobOption) ([]string, error) {
diff --git a/engine/apply.go b/engine/apply.go
index a884f48..edd2837 100644
--- a/engine/apply.go
+++ b/engine/apply.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 	"encoding/json"
 	"fmt"
-	"path/filepath"
 	"strings"
 
 	"github.com/totegamma/yisp/core"
@@ -399,8 +398,7 @@ func opInclude(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.E
 			}
 
 			// continue if the file is the same as the including file
-			includingFile := filepath.Clean(node.Attr.File())
-			if includingFile == filepath.Clean(includedFile) {
+			if core.SameFile(node.Attr.File(), includedFile) {
 				continue
 			}
 
diff --git a/lib/files.go b/lib/files.go
index 0069f92..2a7ba09 100644
--- a/lib/files.go
+++ b/lib/files.go
@@ -35,12 +35,11 @@ func opGlob(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engi
 
 		for _, path := range paths {
 
-			includingFile := filepath.Clean(node.Attr.File())
 			includedFile, err := core.ResolvePath(path, node.Attr.File())
 			if err != nil {
 				return nil, core.NewEvaluationErrorWithParent(node, fmt.Sprintf("failed to resolve path: %s", path), err)
 			}
-			if includingFile == includedFile {
+			if core.SameFile(node.Attr.File(), includedFile) {
 				continue
 			}
 
-- 
2.43.0


From 6f397ad5a82a5c4576ed45376755b375c25bfd66 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 18:57:49 +0000
Subject: [PATCH 69/99] fix: resolve paths listed by files.glob and in text
 files where they come from

---
 core/util.go |  7 +++++++
 lib/files.go | 23 ++++++++++++++---------
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/core/util.go b/core/util.go
index 4e15ab0..a73b39f 100644
--- a/core/util.go
+++ b/core/util.go
@@ -550,6 +550,13 @@ func CallEngineByPath(path, base string, env *Env, e Engine) (*YispNode, error)
 		return &YispNode{
 			Kind:  KindString,
 			Value: string(text),
+			Attr: Attribute{
+				Sources: []FilePos{
+					{
+						File: source,
+					},
+				},
+			},
 		}, nil
 	}
 
diff --git a/lib/files.go b/lib/files.go
index 2a7ba09..eedc0e1 100644
--- a/lib/files.go
+++ b/lib/files.go
@@ -49,32 +49,37 @@ func opGlob(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engi
 				return nil, core.NewEvaluationError(node, fmt.Sprintf("failed to read file: %s", path))
 			}
 
+			attr := core.Attribute{
+				Sources: []core.FilePos{
+					{
+						File:   includedFile,
+						Line:   node.Attr.Line(),
+						Column: node.Attr.Column(),
+					},
+				},
+			}
+
 			value := core.NewYispMap()
 			value.Set("path", &core.YispNode{
 				Kind:  core.KindString,
 				Value: path,
+				Attr:  core.Attribute{Sources: node.Attr.Sources}, // what it is relative to
 			})
 			value.Set("name", &core.YispNode{
 				Kind:  core.KindString,
 				Value: filename,
+				Attr:  attr,
 			})
 			value.Set("body", &core.YispNode{
 				Kind:  core.KindString,
 				Value: string(body),
+				Attr:  attr,
 			})
 
 			result = append(result, &core.YispNode{
 				Kind:  core.KindMap,
 				Value: value,
-				Attr: core.Attribute{
-					Sources: []core.FilePos{
-						{
-							File:   includedFile,
-							Line:   node.Attr.Line(),
-							Column: node.Attr.Column(),
-						},
-					},
-				},
+				Attr:  attr,
 			})
 		}
 	}
-- 
2.43.0


From 53a9b04df3a69d7cc45786afee9321800e74ae0d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:05:58 +0000
Subject: [PATCH 70/99] fix: refuse JSON data files with more after the value

---
 core/parse.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/parse.go b/core/parse.go
index 0881021..729b344 100644
--- a/core/parse.go
+++ b/core/parse.go
@@ -156,6 +156,9 @@ func ParseJson(filename string, reader io.Reader) (*YispNode, error) {
 	if err := decoder.Decode(&data); err != nil {
 		return nil, fmt.Errorf("failed to decode JSON: %v", err)
 	}
+	if _, err := decoder.Token(); !errors.Is(err, io.EOF) {
+		return nil, errors.New("failed to decode JSON: there is more after the value")
+	}
 
 	node, err := ParseAny(filename, data)
 	if err != nil {
-- 
2.43.0


From 4a0f9f0eaee89963037db393ca564d3bc1e239f7 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:14:25 +0000
Subject: [PATCH 71/99] fix: recognise the including file by differently
 written URLs

---
 core/util.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/util.go b/core/util.go
index a73b39f..5283300 100644
--- a/core/util.go
+++ b/core/util.go
@@ -447,6 +447,12 @@ func LocateFile(path, base string) (string, error) {
 
 // SameFile reports whether two resolved paths name the same file
 func SameFile(a, b string) bool {
+	if isRemote(a) && isRemote(b) {
+		urlA, errA := url.Parse(a)
+		urlB, errB := url.Parse(b)
+		return errA == nil && errB == nil &&
+			urlA.Scheme == urlB.Scheme && urlA.Host == urlB.Host && urlA.Path == urlB.Path && urlA.RawQuery == urlB.RawQuery
+	}
 	if a == b || isRemote(a) || isRemote(b) {
 		return a == b
 	}
-- 
2.43.0


From 02ee1e782e5ec6fc159e82437f3628515b887310 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:22:29 +0000
Subject: [PATCH 72/99] fix: say where an operator with missing arguments was
 called

---
 core/error.go  |  3 +++
 engine/eval.go | 16 ++++++++--------
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/core/error.go b/core/error.go
index fa5df4f..928d212 100644
--- a/core/error.go
+++ b/core/error.go
@@ -25,6 +25,9 @@ func NewEvaluationErrorWithParent(node *YispNode, message string, parent error)
 
 	p, ok := parent.(*ErrorTypeEvaluation)
 	if ok {
+		if p.Node == nil { // operators do not know where they are called
+			p.Node = node
+		}
 		return &ErrorTypeEvaluation{
 			Type:    "YispErrorEvaluation",
 			Node:    node,
diff --git a/engine/eval.go b/engine/eval.go
index 926f311..4637064 100644
--- a/engine/eval.go
+++ b/engine/eval.go
@@ -220,11 +220,11 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 				for _, item := range paramItems {
 					paramNode, ok := item.(*core.YispNode)
 					if !ok {
-						return nil, core.NewEvaluationError(nil, fmt.Sprintf("invalid param type: %T", item))
+						return nil, core.NewEvaluationError(paramsNode, fmt.Sprintf("invalid param type: %T", item))
 					}
 					param, ok := paramNode.Value.(string)
 					if !ok {
-						return nil, core.NewEvaluationError(nil, fmt.Sprintf("invalid param value: %T", paramNode.Value))
+						return nil, core.NewEvaluationError(paramNode, fmt.Sprintf("invalid param value: %T", paramNode.Value))
 					}
 
 					var schema *core.Schema
@@ -233,14 +233,14 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 					if typeName != "" && !strings.HasPrefix(typeName, "!") {
 						typeNode, ok := env.Get(typeName)
 						if !ok {
-							return nil, core.NewEvaluationError(nil, fmt.Sprintf("undefined type: %s", typeName))
+							return nil, core.NewEvaluationError(paramNode, fmt.Sprintf("undefined type: %s", typeName))
 						}
 						if typeNode.Kind != core.KindType {
-							return nil, core.NewEvaluationError(nil, fmt.Sprintf("%s is not a type. actual: %s", typeName, typeNode.Kind))
+							return nil, core.NewEvaluationError(paramNode, fmt.Sprintf("%s is not a type. actual: %s", typeName, typeNode.Kind))
 						}
 						schema, ok = typeNode.Value.(*core.Schema)
 						if !ok {
-							return nil, core.NewEvaluationError(nil, fmt.Sprintf("invalid type value: %T", typeNode.Value))
+							return nil, core.NewEvaluationError(paramNode, fmt.Sprintf("invalid type value: %T", typeNode.Value))
 						}
 					}
 
@@ -256,14 +256,14 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 				if typeName != "" && !strings.HasPrefix(typeName, "!") {
 					typeNode, ok := env.Get(typeName)
 					if !ok {
-						return nil, core.NewEvaluationError(nil, fmt.Sprintf("undefined type: %s", typeName))
+						return nil, core.NewEvaluationError(paramsNode, fmt.Sprintf("undefined type: %s", typeName))
 					}
 					if typeNode.Kind != core.KindType {
-						return nil, core.NewEvaluationError(nil, fmt.Sprintf("%s is not a type. actual: %s", typeName, typeNode.Kind))
+						return nil, core.NewEvaluationError(paramsNode, fmt.Sprintf("%s is not a type. actual: %s", typeName, typeNode.Kind))
 					}
 					schema, ok = typeNode.Value.(*core.Schema)
 					if !ok {
-						return nil, core.NewEvaluationError(nil, fmt.Sprintf("invalid type value: %T", typeNode.Value))
+						return nil, core.NewEvaluationError(paramsNode, fmt.Sprintf("invalid type value: %T", typeNode.Value))
 					}
 				}
 
-- 
2.43.0


From 0d310d166e94c991dbe4a89ba4bd34d056bfc90e Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:22:29 +0000
Subject: [PATCH 73/99] fix: point at the value that breaks a nested type

---
 core/schema.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/schema.go b/core/schema.go
index a8d967c..2ae8fdf 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -479,7 +479,7 @@ func (s *Schema) Validate(node *YispNode) error {
 						return NewEvaluationError(node, fmt.Sprintf("expected YispNode, got %T", item))
 					}
 					if err := ap.Validate(itemNode); err != nil {
-						return NewEvaluationError(node, fmt.Sprintf("additional property %s does not match schema: %v", key, err))
+						return NewEvaluationErrorWithParent(node, fmt.Sprintf("additional property %s does not match schema", key), err)
 					}
 				}
 			default:
@@ -539,7 +539,7 @@ func (s *Schema) InterpolateDefaults(node *YispNode) error {
 				return NewEvaluationError(node, fmt.Sprintf("expected YispNode, got %T", item))
 			}
 			if err := s.Items.InterpolateDefaults(itemNode); err != nil {
-				return NewEvaluationError(node, fmt.Sprintf("failed to interpolate defaults for array item %d: %v", i, err))
+				return NewEvaluationErrorWithParent(node, fmt.Sprintf("failed to interpolate defaults for array item %d", i), err)
 			}
 		}
 		return nil
@@ -596,7 +596,7 @@ func (s *Schema) InterpolateDefaults(node *YispNode) error {
 				return NewEvaluationError(node, fmt.Sprintf("expected YispNode, got %T", item))
 			}
 			if err := subSchema.InterpolateDefaults(itemNode); err != nil {
-				return NewEvaluationError(node, fmt.Sprintf("failed to interpolate defaults for property %s: %v", key, err))
+				return NewEvaluationErrorWithParent(node, fmt.Sprintf("failed to interpolate defaults for property %s", key), err)
 			}
 		}
 		return nil
-- 
2.43.0


From a5c594646d964969a2ae263a7b73caba774496df Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:22:29 +0000
Subject: [PATCH 74/99] fix: show the source of errors in files with long lines

---
 core/util.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/util.go b/core/util.go
index 5283300..64e60e3 100644
--- a/core/util.go
+++ b/core/util.go
@@ -345,15 +345,15 @@ func DeepMergeYispNode(dst, src *YispNode, schema *Schema) (*YispNode, error) {
 }
 
 func RenderCode(file string, line, after, before int, comments []Comment) (string, error) {
-	f, err := os.Open(file)
+	source, err := os.ReadFile(file)
 	if err != nil {
 		return "", err
 	}
-	defer f.Close()
 
 	startLine := max(line-before, 1)
 
-	scanner := bufio.NewScanner(f)
+	scanner := bufio.NewScanner(bytes.NewReader(source))
+	scanner.Buffer(nil, len(source)+1) // lines may have any length
 	for range startLine - 1 {
 		if !scanner.Scan() {
 			break
-- 
2.43.0


From 114824c6f2d4a0e81546b61a2eac7ef08faae80c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:22:29 +0000
Subject: [PATCH 75/99] fix: name the file that is not valid YAML

---
 engine/engine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/engine.go b/engine/engine.go
index 885db53..117ccb8 100644
--- a/engine/engine.go
+++ b/engine/engine.go
@@ -174,7 +174,7 @@ func (e *engine) Run(document io.Reader, env *core.Env, location string) (*core.
 			if errors.Is(err, io.EOF) {
 				break
 			}
-			return nil, err
+			return nil, fmt.Errorf("failed to parse %s: %w", location, err)
 		}
 
 		parsed, err := Parse(location, &root)
-- 
2.43.0


From a41ebd14ae538e859fb7ce9eb4ae866f4e646168 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:23:18 +0000
Subject: [PATCH 76/99] fix: keep the position, style and comments of what a
 document holds

---
 engine/parse.go | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/engine/parse.go b/engine/parse.go
index 7ce617c..46b16ef 100644
--- a/engine/parse.go
+++ b/engine/parse.go
@@ -7,6 +7,13 @@ import (
 	"github.com/totegamma/yisp/internal/yaml"
 )
 
+func joinParagraphs(a, b string) string {
+	if a == "" || b == "" {
+		return a + b
+	}
+	return a + "\n\n" + b
+}
+
 // Parse converts a YAML node to a core.YispNode
 func Parse(filename string, node *yaml.Node) (*core.YispNode, error) {
 	var result *core.YispNode
@@ -18,19 +25,9 @@ func Parse(filename string, node *yaml.Node) (*core.YispNode, error) {
 			return nil, nil
 		}
 		result, err = Parse(filename, node.Content[0])
-		result.Attr = core.Attribute{
-			Sources: []core.FilePos{
-				{
-					File:   filename,
-					Line:   node.Line,
-					Column: node.Column,
-				},
-			},
-			HeadComment: node.HeadComment,
-			LineComment: node.LineComment,
-			FootComment: node.FootComment,
-			Style:       node.Style,
-		}
+		// the comments of a document are written around those of its content
+		result.Attr.HeadComment = joinParagraphs(node.HeadComment, result.Attr.HeadComment)
+		result.Attr.FootComment = joinParagraphs(result.Attr.FootComment, node.FootComment)
 
 	case yaml.SequenceNode:
 		s := make([]any, len(node.Content))
-- 
2.43.0


From 8d46c3e1220eacd8c9b71f941c826fad0621dd9a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 77/99] fix: say where unmarshalled values come from

---
 lib/yaml.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lib/yaml.go b/lib/yaml.go
index 4c5b98c..377da2e 100644
--- a/lib/yaml.go
+++ b/lib/yaml.go
@@ -64,6 +64,7 @@ func opUnmarshal(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core
 		if err != nil {
 			return nil, core.NewEvaluationErrorWithParent(node, "failed to parse yaml node", err)
 		}
+		placeAt(parsedNode, node.Attr.Sources)
 		resultNodes = append(resultNodes, parsedNode)
 	}
 
@@ -73,3 +74,18 @@ func opUnmarshal(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core
 		Attr:  node.Attr,
 	}, nil
 }
+
+// placeAt says that a value and what it holds come from the given place
+func placeAt(node *core.YispNode, sources []core.FilePos) {
+	node.Attr.Sources = sources
+	switch value := node.Value.(type) {
+	case []any:
+		for _, item := range value {
+			placeAt(item.(*core.YispNode), sources)
+		}
+	case *core.YispMap:
+		for _, item := range value.AllFromFront() {
+			placeAt(item.(*core.YispNode), sources)
+		}
+	}
+}
-- 
2.43.0


From 7f69fb144c6ca18ff28640d5091b592651066e19 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:35:49 +0000
Subject: [PATCH 78/99] fix: give missing optional values and map entries a
 place

---
 engine/eval.go | 8 ++++++--
 lib/maps.go    | 1 +
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/engine/eval.go b/engine/eval.go
index 4637064..3d2ce59 100644
--- a/engine/eval.go
+++ b/engine/eval.go
@@ -63,12 +63,16 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 		if !ok {
 			return nil, core.NewEvaluationError(node, fmt.Sprintf("undefined symbol: %s", node.Value))
 		}
-		node, ok := body.(*core.YispNode)
+		value, ok := body.(*core.YispNode)
 		if !ok {
 			return nil, core.NewEvaluationError(node, fmt.Sprintf("invalid symbol type: %T", body))
 		}
 
-		result = node
+		if value.Kind == core.KindNull { // what an optional name that is missing gives has no place of its own
+			value = located(value, node)
+		}
+
+		result = value
 
 	case core.KindParameter:
 		result = node
diff --git a/lib/maps.go b/lib/maps.go
index 8646257..e1d0a5c 100644
--- a/lib/maps.go
+++ b/lib/maps.go
@@ -152,6 +152,7 @@ func opToEntries(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core
 				},
 				value,
 			},
+			Attr: core.Attribute{Sources: node.Attr.Sources},
 		}
 		result = append(result, tuple)
 	}
-- 
2.43.0


From f9407d5f0ceffefe2fa3b33e5a03d6c563881c49 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:36:18 +0000
Subject: [PATCH 79/99] fix: keep the place of a list that replaces another in
 a merge

---
 core/util.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/util.go b/core/util.go
index 64e60e3..61a261f 100644
--- a/core/util.go
+++ b/core/util.go
@@ -260,8 +260,10 @@ func DeepMergeYispNode(dst, src *YispNode, schema *Schema) (*YispNode, error) {
 		}
 
 		var result []any
+		var attr Attribute
 		if slices.Contains(strategies, "replace") {
 			result = srcArray
+			attr = src.Attr
 		} else if slices.Contains(strategies, "merge") {
 			if mergeKey == "" {
 				result = append(result, dstArray...)
@@ -336,6 +338,7 @@ func DeepMergeYispNode(dst, src *YispNode, schema *Schema) (*YispNode, error) {
 		return &YispNode{
 			Kind:  KindArray,
 			Value: result,
+			Attr:  attr,
 			Type:  src.Type, // TODO: sum type
 		}, nil
 
-- 
2.43.0


From 873a3f4c11d1fce920707dc480ce8ef30efb8a09 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 80/99] fix: give the types that are always there the place
 where they are named

---
 engine/eval.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/engine/eval.go b/engine/eval.go
index 3d2ce59..dba1541 100644
--- a/engine/eval.go
+++ b/engine/eval.go
@@ -68,7 +68,8 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 			return nil, core.NewEvaluationError(node, fmt.Sprintf("invalid symbol type: %T", body))
 		}
 
-		if value.Kind == core.KindNull { // what an optional name that is missing gives has no place of its own
+		switch value.Kind {
+		case core.KindNull, core.KindType: // missing optional values and the types that are always there have no place
 			value = located(value, node)
 		}
 
-- 
2.43.0


From ce5ef72915aa2c2c08a4443a41fd854fe132c8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 81/99] fix: point at the entry that maps.from-entries cannot
 use

---
 lib/maps.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/maps.go b/lib/maps.go
index e1d0a5c..e5a7b37 100644
--- a/lib/maps.go
+++ b/lib/maps.go
@@ -36,11 +36,11 @@ func opFromEntries(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e co
 
 		tupleArr, ok := tupleNode.Value.([]any)
 		if !ok {
-			return nil, core.NewEvaluationError(node, fmt.Sprintf("invalid tuple value: %T", tupleNode.Value))
+			return nil, core.NewEvaluationError(tupleNode, fmt.Sprintf("invalid tuple value: %T", tupleNode.Value))
 		}
 
 		if len(tupleArr) != 2 {
-			return nil, core.NewEvaluationError(node, "tuple must have exactly 2 elements")
+			return nil, core.NewEvaluationError(tupleNode, "tuple must have exactly 2 elements")
 		}
 
 		keyNode, ok := tupleArr[0].(*core.YispNode)
-- 
2.43.0


From c91965652b73120b3b09b14d4a957d2b0437240f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:13 +0000
Subject: [PATCH 82/99] fix: refuse schemas that are null or followed by
 something else

---
 core/schema.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/core/schema.go b/core/schema.go
index 2ae8fdf..48c11ac 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/base64"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"io"
 	"maps"
@@ -147,13 +148,19 @@ func (s *Schema) GetPatchMergeKey() string {
 
 // DecodeSchema reads a schema from JSON, keeping the numbers in it as they are
 func DecodeSchema(reader io.Reader) (*Schema, error) {
-	var schema Schema
+	var schema *Schema
 	decoder := json.NewDecoder(reader)
 	decoder.UseNumber()
 	if err := decoder.Decode(&schema); err != nil {
 		return nil, err
 	}
-	return &schema, nil
+	if schema == nil {
+		return nil, errors.New("null is not a schema")
+	}
+	if _, err := decoder.Token(); err != io.EOF {
+		return nil, errors.New("there is more after the schema")
+	}
+	return schema, nil
 }
 
 func (s *Schema) ToYispNode() (*YispNode, error) {
-- 
2.43.0


From fae1f767bed50019a449fb0d05d0cf813de0409e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:13 +0000
Subject: [PATCH 83/99] fix: cache schemas with long URLs

---
 core/schema.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/schema.go b/core/schema.go
index 48c11ac..26e3bed 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -2,6 +2,7 @@ package core
 
 import (
 	"bytes"
+	"crypto/sha256"
 	"encoding/base64"
 	"encoding/json"
 	"errors"
@@ -219,6 +220,9 @@ func writeFileAtomic(path string, content []byte) error {
 func LoadSchemaFromURL(url string) (*Schema, error) {
 
 	cachekey := base64.URLEncoding.EncodeToString([]byte(url))
+	if len(cachekey) > 200 { // file names have to be short
+		cachekey = fmt.Sprintf("sha256-%x", sha256.Sum256([]byte(url)))
+	}
 	schemasPath, err := cachePath("schemas", cachekey+".json")
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 03bbb294efd1c0f6436362b817be452ef193deee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:38 +0000
Subject: [PATCH 84/99] fix: let * in the allow list match any text

---
 lib/exec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/exec.go b/lib/exec.go
index 259416a..052bca8 100644
--- a/lib/exec.go
+++ b/lib/exec.go
@@ -195,7 +195,7 @@ func opGoRun(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Eng
 
 	allowed := false
 	for _, stmt := range allowedGoPkgs {
-		regex := "^" + strings.ReplaceAll(regexp.QuoteMeta(stmt), "\\*", ".*") + "$"
+		regex := "(?s)^" + strings.ReplaceAll(regexp.QuoteMeta(stmt), "\\*", ".*") + "$"
 		matched, err := regexp.MatchString(regex, pkgStr)
 		if err != nil {
 			return nil, core.NewEvaluationError(cdr[0], fmt.Sprintf("failed to match package %s with regex %s: %v", pkgStr, regex, err))
-- 
2.43.0


From 586e31960aa579bb4e9d9f5156f837376afddfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:38 +0000
Subject: [PATCH 85/99] fix: print the result without another line break

---
 cmd/build.go | 2 +-
 cmd/krm.go   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/build.go b/cmd/build.go
index 60d5c89..9b64588 100644
--- a/cmd/build.go
+++ b/cmd/build.go
@@ -68,7 +68,7 @@ var buildCmd = &cobra.Command{
 				fail("Error:", err)
 			}
 
-			fmt.Println(result)
+			fmt.Print(result)
 		case "json":
 			resultAny, err := e.EvaluateFileToAny(yamlFile)
 			if err != nil {
diff --git a/cmd/krm.go b/cmd/krm.go
index 75e89d5..6fb049a 100644
--- a/cmd/krm.go
+++ b/cmd/krm.go
@@ -104,7 +104,7 @@ var krmCmd = &cobra.Command{
 				fail("Error:", err)
 			}
 
-			fmt.Println(result)
+			fmt.Print(result)
 
 		} else {
 
@@ -117,7 +117,7 @@ var krmCmd = &cobra.Command{
 				fail("Error:", err)
 			}
 
-			fmt.Println(result)
+			fmt.Print(result)
 		}
 
 	},
-- 
2.43.0


From 35051fcf91435b1176ba19a34200cebdaa2ac25d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:15:51 +0000
Subject: [PATCH 86/99] fix: report a result that cannot be written

---
 cmd/build.go | 12 ++++++++++--
 cmd/krm.go   |  5 ++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/cmd/build.go b/cmd/build.go
index 9b64588..cfb210c 100644
--- a/cmd/build.go
+++ b/cmd/build.go
@@ -68,7 +68,7 @@ var buildCmd = &cobra.Command{
 				fail("Error:", err)
 			}
 
-			fmt.Print(result)
+			show(result)
 		case "json":
 			resultAny, err := e.EvaluateFileToAny(yamlFile)
 			if err != nil {
@@ -93,13 +93,21 @@ var buildCmd = &cobra.Command{
 				fail("Error:", err)
 			}
 
-			fmt.Println(string(jsonResult))
+			show(string(jsonResult) + "\n")
 		default:
 			fail("Error: Unsupported output format. Use 'yaml' or 'json'.")
 		}
 	},
 }
 
+// show prints the result
+func show(result string) {
+	_, err := fmt.Print(result)
+	if err != nil {
+		fail("Error:", err)
+	}
+}
+
 // fail reports an error apart from the output and ends the command
 func fail(message ...any) {
 	fmt.Fprintln(os.Stderr, message...)
diff --git a/cmd/krm.go b/cmd/krm.go
index 6fb049a..f693a83 100644
--- a/cmd/krm.go
+++ b/cmd/krm.go
@@ -1,7 +1,6 @@
 package cmd
 
 import (
-	"fmt"
 	"github.com/spf13/cobra"
 	"github.com/totegamma/yisp/core"
 	"github.com/totegamma/yisp/engine"
@@ -104,7 +103,7 @@ var krmCmd = &cobra.Command{
 				fail("Error:", err)
 			}
 
-			fmt.Print(result)
+			show(result)
 
 		} else {
 
@@ -117,7 +116,7 @@ var krmCmd = &cobra.Command{
 				fail("Error:", err)
 			}
 
-			fmt.Print(result)
+			show(result)
 		}
 
 	},
-- 
2.43.0


From e4f701f21437f605368b259dd39ffd45591db690 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:15:52 +0000
Subject: [PATCH 87/99] fix: report a missing file name

---
 cmd/build.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cmd/build.go b/cmd/build.go
index cfb210c..0b621d8 100644
--- a/cmd/build.go
+++ b/cmd/build.go
@@ -50,8 +50,7 @@ var buildCmd = &cobra.Command{
 
 		yamlFile := args[0]
 		if yamlFile == "" {
-			cmd.Help()
-			return
+			fail("Error: The file to build is not given")
 		}
 
 		if yamlFile != "-" && !strings.HasPrefix(yamlFile, "http://") && !strings.HasPrefix(yamlFile, "https://") {
-- 
2.43.0


From 127faedc2bff3e07a40b44a565219f4507032ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:15:53 +0000
Subject: [PATCH 88/99] fix: keep the trace out of the result

---
 engine/eval.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/engine/eval.go b/engine/eval.go
index dba1541..82b1690 100644
--- a/engine/eval.go
+++ b/engine/eval.go
@@ -2,6 +2,7 @@ package engine
 
 import (
 	"fmt"
+	"os"
 	"strings"
 
 	"github.com/totegamma/yisp/core"
@@ -41,7 +42,7 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 		if err != nil {
 			return nil, core.NewEvaluationError(node, fmt.Sprintf("failed to convert node to native: %v", err))
 		}
-		fmt.Printf("%sEVAL: %v\n", pad(env.Depth()), val)
+		fmt.Fprintf(os.Stderr, "%sEVAL: %v\n", pad(env.Depth()), val)
 	}
 
 	if node.Tag == "!yisp" {
-- 
2.43.0


From f099b3e55c935f0582537fe00d71fe5cc2d67c6f Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:15:54 +0000
Subject: [PATCH 89/99] fix: write data files as JSON

---
 engine/engine.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/engine/engine.go b/engine/engine.go
index 117ccb8..cf00f78 100644
--- a/engine/engine.go
+++ b/engine/engine.go
@@ -124,6 +124,11 @@ func (e *engine) EvaluateFileToAny(path string) (any, error) {
 		return "", err
 	}
 
+	// a data file is a single document unless it holds a stream of them
+	if !evaluated.IsDocumentRoot {
+		result = []any{result}
+	}
+
 	return result, nil
 }
 
-- 
2.43.0


From ff299ae72262594997663933c5425bdc4c90e918 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:16:40 +0000
Subject: [PATCH 90/99] fix: leave a configuration that cannot be read as it is

---
 cmd/allow.go | 4 ++++
 cmd/build.go | 4 ++++
 cmd/root.go  | 9 ++++++++-
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/cmd/allow.go b/cmd/allow.go
index 8156879..2568920 100644
--- a/cmd/allow.go
+++ b/cmd/allow.go
@@ -12,6 +12,10 @@ var allowCmd = &cobra.Command{
 	Long:  `Add go pkg to allow list`,
 	Args:  cobra.ExactArgs(1),
 	Run: func(cmd *cobra.Command, args []string) {
+		if configErr != nil {
+			// writing the list would replace the configuration
+			fail("Error:", configErr)
+		}
 		pkg := args[0]
 		viper.Set(
 			"AllowedGoPkgs",
diff --git a/cmd/build.go b/cmd/build.go
index 0b621d8..bcc32ea 100644
--- a/cmd/build.go
+++ b/cmd/build.go
@@ -38,6 +38,10 @@ var buildCmd = &cobra.Command{
 			e.SetOption("net.gammalab.yisp.exec.allow_cmd", allowCmd)
 		}
 
+		if configErr != nil {
+			fmt.Fprintln(os.Stderr, "Warning: the configuration is ignored:", configErr)
+		}
+
 		allowedGoPkgs := viper.GetStringSlice("AllowedGoPkgs")
 		if err == nil {
 			e.SetOption("net.gammalab.yisp.exec.allowed_go_pkgs", allowedGoPkgs)
diff --git a/cmd/root.go b/cmd/root.go
index 11cd453..18a27cd 100644
--- a/cmd/root.go
+++ b/cmd/root.go
@@ -1,6 +1,8 @@
 package cmd
 
 import (
+	"errors"
+	"io/fs"
 	"os"
 	"path/filepath"
 
@@ -28,6 +30,9 @@ func init() {
 	cobra.OnInitialize(initConfig)
 }
 
+// configErr tells why the configuration that is there cannot be read
+var configErr error
+
 func initConfig() {
 
 	core.CacheDir, _ = rootCmd.PersistentFlags().GetString("cache-dir")
@@ -51,8 +56,10 @@ func initConfig() {
 	viper.SetConfigFile(configPath)
 
 	err := viper.ReadInConfig()
-	if err != nil {
+	if errors.Is(err, fs.ErrNotExist) {
 		viper.SetDefault("AllowedGoPkgs", []string{})
 		_ = viper.WriteConfig()
+	} else if err != nil {
+		configErr = err
 	}
 }
-- 
2.43.0


From 8cb2375b26191f69754945f0714d25e80f73350e Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:17:07 +0000
Subject: [PATCH 91/99] fix: read timestamps and keys that are not text from
 data files

---
 core/parse.go | 50 ++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 46 insertions(+), 4 deletions(-)

diff --git a/core/parse.go b/core/parse.go
index 729b344..cfbbf2e 100644
--- a/core/parse.go
+++ b/core/parse.go
@@ -168,23 +168,65 @@ func ParseJson(filename string, reader io.Reader) (*YispNode, error) {
 	return node, nil
 }
 
+// ParseYamlNode converts a node of standard YAML into a YispNode
+func ParseYamlNode(filename string, node *yaml.Node) (*YispNode, error) {
+	keepText(node)
+
+	var data any
+	if err := node.Decode(&data); err != nil {
+		return nil, fmt.Errorf("failed to decode YAML: %v", err)
+	}
+
+	parsed, err := ParseAny(filename, data)
+	if err != nil {
+		return nil, fmt.Errorf("failed to parse YAML: %v", err)
+	}
+
+	return parsed, nil
+}
+
+// keepText makes timestamps and scalar keys, which have no type of their own
+// here, strings of the text they are written as
+func keepText(node *yaml.Node) {
+	if node.Kind == yaml.ScalarNode && node.ShortTag() == "!!timestamp" {
+		node.Tag = "!!str"
+	}
+
+	for i, child := range node.Content {
+		if node.Kind != yaml.MappingNode || i%2 == 1 {
+			keepText(child)
+			continue
+		}
+
+		if child.Kind == yaml.AliasNode {
+			child = child.Alias
+		}
+		if child.Kind == yaml.ScalarNode && child.ShortTag() != "!!merge" {
+			// the same node can be a value in another place
+			key := *child
+			key.Tag = "!!str"
+			node.Content[i] = &key
+		}
+	}
+}
+
 // ParseYaml parses standard YAML (not yisp-extended YAML) into a YispNode
 // A stream of several documents becomes a list of documents
 func ParseYaml(filename string, reader io.Reader) (*YispNode, error) {
 	documents := make([]any, 0)
 	decoder := yaml.NewDecoder(reader)
 	for {
-		var data any
-		if err := decoder.Decode(&data); err != nil {
+		var document yaml.Node
+		if err := decoder.Decode(&document); err != nil {
 			if errors.Is(err, io.EOF) && len(documents) > 0 {
 				break
 			}
 			return nil, fmt.Errorf("failed to decode YAML: %v", err)
 		}
 
-		node, err := ParseAny(filename, data)
+		node, err := ParseYamlNode(filename, &document)
 		if err != nil {
-			return nil, fmt.Errorf("failed to parse YAML: %v", err)
+			return nil, err
 		}
 		documents = append(documents, node)
 	}
-- 
2.43.0


From ee7ff55b485241bdf92aa3086ca15745aa3e121b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:17:07 +0000
Subject: [PATCH 92/99] fix: read timestamps and keys that are not text from
 KRM items

---
 cmd/krm.go | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/cmd/krm.go b/cmd/krm.go
index f693a83..d2fcc13 100644
--- a/cmd/krm.go
+++ b/cmd/krm.go
@@ -4,7 +4,7 @@ import (
 	"github.com/spf13/cobra"
 	"github.com/totegamma/yisp/core"
 	"github.com/totegamma/yisp/engine"
-	"github.com/totegamma/yisp/internal/yaml"
+	"gopkg.in/yaml.v3"
 	"io"
 	"os"
 	"path/filepath"
@@ -33,7 +33,7 @@ type KRMInput struct {
 	ApiVersion     string         `yaml:"apiVersion"`
 	Kind           string         `yaml:"kind"`
 	FunctionConfig FunctionConfig `yaml:"functionConfig"`
-	Items          []any          `yaml:"items"`
+	Items          []yaml.Node    `yaml:"items"`
 }
 
 var krmCmd = &cobra.Command{
@@ -66,22 +66,28 @@ var krmCmd = &cobra.Command{
 			fail("Error:", err)
 		}
 
-		var items []any
-		for _, item := range krmInput.Items {
-			manifest, _ := item.(map[string]any)
-			apiVersion, ok := manifest["apiVersion"]
-			if ok && apiVersion == "krm.yisp.gammalab.net/v1" {
-				continue
-			}
-			items = append(items, item)
-		}
+		itemsFile := filepath.Join(wd, "items.krm.yaml")
 
-		itemNodes, err := core.ParseAny(filepath.Join(wd, "items.krm.yaml"), items)
+		itemNodes, err := core.ParseAny(itemsFile, []any{})
 		if err != nil {
 			fail("Error:", err)
 		}
 		itemNodes.IsDocumentRoot = true
 
+		for _, item := range krmInput.Items {
+			var metadata struct {
+				ApiVersion any `yaml:"apiVersion"`
+			}
+			if item.Decode(&metadata) == nil && metadata.ApiVersion == "krm.yisp.gammalab.net/v1" {
+				continue
+			}
+			itemNode, err := core.ParseYamlNode(itemsFile, &item)
+			if err != nil {
+				fail("Error:", err)
+			}
+			itemNodes.Value = append(itemNodes.Value.([]any), itemNode)
+		}
+
 		env.Set("items", itemNodes)
 
 		if krmInput.FunctionConfig.Spec.YispScript == "" {
-- 
2.43.0


From aee4c64f73dc7115e8a4d85f77ab3265a939ca99 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:18:09 +0000
Subject: [PATCH 93/99] fix: unmarshal timestamps and keys that are not text

---
 lib/yaml.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/yaml.go b/lib/yaml.go
index 377da2e..4394b70 100644
--- a/lib/yaml.go
+++ b/lib/yaml.go
@@ -5,7 +5,7 @@ import (
 	"strings"
 
 	"github.com/totegamma/yisp/core"
-	"github.com/totegamma/yisp/internal/yaml"
+	"gopkg.in/yaml.v3"
 )
 
 func init() {
@@ -52,15 +52,15 @@ func opUnmarshal(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core
 
 	var resultNodes []any
 	for {
-		var value any
-		err := decoder.Decode(&value)
+		var document yaml.Node
+		err := decoder.Decode(&document)
 		if err != nil {
 			if err.Error() == "EOF" {
 				break
 			}
 			return nil, core.NewEvaluationErrorWithParent(node, fmt.Sprintf("failed to decode yaml: `%s`", yamlStr), err)
 		}
-		parsedNode, err := core.ParseAny(node.Attr.File(), value)
+		parsedNode, err := core.ParseYamlNode(node.Attr.File(), &document)
 		if err != nil {
 			return nil, core.NewEvaluationErrorWithParent(node, "failed to parse yaml node", err)
 		}
-- 
2.43.0


From c80922fe020a1d036d249828a64740046b4226b6 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:41:55 +0000
Subject: [PATCH 94/99] fix: keep comments after a document apart from its last
 item

---
 engine/render.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/engine/render.go b/engine/render.go
index 9fa7f95..8cdebf1 100644
--- a/engine/render.go
+++ b/engine/render.go
@@ -99,6 +99,19 @@ func (e *engine) placeComments(node *yaml.Node, isMapValue, inFlow bool) {
 	}
 }
 
+// asDocument returns the document that holds a node as its content.
+func (e *engine) asDocument(node *yaml.Node) *yaml.Node {
+	// what is written after the content is not part of its last item
+	foot := node.FootComment
+	node.FootComment = ""
+	e.placeComments(node, false, false)
+	return &yaml.Node{
+		Kind:        yaml.DocumentNode,
+		Content:     []*yaml.Node{node},
+		FootComment: foot,
+	}
+}
+
 // keyTag returns the tag to render a map key with. Keys are strings unless
 // the key was written as another type and still reads as that type.
 func keyTag(key, sourceTag string) string {
@@ -374,9 +387,8 @@ func (e *engine) Render(node *core.YispNode) (string, error) {
 			if rendered == nil {
 				continue
 			}
-			e.placeComments(rendered, false, false)
 
-			if err := enc.Encode(rendered); err != nil {
+			if err := enc.Encode(e.asDocument(rendered)); err != nil {
 				return "", err
 			}
 			encoded = true
@@ -395,7 +407,7 @@ func (e *engine) Render(node *core.YispNode) (string, error) {
 			return "", err
 		}
 		if rendered != nil {
-			e.placeComments(rendered, false, false)
+			rendered = e.asDocument(rendered)
 		}
 		b, err := yaml.Marshal(rendered)
 		if err != nil {
-- 
2.43.0


From a8871a22de67945058fceffe31f5f9fb746bcf8e Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 22:27:01 +0000
Subject: [PATCH 95/99] fix: leave block scalars that begin with a large number
 as blocks

---
 engine/render.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/engine/render.go b/engine/render.go
index 8cdebf1..3cf9da2 100644
--- a/engine/render.go
+++ b/engine/render.go
@@ -147,6 +147,9 @@ func stringStyle(value string, style yaml.Style) yaml.Style {
 	if style&yaml.FoldedStyle != 0 && (strings.HasSuffix(value, "\n\n") || strings.Contains(value, "\n ") || strings.Contains(value, "\n\t")) {
 		return style&^yaml.FoldedStyle | yaml.LiteralStyle // these line breaks are not folded, but written as if they were
 	}
+	if isBlock {
+		return style // block scalars are never numbers
+	}
 	_, intErr := strconv.ParseInt(value, 0, 64)
 	_, floatErr := strconv.ParseFloat(value, 64)
 	if errors.Is(intErr, strconv.ErrRange) || errors.Is(floatErr, strconv.ErrRange) {
-- 
2.43.0


From bc3d83fbfa743e02b8181d164b149a9e7fdb9f82 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 22:50:33 +0000
Subject: [PATCH 96/99] fix: take numbers of every Go type as numbers

---
 core/parse.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/core/parse.go b/core/parse.go
index cfbbf2e..10217d0 100644
--- a/core/parse.go
+++ b/core/parse.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"maps"
+	"math"
 	"reflect"
 	"slices"
 	"strconv"
@@ -27,6 +28,16 @@ func ParseAny(filename string, v any) (*YispNode, error) {
 		}
 	}
 
+	// numbers are held as int and float64 only
+	switch value := reflect.ValueOf(v); {
+	case value.CanInt():
+		v = int(value.Int())
+	case value.CanUint() && value.Uint() <= math.MaxInt:
+		v = int(value.Uint())
+	case value.CanFloat():
+		v = value.Float()
+	}
+
 	typ := reflect.TypeOf(v)
 	if typ == nil {
 		return &YispNode{
-- 
2.43.0


From f0aafd0dd0b452da5198ce87fd52fb72688ffc08 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:34:44 +0000
Subject: [PATCH 97/99] fix: take manifests whose identity is merged in as
 manifests

---
 engine/eval.go | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/engine/eval.go b/engine/eval.go
index 82b1690..b1a559d 100644
--- a/engine/eval.go
+++ b/engine/eval.go
@@ -34,6 +34,17 @@ func placed(value, place *core.YispNode) *core.YispNode {
 	return &copied
 }
 
+// stringEntry returns the value of an entry that is a string
+func stringEntry(m *core.YispMap, key string) string {
+	item, _ := m.Get(key)
+	node, ok := item.(*core.YispNode)
+	if !ok {
+		return ""
+	}
+	value, _ := node.Value.(string)
+	return value
+}
+
 // Eval evaluates a core.YispNode in the given environment
 func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*core.YispNode, error) {
 
@@ -384,9 +395,6 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 			return nil, core.NewEvaluationError(node, fmt.Sprintf("invalid map type: %T", node.Value))
 		}
 		results := core.NewYispMap()
-		var schemaID string
-		var apiVersion string
-		var kind string
 		for key, item := range m.AllFromFront() {
 			node, ok := item.(*core.YispNode)
 			if !ok {
@@ -398,15 +406,6 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 				return nil, core.NewEvaluationErrorWithParent(node, "failed to evaluate item", err)
 			}
 
-			switch key {
-			case "$schema":
-				schemaID, _ = val.Value.(string)
-			case "apiVersion":
-				apiVersion, _ = val.Value.(string)
-			case "kind":
-				kind, _ = val.Value.(string)
-			}
-
 			if strings.HasPrefix(key, core.YISP_SPECIAL_MERGE_KEY) {
 				if val.Kind == core.KindMap {
 					innerMap, ok := val.Value.(*core.YispMap)
@@ -453,6 +452,11 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 			Attr:  node.Attr,
 		}
 
+		// merged entries count like the ones written here
+		schemaID := stringEntry(results, "$schema")
+		apiVersion := stringEntry(results, "apiVersion")
+		kind := stringEntry(results, "kind")
+
 		if schemaID != "" {
 			schema, err := core.LoadSchemaFromURL(schemaID)
 			if err != nil && !e.allowUntypedManifest {
-- 
2.43.0


From e2750bcd9ec1fd1f8744531f30f21c284ebdeb42 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 02:05:24 +0000
Subject: [PATCH 98/99] fix: read the timestamp of a key that is a value
 elsewhere as text

---
 core/parse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/parse.go b/core/parse.go
index 10217d0..569e2b1 100644
--- a/core/parse.go
+++ b/core/parse.go
@@ -199,6 +199,10 @@ func ParseYamlNode(filename string, node *yaml.Node) (*YispNode, error) {
 // keepText makes timestamps and scalar keys, which have no type of their own
 // here, strings of the text they are written as
 func keepText(node *yaml.Node) {
+	if node.Kind == yaml.AliasNode && node.Alias.Kind == yaml.ScalarNode {
+		node = node.Alias // it can be a key, which is not a value where it is
+	}
+
 	if node.Kind == yaml.ScalarNode && node.ShortTag() == "!!timestamp" {
 		node.Tag = "!!str"
 	}
-- 
2.43.0


From f4c7a402c40e9c65273361ed07791a1ed79e9eed Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 02:43:21 +0000
Subject: [PATCH 99/99] fix: no memory addresses in the errors of comparisons

---
 engine/util.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/engine/util.go b/engine/util.go
index 40dc5b6..714a2cf 100644
--- a/engine/util.go
+++ b/engine/util.go
@@ -67,6 +67,16 @@ func compareValues(cdr []*core.YispNode, opName string, expectEqual bool) (*core
 	}, nil
 }
 
+// describe names the kind and the value of a node for an error message. It prints the native value,
+// because the internal one can contain memory addresses, which differ from run to run.
+func describe(node *core.YispNode) string {
+	native, err := node.ToNative()
+	if err != nil {
+		return node.Kind.String()
+	}
+	return fmt.Sprintf("%s (value: %v)", node.Kind, native)
+}
+
 // compareNumbers compares two numbers using the provided comparison function
 // It handles both integers and floating point numbers
 func compareNumbers(cdr []*core.YispNode, opName string, cmp func(float64, float64) bool) (*core.YispNode, error) {
@@ -78,14 +88,14 @@ func compareNumbers(cdr []*core.YispNode, opName string, cmp func(float64, float
 	switch firstNode.Value.(type) {
 	case int, float64:
 	default:
-		return nil, core.NewEvaluationError(firstNode, fmt.Sprintf("invalid first argument type for %s: %T (value: %v)", opName, firstNode.Value, firstNode.Value))
+		return nil, core.NewEvaluationError(firstNode, fmt.Sprintf("invalid first argument type for %s: %s", opName, describe(firstNode)))
 	}
 
 	secondNode := cdr[1]
 	switch secondNode.Value.(type) {
 	case int, float64:
 	default:
-		return nil, core.NewEvaluationError(secondNode, fmt.Sprintf("invalid second argument type for %s: %T (value: %v)", opName, secondNode.Value, secondNode.Value))
+		return nil, core.NewEvaluationError(secondNode, fmt.Sprintf("invalid second argument type for %s: %s", opName, describe(secondNode)))
 	}
 
 	// float64 cannot tell large integers apart, so compare the order of the numbers instead
-- 
2.43.0

