From ffdaa7abe05576571033a30d7b654fc6000b0f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 01/58] fix: strings.HasPrefix tested the suffix

---
 functions/strings.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/functions/strings.go b/functions/strings.go
index 72640ff..b2d3e94 100644
--- a/functions/strings.go
+++ b/functions/strings.go
@@ -21,8 +21,8 @@ func (s Strings) HasSuffix(val, suffix string) bool {
 	return strings.HasSuffix(val, suffix)
 }
 
-func (s Strings) HasPrefix(val, suffix string) bool {
-	return strings.HasSuffix(val, suffix)
+func (s Strings) HasPrefix(val, prefix string) bool {
+	return strings.HasPrefix(val, prefix)
 }
 
 func (s Strings) Index(val, substr string) int {
-- 
2.43.0


From d30a4df50677addfef6860321c9224de84de9f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 02/58] fix: remove debug output from integer equality

---
 est/expr/int.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/est/expr/int.go b/est/expr/int.go
index bdbbe7a..7c10dde 100644
--- a/est/expr/int.go
+++ b/est/expr/int.go
@@ -1,7 +1,6 @@
 package expr
 
 import (
-	"fmt"
 	"github.com/viant/velty/ast"
 	est "github.com/viant/velty/est"
 	"unsafe"
@@ -149,7 +148,6 @@ func (b *binaryExpr) indirectIntEq(state *est.State) unsafe.Pointer {
 	y := b.y.Exec(state)
 	z := est.FalseValuePtr
 
-	fmt.Println(*(*int)(x), *(*int)(y))
 	if *(*int)(x) == *(*int)(y) {
 		z = est.TrueValuePtr
 	}
-- 
2.43.0


From a86d224e598d03efb568ea652b5ff0d7266fb0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 03/58] fix: float32 and bool assignment stored the destination
 into itself

---
 est/stmt/assign/assign.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/est/stmt/assign/assign.go b/est/stmt/assign/assign.go
index 21bf83d..27617ec 100644
--- a/est/stmt/assign/assign.go
+++ b/est/stmt/assign/assign.go
@@ -143,7 +143,7 @@ func (a *assign) assignValue() est.Compute {
 			return func(state *est.State) unsafe.Pointer {
 				destPtr := a.x.Exec(state)
 				srcPtr := a.y.Exec(state)
-				*(*float32)(destPtr) = *(*float32)(destPtr)
+				*(*float32)(destPtr) = *(*float32)(srcPtr)
 				return srcPtr
 			}
 		} else {
@@ -152,7 +152,7 @@ func (a *assign) assignValue() est.Compute {
 				srcPtr := a.y.Exec(state)
 
 				if srcPtr != nil {
-					*(**float32)(destPtr) = *(**float32)(destPtr)
+					*(**float32)(destPtr) = *(**float32)(srcPtr)
 				}
 				return srcPtr
 			}
@@ -162,7 +162,7 @@ func (a *assign) assignValue() est.Compute {
 			return func(state *est.State) unsafe.Pointer {
 				destPtr := a.x.Exec(state)
 				srcPtr := a.y.Exec(state)
-				*(*bool)(destPtr) = *(*bool)(destPtr)
+				*(*bool)(destPtr) = *(*bool)(srcPtr)
 				return srcPtr
 			}
 		} else {
@@ -170,7 +170,7 @@ func (a *assign) assignValue() est.Compute {
 				destPtr := a.x.Exec(state)
 				srcPtr := a.y.Exec(state)
 				if srcPtr != nil {
-					*(**bool)(destPtr) = *(**bool)(destPtr)
+					*(**bool)(destPtr) = *(**bool)(srcPtr)
 				}
 				return srcPtr
 			}
-- 
2.43.0


From 86a9f99e70608fb8f05451951f19b30bf75b4f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:51 +0000
Subject: [PATCH 04/58] fix: #evaluate of a non-string operand read arbitrary
 memory

---
 stmt.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stmt.go b/stmt.go
index 7d1acd6..08abe8f 100644
--- a/stmt.go
+++ b/stmt.go
@@ -167,5 +167,9 @@ func (p *Planner) compileEvaluate(actual *stmt2.Evaluate) (est.New, error) {
 		return nil, err
 	}
 
+	if selector.Type == nil || selector.Type.Kind() != reflect.String {
+		return nil, fmt.Errorf("unsupported #evaluate operand type: %v, expected string", selector.Type)
+	}
+
 	return evaluate(selector, p.cache, p)
 }
-- 
2.43.0


From 9a57e452a84e170aa77e40cefbf10b2529a6705b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:47 +0000
Subject: [PATCH 05/58] fix: #set of a scalar variable skipped the type
 conversion of the assigned value

---
 est/stmt/assign/assign.go | 10 ++++++++++
 est/stmt/assign/bool.go   |  8 ++++----
 est/stmt/assign/float.go  |  8 ++++----
 est/stmt/assign/int.go    |  8 ++++----
 est/stmt/assign/string.go |  8 ++++----
 5 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/est/stmt/assign/assign.go b/est/stmt/assign/assign.go
index 27617ec..e8f6ffd 100644
--- a/est/stmt/assign/assign.go
+++ b/est/stmt/assign/assign.go
@@ -12,6 +12,16 @@ type assign struct {
 	x, y *op2.Operand
 }
 
+//source returns a pointer to the assigned value converted to the destination type, or zeroPtr if the value is nil
+func (a *assign) source(state *est.State, zeroPtr unsafe.Pointer) unsafe.Pointer {
+	ptr := a.y.Exec(state)
+	if ptr == nil {
+		return zeroPtr
+	}
+
+	return ptr
+}
+
 func (a *assign) assignValue() est.Compute {
 	a.x.Sel.Field.MustBeAssignable(a.y.Type)
 
diff --git a/est/stmt/assign/bool.go b/est/stmt/assign/bool.go
index 65fe8a9..dd7b02f 100644
--- a/est/stmt/assign/bool.go
+++ b/est/stmt/assign/bool.go
@@ -19,24 +19,24 @@ func (a *assign) assignAsBool() est.Compute {
 
 func (a *assign) assignBoolComp(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*bool)(ret) = *(*bool)(a.y.Comp(state))
+	*(*bool)(ret) = *(*bool)(a.source(state, est.FalseValuePtr))
 	return ret
 }
 
 func (a *assign) assignBoolOffset(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*bool)(ret) = *(*bool)(a.y.Pointer(state))
+	*(*bool)(ret) = *(*bool)(a.source(state, est.FalseValuePtr))
 	return ret
 }
 
 func (a *assign) assignBoolSelPtr(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*bool)(ret) = *(*bool)(a.y.Pointer(state))
+	*(*bool)(ret) = *(*bool)(a.source(state, est.FalseValuePtr))
 	return ret
 }
 
 func (a *assign) assignBoolLiteral(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*bool)(ret) = *(*bool)(*a.y.LiteralPtr)
+	*(*bool)(ret) = *(*bool)(a.source(state, est.FalseValuePtr))
 	return ret
 }
diff --git a/est/stmt/assign/float.go b/est/stmt/assign/float.go
index 837993c..3889569 100644
--- a/est/stmt/assign/float.go
+++ b/est/stmt/assign/float.go
@@ -19,24 +19,24 @@ func (a *assign) assignAsFloat() est.Compute {
 
 func (a *assign) assignFloatComp(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*float64)(ret) = *(*float64)(a.y.Comp(state))
+	*(*float64)(ret) = *(*float64)(a.source(state, est.ZeroFloatPtr))
 	return ret
 }
 
 func (a *assign) assignFloatOffset(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*float64)(ret) = *(*float64)(a.y.Pointer(state))
+	*(*float64)(ret) = *(*float64)(a.source(state, est.ZeroFloatPtr))
 	return ret
 }
 
 func (a *assign) assignFloatSelPtr(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*float64)(ret) = *(*float64)(a.y.Pointer(state))
+	*(*float64)(ret) = *(*float64)(a.source(state, est.ZeroFloatPtr))
 	return ret
 }
 
 func (a *assign) assignFloatLiteral(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*float64)(ret) = *(*float64)(*a.y.LiteralPtr)
+	*(*float64)(ret) = *(*float64)(a.source(state, est.ZeroFloatPtr))
 	return ret
 }
diff --git a/est/stmt/assign/int.go b/est/stmt/assign/int.go
index cb596cf..14cde7f 100644
--- a/est/stmt/assign/int.go
+++ b/est/stmt/assign/int.go
@@ -19,25 +19,25 @@ func (a *assign) assignAsInt() est.Compute {
 
 func (a *assign) assignIntLiteral(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*int)(ret) = *(*int)(*a.y.LiteralPtr)
+	*(*int)(ret) = *(*int)(a.source(state, est.ZeroIntPtr))
 
 	return ret
 }
 
 func (a *assign) assignIntComp(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*int)(ret) = *(*int)(a.y.Comp(state))
+	*(*int)(ret) = *(*int)(a.source(state, est.ZeroIntPtr))
 	return ret
 }
 
 func (a *assign) assignIntOffset(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*int)(ret) = *(*int)(a.y.Pointer(state))
+	*(*int)(ret) = *(*int)(a.source(state, est.ZeroIntPtr))
 	return ret
 }
 
 func (a *assign) assignIntSelPtr(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*int)(ret) = *(*int)(a.y.Pointer(state))
+	*(*int)(ret) = *(*int)(a.source(state, est.ZeroIntPtr))
 	return ret
 }
diff --git a/est/stmt/assign/string.go b/est/stmt/assign/string.go
index 0c9ce60..85974db 100644
--- a/est/stmt/assign/string.go
+++ b/est/stmt/assign/string.go
@@ -19,24 +19,24 @@ func (a *assign) assignAsString() est.Compute {
 
 func (a *assign) assignStringComp(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*string)(ret) = *(*string)(a.y.Comp(state))
+	*(*string)(ret) = *(*string)(a.source(state, est.EmptyStringPtr))
 	return ret
 }
 
 func (a *assign) assignStringOffset(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*string)(ret) = *(*string)(a.y.Pointer(state))
+	*(*string)(ret) = *(*string)(a.source(state, est.EmptyStringPtr))
 	return ret
 }
 
 func (a *assign) assignStringSelPtr(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*string)(ret) = *(*string)(a.y.Pointer(state))
+	*(*string)(ret) = *(*string)(a.source(state, est.EmptyStringPtr))
 	return ret
 }
 
 func (a *assign) assignStringLiteral(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*string)(ret) = *(*string)(*a.y.LiteralPtr)
+	*(*string)(ret) = *(*string)(a.source(state, est.EmptyStringPtr))
 	return ret
 }
-- 
2.43.0


From a31cc4fb172aba34a5443dbe8184a0185385a545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:44 +0000
Subject: [PATCH 06/58] fix: binary operators on mixed numeric types or
 pointers used unconverted operands

---
 binary.go | 46 ++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 42 insertions(+), 4 deletions(-)

diff --git a/binary.go b/binary.go
index bf02779..d1d613a 100644
--- a/binary.go
+++ b/binary.go
@@ -1,6 +1,7 @@
 package velty
 
 import (
+	"github.com/viant/velty/ast"
 	"github.com/viant/velty/ast/expr"
 	eexpr "github.com/viant/velty/est/expr"
 	"github.com/viant/velty/est/op"
@@ -19,15 +20,18 @@ func (p *Planner) compileBinary(actual *expr.Binary) (*op.Expression, error) {
 		return nil, err
 	}
 
-	unify, err := types.NormalizeAndUnify(x.Type, y.Type)
+	operandType, err := unifyOperands(x, y)
 	if err != nil {
 		return nil, err
 	}
 
-	x.Unify = unify.X
-	y.Unify = unify.Y
+	resultType := operandType
+	switch actual.Token {
+	case ast.ADD, ast.SUB, ast.MUL, ast.QUO:
+	default:
+		resultType = notNilType(types.NormalizeType(actual.Type()), operandType)
+	}
 
-	resultType := notNilType(types.NormalizeType(actual.Type()), unify.RType)
 	acc := p.accumulator(resultType)
 	resultExpr := &op.Expression{Selector: acc, Type: acc.Type}
 
@@ -42,6 +46,40 @@ func (p *Planner) compileBinary(actual *expr.Binary) (*op.Expression, error) {
 	}, nil
 }
 
+//unifyOperands converts both operands to their common type, and returns that type
+func unifyOperands(x, y *op.Expression) (reflect.Type, error) {
+	if x.Type == nil || y.Type == nil {
+		return notNilType(x.Type, y.Type), nil
+	}
+
+	common, err := types.NormalizeAndUnify(types.NormalizeType(x.Type), types.NormalizeType(y.Type))
+	if err != nil {
+		return nil, err
+	}
+
+	unifyX, err := types.New(common.RType, x.Type)
+	if err != nil {
+		return nil, err
+	}
+
+	unifyY, err := types.New(common.RType, y.Type)
+	if err != nil {
+		return nil, err
+	}
+
+	x.Unify = unifyX.Y
+	y.Unify = unifyY.Y
+
+	exprType := common.RType
+	if x.Type.Kind() == reflect.Ptr || y.Type.Kind() == reflect.Ptr {
+		exprType = reflect.PtrTo(exprType) //operands can be nil
+	}
+	x.Type = exprType
+	y.Type = exprType
+
+	return common.RType, nil
+}
+
 func notNilType(types ...reflect.Type) reflect.Type {
 	for _, rType := range types {
 		if rType != nil {
-- 
2.43.0


From 08556432bb3042747c813cea66e0d12130597808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:53 +0000
Subject: [PATCH 07/58] fix: undefined operand reported at compile time instead
 of a broken selector

---
 est/expr/binary.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/est/expr/binary.go b/est/expr/binary.go
index a9cd7d6..d9f9709 100644
--- a/est/expr/binary.go
+++ b/est/expr/binary.go
@@ -5,7 +5,6 @@ import (
 	"github.com/viant/velty/ast"
 	"github.com/viant/velty/est"
 	"github.com/viant/velty/est/op"
-	"github.com/viant/velty/est/stmt"
 	"reflect"
 )
 
@@ -17,8 +16,10 @@ type binaryExpr struct {
 
 func Binary(token ast.Token, exprs ...*op.Expression) (est.New, error) {
 	return func(control est.Control) (est.Compute, error) {
-		if exprs[0].Type == nil {
-			return stmt.Selector(exprs[0], false)(control)
+		for _, operand := range []*op.Expression{exprs[op.X], exprs[op.Y]} {
+			if operand.Type == nil {
+				return nil, fmt.Errorf("undefined operand %v of %v", operand.Selector.Placeholder, token)
+			}
 		}
 
 		oprands, err := op.Expressions(exprs).Operands(control, false)
-- 
2.43.0


From 747ad247d06579bf3ec28d045f081948d0e9f602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:53 +0000
Subject: [PATCH 08/58] fix: unsigned pointer less-than compared as signed

---
 est/expr/ptr.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/est/expr/ptr.go b/est/expr/ptr.go
index ddfc9e2..63d52c2 100644
--- a/est/expr/ptr.go
+++ b/est/expr/ptr.go
@@ -70,7 +70,7 @@ func computePtr(rType reflect.Type, token ast.Token, binary *binaryExpr, indirec
 		case ast.GTE:
 			return compareUintGreaterOrEqual(binary)
 		case ast.LSS:
-			return compareUint8Less(binary)
+			return compareUintLess(binary)
 		case ast.LEQ:
 			return compareUintLessOrEqual(binary)
 		case ast.NEQ:
@@ -979,6 +979,31 @@ func compareInt32Less(binary *binaryExpr) (est.Compute, error) {
 	}, nil
 }
 
+func compareUintLess(binary *binaryExpr) (est.Compute, error) {
+	return func(state *est.State) unsafe.Pointer {
+		xPtr := binary.x.Exec(state)
+		yPtr := binary.y.Exec(state)
+
+		if yPtr == nil && xPtr == nil {
+			return est.FalseValuePtr
+		}
+
+		if xPtr != nil && yPtr == nil {
+			return est.FalseValuePtr
+		}
+
+		if yPtr != nil && xPtr == nil {
+			return est.TrueValuePtr
+		}
+
+		if xunsafe.AsUint(xPtr) < xunsafe.AsUint(yPtr) {
+			return est.TrueValuePtr
+		}
+
+		return est.FalseValuePtr
+	}, nil
+}
+
 func compareUint8Less(binary *binaryExpr) (est.Compute, error) {
 	return func(state *est.State) unsafe.Pointer {
 		xPtr := binary.x.Exec(state)
-- 
2.43.0


From 75b3ef6ba8de482b156f75aec1ef72f3b8e448cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:31 +0000
Subject: [PATCH 09/58] fix: != of float pointers was not supported

---
 est/expr/ptr.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/est/expr/ptr.go b/est/expr/ptr.go
index 63d52c2..81b388c 100644
--- a/est/expr/ptr.go
+++ b/est/expr/ptr.go
@@ -163,6 +163,8 @@ func computePtr(rType reflect.Type, token ast.Token, binary *binaryExpr, indirec
 			return compareFloat32PtrLessEqual(binary)
 		case ast.EQ:
 			return compareFloat32PtrEqual(binary)
+		case ast.NEQ:
+			return compareFloat32PtrNotEqual(binary)
 		default:
 			return nil, fmt.Errorf("unsupported token %v for float32", token)
 		}
@@ -179,6 +181,8 @@ func computePtr(rType reflect.Type, token ast.Token, binary *binaryExpr, indirec
 			return compareFloat64PtrLessEqual(binary)
 		case ast.EQ:
 			return compareFloat64PtrEqual(binary)
+		case ast.NEQ:
+			return compareFloat64PtrNotEqual(binary)
 		default:
 			return nil, fmt.Errorf("unsupported token %v for float64", token)
 		}
-- 
2.43.0


From c324b40ed4b26473569e961a723c682453732b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:31 +0000
Subject: [PATCH 10/58] fix: identity of an indirect bool operand was negated

---
 est/expr/bool.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/est/expr/bool.go b/est/expr/bool.go
index efe6c20..b8b942f 100644
--- a/est/expr/bool.go
+++ b/est/expr/bool.go
@@ -158,7 +158,7 @@ func (e *unaryExpr) indirectBool(state *est.State) unsafe.Pointer {
 	x := e.x.Exec(state)
 	y := est.FalseValuePtr
 
-	if *(*bool)(x) == *(*bool)(y) {
+	if *(*bool)(x) {
 		y = est.TrueValuePtr
 	}
 	return y
-- 
2.43.0


From a9768034d96b0adeb24d959cbfb36cca84c262bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:31 +0000
Subject: [PATCH 11/58] fix: text in front of a comment was dropped

---
 parser/parser.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 95a0464..3d74188 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -29,16 +29,16 @@ outer:
 			break
 		}
 
-		if cursor.Input[cursor.Pos] == '#' {
-			cursor.MatchOne(NewLine)
-			continue
-		}
-
 		err := appendStatementIfNeeded(text, builder)
 		if err != nil {
 			return nil, cursorErr(cursor, err)
 		}
 
+		if cursor.Input[cursor.Pos-1] == '#' && cursor.Input[cursor.Pos] == '#' {
+			cursor.MatchOne(NewLine)
+			continue
+		}
+
 		lastPosition := cursor.Pos - 1
 		switch cursor.Input[cursor.Pos-1] {
 		case '$':
-- 
2.43.0


From c74473f09960c98e62c0b2297052e4fd704650d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:31 +0000
Subject: [PATCH 12/58] fix: AppendByte failed to grow an empty buffer

---
 est/buffer.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/est/buffer.go b/est/buffer.go
index 94399da..c650a00 100644
--- a/est/buffer.go
+++ b/est/buffer.go
@@ -14,10 +14,7 @@ type Buffer struct {
 }
 
 func (b *Buffer) AppendByte(bs byte) {
-	if b.index+1 >= len(b.buf) {
-		newBuffer := make([]byte, len(b.buf)+b.poolSize)
-		b.buf = append(b.buf, newBuffer...)
-	}
+	b.growIfNeeded(1)
 	b.buf[b.index] = bs
 	b.index++
 }
-- 
2.43.0


From 1380952dc59dffa64aa82db441180f5ff8b157de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:31 +0000
Subject: [PATCH 13/58] fix: compound assignment in the #for post statement

---
 parser/lex.go   | 12 ++++++------
 parser/range.go |  7 ++++---
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/parser/lex.go b/parser/lex.go
index 687099c..21fef88 100644
--- a/parser/lex.go
+++ b/parser/lex.go
@@ -121,16 +121,16 @@ var Boolean = parsly.NewToken(booleanToken, "Boolean", matcher.NewFragments([]by
 var Number = parsly.NewToken(numberToken, "Number", matcher.NewNumber())
 
 var Add = parsly.NewToken(addToken, "Add", matcher.NewByte('+'))
-var AddEqual = parsly.NewToken(addEqualToken, "Add equal", matcher.NewBytes([]byte("+=")))
+var AddEqual = parsly.NewToken(addEqualToken, "Add equal", matcher.NewFragment("+="))
 var Sub = parsly.NewToken(subToken, "Subtract", matcher.NewByte('-'))
-var SubEqual = parsly.NewToken(subEqualToken, "Subtract equal", matcher.NewBytes([]byte("-=")))
+var SubEqual = parsly.NewToken(subEqualToken, "Subtract equal", matcher.NewFragment("-="))
 var Multiply = parsly.NewToken(mulToken, "Multiply", matcher.NewByte('*'))
-var MultiplyEqual = parsly.NewToken(mulEqualToken, "Multiply equal", matcher.NewBytes([]byte("*=")))
+var MultiplyEqual = parsly.NewToken(mulEqualToken, "Multiply equal", matcher.NewFragment("*="))
 var Quo = parsly.NewToken(quoToken, "Quo", matcher.NewByte('/'))
-var QuoEqual = parsly.NewToken(quoEqualToken, "Quo equal", matcher.NewBytes([]byte("/=")))
+var QuoEqual = parsly.NewToken(quoEqualToken, "Quo equal", matcher.NewFragment("/="))
 
-var Decrement = parsly.NewToken(decrementToken, "Decrement", matcher.NewBytes([]byte("--")))
-var Increment = parsly.NewToken(incrementToken, "Increment", matcher.NewBytes([]byte("++")))
+var Decrement = parsly.NewToken(decrementToken, "Decrement", matcher.NewFragment("--"))
+var Increment = parsly.NewToken(incrementToken, "Increment", matcher.NewFragment("++"))
 
 var ComaTerminator = parsly.NewToken(comaToken, "Coma", matcher.NewTerminator(',', true))
 var NewLine = parsly.NewToken(newLineToken, "New line", matcher3.NewNewLine())
diff --git a/parser/range.go b/parser/range.go
index 715646c..11b67d9 100644
--- a/parser/range.go
+++ b/parser/range.go
@@ -96,13 +96,14 @@ func matchForPost(cursor *parsly.Cursor) (ast2.Statement, error) {
 		}, nil
 	}
 
-	token := matchToken(matched)
-	_, rightOperand, err := matchOperand(cursor)
+	operator := *matched //cursor reuses the match
+	token := matchToken(&operator)
+	_, rightOperand, err := matchOperand(cursor, dataTypeMatchers...)
 	if err != nil {
 		return nil, err
 	}
 
-	token, rightOperand = normalizeTokensIfNeeded(variable, token, rightOperand, matched)
+	token, rightOperand = normalizeTokensIfNeeded(variable, token, rightOperand, &operator)
 
 	return &stmt.Statement{
 		X:  variable,
-- 
2.43.0


From 653a1db0304588513bde87d97b469775bc81bd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:35 +0000
Subject: [PATCH 14/58] fix: expressions were grouped to the right regardless
 of operator precedence

---
 ast/expr/binary.go |  33 ++++++++++++++
 ast/token.go       |  16 +++++++
 binary.go          |   1 +
 parser/expr.go     |  13 +-----
 parser/operand.go  | 104 ++++++++++++++-------------------------------
 parser/token.go    |   8 ++--
 6 files changed, 86 insertions(+), 89 deletions(-)

diff --git a/ast/expr/binary.go b/ast/expr/binary.go
index 3956e6f..9542ebc 100644
--- a/ast/expr/binary.go
+++ b/ast/expr/binary.go
@@ -32,3 +32,36 @@ func BinaryExpression(left ast2.Expression, token ast2.Token, right ast2.Express
 		Y:     right,
 	}
 }
+
+//Group returns the expression with the operators, that parser chains on the right operand, grouped by precedence, left to right
+func (b *Binary) Group() *Binary {
+	operands := []ast2.Expression{b.X}
+	tokens := []ast2.Token{b.Token}
+	last := b.Y
+	for {
+		next, ok := last.(*Binary)
+		if !ok {
+			break
+		}
+
+		operands = append(operands, next.X)
+		tokens = append(tokens, next.Token)
+		last = next.Y
+	}
+	operands = append(operands, last)
+
+	for len(tokens) > 1 {
+		tightest := 0
+		for i, token := range tokens {
+			if token.Precedence() > tokens[tightest].Precedence() {
+				tightest = i
+			}
+		}
+
+		operands[tightest] = &Parentheses{P: BinaryExpression(operands[tightest], tokens[tightest], operands[tightest+1])}
+		operands = append(operands[:tightest+1], operands[tightest+2:]...)
+		tokens = append(tokens[:tightest], tokens[tightest+1:]...)
+	}
+
+	return BinaryExpression(operands[0], tokens[0], operands[1])
+}
diff --git a/ast/token.go b/ast/token.go
index 422e605..057e832 100644
--- a/ast/token.go
+++ b/ast/token.go
@@ -21,3 +21,19 @@ const (
 
 	SliceValue = Token("[]")
 )
+
+//Precedence returns binary operator precedence, an operator with the higher precedence binds tighter
+func (t Token) Precedence() int {
+	switch t {
+	case MUL, QUO:
+		return 5
+	case ADD, SUB:
+		return 4
+	case AND:
+		return 2
+	case OR:
+		return 1
+	default:
+		return 3
+	}
+}
diff --git a/binary.go b/binary.go
index d1d613a..7c69442 100644
--- a/binary.go
+++ b/binary.go
@@ -10,6 +10,7 @@ import (
 )
 
 func (p *Planner) compileBinary(actual *expr.Binary) (*op.Expression, error) {
+	actual = actual.Group()
 	x, err := p.compileExpr(actual.X)
 	if err != nil {
 		return nil, err
diff --git a/parser/expr.go b/parser/expr.go
index db55394..0600348 100644
--- a/parser/expr.go
+++ b/parser/expr.go
@@ -14,9 +14,6 @@ func matchEquationExpression(cursor *parsly.Cursor) (ast2.Expression, error) {
 	case parenthesesToken:
 		expressionValue := matched.Text(cursor)
 
-		matched = cursor.MatchAfterOptional(WhiteSpace, Negation)
-		shouldNegate := matched.Code == negationToken
-
 		expressionCursor := parsly.NewCursor("", []byte(expressionValue[1:len(expressionValue)-1]), 0)
 		expression, err := matchEquationExpression(expressionCursor)
 		if err != nil {
@@ -27,15 +24,7 @@ func matchEquationExpression(cursor *parsly.Cursor) (ast2.Expression, error) {
 			return nil, err
 		}
 
-		var result ast2.Expression = &expr.Parentheses{P: expression}
-		if shouldNegate {
-			result = &expr.Unary{
-				Token: ast2.NEG,
-				X:     result,
-			}
-		}
-
-		return result, nil
+		return &expr.Parentheses{P: expression}, nil
 	default:
 		_, expression, err := matchOperand(cursor, dataTypeMatchers...)
 		if err != nil {
diff --git a/parser/operand.go b/parser/operand.go
index 495746a..cacae01 100644
--- a/parser/operand.go
+++ b/parser/operand.go
@@ -9,7 +9,22 @@ import (
 
 var dataTypeMatchers = []*parsly.Token{String, Boolean, Number}
 
+//matchOperand matches an operand and the binary operators that follow it
 func matchOperand(cursor *parsly.Cursor, candidates ...*parsly.Token) (*parsly.Token, ast2.Expression, error) {
+	matcher, expression, err := matchSingleOperand(cursor, candidates...)
+	if err != nil {
+		return nil, nil, err
+	}
+
+	if err = addEquationIfNeeded(cursor, &expression); err != nil {
+		return nil, nil, err
+	}
+
+	return matcher, expression, nil
+}
+
+//matchSingleOperand matches an operand without the operators that follow it
+func matchSingleOperand(cursor *parsly.Cursor, candidates ...*parsly.Token) (*parsly.Token, ast2.Expression, error) {
 	matched := cursor.MatchAfterOptional(WhiteSpace, Negation)
 	hasNegation := matched.Code == negationToken
 
@@ -27,21 +42,13 @@ func matchOperand(cursor *parsly.Cursor, candidates ...*parsly.Token) (*parsly.T
 	case parenthesesToken:
 		text := matched.Text(cursor)
 		newCursor := parsly.NewCursor("", []byte(text[1:len(text)-1]), 0)
-		token, expr, err := matchOperand(newCursor, candidates...)
+		matcher, expression, err = matchOperand(newCursor, dataTypeMatchers...)
 		if err != nil {
 			return nil, nil, err
 		}
 
-		expr = &aexpr.Parentheses{P: expr}
+		expression = &aexpr.Parentheses{P: expression}
 
-		if hasNegation {
-			expr = &aexpr.Unary{
-				Token: ast2.NEG,
-				X:     expr,
-			}
-		}
-
-		return token, expr, nil
 	case stringToken:
 		value := matched.Text(cursor)
 		matcher = String
@@ -96,78 +103,29 @@ func matchOperand(cursor *parsly.Cursor, candidates ...*parsly.Token) (*parsly.T
 			X:     expression,
 		}
 	}
-	err = addEquationIfNeeded(cursor, &expression)
-	if err != nil {
-		return nil, nil, err
-	}
-
 	return matcher, expression, nil
 }
 
+//addEquationIfNeeded chains operators on the right operand, they are grouped by Binary.Group
 func addEquationIfNeeded(cursor *parsly.Cursor, expression *ast2.Expression) error {
-	for {
-		candidates := []*parsly.Token{Add, Sub, Multiply, Quo, NotEqual, Negation, Equal, And, Or, GreaterEqual, Greater, LessEqual, Less, Assign}
-		matched := cursor.MatchAfterOptional(WhiteSpace, candidates...)
-
-		switch matched.Code {
-		case parsly.EOF, binaryExpressionStartToken, parsly.Invalid:
-			return nil
-		}
+	candidates := []*parsly.Token{Add, Sub, Multiply, Quo, NotEqual, Negation, Equal, And, Or, GreaterEqual, Greater, LessEqual, Less, Assign}
+	matched := cursor.MatchAfterOptional(WhiteSpace, candidates...)
 
-		token := matchToken(matched)
-		if token == ast2.ASSIGN {
-			return fmt.Errorf("assignment in expression is not allowed")
-		}
-
-		eprCursor, err := matchExpressionBlock(cursor)
-
-		var rightExpression ast2.Expression
-		if err == nil {
-			rightExpression, err = matchEquationExpression(eprCursor)
-			rightExpression = &aexpr.Parentheses{P: rightExpression}
-		} else {
-			_, rightExpression, err = matchOperand(cursor, dataTypeMatchers...)
-		}
-
-		if err != nil {
-			return err
-		}
-		hasPrecedence := isPrecedenceToken(token)
-
-		if hasPrecedence {
-			y, ok := rightExpression.(*aexpr.Binary)
-			if ok && !isPrecedenceToken(y.Token) {
-				expression = adjustPrecedence(expression, token, y)
-				continue
-			}
-
-		}
-
-		*expression = &aexpr.Binary{
-			X:     *expression,
-			Token: token,
-			Y:     rightExpression,
-		}
+	switch matched.Code {
+	case parsly.EOF, binaryExpressionStartToken, parsly.Invalid:
+		return nil
 	}
-}
 
-func adjustPrecedence(expression *ast2.Expression, token ast2.Token, y *aexpr.Binary) *ast2.Expression {
-	p := &aexpr.Parentheses{}
-	p.P = &aexpr.Binary{
-		X:     *expression,
-		Token: token,
-		Y:     y.X,
+	token := matchToken(matched)
+	if token == ast2.ASSIGN {
+		return fmt.Errorf("assignment in expression is not allowed")
 	}
 
-	*expression = &aexpr.Binary{
-		X:     p,
-		Token: y.Token,
-		Y:     y.Y,
+	_, rightExpression, err := matchOperand(cursor, dataTypeMatchers...)
+	if err != nil {
+		return err
 	}
-	return expression
-}
 
-func isPrecedenceToken(token ast2.Token) bool {
-	hasPrecedence := token == ast2.MUL || token == ast2.QUO
-	return hasPrecedence
+	*expression = aexpr.BinaryExpression(*expression, token, rightExpression)
+	return nil
 }
diff --git a/parser/token.go b/parser/token.go
index dbd006d..8277b4b 100644
--- a/parser/token.go
+++ b/parser/token.go
@@ -10,16 +10,16 @@ func normalizeTokensIfNeeded(variable ast2.Expression, token ast2.Token, rightOp
 	switch matched.Code {
 	case mulEqualToken:
 		token = ast2.ASSIGN
-		rightOperand = expr.BinaryExpression(variable, ast2.MUL, rightOperand)
+		rightOperand = expr.BinaryExpression(variable, ast2.MUL, &expr.Parentheses{P: rightOperand})
 	case quoEqualToken:
 		token = ast2.ASSIGN
-		rightOperand = expr.BinaryExpression(variable, ast2.QUO, rightOperand)
+		rightOperand = expr.BinaryExpression(variable, ast2.QUO, &expr.Parentheses{P: rightOperand})
 	case addEqualToken:
 		token = ast2.ASSIGN
-		rightOperand = expr.BinaryExpression(variable, ast2.ADD, rightOperand)
+		rightOperand = expr.BinaryExpression(variable, ast2.ADD, &expr.Parentheses{P: rightOperand})
 	case subEqualToken:
 		token = ast2.ASSIGN
-		rightOperand = expr.BinaryExpression(variable, ast2.SUB, rightOperand)
+		rightOperand = expr.BinaryExpression(variable, ast2.SUB, &expr.Parentheses{P: rightOperand})
 	}
 
 	return token, rightOperand
-- 
2.43.0


From 775ae8ae6c60edf4586d6fbc0f4ec28c1654a86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:39 +0000
Subject: [PATCH 15/58] fix: field of a non-struct variable panicked at compile
 time

---
 planner.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/planner.go b/planner.go
index 68b0354..a3b0b36 100644
--- a/planner.go
+++ b/planner.go
@@ -272,6 +272,10 @@ func (p *Planner) matchSelector(call ast.Expression, resultSelector *op.Selector
 }
 
 func (p *Planner) fieldByName(parentType reflect.Type, actual *expr.Select, selectorId string) (*xunsafe.Field, error) {
+	if parentType.Kind() != reflect.Struct {
+		return nil, fmt.Errorf("not found field %v at %v", strings.ReplaceAll(selectorId, fieldSeparator, "."), parentType.String())
+	}
+
 	field := xunsafe.FieldByName(parentType, actual.ID)
 	if field != nil {
 		if Parse(field.Tag.Get(velty)).Omit {
-- 
2.43.0


From f23653f3c9e2e63ef319c354bee50a14a4736265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:58 +0000
Subject: [PATCH 16/58] fix: quoted text starting with a selector lost the text
 after the selector

---
 parser/operand.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/parser/operand.go b/parser/operand.go
index cacae01..87a337c 100644
--- a/parser/operand.go
+++ b/parser/operand.go
@@ -86,12 +86,9 @@ func matchSingleOperand(cursor *parsly.Cursor, candidates ...*parsly.Token) (*pa
 			newCursor := parsly.NewCursor("", []byte(value[:len(value)-1]), 0)
 
 			matcher, expression, err = matchOperand(newCursor, candidates...)
-			if err != nil {
+			_, isSelector := expression.(*aexpr.Select)
+			if err != nil || !isSelector || newCursor.Pos < newCursor.InputSize {
 				expression = aexpr.StringLiteral(value[:len(value)-1])
-			} else {
-				if _, ok := expression.(*aexpr.Select); !ok {
-					expression = aexpr.StringLiteral(value[:len(value)-1])
-				}
 			}
 		}
 
-- 
2.43.0


From 61e4bb89579788bea78b788476bc40033b78b408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:13 +0000
Subject: [PATCH 17/58] fix: field of a slice read the slice header as an
 element

---
 planner.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/planner.go b/planner.go
index a3b0b36..b9f65a3 100644
--- a/planner.go
+++ b/planner.go
@@ -253,6 +253,10 @@ func (p *Planner) matchSelector(call ast.Expression, resultSelector *op.Selector
 			return callSelector, callNext, callErr
 		}
 
+		if holderType := derefPtr(resultSelector.Type); holderType.Kind() == reflect.Slice {
+			return nil, nil, fmt.Errorf("not found field %v at %v", actual.ID, holderType.String())
+		}
+
 		_, err = p.fieldByName(parentType, actual, actual.ID)
 		if err != nil {
 			return nil, nil, err
@@ -305,6 +309,13 @@ func deref(rType reflect.Type) reflect.Type {
 	}
 }
 
+func derefPtr(rType reflect.Type) reflect.Type {
+	for rType.Kind() == reflect.Ptr {
+		rType = rType.Elem()
+	}
+	return rType
+}
+
 func (p *Planner) accumulator(t reflect.Type) *op.Selector {
 	name := p.newName()
 	sel := op.NewSelector(name, name, t, nil)
-- 
2.43.0


From 6fbf398c505e9e1ed3c6b72d1ccf1ead7772a11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:44 +0000
Subject: [PATCH 18/58] fix: evaluated template was cached regardless of the
 evaluating scope, and read without the lock

---
 cache.go    | 24 +++++++++++++++++-------
 evaluate.go |  5 +++--
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/cache.go b/cache.go
index c4aa426..c6fddf9 100644
--- a/cache.go
+++ b/cache.go
@@ -8,11 +8,18 @@ import (
 type (
 	cache struct {
 		cacheSize int
-		cache     map[string]int
+		cache     map[cacheKey]int
 		values    []*value
 		locker    sync.Locker
 	}
 
+	//cacheKey represents a template evaluated in a scope, the same template in a different scope compiles to a different plan
+	cacheKey struct {
+		parent   *Planner
+		fields   int
+		template string
+	}
+
 	value struct {
 		planner *Planner
 		compute est.Compute
@@ -21,14 +28,17 @@ type (
 
 func newCache(cacheSize int) *cache {
 	return &cache{
-		cache:     map[string]int{},
+		cache:     map[cacheKey]int{},
 		locker:    &sync.Mutex{},
 		cacheSize: cacheSize,
 	}
 }
 
-func (c *cache) expression(name string) (*value, bool) {
-	val, ok := c.cache[name]
+func (c *cache) expression(key cacheKey) (*value, bool) {
+	c.locker.Lock()
+	defer c.locker.Unlock()
+
+	val, ok := c.cache[key]
 	if !ok {
 		return nil, false
 	}
@@ -36,7 +46,7 @@ func (c *cache) expression(name string) (*value, bool) {
 	return c.values[val], ok
 }
 
-func (c *cache) put(name string, planner *Planner, compute est.Compute) {
+func (c *cache) put(key cacheKey, planner *Planner, compute est.Compute) {
 	if c.cacheSize == 0 {
 		return
 	}
@@ -49,12 +59,12 @@ func (c *cache) put(name string, planner *Planner, compute est.Compute) {
 		planner: planner,
 		compute: compute,
 	})
-	c.cache[name] = len(c.values) - 1
+	c.cache[key] = len(c.values) - 1
 }
 
 func (c *cache) cleanCacheIfNeeded() {
 	if len(c.cache) > c.cacheSize {
-		c.cache = map[string]int{}
+		c.cache = map[cacheKey]int{}
 		c.values = c.values[:0]
 	}
 }
diff --git a/evaluate.go b/evaluate.go
index 9a4882f..15d6fd1 100644
--- a/evaluate.go
+++ b/evaluate.go
@@ -16,7 +16,8 @@ type evaluator struct {
 
 func (e *evaluator) compute(state *est.State) unsafe.Pointer {
 	varValue := *(*string)(e.x.Exec(state))
-	if cacheValue, ok := e.cache.expression(varValue); ok {
+	key := cacheKey{parent: e.parent, fields: len(e.parent.Type.ValueAccessors()), template: varValue}
+	if cacheValue, ok := e.cache.expression(key); ok {
 		newState := e.newState(cacheValue.planner, state)
 		return cacheValue.compute(newState)
 	}
@@ -33,7 +34,7 @@ func (e *evaluator) compute(state *est.State) unsafe.Pointer {
 	}
 
 	newState := e.newState(evaluatorPlanner, state)
-	e.cache.put(varValue, evaluatorPlanner, exec)
+	e.cache.put(key, evaluatorPlanner, exec)
 
 	return exec(newState)
 }
-- 
2.43.0


From 0582cd2514cfe84f24a869039d2e0f50827b6969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:56 +0000
Subject: [PATCH 19/58] fix: errors of evaluated templates were lost

---
 evaluate.go | 13 +++++++++----
 planner.go  |  2 ++
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/evaluate.go b/evaluate.go
index 15d6fd1..33b1d38 100644
--- a/evaluate.go
+++ b/evaluate.go
@@ -18,8 +18,7 @@ func (e *evaluator) compute(state *est.State) unsafe.Pointer {
 	varValue := *(*string)(e.x.Exec(state))
 	key := cacheKey{parent: e.parent, fields: len(e.parent.Type.ValueAccessors()), template: varValue}
 	if cacheValue, ok := e.cache.expression(key); ok {
-		newState := e.newState(cacheValue.planner, state)
-		return cacheValue.compute(newState)
+		return e.execute(cacheValue.planner, cacheValue.compute, state)
 	}
 
 	block, err := parser.Parse([]byte(varValue))
@@ -33,10 +32,16 @@ func (e *evaluator) compute(state *est.State) unsafe.Pointer {
 		return est.EmptyStringPtr
 	}
 
-	newState := e.newState(evaluatorPlanner, state)
 	e.cache.put(key, evaluatorPlanner, exec)
 
-	return exec(newState)
+	return e.execute(evaluatorPlanner, exec, state)
+}
+
+func (e *evaluator) execute(planner *Planner, compute est.Compute, state *est.State) unsafe.Pointer {
+	newState := e.newState(planner, state)
+	result := compute(newState)
+	state.Errors = append(state.Errors, newState.Errors...)
+	return result
 }
 
 func (e *evaluator) newState(planner *Planner, state *est.State) *est.State {
diff --git a/planner.go b/planner.go
index b9f65a3..4d83d87 100644
--- a/planner.go
+++ b/planner.go
@@ -471,6 +471,8 @@ func (p *Planner) New() *Planner {
 		Functions:  p.Functions,
 		cache:      p.cache,
 		escapeHTML: p.escapeHTML,
+
+		panicOnError: p.panicOnError,
 	}
 
 	return scope
-- 
2.43.0


From c6cc9a70288c8f839b970a3aeeefa6d5bace4d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:45 +0000
Subject: [PATCH 20/58] fix: assignment through a nil pointer changed shared
 default values

---
 est/op/expr.go            | 12 +++++++++---
 est/op/upstream.go        | 17 +++++++++++++++--
 est/stmt/assign/assign.go |  2 +-
 3 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/est/op/expr.go b/est/op/expr.go
index e63d372..29f5def 100644
--- a/est/op/expr.go
+++ b/est/op/expr.go
@@ -10,6 +10,9 @@ import (
 type ShouldRefLast bool
 type ShouldDerefLast bool
 
+//IsTarget option indicates that operand value can be written
+type IsTarget bool
+
 type Expression struct {
 	LiteralPtr *unsafe.Pointer
 	Type       reflect.Type
@@ -21,6 +24,7 @@ type Expression struct {
 func (e *Expression) Operand(control est.Control, options ...interface{}) (*Operand, error) {
 	var shouldDerefLast bool
 	var shouldRefLast bool
+	var isTarget bool
 
 	for _, option := range options {
 		switch actual := option.(type) {
@@ -28,6 +32,8 @@ func (e *Expression) Operand(control est.Control, options ...interface{}) (*Oper
 			shouldDerefLast = bool(actual)
 		case ShouldRefLast:
 			shouldRefLast = bool(actual)
+		case IsTarget:
+			isTarget = bool(actual)
 		}
 	}
 
@@ -50,7 +56,7 @@ func (e *Expression) Operand(control est.Control, options ...interface{}) (*Oper
 
 	if e.Selector != nil {
 		if e.Selector != nil && e.Selector.Indirect {
-			operand.Comp = e.newIndirectSelector(shouldDerefLast, shouldRefLast)
+			operand.Comp = e.newIndirectSelector(shouldDerefLast, shouldRefLast, isTarget)
 		}
 
 		return operand, nil
@@ -87,8 +93,8 @@ func (e Expressions) Operands(control est.Control, shouldDerefLast bool) ([]*Ope
 	return result, nil
 }
 
-func (e *Expression) newIndirectSelector(shouldDerefLast bool, refLast bool) est.Compute {
-	upstream := Upstream(e.Selector, shouldDerefLast, refLast)
+func (e *Expression) newIndirectSelector(shouldDerefLast bool, refLast bool, target bool) est.Compute {
+	upstream := upstream(e.Selector, shouldDerefLast, target)
 	return func(state *est.State) unsafe.Pointer {
 		ret := upstream(state)
 		return ret
diff --git a/est/op/upstream.go b/est/op/upstream.go
index 860a218..6bd2094 100644
--- a/est/op/upstream.go
+++ b/est/op/upstream.go
@@ -8,7 +8,13 @@ import (
 	"unsafe"
 )
 
+//Upstream returns a function locating the selector value, or its shared zero value if any of the parents is nil
 func Upstream(selector *Selector, derefLast bool, refLast bool) func(state *est.State) unsafe.Pointer {
+	return upstream(selector, derefLast, false)
+}
+
+//upstream locates the selector value. Target can be written, thus it never shares its zero value
+func upstream(selector *Selector, derefLast bool, target bool) func(state *est.State) unsafe.Pointer {
 	derefLast = derefLast || converter.IsPrimitive(selector.Type)
 	sel := selector.Parent
 	counter := -1
@@ -45,12 +51,19 @@ func Upstream(selector *Selector, derefLast bool, refLast bool) func(state *est.
 		zeroValuePtr = xunsafe.AsPointer(value)
 	}
 
+	zeroValue := func() unsafe.Pointer {
+		if target {
+			return xunsafe.AsPointer(reflect.New(selector.Type).Interface())
+		}
+		return zeroValuePtr
+	}
+
 	shouldRefLast := selector.Type.Kind() == reflect.Ptr
 
 	return func(state *est.State) unsafe.Pointer {
 		ptr := state.MemPtr
 		if ptr == nil {
-			return zeroValuePtr
+			return zeroValue()
 		}
 
 		for i := 0; i < parentLen; i++ {
@@ -92,7 +105,7 @@ func Upstream(selector *Selector, derefLast bool, refLast bool) func(state *est.
 			}
 
 			if ptr == nil {
-				return zeroValuePtr
+				return zeroValue()
 			}
 		}
 
diff --git a/est/stmt/assign/assign.go b/est/stmt/assign/assign.go
index e8f6ffd..b6e47c4 100644
--- a/est/stmt/assign/assign.go
+++ b/est/stmt/assign/assign.go
@@ -255,7 +255,7 @@ func (a *assign) assignValue() est.Compute {
 
 func Assign(xExpr, yExpr *op2.Expression) (est.New, error) {
 	return func(control est.Control) (est.Compute, error) {
-		x, err := xExpr.Operand(control)
+		x, err := xExpr.Operand(control, op2.IsTarget(true))
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 0f9827397774303972fb3b734cea3e2132e4878c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:45 +0000
Subject: [PATCH 21/58] fix: negative slice index read memory in front of the
 slice

---
 est/op/slice.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/est/op/slice.go b/est/op/slice.go
index 54ad269..cbbfb39 100644
--- a/est/op/slice.go
+++ b/est/op/slice.go
@@ -24,7 +24,7 @@ func (s *Slice) Exec(slicePtr unsafe.Pointer, state *est.State) unsafe.Pointer {
 	}
 
 	index := *(*int)(indexPtr)
-	if sliceLen <= index {
+	if index < 0 || sliceLen <= index {
 		panic(fmt.Sprintf("index out of range [%v] with length %v", index, sliceLen))
 	}
 
-- 
2.43.0


From 41186c19e64c1c9a97a626e987ca1b7c15f79836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:02 +0000
Subject: [PATCH 22/58] fix: out of range number literals were silently
 replaced

---
 literal.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/literal.go b/literal.go
index c023802..7c23f1f 100644
--- a/literal.go
+++ b/literal.go
@@ -13,20 +13,32 @@ func (p *Planner) literalExpr(literal *expr.Literal) (*op.Expression, error) {
 	expr := &op.Expression{}
 	switch literal.RType.Kind() {
 	case reflect.Int:
-		i, _ := strconv.Atoi(literal.Value)
+		i, err := strconv.Atoi(literal.Value)
+		if err != nil {
+			return nil, err
+		}
+
 		iPtr := &i
 		p.constants.add(iPtr)
 		ptr := unsafe.Pointer(iPtr)
 		expr.Type = reflect.TypeOf(i)
 		expr.LiteralPtr = &ptr
 	case reflect.Float64:
-		f, _ := strconv.ParseFloat(literal.Value, 64)
+		f, err := strconv.ParseFloat(literal.Value, 64)
+		if err != nil {
+			return nil, err
+		}
+
 		p.constants.add(&f)
 		expr.Type = reflect.TypeOf(f)
 		ptr := unsafe.Pointer(&f)
 		expr.LiteralPtr = &ptr
 	case reflect.Bool:
-		b, _ := strconv.ParseBool(literal.Value)
+		b, err := strconv.ParseBool(literal.Value)
+		if err != nil {
+			return nil, err
+		}
+
 		p.constants.add(&b)
 		expr.Type = reflect.TypeOf(b)
 		ptr := unsafe.Pointer(&b)
-- 
2.43.0


From c00b05dcfd7125b016acfcdd80348beeb8ec58e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:06 +0000
Subject: [PATCH 23/58] fix: error messages were interpreted as format strings

---
 functions/errors.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/functions/errors.go b/functions/errors.go
index b2a89c2..f23948e 100644
--- a/functions/errors.go
+++ b/functions/errors.go
@@ -1,6 +1,7 @@
 package functions
 
 import (
+	"errors"
 	"fmt"
 	"reflect"
 )
@@ -61,11 +62,11 @@ func (e Errors) DiscoverInterfaces(aFunc interface{}) (func(args ...interface{})
 }
 
 func (e Errors) Raise(message string) (string, error) {
-	return "", fmt.Errorf(message)
+	return "", errors.New(message)
 }
 
 func (e Errors) RegisterError(message string) (string, error) {
-	return "", fmt.Errorf(message)
+	return "", errors.New(message)
 }
 
 func (e Errors) AssertFloat(value interface{}) (bool, error) {
@@ -109,5 +110,5 @@ func (e Errors) AssertWithMessage(isValid bool, message string) (bool, error) {
 		return true, nil
 	}
 
-	return false, fmt.Errorf(message)
+	return false, errors.New(message)
 }
-- 
2.43.0


From 84a2839fd8f630658aced1d2ded5ae52ef263b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:43 +0000
Subject: [PATCH 24/58] fix: fields of repeated and recursive types, and
 indexed fields, were not reachable

---
 cyclic.go          | 90 ++++++++++++----------------------------------
 est/op/selector.go | 10 ------
 planner.go         | 59 +++++++++++++++---------------
 3 files changed, 51 insertions(+), 108 deletions(-)

diff --git a/cyclic.go b/cyclic.go
index a4c1480..6f8bbcb 100644
--- a/cyclic.go
+++ b/cyclic.go
@@ -1,95 +1,49 @@
 package velty
 
 import (
-	"github.com/viant/velty/est/op"
 	"reflect"
 )
 
 type (
+	//CycleDetector detects types that were already expanded into selectors, it stops expanding recursive types
 	CycleDetector struct {
-		rType          reflect.Type
-		allTypes       map[reflect.Type]*MultiCycleDetector
-		parent         *CycleDetector
-		parentSelector *op.Selector
-		name           string
-	}
-
-	MultiCycleDetector struct {
-		index    map[reflect.Type]int
-		children []*CycleDetector
+		rType    reflect.Type
+		parent   *CycleDetector
+		expanded map[reflect.Type]bool
 	}
 )
 
-func NewCycleDetector(rType reflect.Type) *CycleDetector {
-	return newCycleDetector(nil, nil, rType, nil)
+//NewCycleDetector creates a CycleDetector
+func NewCycleDetector() *CycleDetector {
+	return &CycleDetector{expanded: map[reflect.Type]bool{}}
 }
 
-func newCycleDetector(parent *CycleDetector, state map[reflect.Type]*MultiCycleDetector, rType reflect.Type, parentSelector *op.Selector) *CycleDetector {
-	if state == nil {
-		state = map[reflect.Type]*MultiCycleDetector{}
-	}
-
+//Child returns a detector of the field type
+func (c *CycleDetector) Child(rType reflect.Type) *CycleDetector {
 	rType, _ = elemIfNeeded(rType)
-	return &CycleDetector{
-		allTypes:       state,
-		parent:         parent,
-		rType:          rType,
-		parentSelector: parentSelector,
-		name:           rType.String(),
-	}
-}
-
-func (c *CycleDetector) Child(rType reflect.Type, parentSelector *op.Selector) (next *CycleDetector, hasCycle bool) {
-	cycle := c.getChildrenCycleHolder(rType)
-	return cycle.Get(c, rType, parentSelector)
-}
-
-func (d *MultiCycleDetector) Get(c *CycleDetector, rType reflect.Type, parentSelector *op.Selector) (*CycleDetector, bool) {
-	detector, parent := d.getOrCreate(c, rType, parentSelector)
-
-	return detector, parent != nil
+	return &CycleDetector{rType: rType, parent: c, expanded: c.expanded}
 }
 
-func (d *MultiCycleDetector) getOrCreate(c *CycleDetector, rType reflect.Type, parentSelector *op.Selector) (current *CycleDetector, parent *CycleDetector) {
-	i, ok := d.index[rType]
-	if ok {
-		next := d.children[i]
-		if next.Has(next) {
-			return c, next
-		}
-
-		return next, nil
+//Expand returns true if the type fields should be expanded. The fields of an anonymous struct belong to its parent, thus
+//they are skipped only if the type contains itself, in any other case each type is expanded once
+func (c *CycleDetector) Expand(anonymous bool) bool {
+	if anonymous {
+		return !c.hasAncestor(c.rType)
 	}
 
-	detector := newCycleDetector(c, c.allTypes, rType, parentSelector)
-	d.index[rType] = len(d.children)
-	d.children = append(d.children, detector)
-
-	return detector, nil
-}
-
-func (c *CycleDetector) getChildrenCycleHolder(rType reflect.Type) *MultiCycleDetector {
-	cycle, ok := c.allTypes[rType]
-	if ok {
-		return cycle
-	}
-
-	cycle = &MultiCycleDetector{
-		index: map[reflect.Type]int{},
+	if c.expanded[c.rType] {
+		return false
 	}
 
-	c.allTypes[rType] = cycle
-	return cycle
+	c.expanded[c.rType] = true
+	return true
 }
 
-func (c *CycleDetector) Has(parent *CycleDetector) bool {
-	curr := c
-	for curr != nil {
-		if curr.rType == parent.rType && curr.rType != nil {
+func (c *CycleDetector) hasAncestor(rType reflect.Type) bool {
+	for parent := c.parent; parent != nil; parent = parent.parent {
+		if parent.rType == rType {
 			return true
 		}
-
-		curr = curr.parent
 	}
 
 	return false
diff --git a/est/op/selector.go b/est/op/selector.go
index b608116..25fc9f1 100644
--- a/est/op/selector.go
+++ b/est/op/selector.go
@@ -23,7 +23,6 @@ type Selector struct {
 	ParentOffset    uintptr
 	Map             *Map
 	InterfaceExec   *Interface
-	Cycle           *Selector
 	IsFieldSelector bool
 }
 
@@ -67,14 +66,6 @@ func newXField(name string, sType reflect.Type) *xunsafe.Field {
 }
 
 func SelectorWithField(id string, field *xunsafe.Field, parent *Selector, indirect bool, offset uintptr) *Selector {
-	return newSelector(id, field, parent, indirect, offset, nil)
-}
-
-func NewCycleSelector(id string, field *xunsafe.Field, parent *Selector, indirect bool, offset uintptr, cycleSelector *Selector) *Selector {
-	return newSelector(id, field, parent, indirect, offset, cycleSelector)
-}
-
-func newSelector(id string, field *xunsafe.Field, parent *Selector, indirect bool, offset uintptr, cycleSelector *Selector) *Selector {
 	return &Selector{
 		Type:         field.Type,
 		ID:           id,
@@ -82,7 +73,6 @@ func newSelector(id string, field *xunsafe.Field, parent *Selector, indirect boo
 		Parent:       parent,
 		Indirect:     indirect,
 		ParentOffset: offset,
-		Cycle:        cycleSelector,
 	}
 }
 
diff --git a/planner.go b/planner.go
index 4d83d87..8f80fb0 100644
--- a/planner.go
+++ b/planner.go
@@ -51,13 +51,10 @@ func (p *Planner) EmbedVariable(val interface{}) error {
 }
 
 func (p *Planner) addSelectors(prefix string, field reflect.StructField, fieldName string) error {
-	detector := NewCycleDetector(field.Type)
-	return p.createSelectors(prefix, field, nil, 0, 0, false, detector, fieldName)
+	return p.createSelectors(prefix, field, nil, 0, 0, false, NewCycleDetector(), fieldName)
 }
 
 func (p *Planner) createSelectors(prefix string, field reflect.StructField, parent *op.Selector, offsetSoFar, initialOffset uintptr, indirect bool, cycleDetector *CycleDetector, fieldName string) error {
-	cycleNode, cycleSelector := p.cycle(cycleDetector, field, parent)
-
 	if field.Anonymous {
 		initialOffset += field.Offset
 	}
@@ -65,11 +62,16 @@ func (p *Planner) createSelectors(prefix string, field reflect.StructField, pare
 	indirect = indirect || field.Type.Kind() == reflect.Ptr || field.Type.Kind() == reflect.Slice
 	vTag := Parse(field.Tag.Get(velty))
 
-	newParent, err := p.indexSelectorIfNeeded(prefix, field, parent, offsetSoFar, initialOffset, indirect, cycleSelector, fieldName)
-	if err != nil || cycleSelector != nil {
+	newParent, err := p.indexSelectorIfNeeded(prefix, field, parent, offsetSoFar, initialOffset, indirect, fieldName)
+	if err != nil {
 		return err
 	}
 
+	cycleDetector = cycleDetector.Child(field.Type)
+	if !cycleDetector.Expand(field.Anonymous) {
+		return nil
+	}
+
 	if !field.Anonymous {
 		offsetSoFar += field.Offset
 		initialOffset = 0
@@ -90,15 +92,7 @@ func (p *Planner) createSelectors(prefix string, field reflect.StructField, pare
 		return nil
 	}
 
-	return p.addChildrenSelectors(prefix, field, offsetSoFar, initialOffset, indirect, cycleNode, newParent)
-}
-
-func (p *Planner) cycle(cycleDetector *CycleDetector, field reflect.StructField, parent *op.Selector) (*CycleDetector, *op.Selector) {
-	child, cycle := cycleDetector.Child(field.Type, parent)
-	if cycle {
-		return child, child.parentSelector
-	}
-	return child, nil
+	return p.addChildrenSelectors(prefix, field, offsetSoFar, initialOffset, indirect, cycleDetector, newParent)
 }
 
 func (p *Planner) addChildrenSelectors(holderPrefix string, field reflect.StructField, offsetSoFar, initialOffset uintptr, indirect bool, detector *CycleDetector, parent *op.Selector) error {
@@ -132,26 +126,19 @@ func (p *Planner) addChildrenSelectors(holderPrefix string, field reflect.Struct
 	return nil
 }
 
-func (p *Planner) indexSelectorIfNeeded(prefix string, field reflect.StructField, parent *op.Selector, offset uintptr, anonymousOffset uintptr, indirect bool, cycleSelector *op.Selector, name string) (*op.Selector, error) {
+func (p *Planner) indexSelectorIfNeeded(prefix string, field reflect.StructField, parent *op.Selector, offset uintptr, anonymousOffset uintptr, indirect bool, name string) (*op.Selector, error) {
 	if field.Anonymous && field.Type.Kind() != reflect.Ptr {
 		return parent, nil
 	}
 
 	newField := xunsafe.NewField(field)
 	newField.Offset += anonymousOffset
-	var err error
-	var fieldSelector *op.Selector
-	if cycleSelector != nil {
-		fieldSelector = op.NewCycleSelector(prefix+name, newField, parent, indirect, offset, cycleSelector)
-	} else {
-		fieldSelector = op.SelectorWithField(prefix+name, newField, parent, indirect, offset)
-	}
-
+	fieldSelector := op.SelectorWithField(prefix+name, newField, parent, indirect, offset)
 	if field.Anonymous {
 		return fieldSelector, nil
 	}
 
-	if err = p.selectors.Append(fieldSelector); err != nil {
+	if err := p.selectors.Append(fieldSelector); err != nil {
 		return nil, fmt.Errorf("%w, prefix is required, if parent field is an Anonymous, and any other parent field has the same name", err)
 	}
 
@@ -249,8 +236,8 @@ func (p *Planner) matchSelector(call ast.Expression, resultSelector *op.Selector
 
 	switch actual := call.(type) {
 	case *expr.Select:
-		if callSelector, callNext, callErr := p.tryMatchCall(actual.X, resultSelector, actual.ID); callSelector != nil || callErr != nil {
-			return callSelector, callNext, callErr
+		if methodCall, ok := actual.X.(*expr.Call); ok {
+			return p.tryMatchCall(methodCall, resultSelector, actual.ID)
 		}
 
 		if holderType := derefPtr(resultSelector.Type); holderType.Kind() == reflect.Slice {
@@ -262,19 +249,31 @@ func (p *Planner) matchSelector(call ast.Expression, resultSelector *op.Selector
 			return nil, nil, err
 		}
 
+		parentId := selectorId
 		selectorId = selectorId + fieldSeparator + actual.ID
-		var found bool
-		resultSelector, found = p.selectors.ById(selectorId)
+		fieldSelector, found := p.selectors.ById(selectorId)
+		if !found && p.expandSelector(parentId, resultSelector) == nil {
+			fieldSelector, found = p.selectors.ById(selectorId)
+		}
+
 		if !found {
 			return nil, nil, fmt.Errorf("not found selector for the %v", strings.ReplaceAll(selectorId, fieldSeparator, "."))
 		}
 
-		return resultSelector, actual.X, nil
+		return fieldSelector, actual.X, nil
 	}
 
 	return resultSelector, nil, nil
 }
 
+//expandSelector adds fields selectors of a type that wasn't expanded at the time when the variable was defined
+func (p *Planner) expandSelector(id string, selector *op.Selector) error {
+	field := reflect.StructField{Name: id, Type: selector.Type}
+	detector := NewCycleDetector().Child(selector.Type)
+	detector.Expand(false)
+	return p.addChildrenSelectors(id+fieldSeparator, field, 0, 0, true, detector, selector)
+}
+
 func (p *Planner) fieldByName(parentType reflect.Type, actual *expr.Select, selectorId string) (*xunsafe.Field, error) {
 	if parentType.Kind() != reflect.Struct {
 		return nil, fmt.Errorf("not found field %v at %v", strings.ReplaceAll(selectorId, fieldSeparator, "."), parentType.String())
-- 
2.43.0


From f2c86d4108a7d043319ca2e7da4841648c928b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:45 +0000
Subject: [PATCH 25/58] fix: indexed slices of pointers and maps of slices were
 read with a wrong indirection

---
 est/op/map.go      |  2 +-
 est/op/selector.go |  4 ++++
 est/op/upstream.go | 11 +++++++++--
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/est/op/map.go b/est/op/map.go
index a39c5b6..34ce974 100644
--- a/est/op/map.go
+++ b/est/op/map.go
@@ -39,7 +39,7 @@ func (m *Map) Exec(mapPtr unsafe.Pointer, state *est.State) unsafe.Pointer {
 	}
 
 	switch m.elemKind {
-	case reflect.Map, reflect.Slice:
+	case reflect.Map:
 		return xunsafe.AsPointer(actualValue.Pointer())
 	default:
 		return xunsafe.AsPointer(iface)
diff --git a/est/op/selector.go b/est/op/selector.go
index 25fc9f1..d6ef36d 100644
--- a/est/op/selector.go
+++ b/est/op/selector.go
@@ -163,3 +163,7 @@ func newMap(mapOperand *Operand, indexOperand *Operand, parent *Selector) *Map {
 		elemKind:     elemKind,
 	}
 }
+
+func (s *Selector) isField() bool {
+	return s.Literal == nil && s.Func == nil && s.Slice == nil && s.Map == nil && s.InterfaceExec == nil
+}
diff --git a/est/op/upstream.go b/est/op/upstream.go
index 6bd2094..7c3bc95 100644
--- a/est/op/upstream.go
+++ b/est/op/upstream.go
@@ -91,9 +91,16 @@ func upstream(selector *Selector, derefLast bool, target bool) func(state *est.S
 
 				ptr = refIfNeeded(parents[i].Func.CallFunc(parents[i], args, state), shouldRef)
 			} else if parents[i].Slice != nil {
-				ptr = refIfNeeded(parents[i].Slice.Exec(ptr, state), shouldRef)
+				ptr = parents[i].Slice.Exec(ptr, state)
+				if ptr != nil && i < parentLen-1 && parents[i].Type.Kind() == reflect.Ptr && parents[i+1].isField() {
+					ptr = xunsafe.DerefPointer(ptr)
+				}
 			} else if parents[i].Map != nil {
-				ptr = refIfNeeded(parents[i].Map.Exec(ptr, state), shouldRef)
+				ptr = parents[i].Map.Exec(ptr, state)
+				shouldRef = shouldRef || (i < parentLen-1 && parents[i].Type.Kind() == reflect.Ptr && parents[i+1].Func != nil)
+				if ptr != nil {
+					ptr = refIfNeeded(ptr, shouldRef)
+				}
 			} else if parents[i].InterfaceExec != nil {
 				ptr = refIfNeeded(parents[i].InterfaceExec.Exec(ptr, state), shouldRef)
 			} else {
-- 
2.43.0


From 5e7d38fe8a86a7c4828a483f08496a66d7275e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:09 +0000
Subject: [PATCH 26/58] fix: foreach item reused with another element type
 overwrote unrelated memory

---
 stmt.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stmt.go b/stmt.go
index 08abe8f..fb0b4b4 100644
--- a/stmt.go
+++ b/stmt.go
@@ -136,6 +136,10 @@ func (p *Planner) compileForEachLoop(actual *stmt2.ForEach) (est.New, error) {
 		return nil, err
 	}
 
+	if selector.Type != itemType && selector.Type.Kind() != reflect.Interface {
+		return nil, fmt.Errorf("unsupported ForEach item %v: defined as %v, but the set item type is %v", actual.Item.ID, selector.Type, itemType)
+	}
+
 	block, err := p.compileBlock(&actual.Body)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 1b0fa21a9f17cdf4503ffbd0938870c51fdbb8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:53 +0000
Subject: [PATCH 27/58] fix: pointers to unsigned values were compared as
 signed

---
 binary.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/binary.go b/binary.go
index 7c69442..7d89945 100644
--- a/binary.go
+++ b/binary.go
@@ -58,6 +58,10 @@ func unifyOperands(x, y *op.Expression) (reflect.Type, error) {
 		return nil, err
 	}
 
+	if x.Type == y.Type && x.Type.Kind() == reflect.Ptr { //the same pointers are compared without widening
+		common.RType = x.Type.Elem()
+	}
+
 	unifyX, err := types.New(common.RType, x.Type)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From a526ca45e210d438052ae92d0e8ede2440ec6fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:26 +0000
Subject: [PATCH 28/58] fix: fields of embedded pointers were read at a wrong
 offset

---
 planner.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/planner.go b/planner.go
index 8f80fb0..52f909b 100644
--- a/planner.go
+++ b/planner.go
@@ -55,7 +55,8 @@ func (p *Planner) addSelectors(prefix string, field reflect.StructField, fieldNa
 }
 
 func (p *Planner) createSelectors(prefix string, field reflect.StructField, parent *op.Selector, offsetSoFar, initialOffset uintptr, indirect bool, cycleDetector *CycleDetector, fieldName string) error {
-	if field.Anonymous {
+	anonymousPtr := field.Anonymous && field.Type.Kind() == reflect.Ptr
+	if field.Anonymous && !anonymousPtr {
 		initialOffset += field.Offset
 	}
 
@@ -85,6 +86,10 @@ func (p *Planner) createSelectors(prefix string, field reflect.StructField, pare
 		if vTag.Prefix != "" {
 			prefix += vTag.Prefix
 		}
+
+		if anonymousPtr { //fields offsets are relative to the pointed struct
+			initialOffset = 0
+		}
 	}
 
 	fieldType, _ := elemIfNeeded(field.Type)
@@ -202,12 +207,21 @@ func (p *Planner) selector(selector *expr.Select) (*op.Selector, error) {
 
 		parentType = resultSelector.Type
 		selectorId = resultSelector.ID
-		upstreamSelector = p.copyWithParent(resultSelector, upstreamSelector)
+		upstreamSelector = p.copyWithParent(resultSelector, p.embeddedHolder(resultSelector.Parent, upstreamSelector))
 	}
 
 	return upstreamSelector, nil
 }
 
+//embeddedHolder returns upstream of a field: the parent itself, or embedded pointer (they have no ID) holding given field
+func (p *Planner) embeddedHolder(holder, parent *op.Selector) *op.Selector {
+	if holder == nil || holder.Field == nil || !holder.Field.Anonymous {
+		return parent
+	}
+
+	return p.copyWithParent(holder, p.embeddedHolder(holder.Parent, parent))
+}
+
 func (p *Planner) matchFirstSelector(selector *expr.Select) (*op.Selector, ast.Expression, error) {
 	opSelector, next, err := p.tryMatchFunc(selector.ID, selector.X)
 	if err == nil && opSelector != nil {
-- 
2.43.0


From cd89cce3a351ac06be3e3ac902dbd72d30b74dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:29 +0000
Subject: [PATCH 29/58] fix: logical operators over compound operands got the
 type of the first operand

---
 ast/expr/binary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/expr/binary.go b/ast/expr/binary.go
index 9542ebc..fb120ac 100644
--- a/ast/expr/binary.go
+++ b/ast/expr/binary.go
@@ -14,7 +14,7 @@ type Binary struct {
 
 func (b *Binary) Type() reflect.Type {
 	switch b.Token {
-	case ast2.LEQ, ast2.LSS, ast2.GTR, ast2.GTE, ast2.NEQ, ast2.EQ:
+	case ast2.LEQ, ast2.LSS, ast2.GTR, ast2.GTE, ast2.NEQ, ast2.EQ, ast2.AND, ast2.OR:
 		return reflect.TypeOf(true)
 	}
 
-- 
2.43.0


From a3e6c953cbba3bc73adf7b32e90f73e680cd633c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:16 +0000
Subject: [PATCH 30/58] fix: a reference followed by a dot was rendered
 unresolved

---
 parser/select.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parser/select.go b/parser/select.go
index acc1435..fe29045 100644
--- a/parser/select.go
+++ b/parser/select.go
@@ -110,7 +110,13 @@ func matchCall(cursor *parsly.Cursor) (ast.Expression, error) {
 	matched := cursor.MatchAny(candidates...)
 	switch matched.Code {
 	case dotToken:
-		return MatchSelector(cursor)
+		dotPosition := cursor.Pos - 1
+		selector, err := MatchSelector(cursor)
+		if err != nil { //the dot is a text following the selector
+			cursor.Pos = dotPosition
+			return nil, nil
+		}
+		return selector, nil
 	case parenthesesToken:
 		id := matched.Text(cursor)
 		newCursor := parsly.NewCursor("", []byte(id[1:len(id)-1]), 0)
-- 
2.43.0


From 8dc325512765b05a8409c67016cd4b4baa903f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:49 +0000
Subject: [PATCH 31/58] fix: text of an undefined reference was HTML escaped

---
 est/stmt/select.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/est/stmt/select.go b/est/stmt/select.go
index edd1564..1610f26 100644
--- a/est/stmt/select.go
+++ b/est/stmt/select.go
@@ -77,7 +77,7 @@ func (a *directAppender) newAppendFloatIndirect() est.Compute {
 func (a *directAppender) appendSelectorName() est.Compute {
 	asPtr := unsafe.Pointer(&a.x.Sel.Placeholder)
 	return func(state *est.State) unsafe.Pointer {
-		state.Buffer.AppendString(a.x.Sel.Placeholder)
+		state.Buffer.AppendStringWithoutEscaping(a.x.Sel.Placeholder)
 		return asPtr
 	}
 }
-- 
2.43.0


From aab443bb354f189455138bc37827f181f889c36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:58 +0000
Subject: [PATCH 32/58] fix: condition on an empty non-nil slice held, on a nil
 pointer crashed

---
 est/stmt/if.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/est/stmt/if.go b/est/stmt/if.go
index 893625e..3533949 100644
--- a/est/stmt/if.go
+++ b/est/stmt/if.go
@@ -15,15 +15,21 @@ type If struct {
 	Condition *op2.Operand
 }
 
+//holds returns true if the condition is met, a value that can not be reached (nil pointer on its path) does not meet it
+func (i *If) holds(state *est.State) bool {
+	result := (*bool)(i.Condition.Exec(state))
+	return result != nil && *result
+}
+
 func (i *If) computeWithoutElse(state *est.State) unsafe.Pointer {
-	if *(*bool)(i.Condition.Exec(state)) {
+	if i.holds(state) {
 		return i.Block(state)
 	}
 	return nil
 }
 
 func (i *If) compute(state *est.State) unsafe.Pointer {
-	if *(*bool)(i.Condition.Exec(state)) {
+	if i.holds(state) {
 		return i.Block(state)
 	}
 	return i.ElseIf(state)
@@ -89,7 +95,7 @@ func conditionOperand(condition *op2.Expression, control est.Control) (*op2.Oper
 	}
 
 	newOperand := &op2.Operand{}
-	if unify.Y != nil {
+	if unify.Y != nil && rType.Kind() != reflect.Slice { //slice is tested by its length
 		newOperand.SetUnifier(unify.Y)
 		rType = reflect.TypeOf(true)
 	}
-- 
2.43.0


From b385932bddede91c5d7c3960002f7cd3758f2d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:58 +0000
Subject: [PATCH 33/58] fix: setting a small or named primitive variable
 overwrote its neighbours or panicked

---
 est/state.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/est/state.go b/est/state.go
index c86d84e..936c8a4 100644
--- a/est/state.go
+++ b/est/state.go
@@ -2,6 +2,7 @@ package est
 
 import (
 	"fmt"
+	"github.com/viant/xunsafe"
 	"reflect"
 	"strings"
 	"sync"
@@ -30,7 +31,7 @@ func (s *State) SetValue(k string, v interface{}) error {
 	case reflect.Ptr, reflect.Struct, reflect.Slice, reflect.Map, reflect.Interface:
 		xField.SetValue(s.MemPtr, v)
 	default:
-		xField.Set(s.MemPtr, v)
+		return setPrimitive(xField, s.MemPtr, v)
 	}
 
 	return nil
@@ -61,12 +62,23 @@ func (s *State) EmbedValue(v interface{}) error {
 	case reflect.Ptr, reflect.Struct, reflect.Slice:
 		xField.SetValue(s.MemPtr, v)
 	default:
-		xField.Set(s.MemPtr, v)
+		return setPrimitive(xField, s.MemPtr, v)
 	}
 
 	return nil
 }
 
+//setPrimitive writes exactly field type size, as opposed to xunsafe.Field.Set
+func setPrimitive(xField *xunsafe.Field, ptr unsafe.Pointer, v interface{}) error {
+	value := reflect.ValueOf(v)
+	if !value.IsValid() || !value.Type().ConvertibleTo(xField.Type) || (xField.Kind() == reflect.String && value.Kind() != reflect.String) {
+		return fmt.Errorf("unable to set %v: expected %v, but had %T", xField.Name, xField.Type.String(), v)
+	}
+
+	reflect.NewAt(xField.Type, xField.Pointer(ptr)).Elem().Set(value.Convert(xField.Type))
+	return nil
+}
+
 func (s *State) Reset() {
 	s.Lock()
 	defer s.Unlock()
-- 
2.43.0


From 7e6fc8fa301350037ab4ca335f7f0327f61eb2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:20 +0000
Subject: [PATCH 34/58] fix: evaluated template state was initialised past
 small variables

---
 evaluate.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/evaluate.go b/evaluate.go
index 33b1d38..18f51de 100644
--- a/evaluate.go
+++ b/evaluate.go
@@ -4,6 +4,7 @@ import (
 	"github.com/viant/velty/est"
 	"github.com/viant/velty/est/op"
 	"github.com/viant/velty/parser"
+	"reflect"
 	"unsafe"
 )
 
@@ -48,7 +49,8 @@ func (e *evaluator) newState(planner *Planner, state *est.State) *est.State {
 	newState := planner.stateProvider()()
 
 	for _, valueAccessor := range e.parent.Type.ValueAccessors() {
-		valueAccessor.SetValue(newState.MemPtr, valueAccessor.Value(state.MemPtr))
+		dest := reflect.NewAt(valueAccessor.Type, valueAccessor.Pointer(newState.MemPtr)).Elem()
+		dest.Set(reflect.NewAt(valueAccessor.Type, valueAccessor.Pointer(state.MemPtr)).Elem())
 	}
 
 	newState.Buffer = state.Buffer
-- 
2.43.0


From a4ffaeb418d84bfcf2a68394e4b83c96c6a7ace5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:52 +0000
Subject: [PATCH 35/58] fix: iterating over a slice of maps crashed

---
 est/stmt/foreach.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/est/stmt/foreach.go b/est/stmt/foreach.go
index bcd9c1b..f667c5c 100644
--- a/est/stmt/foreach.go
+++ b/est/stmt/foreach.go
@@ -23,7 +23,7 @@ func (e *ForEach) compute(state *est.State) unsafe.Pointer {
 
 	var resultPtr unsafe.Pointer
 	for i := 0; i < l; i++ {
-		v := e.Slice.ValueAt(xPtr, i)
+		v := e.valueAt(xPtr, i)
 		e.Item.Sel.Set(state.MemPtr, v)
 		resultPtr = e.Block(state)
 	}
@@ -64,7 +64,7 @@ func (e *ForEach) computeIndirect(state *est.State) unsafe.Pointer {
 	l := e.Slice.Len(xPtr)
 	var resultPtr unsafe.Pointer
 	for i := 0; i < l; i++ {
-		v := e.Slice.ValueAt(xPtr, i)
+		v := e.valueAt(xPtr, i)
 		e.Item.Sel.SetValue(state.MemPtr, v)
 		resultPtr = e.Block(state)
 	}
@@ -78,7 +78,7 @@ func (e *ForEach) computeLiteral(state *est.State) unsafe.Pointer {
 
 	var resultPtr unsafe.Pointer
 	for i := 0; i < l; i++ {
-		v := e.Slice.ValueAt(xPtr, i)
+		v := e.valueAt(xPtr, i)
 		e.Item.Sel.SetValue(state.MemPtr, v)
 		resultPtr = e.Block(state)
 	}
@@ -86,6 +86,14 @@ func (e *ForEach) computeLiteral(state *est.State) unsafe.Pointer {
 	return resultPtr
 }
 
+//valueAt returns slice item, map items are stored directly in an interface
+func (e *ForEach) valueAt(xPtr unsafe.Pointer, index int) interface{} {
+	if itemType := e.Slice.Elem(); itemType.Kind() == reflect.Map {
+		return reflect.NewAt(itemType, e.Slice.PointerAt(xPtr, uintptr(index))).Elem().Interface()
+	}
+	return e.Slice.ValueAt(xPtr, index)
+}
+
 func ForEachLoop(block est.New, itemExpr *op.Expression, sliceExpr *op.Expression) (est.New, error) {
 	return func(control est.Control) (est.Compute, error) {
 		aSlice, err := sliceExpr.Operand(control)
-- 
2.43.0


From a30fd274b38b3c7fe90fa80dff5b4672c2dbd1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:31 +0000
Subject: [PATCH 36/58] fix: function returning an interface crashed when its
 result was used

---
 est/op/func.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/est/op/func.go b/est/op/func.go
index 07bbee3..abbd067 100644
--- a/est/op/func.go
+++ b/est/op/func.go
@@ -108,6 +108,16 @@ func (f *Func) CallFunc(accumulator *Selector, operands []*Operand, state *est.S
 	if err != nil {
 		state.AddError(err)
 	}
+	if accumulator.Type != nil && accumulator.Type.Kind() == reflect.Interface { //the result has to be addressed as an interface
+		ptr := accumulator.Pointer(state.MemPtr)
+		dest := reflect.NewAt(accumulator.Type, ptr).Elem()
+		if anIface == nil {
+			dest.Set(reflect.Zero(accumulator.Type))
+		} else {
+			dest.Set(reflect.ValueOf(anIface))
+		}
+		return ptr
+	}
 	if anIface != nil {
 		accumulator.SetValue(state.MemPtr, anIface)
 		if f.XType.Type().Kind() == reflect.Map {
-- 
2.43.0


From 736fd2509eb643e70ed5e081d098a9638502ccce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:58 +0000
Subject: [PATCH 37/58] fix: single character last argument of a call was
 dropped

---
 parser/select.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser/select.go b/parser/select.go
index fe29045..a561422 100644
--- a/parser/select.go
+++ b/parser/select.go
@@ -180,7 +180,12 @@ func parseIdentity(cursor *parsly.Cursor) (*expr.Select, error) {
 func matchFunctionCall(cursor *parsly.Cursor) (*expr.Call, error) {
 	expressions := make([]ast.Expression, 0)
 
-	for cursor.Pos < cursor.InputSize-1 {
+	for {
+		cursor.MatchOne(WhiteSpace)
+		if cursor.Pos >= cursor.InputSize {
+			break
+		}
+
 		argumentCursor := extractArgument(cursor)
 		_, expression, err := matchOperand(argumentCursor, String, Boolean, Number)
 		if err != nil {
-- 
2.43.0


From 9ce293c755620feaa7c4a0d77596f5deede45231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:33 +0000
Subject: [PATCH 38/58] fix: pointer-shaped struct used as a function namespace
 corrupted memory

---
 est/op/operand.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/est/op/operand.go b/est/op/operand.go
index f5083d3..90e32b4 100644
--- a/est/op/operand.go
+++ b/est/op/operand.go
@@ -96,7 +96,7 @@ func (o *Operand) ExecReflectValue(state *est.State) reflect.Value {
 	//case reflect.Func:
 	//	anInterface = o.XType.Value(valuePtr)
 	default:
-		if o.LiteralPtr != nil {
+		if o.LiteralPtr != nil && o.XType.Kind() != reflect.Struct {
 			return reflect.ValueOf(o.XType.Value(valuePtr))
 		}
 		anInterface = o.XType.Interface(valuePtr)
@@ -121,7 +121,7 @@ func (o *Operand) AsInterface(valuePtr unsafe.Pointer) interface{} {
 	case reflect.Func:
 		anInterface = o.XType.Value(valuePtr)
 	default:
-		if o.LiteralPtr != nil {
+		if o.LiteralPtr != nil && o.XType.Kind() != reflect.Struct { //a struct literal is always held by its address
 			return o.XType.Value(valuePtr)
 		}
 
-- 
2.43.0


From 40ba8600bb24f9ba0823f6afb754c8708a4d5af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:33 +0000
Subject: [PATCH 39/58] fix: registered function without arguments could not be
 called

---
 est/op/func.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/est/op/func.go b/est/op/func.go
index abbd067..f189c3a 100644
--- a/est/op/func.go
+++ b/est/op/func.go
@@ -130,7 +130,7 @@ func (f *Func) CallFunc(accumulator *Selector, operands []*Operand, state *est.S
 }
 
 func (f *Func) callFunc(operands []*Operand, state *est.State) (interface{}, error) {
-	if len(operands) == 0 {
+	if len(operands) == 0 && f.minArgs() > 0 {
 		return nil, fmt.Errorf("expected to got min 1 operand but got %v", len(operands))
 	}
 
@@ -160,6 +160,18 @@ func (f *Func) callFunc(operands []*Operand, state *est.State) (interface{}, err
 	}
 }
 
+//minArgs returns the number of operands required by the function, including a receiver if any
+func (f *Func) minArgs() int {
+	if f.iFaceMethod {
+		return 1
+	}
+	required := f.maxArgs - 1
+	if f.isVariadic {
+		required--
+	}
+	return required
+}
+
 func (f *Func) execute(operands []*Operand, state *est.State) ([]reflect.Value, error) {
 	caller := f.caller
 	if f.iFaceMethod { //TODO optimize
-- 
2.43.0


From 4cc74843549d8b662ad1244f23e1d2964bafba5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:08 +0000
Subject: [PATCH 40/58] fix: escaped blocks with unbalanced brackets and text
 in #{} were not rendered

---
 parser/parser.go | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 3d74188..b64a149 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1,12 +1,12 @@
 package parser
 
 import (
+	"bytes"
 	"fmt"
 	"github.com/viant/parsly"
 	"github.com/viant/velty/ast"
 	"github.com/viant/velty/ast/expr"
 	"github.com/viant/velty/ast/stmt"
-	"strings"
 )
 
 func Parse(input []byte) (*stmt.Block, error) {
@@ -83,20 +83,29 @@ outer:
 	return builder.Block(), nil
 }
 
+//checkIfEscaped matches an escaped block #[[...]]#, which may contain other escaped blocks
 func checkIfEscaped(cursor *parsly.Cursor) (*stmt.Append, bool) {
-	lastCursorPos := cursor.Pos
-	matched := cursor.MatchOne(SquareBrackets)
-	if matched.Code == squareBracketsToken {
-		body := matched.Text(cursor)
-		if strings.HasPrefix(body, "[[") && strings.HasSuffix(body, "]]") {
-			matched = cursor.MatchOne(Hash)
-			if matched.Code == hashToken {
-				return stmt.NewAppend(body[2 : len(body)-2]), true
+	rest := cursor.Input[cursor.Pos:]
+	if !bytes.HasPrefix(rest, []byte("[[")) {
+		return nil, false
+	}
+
+	depth := 1
+	for i := 2; i+3 <= len(rest); i++ {
+		switch string(rest[i : i+3]) {
+		case "#[[":
+			depth++
+			i += 2
+		case "]]#":
+			depth--
+			if depth == 0 {
+				cursor.Pos += i + 3
+				return stmt.NewAppend(string(rest[2:i])), true
 			}
+			i += 2
 		}
 	}
 
-	cursor.Pos = lastCursorPos
 	return nil, false
 }
 
@@ -117,11 +126,16 @@ func appendStatementIfNeeded(text string, stack *Builder) error {
 }
 
 func matchStatement(cursor *parsly.Cursor) (ast.Statement, int, error) {
+	pos := cursor.Pos
 	matched := cursor.MatchAfterOptional(WhiteSpace, Brackets)
 	if matched.Token.Code == bracketsToken {
 		stmt := matched.Text(cursor)
 		newCursor := parsly.NewCursor("", []byte(stmt[1:len(stmt)-1]), 0)
-		return matchStatement(newCursor)
+		statement, code, err := matchStatement(newCursor)
+		if err != nil { //a text, it may contain other statements
+			cursor.Pos = pos
+		}
+		return statement, code, err
 	}
 
 	candidates := []*parsly.Token{If, ElseIf, Else, Set, ForEach, For, Evaluate, End}
-- 
2.43.0


From 779fafa7ec1363b43b675247870752ba7b90056c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:58 +0000
Subject: [PATCH 41/58] fix: setting a nil interface, slice or map variable
 panicked

---
 est/state.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/est/state.go b/est/state.go
index 936c8a4..a00fd18 100644
--- a/est/state.go
+++ b/est/state.go
@@ -29,6 +29,10 @@ func (s *State) SetValue(k string, v interface{}) error {
 
 	switch xField.Kind() {
 	case reflect.Ptr, reflect.Struct, reflect.Slice, reflect.Map, reflect.Interface:
+		if v == nil && xField.Kind() != reflect.Struct {
+			reflect.NewAt(xField.Type, xField.Pointer(s.MemPtr)).Elem().Set(reflect.Zero(xField.Type))
+			return nil
+		}
 		xField.SetValue(s.MemPtr, v)
 	default:
 		return setPrimitive(xField, s.MemPtr, v)
-- 
2.43.0


From 3721a7400a98f232b0fe314404ecf1b547b987a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:49 +0000
Subject: [PATCH 42/58] fix: indexing with an index of other type than int, or
 on an interface, read other memory

---
 est/op/iface.go    | 32 +++++++++++++++------
 est/op/selector.go | 46 +++++++++++++-----------------
 est/op/slice.go    | 70 ++++++++++++++++++++++++++++++++++++++++++----
 est/op/upstream.go |  2 +-
 4 files changed, 109 insertions(+), 41 deletions(-)

diff --git a/est/op/iface.go b/est/op/iface.go
index 2c0bf71..f38afa1 100644
--- a/est/op/iface.go
+++ b/est/op/iface.go
@@ -1,6 +1,7 @@
 package op
 
 import (
+	"fmt"
 	"github.com/viant/velty/est"
 	"github.com/viant/xunsafe"
 	"reflect"
@@ -8,19 +9,34 @@ import (
 )
 
 type Interface struct {
-	aMap     *Map
-	aSlice   *Slice
-	xOperand *Operand
+	aMap         *Map
+	indexOperand *Operand
 }
 
 func (i *Interface) Exec(xPtr unsafe.Pointer, state *est.State) unsafe.Pointer {
-	asInterface := xunsafe.AsInterface(xPtr)
+	actualValue := reflect.ValueOf(xunsafe.AsInterface(xPtr))
+	for actualValue.Kind() == reflect.Ptr {
+		actualValue = actualValue.Elem()
+	}
 
-	actualValue := reflect.ValueOf(asInterface)
-	switch actualValue.Type().Kind() {
+	switch actualValue.Kind() {
+	case reflect.Invalid:
+		return nil
 	case reflect.Map:
 		return i.aMap.Exec(xPtr, state)
-	default:
-		return i.aSlice.Exec(xPtr, state)
+	case reflect.Slice, reflect.Array:
+		index, ok := indexOf(reflect.ValueOf(i.indexOperand.ExecInterface(state)))
+		if !ok {
+			return nil
+		}
+
+		if index < 0 || actualValue.Len() <= index {
+			panic(fmt.Sprintf("index out of range [%v] with length %v", index, actualValue.Len()))
+		}
+
+		item := actualValue.Index(index).Interface()
+		return unsafe.Pointer(&item)
 	}
+
+	panic(fmt.Sprintf("can't access index of %v", actualValue.Type().String()))
 }
diff --git a/est/op/selector.go b/est/op/selector.go
index d6ef36d..4ef2833 100644
--- a/est/op/selector.go
+++ b/est/op/selector.go
@@ -1,8 +1,8 @@
 package op
 
 import (
+	"fmt"
 	"github.com/viant/xunsafe"
-	types "github.com/viant/xunsafe/converter"
 	"reflect"
 	"unsafe"
 )
@@ -88,32 +88,32 @@ func FunctionSelector(id string, field *xunsafe.Field, aFunc *Func, parent *Sele
 }
 
 func SliceSelector(id string, placeholder string, sliceOperand, indexOperand *Operand, parent *Selector) (*Selector, error) {
-	slice, err := newSlice(sliceOperand, indexOperand, parent)
+	sliceType := parent.Type
+	for sliceType.Kind() == reflect.Ptr {
+		sliceType = sliceType.Elem()
+	}
+
+	if sliceType.Kind() != reflect.Slice {
+		return nil, fmt.Errorf("can't access index of %v", parent.Type.String())
+	}
+
+	toInt, err := indexReader(indexOperand.Type)
 	if err != nil {
 		return nil, err
 	}
 
 	return &Selector{
-		Type:        parent.Type.Elem(),
+		Type:        sliceType.Elem(),
 		ID:          id,
 		Indirect:    true,
 		Parent:      parent,
-		Slice:       slice,
 		Placeholder: placeholder,
-	}, nil
-}
-
-func newSlice(sliceOperand *Operand, indexOperand *Operand, parent *Selector) (*Slice, error) {
-	toInt, err := types.Unify(indexOperand.Type, intType)
-	if err != nil {
-		return nil, err
-	}
-
-	return &Slice{
-		SliceOperand: sliceOperand,
-		IndexOperand: indexOperand,
-		ToInter:      toInt.Y,
-		XSlice:       xunsafe.NewSlice(parent.Type),
+		Slice: &Slice{
+			SliceOperand: sliceOperand,
+			IndexOperand: indexOperand,
+			ToInter:      toInt,
+			XSlice:       xunsafe.NewSlice(sliceType),
+		},
 	}, nil
 }
 
@@ -129,11 +129,6 @@ func NewMapSelector(id string, placeholder string, mapOperand, indexOperand *Ope
 }
 
 func NewInterfaceSelector(id string, placeholder string, xOperand, indexOperand *Operand, parent *Selector) (*Selector, error) {
-	aSlice, err := newSlice(xOperand, indexOperand, parent)
-	if err != nil {
-		return nil, err
-	}
-
 	return &Selector{
 		Type:        parent.Type,
 		ID:          id,
@@ -141,9 +136,8 @@ func NewInterfaceSelector(id string, placeholder string, xOperand, indexOperand
 		Parent:      parent,
 		Placeholder: placeholder,
 		InterfaceExec: &Interface{
-			xOperand: xOperand,
-			aMap:     newMap(xOperand, indexOperand, parent),
-			aSlice:   aSlice,
+			indexOperand: indexOperand,
+			aMap:         newMap(xOperand, indexOperand, parent),
 		},
 	}, nil
 }
diff --git a/est/op/slice.go b/est/op/slice.go
index cbbfb39..0c5642f 100644
--- a/est/op/slice.go
+++ b/est/op/slice.go
@@ -4,7 +4,7 @@ import (
 	"fmt"
 	"github.com/viant/velty/est"
 	"github.com/viant/xunsafe"
-	"github.com/viant/xunsafe/converter"
+	"reflect"
 	"unsafe"
 )
 
@@ -12,22 +12,80 @@ type Slice struct {
 	XSlice       *xunsafe.Slice
 	IndexOperand *Operand
 	SliceOperand *Operand
-	ToInter      converter.UnifyFn
+	ToInter      func(ptr unsafe.Pointer) (int, bool)
 }
 
 func (s *Slice) Exec(slicePtr unsafe.Pointer, state *est.State) unsafe.Pointer {
-	sliceLen := s.XSlice.Len(slicePtr)
+	index, ok := s.index(state, s.XSlice.Len(slicePtr))
+	if !ok {
+		return nil
+	}
+
+	return s.XSlice.PointerAt(slicePtr, uintptr(index))
+}
 
+//index returns an index within sliceLen, or false if the index was nil
+func (s *Slice) index(state *est.State, sliceLen int) (int, bool) {
 	indexPtr := s.IndexOperand.Exec(state)
 	if indexPtr == nil {
-		return nil
+		return 0, false
+	}
+
+	index, ok := s.ToInter(indexPtr)
+	if !ok {
+		return 0, false
 	}
 
-	index := *(*int)(indexPtr)
 	if index < 0 || sliceLen <= index {
 		panic(fmt.Sprintf("index out of range [%v] with length %v", index, sliceLen))
 	}
 
-	return s.XSlice.PointerAt(slicePtr, uintptr(index))
+	return index, true
+}
+
+//indexReader returns a function reading an index of given type
+func indexReader(rType reflect.Type) (func(ptr unsafe.Pointer) (int, bool), error) {
+	switch rType.Kind() {
+	case reflect.Int:
+		return func(ptr unsafe.Pointer) (int, bool) {
+			return *(*int)(ptr), true
+		}, nil
+	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Interface:
+		return func(ptr unsafe.Pointer) (int, bool) {
+			return indexOf(reflect.NewAt(rType, ptr).Elem())
+		}, nil
+	case reflect.Ptr:
+		elem, err := indexReader(rType.Elem())
+		if err != nil {
+			return nil, err
+		}
+		return func(ptr unsafe.Pointer) (int, bool) {
+			if ptr = *(*unsafe.Pointer)(ptr); ptr == nil {
+				return 0, false
+			}
+			return elem(ptr)
+		}, nil
+	}
+
+	return nil, fmt.Errorf("unsupported index type %v", rType.String())
+}
+
+func indexOf(value reflect.Value) (int, bool) {
+	switch value.Kind() {
+	case reflect.Interface, reflect.Ptr:
+		if value.IsNil() {
+			return 0, false
+		}
+		return indexOf(value.Elem())
+	case reflect.Invalid:
+		return 0, false
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		return int(value.Int()), true
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		if index := int(value.Uint()); index >= 0 {
+			return index, true
+		}
+	}
 
+	panic(fmt.Sprintf("invalid index %v", value.Interface()))
 }
diff --git a/est/op/upstream.go b/est/op/upstream.go
index 7c3bc95..b0a55b0 100644
--- a/est/op/upstream.go
+++ b/est/op/upstream.go
@@ -92,7 +92,7 @@ func upstream(selector *Selector, derefLast bool, target bool) func(state *est.S
 				ptr = refIfNeeded(parents[i].Func.CallFunc(parents[i], args, state), shouldRef)
 			} else if parents[i].Slice != nil {
 				ptr = parents[i].Slice.Exec(ptr, state)
-				if ptr != nil && i < parentLen-1 && parents[i].Type.Kind() == reflect.Ptr && parents[i+1].isField() {
+				if ptr != nil && i < parentLen-1 && parents[i].Type.Kind() == reflect.Ptr && (parents[i+1].isField() || parents[i+1].Slice != nil) {
 					ptr = xunsafe.DerefPointer(ptr)
 				}
 			} else if parents[i].Map != nil {
-- 
2.43.0


From 47b4a93f7b8ae04188f920053e431ba6750dfc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:45 +0000
Subject: [PATCH 43/58] fix: map access panicked on keys convertible to the map
 key type and on nil keys, IndexBy did not normalize keys

---
 est/op/map.go       |  3 +-
 functions/maps.go   |  5 ++-
 functions/slices.go |  5 ++-
 keys/mapindex.go    | 75 +++++++++++++++++++++++++++++++++++++++++++++
 4 files changed, 80 insertions(+), 8 deletions(-)
 create mode 100644 keys/mapindex.go

diff --git a/est/op/map.go b/est/op/map.go
index 34ce974..2a55a7b 100644
--- a/est/op/map.go
+++ b/est/op/map.go
@@ -22,13 +22,12 @@ func (m *Map) Exec(mapPtr unsafe.Pointer, state *est.State) unsafe.Pointer {
 	}
 
 	execInterface := m.indexOperand.ExecInterface(state)
-	anIndex := keys.Normalize(execInterface)
 	mapValue := reflect.ValueOf(aMap)
 	if mapValue.Kind() != reflect.Map {
 		return nil
 	}
 
-	actualValue := mapValue.MapIndex(reflect.ValueOf(anIndex))
+	actualValue := keys.MapIndex(mapValue, execInterface)
 	if !actualValue.IsValid() {
 		return nil
 	}
diff --git a/functions/maps.go b/functions/maps.go
index 12f83a0..a7fabe6 100644
--- a/functions/maps.go
+++ b/functions/maps.go
@@ -27,8 +27,7 @@ func (m Maps) value(aMap interface{}, key interface{}) (reflect.Value, error) {
 		return reflect.Value{}, fmt.Errorf("incorrect arg type, wanted Map, got %T", aMap)
 	}
 
-	index := valueOf.MapIndex(reflect.ValueOf(key))
-	return index, nil
+	return keys.MapIndex(valueOf, key), nil
 }
 
 func (m Maps) Get(aMap interface{}, key interface{}) (interface{}, error) {
@@ -103,7 +102,7 @@ func (m Maps) GetString(aMap interface{}, key interface{}) (string, error) {
 var HasKeyFunc = &StaticKindFunc{
 	kind: reflect.Map,
 	handler: func(aMap, aKey interface{}) (bool, error) {
-		return reflect.ValueOf(aMap).MapIndex(reflect.ValueOf(keys.Normalize(aKey))).IsValid(), nil
+		return keys.MapIndex(reflect.ValueOf(aMap), aKey).IsValid(), nil
 	},
 	resultType: reflect.TypeOf(true),
 }
diff --git a/functions/slices.go b/functions/slices.go
index 9332897..b839e0d 100644
--- a/functions/slices.go
+++ b/functions/slices.go
@@ -130,9 +130,8 @@ func (in *indexSliceByFunc) Handler() interface{} {
 				fieldValue = upstreamType.Deref(fieldValue)
 			}
 
-			key := keys.Normalize(fieldValue)
-			fieldValue = xField.Value(xunsafe.AsPointer(key))
-			resultMap.SetMapIndex(reflect.ValueOf(fieldValue), reflect.ValueOf(sliceValueAt))
+			key := keys.Normalize(xField.Value(xunsafe.AsPointer(fieldValue)))
+			resultMap.SetMapIndex(reflect.ValueOf(&key).Elem(), reflect.ValueOf(sliceValueAt))
 		}
 		resultMapIface := resultMap.Interface()
 		if err != nil {
diff --git a/keys/mapindex.go b/keys/mapindex.go
new file mode 100644
index 0000000..daead08
--- /dev/null
+++ b/keys/mapindex.go
@@ -0,0 +1,75 @@
+package keys
+
+import "reflect"
+
+// MapIndex returns the value of a map stored under normalized key, or invalid value if there is none.
+func MapIndex(aMap reflect.Value, key interface{}) reflect.Value {
+	key = Normalize(key)
+	if key == nil {
+		return reflect.Value{}
+	}
+
+	keyValue, ok := asKey(reflect.ValueOf(key), aMap.Type().Key())
+	if !ok {
+		return reflect.Value{}
+	}
+
+	return aMap.MapIndex(keyValue)
+}
+
+// asKey converts a key to the map key type, as long as it denotes the same value
+func asKey(key reflect.Value, keyType reflect.Type) (reflect.Value, bool) {
+	if key.Type().AssignableTo(keyType) {
+		return key, key.Type().Comparable()
+	}
+
+	result := reflect.New(keyType).Elem()
+	switch {
+	case isInt(keyType):
+		value, ok := asInt(key)
+		if !ok || result.OverflowInt(value) {
+			return reflect.Value{}, false
+		}
+		result.SetInt(value)
+		return result, true
+	case isUint(keyType):
+		value, ok := asUint(key)
+		if !ok || result.OverflowUint(value) {
+			return reflect.Value{}, false
+		}
+		result.SetUint(value)
+		return result, true
+	case keyType.Kind() == key.Kind() && key.Type().ConvertibleTo(keyType):
+		return key.Convert(keyType), key.Type().Comparable()
+	}
+
+	return reflect.Value{}, false
+}
+
+func asInt(key reflect.Value) (int64, bool) {
+	if isInt(key.Type()) {
+		return key.Int(), true
+	}
+	if isUint(key.Type()) && int64(key.Uint()) >= 0 {
+		return int64(key.Uint()), true
+	}
+	return 0, false
+}
+
+func asUint(key reflect.Value) (uint64, bool) {
+	if isUint(key.Type()) {
+		return key.Uint(), true
+	}
+	if isInt(key.Type()) && key.Int() >= 0 {
+		return uint64(key.Int()), true
+	}
+	return 0, false
+}
+
+func isInt(rType reflect.Type) bool {
+	return rType.Kind() >= reflect.Int && rType.Kind() <= reflect.Int64
+}
+
+func isUint(rType reflect.Type) bool {
+	return rType.Kind() >= reflect.Uint && rType.Kind() <= reflect.Uintptr
+}
-- 
2.43.0


From 83abcd03cadcd7547f146d429be1595a49ba1692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:48 +0000
Subject: [PATCH 44/58] fix: spaces around names of a tag were part of the name

---
 tag.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/tag.go b/tag.go
index 191f3b2..6a18d7b 100644
--- a/tag.go
+++ b/tag.go
@@ -30,7 +30,7 @@ func Parse(tagString string) *Tag {
 		if len(nv) == 2 {
 			switch strings.ToLower(strings.TrimSpace(nv[0])) {
 			case "names":
-				tag.Names = strings.Split(strings.TrimSpace(nv[1]), nameSeparator)
+				tag.Names = splitNames(nv[1])
 			case "name":
 				tag.Names = []string{strings.TrimSpace(nv[1])}
 			case "prefix":
@@ -48,13 +48,21 @@ func Parse(tagString string) *Tag {
 		if i == 0 {
 			columnName := strings.TrimSpace(element)
 			if len(columnName) > 0 {
-				tag.Names = strings.Split(columnName, nameSeparator)
+				tag.Names = splitNames(columnName)
 			}
 		}
 	}
 	return tag
 }
 
+func splitNames(names string) []string {
+	result := strings.Split(names, nameSeparator)
+	for i, name := range result {
+		result[i] = strings.TrimSpace(name)
+	}
+	return result
+}
+
 func (t *Tag) nameEqual(value string) bool {
 	for _, name := range t.Names {
 		if name == value {
-- 
2.43.0


From 01855f5752ebd7538390caa0b4bfe9571417effa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:02 +0000
Subject: [PATCH 45/58] fix: names separated by | in a name= tag were taken as
 one name

---
 tag.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tag.go b/tag.go
index 6a18d7b..c53cbf5 100644
--- a/tag.go
+++ b/tag.go
@@ -29,10 +29,8 @@ func Parse(tagString string) *Tag {
 		nv := strings.Split(element, "=")
 		if len(nv) == 2 {
 			switch strings.ToLower(strings.TrimSpace(nv[0])) {
-			case "names":
+			case "names", "name":
 				tag.Names = splitNames(nv[1])
-			case "name":
-				tag.Names = []string{strings.TrimSpace(nv[1])}
 			case "prefix":
 				tag.Prefix = strings.TrimSpace(nv[1])
 			}
-- 
2.43.0


From 724e2cc398943088869bb6e293f695cf7dddf4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:07 +0000
Subject: [PATCH 46/58] fix: a field named in a tag like a hidden field could
 not be referenced

---
 planner.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/planner.go b/planner.go
index 52f909b..c8055a9 100644
--- a/planner.go
+++ b/planner.go
@@ -294,20 +294,22 @@ func (p *Planner) fieldByName(parentType reflect.Type, actual *expr.Select, sele
 	}
 
 	field := xunsafe.FieldByName(parentType, actual.ID)
-	if field != nil {
-		if Parse(field.Tag.Get(velty)).Omit {
-			return nil, fmt.Errorf("can't create selector for field %v", field.Name)
-		}
+	omitted := field != nil && Parse(field.Tag.Get(velty)).Omit
+	if field != nil && !omitted {
 		return field, nil
 	}
 
 	for i := 0; i < parentType.NumField(); i++ {
 		vTag := Parse(parentType.Field(i).Tag.Get(velty))
-		if vTag.nameEqual(actual.ID) {
+		if !vTag.Omit && vTag.nameEqual(actual.ID) {
 			return xunsafe.NewField(parentType.Field(i)), nil
 		}
 	}
 
+	if omitted {
+		return nil, fmt.Errorf("can't create selector for field %v", field.Name)
+	}
+
 	return nil, fmt.Errorf("not found field %v at %v", strings.ReplaceAll(selectorId, fieldSeparator, "."), parentType.String())
 }
 
-- 
2.43.0


From 65872451d5cca3010283e2dbfc06e42829bee204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:03 +0000
Subject: [PATCH 47/58] fix: foreach wrote small items past the loop variable,
 nil interface items panicked

---
 est/stmt/foreach.go | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/est/stmt/foreach.go b/est/stmt/foreach.go
index f667c5c..4923d70 100644
--- a/est/stmt/foreach.go
+++ b/est/stmt/foreach.go
@@ -23,8 +23,7 @@ func (e *ForEach) compute(state *est.State) unsafe.Pointer {
 
 	var resultPtr unsafe.Pointer
 	for i := 0; i < l; i++ {
-		v := e.valueAt(xPtr, i)
-		e.Item.Sel.Set(state.MemPtr, v)
+		e.setItem(state, xPtr, i)
 		resultPtr = e.Block(state)
 	}
 
@@ -37,8 +36,7 @@ func (e *ForEach) computePtr(state *est.State) unsafe.Pointer {
 
 	var resultPtr unsafe.Pointer
 	for i := 0; i < l; i++ {
-		v := e.Slice.ValuePointerAt(xPtr, i)
-		e.Item.Sel.SetValue(state.MemPtr, v)
+		e.setItem(state, xPtr, i)
 		resultPtr = e.Block(state)
 	}
 
@@ -51,8 +49,7 @@ func (e *ForEach) computeIndirectPtr(state *est.State) unsafe.Pointer {
 
 	var resultPtr unsafe.Pointer
 	for i := 0; i < l; i++ {
-		v := e.Slice.ValuePointerAt(xPtr, i)
-		e.Item.Sel.SetValue(state.MemPtr, v)
+		e.setItem(state, xPtr, i)
 		resultPtr = e.Block(state)
 	}
 
@@ -64,8 +61,7 @@ func (e *ForEach) computeIndirect(state *est.State) unsafe.Pointer {
 	l := e.Slice.Len(xPtr)
 	var resultPtr unsafe.Pointer
 	for i := 0; i < l; i++ {
-		v := e.valueAt(xPtr, i)
-		e.Item.Sel.SetValue(state.MemPtr, v)
+		e.setItem(state, xPtr, i)
 		resultPtr = e.Block(state)
 	}
 
@@ -78,20 +74,17 @@ func (e *ForEach) computeLiteral(state *est.State) unsafe.Pointer {
 
 	var resultPtr unsafe.Pointer
 	for i := 0; i < l; i++ {
-		v := e.valueAt(xPtr, i)
-		e.Item.Sel.SetValue(state.MemPtr, v)
+		e.setItem(state, xPtr, i)
 		resultPtr = e.Block(state)
 	}
 
 	return resultPtr
 }
 
-//valueAt returns slice item, map items are stored directly in an interface
-func (e *ForEach) valueAt(xPtr unsafe.Pointer, index int) interface{} {
-	if itemType := e.Slice.Elem(); itemType.Kind() == reflect.Map {
-		return reflect.NewAt(itemType, e.Slice.PointerAt(xPtr, uintptr(index))).Elem().Interface()
-	}
-	return e.Slice.ValueAt(xPtr, index)
+//setItem assigns the slice item to the loop variable, writing exactly the size of the variable type
+func (e *ForEach) setItem(state *est.State, xPtr unsafe.Pointer, index int) {
+	item := reflect.NewAt(e.Slice.Elem(), e.Slice.PointerAt(xPtr, uintptr(index))).Elem()
+	reflect.NewAt(e.Item.Sel.Field.Type, e.Item.Sel.Pointer(state.MemPtr)).Elem().Set(item)
 }
 
 func ForEachLoop(block est.New, itemExpr *op.Expression, sliceExpr *op.Expression) (est.New, error) {
-- 
2.43.0


From 5a7fe55825b92f050174699acbb7d9ffbc3cace4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:33 +0000
Subject: [PATCH 48/58] fix: fields of a struct embedded by value in front of
 other fields were read at a wrong offset

---
 planner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner.go b/planner.go
index c8055a9..3f62ac2 100644
--- a/planner.go
+++ b/planner.go
@@ -74,7 +74,7 @@ func (p *Planner) createSelectors(prefix string, field reflect.StructField, pare
 	}
 
 	if !field.Anonymous {
-		offsetSoFar += field.Offset
+		offsetSoFar += field.Offset + initialOffset
 		initialOffset = 0
 
 		if prefix == "" {
-- 
2.43.0


From 4fd5fcd298ba745f9d86e3ce37b575d9642723d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:02 +0000
Subject: [PATCH 49/58] fix: methods of types with the same printed name were
 mixed up

---
 est/op/func.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/est/op/func.go b/est/op/func.go
index f189c3a..41b73f3 100644
--- a/est/op/func.go
+++ b/est/op/func.go
@@ -28,7 +28,7 @@ type (
 		kindFunctions []KindFunction
 		funcs         []*Func
 
-		receivers map[string]*funcReceiver
+		receivers map[reflect.Type]*funcReceiver
 		functions map[string]*Function
 		ns        map[string]interface{}
 	}
@@ -303,7 +303,7 @@ func EmptyFunctions() *Functions {
 			index: map[reflect.Kind]int{},
 		},
 		funcs:     make([]*Func, 0),
-		receivers: map[string]*funcReceiver{},
+		receivers: map[reflect.Type]*funcReceiver{},
 		ns:        map[string]interface{}{},
 		functions: map[string]*Function{},
 	}
@@ -458,7 +458,7 @@ func (f *Functions) funcByName(rType reflect.Type, id string) (*Func, error) {
 
 func (f *Functions) asFunc(receiverType reflect.Type, id string, method reflect.Method) (*Func, error) {
 	f.ensureReceiver(receiverType)
-	receiver, _ := f.receivers[asMapKey(receiverType)]
+	receiver, _ := f.receivers[receiverType]
 	index, ok := receiver.index[id]
 	if ok {
 		return receiver.funcs[index], nil
@@ -901,7 +901,7 @@ func (f *Functions) registerTypeFunc(receiverType reflect.Type, typeFunc *TypeFu
 }
 
 func (f *Functions) ensureReceiver(receiverType reflect.Type) *funcReceiver {
-	receiver, ok := f.receivers[asMapKey(receiverType)]
+	receiver, ok := f.receivers[receiverType]
 	if ok {
 		return receiver
 	}
@@ -912,14 +912,10 @@ func (f *Functions) ensureReceiver(receiverType reflect.Type) *funcReceiver {
 		rType: receiverType,
 	}
 
-	f.receivers[asMapKey(receiverType)] = receiver
+	f.receivers[receiverType] = receiver
 	return receiver
 }
 
-func asMapKey(receiverType reflect.Type) string {
-	return receiverType.String()
-}
-
 func incorrectArgumentsError(wanted string, got []*Operand) error {
 	return fmt.Errorf("expected to got %v but got %v", wanted, len(got))
 }
-- 
2.43.0


From 156f5b01518f04fec9494e5fef6515ed05f66a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:26 +0000
Subject: [PATCH 50/58] fix: result of a function returning a small type
 overwrote the variables after it

---
 est/op/func.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/est/op/func.go b/est/op/func.go
index 41b73f3..1081934 100644
--- a/est/op/func.go
+++ b/est/op/func.go
@@ -119,7 +119,11 @@ func (f *Func) CallFunc(accumulator *Selector, operands []*Operand, state *est.S
 		return ptr
 	}
 	if anIface != nil {
-		accumulator.SetValue(state.MemPtr, anIface)
+		if accumulator.Type != nil && accumulator.Type.Size() < unsafe.Sizeof(uintptr(0)) { //SetValue would write a whole word
+			xunsafe.Copy(accumulator.Pointer(state.MemPtr), xunsafe.AsPointer(anIface), int(accumulator.Type.Size()))
+		} else {
+			accumulator.SetValue(state.MemPtr, anIface)
+		}
 		if f.XType.Type().Kind() == reflect.Map {
 			return unsafe.Pointer(reflect.ValueOf(f.XType.Ref(anIface)).Pointer())
 		}
-- 
2.43.0


From fd6fde74c30f4154d919d5e566446c11621fe3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:29 +0000
Subject: [PATCH 51/58] fix: variables added to the planner after a state was
 created were accessed beyond the state memory

---
 est/state.go | 9 +++++++--
 evaluate.go  | 4 ++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/est/state.go b/est/state.go
index a00fd18..036d996 100644
--- a/est/state.go
+++ b/est/state.go
@@ -23,7 +23,7 @@ type State struct {
 
 func (s *State) SetValue(k string, v interface{}) error {
 	xField, ok := s.StateType.ValueAccessor(k)
-	if !ok {
+	if !ok || !s.HasField(xField) {
 		return fmt.Errorf("undefined: %v", k)
 	}
 
@@ -58,7 +58,7 @@ func (s *State) EmbedValue(v interface{}) error {
 	}
 
 	xField, ok := s.StateType.ValueAccessor(holderName)
-	if !ok {
+	if !ok || !s.HasField(xField) {
 		return fmt.Errorf("undefined: %v", holderName)
 	}
 
@@ -72,6 +72,11 @@ func (s *State) EmbedValue(v interface{}) error {
 	return nil
 }
 
+//HasField returns true if the state memory holds given field, fields added to the scope later are not a part of the state
+func (s *State) HasField(xField *xunsafe.Field) bool {
+	return xField.Offset+xField.Type.Size() <= reflect.TypeOf(s.Mem).Elem().Size()
+}
+
 //setPrimitive writes exactly field type size, as opposed to xunsafe.Field.Set
 func setPrimitive(xField *xunsafe.Field, ptr unsafe.Pointer, v interface{}) error {
 	value := reflect.ValueOf(v)
diff --git a/evaluate.go b/evaluate.go
index 18f51de..8cfe052 100644
--- a/evaluate.go
+++ b/evaluate.go
@@ -49,6 +49,10 @@ func (e *evaluator) newState(planner *Planner, state *est.State) *est.State {
 	newState := planner.stateProvider()()
 
 	for _, valueAccessor := range e.parent.Type.ValueAccessors() {
+		if !state.HasField(valueAccessor) {
+			continue
+		}
+
 		dest := reflect.NewAt(valueAccessor.Type, valueAccessor.Pointer(newState.MemPtr)).Elem()
 		dest.Set(reflect.NewAt(valueAccessor.Type, valueAccessor.Pointer(state.MemPtr)).Elem())
 	}
-- 
2.43.0


From 3cc786969bbf35aad6ec72ae6f83a6a5091f52ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:28 +0000
Subject: [PATCH 52/58] fix: variables made by a template kept their values
 when a state was reset

---
 est/state.go |  6 ++++++
 est/type.go  |  9 +++++++++
 planner.go   | 16 +++++++++++++++-
 stmt.go      |  2 +-
 4 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/est/state.go b/est/state.go
index 036d996..fe7c4b5 100644
--- a/est/state.go
+++ b/est/state.go
@@ -95,6 +95,12 @@ func (s *State) Reset() {
 	s.Buffer.Reset()
 	s.Errors = nil
 	s.isTaken = true
+
+	for _, local := range s.StateType.locals {
+		if s.HasField(local) {
+			reflect.NewAt(local.Type, local.Pointer(s.MemPtr)).Elem().Set(reflect.Zero(local.Type))
+		}
+	}
 }
 
 func (s *State) IsValid() bool {
diff --git a/est/type.go b/est/type.go
index 9137ef1..203c624 100644
--- a/est/type.go
+++ b/est/type.go
@@ -21,6 +21,7 @@ type Type struct {
 	xFields         []*xunsafe.Field
 	transients      *int
 	anonymousFields map[string]string
+	locals          []*xunsafe.Field
 }
 
 func (t *Type) AddField(id string, name string, rType reflect.Type) reflect.StructField {
@@ -93,6 +94,13 @@ func (t *Type) ValueAccessor(id string) (*xunsafe.Field, bool) {
 	return t.xFields[index], true
 }
 
+//MarkLocal marks a field as local, locals are made by a template and cleared when a state is reset
+func (t *Type) MarkLocal(id string) {
+	if xField, ok := t.ValueAccessor(id); ok {
+		t.locals = append(t.locals, xField)
+	}
+}
+
 func (t *Type) Snapshot() *Type {
 	xFields := make([]*xunsafe.Field, len(t.xFields))
 	fields := make([]reflect.StructField, len(t.fields))
@@ -117,6 +125,7 @@ func (t *Type) Snapshot() *Type {
 		xFields:         xFields,
 		transients:      t.transients,
 		anonymousFields: anonymousFields,
+		locals:          append([]*xunsafe.Field{}, t.locals...),
 	}
 }
 
diff --git a/planner.go b/planner.go
index 3f62ac2..e2f51c5 100644
--- a/planner.go
+++ b/planner.go
@@ -188,6 +188,20 @@ func (p *Planner) DefineVariable(name string, v interface{}, names ...string) er
 	return nil
 }
 
+//defineLocal defines a variable made by a template, if it is not defined yet
+func (p *Planner) defineLocal(name string, rType reflect.Type) error {
+	if p.selectorByName(name) != nil {
+		return nil
+	}
+
+	if err := p.DefineVariable(name, rType); err != nil {
+		return err
+	}
+
+	p.Type.MarkLocal(name)
+	return nil
+}
+
 func (p *Planner) selector(selector *expr.Select) (*op.Selector, error) {
 	resultSelector, call, err := p.matchFirstSelector(selector)
 	if err != nil || call == nil {
@@ -354,7 +368,7 @@ func (p *Planner) adjustSelector(expr *op.Expression, t reflect.Type) error {
 		return fmt.Errorf("couldn't determine %v type", expr.Name)
 	}
 
-	if err := p.DefineVariable(expr.Name, t); err != nil {
+	if err := p.defineLocal(expr.Name, t); err != nil {
 		return err
 	}
 
diff --git a/stmt.go b/stmt.go
index fb0b4b4..ce87821 100644
--- a/stmt.go
+++ b/stmt.go
@@ -127,7 +127,7 @@ func (p *Planner) compileForEachLoop(actual *stmt2.ForEach) (est.New, error) {
 
 	itemType := sliceSelector.Type.Elem()
 
-	if err := p.DefineVariable(actual.Item.ID, itemType); err != nil {
+	if err := p.defineLocal(actual.Item.ID, itemType); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From cb790551425cd3b8559c4debaea3547d8b44d030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 53/58] fix: a reference to a name of a functions namespace
 crashed the execution

---
 selector.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/selector.go b/selector.go
index 3c8c73d..5c3fe32 100644
--- a/selector.go
+++ b/selector.go
@@ -15,7 +15,7 @@ func (p *Planner) selectorExpr(selector *expr.Select) (*op.Expression, error) {
 		return nil, err
 	}
 
-	if expression.Selector == nil {
+	if expression.Selector == nil || p.isNamespace(selector, expression.Selector) {
 		id := selector.ID
 		expression.Selector = op.NewSelector(id, selector.ID, nil, nil)
 		expression.Selector.Placeholder = selector.FullName
@@ -25,6 +25,11 @@ func (p *Planner) selectorExpr(selector *expr.Select) (*op.Expression, error) {
 	return expression, nil
 }
 
+//isNamespace returns true if the selector is just a name of functions namespace, which has no value
+func (p *Planner) isNamespace(selector *expr.Select, resultSelector *op.Selector) bool {
+	return selector.X == nil && resultSelector.Literal != nil && p.IsFuncNs(selector.ID)
+}
+
 func (p *Planner) compileStmtSelector(actual *expr.Select) (est.New, error) {
 	selExpr, err := p.selectorExpr(actual)
 	if err != nil {
-- 
2.43.0


From 5cb51c5e0293c6dbd7adb31aa7b9454bb5b87ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 54/58] fix: variables named like a functions namespace were
 not defined

---
 planner.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planner.go b/planner.go
index e2f51c5..e8cbdea 100644
--- a/planner.go
+++ b/planner.go
@@ -163,7 +163,7 @@ func elemIfNeeded(rType reflect.Type) (reflect.Type, bool) {
 // DefineVariable enrich the Type by adding field with given name.
 // val can be either of the reflect.Type or regular type (i.e. Foo)
 func (p *Planner) DefineVariable(name string, v interface{}, names ...string) error {
-	if p.selectorByName(name) != nil {
+	if _, ok := p.selectors.ById(name); ok {
 		return nil
 	}
 
@@ -190,7 +190,7 @@ func (p *Planner) DefineVariable(name string, v interface{}, names ...string) er
 
 //defineLocal defines a variable made by a template, if it is not defined yet
 func (p *Planner) defineLocal(name string, rType reflect.Type) error {
-	if p.selectorByName(name) != nil {
+	if _, ok := p.selectors.ById(name); ok {
 		return nil
 	}
 
-- 
2.43.0


From c9ea0c71a3eff7412cc13578b0be7fa779d90edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:11 +0000
Subject: [PATCH 55/58] fix: a malformed leading item of a tag was taken as a
 name

---
 tag.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tag.go b/tag.go
index c53cbf5..051af14 100644
--- a/tag.go
+++ b/tag.go
@@ -43,7 +43,7 @@ func Parse(tagString string) *Tag {
 			continue
 		}
 
-		if i == 0 {
+		if i == 0 && len(nv) == 1 {
 			columnName := strings.TrimSpace(element)
 			if len(columnName) > 0 {
 				tag.Names = splitNames(columnName)
-- 
2.43.0


From 084c8c06c1dd083094e2ed669065e8e01ad0e15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:50 +0000
Subject: [PATCH 56/58] fix: foreach keeps the slice it started with

---
 est/stmt/foreach.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/est/stmt/foreach.go b/est/stmt/foreach.go
index 4923d70..8ff02a5 100644
--- a/est/stmt/foreach.go
+++ b/est/stmt/foreach.go
@@ -18,7 +18,7 @@ type ForEach struct {
 }
 
 func (e *ForEach) compute(state *est.State) unsafe.Pointer {
-	xPtr := e.X.Pointer(state)
+	xPtr := e.items(e.X.Pointer(state))
 	l := e.Slice.Len(xPtr)
 
 	var resultPtr unsafe.Pointer
@@ -31,7 +31,7 @@ func (e *ForEach) compute(state *est.State) unsafe.Pointer {
 }
 
 func (e *ForEach) computePtr(state *est.State) unsafe.Pointer {
-	xPtr := e.X.Pointer(state)
+	xPtr := e.items(e.X.Pointer(state))
 	l := e.Slice.Len(xPtr)
 
 	var resultPtr unsafe.Pointer
@@ -44,7 +44,7 @@ func (e *ForEach) computePtr(state *est.State) unsafe.Pointer {
 }
 
 func (e *ForEach) computeIndirectPtr(state *est.State) unsafe.Pointer {
-	xPtr := e.X.Exec(state)
+	xPtr := e.items(e.X.Exec(state))
 	l := e.Slice.Len(xPtr)
 
 	var resultPtr unsafe.Pointer
@@ -57,7 +57,7 @@ func (e *ForEach) computeIndirectPtr(state *est.State) unsafe.Pointer {
 }
 
 func (e *ForEach) computeIndirect(state *est.State) unsafe.Pointer {
-	xPtr := e.X.Exec(state)
+	xPtr := e.items(e.X.Exec(state))
 	l := e.Slice.Len(xPtr)
 	var resultPtr unsafe.Pointer
 	for i := 0; i < l; i++ {
@@ -81,6 +81,13 @@ func (e *ForEach) computeLiteral(state *est.State) unsafe.Pointer {
 	return resultPtr
 }
 
+//items returns a copy of the slice header, the loop body can assign another slice to the variable or field it was read from
+func (e *ForEach) items(xPtr unsafe.Pointer) unsafe.Pointer {
+	items := reflect.New(e.X.Type)
+	items.Elem().Set(reflect.NewAt(e.X.Type, xPtr).Elem())
+	return unsafe.Pointer(items.Pointer())
+}
+
 //setItem assigns the slice item to the loop variable, writing exactly the size of the variable type
 func (e *ForEach) setItem(state *est.State, xPtr unsafe.Pointer, index int) {
 	item := reflect.NewAt(e.Slice.Elem(), e.Slice.PointerAt(xPtr, uintptr(index))).Elem()
-- 
2.43.0


From 38154699a55a80a868da5d5aafc840060a6c4d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:50 +0000
Subject: [PATCH 57/58] fix: slice index is checked against the slice in place
 after the index is evaluated

---
 est/op/slice.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/est/op/slice.go b/est/op/slice.go
index 0c5642f..662c920 100644
--- a/est/op/slice.go
+++ b/est/op/slice.go
@@ -16,7 +16,7 @@ type Slice struct {
 }
 
 func (s *Slice) Exec(slicePtr unsafe.Pointer, state *est.State) unsafe.Pointer {
-	index, ok := s.index(state, s.XSlice.Len(slicePtr))
+	index, ok := s.index(state, slicePtr)
 	if !ok {
 		return nil
 	}
@@ -24,8 +24,8 @@ func (s *Slice) Exec(slicePtr unsafe.Pointer, state *est.State) unsafe.Pointer {
 	return s.XSlice.PointerAt(slicePtr, uintptr(index))
 }
 
-//index returns an index within sliceLen, or false if the index was nil
-func (s *Slice) index(state *est.State, sliceLen int) (int, bool) {
+//index returns an index within the slice, or false if the index was nil
+func (s *Slice) index(state *est.State, slicePtr unsafe.Pointer) (int, bool) {
 	indexPtr := s.IndexOperand.Exec(state)
 	if indexPtr == nil {
 		return 0, false
@@ -36,6 +36,7 @@ func (s *Slice) index(state *est.State, sliceLen int) (int, bool) {
 		return 0, false
 	}
 
+	sliceLen := s.XSlice.Len(slicePtr) //index expression can replace the slice
 	if index < 0 || sliceLen <= index {
 		panic(fmt.Sprintf("index out of range [%v] with length %v", index, sliceLen))
 	}
-- 
2.43.0


From 3a3e91ae82c4218d11af92aee2b7aa6a777b72da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:04 +0000
Subject: [PATCH 58/58] fix: renamed or prefixed fields of an embedded struct
 were rejected in a selector path

---
 planner.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/planner.go b/planner.go
index e8cbdea..0c7b61a 100644
--- a/planner.go
+++ b/planner.go
@@ -272,19 +272,17 @@ func (p *Planner) matchSelector(call ast.Expression, resultSelector *op.Selector
 			return nil, nil, fmt.Errorf("not found field %v at %v", actual.ID, holderType.String())
 		}
 
-		_, err = p.fieldByName(parentType, actual, actual.ID)
-		if err != nil {
-			return nil, nil, err
-		}
-
 		parentId := selectorId
 		selectorId = selectorId + fieldSeparator + actual.ID
 		fieldSelector, found := p.selectors.ById(selectorId)
-		if !found && p.expandSelector(parentId, resultSelector) == nil {
+		if !found && parentType.Kind() == reflect.Struct && p.expandSelector(parentId, resultSelector) == nil {
 			fieldSelector, found = p.selectors.ById(selectorId)
 		}
 
-		if !found {
+		if !found || parentType.Kind() != reflect.Struct {
+			if _, err = p.fieldByName(parentType, actual, actual.ID); err != nil {
+				return nil, nil, err
+			}
 			return nil, nil, fmt.Errorf("not found selector for the %v", strings.ReplaceAll(selectorId, fieldSeparator, "."))
 		}
 
-- 
2.43.0

