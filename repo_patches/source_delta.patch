From 246c2e110ee50ba9976a5f859a3a58ca2629a0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:39 +0000
Subject: [PATCH 01/55] fix: run each post handler instead of the last one
 repeatedly

the runtime module declares go 1.14, so loop variables are shared by all
iterations and the deferred post closures all called the last handler
---
 runtime/internal/trap/trap.go | 2 ++
 runtime/internal/trap/var.go  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/runtime/internal/trap/trap.go b/runtime/internal/trap/trap.go
index 879b509..6e566b4 100644
--- a/runtime/internal/trap/trap.go
+++ b/runtime/internal/trap/trap.go
@@ -155,6 +155,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	var postRecordersAndInterceptors []func()
 	var mocked bool
 	for _, h := range recordHandlers {
+		h := h // captured by the post closure below
 		if h.wantRecvPtr != nil && (recvPtr == nil || !sameReceiver(recvPtr, h.wantRecvPtr)) {
 			continue
 		}
@@ -176,6 +177,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 
 	if !mocked {
 		for _, h := range interceptors {
+			h := h // captured by the post closure below
 			var data interface{}
 			var stop bool
 			if h.pre != nil {
diff --git a/runtime/internal/trap/var.go b/runtime/internal/trap/var.go
index 391589a..fb1cdf0 100644
--- a/runtime/internal/trap/var.go
+++ b/runtime/internal/trap/var.go
@@ -109,6 +109,7 @@ func trapVarPtr(infoPtr unsafe.Pointer, varAddr interface{}, res interface{}) {
 func doTrapVar(funcInfo *core.FuncInfo, stk *stack.Stack, begin time.Time, tracing bool, res interface{}, recorders []*varRecordHolder, interceptors []*recorderHolder, mock func(fnInfo *core.FuncInfo, res interface{}), mockRes interface{}) {
 	var postRecorders []func()
 	for _, recorder := range recorders {
+		recorder := recorder // captured by the post closure below
 		var data interface{}
 		if recorder.pre != nil {
 			data, _ = recorder.pre(funcInfo, res)
@@ -122,6 +123,7 @@ func doTrapVar(funcInfo *core.FuncInfo, stk *stack.Stack, begin time.Time, traci
 
 	var postInterceptors []func()
 	for _, interceptor := range interceptors {
+		interceptor := interceptor // captured by the post closure below
 		var data interface{}
 		if interceptor.pre != nil {
 			data, _ = interceptor.pre(funcInfo, nil, nil, []interface{}{res})
-- 
2.43.0


From 66d02313335747acfd8cf61228a4726a083acc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:39 +0000
Subject: [PATCH 02/55] fix: keep the bound instance of method recorders in new
 goroutines

---
 runtime/internal/trap/init.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/runtime/internal/trap/init.go b/runtime/internal/trap/init.go
index ec2d5e8..509e16c 100644
--- a/runtime/internal/trap/init.go
+++ b/runtime/internal/trap/init.go
@@ -113,8 +113,9 @@ func cloneFuncRecordMapping(recorders map[uintptr][]*recorderHolder) map[uintptr
 		newRecorders[pc] = make([]*recorderHolder, len(recorders))
 		for i, recorder := range recorders {
 			newRecorders[pc][i] = &recorderHolder{
-				pre:  recorder.pre,
-				post: recorder.post,
+				wantRecvPtr: recorder.wantRecvPtr,
+				pre:         recorder.pre,
+				post:        recorder.post,
 			}
 		}
 	}
-- 
2.43.0


From 032176f9567f92618f5b0b696d2b5843e329178b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:59 +0000
Subject: [PATCH 03/55] fix: mocking one instance of a method no longer
 disables the mocks of others

---
 runtime/internal/trap/stack_data.go | 26 +++++++++++++++++---------
 runtime/internal/trap/trap.go       |  5 +----
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/runtime/internal/trap/stack_data.go b/runtime/internal/trap/stack_data.go
index 146281c..88370dd 100644
--- a/runtime/internal/trap/stack_data.go
+++ b/runtime/internal/trap/stack_data.go
@@ -78,19 +78,27 @@ type varRecordHolder struct {
 	post func(fnInfo *core.FuncInfo, res interface{}, data interface{})
 }
 
-func (c *StackData) getLastMock(pc uintptr) (recvPtr interface{}, mock func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool) {
-	var mockList []*mockHolder
+// getMatchingMock finds the latest mock of the function that applies to
+// the receiver: mocks of other instances are skipped. Mocks of the current
+// goroutine take precedence over global ones.
+func (c *StackData) getMatchingMock(pc uintptr, recvPtr interface{}) (mock func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool) {
 	if c != nil {
-		mockList = c.interceptors.mock[pc]
+		mock = findMatchingMock(c.interceptors.mock[pc], recvPtr)
+		if mock != nil {
+			return mock
+		}
 	}
-	if len(mockList) == 0 {
-		mockList = globalInterceptorHolder.mock[pc]
-		if len(mockList) == 0 {
-			return nil, nil
+	return findMatchingMock(globalInterceptorHolder.mock[pc], recvPtr)
+}
+
+func findMatchingMock(mockList []*mockHolder, recvPtr interface{}) func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool {
+	for i := len(mockList) - 1; i >= 0; i-- {
+		m := mockList[i]
+		if m.wantRecvPtr == nil || (recvPtr != nil && sameReceiver(recvPtr, m.wantRecvPtr)) {
+			return m.mock
 		}
 	}
-	m := mockList[len(mockList)-1]
-	return m.wantRecvPtr, m.mock
+	return nil
 }
 
 func (c *StackData) getLastVarMock(varAddr uintptr) (mock func(fnInfo *core.FuncInfo, res interface{})) {
diff --git a/runtime/internal/trap/trap.go b/runtime/internal/trap/trap.go
index 6e566b4..2c44a50 100644
--- a/runtime/internal/trap/trap.go
+++ b/runtime/internal/trap/trap.go
@@ -135,7 +135,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	//
 	//
 	// === start check mock and interceptors ===
-	wantPtr, mockFn := stackData.getLastMock(fnPC)
+	mock = stackData.getMatchingMock(fnPC, recvPtr)
 	recordHandlers := stackData.getRecordHandlers(fnPC)
 	var interceptors []*recorderHolder
 	if depth <= 1 {
@@ -148,9 +148,6 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		// targeted function
 		interceptors = stackData.getGeneralInterceptors()
 	}
-	if mockFn != nil && (wantPtr == nil || (recvPtr != nil && sameReceiver(recvPtr, wantPtr))) {
-		mock = mockFn
-	}
 
 	var postRecordersAndInterceptors []func()
 	var mocked bool
-- 
2.43.0


From a9928e6b299add28cc44b78aa4c37cd0d4c65f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:59 +0000
Subject: [PATCH 04/55] fix: compare only the existing parameters when the
 receiver is skipped

PatchMethodByName panicked with an index out of range for every method
whose parameters match the replacer
---
 runtime/internal/trap/object.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/internal/trap/object.go b/runtime/internal/trap/object.go
index 831bf43..29ed304 100644
--- a/runtime/internal/trap/object.go
+++ b/runtime/internal/trap/object.go
@@ -168,7 +168,7 @@ func checkFuncTypeMatch(a reflect.Type, b reflect.Type, skipAFirst bool) (atype
 		return formatFuncType(a, skipAFirst), formatFuncType(b, false), false
 	}
 
-	for i := 0; i < na; i++ {
+	for i := 0; i < nb; i++ {
 		ta := a.In(i + base)
 		tb := b.In(i)
 		if ta != tb {
-- 
2.43.0


From 2766e31bce17646da156857f51c3df41dde7a616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:59 +0000
Subject: [PATCH 05/55] fix: accept variable recorders having both pre and
 post, or a post taking a pointer

---
 runtime/internal/trap/record.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtime/internal/trap/record.go b/runtime/internal/trap/record.go
index fcea21d..8ab8ad6 100644
--- a/runtime/internal/trap/record.go
+++ b/runtime/internal/trap/record.go
@@ -56,11 +56,11 @@ func pushRecorder(fn interface{}, pre interface{}, post interface{}) func() {
 				postV.Call([]reflect.Value{arg})
 			}
 		}
-		if pre != nil && post != nil && preIsPtr == postIsPtr {
+		if pre != nil && post != nil && preIsPtr != postIsPtr {
 			panic(fmt.Errorf("pre-recorder and post-recorder should have the same type, actual: pre has %T, post has %T", pre, post))
 		}
 
-		if !preIsPtr {
+		if !preIsPtr && !postIsPtr {
 			return PushVarRecordHandler(varPtr, preHandler, postHandler)
 		}
 		return PushVarPtrRecordHandler(varPtr, preHandler, postHandler)
-- 
2.43.0


From fea40975584f35846982127f87f1b7a3a871a4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:59 +0000
Subject: [PATCH 06/55] fix: do not panic when the bound receiver of a mock is
 not comparable

---
 runtime/internal/trap/mock.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runtime/internal/trap/mock.go b/runtime/internal/trap/mock.go
index e6b4a9b..4751787 100644
--- a/runtime/internal/trap/mock.go
+++ b/runtime/internal/trap/mock.go
@@ -364,6 +364,10 @@ func sameReceiver(recvPtr interface{}, actRecvPtr interface{}) bool {
 	// assume both are non-nil
 	recvPtrVal := reflect.ValueOf(recvPtr)
 	actRecvPtrVal := reflect.ValueOf(actRecvPtr)
+	if !recvPtrVal.Type().Elem().Comparable() {
+		// comparing with == panics
+		return reflect.DeepEqual(recvPtrVal.Elem().Interface(), actRecvPtrVal.Elem().Interface())
+	}
 	return recvPtrVal.Elem().Interface() == actRecvPtrVal.Elem().Interface()
 }
 
-- 
2.43.0


From b26599944999c1a490d374e47a7d1aebcfa6d0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:14 +0000
Subject: [PATCH 07/55] fix: cancelling does not modify the handler list a
 running call iterates over

removing in place shifted the elements below a trap that was still
iterating, so a handler cancelling itself made the next one be skipped
and the last one run twice
---
 runtime/internal/trap/interceptor.go |  4 ++--
 runtime/internal/trap/mock.go        | 12 ++++++------
 runtime/internal/trap/record.go      | 12 ++++++------
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/runtime/internal/trap/interceptor.go b/runtime/internal/trap/interceptor.go
index 588e3eb..0523f9c 100644
--- a/runtime/internal/trap/interceptor.go
+++ b/runtime/internal/trap/interceptor.go
@@ -56,13 +56,13 @@ func pushInterceptor(pre PreInterceptor, post PostInterceptor) func() {
 		list := holder.interceptors
 		n := len(list)
 		if list[n-1] == h {
-			holder.interceptors = list[:n-1]
+			holder.interceptors = list[: n-1 : n-1]
 			return
 		}
 		// remove at some index
 		for i, m := range list {
 			if m == h {
-				holder.interceptors = append(list[:i], list[i+1:]...)
+				holder.interceptors = append(list[:i:i], list[i+1:]...)
 				return
 			}
 		}
diff --git a/runtime/internal/trap/mock.go b/runtime/internal/trap/mock.go
index 4751787..db44e55 100644
--- a/runtime/internal/trap/mock.go
+++ b/runtime/internal/trap/mock.go
@@ -185,13 +185,13 @@ func pushMockHandler(pc uintptr, recvPtr interface{}, handler func(fnInfo *core.
 		list := holder.mock[pc]
 		n := len(list)
 		if list[n-1] == h {
-			holder.mock[pc] = list[:n-1]
+			holder.mock[pc] = list[: n-1 : n-1]
 			return
 		}
 		// remove at some index
 		for i, m := range list {
 			if m == h {
-				holder.mock[pc] = append(list[:i], list[i+1:]...)
+				holder.mock[pc] = append(list[:i:i], list[i+1:]...)
 				return
 			}
 		}
@@ -217,13 +217,13 @@ func pushVarMockHandler(varAddr uintptr, mock func(fnInfo *core.FuncInfo, res in
 		list := holder.varMock[varAddr]
 		n := len(list)
 		if list[n-1] == h {
-			holder.varMock[varAddr] = list[:n-1]
+			holder.varMock[varAddr] = list[: n-1 : n-1]
 			return
 		}
 		// remove at some index
 		for i, m := range list {
 			if m == h {
-				holder.varMock[varAddr] = append(list[:i], list[i+1:]...)
+				holder.varMock[varAddr] = append(list[:i:i], list[i+1:]...)
 				return
 			}
 		}
@@ -249,13 +249,13 @@ func pushVarPtrMockHandler(varAddr uintptr, mock func(fnInfo *core.FuncInfo, res
 		list := holder.varPtrMock[varAddr]
 		n := len(list)
 		if list[n-1] == h {
-			holder.varPtrMock[varAddr] = list[:n-1]
+			holder.varPtrMock[varAddr] = list[: n-1 : n-1]
 			return
 		}
 		// remove at some index
 		for i, m := range list {
 			if m == h {
-				holder.varPtrMock[varAddr] = append(list[:i], list[i+1:]...)
+				holder.varPtrMock[varAddr] = append(list[:i:i], list[i+1:]...)
 				return
 			}
 		}
diff --git a/runtime/internal/trap/record.go b/runtime/internal/trap/record.go
index 8ab8ad6..9f58bf6 100644
--- a/runtime/internal/trap/record.go
+++ b/runtime/internal/trap/record.go
@@ -155,13 +155,13 @@ func PushRecordHandler(pc uintptr, recvPtr interface{}, pre func(fnInfo *core.Fu
 		list := holder.recorder[pc]
 		n := len(list)
 		if list[n-1] == h {
-			holder.recorder[pc] = list[:n-1]
+			holder.recorder[pc] = list[: n-1 : n-1]
 			return
 		}
 		// remove at some index
 		for i, m := range list {
 			if m == h {
-				holder.recorder[pc] = append(list[:i], list[i+1:]...)
+				holder.recorder[pc] = append(list[:i:i], list[i+1:]...)
 				return
 			}
 		}
@@ -187,13 +187,13 @@ func PushVarRecordHandler(varAddr uintptr, pre func(fnInfo *core.FuncInfo, res i
 		list := holder.varRecorder[varAddr]
 		n := len(list)
 		if list[n-1] == h {
-			holder.varRecorder[varAddr] = list[:n-1]
+			holder.varRecorder[varAddr] = list[: n-1 : n-1]
 			return
 		}
 		// remove at some index
 		for i, m := range list {
 			if m == h {
-				holder.varRecorder[varAddr] = append(list[:i], list[i+1:]...)
+				holder.varRecorder[varAddr] = append(list[:i:i], list[i+1:]...)
 				return
 			}
 		}
@@ -219,13 +219,13 @@ func PushVarPtrRecordHandler(varAddr uintptr, pre func(fnInfo *core.FuncInfo, re
 		list := holder.varPtrRecorder[varAddr]
 		n := len(list)
 		if list[n-1] == h {
-			holder.varPtrRecorder[varAddr] = list[:n-1]
+			holder.varPtrRecorder[varAddr] = list[: n-1 : n-1]
 			return
 		}
 		// remove at some index
 		for i, m := range list {
 			if m == h {
-				holder.varPtrRecorder[varAddr] = append(list[:i], list[i+1:]...)
+				holder.varPtrRecorder[varAddr] = append(list[:i:i], list[i+1:]...)
 				return
 			}
 		}
-- 
2.43.0


From fbad6e386570035f16904922ca36f70cdda543eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:05 +0000
Subject: [PATCH 08/55] fix: finishing a trace keeps the mocks of the
 goroutine, and a trace without output ends

the stack holding them was detached along with the trace; a trace with
neither OnFinish nor OutputFile left the goroutine tracing forever, so that
no later trace could start
---
 runtime/internal/trap/stack_data.go | 15 +++++++++++++++
 runtime/internal/trap/trap.go       | 14 +++++++++++++-
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/runtime/internal/trap/stack_data.go b/runtime/internal/trap/stack_data.go
index 88370dd..c01fb7f 100644
--- a/runtime/internal/trap/stack_data.go
+++ b/runtime/internal/trap/stack_data.go
@@ -39,6 +39,21 @@ type interceptorHolders struct {
 	interceptors []*recorderHolder
 }
 
+// stopTracing forgets the trace that was started on this goroutine
+func (c *StackData) stopTracing() {
+	c.hasStartedTracing = false
+	c.filterTrace = nil
+	c.onFinish = nil
+	c.stackOutputFile = ""
+}
+
+// hasAny tells if any handler was set up, it might be cancelled already
+func (c *interceptorHolders) hasAny() bool {
+	return len(c.mock) > 0 || len(c.varMock) > 0 || len(c.varPtrMock) > 0 ||
+		len(c.recorder) > 0 || len(c.varRecorder) > 0 || len(c.varPtrRecorder) > 0 ||
+		len(c.interceptors) > 0
+}
+
 func getStackData() *StackData {
 	return getStackDataOf(stack.Get())
 }
diff --git a/runtime/internal/trap/trap.go b/runtime/internal/trap/trap.go
index 2c44a50..6ba1296 100644
--- a/runtime/internal/trap/trap.go
+++ b/runtime/internal/trap/trap.go
@@ -297,10 +297,11 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		}
 		stackData.filterTrace = filterTrace
 		if outputFile == "" && onFinish == nil {
+			stackData.stopTracing()
 			if stackAttached {
 				stack.Detach()
 			}
-			return postRecorder, false
+			return callRecorderWithDepth, mocked
 		}
 		stackData.stackOutputFile = outputFile
 		stackData.onFinish = onFinish
@@ -443,6 +444,17 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 				}
 			}
 			stack.Detach()
+			stackData.stopTracing()
+			if stackData.interceptors.hasAny() {
+				// handlers live until they are cancelled,
+				// or the goroutine exits
+				stack.Attach(&stack.Stack{
+					Begin: end,
+					Data: map[interface{}]interface{}{
+						dataKey: stackData,
+					},
+				})
+			}
 		}
 	}
 	if mocked {
-- 
2.43.0


From 3cf2efa10a13df4ce0297583e50631a9fccea2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:50 +0000
Subject: [PATCH 09/55] fix: end the trace entry and run post handlers of a
 call whose mock panics

---
 runtime/internal/trap/trap.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/runtime/internal/trap/trap.go b/runtime/internal/trap/trap.go
index 6ba1296..0147188 100644
--- a/runtime/internal/trap/trap.go
+++ b/runtime/internal/trap/trap.go
@@ -228,7 +228,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 			// mock and recorders to run
 			// no tracing and general interceptors can run
 			if mock != nil {
-				ok := mock(funcInfo, recvPtr, args, results)
+				ok := callMock(mock, callRecorderWithDepth, funcInfo, recvPtr, args, results)
 				// ok=true indicates not call old function
 				return callRecorderWithDepth, ok
 			}
@@ -238,7 +238,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		if !allowTracingThisEntry {
 			// without tracing, mock becomes simpler
 			if mock != nil {
-				ok := mock(funcInfo, recvPtr, args, results)
+				ok := callMock(mock, callRecorderWithDepth, funcInfo, recvPtr, args, results)
 				// ok=true indicates not call old function
 				return callRecorderWithDepth, ok
 			}
@@ -461,12 +461,27 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		hitMock = true
 		return post, true
 	} else if mock != nil {
-		hitMock = mock(funcInfo, recvPtr, args, results)
+		hitMock = true
+		hitMock = callMock(mock, post, funcInfo, recvPtr, args, results)
 		return post, hitMock
 	}
 	return post, false
 }
 
+// callMock calls mock, if it does not return, calls post, which
+// the trapped function has no chance to do then.
+func callMock(mock func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool, post func(), funcInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool {
+	var returned bool
+	defer func() {
+		if !returned && post != nil {
+			post()
+		}
+	}()
+	ok := mock(funcInfo, recvPtr, args, results)
+	returned = true
+	return ok
+}
+
 type StackDataExportImpl struct {
 	data *stack_model.Stack
 
-- 
2.43.0


From 4432b52e2dcc18f0472beb95fa48eefb8b6e458f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 10/55] fix: resolve names declared by select cases and
 statement headers in their own scope

---
 instrument/resolve/stmt.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/instrument/resolve/stmt.go b/instrument/resolve/stmt.go
index ba73aa8..972eaa3 100644
--- a/instrument/resolve/stmt.go
+++ b/instrument/resolve/stmt.go
@@ -15,6 +15,9 @@ func (c *Scope) traverseStmt(node ast.Stmt) {
 	case *ast.EmptyStmt:
 		// nothing
 	case *ast.RangeStmt:
+		// X is evaluated before the key and value are defined
+		c.traverseExpr(node.X)
+		c = c.newScope()
 		if node.Tok == token.DEFINE {
 			if key, ok := node.Key.(*ast.Ident); ok && !isBlankName(key.Name) {
 				c.Add(key.Name)
@@ -23,7 +26,6 @@ func (c *Scope) traverseStmt(node ast.Stmt) {
 				c.Add(value.Name)
 			}
 		}
-		c.traverseExpr(node.X)
 		c.traverseBlockStmt(node.Body)
 	case *ast.DeferStmt:
 		c.traverseCallExpr(node.Call)
@@ -104,23 +106,27 @@ func (c *Scope) traverseStmt(node ast.Stmt) {
 			}
 		}
 	case *ast.TypeSwitchStmt:
+		c = c.newScope()
 		c.traverseStmt(node.Init)
 		c.traverseStmt(node.Assign)
 		c.traverseBlockStmt(node.Body)
 	case *ast.BadStmt:
 		// nothing
 	case *ast.IfStmt:
+		c = c.newScope()
 		c.traverseStmt(node.Init)
 		c.traverseExpr(node.Cond)
 		// node.Then =
 		c.traverseBlockStmt(node.Body)
 		c.traverseStmt(node.Else)
 	case *ast.ForStmt:
+		c = c.newScope()
 		c.traverseStmt(node.Init)
 		c.traverseExpr(node.Cond)
 		c.traverseStmt(node.Post)
 		c.traverseBlockStmt(node.Body)
 	case *ast.SwitchStmt:
+		c = c.newScope()
 		c.traverseStmt(node.Init)
 		c.traverseExpr(node.Tag)
 		c.traverseBlockStmt(node.Body)
@@ -142,7 +148,8 @@ func (c *Scope) traverseStmt(node ast.Stmt) {
 		c.traverseBlockStmt(&ast.BlockStmt{List: node.Body})
 	case *ast.CommClause:
 		// select {...}
-		// TODO: handle name introduced in case
+		c = c.newScope()
+		c.traverseStmt(node.Comm)
 		c.traverseBlockStmt(&ast.BlockStmt{List: node.Body})
 	case *ast.SendStmt:
 		// ignore
-- 
2.43.0


From d83bb663988d41f901ece732bf100911caf25572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:07 +0000
Subject: [PATCH 11/55] fix: find the types of variables initialised by untyped
 constants, and of multi-value declarations

---
 instrument/resolve/resolve.go  | 39 ++++++++++++++++++++++++++++++----
 instrument/resolve/traverse.go |  3 ++-
 2 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/instrument/resolve/resolve.go b/instrument/resolve/resolve.go
index c876c92..1eb55d5 100644
--- a/instrument/resolve/resolve.go
+++ b/instrument/resolve/resolve.go
@@ -127,6 +127,10 @@ func (c *Scope) doResolveInfo(expr ast.Expr) types.Info {
 						varType = c.resolveType(decl.Type)
 					} else if decl.Value != nil {
 						valInfo := c.resolveInfo(decl.Value)
+						if untyped, ok := valInfo.(types.UntypedLiteral); ok && decl.Kind == edit.DeclKindConst {
+							// an untyped constant
+							return untyped
+						}
 						if obj, ok := valInfo.(types.Object); ok {
 							varType = obj.Type()
 						}
@@ -209,6 +213,9 @@ func (c *Scope) doResolveInfo(expr ast.Expr) types.Info {
 					Value: info,
 				}
 			} else if expr.Op == token.NOT {
+				if untyped, ok := info.(types.UntypedLiteral); ok {
+					return untyped
+				}
 				return types.Value{
 					Type_: info.Type(),
 				}
@@ -223,8 +230,14 @@ func (c *Scope) doResolveInfo(expr ast.Expr) types.Info {
 			// first op type
 			opValue := c.resolveObject(expr.X)
 			// if untyped literal, resolve the second op
-			if _, ok := opValue.(types.UntypedLiteral); ok {
+			if x, ok := opValue.(types.UntypedLiteral); ok {
 				opValue = c.resolveObject(expr.Y)
+				if y, ok := opValue.(types.UntypedLiteral); ok {
+					// still untyped, e.g. 1 + 2.5
+					return types.UntypedLiteral{
+						Type_: mergeUntypedType(x.Type_, y.Type_),
+					}
+				}
 			}
 			if types.IsUnknown(opValue) {
 				return types.Unknown{}
@@ -239,12 +252,19 @@ func (c *Scope) doResolveInfo(expr ast.Expr) types.Info {
 			if types.IsUnknown(opValue) {
 				return types.Unknown{}
 			}
+			if x, ok := opValue.(types.UntypedLiteral); ok {
+				if x.Type_ == types.Basic("float64") {
+					// e.g. 1.0 << 3
+					x.Type_ = types.Basic("int")
+				}
+				return x
+			}
 			return types.Value{
 				Type_: opValue.Type(),
 			}
 		case token.EQL, token.NEQ, token.LSS, token.GTR, token.LEQ, token.GEQ:
-			// boolean
-			return types.Value{
+			// boolean, untyped
+			return types.UntypedLiteral{
 				Type_: types.Basic("bool"),
 			}
 		}
@@ -544,13 +564,24 @@ func getBasicLitConstType(kind token.Token) types.Type {
 	case token.STRING:
 		return types.Basic("string")
 	case token.CHAR:
-		return types.Basic("byte")
+		return types.Basic("rune")
 	case token.FLOAT:
 		return types.Basic("float64")
 	}
 	return types.Unknown{}
 }
 
+// mergeUntypedType gives the default type of an operation
+// on two untyped constants
+func mergeUntypedType(x types.Type, y types.Type) types.Type {
+	for _, typ := range []types.Type{types.Basic("float64"), types.Basic("rune")} {
+		if x == typ || y == typ {
+			return typ
+		}
+	}
+	return x
+}
+
 func (c *Scope) newFileScope(pkg *edit.Package, file *edit.File) *Scope {
 	// config.LogDebug("newFileScope: next pkgDepth=%d", c.PkgDepth+1)
 	return newFileScope(c.Global, pkg, file, c.PkgDepth+1)
diff --git a/instrument/resolve/traverse.go b/instrument/resolve/traverse.go
index 1f27f17..ab0c6ff 100644
--- a/instrument/resolve/traverse.go
+++ b/instrument/resolve/traverse.go
@@ -39,7 +39,8 @@ func CollectDecls(pkg *edit.Package) {
 									continue
 								}
 								var value ast.Expr
-								if i < len(spec.Values) {
+								// not for: var a, b = f()
+								if len(spec.Values) == len(spec.Names) {
 									value = spec.Values[i]
 								}
 								kind := edit.DeclKindVar
-- 
2.43.0


From bf0523af8007df2eae19049e239f10360a593f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:07 +0000
Subject: [PATCH 12/55] fix: keep operands addressable and array lengths
 constant when replacing variables

---
 instrument/resolve/addressable.go     | 184 ++++++++++++++++++++++++++
 instrument/resolve/collect_var_ref.go |   6 +
 instrument/resolve/expr.go            |  17 ++-
 instrument/resolve/resolve.go         |  26 ++--
 instrument/resolve/types/type.go      |   5 +-
 5 files changed, 227 insertions(+), 11 deletions(-)
 create mode 100644 instrument/resolve/addressable.go

diff --git a/instrument/resolve/addressable.go b/instrument/resolve/addressable.go
new file mode 100644
index 0000000..8a29b48
--- /dev/null
+++ b/instrument/resolve/addressable.go
@@ -0,0 +1,184 @@
+package resolve
+
+import (
+	"go/ast"
+	"go/token"
+
+	"github.com/xhd2015/xgo/instrument/resolve/types"
+)
+
+// traverseAddressable traverses an operand that must stay addressable,
+// because its address is taken, it is an array being sliced, or a method
+// with pointer receiver is called on it. A variable that holds
+// the operand itself, i.e. without going through a pointer or a slice,
+// cannot be replaced by the result of its getter, which is a copy.
+func (c *Scope) traverseAddressable(node ast.Expr) {
+	switch node := node.(type) {
+	case *ast.Ident:
+		// the variable itself
+	case *ast.ParenExpr:
+		c.traverseAddressable(node.X)
+	case *ast.SelectorExpr:
+		if _, ok := c.operandType(node.X).(types.RawPtr); ok {
+			c.traverseExpr(node.X)
+		} else {
+			c.traverseAddressable(node.X)
+		}
+	case *ast.IndexExpr:
+		switch c.operandType(node.X).(type) {
+		case types.RawPtr, types.Slice, types.Map:
+			c.traverseExpr(node.X)
+		default:
+			c.traverseAddressable(node.X)
+		}
+		c.traverseExpr(node.Index)
+	default:
+		c.traverseExpr(node)
+	}
+}
+
+// needsAddressableOperand tells if sel is X.M, where M is a method with pointer
+// receiver, declared by the type of X or promoted from an embedded field.
+func (c *Scope) needsAddressableOperand(sel *ast.SelectorExpr) bool {
+	typ := c.typeOfOperand(sel.X)
+	return typ != nil && c.isPtrMethod(typ, sel.Sel.Name)
+}
+
+func (c *Scope) isPtrMethod(typ types.Type, name string) bool {
+	typ = types.ResolveLazy(typ)
+	if genType, ok := typ.(types.GenericInstanceType); ok {
+		typ = genType.Type
+	}
+	if namedType, ok := typ.(types.NamedType); ok {
+		namedType = types.ResolveAlias(namedType)
+		decl := c.getPkgNameDecl(namedType.PkgPath, namedType.Name)
+		if decl != nil && decl.Methods[name] != nil {
+			return decl.Methods[name].RecvPtr
+		}
+	}
+	if _, ok := typ.(types.PtrType); ok {
+		return false
+	}
+	st, ok := typ.Underlying().(types.Struct)
+	if !ok {
+		return false
+	}
+	for _, field := range st.Fields {
+		if field.Name == name {
+			return false
+		}
+	}
+	for _, field := range st.Fields {
+		if field.Embedded && c.isPtrMethod(field.Type, name) {
+			return true
+		}
+	}
+	return false
+}
+
+// findField gives the type of a field, declared or promoted from an
+// embedded field, nil if there is none.
+func (c *Scope) findField(typ types.Type, name string, depth int) types.Type {
+	if depth > 8 {
+		// type T struct { *T }
+		return nil
+	}
+	underlying := typ.Underlying()
+	if ptr, ok := underlying.(types.RawPtr); ok {
+		underlying = ptr.Elem
+	}
+	st, ok := underlying.(types.Struct)
+	if !ok {
+		return nil
+	}
+	for _, field := range st.Fields {
+		if field.Name == name {
+			return types.ResolveLazy(field.Type)
+		}
+	}
+	for _, field := range st.Fields {
+		if !field.Embedded {
+			continue
+		}
+		if fieldType := c.findField(field.Type, name, depth+1); fieldType != nil {
+			return fieldType
+		}
+	}
+	return nil
+}
+
+// isConstantLen tells if the call is len(x) or cap(x), where x is an array or
+// a pointer to an array and has no calls. Such calls are constant, and may be
+// used where a constant is required.
+func (c *Scope) isConstantLen(call *ast.CallExpr) bool {
+	fn, ok := call.Fun.(*ast.Ident)
+	if !ok || len(call.Args) != 1 {
+		return false
+	}
+	op, ok := c.resolveInfo(fn).(types.OperationName)
+	if !ok || (op != "len" && op != "cap") {
+		return false
+	}
+	typ := c.operandType(call.Args[0])
+	if ptr, ok := typ.(types.RawPtr); ok {
+		typ = ptr.Elem
+	}
+	if _, ok := typ.(types.Array); !ok {
+		return false
+	}
+	constant := true
+	ast.Inspect(call.Args[0], func(n ast.Node) bool {
+		switch n := n.(type) {
+		case *ast.CallExpr:
+			constant = false
+		case *ast.UnaryExpr:
+			if n.Op == token.ARROW {
+				constant = false
+			}
+		}
+		return constant
+	})
+	return constant
+}
+
+// operandType gives the underlying type of an operand, nil if not known.
+func (c *Scope) operandType(node ast.Expr) types.UnderlyingType {
+	typ := c.typeOfOperand(node)
+	if typ == nil {
+		return nil
+	}
+	return typ.Underlying()
+}
+
+func (c *Scope) typeOfOperand(node ast.Expr) types.Type {
+	node = deparen(node)
+	if idx, ok := node.(*ast.IndexExpr); ok {
+		switch typ := c.operandType(idx.X).(type) {
+		case types.Array:
+			return types.ResolveLazy(typ.Elem)
+		case types.Slice:
+			return types.ResolveLazy(typ.Elem)
+		case types.Map:
+			return types.ResolveLazy(typ.Value)
+		case types.RawPtr:
+			if arr, ok := typ.Elem.(types.Array); ok {
+				return types.ResolveLazy(arr.Elem)
+			}
+		}
+		return nil
+	}
+	obj := c.resolveObject(node)
+	if types.IsUnknown(obj) {
+		if sel, ok := node.(*ast.SelectorExpr); ok {
+			if typ := c.typeOfOperand(sel.X); typ != nil {
+				return c.findField(typ, sel.Sel.Name, 0)
+			}
+		}
+		return nil
+	}
+	typ := types.ResolveLazy(obj.Type())
+	if typ == nil || types.IsUnknown(typ) {
+		return nil
+	}
+	return typ
+}
diff --git a/instrument/resolve/collect_var_ref.go b/instrument/resolve/collect_var_ref.go
index 507bc06..05bd15d 100644
--- a/instrument/resolve/collect_var_ref.go
+++ b/instrument/resolve/collect_var_ref.go
@@ -50,6 +50,12 @@ func (c *Scope) collectSelector(addr *ast.UnaryExpr, sel *ast.SelectorExpr) bool
 
 func (c *Scope) collectVarRef(addr *ast.UnaryExpr, expr ast.Expr, originalSel *ast.SelectorExpr) bool {
 	expr = deparen(expr)
+	switch expr.(type) {
+	case *ast.Ident, *ast.SelectorExpr:
+	default:
+		// e.g. (&v).Method
+		return false
+	}
 	exprInfo := c.resolveInfo(expr)
 	obj, ok := exprInfo.(types.Object)
 	if !ok {
diff --git a/instrument/resolve/expr.go b/instrument/resolve/expr.go
index addf4b5..7f095d5 100644
--- a/instrument/resolve/expr.go
+++ b/instrument/resolve/expr.go
@@ -41,6 +41,10 @@ func (c *Scope) traverseCallExpr(callExpr *ast.CallExpr) {
 	if !isSelector {
 		c.traverseExpr(fn)
 	}
+	if c.isConstantLen(callExpr) {
+		// the array is not evaluated
+		return
+	}
 
 	for _, arg := range callExpr.Args {
 		c.traverseExpr(arg)
@@ -70,6 +74,10 @@ func (c *Scope) traverseExpr(node ast.Expr) {
 		if c.collectSelector(nil, node) {
 			return
 		}
+		if c.needsAddressableOperand(node) {
+			c.traverseAddressable(node.X)
+			return
+		}
 		c.traverseExpr(node.X)
 	case *ast.UnaryExpr:
 		// take addr
@@ -100,6 +108,8 @@ func (c *Scope) traverseExpr(node ast.Expr) {
 					}
 				}
 			}
+			c.traverseAddressable(node.X)
+			return
 		}
 		c.traverseExpr(node.X)
 	case *ast.CallExpr:
@@ -130,7 +140,12 @@ func (c *Scope) traverseExpr(node ast.Expr) {
 		c.traverseExpr(node.Index)
 	case *ast.SliceExpr:
 		// something[...:...], only traverse the index
-		c.traverseExpr(node.X)
+		if _, ok := c.operandType(node.X).(types.Array); ok {
+			// slicing an array needs its address
+			c.traverseAddressable(node.X)
+		} else {
+			c.traverseExpr(node.X)
+		}
 		c.traverseExpr(node.Low)
 		c.traverseExpr(node.High)
 	case *ast.ChanType:
diff --git a/instrument/resolve/resolve.go b/instrument/resolve/resolve.go
index 1eb55d5..f58af1b 100644
--- a/instrument/resolve/resolve.go
+++ b/instrument/resolve/resolve.go
@@ -330,21 +330,22 @@ func (c *Scope) doResolveInfo(expr ast.Expr) types.Info {
 			Type_: typ,
 		}
 	case *ast.StructType:
-		fields := make([]types.StructField, len(expr.Fields.List))
-		for i, field := range expr.Fields.List {
+		fields := make([]types.StructField, 0, len(expr.Fields.List))
+		for _, field := range expr.Fields.List {
 			typ := c.lazyResolveType(field.Type)
 			if len(field.Names) > 0 {
 				for _, name := range field.Names {
-					fields[i] = types.StructField{
+					fields = append(fields, types.StructField{
 						Name: name.Name,
 						Type: typ,
-					}
+					})
 				}
 			} else {
-				fields[i] = types.StructField{
-					Name: getEmbedFieldName(field.Type),
-					Type: typ,
-				}
+				fields = append(fields, types.StructField{
+					Name:     getEmbedFieldName(field.Type),
+					Type:     typ,
+					Embedded: true,
+				})
 			}
 		}
 		return types.Struct{
@@ -760,6 +761,15 @@ func (c *Scope) resolveFieldToObject(valType types.Type, fieldName string, onDet
 				}
 			}
 		}
+	} else if st, ok := resolveType.(types.Struct); ok {
+		// var v struct{...}
+		for _, field := range st.Fields {
+			if field.Name == fieldName && !types.IsUnknown(field.Type) {
+				return types.Value{
+					Type_: field.Type,
+				}
+			}
+		}
 	}
 	return types.Unknown{}
 }
diff --git a/instrument/resolve/types/type.go b/instrument/resolve/types/type.go
index 022c98d..91193e9 100644
--- a/instrument/resolve/types/type.go
+++ b/instrument/resolve/types/type.go
@@ -125,8 +125,9 @@ type Struct struct {
 }
 
 type StructField struct {
-	Name string
-	Type Type
+	Name     string
+	Type     Type
+	Embedded bool
 }
 
 type Interface struct {
-- 
2.43.0


From 2f1ad7524877f7f58da8c24e14c6a310351625ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:39 +0000
Subject: [PATCH 13/55] fix: replace variables used in the expressions of
 switch cases

---
 instrument/resolve/stmt.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/instrument/resolve/stmt.go b/instrument/resolve/stmt.go
index 972eaa3..6532701 100644
--- a/instrument/resolve/stmt.go
+++ b/instrument/resolve/stmt.go
@@ -145,6 +145,7 @@ func (c *Scope) traverseStmt(node ast.Stmt) {
 	case *ast.IncDecStmt:
 		// ignore
 	case *ast.CaseClause:
+		c.traverseExprs(node.List)
 		c.traverseBlockStmt(&ast.BlockStmt{List: node.Body})
 	case *ast.CommClause:
 		// select {...}
-- 
2.43.0


From 1c0cc5e5482822bbd23c472785d6e97594d707d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:49 +0000
Subject: [PATCH 14/55] fix: find the types of variables in the scope of the
 file declaring them

---
 instrument/resolve/resolve.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/instrument/resolve/resolve.go b/instrument/resolve/resolve.go
index f58af1b..36b38ac 100644
--- a/instrument/resolve/resolve.go
+++ b/instrument/resolve/resolve.go
@@ -108,6 +108,9 @@ func (c *Scope) doResolveInfo(expr ast.Expr) types.Info {
 				if config.DEBUG {
 					config_debug.OnResolvePackageDeclareInfo(c.Package.PkgPath(), c.File.File.File.Name, expr)
 				}
+				// names in the declaration refer to the imports of its
+				// own file, and not to anything defined in this scope
+				c := newFileScope(c.Global, c.Package.Package, decl.File, c.PkgDepth)
 				if decl.Kind == edit.DeclKindType {
 					typ := c.resolveType(decl.Type)
 					if types.IsUnknown(typ) {
-- 
2.43.0


From 08ba1462b1f002864afba12b646d598c4f0962ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:51 +0000
Subject: [PATCH 15/55] fix: keep replaced code and nested blocks intact when
 cleaning or re-applying patches

---
 instrument/patch/clean_patch.go | 22 ++++++++++++++--------
 instrument/patch/patch.go       | 10 ++++++----
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/instrument/patch/clean_patch.go b/instrument/patch/clean_patch.go
index 3d57fc8..53bbf93 100644
--- a/instrument/patch/clean_patch.go
+++ b/instrument/patch/clean_patch.go
@@ -80,12 +80,14 @@ func CleanPatchMarkers(content string, start PatchMarker, end PatchMarker) strin
 	return result.String()
 }
 
+// extractOldContent returns the replaced content recorded at the beginning
+// of a marked block. Records of blocks nested in the block are ignored.
 func extractOldContent(content string) string {
-	idxOld := strings.Index(content, "/*old:")
-	if idxOld == -1 {
+	const oldMark = "/*old:"
+	if !strings.HasPrefix(content, oldMark) {
 		return ""
 	}
-	base := idxOld + len("/*old:")
+	base := len(oldMark)
 	idxEnd := strings.Index(content[base:], "*/")
 	if idxEnd == -1 {
 		return ""
@@ -96,7 +98,7 @@ func extractOldContent(content string) string {
 }
 
 func findStartEnd(content string, i int, start PatchMarker, end PatchMarker) (beginIdx int, beginEndIdx int, endIdx int, endEndIdx int) {
-	beginIdx, beginEndIdx = findMarker(content, i, start, "")
+	beginIdx, beginEndIdx = findMarker(content, i, start)
 	if beginIdx == -1 {
 		return -1, -1, -1, -1
 	}
@@ -105,10 +107,14 @@ func findStartEnd(content string, i int, start PatchMarker, end PatchMarker) (be
 	// e.g. /*<begin label>*//*<end label>*/
 	label := content[beginIdx+len(start.Begin) : beginEndIdx-len(start.End)]
 
-	endIdx, endEndIdx = findMarker(content, beginEndIdx, end, label)
+	// the label must match exactly, i.e. "a" does not end at "ab"
+	endMark := end.Begin + label + end.End
+	endIdx = strings.Index(content[beginEndIdx:], endMark)
 	if endIdx == -1 {
 		return -1, -1, -1, -1
 	}
+	endIdx += beginEndIdx
+	endEndIdx = endIdx + len(endMark)
 
 	return beginIdx, beginEndIdx, endIdx, endEndIdx
 }
@@ -117,13 +123,13 @@ func findStartEnd(content string, i int, start PatchMarker, end PatchMarker) (be
 // and marker.End in content starting from i.
 // It returns the start and end indices of the marker.
 // If the marker is not found, it returns -1, -1.
-func findMarker(content string, i int, marker PatchMarker, label string) (int, int) {
-	start := strings.Index(content[i:], marker.Begin+label)
+func findMarker(content string, i int, marker PatchMarker) (int, int) {
+	start := strings.Index(content[i:], marker.Begin)
 	if start == -1 {
 		return -1, -1
 	}
 	start += i
-	i = start + len(marker.Begin) + len(label)
+	i = start + len(marker.Begin)
 	end := strings.Index(content[i:], marker.End)
 	if end == -1 {
 		return -1, -1
diff --git a/instrument/patch/patch.go b/instrument/patch/patch.go
index 7b7ec67..9508898 100644
--- a/instrument/patch/patch.go
+++ b/instrument/patch/patch.go
@@ -208,13 +208,15 @@ func tryReplaceWithMark(content string, beginMark string, endMark string, separa
 	if beginIdx < 0 {
 		return content, false
 	}
-	endIdx := strings.Index(content, endMark)
+	beginEnd := beginIdx + len(beginMark)
+	endIdx := strings.Index(content[beginEnd:], endMark)
 	if endIdx < 0 {
 		return content, false
 	}
-	oldContent := extractOldContent(content[beginIdx+len(beginMark) : endIdx])
-	if oldContent != "" {
-		patchContent = oldContent + patchContent
+	endIdx += beginEnd
+	if oldContent := extractOldContent(content[beginEnd:endIdx]); oldContent != "" {
+		// keep the record of the replaced content, so that it can be restored
+		beginMark += fmt.Sprintf("/*old:%s*/", oldContent)
 	}
 	lastIdx := endIdx + len(endMark)
 	return content[:beginIdx] + beginMark + separator + patchContent + separator + endMark + separator + content[lastIdx:], true
-- 
2.43.0


From 5ba7ec0147f1de31b7aaba43f3c4ececeb48c441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:35 +0000
Subject: [PATCH 16/55] fix: patch the method of the named receiver type, not
 of one whose name contains it

---
 instrument/patch/apply_engine.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/instrument/patch/apply_engine.go b/instrument/patch/apply_engine.go
index 16ac091..96cf39a 100644
--- a/instrument/patch/apply_engine.go
+++ b/instrument/patch/apply_engine.go
@@ -386,7 +386,7 @@ func evalGotoFunc(state *applyState, rest string) (cursor, error) {
 			recvStart := state.fset.Position(fd.Recv.Pos()).Offset
 			recvEnd := state.fset.Position(fd.Recv.End()).Offset
 			recvText := strings.TrimSpace(state.original[recvStart:recvEnd])
-			if !strings.Contains(recvText, recv[1:len(recv)-1]) {
+			if !containsWords(recvText, recv[1:len(recv)-1]) {
 				continue
 			}
 		} else if fd.Recv != nil && len(fd.Recv.List) > 0 {
@@ -400,6 +400,25 @@ func evalGotoFunc(state *applyState, rest string) (cursor, error) {
 	return cursor{}, fmt.Errorf("function not found: %s", funcName)
 }
 
+// containsWords checks if s contains sub without splitting identifiers,
+// i.e. "(t *Tree)" contains "*Tree", but not "*T".
+func containsWords(s string, sub string) bool {
+	for base := 0; ; {
+		idx := strings.Index(s[base:], sub)
+		if idx < 0 {
+			return false
+		}
+		start := base + idx
+		end := start + len(sub)
+		splitsStart := sub != "" && start > 0 && isToken(s[start-1]) && isToken(sub[0])
+		splitsEnd := sub != "" && end < len(s) && isToken(s[end]) && isToken(sub[len(sub)-1])
+		if !splitsStart && !splitsEnd {
+			return true
+		}
+		base = start + 1
+	}
+}
+
 func evalGotoBrace(state *applyState, opening bool) (cursor, error) {
 	// Find the current declaration to locate its braces
 	node := state.cursorNode()
-- 
2.43.0


From fc77203c6abaa3a07fdbefd893a06b3ce06e1611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:36 +0000
Subject: [PATCH 17/55] fix: copy the function of the given name, renaming its
 declaration, in patches

---
 instrument/patch/apply_engine.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/instrument/patch/apply_engine.go b/instrument/patch/apply_engine.go
index 96cf39a..9e80c26 100644
--- a/instrument/patch/apply_engine.go
+++ b/instrument/patch/apply_engine.go
@@ -584,14 +584,14 @@ func evalCopyFunc(state *applyState, sourceName, targetName string) (string, err
 		if !ok {
 			continue
 		}
-		if fd.Name.Name != sourceName {
+		if fd.Recv != nil || fd.Name.Name != sourceName {
 			continue
 		}
 		funcStart := state.fset.Position(fd.Pos()).Offset
 		funcEnd := state.fset.Position(fd.End()).Offset
-		funcSrc := state.original[funcStart:funcEnd]
-		result := strings.Replace(funcSrc, "func "+sourceName+"(", "func "+targetName+"(", 1)
-		return result, nil
+		nameStart := state.fset.Position(fd.Name.Pos()).Offset
+		nameEnd := state.fset.Position(fd.Name.End()).Offset
+		return state.original[funcStart:nameStart] + targetName + state.original[nameEnd:funcEnd], nil
 	}
 	return "", fmt.Errorf("function %q not found", sourceName)
 }
-- 
2.43.0


From 8a8cf9fabf6c021faebd4a1fba2ae04bb7d1f5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:36 +0000
Subject: [PATCH 18/55] fix: put the edits of a patch at their own positions,
 and restore the file when clearing them

---
 instrument/patch/apply_engine.go | 274 +++++++++++++++++--------------
 1 file changed, 147 insertions(+), 127 deletions(-)

diff --git a/instrument/patch/apply_engine.go b/instrument/patch/apply_engine.go
index 9e80c26..6a88734 100644
--- a/instrument/patch/apply_engine.go
+++ b/instrument/patch/apply_engine.go
@@ -5,6 +5,7 @@ import (
 	"go/ast"
 	"go/parser"
 	"go/token"
+	"sort"
 	"strings"
 )
 
@@ -13,26 +14,41 @@ type cursor struct {
 	offset    int  // byte offset for insert_before
 	endOffset int  // byte offset for insert_after / end of replace range
 	isReplace bool // set by find_for_replace
+	replaced  string // the text found by find_for_replace
+	afterLine bool // endOffset was moved to the next line by insert_after_line
 }
 
-// edit represents a single edit operation collected during patch application.
+// insertEnd returns the byte offset for insert_after
+func (c cursor) insertEnd() int {
+	if c.endOffset > c.offset {
+		return c.endOffset
+	}
+	return c.offset
+}
+
+// edit represents a single edit operation collected during patch application:
+// the text between offset and end is replaced with newText.
 type edit struct {
-	seq       int    // sequence number (incremented per positioning command)
-	offset    int    // insertion offset
-	oldEnd    int    // for replace: end offset of old content
-	newText   string // the text to insert/replace with
-	oldText   string // for replace: the original text (for marker old tag)
-	isReplace bool
+	offset  int
+	end     int // equals offset for an insertion
+	newText string
+	oldText string // for replace: the original text (for marker old tag)
+}
+
+// segments are the texts to be inserted at one offset.
+type segments struct {
+	offset int
+	texts  []string
 }
 
 // editGroup represents all edits at a single sequence number (cursor position).
 type editGroup struct {
-	seq       int
-	offset    int    // insertion point for insert_before
-	insertEnd int    // insertion point for insert_after
-	segments  []string
+	before    segments    // insert_before
+	after     []*segments // insert_after and insert_after_line, by offset
+	replace   segments    // replace
 	isReplace bool
-	oldText   string // for replace: the original text
+	oldText   string    // for replace: the original text
+	last      *segments // where the last command added its text
 }
 
 // applyPatch applies a single PatchBlock to the original Go source text.
@@ -59,7 +75,6 @@ func applyPatch(original string, block PatchBlock) (string, error) {
 			}
 			state.cursor = c
 			state.seq++
-			state.lastInsertMode = insertBefore
 
 		case CmdMatch:
 			c, err := evalMatch(state, cmd.SearchText, false)
@@ -68,7 +83,6 @@ func applyPatch(original string, block PatchBlock) (string, error) {
 			}
 			state.cursor = c
 			state.seq++
-			state.lastInsertMode = insertBefore
 
 		case CmdFindForReplace:
 			c, err := evalMatch(state, cmd.SearchText, true)
@@ -77,31 +91,31 @@ func applyPatch(original string, block PatchBlock) (string, error) {
 			}
 			state.cursor = c
 			state.seq++
-			state.lastInsertMode = insertBefore
 
 		case CmdInsertBefore:
 			if cmd.EditText == "" {
 				return "", fmt.Errorf("insert_before requires text")
 			}
-			state.lastInsertMode = insertBefore
-			state.addSegment(cmd.EditText)
+			g := state.getGroup()
+			g.add(&g.before, cmd.EditText)
 
 		case CmdInsertAfter:
 			if cmd.EditText == "" {
 				return "", fmt.Errorf("insert_after requires text")
 			}
-			state.lastInsertMode = insertAfter
-			state.addSegment(cmd.EditText)
+			g := state.getGroup()
+			g.add(g.afterAt(state.cursor.insertEnd()), cmd.EditText)
 
 		case CmdInsertAfterLine:
 			if cmd.EditText == "" {
 				return "", fmt.Errorf("insert_after_line requires text")
 			}
-			if state.cursor.endOffset < len(state.original) && state.original[state.cursor.endOffset] == '\n' {
-				state.cursor.endOffset++
+			if end := state.cursor.insertEnd(); !state.cursor.afterLine && end < len(state.original) && state.original[end] == '\n' {
+				state.cursor.endOffset = end + 1
+				state.cursor.afterLine = true
 			}
-			state.lastInsertMode = insertAfter
-			state.addSegment(cmd.EditText)
+			g := state.getGroup()
+			g.add(g.afterAt(state.cursor.insertEnd()), cmd.EditText)
 
 		case CmdReplace:
 			if cmd.EditText == "" {
@@ -110,9 +124,10 @@ func applyPatch(original string, block PatchBlock) (string, error) {
 			if !state.cursor.isReplace {
 				return "", fmt.Errorf("replace requires prior find_for_replace")
 			}
-			oldText := state.original[state.cursor.offset:state.cursor.endOffset]
-			state.lastInsertMode = insertBefore
-			state.addReplace(cmd.EditText, oldText)
+			g := state.getGroup()
+			g.isReplace = true
+			g.oldText = state.cursor.replaced
+			g.add(&g.replace, cmd.EditText)
 
 		case CmdNewline:
 			state.addNewline()
@@ -122,40 +137,35 @@ func applyPatch(original string, block PatchBlock) (string, error) {
 			if err != nil {
 				return "", fmt.Errorf("copy_func %q: %w", cmd.CopySource, err)
 			}
-			state.appendContent = strings.TrimSuffix(copied, "\n")
+			if state.appendContent != "" {
+				state.appendContent += "\n"
+			}
+			state.appendContent += strings.TrimSuffix(copied, "\n")
 
 		case CmdReplaceDirective:
 			if cmd.SearchText == "" || cmd.CopyTarget == "" {
 				return "", fmt.Errorf("replace_directive requires old and new text")
 			}
-			state.directiveReplace = &directiveReplacement{
+			state.directiveReplaces = append(state.directiveReplaces, directiveReplacement{
 				oldText: cmd.SearchText,
 				newText: cmd.CopyTarget,
-			}
+			})
 		}
 	}
 
-	return state.applyEdits(block.Name), nil
+	return state.applyEdits(block.Name)
 }
 
-type insertMode int
-
-const (
-	insertBefore insertMode = iota
-	insertAfter
-)
-
 type applyState struct {
-	original       string
-	fset           *token.FileSet
-	astFile        *ast.File
-	cursor         cursor
-	seq            int
-	lastInsertMode insertMode
-
-	groups           map[int]*editGroup
-	appendContent    string
-	directiveReplace *directiveReplacement
+	original string
+	fset     *token.FileSet
+	astFile  *ast.File
+	cursor   cursor
+	seq      int
+
+	groups            map[int]*editGroup
+	appendContent     string
+	directiveReplaces []directiveReplacement
 }
 
 type directiveReplacement struct {
@@ -166,132 +176,140 @@ type directiveReplacement struct {
 func (s *applyState) getGroup() *editGroup {
 	g, ok := s.groups[s.seq]
 	if !ok {
-		insertEnd := s.cursor.offset
-		if s.cursor.endOffset > insertEnd {
-			insertEnd = s.cursor.endOffset
-		}
 		g = &editGroup{
-			seq:       s.seq,
-			offset:    s.cursor.offset,
-			insertEnd: insertEnd,
+			before:  segments{offset: s.cursor.offset},
+			replace: segments{offset: s.cursor.offset},
 		}
 		s.groups[s.seq] = g
 	}
 	return g
 }
 
-func (s *applyState) addSegment(text string) {
-	g := s.getGroup()
-	g.segments = append(g.segments, text)
+// afterAt returns the segments inserted at offset, which does not decrease
+// between the calls for one cursor position.
+func (g *editGroup) afterAt(offset int) *segments {
+	if n := len(g.after); n > 0 && g.after[n-1].offset == offset {
+		return g.after[n-1]
+	}
+	seg := &segments{offset: offset}
+	g.after = append(g.after, seg)
+	return seg
 }
 
-func (s *applyState) addReplace(newText, oldText string) {
-	g := s.getGroup()
-	g.isReplace = true
-	g.oldText = oldText
-	g.segments = append(g.segments, newText)
+func (g *editGroup) add(seg *segments, text string) {
+	seg.texts = append(seg.texts, text)
+	g.last = seg
 }
 
 func (s *applyState) addNewline() {
 	g := s.getGroup()
 	// newline merges with the previous segment: "A" + newline → "A\n"
-	if len(g.segments) > 0 {
-		g.segments[len(g.segments)-1] += "\n"
+	if g.last != nil {
+		g.last.texts[len(g.last.texts)-1] += "\n"
 	}
 }
 
-// combineSegments combines text segments for an edit group.
-// For insert_before: segments are collected in insertion order, then applied
-// in reverse so the last written goes closest to original content.
-// For insert_after: segments are applied in forward order.
+// combineReverse combines the segments of insert_before, which are collected
+// in the order of the commands and applied in reverse.
 // newline merges "\n" with the adjacent text segment, so it stays on the
 // correct side of the text in the final output.
-func (s *applyState) combineSegments(g *editGroup) string {
-	if g.isReplace {
-		return strings.Join(g.segments, "")
+func combineReverse(texts []string) string {
+	var buf strings.Builder
+	for i := len(texts) - 1; i >= 0; i-- {
+		buf.WriteString(texts[i])
 	}
+	return buf.String()
+}
 
-	if len(g.segments) == 0 {
-		return ""
+// collectEdits returns the edits of all cursor positions, ordered by offset.
+// Edits at the same offset are in the order of the commands.
+func (s *applyState) collectEdits() ([]edit, error) {
+	var edits []edit
+	insert := func(offset int, text string) {
+		if text != "" {
+			edits = append(edits, edit{offset: offset, end: offset, newText: text})
+		}
 	}
-
-	var buf strings.Builder
-	if s.lastInsertMode == insertBefore {
-		for i := len(g.segments) - 1; i >= 0; i-- {
-			buf.WriteString(g.segments[i])
+	// seq is 0 if there is no positioning command yet
+	for seq := 0; seq <= s.seq; seq++ {
+		g, ok := s.groups[seq]
+		if !ok {
+			continue
 		}
-	} else {
-		for _, seg := range g.segments {
-			buf.WriteString(seg)
+		insert(g.before.offset, combineReverse(g.before.texts))
+		if g.isReplace {
+			edits = append(edits, edit{
+				offset:  g.replace.offset,
+				end:     g.replace.offset + len(g.oldText),
+				newText: strings.Join(g.replace.texts, ""),
+				oldText: g.oldText,
+			})
+		}
+		for _, seg := range g.after {
+			insert(seg.offset, strings.Join(seg.texts, ""))
 		}
 	}
-
-	return buf.String()
+	sort.SliceStable(edits, func(i, j int) bool {
+		if edits[i].offset != edits[j].offset {
+			return edits[i].offset < edits[j].offset
+		}
+		// insert before the replaced text
+		return edits[i].end == edits[i].offset && edits[j].end > edits[j].offset
+	})
+	for i := 1; i < len(edits); i++ {
+		if edits[i].offset < edits[i-1].end {
+			return nil, fmt.Errorf("edit overlaps the replacement of %q", edits[i-1].oldText)
+		}
+	}
+	return edits, nil
 }
 
 // applyEdits applies all collected edits and wraps them with markers.
-func (s *applyState) applyEdits(blockName string) string {
+func (s *applyState) applyEdits(blockName string) (string, error) {
+	edits, err := s.collectEdits()
+	if err != nil {
+		return "", err
+	}
+	markerBegin := fmt.Sprintf("/*<begin %s>*/", blockName)
+	markerEnd := fmt.Sprintf("/*<end %s>*/", blockName)
+
 	result := s.original
 
 	// Process edits in REVERSE offset order (highest offset first)
 	// to avoid position shifts when inserting text.
-	maxSeq := s.seq
-	for seq := maxSeq; seq >= 1; seq-- {
-		g, ok := s.groups[seq]
-		if !ok {
-			continue
-		}
-
-		insertText := s.combineSegments(g)
-		if insertText == "" && !g.isReplace {
-			continue
-		}
-
-		if g.isReplace {
-			markerBegin := fmt.Sprintf("/*<begin %s>*/", blockName)
-			if g.oldText != "" {
-				markerBegin += fmt.Sprintf("/*old:%s*/", g.oldText)
-			}
-			markerEnd := fmt.Sprintf("/*<end %s>*/", blockName)
-			wrapped := markerBegin + insertText + markerEnd
-
-			// Replace old content (from offset to oldEnd) with wrapped text
-			result = result[:g.offset] + wrapped + result[g.offset+len(g.oldText):]
-		} else {
-			markerBegin := fmt.Sprintf("/*<begin %s>*/", blockName)
-			markerEnd := fmt.Sprintf("/*<end %s>*/", blockName)
-
-			if s.lastInsertMode == insertBefore || seq < maxSeq {
-				// insert_before: insert at offset
-				wrapped := markerBegin + insertText + markerEnd
-				result = result[:g.offset] + wrapped + result[g.offset:]
-			} else {
-				// insert_after: insert at insertEnd
-				wrapped := markerBegin + insertText + markerEnd
-				result = result[:g.insertEnd] + wrapped + result[g.insertEnd:]
-			}
+	for i := len(edits) - 1; i >= 0; i-- {
+		e := edits[i]
+		old := ""
+		if e.oldText != "" {
+			old = fmt.Sprintf("/*old:%s*/", e.oldText)
 		}
+		result = result[:e.offset] + markerBegin + old + e.newText + markerEnd + result[e.end:]
 	}
 
 	if s.appendContent != "" {
+		newline := ""
 		if !strings.HasSuffix(result, "\n") {
-			result += "\n"
+			// inside the markers, so that it is removed with the content
+			newline = "\n"
 		}
-		markerBegin := fmt.Sprintf("/*<begin %s>*/", blockName)
-		markerEnd := fmt.Sprintf("/*<end %s>*/", blockName)
-		result += markerBegin + s.appendContent + markerEnd
+		result += markerBegin + newline + s.appendContent + markerEnd
 	}
 
-	if s.directiveReplace != nil {
-		dr := s.directiveReplace
+	for _, dr := range s.directiveReplaces {
 		idx := strings.Index(result, dr.oldText)
 		if idx >= 0 {
-			annotation := fmt.Sprintf("/*<next-line-original %s>%s</next-line-original>*/", blockName, dr.oldText)
+			// the rest of the line is also kept in the annotation, since
+			// the whole next line is dropped when the patch is cleared
+			rest := result[idx+len(dr.oldText):]
+			if nl := strings.Index(rest, "\n"); nl >= 0 {
+				rest = rest[:nl]
+			}
+			annotation := fmt.Sprintf("/*<next-line-original %s>%s</next-line-original>*/", blockName, dr.oldText+rest)
 			result = result[:idx] + annotation + "\n" + dr.newText + result[idx+len(dr.oldText):]
 		}
 	}
 
-	return result
+	return result, nil
 }
 
 // evalGoto evaluates a goto command and returns a cursor positioned at the target.
@@ -558,6 +576,7 @@ func evalMatch(state *applyState, searchText string, forReplace bool) (cursor, e
 				offset:    offset,
 				endOffset: offset + len(searchText),
 				isReplace: true,
+				replaced:  searchText,
 			}, nil
 		}
 	}
@@ -575,6 +594,7 @@ func evalMatch(state *applyState, searchText string, forReplace bool) (cursor, e
 		offset:    offset,
 		endOffset: endOffset,
 		isReplace: forReplace,
+		replaced:  searchText,
 	}, nil
 }
 
-- 
2.43.0


From 8d571e4a9451536902cb32575df03c0efaa923d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:54 +0000
Subject: [PATCH 19/55] fix: write a file whose patches are all gone

---
 instrument/patch/patch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instrument/patch/patch.go b/instrument/patch/patch.go
index 9508898..96aed77 100644
--- a/instrument/patch/patch.go
+++ b/instrument/patch/patch.go
@@ -31,7 +31,7 @@ func EditFile(file string, callback func(content string) (string, error)) (err e
 	if err != nil {
 		return err
 	}
-	if newContent == content {
+	if newContent == string(bytes) {
 		return nil
 	}
 	return fileutil.WriteFile(file, []byte(newContent))
-- 
2.43.0


From 8757d1dfdee00794a1a9662994e54314bb823efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:48 +0000
Subject: [PATCH 20/55] fix: an empty overlay target deletes the file, as in go
 build -overlay

The empty target of a caller's -overlay was resolved to the project
directory, so the file was mapped to a directory and the build failed.
---
 instrument/overlay/io.go      |  7 +++++++
 instrument/overlay/overlay.go | 21 +++++++++------------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/instrument/overlay/io.go b/instrument/overlay/io.go
index 7ae14bb..b94e0aa 100644
--- a/instrument/overlay/io.go
+++ b/instrument/overlay/io.go
@@ -131,6 +131,10 @@ func (p *ParsedOverlay) ProjectOntoCallerSources(composed *GoOverlay) {
 }
 
 func ResolveAbsFile(file AbsFile, opts PathOptions) AbsFile {
+	if file == "" {
+		// an empty target marks the source as deleted, it names no path
+		return ""
+	}
 	path := filepath.FromSlash(string(file))
 	if !filepath.IsAbs(path) && opts.BaseDir != "" {
 		path = filepath.Join(opts.BaseDir, path)
@@ -146,6 +150,9 @@ func CanonicalizeAbsFile(file AbsFile, opts PathOptions) AbsFile {
 }
 
 func evalSymlinksAbs(file AbsFile) AbsFile {
+	if file == "" {
+		return ""
+	}
 	path := filepath.FromSlash(string(file))
 	if resolved, err := filepath.EvalSymlinks(path); err == nil {
 		path = resolved
diff --git a/instrument/overlay/overlay.go b/instrument/overlay/overlay.go
index a10ff8e..44e9f3e 100644
--- a/instrument/overlay/overlay.go
+++ b/instrument/overlay/overlay.go
@@ -31,6 +31,9 @@ func MakeOverlay() Overlay {
 // /private/var on macOS share one entry. Callers may pass either spelling;
 // Get/Override always store and look up under this key.
 func absFileKey(file AbsFile) AbsFile {
+	if file == "" {
+		return ""
+	}
 	path := filepath.FromSlash(string(file))
 	path = filepath.Clean(path)
 	if resolved, err := filepath.EvalSymlinks(path); err == nil {
@@ -66,9 +69,8 @@ func (o Overlay) Size(absFile AbsFile) (size int64, err error) {
 		if overlayFile.hasOverriddenContent {
 			return int64(len(overlayFile.Content)), nil
 		}
-		if overlayFile.AbsFile != "" {
-			readOSFile = overlayFile.AbsFile
-		}
+		// an empty AbsFile is a deleted file: reading it reports not exist
+		readOSFile = overlayFile.AbsFile
 	}
 	info, err := os.Stat(string(readOSFile))
 	if err != nil {
@@ -85,9 +87,8 @@ func (o Overlay) Read(absFile AbsFile) (hitContent bool, content string, err err
 		if overlayFile.hasOverriddenContent {
 			return true, overlayFile.Content, nil
 		}
-		if overlayFile.AbsFile != "" {
-			readOSFile = overlayFile.AbsFile
-		}
+		// an empty AbsFile is a deleted file: reading it reports not exist
+		readOSFile = overlayFile.AbsFile
 	}
 	data, err := os.ReadFile(string(readOSFile))
 	if err != nil {
@@ -104,9 +105,8 @@ func (o Overlay) ReadBytes(absFile AbsFile) (hitContent bool, content []byte, er
 		if overlayFile.hasOverriddenContent {
 			return true, []byte(overlayFile.Content), nil
 		}
-		if overlayFile.AbsFile != "" {
-			readOSFile = overlayFile.AbsFile
-		}
+		// an empty AbsFile is a deleted file: reading it reports not exist
+		readOSFile = overlayFile.AbsFile
 	}
 	data, err := os.ReadFile(string(readOSFile))
 	if err != nil {
@@ -175,9 +175,6 @@ func (o Overlay) MakeGoOverlay(overlayDir string, opts Options) (*GoOverlay, err
 			replace[AbsFile(filepath.ToSlash(string(absFile)))] = AbsFile(filepath.ToSlash(writeFile))
 			continue
 		}
-		if fileOverlay.AbsFile == "" {
-			continue
-		}
 		replace[AbsFile(filepath.ToSlash(string(absFile)))] = AbsFile(filepath.ToSlash(string(fileOverlay.AbsFile)))
 	}
 	return &GoOverlay{Replace: replace}, nil
-- 
2.43.0


From 2343905ba2f6c9ba7095d2455c6cb6376f22a711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:49 +0000
Subject: [PATCH 21/55] fix: overlay entries naming one file by aliases give
 the same mapping every run

The redirects read for instrumentation were the last alias in map order,
while the composed overlay preferred the canonical one.
---
 instrument/overlay/io.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/instrument/overlay/io.go b/instrument/overlay/io.go
index b94e0aa..d08bdcd 100644
--- a/instrument/overlay/io.go
+++ b/instrument/overlay/io.go
@@ -68,7 +68,15 @@ func ParseGoOverlay(input *GoOverlay, opts PathOptions) *ParsedOverlay {
 		return nil
 	}
 	out := &ParsedOverlay{Entries: make([]OverlayEntry, 0, len(input.Replace))}
-	for source, target := range input.Replace {
+	// the order decides between aliases of one file, so it must not be random
+	sources := make([]string, 0, len(input.Replace))
+	for source := range input.Replace {
+		sources = append(sources, string(source))
+	}
+	sort.Strings(sources)
+	for _, s := range sources {
+		source := AbsFile(s)
+		target := input.Replace[source]
 		srcRes := ResolveAbsFile(source, opts)
 		tgtRes := ResolveAbsFile(target, opts)
 		out.Entries = append(out.Entries, OverlayEntry{
@@ -90,9 +98,10 @@ func (p *ParsedOverlay) ApplyFileRedirects(fs Overlay) {
 	if p == nil {
 		return
 	}
-	for _, e := range p.Entries {
+	// Same choice among aliases as compose: see CanonicalReplace.
+	for source, target := range p.CanonicalReplace() {
 		// Canonical source/target; OverrideFile re-keys via absFileKey.
-		fs.OverrideFile(e.SourceCanonical, e.TargetCanonical)
+		fs.OverrideFile(source, target)
 	}
 }
 
-- 
2.43.0


From eb83ed04bdf35a32e74ef101bb38399cbba845a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:29 +0000
Subject: [PATCH 22/55] fix: instrument packages reached through a symlinked
 directory

The generated overlay named only the real paths, while the go command looks
files up below the directory it is started in: nothing was instrumented.
---
 cmd/xgo/main.go               |  1 +
 instrument/overlay/overlay.go | 21 +++++++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/cmd/xgo/main.go b/cmd/xgo/main.go
index 2eace03..c84948a 100644
--- a/cmd/xgo/main.go
+++ b/cmd/xgo/main.go
@@ -839,6 +839,7 @@ xgo will try best to compile with newer xgo/runtime v%s, it's recommended to upg
 			if callerOverlay != nil {
 				callerOverlay.ProjectOntoCallerSources(goOverlay)
 			}
+			overlayFS.ProjectOntoSpellings(goOverlay)
 			if len(goOverlay.Replace) > 0 {
 				overlayFile = filepath.Join(localXgoGenDir, "overlay.json")
 				logDebug("write overlay file: %s", overlayFile)
diff --git a/instrument/overlay/overlay.go b/instrument/overlay/overlay.go
index 44e9f3e..4de62e1 100644
--- a/instrument/overlay/overlay.go
+++ b/instrument/overlay/overlay.go
@@ -19,6 +19,10 @@ type FileOverlay struct {
 	Content string
 
 	hasOverriddenContent bool
+
+	// spelling is the path the content was overridden by, which may reach the
+	// file through symlinks
+	spelling AbsFile
 }
 
 func MakeOverlay() Overlay {
@@ -54,6 +58,7 @@ func (o Overlay) OverrideContent(absFile AbsFile, content string) {
 	o[absFileKey(absFile)] = &FileOverlay{
 		Content:              content,
 		hasOverriddenContent: true,
+		spelling:             AbsFile(filepath.Clean(filepath.FromSlash(string(absFile)))),
 	}
 }
 
@@ -179,3 +184,19 @@ func (o Overlay) MakeGoOverlay(overlayDir string, opts Options) (*GoOverlay, err
 	}
 	return &GoOverlay{Replace: replace}, nil
 }
+
+// ProjectOntoSpellings copies composed targets onto the paths the contents were
+// overridden by. Go looks files up by the directory it was started in, which
+// differs from the identity used here when that is reached through a symlink.
+func (o Overlay) ProjectOntoSpellings(composed *GoOverlay) {
+	for absFile, fileOverlay := range o {
+		if !fileOverlay.hasOverriddenContent || fileOverlay.spelling == absFile {
+			continue
+		}
+		target, ok := composed.Replace[AbsFile(filepath.ToSlash(string(absFile)))]
+		if !ok {
+			continue
+		}
+		composed.Replace[AbsFile(filepath.ToSlash(string(fileOverlay.spelling)))] = target
+	}
+}
-- 
2.43.0


From 9ceb84efcec8ba18b183a3c99900391b26d114ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:35 +0000
Subject: [PATCH 23/55] fix: take the packages of the command line as the go
 command does

Flags after the packages, flags without value before them and arguments of
the program were listed as packages or hid them, so the runtime was not
prepared for the build.
---
 cmd/xgo/main.go   |   2 +-
 cmd/xgo/option.go | 109 +++++++++++++++++++++++++++++++++++-----------
 cmd/xgo/trace.go  |   6 +--
 3 files changed, 87 insertions(+), 30 deletions(-)

diff --git a/cmd/xgo/main.go b/cmd/xgo/main.go
index c84948a..55775aa 100644
--- a/cmd/xgo/main.go
+++ b/cmd/xgo/main.go
@@ -729,7 +729,7 @@ xgo will try best to compile with newer xgo/runtime v%s, it's recommended to upg
 		needLocalRuntime := goVersion.Minor >= 25
 		if enableStackTrace || needUpgrade || needLocalRuntime {
 			// check if xgo/runtime ready
-			impResult, impRuntimeErr := importRuntimeDepGenOverlay(cmdTest, instrumentGoroot, instrumentGo, goVersion, modfile, realXgoSrc, projectDir, projectRoot, localXgoGenDir, mainModule, mod, resetInstrument || flagA, needUpgrade || needLocalRuntime, remainArgs)
+			impResult, impRuntimeErr := importRuntimeDepGenOverlay(cmd, instrumentGoroot, instrumentGo, goVersion, modfile, realXgoSrc, projectDir, projectRoot, localXgoGenDir, mainModule, mod, resetInstrument || flagA, needUpgrade || needLocalRuntime, remainArgs)
 			if impRuntimeErr != nil {
 				// can be silently ignored
 				if enableStackTrace {
diff --git a/cmd/xgo/option.go b/cmd/xgo/option.go
index 538311d..2af7764 100644
--- a/cmd/xgo/option.go
+++ b/cmd/xgo/option.go
@@ -791,37 +791,94 @@ func resolveUseFilePatches(explicit *bool, goVersion *goinfo.GoVersion) (value b
 	return false, "", nil
 }
 
-func getPkgArgs(args []string) []string {
-	n := len(args)
-	newArgs := make([]string, 0, n)
-	for i := 0; i < n; i++ {
+// getPkgArgs returns the packages that `go cmd args...` takes, see
+// cmd/go/internal/test.testFlags and cmd/go/internal/run.
+func getPkgArgs(cmd string, args []string) []string {
+	i := 0
+	for i < len(args) && isGoFlag(args[i]) {
 		arg := args[i]
-		if !strings.HasPrefix(arg, "-") {
-			// stop at first non-arg
-			newArgs = append(newArgs, args[i:]...)
-			break
-		}
-		if arg == "-args" {
-			// go test -args: pass everything after to underlying program
-			break
-		}
-		eqIdx := strings.Index(arg, "=")
-		if eqIdx >= 0 {
-			// self hosted arg
+		i++
+		if strings.Contains(arg, "=") {
+			if cmd == "test" && !isKnownGoFlag(arg[:strings.Index(arg, "=")]) {
+				return nil
+			}
 			continue
 		}
-		// make --opt equivalent with -opt
-		if strings.HasPrefix(arg, "--") {
-			arg = arg[1:]
+		if cmd == "test" && !isKnownGoFlag(arg) {
+			// -args, or a flag of the test binary: no package follows
+			return nil
 		}
-		switch arg {
-		case "-a", "-n", "-race", "-masan", "-asan", "-cover", "-v", "-work", "-x", "-linkshared", "-buildvcs", // shared among build,test,run
-			"-args", "-c", "-json": // -json for test
-			// zero arg
-		default:
-			// 1 arg
+		if goFlagTakesValue(arg) {
 			i++
 		}
 	}
-	return newArgs
+	if i >= len(args) {
+		return nil
+	}
+	rest := args[i:]
+	n := len(rest)
+	switch cmd {
+	case "test":
+		n = 0
+		for n < len(rest) && rest[n] != "--" && !isGoFlag(rest[n]) {
+			n++
+		}
+	case "run":
+		if rest[0] == "--" {
+			rest = rest[1:]
+		}
+		// go files or one package, the others are for the program
+		n = 0
+		for n < len(rest) && strings.HasSuffix(rest[n], ".go") {
+			n++
+		}
+		if n == 0 && len(rest) > 0 {
+			n = 1
+		}
+	default:
+		if rest[0] == "--" {
+			rest = rest[1:]
+			n--
+		}
+	}
+	return rest[:n]
+}
+
+// isGoFlag tells if the go command parses the argument as a flag
+func isGoFlag(arg string) bool {
+	return len(arg) >= 2 && arg[0] == '-' && arg != "--"
+}
+
+func goFlagName(flag string) string {
+	flag = strings.TrimPrefix(flag, "-")
+	flag = strings.TrimPrefix(flag, "-")
+	return strings.TrimPrefix(flag, "test.")
+}
+
+// goFlagTakesValue tells if a flag of go build, run or test, without `=`,
+// takes the next argument as its value.
+func goFlagTakesValue(flag string) bool {
+	switch goFlagName(flag) {
+	case "C", "asmflags", "buildmode", "compiler", "covermode", "coverpkg", "debug-actiongraph",
+		"debug-runtime-trace", "debug-trace", "exec", "gccgoflags", "gcflags", "installsuffix",
+		"ldflags", "mod", "modfile", "o", "overlay", "p", "pgo", "pkgdir", "tags", "toolexec",
+		// test
+		"bench", "benchtime", "blockprofile", "blockprofilerate", "count", "coverprofile", "cpu",
+		"cpuprofile", "fuzz", "fuzztime", "fuzzminimizetime", "list", "memprofile", "memprofilerate",
+		"mutexprofile", "mutexprofilefraction", "outputdir", "parallel", "run", "shuffle", "skip",
+		"timeout", "trace", "vet":
+		return true
+	}
+	return false
+}
+
+func isKnownGoFlag(flag string) bool {
+	switch goFlagName(flag) {
+	case "a", "asan", "buildvcs", "cover", "json", "linkshared", "modcacherw", "msan", "n", "race",
+		"trimpath", "v", "work", "x",
+		// test
+		"artifacts", "benchmem", "c", "failfast", "fullpath", "i", "short":
+		return true
+	}
+	return goFlagTakesValue(flag)
 }
diff --git a/cmd/xgo/trace.go b/cmd/xgo/trace.go
index d5ef4ef..cf2de1b 100644
--- a/cmd/xgo/trace.go
+++ b/cmd/xgo/trace.go
@@ -65,7 +65,7 @@ func getVendorDir(projectRoot string) (string, error) {
 // by employing this technique with -modfile=replacedModFile, we can instruct go
 // to build with different modules.
 // TODO: may apply tags
-func importRuntimeDepGenOverlay(test bool, goroot string, goBinary string, goVersion *goinfo.GoVersion, absModFile string, xgoSrc string, projectDir string, projectRoot string, localXgoGenDir string, mainModule string, mod string, forceCopyRuntime bool, forceLoad bool, args []string) (*importResult, error) {
+func importRuntimeDepGenOverlay(cmd string, goroot string, goBinary string, goVersion *goinfo.GoVersion, absModFile string, xgoSrc string, projectDir string, projectRoot string, localXgoGenDir string, mainModule string, mod string, forceCopyRuntime bool, forceLoad bool, args []string) (*importResult, error) {
 	if mainModule == "" {
 		// only work with module
 		return nil, nil
@@ -138,14 +138,14 @@ func importRuntimeDepGenOverlay(test bool, goroot string, goBinary string, goVer
 		}
 	}
 
-	pkgArgs := getPkgArgs(args)
+	pkgArgs := getPkgArgs(cmd, args)
 	var fileReplace map[string]string
 	if mainModule != constants.RUNTIME_MODULE {
 		// When building xgo/runtime itself, skip blank import injection.
 		// The runtime module already compiles all its packages; injecting
 		// import _ "runtime/trace" creates a cycle: core → trace → internal/trap → core.
 		// See patches/go1.25/issues/RUNTIME_LIB_SELF_REQUIRE.md
-		fileReplace, err = addBlankImports(goroot, goBinary, projectDir, pkgArgs, test, overlayDir)
+		fileReplace, err = addBlankImports(goroot, goBinary, projectDir, pkgArgs, cmd == "test", overlayDir)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From de8e4471b5b9c1ed1735412601c4ace9511abd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:35 +0000
Subject: [PATCH 24/55] fix: keep values of go flags that begin with a dash

'xgo test -ldflags -v' took -v as its own flag and the next argument as the
value of -ldflags.
---
 cmd/xgo/option.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/xgo/option.go b/cmd/xgo/option.go
index 2af7764..49d5a69 100644
--- a/cmd/xgo/option.go
+++ b/cmd/xgo/option.go
@@ -580,9 +580,10 @@ func parseOptions(cmd string, args []string) (*options, error) {
 				remainArgs = append(remainArgs, arg)
 				continue
 			}
-			if i+1 < nArg && !strings.HasPrefix(args[i+1], "-") {
+			if i+1 < nArg && (!strings.HasPrefix(args[i+1], "-") || goFlagTakesValue(arg)) {
 				// -count 0
 				// check if next arg starts with "-" (i.e. an option)
+				// -ldflags -v: the value starts with "-"
 				remainArgs = append(remainArgs, arg, args[i+1])
 				i++
 				continue
-- 
2.43.0


From 6d637033fa20ffac46d71dc4058e9f10832c5e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:03 +0000
Subject: [PATCH 25/55] fix: report unknown values of --strace and --unified
 instead of panicking

---
 cmd/xgo/option.go | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/cmd/xgo/option.go b/cmd/xgo/option.go
index 49d5a69..b06d5b5 100644
--- a/cmd/xgo/option.go
+++ b/cmd/xgo/option.go
@@ -210,6 +210,7 @@ func parseOptions(cmd string, args []string) (*options, error) {
 		Single bool
 		Set    func(v string)
 	}
+	var setErr error
 
 	var flagValues []FlagValue = []FlagValue{
 		{
@@ -376,7 +377,7 @@ func parseOptions(cmd string, args []string) (*options, error) {
 				} else if v == "false" {
 					unified = false
 				} else {
-					panic(fmt.Errorf("unrecognized value %s: %s, expects <empty>,true or false", "--unified", v))
+					setErr = fmt.Errorf("unrecognized value %s: %s, expects <empty>,true or false", "--unified", v)
 				}
 			},
 		})
@@ -510,7 +511,10 @@ func parseOptions(cmd string, args []string) (*options, error) {
 			continue
 		}
 
-		argVal, ok := parseStackTraceFlag(arg)
+		argVal, ok, err := parseStackTraceFlag(arg)
+		if err != nil {
+			return nil, err
+		}
 		if ok {
 			stackTrace = argVal
 			continue
@@ -566,6 +570,9 @@ func parseOptions(cmd string, args []string) (*options, error) {
 				break
 			}
 		}
+		if setErr != nil {
+			return nil, setErr
+		}
 		if found {
 			continue
 		}
@@ -741,7 +748,7 @@ func tryParseEqSuffixValue(flag string, arg string) (string, bool) {
 	return suffix[1:], true
 }
 
-func parseStackTraceFlag(arg string) (string, bool) {
+func parseStackTraceFlag(arg string) (string, bool, error) {
 	var stackTracePrefix string
 	if strings.HasPrefix(arg, "--strace") {
 		stackTracePrefix = "--strace"
@@ -749,22 +756,22 @@ func parseStackTraceFlag(arg string) (string, bool) {
 		stackTracePrefix = "--stack-trace"
 	}
 	if stackTracePrefix == "" {
-		return "", false
+		return "", false, nil
 	}
 	if len(arg) == len(stackTracePrefix) {
-		return "on", true
+		return "on", true, nil
 	}
 	if arg[len(stackTracePrefix)] != '=' {
-		return "", false
+		return "", false, nil
 	}
 	val := arg[len(stackTracePrefix)+1:]
 	if val == "" || val == "on" || val == "true" {
-		return "on", true
+		return "on", true, nil
 	}
 	if val == "off" || val == "false" {
-		return "off", true
+		return "off", true, nil
 	}
-	panic(fmt.Errorf("unrecognized value %s: %s, expects on|off", arg, val))
+	return "", false, fmt.Errorf("unrecognized value %s: %s, expects on|off", arg, val)
 }
 
 func resolveUseFilePatches(explicit *bool, goVersion *goinfo.GoVersion) (value bool, warning string, err error) {
-- 
2.43.0


From 9b99adc77e28d308006bcf825a3735c83573a7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:05 +0000
Subject: [PATCH 26/55] fix: ignore .xgo/gen unless a line of .gitignore does

Another pattern, or a comment, that contained the text counted as ignoring
it when the file ended in a newline.
---
 cmd/xgo/instrument.go | 31 +++++++------------------------
 1 file changed, 7 insertions(+), 24 deletions(-)

diff --git a/cmd/xgo/instrument.go b/cmd/xgo/instrument.go
index 71cd0ba..50202e4 100644
--- a/cmd/xgo/instrument.go
+++ b/cmd/xgo/instrument.go
@@ -620,9 +620,10 @@ func getLocalXgoDir(projectDir string) (string, error) {
 const XGO_GEN_IGNORE_PATTERN = "**/.xgo/gen"
 
 func gitignoreAdd(content []byte, pattern string) ([]byte, bool) {
-	idx := bytes.Index(content, []byte(pattern))
-	if idx >= 0 && isDirectiveEnd(content, idx+len(pattern)) {
-		return content, false
+	for _, line := range strings.Split(string(content), "\n") {
+		if strings.HasPrefix(line, pattern) && isDirectiveEnd(line[len(pattern):]) {
+			return content, false
+		}
 	}
 	var prefix string
 	if len(content) > 0 && !bytes.HasSuffix(content, []byte("\n")) {
@@ -631,27 +632,9 @@ func gitignoreAdd(content []byte, pattern string) ([]byte, bool) {
 	return append(content, []byte(prefix+pattern+"\n")...), true
 }
 
-func isDirectiveEnd(content []byte, i int) bool {
-	n := len(content)
-	for ; i < n; i++ {
-		if content[i] == ' ' || content[i] == '\t' {
-			continue
-		}
-		break
-	}
-	if i >= n {
-		return true
-	}
-	if bytes.HasSuffix(content[i:], []byte("#")) {
-		return true
-	}
-	if bytes.HasSuffix(content[i:], []byte("\n")) {
-		return true
-	}
-	if bytes.HasSuffix(content[i:], []byte("\r\n")) {
-		return true
-	}
-	return false
+func isDirectiveEnd(rest string) bool {
+	trimmed := strings.TrimSpace(rest)
+	return trimmed == "" || trimmed[0] == '#' && rest[0] != '#'
 }
 
 func humanReadablePath(path string) string {
-- 
2.43.0


From b16c0fa5624cf8e0731f678833b752f2b4503add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:04 +0000
Subject: [PATCH 27/55] fix: import the trace package after the package clause,
 wherever that is

A comment with the words 'package ' before the clause, one after it, or a
carriage return on a later line put the import into the comment or into a
later statement; a mention of the package counted as an import.
---
 cmd/xgo/trace.go | 65 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 42 insertions(+), 23 deletions(-)

diff --git a/cmd/xgo/trace.go b/cmd/xgo/trace.go
index cf2de1b..b756776 100644
--- a/cmd/xgo/trace.go
+++ b/cmd/xgo/trace.go
@@ -4,6 +4,8 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"go/parser"
+	"go/token"
 	"os"
 	"path/filepath"
 	"strconv"
@@ -683,30 +685,34 @@ type GoListPkg struct {
 }
 
 func addBlankImport(content string) (string, bool) {
-	var base int
-	idx := strings.Index(content, "package ")
-	if idx < 0 {
+	fset := token.NewFileSet()
+	file, err := parser.ParseFile(fset, "", content, parser.ImportsOnly)
+	if err != nil {
 		return "", false
 	}
-	base += idx
-	subContent := content[idx:]
-	rIdx := strings.Index(subContent, "\r")
-	if rIdx > 0 {
-		base += rIdx
-		subContent = subContent[rIdx+1:]
-	}
-	nIdx := strings.Index(subContent, "\n")
-	if nIdx < 0 {
-		q := fmt.Sprintf(";import _ %q", constants.RUNTIME_TRACE_PKG)
-		return content + q, true
-	}
-	base += nIdx
-	sep := ";"
-	if base > 0 && content[base-1] == ';' {
-		sep = ""
-	}
-	q := fmt.Sprintf("%simport _ %q", sep, constants.RUNTIME_TRACE_PKG)
-	return content[:base] + q + content[base:], true
+	line := func(pos token.Pos) int { return fset.PositionFor(pos, false).Line }
+
+	// after the package clause, and imports on its line
+	end := file.Name.End()
+	for _, decl := range file.Decls {
+		if line(decl.End()) == line(file.Name.End()) {
+			end = decl.End()
+		}
+	}
+	base := fset.PositionFor(end, false).Offset
+	importDecl := fmt.Sprintf("import _ %q", constants.RUNTIME_TRACE_PKG)
+
+	rest := strings.TrimLeft(content[base:], " \t")
+	if !strings.HasPrefix(rest, ";") {
+		return content[:base] + ";" + importDecl + content[base:], true
+	}
+	rest = rest[1:]
+	base = len(content) - len(rest)
+	sep := ""
+	if following := strings.TrimLeft(rest, " \t\r"); following != "" && following[0] != '\n' {
+		sep = ";"
+	}
+	return content[:base] + importDecl + sep + rest, true
 }
 
 // applyBlankImportThroughOverlay injects import _ "…/runtime/trace" into the
@@ -730,7 +736,7 @@ func applyBlankImportThroughOverlay(overlayFS overlay.Overlay, fileReplace map[o
 			overlayFS.OverrideFile(src, prepTarget)
 			continue
 		}
-		if strings.Contains(content, constants.RUNTIME_TRACE_PKG) {
+		if importsPkg(content, constants.RUNTIME_TRACE_PKG) {
 			// Replacement or original already pulls in the trace package.
 			continue
 		}
@@ -743,6 +749,19 @@ func applyBlankImportThroughOverlay(overlayFS overlay.Overlay, fileReplace map[o
 	return nil
 }
 
+func importsPkg(content string, pkgPath string) bool {
+	file, err := parser.ParseFile(token.NewFileSet(), "", content, parser.ImportsOnly)
+	if err != nil {
+		return false
+	}
+	for _, spec := range file.Imports {
+		if path, err := strconv.Unquote(spec.Path.Value); err == nil && path == pkgPath {
+			return true
+		}
+	}
+	return false
+}
+
 func createGoModPlaceholder(file string, modPath string, goVersion string) error {
 	dir := filepath.Dir(file)
 	err := os.MkdirAll(dir, 0755)
-- 
2.43.0


From e1b02a9b348b43b7760966533e554a6dacce2be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:35 +0000
Subject: [PATCH 28/55] fix: xgo run takes the package after a boolean flag of
 go as the package

---
 cmd/xgo/option.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/xgo/option.go b/cmd/xgo/option.go
index b06d5b5..380895d 100644
--- a/cmd/xgo/option.go
+++ b/cmd/xgo/option.go
@@ -587,10 +587,12 @@ func parseOptions(cmd string, args []string) (*options, error) {
 				remainArgs = append(remainArgs, arg)
 				continue
 			}
-			if i+1 < nArg && (!strings.HasPrefix(args[i+1], "-") || goFlagTakesValue(arg)) {
+			isBool := isKnownGoFlag(arg) && !goFlagTakesValue(arg)
+			if i+1 < nArg && !isBool && (!strings.HasPrefix(args[i+1], "-") || goFlagTakesValue(arg)) {
 				// -count 0
 				// check if next arg starts with "-" (i.e. an option)
 				// -ldflags -v: the value starts with "-"
+				// -race ./cmd: the package is not a value, with `xgo run` it ends the options
 				remainArgs = append(remainArgs, arg, args[i+1])
 				i++
 				continue
-- 
2.43.0


From 7f5fcaea83a9494592015a3b9c38f0e7bf69e75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:17 +0000
Subject: [PATCH 29/55] fix: find the module of a subdirectory when run in it

The parent of a relative project directory, as of the empty one, is not its
directory: xgo wrote .xgo/gen into the subdirectory, and did not find go.mod
and vendor, so nothing was imported.
---
 cmd/xgo/main.go  |  8 ++++----
 cmd/xgo/trace.go | 22 ++++++++++++++++------
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/cmd/xgo/main.go b/cmd/xgo/main.go
index 55775aa..5fc29a0 100644
--- a/cmd/xgo/main.go
+++ b/cmd/xgo/main.go
@@ -284,9 +284,9 @@ func handleBuild(cmd string, args []string) error {
 			return err
 		}
 	}
-	projectRootDir := projectDir
-	for i, n := 0, len(subPaths); i < n; i++ {
-		projectRootDir = filepath.Dir(projectRootDir)
+	projectRootDir, err := getProjectRoot(projectDir, subPaths)
+	if err != nil {
+		return err
 	}
 
 	// generate at .xgo/gen
@@ -713,7 +713,7 @@ xgo will try best to compile with newer xgo/runtime v%s, it's recommended to upg
 `, VERSION, coreVersion, CORE_VERSION, constants.RUNTIME_MODULE)
 		}
 
-		projectRoot := getProjectRoot(projectDir, subPaths)
+		projectRoot := projectRootDir
 		var xgoRuntimeModuleDir string
 
 		// the most important result of `importRuntimeDepGenOverlay`
diff --git a/cmd/xgo/trace.go b/cmd/xgo/trace.go
index b756776..5050e0b 100644
--- a/cmd/xgo/trace.go
+++ b/cmd/xgo/trace.go
@@ -35,13 +35,19 @@ type importResult struct {
 	fileReplace map[overlay.AbsFile]overlay.AbsFile
 }
 
-func getProjectRoot(projectDir string, modRootRel []string) string {
-	projectRoot := projectDir
-	n := len(modRootRel)
-	for i := 0; i < n; i++ {
+func getProjectRoot(projectDir string, modRootRel []string) (string, error) {
+	if len(modRootRel) == 0 {
+		return projectDir, nil
+	}
+	// the parent of a relative dir, like "", may not be one of its elements
+	projectRoot, err := filepath.Abs(projectDir)
+	if err != nil {
+		return "", err
+	}
+	for range modRootRel {
 		projectRoot = filepath.Dir(projectRoot)
 	}
-	return projectRoot
+	return projectRoot, nil
 }
 
 // projectRoot is the directory containing go.mod
@@ -78,7 +84,11 @@ func importRuntimeDepGenOverlay(cmd string, goroot string, goBinary string, goVe
 	}
 	var vendorDir string
 	if mod == "vendor" || mod == "" {
-		vendorDir, err = getVendorDir(projectDir)
+		absProjectRoot, err := filepath.Abs(projectRoot)
+		if err != nil {
+			return nil, err
+		}
+		vendorDir, err = getVendorDir(absProjectRoot)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 6bd7363b22d2aae74dcc1358fcc5239b30340d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:38 +0000
Subject: [PATCH 30/55] fix: find replaced modules in vendor under their own
 path

go mod vendor puts a replaced module at the path it is required by, but its
go.mod was replaced below the path of the replacement, unless that was a
relative directory: such projects failed to build.
---
 cmd/xgo/trace.go | 19 +------------------
 1 file changed, 1 insertion(+), 18 deletions(-)

diff --git a/cmd/xgo/trace.go b/cmd/xgo/trace.go
index 5050e0b..ad9d843 100644
--- a/cmd/xgo/trace.go
+++ b/cmd/xgo/trace.go
@@ -320,11 +320,8 @@ func loadDependency(goroot string, goBinary string, goVersion *goinfo.GoVersion,
 		for _, mod := range vendorInfo.VendorList {
 			// modInfo is completely optional
 			modInfo := vendorInfo.VendorMeta[mod]
+			// a replaced module is vendored under its own path, see https://github.com/xhd2015/xgo/issues/87#issuecomment-2074722912
 			modPath := mod.Path
-			if modInfo.Replacement.Path != "" &&
-				!isLocalReplace(modInfo.Replacement.Path) { // !isLocalReplace, see https://github.com/xhd2015/xgo/issues/87#issuecomment-2074722912
-				modPath = modInfo.Replacement.Path
-			}
 			vendorModPath := filepath.Join(vendorDir, modPath)
 			vendorModFile := filepath.Join(vendorModPath, "go.mod")
 			replaceModFile := fileutil.RebasePath(tmpOverlayDir, vendorModFile)
@@ -527,20 +524,6 @@ func splitArgsBatch(args []string, limit int) [][]string {
 	return groups
 }
 
-func isLocalReplace(modPath string) bool {
-	// ./ or ../
-	if modPath == "." || modPath == ".." {
-		return true
-	}
-	if strings.HasPrefix(modPath, "./") {
-		return true
-	}
-	if strings.HasPrefix(modPath, "../") {
-		return true
-	}
-	return false
-}
-
 func addBlankImports(goroot string, goBinary string, projectDir string, pkgArgs []string, test bool, tmpProjectDir string) (replace map[string]string, err error) {
 	// list files, add init
 	// NOTE: go build tag applies,
-- 
2.43.0


From 9dc0758fcb12799f56e09d364c97afa6c5705a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:47 +0000
Subject: [PATCH 31/55] fix: read quoted module paths of go.mod

---
 support/goinfo/mod.go | 45 +++++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/support/goinfo/mod.go b/support/goinfo/mod.go
index 74a39a6..9725ae3 100644
--- a/support/goinfo/mod.go
+++ b/support/goinfo/mod.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"os"
 	"path/filepath"
+	"strconv"
 	"strings"
 
 	"github.com/xhd2015/xgo/support/osinfo"
@@ -112,30 +113,36 @@ func reverse(list []string) []string {
 	return list
 }
 
-const modulePrefix = "module "
+const modulePrefix = "module"
 
+// parseModPath returns the path of the module directive, which may be quoted
+// and be separated by any white space, see modfile.ModulePath.
 func parseModPath(goModContent string) string {
-	s := goModContent
-	for {
-		s = strings.TrimLeft(s, " \t")
-		newLineIdx := strings.Index(s, "\n")
-		if strings.HasPrefix(s, modulePrefix) {
-			ed := newLineIdx
-			if ed < 0 {
-				ed = len(s)
-			}
-			module := strings.TrimSpace(s[len(modulePrefix):ed])
-			commentIdx := strings.Index(module, "//")
-			if commentIdx >= 0 {
-				module = strings.TrimSpace(module[:commentIdx])
-			}
-			return module
+	for _, line := range strings.Split(goModContent, "\n") {
+		commentIdx := strings.Index(line, "//")
+		if commentIdx >= 0 {
+			line = line[:commentIdx]
+		}
+		line = strings.TrimSpace(line)
+		if !strings.HasPrefix(line, modulePrefix) {
+			continue
+		}
+		module := line[len(modulePrefix):]
+		n := len(module)
+		module = strings.TrimSpace(module)
+		if len(module) == n || module == "" {
+			continue
 		}
-		if newLineIdx < 0 {
-			return ""
+		if module[0] == '"' || module[0] == '`' {
+			unquoted, err := strconv.Unquote(module)
+			if err != nil {
+				return ""
+			}
+			return unquoted
 		}
-		s = s[newLineIdx+1:]
+		return module
 	}
+	return ""
 }
 
 func ModCompare(path string, x, y string) int {
-- 
2.43.0


From 2951cf89a7ecd33c025c815b123b8b23b8c7ce81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:28 +0000
Subject: [PATCH 32/55] fix: keep the language version of the project and of
 vendored modules

With Go 1.26 and later the go directive was set to the version of the
toolchain, which gives old code the loop variables of Go 1.22. Only versions
below 1.18 are raised, to 1.18, as the comment says. Vendored modules
without a version have 1.16, as in the go command.
---
 cmd/xgo/trace.go      | 12 ++++++++++--
 support/goinfo/mod.go | 32 ++++++++++++++++++++------------
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/cmd/xgo/trace.go b/cmd/xgo/trace.go
index ad9d843..790608f 100644
--- a/cmd/xgo/trace.go
+++ b/cmd/xgo/trace.go
@@ -347,7 +347,8 @@ func loadDependency(goroot string, goBinary string, goVersion *goinfo.GoVersion,
 			// create placeholder go.mod for each module
 			modGoVersion := modInfo.GoVersion
 			if modGoVersion == "" {
-				modGoVersion = fmt.Sprintf("%d.%d", goVersion.Major, goVersion.Minor)
+				// as the go command assumes
+				modGoVersion = "1.16"
 			}
 			err := createGoModPlaceholder(replaceModFile, modPath, modGoVersion)
 			if err != nil {
@@ -407,8 +408,15 @@ func loadDependency(goroot string, goBinary string, goVersion *goinfo.GoVersion,
 		}
 		// In Go 1.26+, 'go mod tidy' is required when using old go directives (e.g. go 1.14)
 		// with require/replace. Bump the go directive to at least 1.18 to avoid this.
+		// It is the language version of the user's code, so a later one must be kept.
 		if goVersion.Minor >= 26 {
-			modEditArgs = append(modEditArgs, fmt.Sprintf("-go=%d.%d", goVersion.Major, goVersion.Minor))
+			goModContent, err := os.ReadFile(tmpGoMod)
+			if err != nil {
+				return nil, err
+			}
+			if goinfo.CompareVersion(goinfo.ParseModGoVersion(string(goModContent)), "1.18") < 0 {
+				modEditArgs = append(modEditArgs, "-go=1.18")
+			}
 		}
 		modEditArgs = append(modEditArgs, tmpGoMod)
 		err = cmd.Env([]string{
diff --git a/support/goinfo/mod.go b/support/goinfo/mod.go
index 9725ae3..e8a7500 100644
--- a/support/goinfo/mod.go
+++ b/support/goinfo/mod.go
@@ -113,34 +113,42 @@ func reverse(list []string) []string {
 	return list
 }
 
-const modulePrefix = "module"
-
-// parseModPath returns the path of the module directive, which may be quoted
-// and be separated by any white space, see modfile.ModulePath.
+// parseModPath returns the path of the module directive, see modfile.ModulePath.
 func parseModPath(goModContent string) string {
+	return parseModDirective(goModContent, "module")
+}
+
+// ParseModGoVersion returns the version of the go directive, or "" if there is none.
+func ParseModGoVersion(goModContent string) string {
+	return parseModDirective(goModContent, "go")
+}
+
+// parseModDirective returns the argument of a directive, which may be quoted
+// and be separated by any white space.
+func parseModDirective(goModContent string, name string) string {
 	for _, line := range strings.Split(goModContent, "\n") {
 		commentIdx := strings.Index(line, "//")
 		if commentIdx >= 0 {
 			line = line[:commentIdx]
 		}
 		line = strings.TrimSpace(line)
-		if !strings.HasPrefix(line, modulePrefix) {
+		if !strings.HasPrefix(line, name) {
 			continue
 		}
-		module := line[len(modulePrefix):]
-		n := len(module)
-		module = strings.TrimSpace(module)
-		if len(module) == n || module == "" {
+		arg := line[len(name):]
+		n := len(arg)
+		arg = strings.TrimSpace(arg)
+		if len(arg) == n || arg == "" {
 			continue
 		}
-		if module[0] == '"' || module[0] == '`' {
-			unquoted, err := strconv.Unquote(module)
+		if arg[0] == '"' || arg[0] == '`' {
+			unquoted, err := strconv.Unquote(arg)
 			if err != nil {
 				return ""
 			}
 			return unquoted
 		}
-		return module
+		return arg
 	}
 	return ""
 }
-- 
2.43.0


From 45eeaacbbadfaa0b696d1734cf345cbe14bc87e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:00 +0000
Subject: [PATCH 33/55] fix: copy the checksums of -modfile

The go command reads x.sum for -modfile=x.mod.
---
 cmd/xgo/trace.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/xgo/trace.go b/cmd/xgo/trace.go
index 790608f..37ac2ff 100644
--- a/cmd/xgo/trace.go
+++ b/cmd/xgo/trace.go
@@ -299,8 +299,8 @@ func loadDependency(goroot string, goBinary string, goVersion *goinfo.GoVersion,
 	}
 
 	// Copy go.sum alongside go.mod so -modfile can find it
-	goSum := strings.TrimSuffix(goMod, "go.mod") + "go.sum"
-	tmpGoSum := strings.TrimSuffix(tmpGoMod, "go.mod") + "go.sum"
+	goSum := strings.TrimSuffix(goMod, ".mod") + ".sum"
+	tmpGoSum := strings.TrimSuffix(tmpGoMod, ".mod") + ".sum"
 	_ = filecopy.CopyFileAll(goSum, tmpGoSum) // best-effort: go.sum may not exist
 
 	// use -modfile ?
-- 
2.43.0


From 0b5be083edfc58addf5814caf17c1be8aa4cc818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:31 +0000
Subject: [PATCH 34/55] fix: read go version with experiments, notes and custom
 suffixes

go version prints experiments before os/arch (go1.24.1 X:synctest
linux/amd64), and the patch number of toolchains built by others may be
followed by a suffix (go1.24.1-custom).
---
 support/goinfo/goinfo.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/support/goinfo/goinfo.go b/support/goinfo/goinfo.go
index 6092a42..f472a2a 100644
--- a/support/goinfo/goinfo.go
+++ b/support/goinfo/goinfo.go
@@ -62,6 +62,9 @@ func ParseGoVersion(s string) (*GoVersion, error) {
 		return nil, err
 	}
 
+	// the version may be followed by experiments or other comments, like
+	// go1.24.1 X:synctest linux/amd64
+	osArch = osArch[strings.LastIndex(osArch, " ")+1:]
 	slashIdx := strings.Index(osArch, "/")
 	if slashIdx < 0 {
 		return nil, fmt.Errorf("unrecognized version, expect os/arch: %s", osArch)
@@ -79,8 +82,8 @@ func ParseGoVersionNumber(version string) (*GoVersion, error) {
 	for i := 0; i < 3; i++ {
 		if i < len(verList) {
 			num := verList[i]
-			if i == 1 {
-				// 1.23rc1
+			if i >= 1 {
+				// 1.23rc1, 1.23.1-custom
 				idx := strings.IndexFunc(num, func(r rune) bool {
 					return r < '0' || r > '9'
 				})
-- 
2.43.0


From a05197a05f53b9721b139cb3ad0f33f62bf6cc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:31 +0000
Subject: [PATCH 35/55] fix: give the path from the module root in order

FindGoModDirSubPath walks up but returned the names as they were met, so
the test explorer started 2 levels below the module walked c/b for b/c.
---
 support/goinfo/find.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/goinfo/find.go b/support/goinfo/find.go
index ada3523..a76fd3c 100644
--- a/support/goinfo/find.go
+++ b/support/goinfo/find.go
@@ -46,7 +46,7 @@ func FindGoModDirSubPath(dir string) ([]string, string, error) {
 		if stat.IsDir() {
 			continue
 		}
-		return subPath, absDir, nil
+		return reverse(subPath), absDir, nil
 	}
 }
 
-- 
2.43.0


From cd38ad171f7b745d1f423f44bf1eb28b62b322d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:51 +0000
Subject: [PATCH 36/55] fix: different traps of a package have different sums

The sum decides if the go command reuses the object compiled before; the
names in it were not delimited, so e.g. trapping A and B was the same as
trapping AB, and a stale object was used.
---
 cmd/xgo/instrument.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cmd/xgo/instrument.go b/cmd/xgo/instrument.go
index 50202e4..7e7ea65 100644
--- a/cmd/xgo/instrument.go
+++ b/cmd/xgo/instrument.go
@@ -359,12 +359,13 @@ func md5sumTraps(files []*compiler_extra.File, hasVarTrap bool) string {
 	h := md5.New()
 	for _, file := range files {
 		// assume files are stable
-		io.WriteString(h, file.Name)
+		// names are delimited, otherwise different traps may have the same sum
+		io.WriteString(h, "file:"+file.Name+"\n")
 		for _, fn := range file.Funcs {
-			io.WriteString(h, fn.IdentityName)
+			io.WriteString(h, "func:"+fn.IdentityName+"\n")
 		}
 		for _, intf := range file.Interfaces {
-			io.WriteString(h, intf.Name)
+			io.WriteString(h, "interface:"+intf.Name+"\n")
 		}
 	}
 	var v string = "v:0"
-- 
2.43.0


From ddc4efca9201b14d64e984e380887d532fb29a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:28 +0000
Subject: [PATCH 37/55] fix: an interrupted setup, upgrade, reset or delete is
 redone by the next run

xgo-revision.txt marks the instrumented GOROOT as done, but it was left
in place while the GOROOT was being removed, copied or patched again, so
what remained after an interruption was taken as complete.
---
 cmd/xgo/main.go  | 22 ++++++++++++++++++----
 cmd/xgo/patch.go | 25 +++++++++++++++++++++++++
 2 files changed, 43 insertions(+), 4 deletions(-)

diff --git a/cmd/xgo/main.go b/cmd/xgo/main.go
index 5fc29a0..1b79329 100644
--- a/cmd/xgo/main.go
+++ b/cmd/xgo/main.go
@@ -411,10 +411,16 @@ func handleBuild(cmd string, args []string) error {
 	// for cache: /tmp/xgo/go-instrument/go1.21.0
 	instrumentCacheDir = filepath.Join(globalXgoTmpDir, "go-instrument"+instrumentSuffix, mappedInstrumentName)
 
+	revisionFile := filepath.Join(instrumentDir, INSTRUMENT_XGO_REVISION_FILE)
+	fullSyncRecord := filepath.Join(instrumentDir, "full-sync-record.txt")
 	logDebug("instrument dir: %s", instrumentDir)
 	if cmdSetup && deleteFlag {
 		logDebug("delete instrument dir: %s", instrumentDir)
-		err := os.RemoveAll(instrumentDir)
+		err := invalidateInstrument(revisionFile, fullSyncRecord)
+		if err != nil {
+			return err
+		}
+		err = os.RemoveAll(instrumentDir)
 		if err != nil {
 			return err
 		}
@@ -464,8 +470,6 @@ func handleBuild(cmd string, args []string) error {
 	// we no longer need separate build cache
 	// but we need to separate it from normal GOCACHE
 	buildCacheDir := filepath.Join(instrumentCacheDir, "build-cache")
-	revisionFile := filepath.Join(instrumentDir, INSTRUMENT_XGO_REVISION_FILE)
-	fullSyncRecord := filepath.Join(instrumentDir, "full-sync-record.txt")
 
 	err = os.MkdirAll(buildCacheDir, 0755)
 	if err != nil {
@@ -515,7 +519,11 @@ func handleBuild(cmd string, args []string) error {
 		if resetInstrument {
 			if !instrumented {
 				logDebug("reset instrument %s", instrumentDir)
-				err := os.RemoveAll(instrumentDir)
+				err := invalidateInstrument(revisionFile, fullSyncRecord)
+				if err != nil {
+					return err
+				}
+				err = os.RemoveAll(instrumentDir)
 				if err != nil {
 					return err
 				}
@@ -544,6 +552,12 @@ func handleBuild(cmd string, args []string) error {
 		}
 
 		resetOrRevisionChanged := resetInstrument || buildCompiler || coreRevisionChanged || instrumentedGorootNeedRecreate
+		if resetOrRevisionChanged || opts.patchGorootInPlace {
+			err := clearRevision(revisionFile)
+			if err != nil {
+				return err
+			}
+		}
 		if opts.patchGorootInPlace || isDevelopment || resetOrRevisionChanged {
 			if !opts.patchGorootInPlace && (instrumentedGorootNeedRecreate || !instrumented) {
 				if cmdSetup && flagV {
diff --git a/cmd/xgo/patch.go b/cmd/xgo/patch.go
index d477740..2b07acb 100644
--- a/cmd/xgo/patch.go
+++ b/cmd/xgo/patch.go
@@ -170,6 +170,31 @@ func checkRevisionChanged(coreRevisionFile string, currentCoreRevision string) (
 	return false, nil
 }
 
+// clearRevision empties the recorded revision, so that if anything done to the
+// instrumented GOROOT from now on gets interrupted, next run will redo it.
+// NOTE: the file is not removed, its existence marks the GOROOT as instrumented
+func clearRevision(coreRevisionFile string) error {
+	err := os.Truncate(coreRevisionFile, 0)
+	if err != nil && !errors.Is(err, os.ErrNotExist) {
+		return err
+	}
+	return nil
+}
+
+// invalidateInstrument must be called before removing the instrument dir: if the
+// removal gets interrupted, what remains must not be taken as complete
+func invalidateInstrument(coreRevisionFile string, fullSyncRecordFile string) error {
+	err := clearRevision(coreRevisionFile)
+	if err != nil {
+		return err
+	}
+	err = os.Remove(fullSyncRecordFile)
+	if err != nil && !errors.Is(err, os.ErrNotExist) {
+		return err
+	}
+	return nil
+}
+
 func readOrEmpty(file string) (string, error) {
 	version, err := os.ReadFile(file)
 	if err != nil {
-- 
2.43.0


From f7216d1132a0694617d7e19fbe765e544516928e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:29 +0000
Subject: [PATCH 38/55] fix: an interrupted extraction of the runtime is redone
 by the next run

core/version.go is extracted early, and its presence alone makes the next
run skip the extraction.
---
 cmd/xgo/trace.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/cmd/xgo/trace.go b/cmd/xgo/trace.go
index 37ac2ff..da8fb21 100644
--- a/cmd/xgo/trace.go
+++ b/cmd/xgo/trace.go
@@ -262,11 +262,20 @@ func loadDependency(goroot string, goBinary string, goVersion *goinfo.GoVersion,
 		//  cache copy
 		if !skipFullCopy {
 			logDebug("extracting runtime from xgo to %s", tmpRuntime)
-			err := os.RemoveAll(tmpRuntime)
+			// the version file tells that the runtime is complete,
+			// so remove it first and write it last
+			versionFile := filepath.Join(tmpRuntime, filepath.Join(runtimeVersionPath...))
+			err := os.Remove(versionFile)
+			if err != nil && !os.IsNotExist(err) {
+				return nil, err
+			}
+			err = os.RemoveAll(tmpRuntime)
 			if err != nil {
 				return nil, err
 			}
-			err = instrument_embed.CopyDir(asset.RuntimeGenFS, asset.RuntimeGen, tmpRuntime, instrument_embed.CopyOptions{})
+			err = instrument_embed.CopyDir(asset.RuntimeGenFS, asset.RuntimeGen, tmpRuntime, instrument_embed.CopyOptions{
+				IgnorePaths: []string{joinEmbedPath(runtimeVersionPath)},
+			})
 			if err != nil {
 				return nil, err
 			}
@@ -274,6 +283,14 @@ func loadDependency(goroot string, goBinary string, goVersion *goinfo.GoVersion,
 			if err != nil {
 				return nil, err
 			}
+			versionContent, err := asset.RuntimeGenFS.ReadFile(concatEmbedPath(asset.RuntimeGen, joinEmbedPath(runtimeVersionPath)))
+			if err != nil {
+				return nil, err
+			}
+			err = os.WriteFile(versionFile, versionContent, 0755)
+			if err != nil {
+				return nil, err
+			}
 		} else {
 			// always copy trace.go because it will be instrumented
 			logDebug("extracting runtime/trace/trace.go from xgo to %s", tmpRuntime)
@@ -445,9 +462,12 @@ func readRuntimeGenFile(xgoSrc string, path []string) ([]byte, error) {
 	return asset.RuntimeGenFS.ReadFile(asset.RuntimeGen + "/" + strings.Join(path, "/"))
 }
 
+// the file recording version of the runtime
+var runtimeVersionPath = []string{"core", "version.go"}
+
 func needCopyRuntimeFromXgo(targetRuntimeDir string) (bool, error) {
 	// compare version
-	versionFilePath := []string{"core", "version.go"}
+	versionFilePath := runtimeVersionPath
 
 	fsVersionFile := filepath.Join(targetRuntimeDir, filepath.Join(versionFilePath...))
 	fsVersion, readFsVersionErr := os.ReadFile(fsVersionFile)
-- 
2.43.0


From f1a2c952e3853a7f283ec485fa9b083879385051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:02 +0000
Subject: [PATCH 39/55] fix: filecopy follows relative and chained links to the
 source, and reports errors of the last files

A link to the source was read once and taken as relative to the working
directory; a link to a link made an empty copy. With several workers, an
error reported after the last file was sent got lost.
---
 support/filecopy/copy.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/support/filecopy/copy.go b/support/filecopy/copy.go
index 366faac..213b098 100644
--- a/support/filecopy/copy.go
+++ b/support/filecopy/copy.go
@@ -220,6 +220,13 @@ func copyReplaceDir(srcDir string, targetDir string, opts *Options) error {
 	close(ch)
 	// NOTE: must wait all goroutines to finish
 	wg.Wait()
+	if err == nil {
+		// an error may be reported after the last file is sent
+		select {
+		case err = <-errCh:
+		default:
+		}
+	}
 
 	// fmt.Printf("copied: %d\n", atomic.LoadInt64(&added))
 	return err
@@ -255,7 +262,8 @@ func copyDirHandle(srcDir string, targetAbsDir string, opts *copyOptions, handle
 		// example:
 		//   - link: C:\hostedtoolcache\windows\go\1.24.2\x64
 		//   - resolved: D:\hostedtoolcache\windows\go\1.24.2\x64\
-		linkDir, err := os.Readlink(srcDir)
+		// NOTE: the link may be relative, or point to another link
+		linkDir, err := filepath.EvalSymlinks(srcDir)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From cf469fa056c70ab74a584e6df27afc6d4b43907d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:40 +0000
Subject: [PATCH 40/55] fix: coverage profiles with \r\n line ends or appended
 to one another keep their counts

---
 support/coverage/parse.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/support/coverage/parse.go b/support/coverage/parse.go
index 9aea086..8fa95d2 100644
--- a/support/coverage/parse.go
+++ b/support/coverage/parse.go
@@ -20,6 +20,11 @@ func Parse(content string) (mode string, covLines []*CovLine) {
 	}
 	covLines = make([]*CovLine, 0, len(lines))
 	for _, line := range lines {
+		line = strings.TrimSuffix(line, "\r")
+		if strings.HasPrefix(line, modePrefix) {
+			// profiles appended one after another
+			continue
+		}
 		covLine := ParseCovLine(line)
 		if covLine == nil {
 			continue
-- 
2.43.0


From 622c5ee5d88145ab822775557378b727d78ac676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:52 +0000
Subject: [PATCH 41/55] fix: an interceptor mocking a variable's address by
 name reports its error, and nil mocks of variables are refused as those of
 functions

---
 runtime/internal/trap/mock.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/runtime/internal/trap/mock.go b/runtime/internal/trap/mock.go
index db44e55..1a4f962 100644
--- a/runtime/internal/trap/mock.go
+++ b/runtime/internal/trap/mock.go
@@ -59,6 +59,9 @@ func PushMockByName(pkgPath string, funcName string, interceptor Interceptor) fu
 	recvPtr, funcInfo, _, trappingPC := getFuncByName(pkgPath, funcName)
 	if funcInfo.Kind == core.Kind_Var || funcInfo.Kind == core.Kind_VarPtr || funcInfo.Kind == core.Kind_Const {
 		if strings.HasPrefix(funcName, "*") {
+			if interceptor == nil {
+				panic("interceptor is nil")
+			}
 			// type: fun() *T
 			handler := func(fnInfo *core.FuncInfo, res interface{}) {
 				var argObj object
@@ -68,7 +71,10 @@ func PushMockByName(pkgPath string, funcName string, interceptor Interceptor) fu
 						valPtr: res,
 					},
 				}
-				interceptor(context.Background(), fnInfo, argObj, resObject)
+				err := interceptor(context.Background(), fnInfo, argObj, resObject)
+				if err != nil && err != ErrMocked {
+					panic(err)
+				}
 			}
 			return pushVarPtrMockHandler(reflect.ValueOf(funcInfo.Var).Pointer(), handler)
 		}
@@ -92,6 +98,9 @@ func pushMockInterceptor(fn interface{}, interceptor Interceptor) func() {
 		if funcInfo == nil {
 			panic(fmt.Errorf("variable %w: %v", ErrNotInstrumented, varPtr))
 		}
+		if interceptor == nil {
+			panic("interceptor is nil")
+		}
 		// variable
 		handler := func(fnInfo *core.FuncInfo, res interface{}) {
 			var argObj object
@@ -132,6 +141,9 @@ func pushMockReplacer(fn interface{}, replacer interface{}) func() {
 		// variable
 		replacerVal := reflect.ValueOf(replacer)
 		isPtr := checkVarType(fnv.Type(), replacerVal.Type(), true)
+		if replacerVal.IsNil() {
+			panic("replacer is nil")
+		}
 		handler := func(fnInfo *core.FuncInfo, res interface{}) {
 			mockRes := replacerVal.Call([]reflect.Value{})
 			reflect.ValueOf(res).Elem().Set(mockRes[0])
@@ -290,6 +302,9 @@ func pushMockReplacerByName(pkgPath string, funcName string, replacer interface{
 			if t != wantPtrType {
 				panic(fmt.Errorf("replacer to value ptr should have type: `%s`, actual: `%s`", wantPtrType, t))
 			}
+			if reflect.ValueOf(replacer).IsNil() {
+				panic("replacer is nil")
+			}
 			handler := func(fnInfo *core.FuncInfo, res interface{}) {
 				fnRes := reflect.ValueOf(replacer).Call([]reflect.Value{})
 				reflect.ValueOf(res).Elem().Set(fnRes[0])
-- 
2.43.0


From 3b31707eb66b49fcaacc8745844705f4eb6e908f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:57 +0000
Subject: [PATCH 42/55] fix: the JSON of an exported stack may be asked for
 concurrently

---
 runtime/internal/trap/trap.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/runtime/internal/trap/trap.go b/runtime/internal/trap/trap.go
index 0147188..edc6dc4 100644
--- a/runtime/internal/trap/trap.go
+++ b/runtime/internal/trap/trap.go
@@ -7,7 +7,7 @@ import (
 	"path/filepath"
 	"reflect"
 	"runtime"
-	"sync/atomic"
+	"sync"
 	"testing"
 	"time"
 	"unsafe"
@@ -485,8 +485,8 @@ func callMock(mock func(fnInfo *core.FuncInfo, recvPtr interface{}, args []inter
 type StackDataExportImpl struct {
 	data *stack_model.Stack
 
-	jsonCached int32
-	json       []byte
+	jsonOnce sync.Once
+	json     []byte
 }
 
 func (c *StackDataExportImpl) Data() *stack_model.Stack {
@@ -494,10 +494,8 @@ func (c *StackDataExportImpl) Data() *stack_model.Stack {
 }
 
 func (c *StackDataExportImpl) JSON() ([]byte, error) {
-	if atomic.LoadInt32(&c.jsonCached) == 1 {
-		return c.json, nil
-	}
-	c.json = xgo_runtime.MarshalNoError(c.data)
-	atomic.StoreInt32(&c.jsonCached, 1)
+	c.jsonOnce.Do(func() {
+		c.json = xgo_runtime.MarshalNoError(c.data)
+	})
 	return c.json, nil
 }
-- 
2.43.0


From 645a8751e7d61d6fd13d773b35ff7cc2fe6aa04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:21 +0000
Subject: [PATCH 43/55] fix: long values and failing values in traces are
 quoted as JSON, not as Go strings

---
 runtime/internal/runtime/marshal.go | 14 ++++++++++++--
 runtime/internal/trap/object.go     |  2 +-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/runtime/internal/runtime/marshal.go b/runtime/internal/runtime/marshal.go
index 4b2e97e..2863ca3 100644
--- a/runtime/internal/runtime/marshal.go
+++ b/runtime/internal/runtime/marshal.go
@@ -27,12 +27,22 @@ func MarshalNoError(v interface{}) (result []byte) {
 		}
 		var qstackTrace string
 		if len(stackTrace) > 0 {
-			qstackTrace = fmt.Sprintf(", %q: %q", "stackTrace", string(stackTrace))
+			qstackTrace = fmt.Sprintf(", %q: %s", "stackTrace", QuoteJSON(string(stackTrace)))
 		}
 		if err != nil {
-			result = []byte(fmt.Sprintf("{%q: %q%s}", "error", err.Error(), qstackTrace))
+			result = []byte(fmt.Sprintf("{%q: %s%s}", "error", QuoteJSON(err.Error()), qstackTrace))
 		}
 	}()
 	result, err = json.Marshal(v)
 	return
 }
+
+// QuoteJSON returns s as a JSON string, unlike %q, whose
+// escapes like \x1b are not valid in JSON
+func QuoteJSON(s string) string {
+	data, err := json.Marshal(s)
+	if err != nil {
+		return `""`
+	}
+	return string(data)
+}
diff --git a/runtime/internal/trap/object.go b/runtime/internal/trap/object.go
index 29ed304..4d66d35 100644
--- a/runtime/internal/trap/object.go
+++ b/runtime/internal/trap/object.go
@@ -112,7 +112,7 @@ func (c *structValue) MarshalJSON() ([]byte, error) {
 		}
 		res := runtime.MarshalNoError(c.Values[i])
 		if len(res) > DEFAULT_SIZE_LIMIT {
-			fields[i] = fmt.Sprintf("%q: %q", fieldName, string(res[:DEFAULT_SIZE_LIMIT]))
+			fields[i] = fmt.Sprintf("%q: %s", fieldName, runtime.QuoteJSON(string(res[:DEFAULT_SIZE_LIMIT])))
 		} else {
 			fields[i] = fmt.Sprintf("%q: %s", fieldName, res)
 		}
-- 
2.43.0


From 9163c9c7d15d7132d3ed22c6131f0a3328113480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:21 +0000
Subject: [PATCH 44/55] fix: tracing survives errors whose Error method panics

---
 runtime/internal/runtime/marshal.go | 13 ++++++++++++-
 runtime/internal/trap/trap.go       |  2 +-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/runtime/internal/runtime/marshal.go b/runtime/internal/runtime/marshal.go
index 2863ca3..b4b2cbd 100644
--- a/runtime/internal/runtime/marshal.go
+++ b/runtime/internal/runtime/marshal.go
@@ -30,7 +30,7 @@ func MarshalNoError(v interface{}) (result []byte) {
 			qstackTrace = fmt.Sprintf(", %q: %s", "stackTrace", QuoteJSON(string(stackTrace)))
 		}
 		if err != nil {
-			result = []byte(fmt.Sprintf("{%q: %s%s}", "error", QuoteJSON(err.Error()), qstackTrace))
+			result = []byte(fmt.Sprintf("{%q: %s%s}", "error", QuoteJSON(ErrorString(err)), qstackTrace))
 		}
 	}()
 	result, err = json.Marshal(v)
@@ -46,3 +46,14 @@ func QuoteJSON(s string) string {
 	}
 	return string(data)
 }
+
+// ErrorString returns the message of err, whose Error method
+// may panic, for example if err is a nil pointer
+func ErrorString(err error) (msg string) {
+	defer func() {
+		if e := recover(); e != nil {
+			msg = fmt.Sprintf("panic: %v", e)
+		}
+	}()
+	return err.Error()
+}
diff --git a/runtime/internal/trap/trap.go b/runtime/internal/trap/trap.go
index edc6dc4..95da887 100644
--- a/runtime/internal/trap/trap.go
+++ b/runtime/internal/trap/trap.go
@@ -399,7 +399,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		resultNamesNoErr, resultsNoErr, resErr := trySplitLastError(resultNames, results)
 		resultsJSON := json.RawMessage(xgo_runtime.MarshalNoError(newStructValue(resultNamesNoErr, resultsNoErr)))
 		if !hasPanic && resErr != nil {
-			errStr = resErr.Error()
+			errStr = xgo_runtime.ErrorString(resErr)
 		}
 
 		// Relative end time outside lock (time methods may trap / deadlock).
-- 
2.43.0


From 1618749ad3ee2e698ef934941e391d5c799580c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:36 +0000
Subject: [PATCH 45/55] fix: xgo tool trace ends on a damaged trace file
 instead of reading it forever

---
 cmd/xgo/trace/render/render.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cmd/xgo/trace/render/render.go b/cmd/xgo/trace/render/render.go
index 53aa58f..ddce880 100644
--- a/cmd/xgo/trace/render/render.go
+++ b/cmd/xgo/trace/render/render.go
@@ -47,14 +47,17 @@ func readStacksFromReader(reader io.Reader, force bool) ([]*stack_model.Stack, b
 			if err == io.EOF {
 				break
 			}
-			stack = stack_model.Stack{
+			stacks = append(stacks, &stack_model.Stack{
 				Begin: time.Now().Format(time.RFC3339),
 				Children: []*stack_model.StackEntry{
 					{
 						Error: fmt.Sprintf("parse stack: %v", err),
 					},
 				},
-			}
+			})
+			// the decoder cannot go past the error: it
+			// returns the same one again and again
+			break
 		}
 		stacks = append(stacks, &stack)
 	}
-- 
2.43.0


From cebc9990b96d2639eac99cce2c6dc4203e6f7320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:36 +0000
Subject: [PATCH 46/55] fix: xgo tool trace shows integers of legacy traces as
 they are

---
 cmd/xgo/trace/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/xgo/trace/main.go b/cmd/xgo/trace/main.go
index 141c484..203bdab 100644
--- a/cmd/xgo/trace/main.go
+++ b/cmd/xgo/trace/main.go
@@ -1,6 +1,7 @@
 package trace
 
 import (
+	"bytes"
 	_ "embed"
 	"encoding/json"
 	"fmt"
@@ -211,7 +212,10 @@ func parseRecord(file string) (*RootExport, error) {
 		return nil, err
 	}
 	var root *RootExport
-	err = json.Unmarshal(data, &root)
+	// like render.ReadStacks, keep integers as they are
+	decoder := json.NewDecoder(bytes.NewReader(data))
+	decoder.UseNumber()
+	err = decoder.Decode(&root)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 0a076efaecf58e30f62f9c6fec720e343c60eed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:36 +0000
Subject: [PATCH 47/55] fix: xgo tool trace shows the name of the file as text

---
 cmd/xgo/trace/render/render.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/xgo/trace/render/render.go b/cmd/xgo/trace/render/render.go
index ddce880..5b88dae 100644
--- a/cmd/xgo/trace/render/render.go
+++ b/cmd/xgo/trace/render/render.go
@@ -3,6 +3,7 @@ package render
 import (
 	"encoding/json"
 	"fmt"
+	"html"
 	"io"
 	"os"
 	"strings"
@@ -98,7 +99,7 @@ func RenderStacks(stacks []*stack_model.Stack, file string, w io.Writer) (err er
 	<head>
 		<meta charset="UTF-8">
 		<meta name="viewport" content="width=device-width, initial-scale=1.0">
-		<title>Trace of ` + file + `</title>
+		<title>Trace of ` + html.EscapeString(file) + `</title>
 	</head>
 	<body style="height: 100%;">
 	`,
-- 
2.43.0


From cb8fe57a48fafad69414d055467ed779454627aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:36 +0000
Subject: [PATCH 48/55] fix: xgo tool coverage serve and load tell when an
 option lacks its argument

---
 cmd/xgo/coverage/serve.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/cmd/xgo/coverage/serve.go b/cmd/xgo/coverage/serve.go
index 5f2031a..283c59d 100644
--- a/cmd/xgo/coverage/serve.go
+++ b/cmd/xgo/coverage/serve.go
@@ -36,7 +36,7 @@ func handleServe(cmd string, args []string) error {
 			break
 		}
 		if arg == "--bind" {
-			if i+1 > n {
+			if i+1 >= n {
 				return fmt.Errorf("%s requires arg", arg)
 			}
 			bind = args[i+1]
@@ -44,7 +44,7 @@ func handleServe(cmd string, args []string) error {
 			continue
 		}
 		if arg == "--port" {
-			if i+1 > n {
+			if i+1 >= n {
 				return fmt.Errorf("%s requires arg", arg)
 			}
 			port = args[i+1]
@@ -52,7 +52,7 @@ func handleServe(cmd string, args []string) error {
 			continue
 		}
 		if arg == "--project-dir" {
-			if i+1 > n {
+			if i+1 >= n {
 				return fmt.Errorf("%s requires arg", arg)
 			}
 			projectDir = args[i+1]
@@ -61,7 +61,7 @@ func handleServe(cmd string, args []string) error {
 		}
 
 		if arg == "--include" {
-			if i+1 > n {
+			if i+1 >= n {
 				return fmt.Errorf("%s requires arg", arg)
 			}
 			include = append(include, args[i+1])
@@ -69,7 +69,7 @@ func handleServe(cmd string, args []string) error {
 			continue
 		}
 		if arg == "--exclude" {
-			if i+1 > n {
+			if i+1 >= n {
 				return fmt.Errorf("%s requires arg", arg)
 			}
 			exclude = append(exclude, args[i+1])
@@ -77,7 +77,7 @@ func handleServe(cmd string, args []string) error {
 			continue
 		}
 		if arg == "--build-arg" || arg == "--build-args" {
-			if i+1 > n {
+			if i+1 >= n {
 				return fmt.Errorf("%s requires arg", arg)
 			}
 			buildArgs = append(buildArgs, args[i+1])
@@ -85,7 +85,7 @@ func handleServe(cmd string, args []string) error {
 			continue
 		}
 		if arg == "--diff-with" {
-			if i+1 > n {
+			if i+1 >= n {
 				return fmt.Errorf("%s requires arg", arg)
 			}
 			if args[i+1] == "" {
-- 
2.43.0


From bfb70caa2ac7d2f0772683a604b7fe85fe40a290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:25 +0000
Subject: [PATCH 49/55] fix: the runtime embedded in xgo is generated again
 from the fixed runtime

---
 .../runtime_gen/internal/runtime/marshal.go   | 25 +++++++-
 .../asset/runtime_gen/internal/trap/init.go   |  5 +-
 .../runtime_gen/internal/trap/interceptor.go  |  4 +-
 .../asset/runtime_gen/internal/trap/mock.go   | 33 ++++++++---
 .../asset/runtime_gen/internal/trap/object.go |  4 +-
 .../asset/runtime_gen/internal/trap/record.go | 16 ++---
 .../runtime_gen/internal/trap/stack_data.go   | 41 ++++++++++---
 .../asset/runtime_gen/internal/trap/trap.go   | 58 +++++++++++++------
 .../asset/runtime_gen/internal/trap/var.go    |  2 +
 9 files changed, 139 insertions(+), 49 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/runtime/marshal.go b/cmd/xgo/asset/runtime_gen/internal/runtime/marshal.go
index 4b2e97e..b4b2cbd 100755
--- a/cmd/xgo/asset/runtime_gen/internal/runtime/marshal.go
+++ b/cmd/xgo/asset/runtime_gen/internal/runtime/marshal.go
@@ -27,12 +27,33 @@ func MarshalNoError(v interface{}) (result []byte) {
 		}
 		var qstackTrace string
 		if len(stackTrace) > 0 {
-			qstackTrace = fmt.Sprintf(", %q: %q", "stackTrace", string(stackTrace))
+			qstackTrace = fmt.Sprintf(", %q: %s", "stackTrace", QuoteJSON(string(stackTrace)))
 		}
 		if err != nil {
-			result = []byte(fmt.Sprintf("{%q: %q%s}", "error", err.Error(), qstackTrace))
+			result = []byte(fmt.Sprintf("{%q: %s%s}", "error", QuoteJSON(ErrorString(err)), qstackTrace))
 		}
 	}()
 	result, err = json.Marshal(v)
 	return
 }
+
+// QuoteJSON returns s as a JSON string, unlike %q, whose
+// escapes like \x1b are not valid in JSON
+func QuoteJSON(s string) string {
+	data, err := json.Marshal(s)
+	if err != nil {
+		return `""`
+	}
+	return string(data)
+}
+
+// ErrorString returns the message of err, whose Error method
+// may panic, for example if err is a nil pointer
+func ErrorString(err error) (msg string) {
+	defer func() {
+		if e := recover(); e != nil {
+			msg = fmt.Sprintf("panic: %v", e)
+		}
+	}()
+	return err.Error()
+}
diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/init.go b/cmd/xgo/asset/runtime_gen/internal/trap/init.go
index ec2d5e8..509e16c 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/init.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/init.go
@@ -113,8 +113,9 @@ func cloneFuncRecordMapping(recorders map[uintptr][]*recorderHolder) map[uintptr
 		newRecorders[pc] = make([]*recorderHolder, len(recorders))
 		for i, recorder := range recorders {
 			newRecorders[pc][i] = &recorderHolder{
-				pre:  recorder.pre,
-				post: recorder.post,
+				wantRecvPtr: recorder.wantRecvPtr,
+				pre:         recorder.pre,
+				post:        recorder.post,
 			}
 		}
 	}
diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/interceptor.go b/cmd/xgo/asset/runtime_gen/internal/trap/interceptor.go
index 588e3eb..0523f9c 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/interceptor.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/interceptor.go
@@ -56,13 +56,13 @@ func pushInterceptor(pre PreInterceptor, post PostInterceptor) func() {
 		list := holder.interceptors
 		n := len(list)
 		if list[n-1] == h {
-			holder.interceptors = list[:n-1]
+			holder.interceptors = list[: n-1 : n-1]
 			return
 		}
 		// remove at some index
 		for i, m := range list {
 			if m == h {
-				holder.interceptors = append(list[:i], list[i+1:]...)
+				holder.interceptors = append(list[:i:i], list[i+1:]...)
 				return
 			}
 		}
diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/mock.go b/cmd/xgo/asset/runtime_gen/internal/trap/mock.go
index e6b4a9b..1a4f962 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/mock.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/mock.go
@@ -59,6 +59,9 @@ func PushMockByName(pkgPath string, funcName string, interceptor Interceptor) fu
 	recvPtr, funcInfo, _, trappingPC := getFuncByName(pkgPath, funcName)
 	if funcInfo.Kind == core.Kind_Var || funcInfo.Kind == core.Kind_VarPtr || funcInfo.Kind == core.Kind_Const {
 		if strings.HasPrefix(funcName, "*") {
+			if interceptor == nil {
+				panic("interceptor is nil")
+			}
 			// type: fun() *T
 			handler := func(fnInfo *core.FuncInfo, res interface{}) {
 				var argObj object
@@ -68,7 +71,10 @@ func PushMockByName(pkgPath string, funcName string, interceptor Interceptor) fu
 						valPtr: res,
 					},
 				}
-				interceptor(context.Background(), fnInfo, argObj, resObject)
+				err := interceptor(context.Background(), fnInfo, argObj, resObject)
+				if err != nil && err != ErrMocked {
+					panic(err)
+				}
 			}
 			return pushVarPtrMockHandler(reflect.ValueOf(funcInfo.Var).Pointer(), handler)
 		}
@@ -92,6 +98,9 @@ func pushMockInterceptor(fn interface{}, interceptor Interceptor) func() {
 		if funcInfo == nil {
 			panic(fmt.Errorf("variable %w: %v", ErrNotInstrumented, varPtr))
 		}
+		if interceptor == nil {
+			panic("interceptor is nil")
+		}
 		// variable
 		handler := func(fnInfo *core.FuncInfo, res interface{}) {
 			var argObj object
@@ -132,6 +141,9 @@ func pushMockReplacer(fn interface{}, replacer interface{}) func() {
 		// variable
 		replacerVal := reflect.ValueOf(replacer)
 		isPtr := checkVarType(fnv.Type(), replacerVal.Type(), true)
+		if replacerVal.IsNil() {
+			panic("replacer is nil")
+		}
 		handler := func(fnInfo *core.FuncInfo, res interface{}) {
 			mockRes := replacerVal.Call([]reflect.Value{})
 			reflect.ValueOf(res).Elem().Set(mockRes[0])
@@ -185,13 +197,13 @@ func pushMockHandler(pc uintptr, recvPtr interface{}, handler func(fnInfo *core.
 		list := holder.mock[pc]
 		n := len(list)
 		if list[n-1] == h {
-			holder.mock[pc] = list[:n-1]
+			holder.mock[pc] = list[: n-1 : n-1]
 			return
 		}
 		// remove at some index
 		for i, m := range list {
 			if m == h {
-				holder.mock[pc] = append(list[:i], list[i+1:]...)
+				holder.mock[pc] = append(list[:i:i], list[i+1:]...)
 				return
 			}
 		}
@@ -217,13 +229,13 @@ func pushVarMockHandler(varAddr uintptr, mock func(fnInfo *core.FuncInfo, res in
 		list := holder.varMock[varAddr]
 		n := len(list)
 		if list[n-1] == h {
-			holder.varMock[varAddr] = list[:n-1]
+			holder.varMock[varAddr] = list[: n-1 : n-1]
 			return
 		}
 		// remove at some index
 		for i, m := range list {
 			if m == h {
-				holder.varMock[varAddr] = append(list[:i], list[i+1:]...)
+				holder.varMock[varAddr] = append(list[:i:i], list[i+1:]...)
 				return
 			}
 		}
@@ -249,13 +261,13 @@ func pushVarPtrMockHandler(varAddr uintptr, mock func(fnInfo *core.FuncInfo, res
 		list := holder.varPtrMock[varAddr]
 		n := len(list)
 		if list[n-1] == h {
-			holder.varPtrMock[varAddr] = list[:n-1]
+			holder.varPtrMock[varAddr] = list[: n-1 : n-1]
 			return
 		}
 		// remove at some index
 		for i, m := range list {
 			if m == h {
-				holder.varPtrMock[varAddr] = append(list[:i], list[i+1:]...)
+				holder.varPtrMock[varAddr] = append(list[:i:i], list[i+1:]...)
 				return
 			}
 		}
@@ -290,6 +302,9 @@ func pushMockReplacerByName(pkgPath string, funcName string, replacer interface{
 			if t != wantPtrType {
 				panic(fmt.Errorf("replacer to value ptr should have type: `%s`, actual: `%s`", wantPtrType, t))
 			}
+			if reflect.ValueOf(replacer).IsNil() {
+				panic("replacer is nil")
+			}
 			handler := func(fnInfo *core.FuncInfo, res interface{}) {
 				fnRes := reflect.ValueOf(replacer).Call([]reflect.Value{})
 				reflect.ValueOf(res).Elem().Set(fnRes[0])
@@ -364,6 +379,10 @@ func sameReceiver(recvPtr interface{}, actRecvPtr interface{}) bool {
 	// assume both are non-nil
 	recvPtrVal := reflect.ValueOf(recvPtr)
 	actRecvPtrVal := reflect.ValueOf(actRecvPtr)
+	if !recvPtrVal.Type().Elem().Comparable() {
+		// comparing with == panics
+		return reflect.DeepEqual(recvPtrVal.Elem().Interface(), actRecvPtrVal.Elem().Interface())
+	}
 	return recvPtrVal.Elem().Interface() == actRecvPtrVal.Elem().Interface()
 }
 
diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/object.go b/cmd/xgo/asset/runtime_gen/internal/trap/object.go
index 831bf43..4d66d35 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/object.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/object.go
@@ -112,7 +112,7 @@ func (c *structValue) MarshalJSON() ([]byte, error) {
 		}
 		res := runtime.MarshalNoError(c.Values[i])
 		if len(res) > DEFAULT_SIZE_LIMIT {
-			fields[i] = fmt.Sprintf("%q: %q", fieldName, string(res[:DEFAULT_SIZE_LIMIT]))
+			fields[i] = fmt.Sprintf("%q: %s", fieldName, runtime.QuoteJSON(string(res[:DEFAULT_SIZE_LIMIT])))
 		} else {
 			fields[i] = fmt.Sprintf("%q: %s", fieldName, res)
 		}
@@ -168,7 +168,7 @@ func checkFuncTypeMatch(a reflect.Type, b reflect.Type, skipAFirst bool) (atype
 		return formatFuncType(a, skipAFirst), formatFuncType(b, false), false
 	}
 
-	for i := 0; i < na; i++ {
+	for i := 0; i < nb; i++ {
 		ta := a.In(i + base)
 		tb := b.In(i)
 		if ta != tb {
diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/record.go b/cmd/xgo/asset/runtime_gen/internal/trap/record.go
index fcea21d..9f58bf6 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/record.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/record.go
@@ -56,11 +56,11 @@ func pushRecorder(fn interface{}, pre interface{}, post interface{}) func() {
 				postV.Call([]reflect.Value{arg})
 			}
 		}
-		if pre != nil && post != nil && preIsPtr == postIsPtr {
+		if pre != nil && post != nil && preIsPtr != postIsPtr {
 			panic(fmt.Errorf("pre-recorder and post-recorder should have the same type, actual: pre has %T, post has %T", pre, post))
 		}
 
-		if !preIsPtr {
+		if !preIsPtr && !postIsPtr {
 			return PushVarRecordHandler(varPtr, preHandler, postHandler)
 		}
 		return PushVarPtrRecordHandler(varPtr, preHandler, postHandler)
@@ -155,13 +155,13 @@ func PushRecordHandler(pc uintptr, recvPtr interface{}, pre func(fnInfo *core.Fu
 		list := holder.recorder[pc]
 		n := len(list)
 		if list[n-1] == h {
-			holder.recorder[pc] = list[:n-1]
+			holder.recorder[pc] = list[: n-1 : n-1]
 			return
 		}
 		// remove at some index
 		for i, m := range list {
 			if m == h {
-				holder.recorder[pc] = append(list[:i], list[i+1:]...)
+				holder.recorder[pc] = append(list[:i:i], list[i+1:]...)
 				return
 			}
 		}
@@ -187,13 +187,13 @@ func PushVarRecordHandler(varAddr uintptr, pre func(fnInfo *core.FuncInfo, res i
 		list := holder.varRecorder[varAddr]
 		n := len(list)
 		if list[n-1] == h {
-			holder.varRecorder[varAddr] = list[:n-1]
+			holder.varRecorder[varAddr] = list[: n-1 : n-1]
 			return
 		}
 		// remove at some index
 		for i, m := range list {
 			if m == h {
-				holder.varRecorder[varAddr] = append(list[:i], list[i+1:]...)
+				holder.varRecorder[varAddr] = append(list[:i:i], list[i+1:]...)
 				return
 			}
 		}
@@ -219,13 +219,13 @@ func PushVarPtrRecordHandler(varAddr uintptr, pre func(fnInfo *core.FuncInfo, re
 		list := holder.varPtrRecorder[varAddr]
 		n := len(list)
 		if list[n-1] == h {
-			holder.varPtrRecorder[varAddr] = list[:n-1]
+			holder.varPtrRecorder[varAddr] = list[: n-1 : n-1]
 			return
 		}
 		// remove at some index
 		for i, m := range list {
 			if m == h {
-				holder.varPtrRecorder[varAddr] = append(list[:i], list[i+1:]...)
+				holder.varPtrRecorder[varAddr] = append(list[:i:i], list[i+1:]...)
 				return
 			}
 		}
diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/stack_data.go b/cmd/xgo/asset/runtime_gen/internal/trap/stack_data.go
index 146281c..c01fb7f 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/stack_data.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/stack_data.go
@@ -39,6 +39,21 @@ type interceptorHolders struct {
 	interceptors []*recorderHolder
 }
 
+// stopTracing forgets the trace that was started on this goroutine
+func (c *StackData) stopTracing() {
+	c.hasStartedTracing = false
+	c.filterTrace = nil
+	c.onFinish = nil
+	c.stackOutputFile = ""
+}
+
+// hasAny tells if any handler was set up, it might be cancelled already
+func (c *interceptorHolders) hasAny() bool {
+	return len(c.mock) > 0 || len(c.varMock) > 0 || len(c.varPtrMock) > 0 ||
+		len(c.recorder) > 0 || len(c.varRecorder) > 0 || len(c.varPtrRecorder) > 0 ||
+		len(c.interceptors) > 0
+}
+
 func getStackData() *StackData {
 	return getStackDataOf(stack.Get())
 }
@@ -78,19 +93,27 @@ type varRecordHolder struct {
 	post func(fnInfo *core.FuncInfo, res interface{}, data interface{})
 }
 
-func (c *StackData) getLastMock(pc uintptr) (recvPtr interface{}, mock func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool) {
-	var mockList []*mockHolder
+// getMatchingMock finds the latest mock of the function that applies to
+// the receiver: mocks of other instances are skipped. Mocks of the current
+// goroutine take precedence over global ones.
+func (c *StackData) getMatchingMock(pc uintptr, recvPtr interface{}) (mock func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool) {
 	if c != nil {
-		mockList = c.interceptors.mock[pc]
+		mock = findMatchingMock(c.interceptors.mock[pc], recvPtr)
+		if mock != nil {
+			return mock
+		}
 	}
-	if len(mockList) == 0 {
-		mockList = globalInterceptorHolder.mock[pc]
-		if len(mockList) == 0 {
-			return nil, nil
+	return findMatchingMock(globalInterceptorHolder.mock[pc], recvPtr)
+}
+
+func findMatchingMock(mockList []*mockHolder, recvPtr interface{}) func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool {
+	for i := len(mockList) - 1; i >= 0; i-- {
+		m := mockList[i]
+		if m.wantRecvPtr == nil || (recvPtr != nil && sameReceiver(recvPtr, m.wantRecvPtr)) {
+			return m.mock
 		}
 	}
-	m := mockList[len(mockList)-1]
-	return m.wantRecvPtr, m.mock
+	return nil
 }
 
 func (c *StackData) getLastVarMock(varAddr uintptr) (mock func(fnInfo *core.FuncInfo, res interface{})) {
diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
index 879b509..95da887 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
@@ -7,7 +7,7 @@ import (
 	"path/filepath"
 	"reflect"
 	"runtime"
-	"sync/atomic"
+	"sync"
 	"testing"
 	"time"
 	"unsafe"
@@ -135,7 +135,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	//
 	//
 	// === start check mock and interceptors ===
-	wantPtr, mockFn := stackData.getLastMock(fnPC)
+	mock = stackData.getMatchingMock(fnPC, recvPtr)
 	recordHandlers := stackData.getRecordHandlers(fnPC)
 	var interceptors []*recorderHolder
 	if depth <= 1 {
@@ -148,13 +148,11 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		// targeted function
 		interceptors = stackData.getGeneralInterceptors()
 	}
-	if mockFn != nil && (wantPtr == nil || (recvPtr != nil && sameReceiver(recvPtr, wantPtr))) {
-		mock = mockFn
-	}
 
 	var postRecordersAndInterceptors []func()
 	var mocked bool
 	for _, h := range recordHandlers {
+		h := h // captured by the post closure below
 		if h.wantRecvPtr != nil && (recvPtr == nil || !sameReceiver(recvPtr, h.wantRecvPtr)) {
 			continue
 		}
@@ -176,6 +174,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 
 	if !mocked {
 		for _, h := range interceptors {
+			h := h // captured by the post closure below
 			var data interface{}
 			var stop bool
 			if h.pre != nil {
@@ -229,7 +228,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 			// mock and recorders to run
 			// no tracing and general interceptors can run
 			if mock != nil {
-				ok := mock(funcInfo, recvPtr, args, results)
+				ok := callMock(mock, callRecorderWithDepth, funcInfo, recvPtr, args, results)
 				// ok=true indicates not call old function
 				return callRecorderWithDepth, ok
 			}
@@ -239,7 +238,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		if !allowTracingThisEntry {
 			// without tracing, mock becomes simpler
 			if mock != nil {
-				ok := mock(funcInfo, recvPtr, args, results)
+				ok := callMock(mock, callRecorderWithDepth, funcInfo, recvPtr, args, results)
 				// ok=true indicates not call old function
 				return callRecorderWithDepth, ok
 			}
@@ -298,10 +297,11 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		}
 		stackData.filterTrace = filterTrace
 		if outputFile == "" && onFinish == nil {
+			stackData.stopTracing()
 			if stackAttached {
 				stack.Detach()
 			}
-			return postRecorder, false
+			return callRecorderWithDepth, mocked
 		}
 		stackData.stackOutputFile = outputFile
 		stackData.onFinish = onFinish
@@ -399,7 +399,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		resultNamesNoErr, resultsNoErr, resErr := trySplitLastError(resultNames, results)
 		resultsJSON := json.RawMessage(xgo_runtime.MarshalNoError(newStructValue(resultNamesNoErr, resultsNoErr)))
 		if !hasPanic && resErr != nil {
-			errStr = resErr.Error()
+			errStr = xgo_runtime.ErrorString(resErr)
 		}
 
 		// Relative end time outside lock (time methods may trap / deadlock).
@@ -444,23 +444,49 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 				}
 			}
 			stack.Detach()
+			stackData.stopTracing()
+			if stackData.interceptors.hasAny() {
+				// handlers live until they are cancelled,
+				// or the goroutine exits
+				stack.Attach(&stack.Stack{
+					Begin: end,
+					Data: map[interface{}]interface{}{
+						dataKey: stackData,
+					},
+				})
+			}
 		}
 	}
 	if mocked {
 		hitMock = true
 		return post, true
 	} else if mock != nil {
-		hitMock = mock(funcInfo, recvPtr, args, results)
+		hitMock = true
+		hitMock = callMock(mock, post, funcInfo, recvPtr, args, results)
 		return post, hitMock
 	}
 	return post, false
 }
 
+// callMock calls mock, if it does not return, calls post, which
+// the trapped function has no chance to do then.
+func callMock(mock func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool, post func(), funcInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool {
+	var returned bool
+	defer func() {
+		if !returned && post != nil {
+			post()
+		}
+	}()
+	ok := mock(funcInfo, recvPtr, args, results)
+	returned = true
+	return ok
+}
+
 type StackDataExportImpl struct {
 	data *stack_model.Stack
 
-	jsonCached int32
-	json       []byte
+	jsonOnce sync.Once
+	json     []byte
 }
 
 func (c *StackDataExportImpl) Data() *stack_model.Stack {
@@ -468,10 +494,8 @@ func (c *StackDataExportImpl) Data() *stack_model.Stack {
 }
 
 func (c *StackDataExportImpl) JSON() ([]byte, error) {
-	if atomic.LoadInt32(&c.jsonCached) == 1 {
-		return c.json, nil
-	}
-	c.json = xgo_runtime.MarshalNoError(c.data)
-	atomic.StoreInt32(&c.jsonCached, 1)
+	c.jsonOnce.Do(func() {
+		c.json = xgo_runtime.MarshalNoError(c.data)
+	})
 	return c.json, nil
 }
diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/var.go b/cmd/xgo/asset/runtime_gen/internal/trap/var.go
index 391589a..fb1cdf0 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/var.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/var.go
@@ -109,6 +109,7 @@ func trapVarPtr(infoPtr unsafe.Pointer, varAddr interface{}, res interface{}) {
 func doTrapVar(funcInfo *core.FuncInfo, stk *stack.Stack, begin time.Time, tracing bool, res interface{}, recorders []*varRecordHolder, interceptors []*recorderHolder, mock func(fnInfo *core.FuncInfo, res interface{}), mockRes interface{}) {
 	var postRecorders []func()
 	for _, recorder := range recorders {
+		recorder := recorder // captured by the post closure below
 		var data interface{}
 		if recorder.pre != nil {
 			data, _ = recorder.pre(funcInfo, res)
@@ -122,6 +123,7 @@ func doTrapVar(funcInfo *core.FuncInfo, stk *stack.Stack, begin time.Time, traci
 
 	var postInterceptors []func()
 	for _, interceptor := range interceptors {
+		interceptor := interceptor // captured by the post closure below
 		var data interface{}
 		if interceptor.pre != nil {
 			data, _ = interceptor.pre(funcInfo, nil, nil, []interface{}{res})
-- 
2.43.0


From e4678a0a430737c92cc991ea5f872a66b2da6369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:36 +0000
Subject: [PATCH 50/55] fix: goroutines started by a goroutine outside of a
 traced call are in the trace

---
 cmd/xgo/asset/runtime_gen/internal/stack/stack.go | 10 ++++++----
 runtime/internal/stack/stack.go                   | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/stack/stack.go b/cmd/xgo/asset/runtime_gen/internal/stack/stack.go
index d4e1888..ffa4495 100755
--- a/cmd/xgo/asset/runtime_gen/internal/stack/stack.go
+++ b/cmd/xgo/asset/runtime_gen/internal/stack/stack.go
@@ -152,22 +152,24 @@ func (c *Stack) Finish(cur *Entry, oldTop *Entry, end time.Time, setStackEnd boo
 	c.Depth--
 }
 
-// AppendGoChild attaches a synthetic "go" node under the current Top under lock.
+// AppendGoChild attaches a synthetic "go" node under the current Top under lock,
+// or as a root if the goroutine is in no traced call.
 func (c *Stack) AppendGoChild(beginNs int64, getStack func() *Stack) {
 	if c == nil {
 		return
 	}
 	c.mu.Lock()
 	defer c.mu.Unlock()
-	if c.Top == nil {
-		return
-	}
 	child := &Entry{
 		BeginNs:  beginNs,
 		Go:       true,
 		FuncName: "go",
 		GetStack: getStack,
 	}
+	if c.Top == nil {
+		c.Roots = append(c.Roots, child)
+		return
+	}
 	c.Top.Children = append(c.Top.Children, child)
 }
 
diff --git a/runtime/internal/stack/stack.go b/runtime/internal/stack/stack.go
index d4e1888..ffa4495 100644
--- a/runtime/internal/stack/stack.go
+++ b/runtime/internal/stack/stack.go
@@ -152,22 +152,24 @@ func (c *Stack) Finish(cur *Entry, oldTop *Entry, end time.Time, setStackEnd boo
 	c.Depth--
 }
 
-// AppendGoChild attaches a synthetic "go" node under the current Top under lock.
+// AppendGoChild attaches a synthetic "go" node under the current Top under lock,
+// or as a root if the goroutine is in no traced call.
 func (c *Stack) AppendGoChild(beginNs int64, getStack func() *Stack) {
 	if c == nil {
 		return
 	}
 	c.mu.Lock()
 	defer c.mu.Unlock()
-	if c.Top == nil {
-		return
-	}
 	child := &Entry{
 		BeginNs:  beginNs,
 		Go:       true,
 		FuncName: "go",
 		GetStack: getStack,
 	}
+	if c.Top == nil {
+		c.Roots = append(c.Roots, child)
+		return
+	}
 	c.Top.Children = append(c.Top.Children, child)
 }
 
-- 
2.43.0


From e7a24c7880d584e415c683c7f54bff4b974f9505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:43 +0000
Subject: [PATCH 51/55] fix: full names of functions with type args having
 brackets are parsed

---
 cmd/xgo/asset/runtime_gen/core/func.go | 52 ++++++++++++++++++--------
 runtime/core/func.go                   | 52 ++++++++++++++++++--------
 2 files changed, 74 insertions(+), 30 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/core/func.go b/cmd/xgo/asset/runtime_gen/core/func.go
index 1726112..d03ba9c 100755
--- a/cmd/xgo/asset/runtime_gen/core/func.go
+++ b/cmd/xgo/asset/runtime_gen/core/func.go
@@ -104,11 +104,10 @@ func (c *FuncInfo) DisplayName() string {
 //	recvGeneric
 //	pkgPath
 func ParseFuncName(fullName string) (pkgPath string, recvName string, recvPtr bool, typeGeneric string, funcGeneric string, funcName string) {
-	sepIdx := strings.LastIndex(fullName, "/")
 	pkg_recv_func_no_generic := fullName
 	// func generic
 	if strings.HasSuffix(pkg_recv_func_no_generic, "]") {
-		leftIdx := strings.LastIndex(pkg_recv_func_no_generic, "[")
+		leftIdx := indexTypeArgs(pkg_recv_func_no_generic)
 		if leftIdx < 0 {
 			// invalid
 			return
@@ -132,8 +131,9 @@ func ParseFuncName(fullName string) (pkgPath string, recvName string, recvPtr bo
 	pkg_recv_generic := pkg_recv_generic_paren
 	if strings.HasSuffix(pkg_recv_generic_paren, ")") {
 		// receiver wrap
-		leftIdx := strings.LastIndex(pkg_recv_generic_paren, "(")
-		if leftIdx < 0 {
+		// the first one: type args may have "(", while pkgPath does not
+		leftIdx := strings.Index(pkg_recv_generic_paren, "(")
+		if leftIdx <= 0 {
 			// invalid
 			return
 		}
@@ -149,7 +149,7 @@ func ParseFuncName(fullName string) (pkgPath string, recvName string, recvPtr bo
 	pkg_recv := pkg_recv_generic
 	// parse generic
 	if strings.HasSuffix(pkg_recv_generic, "]") {
-		leftIdx := strings.LastIndex(pkg_recv_generic, "[")
+		leftIdx := indexTypeArgs(pkg_recv_generic)
 		if leftIdx < 0 {
 			// invalid
 			return
@@ -167,16 +167,11 @@ func ParseFuncName(fullName string) (pkgPath string, recvName string, recvPtr bo
 			// invalid
 			return
 		}
-		if dotIdx < sepIdx {
-			if strings.Contains(typeGeneric, "/") {
-				// recheck, see bug https://github.com/xhd2015/xgo/issues/211
-				sepIdx = strings.LastIndex(pkg_recv, "/")
-			}
-			if dotIdx < sepIdx {
-				// no recv
-				pkgPath = recv_ptr
-				return
-			}
+		// without type args, see bug https://github.com/xhd2015/xgo/issues/211
+		if dotIdx < strings.LastIndex(pkg_recv, "/") {
+			// no recv
+			pkgPath = recv_ptr
+			return
 		}
 		pkgPath = pkg_recv[:dotIdx]
 		recv_ptr = pkg_recv[dotIdx+1:]
@@ -190,3 +185,30 @@ func ParseFuncName(fullName string) (pkgPath string, recvName string, recvPtr bo
 
 	return
 }
+
+// indexTypeArgs returns the index of the "[" that starts
+// the type args at the end of name, which may have brackets
+// themselves, like T[map[string]int], or -1 if there is none
+func indexTypeArgs(name string) int {
+	idx := -1
+	depth := 0
+	for i := 0; i < len(name); i++ {
+		switch name[i] {
+		case '[':
+			if depth == 0 {
+				idx = i
+			}
+			depth++
+		case ']':
+			depth--
+		case '"':
+			// struct tag
+			for i++; i < len(name) && name[i] != '"'; i++ {
+				if name[i] == '\\' {
+					i++
+				}
+			}
+		}
+	}
+	return idx
+}
diff --git a/runtime/core/func.go b/runtime/core/func.go
index 1726112..d03ba9c 100644
--- a/runtime/core/func.go
+++ b/runtime/core/func.go
@@ -104,11 +104,10 @@ func (c *FuncInfo) DisplayName() string {
 //	recvGeneric
 //	pkgPath
 func ParseFuncName(fullName string) (pkgPath string, recvName string, recvPtr bool, typeGeneric string, funcGeneric string, funcName string) {
-	sepIdx := strings.LastIndex(fullName, "/")
 	pkg_recv_func_no_generic := fullName
 	// func generic
 	if strings.HasSuffix(pkg_recv_func_no_generic, "]") {
-		leftIdx := strings.LastIndex(pkg_recv_func_no_generic, "[")
+		leftIdx := indexTypeArgs(pkg_recv_func_no_generic)
 		if leftIdx < 0 {
 			// invalid
 			return
@@ -132,8 +131,9 @@ func ParseFuncName(fullName string) (pkgPath string, recvName string, recvPtr bo
 	pkg_recv_generic := pkg_recv_generic_paren
 	if strings.HasSuffix(pkg_recv_generic_paren, ")") {
 		// receiver wrap
-		leftIdx := strings.LastIndex(pkg_recv_generic_paren, "(")
-		if leftIdx < 0 {
+		// the first one: type args may have "(", while pkgPath does not
+		leftIdx := strings.Index(pkg_recv_generic_paren, "(")
+		if leftIdx <= 0 {
 			// invalid
 			return
 		}
@@ -149,7 +149,7 @@ func ParseFuncName(fullName string) (pkgPath string, recvName string, recvPtr bo
 	pkg_recv := pkg_recv_generic
 	// parse generic
 	if strings.HasSuffix(pkg_recv_generic, "]") {
-		leftIdx := strings.LastIndex(pkg_recv_generic, "[")
+		leftIdx := indexTypeArgs(pkg_recv_generic)
 		if leftIdx < 0 {
 			// invalid
 			return
@@ -167,16 +167,11 @@ func ParseFuncName(fullName string) (pkgPath string, recvName string, recvPtr bo
 			// invalid
 			return
 		}
-		if dotIdx < sepIdx {
-			if strings.Contains(typeGeneric, "/") {
-				// recheck, see bug https://github.com/xhd2015/xgo/issues/211
-				sepIdx = strings.LastIndex(pkg_recv, "/")
-			}
-			if dotIdx < sepIdx {
-				// no recv
-				pkgPath = recv_ptr
-				return
-			}
+		// without type args, see bug https://github.com/xhd2015/xgo/issues/211
+		if dotIdx < strings.LastIndex(pkg_recv, "/") {
+			// no recv
+			pkgPath = recv_ptr
+			return
 		}
 		pkgPath = pkg_recv[:dotIdx]
 		recv_ptr = pkg_recv[dotIdx+1:]
@@ -190,3 +185,30 @@ func ParseFuncName(fullName string) (pkgPath string, recvName string, recvPtr bo
 
 	return
 }
+
+// indexTypeArgs returns the index of the "[" that starts
+// the type args at the end of name, which may have brackets
+// themselves, like T[map[string]int], or -1 if there is none
+func indexTypeArgs(name string) int {
+	idx := -1
+	depth := 0
+	for i := 0; i < len(name); i++ {
+		switch name[i] {
+		case '[':
+			if depth == 0 {
+				idx = i
+			}
+			depth++
+		case ']':
+			depth--
+		case '"':
+			// struct tag
+			for i++; i < len(name) && name[i] != '"'; i++ {
+				if name[i] == '\\' {
+					i++
+				}
+			}
+		}
+	}
+	return idx
+}
-- 
2.43.0


From ece8c3e614c43f8ede8a6ec30eaa36bd43a5c06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:57 +0000
Subject: [PATCH 52/55] fix: generic functions of packages whose path is
 escaped in symbol names are found

---
 cmd/xgo/asset/runtime_gen/functab/functab.go | 23 ++++++++++++++++++++
 runtime/functab/functab.go                   | 23 ++++++++++++++++++++
 2 files changed, 46 insertions(+)

diff --git a/cmd/xgo/asset/runtime_gen/functab/functab.go b/cmd/xgo/asset/runtime_gen/functab/functab.go
index a046de0..2004392 100755
--- a/cmd/xgo/asset/runtime_gen/functab/functab.go
+++ b/cmd/xgo/asset/runtime_gen/functab/functab.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"reflect"
+	"strconv"
 	"strings"
 	"sync"
 	"unsafe"
@@ -124,6 +125,7 @@ func GetTypeMethods(typ reflect.Type) map[string]*core.FuncInfo {
 
 func getInterfaceOrGenericByFullName(fullName string) *core.FuncInfo {
 	pkgPath, recvName, recvPtr, typeGeneric, funcGeneric, funcName := core.ParseFuncName(fullName)
+	pkgPath = unescapePkgPath(pkgPath)
 	if typeGeneric != "" || funcGeneric != "" {
 		// generic, currently does not solve generic interface
 		idName := funcName
@@ -142,6 +144,27 @@ func getInterfaceOrGenericByFullName(fullName string) *core.FuncInfo {
 	return nil
 }
 
+// unescapePkgPath decodes the package path of a full name, where
+// the compiler escapes some chars as %xx: gopkg.in/yaml%2ev3 -> gopkg.in/yaml.v3
+func unescapePkgPath(pkgPath string) string {
+	if !strings.Contains(pkgPath, "%") {
+		return pkgPath
+	}
+	path := make([]byte, 0, len(pkgPath))
+	for i := 0; i < len(pkgPath); i++ {
+		if pkgPath[i] == '%' && i+2 < len(pkgPath) {
+			c, err := strconv.ParseUint(pkgPath[i+1:i+3], 16, 8)
+			if err == nil {
+				path = append(path, byte(c))
+				i += 2
+				continue
+			}
+		}
+		path = append(path, pkgPath[i])
+	}
+	return string(path)
+}
+
 var errType = reflect.TypeOf((*error)(nil)).Elem()
 var ctxType = reflect.TypeOf((*context.Context)(nil)).Elem()
 
diff --git a/runtime/functab/functab.go b/runtime/functab/functab.go
index a046de0..2004392 100644
--- a/runtime/functab/functab.go
+++ b/runtime/functab/functab.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"reflect"
+	"strconv"
 	"strings"
 	"sync"
 	"unsafe"
@@ -124,6 +125,7 @@ func GetTypeMethods(typ reflect.Type) map[string]*core.FuncInfo {
 
 func getInterfaceOrGenericByFullName(fullName string) *core.FuncInfo {
 	pkgPath, recvName, recvPtr, typeGeneric, funcGeneric, funcName := core.ParseFuncName(fullName)
+	pkgPath = unescapePkgPath(pkgPath)
 	if typeGeneric != "" || funcGeneric != "" {
 		// generic, currently does not solve generic interface
 		idName := funcName
@@ -142,6 +144,27 @@ func getInterfaceOrGenericByFullName(fullName string) *core.FuncInfo {
 	return nil
 }
 
+// unescapePkgPath decodes the package path of a full name, where
+// the compiler escapes some chars as %xx: gopkg.in/yaml%2ev3 -> gopkg.in/yaml.v3
+func unescapePkgPath(pkgPath string) string {
+	if !strings.Contains(pkgPath, "%") {
+		return pkgPath
+	}
+	path := make([]byte, 0, len(pkgPath))
+	for i := 0; i < len(pkgPath); i++ {
+		if pkgPath[i] == '%' && i+2 < len(pkgPath) {
+			c, err := strconv.ParseUint(pkgPath[i+1:i+3], 16, 8)
+			if err == nil {
+				path = append(path, byte(c))
+				i += 2
+				continue
+			}
+		}
+		path = append(path, pkgPath[i])
+	}
+	return string(path)
+}
+
 var errType = reflect.TypeOf((*error)(nil)).Elem()
 var ctxType = reflect.TypeOf((*context.Context)(nil)).Elem()
 
-- 
2.43.0


From 04f53fb8bd46ab3432fa1b9c608651e2204d2eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:44 +0000
Subject: [PATCH 53/55] fix: mocks and recorders of an instance of a generic
 function leave other instances alone

---
 .../asset/runtime_gen/internal/trap/init.go   |  2 +
 .../runtime_gen/internal/trap/inspect.go      | 40 +++++++++++++++++++
 .../asset/runtime_gen/internal/trap/mock.go   | 16 +++++---
 .../asset/runtime_gen/internal/trap/record.go | 14 ++++---
 .../runtime_gen/internal/trap/stack_data.go   | 16 +++++---
 .../asset/runtime_gen/internal/trap/trap.go   |  5 ++-
 runtime/internal/trap/init.go                 |  2 +
 runtime/internal/trap/inspect.go              | 40 +++++++++++++++++++
 runtime/internal/trap/mock.go                 | 16 +++++---
 runtime/internal/trap/record.go               | 14 ++++---
 runtime/internal/trap/stack_data.go           | 16 +++++---
 runtime/internal/trap/trap.go                 |  5 ++-
 12 files changed, 154 insertions(+), 32 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/init.go b/cmd/xgo/asset/runtime_gen/internal/trap/init.go
index 509e16c..384f027 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/init.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/init.go
@@ -79,6 +79,7 @@ func cloneFuncMocks(mock map[uintptr][]*mockHolder) map[uintptr][]*mockHolder {
 		for i, m := range mocks {
 			newMocks[i] = &mockHolder{
 				wantRecvPtr: m.wantRecvPtr,
+				wantType:    m.wantType,
 				mock:        m.mock,
 			}
 		}
@@ -114,6 +115,7 @@ func cloneFuncRecordMapping(recorders map[uintptr][]*recorderHolder) map[uintptr
 		for i, recorder := range recorders {
 			newRecorders[pc][i] = &recorderHolder{
 				wantRecvPtr: recorder.wantRecvPtr,
+				wantType:    recorder.wantType,
 				pre:         recorder.pre,
 				post:        recorder.post,
 			}
diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/inspect.go b/cmd/xgo/asset/runtime_gen/internal/trap/inspect.go
index 423a4f9..7c35a51 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/inspect.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/inspect.go
@@ -111,3 +111,43 @@ func Inspect(f interface{}) (recvPtr interface{}, funcInfo *core.FuncInfo, funcP
 	}
 	return recvPtr, funcInfo, funcPC, trappingPC
 }
+
+// genericInstanceType returns the type of fn if it is an instance
+// of a generic function, or nil.
+// Instances whose types have the same shape, like F[*A] and F[*B],
+// share their code, so the trapping PC does not tell them apart.
+func genericInstanceType(funcInfo *core.FuncInfo, recvPtr interface{}, fn interface{}) reflect.Type {
+	if funcInfo == nil || !funcInfo.Generic || recvPtr != nil {
+		return nil
+	}
+	return reflect.TypeOf(fn)
+}
+
+// sameInstance tells whether the call is of an instance of type wantType
+func sameInstance(wantType reflect.Type, recvPtr interface{}, args []interface{}, results []interface{}) bool {
+	if wantType == nil {
+		return true
+	}
+	base := 0
+	if recvPtr != nil {
+		base = 1
+	}
+	if wantType.NumIn() != base+len(args) || wantType.NumOut() != len(results) {
+		// cannot tell
+		return true
+	}
+	if recvPtr != nil && reflect.TypeOf(recvPtr).Elem() != wantType.In(0) {
+		return false
+	}
+	for i, arg := range args {
+		if reflect.TypeOf(arg).Elem() != wantType.In(base+i) {
+			return false
+		}
+	}
+	for i, res := range results {
+		if reflect.TypeOf(res).Elem() != wantType.Out(i) {
+			return false
+		}
+	}
+	return true
+}
diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/mock.go b/cmd/xgo/asset/runtime_gen/internal/trap/mock.go
index 1a4f962..57f4257 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/mock.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/mock.go
@@ -32,7 +32,9 @@ var ErrNotInstrumented = errors.New("not instrumented by xgo, see https://github
 
 type mockHolder struct {
 	wantRecvPtr interface{}
-	mock        func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool
+	// the type of the instance, if the func is generic
+	wantType reflect.Type
+	mock     func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool
 }
 
 type varMockHolder struct {
@@ -125,9 +127,9 @@ func pushMockInterceptor(fn interface{}, interceptor Interceptor) func() {
 		panic(fmt.Errorf("fn should be func or pointer to variable, actual: %T", fn))
 	}
 
-	recvPtr, _, _, trappingPC := Inspect(fn)
+	recvPtr, funcInfo, _, trappingPC := Inspect(fn)
 	handler := buildMockFromInterceptor(recvPtr, interceptor)
-	return pushMockHandler(trappingPC, recvPtr, handler)
+	return pushMockInstanceHandler(trappingPC, recvPtr, genericInstanceType(funcInfo, recvPtr, fn), handler)
 }
 
 func pushMockReplacer(fn interface{}, replacer interface{}) func() {
@@ -171,7 +173,7 @@ func pushMockReplacer(fn interface{}, replacer interface{}) func() {
 
 	recvPtr, funcInfo, _, trappingPC := Inspect(fn)
 	handler := buildMockHandler(recvPtr, funcInfo, replacer)
-	return pushMockHandler(trappingPC, recvPtr, handler)
+	return pushMockInstanceHandler(trappingPC, recvPtr, genericInstanceType(funcInfo, recvPtr, fn), handler)
 }
 
 // pushMockHandler pushes a mock handler to the stack.
@@ -180,6 +182,10 @@ func pushMockReplacer(fn interface{}, replacer interface{}) func() {
 // the caller returned.
 // `mock` returns `false` if the original function should be called.
 func pushMockHandler(pc uintptr, recvPtr interface{}, handler func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool) func() {
+	return pushMockInstanceHandler(pc, recvPtr, nil, handler)
+}
+
+func pushMockInstanceHandler(pc uintptr, recvPtr interface{}, instanceType reflect.Type, handler func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool) func() {
 	holder := &globalInterceptorHolder
 	if runtime.XgoInitFinished() {
 		stackData := getOrAttachStackData()
@@ -188,7 +194,7 @@ func pushMockHandler(pc uintptr, recvPtr interface{}, handler func(fnInfo *core.
 	if holder.mock == nil {
 		holder.mock = map[uintptr][]*mockHolder{}
 	}
-	h := &mockHolder{wantRecvPtr: recvPtr, mock: handler}
+	h := &mockHolder{wantRecvPtr: recvPtr, wantType: instanceType, mock: handler}
 	holder.mock[pc] = append(holder.mock[pc], h)
 	return func() {
 		if holder == &globalInterceptorHolder && runtime.XgoInitFinished() {
diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/record.go b/cmd/xgo/asset/runtime_gen/internal/trap/record.go
index 9f58bf6..45fc510 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/record.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/record.go
@@ -70,9 +70,9 @@ func pushRecorder(fn interface{}, pre interface{}, post interface{}) func() {
 		panic(fmt.Errorf("fn should be func or pointer to variable, actual: %T", fn))
 	}
 
-	recvPtr, _, _, trappingPC := Inspect(fn)
+	recvPtr, funcInfo, _, trappingPC := Inspect(fn)
 	preHandler, postHandler := buildRecorderHandler(recvPtr, fn, pre, post)
-	return PushRecordHandler(trappingPC, recvPtr, preHandler, postHandler)
+	return pushRecordInstanceHandler(trappingPC, recvPtr, genericInstanceType(funcInfo, recvPtr, fn), preHandler, postHandler)
 }
 
 func pushRecorderInterceptor(fn interface{}, preInterceptor PreInterceptor, postInterceptor PostInterceptor) func() {
@@ -132,12 +132,16 @@ func pushRecorderInterceptor(fn interface{}, preInterceptor PreInterceptor, post
 		panic(fmt.Errorf("fn should be func or pointer to variable, actual: %T", fn))
 	}
 
-	recvPtr, _, _, trappingPC := Inspect(fn)
+	recvPtr, funcInfo, _, trappingPC := Inspect(fn)
 	pre, post := buildRecorderFromInterceptor(recvPtr, preInterceptor, postInterceptor)
-	return PushRecordHandler(trappingPC, recvPtr, pre, post)
+	return pushRecordInstanceHandler(trappingPC, recvPtr, genericInstanceType(funcInfo, recvPtr, fn), pre, post)
 }
 
 func PushRecordHandler(pc uintptr, recvPtr interface{}, pre func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) (interface{}, bool), post func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}, data interface{})) func() {
+	return pushRecordInstanceHandler(pc, recvPtr, nil, pre, post)
+}
+
+func pushRecordInstanceHandler(pc uintptr, recvPtr interface{}, instanceType reflect.Type, pre func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) (interface{}, bool), post func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}, data interface{})) func() {
 	holder := &globalInterceptorHolder
 	if runtime.XgoInitFinished() {
 		stack := getOrAttachStackData()
@@ -146,7 +150,7 @@ func PushRecordHandler(pc uintptr, recvPtr interface{}, pre func(fnInfo *core.Fu
 	if holder.recorder == nil {
 		holder.recorder = map[uintptr][]*recorderHolder{}
 	}
-	h := &recorderHolder{wantRecvPtr: recvPtr, pre: pre, post: post}
+	h := &recorderHolder{wantRecvPtr: recvPtr, wantType: instanceType, pre: pre, post: post}
 	holder.recorder[pc] = append(holder.recorder[pc], h)
 	return func() {
 		if holder == &globalInterceptorHolder && runtime.XgoInitFinished() {
diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/stack_data.go b/cmd/xgo/asset/runtime_gen/internal/trap/stack_data.go
index c01fb7f..7db33c2 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/stack_data.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/stack_data.go
@@ -1,6 +1,8 @@
 package trap
 
 import (
+	"reflect"
+
 	"github.com/xhd2015/xgo/runtime/core"
 	"github.com/xhd2015/xgo/runtime/internal/stack"
 	"github.com/xhd2015/xgo/runtime/trace/stack_model"
@@ -84,6 +86,7 @@ func getOrAttachStackDataOf(stk *stack.Stack) *StackData {
 
 type recorderHolder struct {
 	wantRecvPtr interface{}
+	wantType    reflect.Type
 	pre         func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) (interface{}, bool)
 	post        func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}, data interface{})
 }
@@ -96,20 +99,23 @@ type varRecordHolder struct {
 // getMatchingMock finds the latest mock of the function that applies to
 // the receiver: mocks of other instances are skipped. Mocks of the current
 // goroutine take precedence over global ones.
-func (c *StackData) getMatchingMock(pc uintptr, recvPtr interface{}) (mock func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool) {
+func (c *StackData) getMatchingMock(pc uintptr, recvPtr interface{}, args []interface{}, results []interface{}) (mock func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool) {
 	if c != nil {
-		mock = findMatchingMock(c.interceptors.mock[pc], recvPtr)
+		mock = findMatchingMock(c.interceptors.mock[pc], recvPtr, args, results)
 		if mock != nil {
 			return mock
 		}
 	}
-	return findMatchingMock(globalInterceptorHolder.mock[pc], recvPtr)
+	return findMatchingMock(globalInterceptorHolder.mock[pc], recvPtr, args, results)
 }
 
-func findMatchingMock(mockList []*mockHolder, recvPtr interface{}) func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool {
+func findMatchingMock(mockList []*mockHolder, recvPtr interface{}, args []interface{}, results []interface{}) func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool {
 	for i := len(mockList) - 1; i >= 0; i-- {
 		m := mockList[i]
-		if m.wantRecvPtr == nil || (recvPtr != nil && sameReceiver(recvPtr, m.wantRecvPtr)) {
+		if m.wantRecvPtr != nil && (recvPtr == nil || !sameReceiver(recvPtr, m.wantRecvPtr)) {
+			continue
+		}
+		if sameInstance(m.wantType, recvPtr, args, results) {
 			return m.mock
 		}
 	}
diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
index 95da887..5c1b6aa 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
@@ -135,7 +135,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	//
 	//
 	// === start check mock and interceptors ===
-	mock = stackData.getMatchingMock(fnPC, recvPtr)
+	mock = stackData.getMatchingMock(fnPC, recvPtr, args, results)
 	recordHandlers := stackData.getRecordHandlers(fnPC)
 	var interceptors []*recorderHolder
 	if depth <= 1 {
@@ -156,6 +156,9 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		if h.wantRecvPtr != nil && (recvPtr == nil || !sameReceiver(recvPtr, h.wantRecvPtr)) {
 			continue
 		}
+		if !sameInstance(h.wantType, recvPtr, args, results) {
+			continue
+		}
 		var data interface{}
 		var stop bool
 		if h.pre != nil {
diff --git a/runtime/internal/trap/init.go b/runtime/internal/trap/init.go
index 509e16c..384f027 100644
--- a/runtime/internal/trap/init.go
+++ b/runtime/internal/trap/init.go
@@ -79,6 +79,7 @@ func cloneFuncMocks(mock map[uintptr][]*mockHolder) map[uintptr][]*mockHolder {
 		for i, m := range mocks {
 			newMocks[i] = &mockHolder{
 				wantRecvPtr: m.wantRecvPtr,
+				wantType:    m.wantType,
 				mock:        m.mock,
 			}
 		}
@@ -114,6 +115,7 @@ func cloneFuncRecordMapping(recorders map[uintptr][]*recorderHolder) map[uintptr
 		for i, recorder := range recorders {
 			newRecorders[pc][i] = &recorderHolder{
 				wantRecvPtr: recorder.wantRecvPtr,
+				wantType:    recorder.wantType,
 				pre:         recorder.pre,
 				post:        recorder.post,
 			}
diff --git a/runtime/internal/trap/inspect.go b/runtime/internal/trap/inspect.go
index 423a4f9..7c35a51 100644
--- a/runtime/internal/trap/inspect.go
+++ b/runtime/internal/trap/inspect.go
@@ -111,3 +111,43 @@ func Inspect(f interface{}) (recvPtr interface{}, funcInfo *core.FuncInfo, funcP
 	}
 	return recvPtr, funcInfo, funcPC, trappingPC
 }
+
+// genericInstanceType returns the type of fn if it is an instance
+// of a generic function, or nil.
+// Instances whose types have the same shape, like F[*A] and F[*B],
+// share their code, so the trapping PC does not tell them apart.
+func genericInstanceType(funcInfo *core.FuncInfo, recvPtr interface{}, fn interface{}) reflect.Type {
+	if funcInfo == nil || !funcInfo.Generic || recvPtr != nil {
+		return nil
+	}
+	return reflect.TypeOf(fn)
+}
+
+// sameInstance tells whether the call is of an instance of type wantType
+func sameInstance(wantType reflect.Type, recvPtr interface{}, args []interface{}, results []interface{}) bool {
+	if wantType == nil {
+		return true
+	}
+	base := 0
+	if recvPtr != nil {
+		base = 1
+	}
+	if wantType.NumIn() != base+len(args) || wantType.NumOut() != len(results) {
+		// cannot tell
+		return true
+	}
+	if recvPtr != nil && reflect.TypeOf(recvPtr).Elem() != wantType.In(0) {
+		return false
+	}
+	for i, arg := range args {
+		if reflect.TypeOf(arg).Elem() != wantType.In(base+i) {
+			return false
+		}
+	}
+	for i, res := range results {
+		if reflect.TypeOf(res).Elem() != wantType.Out(i) {
+			return false
+		}
+	}
+	return true
+}
diff --git a/runtime/internal/trap/mock.go b/runtime/internal/trap/mock.go
index 1a4f962..57f4257 100644
--- a/runtime/internal/trap/mock.go
+++ b/runtime/internal/trap/mock.go
@@ -32,7 +32,9 @@ var ErrNotInstrumented = errors.New("not instrumented by xgo, see https://github
 
 type mockHolder struct {
 	wantRecvPtr interface{}
-	mock        func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool
+	// the type of the instance, if the func is generic
+	wantType reflect.Type
+	mock     func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool
 }
 
 type varMockHolder struct {
@@ -125,9 +127,9 @@ func pushMockInterceptor(fn interface{}, interceptor Interceptor) func() {
 		panic(fmt.Errorf("fn should be func or pointer to variable, actual: %T", fn))
 	}
 
-	recvPtr, _, _, trappingPC := Inspect(fn)
+	recvPtr, funcInfo, _, trappingPC := Inspect(fn)
 	handler := buildMockFromInterceptor(recvPtr, interceptor)
-	return pushMockHandler(trappingPC, recvPtr, handler)
+	return pushMockInstanceHandler(trappingPC, recvPtr, genericInstanceType(funcInfo, recvPtr, fn), handler)
 }
 
 func pushMockReplacer(fn interface{}, replacer interface{}) func() {
@@ -171,7 +173,7 @@ func pushMockReplacer(fn interface{}, replacer interface{}) func() {
 
 	recvPtr, funcInfo, _, trappingPC := Inspect(fn)
 	handler := buildMockHandler(recvPtr, funcInfo, replacer)
-	return pushMockHandler(trappingPC, recvPtr, handler)
+	return pushMockInstanceHandler(trappingPC, recvPtr, genericInstanceType(funcInfo, recvPtr, fn), handler)
 }
 
 // pushMockHandler pushes a mock handler to the stack.
@@ -180,6 +182,10 @@ func pushMockReplacer(fn interface{}, replacer interface{}) func() {
 // the caller returned.
 // `mock` returns `false` if the original function should be called.
 func pushMockHandler(pc uintptr, recvPtr interface{}, handler func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool) func() {
+	return pushMockInstanceHandler(pc, recvPtr, nil, handler)
+}
+
+func pushMockInstanceHandler(pc uintptr, recvPtr interface{}, instanceType reflect.Type, handler func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool) func() {
 	holder := &globalInterceptorHolder
 	if runtime.XgoInitFinished() {
 		stackData := getOrAttachStackData()
@@ -188,7 +194,7 @@ func pushMockHandler(pc uintptr, recvPtr interface{}, handler func(fnInfo *core.
 	if holder.mock == nil {
 		holder.mock = map[uintptr][]*mockHolder{}
 	}
-	h := &mockHolder{wantRecvPtr: recvPtr, mock: handler}
+	h := &mockHolder{wantRecvPtr: recvPtr, wantType: instanceType, mock: handler}
 	holder.mock[pc] = append(holder.mock[pc], h)
 	return func() {
 		if holder == &globalInterceptorHolder && runtime.XgoInitFinished() {
diff --git a/runtime/internal/trap/record.go b/runtime/internal/trap/record.go
index 9f58bf6..45fc510 100644
--- a/runtime/internal/trap/record.go
+++ b/runtime/internal/trap/record.go
@@ -70,9 +70,9 @@ func pushRecorder(fn interface{}, pre interface{}, post interface{}) func() {
 		panic(fmt.Errorf("fn should be func or pointer to variable, actual: %T", fn))
 	}
 
-	recvPtr, _, _, trappingPC := Inspect(fn)
+	recvPtr, funcInfo, _, trappingPC := Inspect(fn)
 	preHandler, postHandler := buildRecorderHandler(recvPtr, fn, pre, post)
-	return PushRecordHandler(trappingPC, recvPtr, preHandler, postHandler)
+	return pushRecordInstanceHandler(trappingPC, recvPtr, genericInstanceType(funcInfo, recvPtr, fn), preHandler, postHandler)
 }
 
 func pushRecorderInterceptor(fn interface{}, preInterceptor PreInterceptor, postInterceptor PostInterceptor) func() {
@@ -132,12 +132,16 @@ func pushRecorderInterceptor(fn interface{}, preInterceptor PreInterceptor, post
 		panic(fmt.Errorf("fn should be func or pointer to variable, actual: %T", fn))
 	}
 
-	recvPtr, _, _, trappingPC := Inspect(fn)
+	recvPtr, funcInfo, _, trappingPC := Inspect(fn)
 	pre, post := buildRecorderFromInterceptor(recvPtr, preInterceptor, postInterceptor)
-	return PushRecordHandler(trappingPC, recvPtr, pre, post)
+	return pushRecordInstanceHandler(trappingPC, recvPtr, genericInstanceType(funcInfo, recvPtr, fn), pre, post)
 }
 
 func PushRecordHandler(pc uintptr, recvPtr interface{}, pre func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) (interface{}, bool), post func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}, data interface{})) func() {
+	return pushRecordInstanceHandler(pc, recvPtr, nil, pre, post)
+}
+
+func pushRecordInstanceHandler(pc uintptr, recvPtr interface{}, instanceType reflect.Type, pre func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) (interface{}, bool), post func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}, data interface{})) func() {
 	holder := &globalInterceptorHolder
 	if runtime.XgoInitFinished() {
 		stack := getOrAttachStackData()
@@ -146,7 +150,7 @@ func PushRecordHandler(pc uintptr, recvPtr interface{}, pre func(fnInfo *core.Fu
 	if holder.recorder == nil {
 		holder.recorder = map[uintptr][]*recorderHolder{}
 	}
-	h := &recorderHolder{wantRecvPtr: recvPtr, pre: pre, post: post}
+	h := &recorderHolder{wantRecvPtr: recvPtr, wantType: instanceType, pre: pre, post: post}
 	holder.recorder[pc] = append(holder.recorder[pc], h)
 	return func() {
 		if holder == &globalInterceptorHolder && runtime.XgoInitFinished() {
diff --git a/runtime/internal/trap/stack_data.go b/runtime/internal/trap/stack_data.go
index c01fb7f..7db33c2 100644
--- a/runtime/internal/trap/stack_data.go
+++ b/runtime/internal/trap/stack_data.go
@@ -1,6 +1,8 @@
 package trap
 
 import (
+	"reflect"
+
 	"github.com/xhd2015/xgo/runtime/core"
 	"github.com/xhd2015/xgo/runtime/internal/stack"
 	"github.com/xhd2015/xgo/runtime/trace/stack_model"
@@ -84,6 +86,7 @@ func getOrAttachStackDataOf(stk *stack.Stack) *StackData {
 
 type recorderHolder struct {
 	wantRecvPtr interface{}
+	wantType    reflect.Type
 	pre         func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) (interface{}, bool)
 	post        func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}, data interface{})
 }
@@ -96,20 +99,23 @@ type varRecordHolder struct {
 // getMatchingMock finds the latest mock of the function that applies to
 // the receiver: mocks of other instances are skipped. Mocks of the current
 // goroutine take precedence over global ones.
-func (c *StackData) getMatchingMock(pc uintptr, recvPtr interface{}) (mock func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool) {
+func (c *StackData) getMatchingMock(pc uintptr, recvPtr interface{}, args []interface{}, results []interface{}) (mock func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool) {
 	if c != nil {
-		mock = findMatchingMock(c.interceptors.mock[pc], recvPtr)
+		mock = findMatchingMock(c.interceptors.mock[pc], recvPtr, args, results)
 		if mock != nil {
 			return mock
 		}
 	}
-	return findMatchingMock(globalInterceptorHolder.mock[pc], recvPtr)
+	return findMatchingMock(globalInterceptorHolder.mock[pc], recvPtr, args, results)
 }
 
-func findMatchingMock(mockList []*mockHolder, recvPtr interface{}) func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool {
+func findMatchingMock(mockList []*mockHolder, recvPtr interface{}, args []interface{}, results []interface{}) func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool {
 	for i := len(mockList) - 1; i >= 0; i-- {
 		m := mockList[i]
-		if m.wantRecvPtr == nil || (recvPtr != nil && sameReceiver(recvPtr, m.wantRecvPtr)) {
+		if m.wantRecvPtr != nil && (recvPtr == nil || !sameReceiver(recvPtr, m.wantRecvPtr)) {
+			continue
+		}
+		if sameInstance(m.wantType, recvPtr, args, results) {
 			return m.mock
 		}
 	}
diff --git a/runtime/internal/trap/trap.go b/runtime/internal/trap/trap.go
index 95da887..5c1b6aa 100644
--- a/runtime/internal/trap/trap.go
+++ b/runtime/internal/trap/trap.go
@@ -135,7 +135,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	//
 	//
 	// === start check mock and interceptors ===
-	mock = stackData.getMatchingMock(fnPC, recvPtr)
+	mock = stackData.getMatchingMock(fnPC, recvPtr, args, results)
 	recordHandlers := stackData.getRecordHandlers(fnPC)
 	var interceptors []*recorderHolder
 	if depth <= 1 {
@@ -156,6 +156,9 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		if h.wantRecvPtr != nil && (recvPtr == nil || !sameReceiver(recvPtr, h.wantRecvPtr)) {
 			continue
 		}
+		if !sameInstance(h.wantType, recvPtr, args, results) {
+			continue
+		}
 		var data interface{}
 		var stop bool
 		if h.pre != nil {
-- 
2.43.0


From 1271946b0a41586a6818e8dccda15dc32f8016d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:44 +0000
Subject: [PATCH 54/55] fix: mocking a generic function by name is refused
 instead of having no effect

---
 cmd/xgo/asset/runtime_gen/internal/trap/mock.go | 4 ++++
 runtime/internal/trap/mock.go                   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/mock.go b/cmd/xgo/asset/runtime_gen/internal/trap/mock.go
index 57f4257..26d6c46 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/mock.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/mock.go
@@ -358,6 +358,10 @@ func getFuncByName(pkgPath string, funcName string) (recvPtr interface{}, fn *co
 	if fn == nil {
 		panic(fmt.Errorf("failed to setup mock for: %s.%s", pkgPath, funcName))
 	}
+	if fn.Kind == core.Kind_Func && fn.PC == 0 {
+		// generic function or interface, has no code itself
+		panic(fmt.Errorf("failed to setup mock for: %s.%s, not a plain function", pkgPath, funcName))
+	}
 	return nil, fn, fn.PC, fn.PC
 }
 
diff --git a/runtime/internal/trap/mock.go b/runtime/internal/trap/mock.go
index 57f4257..26d6c46 100644
--- a/runtime/internal/trap/mock.go
+++ b/runtime/internal/trap/mock.go
@@ -358,6 +358,10 @@ func getFuncByName(pkgPath string, funcName string) (recvPtr interface{}, fn *co
 	if fn == nil {
 		panic(fmt.Errorf("failed to setup mock for: %s.%s", pkgPath, funcName))
 	}
+	if fn.Kind == core.Kind_Func && fn.PC == 0 {
+		// generic function or interface, has no code itself
+		panic(fmt.Errorf("failed to setup mock for: %s.%s, not a plain function", pkgPath, funcName))
+	}
 	return nil, fn, fn.PC, fn.PC
 }
 
-- 
2.43.0


From 2f05c89eacddc74b0e84c86485c55fb055d29c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:48 +0000
Subject: [PATCH 55/55] fix: external test packages are instrumented as
 packages of their own

Files of package p_test were loaded into p: a variable declared in both of
them lost its getter, types of p were written without the import they need,
and functions of p_test were registered under the path of p, so that mocking
a function of p by name changed the one of p_test.
---
 cmd/xgo/instrument.go         |  4 ++--
 instrument/edit/edit.go       | 15 +++++++++++++++
 instrument/edit/load.go       |  2 +-
 instrument/load/load.go       | 32 +++++++++++++++++++++++---------
 instrument/resolve/resolve.go |  4 ++++
 support/goinfo/list.go        |  2 ++
 6 files changed, 47 insertions(+), 12 deletions(-)

diff --git a/cmd/xgo/instrument.go b/cmd/xgo/instrument.go
index 7e7ea65..f6b95fb 100644
--- a/cmd/xgo/instrument.go
+++ b/cmd/xgo/instrument.go
@@ -169,7 +169,7 @@ func instrumentUserCode(goroot string, projectDir string, projectRoot string, go
 	var depOnlyCnt int
 	var mainCnt int
 	for _, pkg := range pkgs.Packages {
-		pkgPath := pkg.LoadPackage.GoPackage.ImportPath
+		pkgPath := pkg.ModulePkgPath()
 		isMain := pkgWithinAnyModule(pkgPath, mainModule, includeAsMainModules)
 		if isMain {
 			pkg.Main = true
@@ -223,7 +223,7 @@ func instrumentUserCode(goroot string, projectDir string, projectRoot string, go
 			if pkg.Main {
 				continue
 			}
-			pkgPath := pkg.LoadPackage.GoPackage.ImportPath
+			pkgPath := pkg.ModulePkgPath()
 			if pkgWithinAnyModule(pkgPath, "", includeAsMainModules) {
 				pkg.Main = true
 				extraMain++
diff --git a/instrument/edit/edit.go b/instrument/edit/edit.go
index a7f3f49..2721b25 100644
--- a/instrument/edit/edit.go
+++ b/instrument/edit/edit.go
@@ -193,10 +193,25 @@ func (c *Packages) Add(packages *load.Packages) {
 		// add flag
 		InitPkgFlag(p)
 		c.Packages = append(c.Packages, p)
+		if pkg.GoPackage.ForTest != "" {
+			// cannot be imported by others
+			continue
+		}
 		c.PackageByPath[pkg.GoPackage.ImportPath] = p
 	}
 }
 
+// ModulePkgPath is the path telling which module the package
+// belongs to: an external test package p_test belongs to the
+// module of p, even if p is the root of that module
+func (p *Package) ModulePkgPath() string {
+	goPkg := p.LoadPackage.GoPackage
+	if goPkg.ForTest != "" {
+		return goPkg.ForTest
+	}
+	return goPkg.ImportPath
+}
+
 func (p *Packages) Filter(f func(pkg *Package) bool) []*Package {
 	filtered := make([]*Package, 0, len(p.Packages))
 	for _, pkg := range p.Packages {
diff --git a/instrument/edit/load.go b/instrument/edit/load.go
index 3e439cb..508f6dc 100644
--- a/instrument/edit/load.go
+++ b/instrument/edit/load.go
@@ -41,7 +41,7 @@ func (c *Packages) LoadPackages(pkgPaths []string) error {
 }
 
 func InitPkgFlag(pkg *Package) {
-	isXgo, allow := config.CheckInstrument(pkg.LoadPackage.GoPackage.ImportPath)
+	isXgo, allow := config.CheckInstrument(pkg.ModulePkgPath())
 	if isXgo {
 		pkg.Xgo = true
 	}
diff --git a/instrument/load/load.go b/instrument/load/load.go
index 0988579..0daf5d9 100644
--- a/instrument/load/load.go
+++ b/instrument/load/load.go
@@ -82,10 +82,15 @@ func LoadPackages(args []string, opts LoadOptions) (*Packages, error) {
 	if fset == nil {
 		fset = token.NewFileSet()
 	}
-	loadPkgs := make([]*Package, len(pkgs))
-	for i, pkg := range pkgs {
-		loadPkgs[i] = &Package{
+	loadPkgs := make([]*Package, 0, len(pkgs))
+	for _, pkg := range pkgs {
+		loadPkgs = append(loadPkgs, &Package{
 			GoPackage: pkg,
+		})
+		if opts.IncludeTest && len(pkg.XTestGoFiles) > 0 {
+			loadPkgs = append(loadPkgs, &Package{
+				GoPackage: externalTestPackage(pkg),
+			})
 		}
 	}
 
@@ -161,12 +166,6 @@ func LoadPackages(args []string, opts LoadOptions) (*Packages, error) {
 				}
 				files = append(files, file)
 			}
-			for _, file := range pkg.GoPackage.XTestGoFiles {
-				if !strings.HasSuffix(file, ".go") {
-					continue
-				}
-				files = append(files, file)
-			}
 		}
 		if len(files) == 0 {
 			continue
@@ -223,6 +222,21 @@ func LoadPackages(args []string, opts LoadOptions) (*Packages, error) {
 	}, nil
 }
 
+// externalTestPackage gives the package made of the files
+// declaring package xxx_test. It is not the package being
+// tested: the same name may be declared in both of them, and
+// types of the package being tested have to be imported.
+func externalTestPackage(pkg *goinfo.Package) *goinfo.Package {
+	xtest := *pkg
+	xtest.Name = pkg.Name + "_test"
+	xtest.ImportPath = pkg.ImportPath + "_test"
+	xtest.ForTest = pkg.ImportPath
+	xtest.GoFiles = pkg.XTestGoFiles
+	xtest.TestGoFiles = nil
+	xtest.XTestGoFiles = nil
+	return &xtest
+}
+
 func readFile(overlayFS overlay.Overlay, absFilePath string, maxFileSize int64) ([]byte, error) {
 	if maxFileSize > 0 {
 		size, err := overlayFS.Size(overlay.AbsFile(absFilePath))
diff --git a/instrument/resolve/resolve.go b/instrument/resolve/resolve.go
index 36b38ac..14a8597 100644
--- a/instrument/resolve/resolve.go
+++ b/instrument/resolve/resolve.go
@@ -534,6 +534,10 @@ func (c *Scope) getPkgNameDecl(pkgPath string, name string) *edit.Decl {
 	if ok {
 		return decl
 	}
+	if pkgPath == c.Package.PkgPath() {
+		// an external test package cannot be found by its path
+		return c.Package.Decls[name]
+	}
 	pkg := c.Global.Packages.GetPackage(pkgPath)
 	if pkg == nil {
 		return nil
diff --git a/support/goinfo/list.go b/support/goinfo/list.go
index 5f084ec..cc171b8 100644
--- a/support/goinfo/list.go
+++ b/support/goinfo/list.go
@@ -23,6 +23,8 @@ type Package struct {
 	// package name of normal file is xxx
 	XTestGoFiles []string
 
+	ForTest string // package is only for use in named test
+
 	Goroot   bool // is this package in the Go root?
 	Standard bool // is this package part of the standard Go library?
 	DepOnly  bool // package is only a dependency, not explicitly listed
-- 
2.43.0

