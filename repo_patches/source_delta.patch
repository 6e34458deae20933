From 8fc116c2a2d9976dbe0629ef888a6eb9ed3b60a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:30 +0000
Subject: [PATCH 01/98] fix: record IDs increase when generated from several
 go-routines

---
 golibs/ulidutils/ulidutils.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/golibs/ulidutils/ulidutils.go b/golibs/ulidutils/ulidutils.go
index 0b7664f..b3df3a0 100644
--- a/golibs/ulidutils/ulidutils.go
+++ b/golibs/ulidutils/ulidutils.go
@@ -16,6 +16,7 @@ package ulidutils
 
 import (
 	"fmt"
+	"sync"
 
 	"github.com/google/uuid"
 	"github.com/oklog/ulid/v2"
@@ -26,9 +27,24 @@ var (
 	MaxULID, _ = ulid.Parse("7ZZZZZZZZZZZZZZZZZZZZZZZZZ")
 )
 
-// New returns new ulid.ULID.
+var (
+	lastLock sync.Mutex
+	lastULID ulid.ULID
+)
+
+// New returns new ulid.ULID. The value is always greater than any other one returned by the function before.
 func New() ulid.ULID {
-	return ulid.Make()
+	lastLock.Lock()
+	defer lastLock.Unlock()
+	// ulid.Make() alone doesn't guarantee the order if it is called from different go-routines
+	// (the time is taken out of its lock), or the clock is moved back.
+	id := ulid.Make()
+	if id.Compare(lastULID) <= 0 {
+		id = lastULID
+		increment(&id)
+	}
+	lastULID = id
+	return id
 }
 
 // NewUUID returns new ulid.ULID converted to uuid.UUID.
@@ -52,13 +68,17 @@ func NextID(ulidID string) string {
 	if err != nil {
 		panic(fmt.Sprintf("could not parse ULID=%q: %v", ulidID, err))
 	}
-	for i := 15; i >= 0; i-- {
+	increment(&uID)
+	return uID.String()
+}
+
+func increment(uID *ulid.ULID) {
+	for i := len(uID) - 1; i >= 0; i-- {
 		uID[i] += 1
 		if uID[i] != 0 {
 			break
 		}
 	}
-	return uID.String()
 }
 
 func PrevID(ulidID string) string {
-- 
2.43.0


From 7188166140310c565e02322eb4a261cc2aec7418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:33 +0000
Subject: [PATCH 02/98] fix: ql: a condition may have one operation only

---
 pkg/ql/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/ql/parser.go b/pkg/ql/parser.go
index 92be8f9..ebedefa 100644
--- a/pkg/ql/parser.go
+++ b/pkg/ql/parser.go
@@ -43,8 +43,8 @@ type (
 	// optional operation and second param
 	Condition struct {
 		FirstParam  Param  `  @@`
-		Op          string ` {@("<"|">"|">="|"<="|"!="|"="|"IN"|"LIKE")`
-		SecondParam *Param ` @@}`
+		Op          string ` [@("<"|">"|">="|"<="|"!="|"="|"IN"|"LIKE")`
+		SecondParam *Param ` @@]`
 	}
 
 	// Param describes a parameter either a constant (string or number), function, identifier or an array of constants
-- 
2.43.0


From 68bbf0b5af3535a1a44c4bd73e66223e55407678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:33 +0000
Subject: [PATCH 03/98] fix: ql: report a wrong syntax as an invalid condition

---
 pkg/ql/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/ql/parser.go b/pkg/ql/parser.go
index ebedefa..2dcbbc7 100644
--- a/pkg/ql/parser.go
+++ b/pkg/ql/parser.go
@@ -18,6 +18,7 @@ import (
 	"fmt"
 	"github.com/alecthomas/participle/v2"
 	"github.com/alecthomas/participle/v2/lexer"
+	"github.com/solarisdb/solaris/golibs/errors"
 	"strings"
 )
 
@@ -157,7 +158,7 @@ func Parse(expr string) (*Expression, error) {
 	}
 	e, err := parser.ParseString("", expr)
 	if err != nil {
-		return nil, fmt.Errorf("failed to parse expression=%q: %w", expr, err)
+		return nil, fmt.Errorf("failed to parse expression=%q: %v: %w", expr, err, errors.ErrInvalid)
 	}
 	return e, nil
 }
-- 
2.43.0


From 6d1f208930192990f441fe704d791aa4a321180e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:35 +0000
Subject: [PATCH 04/98] fix: ql: limit the nesting of the parentheses in a
 condition

---
 pkg/ql/parser.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/pkg/ql/parser.go b/pkg/ql/parser.go
index 2dcbbc7..3d222a8 100644
--- a/pkg/ql/parser.go
+++ b/pkg/ql/parser.go
@@ -90,6 +90,10 @@ const (
 	StringParamID = "__string__"
 	NumberParamID = "__number__"
 	ArrayParamID  = "__array__"
+
+	// maxNesting limits the nesting of the parentheses: the expressions are handled recursively, so an expression
+	// without the limit could exhaust the stack
+	maxNesting = 1000
 )
 
 // ID returns the param id by its type:
@@ -156,9 +160,34 @@ func Parse(expr string) (*Expression, error) {
 	if len(expr) == 0 {
 		return &Expression{}, nil
 	}
+	if nesting(expr) > maxNesting {
+		return nil, fmt.Errorf("the expression has more than %d nested parentheses: %w", maxNesting, errors.ErrInvalid)
+	}
 	e, err := parser.ParseString("", expr)
 	if err != nil {
 		return nil, fmt.Errorf("failed to parse expression=%q: %v: %w", expr, err, errors.ErrInvalid)
 	}
 	return e, nil
 }
+
+// nesting returns the maximum depth of the parentheses in the expr
+func nesting(expr string) int {
+	var quote byte
+	depth, res := 0, 0
+	for i := 0; i < len(expr); i++ {
+		switch c := expr[i]; {
+		case quote != 0:
+			if c == quote {
+				quote = 0
+			}
+		case c == '\'' || c == '"':
+			quote = c
+		case c == '(':
+			depth++
+			res = max(res, depth)
+		case c == ')':
+			depth--
+		}
+	}
+	return res
+}
-- 
2.43.0


From d4817f30f0b46f6c8b190d031a143595a877e38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:52 +0000
Subject: [PATCH 05/98] fix: ql: intervals of contradictory, negated, partially
 constrained and out of range conditions

---
 pkg/ql/intervalbuilder.go | 196 ++++++++++++++++++++++++--------------
 1 file changed, 125 insertions(+), 71 deletions(-)

diff --git a/pkg/ql/intervalbuilder.go b/pkg/ql/intervalbuilder.go
index 92c5863..a077929 100644
--- a/pkg/ql/intervalbuilder.go
+++ b/pkg/ql/intervalbuilder.go
@@ -45,136 +45,151 @@ func NewParamIntervalBuilder[T, K any](basis intervals.Basis[T], dialect Dialect
 	return ParamIntervalBuilder[T, K]{basis: basis, dialect: dialect, param: param, ops: opsMap}
 }
 
+// valueSets describes what is known about the values of the parameter for a (sub-)expression
+type valueSets[T any] struct {
+	// may contains all the values for which the expression may be true
+	may []intervals.Interval[T]
+	// must contains the values for which the expression is true for sure
+	must []intervals.Interval[T]
+}
+
 // Build returns a list of intervals built from the AST expression.
 // Returned intervals are sorted by the L border.
 func (ib *ParamIntervalBuilder[T, K]) Build(expr *Expression) ([]intervals.Interval[T], error) {
-	var res []intervals.Interval[T]
+	vs, err := ib.buildExpr(expr)
+	return vs.may, err
+}
+
+func (ib *ParamIntervalBuilder[T, K]) buildExpr(expr *Expression) (valueSets[T], error) {
+	if len(expr.Or) == 0 {
+		return ib.anyValue(), nil
+	}
+	var res valueSets[T]
 	for _, or := range expr.Or {
-		tt, err := ib.buildOR(or)
+		vs, err := ib.buildOR(or)
 		if err != nil {
-			return nil, err
-		}
-		if len(tt) > 0 {
-			res = append(res, tt...)
+			return valueSets[T]{}, err
 		}
+		res.may = append(res.may, vs.may...)
+		res.must = append(res.must, vs.must...)
 	}
-	return ib.union(res), nil
+	return valueSets[T]{may: ib.union(res.may), must: ib.union(res.must)}, nil
 }
 
-func (ib *ParamIntervalBuilder[T, K]) buildOR(or *OrCondition) ([]intervals.Interval[T], error) {
-	var groups [][]intervals.Interval[T]
+func (ib *ParamIntervalBuilder[T, K]) buildOR(or *OrCondition) (valueSets[T], error) {
+	res := ib.exactly(ib.full())
 	for _, and := range or.And {
-		group, err := ib.buildXCond(and)
+		vs, err := ib.buildXCond(and)
 		if err != nil {
-			return nil, err
-		}
-		if len(group) > 0 {
-			groups = append(groups, group)
+			return valueSets[T]{}, err
 		}
+		res.may = ib.intersect(res.may, vs.may)
+		res.must = ib.intersect(res.must, vs.must)
 	}
-	return ib.intersect(groups), nil
+	return res, nil
 }
 
-func (ib *ParamIntervalBuilder[T, K]) buildXCond(and *XCondition) ([]intervals.Interval[T], error) {
-	var res []intervals.Interval[T]
+func (ib *ParamIntervalBuilder[T, K]) buildXCond(and *XCondition) (valueSets[T], error) {
+	var res valueSets[T]
+	var err error
 	if and.Expr != nil {
-		var err error
-		res, err = ib.Build(and.Expr)
-		if err != nil {
-			return nil, err
-		}
+		res, err = ib.buildExpr(and.Expr)
 	} else {
-		tt, err := ib.buildCond(and.Cond)
-		if err != nil {
-			return nil, err
-		}
-		if len(tt) > 0 {
-			res = append(res, tt...)
-		}
-	}
-	if !and.Not {
-		return res, nil
+		res, err = ib.buildCond(and.Cond)
 	}
-	var negated []intervals.Interval[T]
-	for _, t := range res {
-		negated = append(negated, ib.basis.Negate(t)...)
+	if err != nil || !and.Not {
+		return res, err
 	}
-	return negated, nil
+	return valueSets[T]{may: ib.negate(res.must), must: ib.negate(res.may)}, nil
+}
+
+// anyValue returns the valueSets for a condition, which does not constrain the parameter
+func (ib *ParamIntervalBuilder[T, K]) anyValue() valueSets[T] {
+	return valueSets[T]{may: ib.full()}
+}
+
+// exactly returns the valueSets for a condition, which is true for the values in ii, and false for others
+func (ib *ParamIntervalBuilder[T, K]) exactly(ii []intervals.Interval[T]) valueSets[T] {
+	return valueSets[T]{may: ii, must: ii}
 }
 
-func (ib *ParamIntervalBuilder[T, K]) buildCond(cond *Condition) ([]intervals.Interval[T], error) {
+func (ib *ParamIntervalBuilder[T, K]) full() []intervals.Interval[T] {
+	return []intervals.Interval[T]{ib.basis.Closed(ib.basis.Min, ib.basis.Max)}
+}
+
+func (ib *ParamIntervalBuilder[T, K]) buildCond(cond *Condition) (valueSets[T], error) {
 	// param1
 	p1 := cond.FirstParam
 	dp1, ok := ib.dialect[p1.ID()]
 	if !ok {
-		return nil, fmt.Errorf("the parameter %s must be known: %w", p1.Name(false), errors.ErrInvalid)
+		return valueSets[T]{}, fmt.Errorf("the parameter %s must be known: %w", p1.Name(false), errors.ErrInvalid)
 	}
 	if dp1.Flags&PfLValue == 0 {
-		return nil, fmt.Errorf("the parameter %s must be on the left side of the condition: %w", p1.Name(false), errors.ErrInvalid)
+		return valueSets[T]{}, fmt.Errorf("the parameter %s must be on the left side of the condition: %w", p1.Name(false), errors.ErrInvalid)
 	}
 	if dp1.Flags&PfNop != 0 {
-		return nil, fmt.Errorf("the parameter %s must allow operation (%s): %w", p1.Name(false), cond.Op, errors.ErrInvalid)
+		return valueSets[T]{}, fmt.Errorf("the parameter %s must allow operation (%s): %w", p1.Name(false), cond.Op, errors.ErrInvalid)
 	}
 	if p1.Name(false) != ib.param { // skip not the param we look for
-		return nil, nil
+		return ib.anyValue(), nil
 	}
 
 	// param2
 	p2 := cond.SecondParam
 	if p2 == nil {
-		return nil, fmt.Errorf("the second parameter must be specified for the parameter %s and the operation %q: %w", p1.Name(false), cond.Op, errors.ErrInvalid)
+		return valueSets[T]{}, fmt.Errorf("the second parameter must be specified for the parameter %s and the operation %q: %w", p1.Name(false), cond.Op, errors.ErrInvalid)
 	}
 	dp2, ok := ib.dialect[p2.ID()]
 	if !ok {
-		return nil, fmt.Errorf("the second parameter %s must be known: %w", p2.Name(false), errors.ErrInvalid)
+		return valueSets[T]{}, fmt.Errorf("the second parameter %s must be known: %w", p2.Name(false), errors.ErrInvalid)
 	}
 	if dp2.Flags&PfRValue == 0 {
-		return nil, fmt.Errorf("the second parameter %s must be on the right side of the condition: %w", p2.Name(false), errors.ErrInvalid)
+		return valueSets[T]{}, fmt.Errorf("the second parameter %s must be on the right side of the condition: %w", p2.Name(false), errors.ErrInvalid)
 	}
 	if dp2.Flags&PfNop != 0 {
-		return nil, fmt.Errorf("the second parameter %s must allow operation (%s): %w", p2.Name(false), cond.Op, errors.ErrInvalid)
+		return valueSets[T]{}, fmt.Errorf("the second parameter %s must allow operation (%s): %w", p2.Name(false), cond.Op, errors.ErrInvalid)
 	}
 	if p2.Const == nil { // skip not a constant param
-		return nil, nil
+		return ib.anyValue(), nil
 	}
 
 	// operation
 	if !ib.ops[cond.Op] { // skip not the ops we look for
-		return nil, nil
+		return ib.anyValue(), nil
 	}
 	switch cond.Op {
 	case "<", ">":
 		if dp1.Flags&PfComparable == 0 && dp1.Flags&PfGreaterLess == 0 {
-			return nil, fmt.Errorf("the first parameter %s must be comparable for the operation %s: %w", p1.Name(false), cond.Op, errors.ErrInvalid)
+			return valueSets[T]{}, fmt.Errorf("the first parameter %s must be comparable for the operation %s: %w", p1.Name(false), cond.Op, errors.ErrInvalid)
 		}
 		if dp2.Flags&PfComparable == 0 && dp2.Flags&PfGreaterLess == 0 {
-			return nil, fmt.Errorf("the second parameter %s must be comparable for the operation %s: %w", p2.Name(false), cond.Op, errors.ErrInvalid)
+			return valueSets[T]{}, fmt.Errorf("the second parameter %s must be comparable for the operation %s: %w", p2.Name(false), cond.Op, errors.ErrInvalid)
 		}
 	case "<=", ">=", "=", "!=":
 		if dp1.Flags&PfComparable == 0 {
-			return nil, fmt.Errorf("the first parameter %s must be comparable for the operation %s: %w", p1.Name(false), cond.Op, errors.ErrInvalid)
+			return valueSets[T]{}, fmt.Errorf("the first parameter %s must be comparable for the operation %s: %w", p1.Name(false), cond.Op, errors.ErrInvalid)
 		}
 		if dp2.Flags&PfComparable == 0 {
-			return nil, fmt.Errorf("the second parameter %s must be comparable for the operation %s: %w", p2.Name(false), cond.Op, errors.ErrInvalid)
+			return valueSets[T]{}, fmt.Errorf("the second parameter %s must be comparable for the operation %s: %w", p2.Name(false), cond.Op, errors.ErrInvalid)
 		}
 	}
 
 	// value
 	vf, err := castValueF(dp2.ValueF, dp2.Type, dp1.Type)
 	if err != nil {
-		return nil, err
+		return valueSets[T]{}, err
 	}
 	kVal, err := vf(cond.SecondParam, *new(K))
 	if err != nil {
-		return nil, err
+		return valueSets[T]{}, err
 	}
 	tVal, ok := kVal.(T)
 	if !ok {
-		return nil, fmt.Errorf("cannot cast the second parameter value(type=%T) to interval point(type=%T): %w", kVal, tVal, errors.ErrInvalid)
+		return valueSets[T]{}, fmt.Errorf("cannot cast the second parameter value(type=%T) to interval point(type=%T): %w", kVal, tVal, errors.ErrInvalid)
 	}
 
 	// intervals
-	return ib.getIntervals(cond.Op, tVal), nil
+	return ib.exactly(ib.getIntervals(cond.Op, tVal)), nil
 }
 
 func (ib *ParamIntervalBuilder[T, K]) union(intervalsL []intervals.Interval[T]) []intervals.Interval[T] {
@@ -199,40 +214,79 @@ func (ib *ParamIntervalBuilder[T, K]) union(intervalsL []intervals.Interval[T])
 	return res
 }
 
-func (ib *ParamIntervalBuilder[T, K]) intersect(groups [][]intervals.Interval[T]) []intervals.Interval[T] {
-	if len(groups) == 0 {
-		return nil
-	}
-	prev := groups[0]
-	for i := 1; i < len(groups); i++ {
-		curr := groups[i]
-		var group []intervals.Interval[T]
-		for j := 0; j < len(prev); j++ {
-			for k := 0; k < len(curr); k++ {
-				if t, ok := ib.basis.Intersect(prev[j], curr[k]); ok {
-					group = append(group, t)
-				}
+// intersect returns the common values of two sorted lists of not overlapping intervals
+func (ib *ParamIntervalBuilder[T, K]) intersect(ii1, ii2 []intervals.Interval[T]) []intervals.Interval[T] {
+	var res []intervals.Interval[T]
+	for _, i1 := range ii1 {
+		for _, i2 := range ii2 {
+			if t, ok := ib.basis.Intersect(i1, i2); ok {
+				res = append(res, t)
+			}
+		}
+	}
+	return res
+}
+
+// negate returns the values of the basis which do not belong to the intervals of ii
+func (ib *ParamIntervalBuilder[T, K]) negate(ii []intervals.Interval[T]) []intervals.Interval[T] {
+	res := ib.full()
+	for _, i := range ii {
+		var negated []intervals.Interval[T]
+		for _, n := range ib.basis.Negate(i) {
+			if !n.IsOpen() || ib.basis.CmpF(n.L, n.R) < 0 { // disregard the empty one
+				negated = append(negated, n)
 			}
 		}
-		prev = group
+		res = ib.intersect(res, negated)
 	}
-	return prev
+	return res
 }
 
+// getIntervals returns the intervals of the basis, for which the comparison with the val is true. The val
+// may be out of the basis
 func (ib *ParamIntervalBuilder[T, K]) getIntervals(op string, val T) []intervals.Interval[T] {
+	toMin := ib.basis.CmpF(val, ib.basis.Min)
+	toMax := ib.basis.CmpF(val, ib.basis.Max)
 	switch op {
 	case "<":
+		if toMin <= 0 {
+			return nil
+		}
+		if toMax > 0 {
+			return ib.full()
+		}
 		return []intervals.Interval[T]{ib.basis.OpenR(ib.basis.Min, val)}
 	case ">":
+		if toMax >= 0 {
+			return nil
+		}
+		if toMin < 0 {
+			return ib.full()
+		}
 		return []intervals.Interval[T]{ib.basis.OpenL(val, ib.basis.Max)}
 	case "<=":
+		if toMin < 0 {
+			return nil
+		}
+		if toMax > 0 {
+			return ib.full()
+		}
 		return []intervals.Interval[T]{ib.basis.Closed(ib.basis.Min, val)}
 	case ">=":
+		if toMax > 0 {
+			return nil
+		}
+		if toMin < 0 {
+			return ib.full()
+		}
 		return []intervals.Interval[T]{ib.basis.Closed(val, ib.basis.Max)}
 	case "=":
+		if toMin < 0 || toMax > 0 {
+			return nil
+		}
 		return []intervals.Interval[T]{ib.basis.Closed(val, val)}
 	case "!=":
-		return ib.basis.Negate(ib.basis.Closed(val, val))
+		return ib.negate(ib.getIntervals("=", val))
 	}
 	return nil
 }
-- 
2.43.0


From c367635bdeb3fba1a77438bbe806c50cdcba1480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:12 +0000
Subject: [PATCH 06/98] fix: ql: do not accept IN and LIKE for the interval
 parameters which do not support them

---
 pkg/ql/intervalbuilder.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/pkg/ql/intervalbuilder.go b/pkg/ql/intervalbuilder.go
index a077929..bf500aa 100644
--- a/pkg/ql/intervalbuilder.go
+++ b/pkg/ql/intervalbuilder.go
@@ -19,6 +19,7 @@ import (
 	"github.com/solarisdb/solaris/golibs/errors"
 	"github.com/solarisdb/solaris/pkg/intervals"
 	"sort"
+	"strings"
 )
 
 // ParamIntervalBuilder allows to build value intervals from the AST expression
@@ -149,15 +150,12 @@ func (ib *ParamIntervalBuilder[T, K]) buildCond(cond *Condition) (valueSets[T],
 	if dp2.Flags&PfNop != 0 {
 		return valueSets[T]{}, fmt.Errorf("the second parameter %s must allow operation (%s): %w", p2.Name(false), cond.Op, errors.ErrInvalid)
 	}
-	if p2.Const == nil { // skip not a constant param
-		return ib.anyValue(), nil
-	}
-
 	// operation
-	if !ib.ops[cond.Op] { // skip not the ops we look for
-		return ib.anyValue(), nil
-	}
-	switch cond.Op {
+	switch op := strings.ToUpper(cond.Op); op {
+	case "IN", "LIKE":
+		if dp1.Flags&PfInLike == 0 {
+			return valueSets[T]{}, fmt.Errorf("the first parameter %s is not applicable for the %s: %w", p1.Name(false), op, errors.ErrInvalid)
+		}
 	case "<", ">":
 		if dp1.Flags&PfComparable == 0 && dp1.Flags&PfGreaterLess == 0 {
 			return valueSets[T]{}, fmt.Errorf("the first parameter %s must be comparable for the operation %s: %w", p1.Name(false), cond.Op, errors.ErrInvalid)
@@ -174,6 +172,13 @@ func (ib *ParamIntervalBuilder[T, K]) buildCond(cond *Condition) (valueSets[T],
 		}
 	}
 
+	if p2.Const == nil { // skip not a constant param
+		return ib.anyValue(), nil
+	}
+	if !ib.ops[cond.Op] { // skip not the ops we look for
+		return ib.anyValue(), nil
+	}
+
 	// value
 	vf, err := castValueF(dp2.ValueF, dp2.Type, dp1.Type)
 	if err != nil {
-- 
2.43.0


From 807b42114a4e13d054d425241a01fa8ee26fb808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:13 +0000
Subject: [PATCH 07/98] fix: ql: evaluate all the comparisons of times

---
 pkg/ql/evaluator.go | 48 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/pkg/ql/evaluator.go b/pkg/ql/evaluator.go
index a71210c..6922400 100644
--- a/pkg/ql/evaluator.go
+++ b/pkg/ql/evaluator.go
@@ -257,6 +257,54 @@ func (eb *exprBuilder[T]) compare(vf1, vf2 valueF[T], tp ValueType, op string) e
 				}
 				return v1.(time.Time).After(v2.(time.Time))
 			}
+		case ">=":
+			eb.f = func(t T) bool {
+				v1, err := vf1(nil, t)
+				if err != nil {
+					return false
+				}
+				v2, err := vf2(nil, t)
+				if err != nil {
+					return false
+				}
+				return !v1.(time.Time).Before(v2.(time.Time))
+			}
+		case "<=":
+			eb.f = func(t T) bool {
+				v1, err := vf1(nil, t)
+				if err != nil {
+					return false
+				}
+				v2, err := vf2(nil, t)
+				if err != nil {
+					return false
+				}
+				return !v1.(time.Time).After(v2.(time.Time))
+			}
+		case "=":
+			eb.f = func(t T) bool {
+				v1, err := vf1(nil, t)
+				if err != nil {
+					return false
+				}
+				v2, err := vf2(nil, t)
+				if err != nil {
+					return false
+				}
+				return v1.(time.Time).Equal(v2.(time.Time))
+			}
+		case "!=":
+			eb.f = func(t T) bool {
+				v1, err := vf1(nil, t)
+				if err != nil {
+					return false
+				}
+				v2, err := vf2(nil, t)
+				if err != nil {
+					return false
+				}
+				return !v1.(time.Time).Equal(v2.(time.Time))
+			}
 		default:
 			return fmt.Errorf("unsupport operation %s for the time comparision: %w", op, errors.ErrInvalid)
 		}
-- 
2.43.0


From 3cf335998f6dfa5abcf846d16a927ef871c5af23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:43 +0000
Subject: [PATCH 08/98] fix: ql: quote string constants and report wrong
 function parameters in the translated conditions

---
 pkg/ql/dialect.go    | 19 ++++++++++---------
 pkg/ql/translator.go |  4 +++-
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/pkg/ql/dialect.go b/pkg/ql/dialect.go
index 6627c93..98e57c9 100644
--- a/pkg/ql/dialect.go
+++ b/pkg/ql/dialect.go
@@ -128,10 +128,7 @@ var (
 		StringParamID: {
 			Flags: PfRValue | PfComparable, // strings are rvalues only
 			TranslateF: func(tr Translator[*solaris.Log], sb *strings.Builder, p Param) error {
-				// use single quotes for string constants
-				sb.WriteString("'")
-				sb.WriteString(*p.Const.String)
-				sb.WriteString("'")
+				writeSqlString(sb, *p.Const.String)
 				return nil
 			},
 		},
@@ -146,9 +143,7 @@ var (
 					if c.String == nil {
 						return fmt.Errorf("array must contain only strings: %w", errors.ErrInvalid)
 					}
-					sb.WriteString("'")
-					sb.WriteString(*c.String)
-					sb.WriteString("'")
+					writeSqlString(sb, *c.String)
 				}
 				sb.WriteString(")")
 				return nil
@@ -174,8 +169,7 @@ var (
 					return fmt.Errorf("tag() function expects the tag name (string) as the parameter: %w", errors.ErrInvalid)
 				}
 				sb.WriteString("tags ->> ")
-				_ = tr.Param2Sql(sb, p.Function.Params[0])
-				return nil
+				return tr.Param2Sql(sb, p.Function.Params[0])
 			},
 		},
 	}
@@ -200,6 +194,13 @@ var (
 	}
 )
 
+// writeSqlString writes s as the SQL string constant: in the single quotes, the quotes inside of the s are doubled
+func writeSqlString(sb *strings.Builder, s string) {
+	sb.WriteString("'")
+	sb.WriteString(strings.ReplaceAll(s, "'", "''"))
+	sb.WriteString("'")
+}
+
 // check returns whether the parameter is ok or not. The function is used by the evaluator
 func (pd ParamDialect[T]) check(p *Param) error {
 	if pd.CheckF != nil {
diff --git a/pkg/ql/translator.go b/pkg/ql/translator.go
index e90aeb6..1fc6bbe 100644
--- a/pkg/ql/translator.go
+++ b/pkg/ql/translator.go
@@ -163,7 +163,9 @@ func (tr Translator[T]) Param2Sql(sb *strings.Builder, p *Param) error {
 		return nil
 	}
 	sb.WriteString("(")
-	_ = tr.Params2Sql(sb, p.Function.Params)
+	if err := tr.Params2Sql(sb, p.Function.Params); err != nil {
+		return err
+	}
 	sb.WriteString(")")
 	return nil
 }
-- 
2.43.0


From be170ed1bec35309fcc0c97d99755947f92b3939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:44 +0000
Subject: [PATCH 09/98] fix: ql: the only wildcard of LIKE is % in the
 translated conditions

---
 pkg/ql/translator.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/ql/translator.go b/pkg/ql/translator.go
index 1fc6bbe..0b8c033 100644
--- a/pkg/ql/translator.go
+++ b/pkg/ql/translator.go
@@ -145,6 +145,15 @@ func (tr Translator[T]) Condition2Sql(sb *strings.Builder, c *Condition) error {
 	sb.WriteString(" ")
 	sb.WriteString(op)
 	sb.WriteString(" ")
+	if op == "LIKE" && strings.ContainsAny(*p2.Const.String, `\_`) {
+		// '%' is the only wildcard of the language, so all other special characters of the SQL must be escaped
+		pat := strings.NewReplacer(`\`, `\\`, `_`, `\_`).Replace(*p2.Const.String)
+		if err := tr.Param2Sql(sb, &Param{Const: &Const{String: &pat}}); err != nil {
+			return err
+		}
+		sb.WriteString(` ESCAPE '\'`)
+		return nil
+	}
 	return tr.Param2Sql(sb, p2)
 }
 
-- 
2.43.0


From 4ee655bcf87a161e012db12f29d3550cf86fe9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:53 +0000
Subject: [PATCH 10/98] fix: datetime: recognise Wednesday and the dates with a
 zone name before the year

---
 golibs/datetime/date.go | 4 ++--
 pkg/ql/datetime.go      | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/golibs/datetime/date.go b/golibs/datetime/date.go
index 05fd84f..4ad5822 100644
--- a/golibs/datetime/date.go
+++ b/golibs/datetime/date.go
@@ -68,7 +68,7 @@ var (
 	KnownFormats = []string{
 		"MMM D, YYYY h:mm:ss P",
 		"DDD MMM _D HH:mm:ss YYYY",
-		"DDD MMM _D HH:mm:ss MST YYYY",
+		"DDD MMM _D HH:mm:ss ZZZ YYYY",
 		"DDD MMM DD HH:mm:ss ZZZZ YYYY",
 		"DDDD, YY-MMM-DD HH:mm:ss ZZZ",
 		"DDD, DD MMM YYYY HH:mm:ss ZZZ",
@@ -150,7 +150,7 @@ var (
 		{"MMM", "Jan", "[A-Z][a-z]{2}"},
 		{"MM", "01", "[0-3]\\d"},
 		{"M", "1", "\\d{1,2}"},
-		{"DDDD", "Monday", "[A-Z][a-z]{5,7}"},
+		{"DDDD", "Monday", "[A-Z][a-z]{5,8}"},
 		{"DDD", "Mon", "[A-Z][a-z]{2}"},
 		{"DD", "02", "\\d{2}"},
 		{"_D", "_2", "(?: \\d{1}|\\d{2})"},
diff --git a/pkg/ql/datetime.go b/pkg/ql/datetime.go
index dc4c636..7a717e6 100644
--- a/pkg/ql/datetime.go
+++ b/pkg/ql/datetime.go
@@ -28,7 +28,7 @@ import (
 var dateTimeParser = datetime.NewParser([]string{
 	"MMM D, YYYY h:mm:ss P",
 	"DDD MMM _D HH:mm:ss YYYY",
-	"DDD MMM _D HH:mm:ss MST YYYY",
+	"DDD MMM _D HH:mm:ss ZZZ YYYY",
 	"DDD MMM DD HH:mm:ss ZZZZ YYYY",
 	"DDDD, YY-MMM-DD HH:mm:ss ZZZ",
 	"DDD, DD MMM YYYY HH:mm:ss ZZZ",
-- 
2.43.0


From 6a0103c7de7bbb6cc501f5536e47666296b22312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:11 +0000
Subject: [PATCH 11/98] fix: ql: the whole text of a time constant must be the
 time

---
 golibs/datetime/date.go | 12 +++++++++++-
 pkg/ql/datetime.go      |  7 +++++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/golibs/datetime/date.go b/golibs/datetime/date.go
index 4ad5822..752eec7 100644
--- a/golibs/datetime/date.go
+++ b/golibs/datetime/date.go
@@ -198,6 +198,16 @@ func NewDefaultParser(usrFmts ...string) *parser {
 
 // NewParser builds new parser with the give formats
 func NewParser(fmts ...string) *parser {
+	return newParser("(?P<%v>%v)", fmts...)
+}
+
+// NewExactParser builds new parser with the given formats, which does not look for a date in the text, but
+// accepts the text only if it is a date completely.
+func NewExactParser(fmts ...string) *parser {
+	return newParser("^(?P<%v>%v)$", fmts...)
+}
+
+func newParser(regexpFmt string, fmts ...string) *parser {
 	p := new(parser)
 	p.formats = make([]*Format, len(fmts))
 
@@ -205,7 +215,7 @@ func NewParser(fmts ...string) *parser {
 		noDate := !strings.ContainsAny(fmtStr, "YMD")
 		hasYear := !noDate && strings.Contains(fmtStr, "Y")
 		hasLocation := strings.Contains(fmtStr, "Z")
-		dRegexp := regexp.MustCompile(fmt.Sprintf("(?P<%v>%v)", dateGroup, regexpMap(fmtStr)))
+		dRegexp := regexp.MustCompile(fmt.Sprintf(regexpFmt, dateGroup, regexpMap(fmtStr)))
 
 		grps := dRegexp.SubexpNames()
 		if len(grps) < 2 || grps[1] != dateGroup { // grps[0] is a whole line
diff --git a/pkg/ql/datetime.go b/pkg/ql/datetime.go
index 7a717e6..49bbd59 100644
--- a/pkg/ql/datetime.go
+++ b/pkg/ql/datetime.go
@@ -25,7 +25,7 @@ import (
 )
 
 // dateTimeParser allows to parse date-time formats allowed for the date-time points
-var dateTimeParser = datetime.NewParser([]string{
+var dateTimeParser = datetime.NewExactParser([]string{
 	"MMM D, YYYY h:mm:ss P",
 	"DDD MMM _D HH:mm:ss YYYY",
 	"DDD MMM _D HH:mm:ss ZZZ YYYY",
@@ -70,6 +70,7 @@ var dateTimeParser = datetime.NewParser([]string{
 	"YYYY-MM-DDTHH:mm:ss.SSSZZZZZ",
 	"YYYY-MM-DDTHH:mm:ss.SSSZZZZ",
 	"YYYY-MM-DDTHH:mm:ss.SSSZ",
+	"YYYY-MM-DDTHH:mm:ss.SSS",
 	"YYYY-MM-DDTHH:mm:ssZZZZZ",
 	"YYYY-MM-DDTHH:mm:ssZZZZ",
 	"YYYY-MM-DDTHH:mm:ssZ",
@@ -78,6 +79,7 @@ var dateTimeParser = datetime.NewParser([]string{
 	// yyyy-mm-dd hh:mm:ss
 	"YYYY-MM-DD HH:mm:ss.SSS ZZZZ ZZZ",
 	"YYYY-MM-DD HH:mm:ss.SSS ZZZZ",
+	"YYYY-MM-DD HH:mm:ss.SSS",
 	"YYYY-MM-DD HH:mm:ss ZZZZZ",
 	"YYYY-MM-DD HH:mm:ssZZZZZ",
 	"YYYY-MM-DD HH:mm:ss ZZZZ ZZZ",
@@ -134,7 +136,8 @@ var dateTimeParser = datetime.NewParser([]string{
 // day 		- the 12:00AM of today
 // week 	- the timestamp of Sunday 12:00AM for the current week
 func parseDateTime(dt0 string) (time.Time, error) {
-	dt := strings.ToLower(strings.Trim(dt0, " "))
+	dt0 = strings.Trim(dt0, " ")
+	dt := strings.ToLower(dt0)
 
 	tm, err := parseRalativeDateTime(dt)
 	if err == nil {
-- 
2.43.0


From cef48698f46d9372e23b43987194ff5e6968f28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:12 +0000
Subject: [PATCH 12/98] fix: ql: reject relative time constants which are out
 of the range

---
 pkg/ql/datetime.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/ql/datetime.go b/pkg/ql/datetime.go
index 49bbd59..fe486a4 100644
--- a/pkg/ql/datetime.go
+++ b/pkg/ql/datetime.go
@@ -19,6 +19,7 @@ import (
 	"github.com/solarisdb/solaris/golibs/cast"
 	"github.com/solarisdb/solaris/golibs/datetime"
 	"github.com/solarisdb/solaris/golibs/errors"
+	"math"
 	"strconv"
 	"strings"
 	"time"
@@ -188,6 +189,9 @@ func parseRalativeDateTime(dt string) (time.Time, error) {
 	}
 
 	val = val * mult
+	if math.IsNaN(val) || math.Abs(val) >= math.MaxInt64 {
+		return time.Time{}, fmt.Errorf("the value %s is out of the range: %w", dt[1:len(dt)-1], errors.ErrInvalid)
+	}
 	return time.Now().Add(-time.Duration(val)), nil
 }
 
-- 
2.43.0


From 584ed214caf159c9d978c25dbe1b9ba110256e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:58 +0000
Subject: [PATCH 13/98] fix: ql: check the second parameter of a condition too

---
 pkg/ql/evaluator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/ql/evaluator.go b/pkg/ql/evaluator.go
index 6922400..ebe414a 100644
--- a/pkg/ql/evaluator.go
+++ b/pkg/ql/evaluator.go
@@ -172,6 +172,10 @@ func (eb *exprBuilder[T]) buildCond(cn *Condition) (err error) {
 		return fmt.Errorf("parameter %s cannot be compared (%s) in the condition: %w", p2.Name(false), cn.Op, errors.ErrInvalid)
 	}
 
+	if err := d2.check(p2); err != nil {
+		return err
+	}
+
 	op := strings.ToUpper(cn.Op)
 	switch op {
 	case "<", ">":
-- 
2.43.0


From 6061cf96123bb22ffb84649cf2f94c2472ef3949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:59 +0000
Subject: [PATCH 14/98] fix: ql: translate IN with the empty list to a correct
 SQL

---
 pkg/ql/translator.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/ql/translator.go b/pkg/ql/translator.go
index 0b8c033..a327476 100644
--- a/pkg/ql/translator.go
+++ b/pkg/ql/translator.go
@@ -139,6 +139,11 @@ func (tr Translator[T]) Condition2Sql(sb *strings.Builder, c *Condition) error {
 		return fmt.Errorf("unknown operation %s: %w", c.Op, errors.ErrInvalid)
 	}
 
+	if op == "IN" && len(p2.Array) == 0 {
+		// SQL does not allow the empty lists
+		sb.WriteString("FALSE")
+		return tr.Param2Sql(&strings.Builder{}, &p1)
+	}
 	if err := tr.Param2Sql(sb, &p1); err != nil {
 		return err
 	}
-- 
2.43.0


From 3c6ace63310f5e98aa123b664cfb1051b35d1999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:57 +0000
Subject: [PATCH 15/98] fix: ql: parse long string constants in a linear time

---
 pkg/ql/parser.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/pkg/ql/parser.go b/pkg/ql/parser.go
index 3d222a8..f3540c2 100644
--- a/pkg/ql/parser.go
+++ b/pkg/ql/parser.go
@@ -19,6 +19,7 @@ import (
 	"github.com/alecthomas/participle/v2"
 	"github.com/alecthomas/participle/v2/lexer"
 	"github.com/solarisdb/solaris/golibs/errors"
+	"strconv"
 	"strings"
 )
 
@@ -81,7 +82,7 @@ var (
 
 	parser = participle.MustBuild[Expression](
 		participle.Lexer(sqlLexer),
-		participle.Unquote("String"),
+		participle.Map(unquote, "String"),
 		participle.CaseInsensitive("Keyword"),
 	)
 )
@@ -191,3 +192,19 @@ func nesting(expr string) int {
 	}
 	return res
 }
+
+// unquote is the same as participle.Unquote(), but the time is linear of the string length
+func unquote(t lexer.Token) (lexer.Token, error) {
+	quote, s := t.Value[0], t.Value[1:len(t.Value)-1]
+	var sb strings.Builder
+	for s != "" {
+		value, _, tail, err := strconv.UnquoteChar(s, quote)
+		if err != nil {
+			return t, participle.Errorf(t.Pos, "invalid quoted string %q: %s", t.Value, err.Error())
+		}
+		sb.WriteRune(value)
+		s = tail
+	}
+	t.Value = sb.String()
+	return t, nil
+}
-- 
2.43.0


From 74944cd4e4a25da406b97b62e8cdd2393d2d94db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:10 +0000
Subject: [PATCH 16/98] fix: locallog: sub-millisecond bounds of ctime
 conditions

---
 pkg/storage/logfs/locallog.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/pkg/storage/logfs/locallog.go b/pkg/storage/logfs/locallog.go
index 7d126c5..a6b680d 100644
--- a/pkg/storage/logfs/locallog.go
+++ b/pkg/storage/logfs/locallog.go
@@ -477,22 +477,26 @@ func getRanges(tis []intervals.Interval[time.Time], ci ChunkInfo) []idRange {
 	var ranges []idRange
 	for _, ti := range tis {
 		if ri, ok := tiBasis.Intersect(cti, ti); ok {
-			ranges = append(ranges, toRange(ri))
+			if r := toRange(ri); r.start.Compare(r.end) <= 0 {
+				ranges = append(ranges, r)
+			}
 		}
 	}
 	return ranges
 }
 
+// toRange returns the range of IDs which timestamps are in the interval. The timestamps of IDs are whole milliseconds, but
+// the bounds of the interval may be in between. The start of the range is greater than its end if there are no such IDs.
 func toRange(ti intervals.Interval[time.Time]) idRange {
-	if ti.IsClosed() {
-		return idRange{start: minULIDForTime(ti.L), end: maxULIDForTime(ti.R)}
-	} else if ti.IsOpenL() {
-		return idRange{start: minULIDForTime(ti.L.Add(time.Millisecond)), end: maxULIDForTime(ti.R)}
-	} else if ti.IsOpenR() {
-		return idRange{start: minULIDForTime(ti.L), end: maxULIDForTime(ti.R.Add(-time.Millisecond))}
-	} else { // open
-		return idRange{start: minULIDForTime(ti.L.Add(time.Millisecond)), end: maxULIDForTime(ti.R.Add(-time.Millisecond))}
+	l := ti.L.Truncate(time.Millisecond)
+	if l.Before(ti.L) || !ti.LIn {
+		l = l.Add(time.Millisecond)
+	}
+	r := ti.R.Truncate(time.Millisecond)
+	if r.Equal(ti.R) && !ti.RIn {
+		r = r.Add(-time.Millisecond)
 	}
+	return idRange{start: minULIDForTime(l), end: maxULIDForTime(r)}
 }
 
 func minULIDForTime(t time.Time) ulid.ULID {
-- 
2.43.0


From e5363c0f55b0106d295d83368f6979cfb172a0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:10 +0000
Subject: [PATCH 17/98] fix: locallog: a blank condition is the same as no
 condition

---
 pkg/storage/logfs/locallog.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pkg/storage/logfs/locallog.go b/pkg/storage/logfs/locallog.go
index a6b680d..50978f3 100644
--- a/pkg/storage/logfs/locallog.go
+++ b/pkg/storage/logfs/locallog.go
@@ -266,7 +266,8 @@ func (l *localLog) QueryRecords(ctx context.Context, request storage.QueryRecord
 	if err != nil {
 		return nil, false, err
 	}
-	if len(request.Condition) > 0 && len(tis) == 0 {
+	hasCond := !isBlank(request.Condition)
+	if hasCond && len(tis) == 0 {
 		return nil, false, nil
 	}
 
@@ -280,7 +281,7 @@ func (l *localLog) QueryRecords(ctx context.Context, request storage.QueryRecord
 	for idx := fromIdx; idx >= 0 && idx < len(cis) && limit > len(res); idx += inc {
 		ci := cis[idx]
 		idRanges := getRanges(tis, ci)
-		if len(request.Condition) > 0 && len(idRanges) == 0 {
+		if hasCond && len(idRanges) == 0 {
 			continue
 		}
 		srecs, err := l.readRecords(ctx, lid, ci, request.Descending, considerSIDAndDesc(idRanges, sid, request.Descending), limit-len(res), &totalSize)
@@ -349,7 +350,8 @@ func (l *localLog) CountRecords(ctx context.Context, request storage.QueryRecord
 	if err != nil {
 		return 0, 0, err
 	}
-	if len(request.Condition) > 0 && len(tis) == 0 {
+	hasCond := !isBlank(request.Condition)
+	if hasCond && len(tis) == 0 {
 		return 0, 0, nil
 	}
 
@@ -361,7 +363,7 @@ func (l *localLog) CountRecords(ctx context.Context, request storage.QueryRecord
 		total += uint64(ci.RecordsCount)
 		if (request.Descending && idx <= fromIdx) || (!request.Descending && idx >= fromIdx) {
 			idRanges := getRanges(tis, ci)
-			if len(request.Condition) > 0 && len(idRanges) == 0 {
+			if hasCond && len(idRanges) == 0 {
 				continue
 			}
 			recCnt := uint64(ci.RecordsCount)
@@ -458,7 +460,7 @@ func (l *localLog) countRecords(ctx context.Context,
 }
 
 func getIntervals(cond string) ([]intervals.Interval[time.Time], error) {
-	if len(strings.TrimSpace(cond)) == 0 {
+	if isBlank(cond) {
 		return nil, nil
 	}
 	expr, err := ql.Parse(cond)
@@ -472,6 +474,10 @@ func getIntervals(cond string) ([]intervals.Interval[time.Time], error) {
 	return tis, nil
 }
 
+func isBlank(cond string) bool {
+	return len(strings.TrimSpace(cond)) == 0
+}
+
 func getRanges(tis []intervals.Interval[time.Time], ci ChunkInfo) []idRange {
 	cti := tiBasis.Closed(ulid.Time(ci.Min.Time()), ulid.Time(ci.Max.Time()))
 	var ranges []idRange
-- 
2.43.0


From a507eb654a3188c62cc0bbb4d2c0a5c53cb7885e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:10 +0000
Subject: [PATCH 18/98] fix: locallog: count the total for the conditions which
 no record satisfies

---
 pkg/storage/logfs/locallog.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pkg/storage/logfs/locallog.go b/pkg/storage/logfs/locallog.go
index 50978f3..ef36a4a 100644
--- a/pkg/storage/logfs/locallog.go
+++ b/pkg/storage/logfs/locallog.go
@@ -351,9 +351,6 @@ func (l *localLog) CountRecords(ctx context.Context, request storage.QueryRecord
 		return 0, 0, err
 	}
 	hasCond := !isBlank(request.Condition)
-	if hasCond && len(tis) == 0 {
-		return 0, 0, nil
-	}
 
 	var total uint64
 	var count uint64
-- 
2.43.0


From e99569e30edbe4b7287f45fd9975e2e315107028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:10 +0000
Subject: [PATCH 19/98] fix: locallog: report the error if the records cannot
 be counted

---
 pkg/storage/logfs/locallog.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/storage/logfs/locallog.go b/pkg/storage/logfs/locallog.go
index ef36a4a..6671b4b 100644
--- a/pkg/storage/logfs/locallog.go
+++ b/pkg/storage/logfs/locallog.go
@@ -367,7 +367,7 @@ func (l *localLog) CountRecords(ctx context.Context, request storage.QueryRecord
 			if sid.Compare(ulidutils.ZeroULID) != 0 || len(idRanges) > 0 {
 				recCnt, err = l.countRecords(ctx, ci, request.Descending, considerSIDAndDesc(idRanges, sid, request.Descending))
 				if err != nil {
-					return 0, 0, nil
+					return 0, 0, err
 				}
 			}
 			count += recCnt
-- 
2.43.0


From 32df7081502eaead6dff8f399ee163e2bd397f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:01 +0000
Subject: [PATCH 20/98] fix: locallog: do not leave an empty chunk behind when
 a record is too big

---
 pkg/storage/chunkfs/provider.go | 5 +++++
 pkg/storage/logfs/locallog.go   | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/pkg/storage/chunkfs/provider.go b/pkg/storage/chunkfs/provider.go
index a884117..5127407 100644
--- a/pkg/storage/chunkfs/provider.go
+++ b/pkg/storage/chunkfs/provider.go
@@ -99,6 +99,11 @@ func (p *Provider) ReleaseChunk(r *lru.Releasable[*Chunk]) {
 	p.chunks.Release(r)
 }
 
+// MaxPayloadSize returns the maximum size of a record payload, which can be written into an empty chunk
+func (p *Provider) MaxPayloadSize() int64 {
+	return p.ccfg.MaxChunkSize - cHeaderSize - cMetaRecordSize
+}
+
 // GetFileNameByID returns the filename for the chunk ID cID provided
 func (p *Provider) GetFileNameByID(cID string) string {
 	return filepath.Join(p.getPathByID(cID), cID)
diff --git a/pkg/storage/logfs/locallog.go b/pkg/storage/logfs/locallog.go
index 6671b4b..71298e2 100644
--- a/pkg/storage/logfs/locallog.go
+++ b/pkg/storage/logfs/locallog.go
@@ -139,6 +139,12 @@ func (l *localLog) AppendRecords(ctx context.Context, request *solaris.AppendRec
 	var gerr error
 	for len(recs) > 0 {
 		if ci.RecordsCount == 0 {
+			if int64(len(recs[0].Payload)) > l.ChnkProvider.MaxPayloadSize() {
+				// don't create the chunk, cause its capacity is not enough to write at least one record
+				ci.ID = ""
+				gerr = fmt.Errorf("the maximum chunk size is less than the record size payload=%d: %w", len(recs[0].Payload), errors.ErrInvalid)
+				break
+			}
 			ci = ChunkInfo{ID: ulidutils.NewID()}
 			l.logger.Infof("creating new chunk id=%s for the logID=%s", ci.ID, lid)
 		}
-- 
2.43.0


From a4745d9e47213efadfffd678f9d5b96080f26ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:20 +0000
Subject: [PATCH 21/98] fix: locallog: start a new chunk when the last one is
 exhausted

---
 pkg/storage/logfs/locallog.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/storage/logfs/locallog.go b/pkg/storage/logfs/locallog.go
index 71298e2..640376d 100644
--- a/pkg/storage/logfs/locallog.go
+++ b/pkg/storage/logfs/locallog.go
@@ -149,6 +149,10 @@ func (l *localLog) AppendRecords(ctx context.Context, request *solaris.AppendRec
 			l.logger.Infof("creating new chunk id=%s for the logID=%s", ci.ID, lid)
 		}
 		arr, err := l.appendRecords(ctx, ci.ID, ci.RecordsCount == 0, recs)
+		if err != nil && errors.Is(err, errors.ErrExhausted) && ci.RecordsCount > 0 {
+			// the chunk doesn't have the room for the records, nothing is written there, so let's try with the new one
+			arr, err = chunkfs.AppendRecordsResult{}, nil
+		}
 		if err != nil {
 			gerr = err
 			break
-- 
2.43.0


From 17e2e1210d7501a85f33054a9039060763934f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:39 +0000
Subject: [PATCH 22/98] fix: chunk: an empty chunk can be read

---
 pkg/storage/chunkfs/chunk.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/storage/chunkfs/chunk.go b/pkg/storage/chunkfs/chunk.go
index 2780015..e00de7c 100644
--- a/pkg/storage/chunkfs/chunk.go
+++ b/pkg/storage/chunkfs/chunk.go
@@ -322,6 +322,9 @@ func (c *Chunk) AppendRecords(recs []*solaris.Record) (AppendRecordsResult, erro
 
 // getMetaBuf maps the meta-buffer for the index startIdx with ln number of meta-records
 func (c *Chunk) getMetaBuf(startIdx, ln int) (metaBuf, error) {
+	if ln == 0 {
+		return metaBuf{}, nil
+	}
 	offs := c.mmf.Size() - int64(startIdx+1)*cMetaRecordSize
 	mb, err := c.mmf.Buffer(offs, ln*cMetaRecordSize)
 	if err != nil {
-- 
2.43.0


From b7d872862b14912274f2cfebb601aa8b31ab4d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:39 +0000
Subject: [PATCH 23/98] fix: chunk: the full check accepts not empty chunks

---
 pkg/storage/chunkfs/chunk.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/storage/chunkfs/chunk.go b/pkg/storage/chunkfs/chunk.go
index e00de7c..11ec18e 100644
--- a/pkg/storage/chunkfs/chunk.go
+++ b/pkg/storage/chunkfs/chunk.go
@@ -209,11 +209,11 @@ func (c *Chunk) init(fullCheck bool) error {
 		return nil
 	}
 
-	mb, err := c.getMetaBuf(0, int(c.total))
+	mb, err := c.getMetaBuf(c.total-1, c.total)
 	if err != nil {
 		return err
 	}
-	startOffs := c.freeOffset
+	startOffs := cHeaderSize
 	var id ulid.ULID
 	pMax := int(c.mmf.Size() - int64(c.total*cMetaRecordSize))
 	for i := 0; i < c.total; i++ {
@@ -224,6 +224,9 @@ func (c *Chunk) init(fullCheck bool) error {
 		if int(mr.offset) != startOffs {
 			return fmt.Errorf("the record #%d offset=%d is not what expected %d: %w", i, mr.offset, startOffs, errCorrupted)
 		}
+		if mr.size < 0 {
+			return fmt.Errorf("the record #%d has the negative size=%d: %w", i, mr.size, errCorrupted)
+		}
 		id = mr.ID
 		startOffs = int(mr.offset + mr.size)
 		if startOffs > pMax {
-- 
2.43.0


From f975c6de181d2c51070ecb40db953a5b0bfff8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:45 +0000
Subject: [PATCH 24/98] fix: locallog: a cancelled append updates the catalogue
 for the records written

---
 pkg/storage/logfs/locallog.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/storage/logfs/locallog.go b/pkg/storage/logfs/locallog.go
index 640376d..a7ac71f 100644
--- a/pkg/storage/logfs/locallog.go
+++ b/pkg/storage/logfs/locallog.go
@@ -180,9 +180,9 @@ func (l *localLog) AppendRecords(ctx context.Context, request *solaris.AppendRec
 	}
 
 	if added > 0 {
-		// use context.Background instead of ctx to avoid some unrecoverable error in case of the ctx is closed, but we have some
+		// use the context without cancellation instead of ctx to avoid some unrecoverable error in case of the ctx is closed, but we have some
 		// data written
-		if err := l.LMStorage.UpsertChunkInfos(ctx, lid, cis); err != nil {
+		if err := l.LMStorage.UpsertChunkInfos(context.WithoutCancel(ctx), lid, cis); err != nil {
 			// well, now it is unrecoverable!
 			l.logger.Errorf("could not write chunk IDs=%v for logID=%s, but the data is written into chunk. The data is corrupted now: %v", cis, lid, err)
 			panic("unrecoverable error, data is corrupted")
-- 
2.43.0


From 64f3a407c0c1ab1a38f26b940d0105e5446032f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:11 +0000
Subject: [PATCH 25/98] fix: bytes: reject wrong block sizes

---
 golibs/container/bytes/blocks.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golibs/container/bytes/blocks.go b/golibs/container/bytes/blocks.go
index 613e1e3..0b21848 100644
--- a/golibs/container/bytes/blocks.go
+++ b/golibs/container/bytes/blocks.go
@@ -87,7 +87,7 @@ func GetBlocksInSegment(blkSize int) int {
 func NewBlocks(bs int, bts Buffer, fit bool) (*Blocks, error) {
 	// get absolute number of blocks in a segment
 	blksInSegm := GetBlocksInSegment(bs)
-	if bs < 0 {
+	if blksInSegm < 0 {
 		return nil, fmt.Errorf("incorrect block size=%d, should multiple on naturanl integer to get %d: %w ", bs, os.Getpagesize(), errors.ErrInvalid)
 	}
 
-- 
2.43.0


From 4796bdc10fb163395e69e5399a615d93c966e57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:11 +0000
Subject: [PATCH 26/98] fix: xbinary: malformed lengths and too big integers
 are errors

---
 golibs/xbinary/xbinary.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/golibs/xbinary/xbinary.go b/golibs/xbinary/xbinary.go
index 80fb62c..a70a5fa 100644
--- a/golibs/xbinary/xbinary.go
+++ b/golibs/xbinary/xbinary.go
@@ -20,6 +20,7 @@ import (
 	"github.com/solarisdb/solaris/golibs/cast"
 	"github.com/solarisdb/solaris/golibs/container"
 	"io"
+	"math/bits"
 )
 
 type ObjectsWriter struct {
@@ -185,6 +186,9 @@ func UnmarshalUint(buf []byte) (int, uint, error) {
 		}
 
 		b := buf[idx]
+		if v := uint(b & 127); v != 0 && (shft >= bits.UintSize || (v<<shft)>>shft != v) {
+			return 0, 0, fmt.Errorf("UnmarshalUInt: the value is more than %d bits", bits.UintSize)
+		}
 		res = res | (uint(b&127) << shft)
 		if b <= 127 {
 			return idx + 1, res, nil
@@ -266,10 +270,10 @@ func UnmarshalBytes(buf []byte, newBuf bool) (int, []byte, error) {
 		return 0, nil, err
 	}
 
-	ln := int(uln)
-	if len(buf) < ln+idx {
-		return 0, nil, noBufErr("UnmarshalBytes-size-body", len(buf)-idx, ln)
+	if uln > uint(len(buf)-idx) {
+		return 0, nil, noBufErr("UnmarshalBytes-size-body", len(buf)-idx, uln)
 	}
+	ln := int(uln)
 
 	res := buf[idx : idx+ln]
 	if newBuf {
@@ -302,6 +306,6 @@ func WritableStringSize(v string) int {
 	return WritebleBytesSize(cast.StringToByteArray(v))
 }
 
-func noBufErr(src string, ln, req int) error {
+func noBufErr[T int | uint](src string, ln int, req T) error {
 	return fmt.Errorf("not enough space in the buf: %s requres %d bytes, but actual buf size is %d", src, req, ln)
 }
-- 
2.43.0


From c01aa4b2e6110f6515655c18628234d39d8073d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:11 +0000
Subject: [PATCH 27/98] fix: container: SliceExcludeOverlaps of slices with
 duplicates

---
 golibs/container/sliceutils.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/golibs/container/sliceutils.go b/golibs/container/sliceutils.go
index a68fe3e..c8d0e00 100644
--- a/golibs/container/sliceutils.go
+++ b/golibs/container/sliceutils.go
@@ -63,16 +63,19 @@ func SliceExcludeOverlaps[V comparable](s1, s2 []V) ([]V, []V) {
 		m[v] = true
 	}
 	uniqueS2 := []V{}
+	overlaps := make(map[V]bool)
 	for _, v := range s2 {
 		if m[v] {
-			delete(m, v)
+			overlaps[v] = true
 		} else {
 			uniqueS2 = append(uniqueS2, v)
 		}
 	}
 	uniqueS1 := make([]V, 0, len(m))
 	for v := range m {
-		uniqueS1 = append(uniqueS1, v)
+		if !overlaps[v] {
+			uniqueS1 = append(uniqueS1, v)
+		}
 	}
 	return uniqueS1, uniqueS2
 }
-- 
2.43.0


From 6e59a3fb0246a3b6c668d4854d482c01d835bcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:11 +0000
Subject: [PATCH 28/98] fix: strutil: a hash does not alias the buffer it is
 created from

---
 golibs/strutil/hash.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golibs/strutil/hash.go b/golibs/strutil/hash.go
index f0685aa..025e01f 100644
--- a/golibs/strutil/hash.go
+++ b/golibs/strutil/hash.go
@@ -69,7 +69,7 @@ func createHash(buf []byte, create bool) (hash, error) {
 	}
 	res := buf
 	if create {
-		res := make([]byte, len(buf))
+		res = make([]byte, len(buf))
 		copy(res, buf)
 	}
 	return hash{res, base64.URLEncoding.EncodeToString(res)}, nil
-- 
2.43.0


From 57dde5d78d0048fb06263ed8896b71a16620a80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:11 +0000
Subject: [PATCH 29/98] fix: context: do not lose the signal which comes right
 away

---
 golibs/context/signal.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/golibs/context/signal.go b/golibs/context/signal.go
index 2514c7a..902502a 100644
--- a/golibs/context/signal.go
+++ b/golibs/context/signal.go
@@ -22,7 +22,8 @@ import (
 // NewSignalsContext returns a context.Context that will be closed by one of the provided syscall.Signal(s)
 func NewSignalsContext(signals ...os.Signal) context.Context {
 	ctx, cancel := context.WithCancel(context.Background())
-	quit := make(chan os.Signal)
+	// the signal can come before the go-routine below is ready to receive it
+	quit := make(chan os.Signal, 1)
 	signal.Notify(quit, signals...)
 	go func() {
 		<-quit
-- 
2.43.0


From 82c207a8a371fb7a0c47489416c076d02f5fae53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:38 +0000
Subject: [PATCH 30/98] fix: errors: an error without a gRPC code is not a
 communication error

---
 golibs/errors/errors.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/golibs/errors/errors.go b/golibs/errors/errors.go
index 500c235..eae9db4 100644
--- a/golibs/errors/errors.go
+++ b/golibs/errors/errors.go
@@ -18,6 +18,7 @@ import (
 	"errors"
 	"fmt"
 	"github.com/solarisdb/solaris/golibs/cast"
+	"google.golang.org/grpc/status"
 	"os"
 	"strings"
 )
@@ -97,6 +98,10 @@ func Is(err, target error) bool {
 	if errors.Is(err, target) {
 		return true
 	}
+	if _, ok := status.FromError(err); !ok {
+		// not a gRPC error, there is no code to be matched
+		return false
+	}
 	return errors.Is(FromGRPCError(err), target)
 }
 
-- 
2.43.0


From 0f4a946b2ab3d033f0c5a626c3d52c989814589b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:54 +0000
Subject: [PATCH 31/98] fix: iterable: the map does not keep removed entries
 when an iterator is closed

---
 golibs/container/iterable/map.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/golibs/container/iterable/map.go b/golibs/container/iterable/map.go
index 405716c..7d47ba6 100644
--- a/golibs/container/iterable/map.go
+++ b/golibs/container/iterable/map.go
@@ -131,11 +131,11 @@ func (im *Map[K, V]) getValue(p *rlItem[K, V]) *rlItem[K, V] {
 
 func (im *Map[K, V]) release(p *rlItem[K, V]) {
 	p.refCnt--
-	if p.state == rlDeleted {
-		p.delete()
-		if p.refCnt == 0 {
-			im.pool.Put(p)
+	if p.state == rlDeleted && p.refCnt == 0 {
+		if head := p.delete(); head != nil {
+			im.head = head
 		}
+		im.pool.Put(p)
 	}
 }
 
-- 
2.43.0


From e5ed8b69a4ff151ebde019d28e8ad3c8759a4575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:13 +0000
Subject: [PATCH 32/98] fix: iterable: the mixer keeps its state when the reset
 is not supported

---
 golibs/container/iterable/mixer.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/golibs/container/iterable/mixer.go b/golibs/container/iterable/mixer.go
index c615ad3..835ba79 100644
--- a/golibs/container/iterable/mixer.go
+++ b/golibs/container/iterable/mixer.go
@@ -140,11 +140,14 @@ func (sd *srcDesc[E]) close() error {
 }
 
 func (sd *srcDesc[E]) reset() error {
-	sd.load = false
-	sd.e = *new(E)
 	rs, ok := sd.it.(golibs.Reseter)
-	if ok {
-		return rs.Reset()
+	if !ok {
+		return errors.ErrUnimplemented
+	}
+	if err := rs.Reset(); err != nil {
+		return err
 	}
-	return errors.ErrUnimplemented
+	sd.load = false
+	sd.e = *new(E)
+	return nil
 }
-- 
2.43.0


From e5b093450077d422c07f6963931d891932b382dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:25 +0000
Subject: [PATCH 33/98] fix: ql: the minute constant is the start of the minute

---
 pkg/ql/datetime.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ql/datetime.go b/pkg/ql/datetime.go
index fe486a4..d8727b0 100644
--- a/pkg/ql/datetime.go
+++ b/pkg/ql/datetime.go
@@ -201,7 +201,7 @@ func parseConstantsDateTime(dt string) (time.Time, error) {
 	switch dt {
 	case "minute":
 		_, _, s := now.Clock()
-		now = now.Add(-time.Duration(s) * time.Second)
+		now = now.Add(-time.Duration(s)*time.Second - time.Duration(now.Nanosecond()))
 	case "hour":
 		_, m, s := now.Clock()
 		now = now.Add(
-- 
2.43.0


From f87a145685153d2b2ba65886f1357284dc5e80d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:13 +0000
Subject: [PATCH 34/98] fix: lru: a value created before its key was removed is
 not kept

---
 golibs/container/lru/ecache.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/golibs/container/lru/ecache.go b/golibs/container/lru/ecache.go
index fc651d5..5eea610 100644
--- a/golibs/container/lru/ecache.go
+++ b/golibs/container/lru/ecache.go
@@ -92,6 +92,14 @@ func (p *ECache[PK, K, V]) GetOrCreate(pk PK) (V, error) {
 
 		p.lock.Lock()
 		close(ch)
+		if p.inflight[k] != ch {
+			// the key was removed while the value was being created, the value is outdated, so don't keep it
+			if err == nil && p.onDeleteF != nil {
+				p.onDeleteF(pk, v)
+			}
+			p.lock.Unlock()
+			return v, err
+		}
 		delete(p.inflight, k)
 		if err == nil {
 			p.items.Add(k, pair[PK, V]{pk, v})
@@ -117,6 +125,8 @@ func (p *ECache[PK, K, V]) Remove(pk PK) bool {
 	p.lock.Lock()
 	defer p.lock.Unlock()
 
+	// the value, which is being created now, must not be kept
+	delete(p.inflight, k)
 	v, ok := p.items.Get(k)
 	if !ok {
 		return false
@@ -132,7 +142,10 @@ func (p *ECache[PK, K, V]) Remove(pk PK) bool {
 func (p *ECache[PK, K, V]) Clear() int {
 	p.lock.Lock()
 	defer p.lock.Unlock()
+	// the values, which are being created now, must not be kept
+	clear(p.inflight)
 	it := p.items.Iterator()
+	defer it.Close()
 	removed := 0
 	for it.HasNext() {
 		e, ok := it.Next()
-- 
2.43.0


From 2d969703ce934d04a5758a00848f47d238f9dd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:27 +0000
Subject: [PATCH 35/98] fix: lru: a failed creation of a releasable object lets
 the waiting callers go on

---
 golibs/container/lru/releasable.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/golibs/container/lru/releasable.go b/golibs/container/lru/releasable.go
index 6a45242..df6a8f7 100644
--- a/golibs/container/lru/releasable.go
+++ b/golibs/container/lru/releasable.go
@@ -132,7 +132,7 @@ func (r *ReleasableCache[K, V]) GetOrCreate(ctx context.Context, k K) (Releasabl
 		r.lock.Lock()
 		// if it was closed while we were creating the new object...
 		if r.closed {
-			if r.onDeleteF != nil {
+			if err == nil && r.onDeleteF != nil {
 				r.onDeleteF(k, v)
 			}
 			r.lock.Unlock()
@@ -145,6 +145,9 @@ func (r *ReleasableCache[K, V]) GetOrCreate(ctx context.Context, k K) (Releasabl
 		if err == nil {
 			rh = &rHolder[V]{refCounter: 1, value: v}
 			r.allKnown[k] = rh
+		} else {
+			// nothing is created, so its place is free now
+			r.notifyWaiters()
 		}
 		r.lock.Unlock()
 
@@ -169,13 +172,7 @@ func (r *ReleasableCache[K, V]) Release(rlsbl *Releasable[V]) {
 			return
 		}
 		r.lruCache.Add((rlsbl.k).(K), rlsbl.rh.value)
-		if r.waiter != nil {
-			r.sweep(r.maxSize)
-			if r.used() < r.maxSize {
-				close(r.waiter)
-				r.waiter = nil
-			}
-		}
+		r.notifyWaiters()
 	}
 	rlsbl.rh = nil
 	return
@@ -207,6 +204,18 @@ func (r *ReleasableCache[K, V]) Close() error {
 
 // used returns how many keys are created and how many are in flight so far. The function must
 // be called under the lock
+// notifyWaiters wakes up the callers, which are waiting until a new object can be created, if it is possible now
+func (r *ReleasableCache[K, V]) notifyWaiters() {
+	if r.waiter == nil {
+		return
+	}
+	r.sweep(r.maxSize)
+	if r.used() < r.maxSize {
+		close(r.waiter)
+		r.waiter = nil
+	}
+}
+
 func (r *ReleasableCache[K, V]) used() int {
 	return len(r.allKnown) + len(r.inflight)
 }
-- 
2.43.0


From 30aee7a6de1b2f663bdda52904970913fe04056c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:10 +0000
Subject: [PATCH 36/98] fix: cache: drop the cached values when a modification
 fails

---
 pkg/storage/cache/cache.go | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/pkg/storage/cache/cache.go b/pkg/storage/cache/cache.go
index c4f3992..2c61953 100644
--- a/pkg/storage/cache/cache.go
+++ b/pkg/storage/cache/cache.go
@@ -89,12 +89,9 @@ func (s *CachedStorage) GetLogByID(ctx context.Context, id string) (*solaris.Log
 
 // UpdateLog implements storage.Logs
 func (s *CachedStorage) UpdateLog(ctx context.Context, log *solaris.Log) (*solaris.Log, error) {
-	l, err := s.storage.UpdateLog(ctx, log)
-	if err != nil {
-		return nil, err
-	}
-	s.logsCache.Remove(log.ID)
-	return l, err
+	// the log may be changed even if an error is returned, so the cached value is dropped in any case
+	defer s.logsCache.Remove(log.ID)
+	return s.storage.UpdateLog(ctx, log)
 }
 
 // QueryLogs implements storage.Logs
@@ -106,6 +103,9 @@ func (s *CachedStorage) QueryLogs(ctx context.Context, qr storage.QueryLogsReque
 func (s *CachedStorage) DeleteLogs(ctx context.Context, request storage.DeleteLogsRequest) (*solaris.DeleteLogsResult, error) {
 	dr, err := s.storage.DeleteLogs(ctx, request)
 	if err != nil {
+		// some of the logs may be deleted even if an error is returned, and it is not known which ones
+		s.logsCache.Clear()
+		s.chunksCache.Clear()
 		return nil, err
 	}
 	for _, id := range dr.DeletedIDs {
@@ -134,9 +134,7 @@ func (s *CachedStorage) GetChunks(ctx context.Context, logID string) ([]logfs.Ch
 
 // UpsertChunkInfos implements logfs.LogsMetaStorage
 func (s *CachedStorage) UpsertChunkInfos(ctx context.Context, logID string, cis []logfs.ChunkInfo) error {
-	if err := s.storage.UpsertChunkInfos(ctx, logID, cis); err != nil {
-		return err
-	}
-	s.chunksCache.Remove(logID)
-	return nil
+	// the chunks may be changed even if an error is returned, so the cached value is dropped in any case
+	defer s.chunksCache.Remove(logID)
+	return s.storage.UpsertChunkInfos(ctx, logID, cis)
 }
-- 
2.43.0


From d2d432263e94efe3c6a2849e47913c9aca51d1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:10 +0000
Subject: [PATCH 37/98] fix: cache: the callers get their own copies of the
 cached values

---
 pkg/storage/cache/cache.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pkg/storage/cache/cache.go b/pkg/storage/cache/cache.go
index 2c61953..34b94c3 100644
--- a/pkg/storage/cache/cache.go
+++ b/pkg/storage/cache/cache.go
@@ -21,6 +21,8 @@ import (
 	"github.com/solarisdb/solaris/golibs/container/lru"
 	"github.com/solarisdb/solaris/pkg/storage"
 	"github.com/solarisdb/solaris/pkg/storage/logfs"
+	"google.golang.org/protobuf/proto"
+	"slices"
 	"sort"
 )
 
@@ -84,7 +86,12 @@ func (s *CachedStorage) CreateLog(ctx context.Context, log *solaris.Log) (*solar
 
 // GetLogByID implements storage.Logs
 func (s *CachedStorage) GetLogByID(ctx context.Context, id string) (*solaris.Log, error) {
-	return s.logsCache.GetOrCreate(id)
+	l, err := s.logsCache.GetOrCreate(id)
+	if err != nil {
+		return nil, err
+	}
+	// the cached value is shared, so the caller gets its own copy
+	return proto.Clone(l).(*solaris.Log), nil
 }
 
 // UpdateLog implements storage.Logs
@@ -129,7 +136,12 @@ func (s *CachedStorage) GetLastChunk(ctx context.Context, logID string) (logfs.C
 
 // GetChunks implements logfs.LogsMetaStorage
 func (s *CachedStorage) GetChunks(ctx context.Context, logID string) ([]logfs.ChunkInfo, error) {
-	return s.chunksCache.GetOrCreate(logID)
+	cis, err := s.chunksCache.GetOrCreate(logID)
+	if err != nil {
+		return nil, err
+	}
+	// the cached value is shared, so the caller gets its own copy
+	return slices.Clone(cis), nil
 }
 
 // UpsertChunkInfos implements logfs.LogsMetaStorage
-- 
2.43.0


From 34b4512d0508feb5ad671e7e7808b1f1a913a425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:11 +0000
Subject: [PATCH 38/98] fix: cache: a log without chunks has no last chunk, as
 the storages report

---
 pkg/storage/cache/cache.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/storage/cache/cache.go b/pkg/storage/cache/cache.go
index 34b94c3..091a353 100644
--- a/pkg/storage/cache/cache.go
+++ b/pkg/storage/cache/cache.go
@@ -19,6 +19,7 @@ import (
 	"github.com/logrange/linker"
 	"github.com/solarisdb/solaris/api/gen/solaris/v1"
 	"github.com/solarisdb/solaris/golibs/container/lru"
+	"github.com/solarisdb/solaris/golibs/errors"
 	"github.com/solarisdb/solaris/pkg/storage"
 	"github.com/solarisdb/solaris/pkg/storage/logfs"
 	"google.golang.org/protobuf/proto"
@@ -129,7 +130,7 @@ func (s *CachedStorage) GetLastChunk(ctx context.Context, logID string) (logfs.C
 		return logfs.ChunkInfo{}, err
 	}
 	if len(cis) == 0 {
-		return logfs.ChunkInfo{}, nil
+		return logfs.ChunkInfo{}, errors.ErrNotExist
 	}
 	return cis[len(cis)-1], nil
 }
-- 
2.43.0


From 238932c0bfc4620e0e77284694d81a88f348466e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:30 +0000
Subject: [PATCH 39/98] fix: buntdb: a negative limit of a query is the default
 one

---
 pkg/storage/buntdb/buntdb.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/storage/buntdb/buntdb.go b/pkg/storage/buntdb/buntdb.go
index 1038772..2fddbcb 100644
--- a/pkg/storage/buntdb/buntdb.go
+++ b/pkg/storage/buntdb/buntdb.go
@@ -287,8 +287,8 @@ func (s *Storage) deleteLogsByCondition(ctx context.Context, req storage.DeleteL
 }
 
 func (s *Storage) queryLogsByIDs(ctx context.Context, qr storage.QueryLogsRequest, skipMarkedDeleted bool) (*solaris.QueryLogsResult, error) {
-	limit := min(int(qr.Limit), 1000)
-	if qr.Limit == 0 {
+	limit := int(min(qr.Limit, 1000))
+	if qr.Limit <= 0 {
 		limit = 50
 	}
 
@@ -349,8 +349,8 @@ func (s *Storage) queryLogsByCondition(ctx context.Context, qr storage.QueryLogs
 		return nil, fmt.Errorf("could not compile condition=%s: %w", qr.Condition, err)
 	}
 
-	limit := min(int(qr.Limit), 1000)
-	if qr.Limit == 0 {
+	limit := int(min(qr.Limit, 1000))
+	if qr.Limit <= 0 {
 		limit = 50
 	}
 
-- 
2.43.0


From 791a5f919831ac05166f95d67008d0760e1acdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:32 +0000
Subject: [PATCH 40/98] fix: buntdb: the total of a query doesn't depend on the
 page, the logs are returned once

---
 pkg/storage/buntdb/buntdb.go | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/pkg/storage/buntdb/buntdb.go b/pkg/storage/buntdb/buntdb.go
index 2fddbcb..67d4926 100644
--- a/pkg/storage/buntdb/buntdb.go
+++ b/pkg/storage/buntdb/buntdb.go
@@ -294,15 +294,7 @@ func (s *Storage) queryLogsByIDs(ctx context.Context, qr storage.QueryLogsReques
 
 	logIDs := slices.Clone(qr.IDs)
 	slices.Sort(logIDs)
-
-	startIdx, _ := slices.BinarySearch(logIDs, qr.Page)
-	if startIdx == len(logIDs) {
-		return &solaris.QueryLogsResult{
-			Logs:       nil,
-			NextPageID: "",
-			Total:      int64(len(logIDs)),
-		}, nil
-	}
+	logIDs = slices.Compact(logIDs)
 
 	tx := mustBeginTx(s.db, false)
 	defer mustRollback(tx)
@@ -310,7 +302,7 @@ func (s *Storage) queryLogsByIDs(ctx context.Context, qr storage.QueryLogsReques
 	var total int64
 	var qLogs []*solaris.Log
 
-	for _, id := range logIDs[startIdx:] {
+	for _, id := range logIDs {
 		if ctx.Err() != nil {
 			return nil, fmt.Errorf("context error: %w", ctx.Err())
 		}
@@ -322,7 +314,7 @@ func (s *Storage) queryLogsByIDs(ctx context.Context, qr storage.QueryLogsReques
 			return nil, err
 		}
 		total++
-		if len(qLogs) <= limit { // = for pagination
+		if id >= qr.Page && len(qLogs) <= limit { // = for pagination
 			qLogs = append(qLogs, le.Log)
 		}
 	}
@@ -358,6 +350,7 @@ func (s *Storage) queryLogsByCondition(ctx context.Context, qr storage.QueryLogs
 	var iterErr error
 
 	var qLogs []*solaris.Log
+	pageKey := logKey(qr.Page)
 	iter := func(key, val string) bool {
 		if ctx.Err() != nil {
 			iterErr = fmt.Errorf("context error: %w", ctx.Err())
@@ -369,7 +362,7 @@ func (s *Storage) queryLogsByCondition(ctx context.Context, qr storage.QueryLogs
 		}
 		if tstF(le.Log) {
 			total++
-			if len(qLogs) <= limit { // = for pagination
+			if key >= pageKey && len(qLogs) <= limit { // = for pagination
 				qLogs = append(qLogs, le.Log)
 			}
 		}
@@ -379,7 +372,7 @@ func (s *Storage) queryLogsByCondition(ctx context.Context, qr storage.QueryLogs
 	tx := mustBeginTx(s.db, false)
 	defer mustRollback(tx)
 
-	if err = tx.AscendRange("", logKey(qr.Page), logKey(ulidutils.MaxULID.String()), iter); err != nil {
+	if err = tx.AscendRange("", logKey(""), logKey(ulidutils.MaxULID.String()), iter); err != nil {
 		return nil, fmt.Errorf("iteration failed: %w", err)
 	}
 	if iterErr != nil {
-- 
2.43.0


From 5159627c564598395201f713b71a098a5a42f202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:34 +0000
Subject: [PATCH 41/98] fix: buntdb: only the existing logs are deleted and
 reported

---
 pkg/storage/buntdb/buntdb.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pkg/storage/buntdb/buntdb.go b/pkg/storage/buntdb/buntdb.go
index 67d4926..f587fec 100644
--- a/pkg/storage/buntdb/buntdb.go
+++ b/pkg/storage/buntdb/buntdb.go
@@ -206,11 +206,19 @@ func (s *Storage) deleteLogsByIDs(ctx context.Context, req storage.DeleteLogsReq
 			return nil, fmt.Errorf("context error: %w", ctx.Err())
 		}
 		if req.MarkOnly {
-			if err := s.markLogDeleted(tx, id); err != nil {
+			err := s.markLogDeleted(tx, id)
+			if err != nil && errors.Is(err, errors.ErrNotExist) {
+				continue
+			}
+			if err != nil {
 				return nil, fmt.Errorf("markLogDeleted(ID=%s) failed: %w", id, err)
 			}
 		} else {
-			if err := s.deleteLog(ctx, tx, id); err != nil && !errors.Is(err, errors.ErrNotExist) {
+			err := s.deleteLog(ctx, tx, id)
+			if err != nil && errors.Is(err, errors.ErrNotExist) {
+				continue
+			}
+			if err != nil {
 				return nil, fmt.Errorf("deleteLog(ID=%s) failed: %w", id, err)
 			}
 		}
@@ -238,7 +246,7 @@ func (s *Storage) deleteLog(ctx context.Context, tx *buntdb.Tx, logID string) er
 	}
 	for _, ci := range cis {
 		key = chnkKey(logID, ci.ID)
-		if _, err = tx.Delete(key); err != nil && errors.Is(err, buntdb.ErrNotFound) {
+		if _, err = tx.Delete(key); err != nil && !errors.Is(err, buntdb.ErrNotFound) {
 			return fmt.Errorf("tx.Delete(key=%s) failed: %w", key, err)
 		}
 	}
-- 
2.43.0


From 11948a47417d9c4d68f39e0be44ced934aa8492a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:35 +0000
Subject: [PATCH 42/98] fix: buntdb: a log marked for deletion has no last
 chunk

---
 pkg/storage/buntdb/buntdb.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/storage/buntdb/buntdb.go b/pkg/storage/buntdb/buntdb.go
index f587fec..c553d0e 100644
--- a/pkg/storage/buntdb/buntdb.go
+++ b/pkg/storage/buntdb/buntdb.go
@@ -422,6 +422,10 @@ func (s *Storage) GetLastChunk(ctx context.Context, logID string) (logfs.ChunkIn
 	tx := mustBeginTx(s.db, false)
 	defer mustRollback(tx)
 
+	if _, err := s.getLogEntry(tx, logKey(logID), true); err != nil {
+		return logfs.ChunkInfo{}, fmt.Errorf("getLogEntry(ID=%s) failed: %w", logID, err)
+	}
+
 	var ce *chnkEntry
 	iter := func(key, value string) bool {
 		ce = mustUnmarshal[*chnkEntry](value)
-- 
2.43.0


From 69873576e2e378bf5b5db5108291778728acd179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:22 +0000
Subject: [PATCH 43/98] fix: chunkfs: keep the local chunk if it could not be
 uploaded before the removal

---
 pkg/storage/chunkfs/replicator.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/storage/chunkfs/replicator.go b/pkg/storage/chunkfs/replicator.go
index a2c5097..a77629d 100644
--- a/pkg/storage/chunkfs/replicator.go
+++ b/pkg/storage/chunkfs/replicator.go
@@ -108,8 +108,9 @@ func (r *Replicator) DeleteChunk(ctx context.Context, cID string, flags int) err
 	var resErr error
 	if flags&RFRemoteSync != 0 {
 		if err := r.zipAndUploadChunk(ctx, cID); err != nil {
+			// the local copy may be the only one, so it must not be removed
 			r.logger.Warnf("error while syncing chunk cID=%s, flags=%d to remote: %s", cID, flags, err)
-			resErr = err
+			return err
 		}
 	}
 
-- 
2.43.0


From acd132f879156c7fa0217b6ac3df87be6d94a809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:23 +0000
Subject: [PATCH 44/98] fix: chunkfs: a failed download doesn't leave or
 replace the local chunk

---
 pkg/storage/chunkfs/replicator.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pkg/storage/chunkfs/replicator.go b/pkg/storage/chunkfs/replicator.go
index a77629d..90a725d 100644
--- a/pkg/storage/chunkfs/replicator.go
+++ b/pkg/storage/chunkfs/replicator.go
@@ -218,12 +218,19 @@ func (r *Replicator) unzip(zfn, fn string) error {
 	}
 	defer it.Close()
 
-	_ = os.Remove(fn)
-	f, err := os.Create(fn)
+	// write the content aside, so neither the existing file is touched, nor an incomplete one is left in case of an error
+	tmpFn := fn + ".tmp"
+	f, err := os.Create(tmpFn)
 	if err != nil {
 		return err
 	}
-	defer f.Close()
+	defer os.Remove(tmpFn)
 	_, err = io.Copy(f, it)
-	return err
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	if err != nil {
+		return err
+	}
+	return os.Rename(tmpFn, fn)
 }
-- 
2.43.0


From 5eae2b71b82a04b8cb9e780db9d795492ea45e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:26 +0000
Subject: [PATCH 45/98] fix: chunkfs: report the error if the archive of a
 chunk could not be completed

---
 pkg/storage/chunkfs/replicator.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/storage/chunkfs/replicator.go b/pkg/storage/chunkfs/replicator.go
index 90a725d..581eaa6 100644
--- a/pkg/storage/chunkfs/replicator.go
+++ b/pkg/storage/chunkfs/replicator.go
@@ -156,12 +156,17 @@ func (r *Replicator) zipAndUploadChunk(ctx context.Context, cID string) error {
 	return r.Storage.Put(ctx, getStorageKey(cID), zf)
 }
 
-func zipFile(cID, fn, zfn string) error {
+func zipFile(cID, fn, zfn string) (err error) {
 	zw, err := files.NewZipWriter(zfn)
 	if err != nil {
 		return err
 	}
-	defer zw.Close()
+	defer func() {
+		// the archive is not complete until it is closed
+		if cerr := zw.Close(); err == nil {
+			err = cerr
+		}
+	}()
 
 	// the chunk file
 	f, err := os.Open(fn)
-- 
2.43.0


From 156f8ba59f0e877b54e20d2fc431efb72f80b4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:28 +0000
Subject: [PATCH 46/98] fix: chunkfs: don't touch the chunk which is used by
 somebody else

---
 pkg/storage/chunkfs/provider.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/storage/chunkfs/provider.go b/pkg/storage/chunkfs/provider.go
index 5127407..2069107 100644
--- a/pkg/storage/chunkfs/provider.go
+++ b/pkg/storage/chunkfs/provider.go
@@ -78,6 +78,7 @@ func (p *Provider) DeleteFileIfEmpty(cID string) {
 	}
 	if !p.CA.setDeleting(cID) {
 		p.logger.Errorf("DeleteFileIfEmpty(): something goes wrong, cannot mark chunk %s for deleting", cID)
+		return
 	}
 	defer p.CA.SetIdle(cID)
 	fn := p.GetFileNameByID(cID)
-- 
2.43.0


From 64f7b2db5da2f726d378921a6ecd09cb02f2f550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:30 +0000
Subject: [PATCH 47/98] fix: chunkfs: keep the corrupted chunk until the good
 copy is downloaded

---
 pkg/storage/chunkfs/provider.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/storage/chunkfs/provider.go b/pkg/storage/chunkfs/provider.go
index 2069107..e68550d 100644
--- a/pkg/storage/chunkfs/provider.go
+++ b/pkg/storage/chunkfs/provider.go
@@ -127,8 +127,7 @@ func (p *Provider) openChunk(ctx context.Context, cID string) (*Chunk, error) {
 	err = c.Open(false)
 	if errors.Is(err, errCorrupted) && !downloaded {
 		p.logger.Warnf("tried to open the chunk=%v, but got the corrupted error, will sync the file from remote and try again: %v", c, err)
-		_ = os.Remove(c.fn)
-		_, err = p.downloadFileIfNotExists(ctx, cID, fn)
+		err = p.Replicator.DownloadChunk(ctx, cID, RFRemoteSync)
 		if err == nil {
 			err = c.Open(false)
 		}
-- 
2.43.0


From 91f60d7b59efb93369cde45a021159de8777f6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:53 +0000
Subject: [PATCH 48/98] fix: chunkfs: a chunk may be downloaded if its local
 folder doesn't exist

---
 pkg/storage/chunkfs/replicator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/storage/chunkfs/replicator.go b/pkg/storage/chunkfs/replicator.go
index 581eaa6..7dd843e 100644
--- a/pkg/storage/chunkfs/replicator.go
+++ b/pkg/storage/chunkfs/replicator.go
@@ -197,6 +197,9 @@ func (r *Replicator) downloadZip(ctx context.Context, cID, zfn string) error {
 	}
 	defer rdr.Close()
 
+	if err := files.EnsureDirExists(filepath.Dir(zfn)); err != nil {
+		return err
+	}
 	f, err := os.Create(zfn)
 	if err != nil {
 		return err
-- 
2.43.0


From b614f1fa974da1a625222c09c5b80ed69a92fda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:08 +0000
Subject: [PATCH 49/98] fix: chunkfs: the scanner stops even if a scan takes
 longer than the timeout between the scans

---
 pkg/storage/chunkfs/scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/storage/chunkfs/scanner.go b/pkg/storage/chunkfs/scanner.go
index 9ac3528..5926ebb 100644
--- a/pkg/storage/chunkfs/scanner.go
+++ b/pkg/storage/chunkfs/scanner.go
@@ -122,7 +122,7 @@ func (s *Scanner) watcher(ctx context.Context) {
 }
 
 func (s *Scanner) watcherWithF(ctx context.Context, f func(ctx context.Context, dir string)) {
-	for {
+	for ctx.Err() == nil {
 		start := time.Now()
 		fis := files.ListDir(s.cfg.DataPath)
 		var wg sync.WaitGroup
-- 
2.43.0


From 4741dcc67c4a7c29ca62f9f4d47163b7ce0f184b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:33 +0000
Subject: [PATCH 50/98] fix: chunkfs: data race on reporting the state of a
 chunk

---
 pkg/storage/chunkfs/caccessor.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/storage/chunkfs/caccessor.go b/pkg/storage/chunkfs/caccessor.go
index f4c4847..8738c25 100644
--- a/pkg/storage/chunkfs/caccessor.go
+++ b/pkg/storage/chunkfs/caccessor.go
@@ -78,12 +78,14 @@ func (cc *ChunkAccessor) openChunk(ctx context.Context, cID string) error {
 			cc.chunks[cID] = cr
 		}
 		if cr.state == cStateDeleting {
+			err := fmt.Errorf("raise: open while deleting %v: %w", cr, errors.ErrNotExist)
 			cc.lock.Unlock()
-			return fmt.Errorf("raise: open while deleting %v: %w", cr, errors.ErrNotExist)
+			return err
 		}
 		if cr.opened {
+			err := fmt.Errorf("unaccepted state in openChunk() %v: %w", cr, errors.ErrInternal)
 			cc.lock.Unlock()
-			return fmt.Errorf("unaccepted state in openChunk() %v: %w", cr, errors.ErrInternal)
+			return err
 		}
 		cr.opened = true
 		if cr.state == cStateIdle {
-- 
2.43.0


From 6ab2e68f1131e058500b6dacd836518dd8207d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:28 +0000
Subject: [PATCH 51/98] fix: api: the next page of a descending query of one
 log goes on in the same direction

---
 pkg/api/service.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/api/service.go b/pkg/api/service.go
index de44642..0010db0 100644
--- a/pkg/api/service.go
+++ b/pkg/api/service.go
@@ -120,6 +120,9 @@ func (s *Service) QueryRecords(ctx context.Context, request *solaris.QueryRecord
 		nextID := ""
 		if more {
 			nextID = ulidutils.NextID(res[len(res)-1].ID)
+			if request.Descending {
+				nextID = ulidutils.PrevID(res[len(res)-1].ID)
+			}
 		}
 		return &solaris.QueryRecordsResult{Records: res, NextPageID: nextID}, nil
 	}
-- 
2.43.0


From 0a2f0003c08599910d33b39ec5596eed4bb3cc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:30 +0000
Subject: [PATCH 52/98] fix: api: no panic for the queries with zero, negative
 or huge limit

---
 pkg/api/service.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/api/service.go b/pkg/api/service.go
index 0010db0..e14539a 100644
--- a/pkg/api/service.go
+++ b/pkg/api/service.go
@@ -118,7 +118,7 @@ func (s *Service) QueryRecords(ctx context.Context, request *solaris.QueryRecord
 			return nil, errors.GRPCWrap(err)
 		}
 		nextID := ""
-		if more {
+		if more && len(res) > 0 {
 			nextID = ulidutils.NextID(res[len(res)-1].ID)
 			if request.Descending {
 				nextID = ulidutils.PrevID(res[len(res)-1].ID)
@@ -137,7 +137,7 @@ func (s *Service) QueryRecords(ctx context.Context, request *solaris.QueryRecord
 
 	lim := request.Limit
 
-	res := make([]*solaris.Record, 0, lim)
+	var res []*solaris.Record
 	for mx.HasNext() && lim > 0 {
 		r, ok := mx.Next()
 		if !ok {
-- 
2.43.0


From 13529170283da6db6484fe999c8fc991684a4d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:32 +0000
Subject: [PATCH 53/98] fix: api: report that a condition selects too many
 logs, don't ignore some of them

---
 pkg/api/service.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/api/service.go b/pkg/api/service.go
index e14539a..667401b 100644
--- a/pkg/api/service.go
+++ b/pkg/api/service.go
@@ -102,6 +102,10 @@ func (s *Service) QueryRecords(ctx context.Context, request *solaris.QueryRecord
 		if err != nil {
 			return nil, errors.GRPCWrap(err)
 		}
+		if len(qr.NextPageID) > 0 {
+			// the storage may return fewer logs than requested, don't lose the others silently
+			return nil, errors.GRPCWrap(fmt.Errorf("could not merge more than %d logs together: %w", maxLogsToMerge, errors.ErrExhausted))
+		}
 		logIDs = make([]string, len(qr.Logs))
 		for i, l := range qr.Logs {
 			logIDs[i] = l.ID
@@ -170,6 +174,10 @@ func (s *Service) CountRecords(ctx context.Context, request *solaris.QueryRecord
 		if err != nil {
 			return nil, errors.GRPCWrap(err)
 		}
+		if len(qr.NextPageID) > 0 {
+			// the storage may return fewer logs than requested, don't lose the others silently
+			return nil, errors.GRPCWrap(fmt.Errorf("could not merge more than %d logs together: %w", maxLogsToMerge, errors.ErrExhausted))
+		}
 		logIDs = make([]string, len(qr.Logs))
 		for i, l := range qr.Logs {
 			logIDs[i] = l.ID
-- 
2.43.0


From 61d459f482219c10517e58ff987bec6f67011e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:34 +0000
Subject: [PATCH 54/98] fix: api: errors of counting are reported with their
 gRPC codes

---
 pkg/api/service.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/api/service.go b/pkg/api/service.go
index 667401b..0812deb 100644
--- a/pkg/api/service.go
+++ b/pkg/api/service.go
@@ -197,7 +197,7 @@ func (s *Service) CountRecords(ctx context.Context, request *solaris.QueryRecord
 			Limit:   request.Limit},
 		)
 		if err != nil {
-			return nil, err
+			return nil, errors.GRPCWrap(err)
 		}
 
 		total += t
-- 
2.43.0


From 16203f3a798418845c2c69db88b5cf00f6e84f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:54 +0000
Subject: [PATCH 55/98] fix: locallog: appending to a log which is deleted
 meanwhile is an error, not a crash

---
 pkg/storage/logfs/locallog.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/storage/logfs/locallog.go b/pkg/storage/logfs/locallog.go
index a7ac71f..7787cf3 100644
--- a/pkg/storage/logfs/locallog.go
+++ b/pkg/storage/logfs/locallog.go
@@ -183,6 +183,11 @@ func (l *localLog) AppendRecords(ctx context.Context, request *solaris.AppendRec
 		// use the context without cancellation instead of ctx to avoid some unrecoverable error in case of the ctx is closed, but we have some
 		// data written
 		if err := l.LMStorage.UpsertChunkInfos(context.WithoutCancel(ctx), lid, cis); err != nil {
+			if errors.Is(err, errors.ErrNotExist) {
+				// the log was deleted while the records were being written, so they are not needed anymore
+				l.logger.Warnf("the logID=%s doesn't exist anymore, the records written into chunks %v are dropped: %v", lid, cis, err)
+				return nil, err
+			}
 			// well, now it is unrecoverable!
 			l.logger.Errorf("could not write chunk IDs=%v for logID=%s, but the data is written into chunk. The data is corrupted now: %v", cis, lid, err)
 			panic("unrecoverable error, data is corrupted")
-- 
2.43.0


From d9ddc3182d2cbcecf71cea0d3285c88c2da251ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:08 +0000
Subject: [PATCH 56/98] fix: kvs inmem: expired records do not exist for all
 the operations and for the waiters

---
 golibs/kvs/inmem/inmem.go | 73 ++++++++++++++++++++++++---------------
 1 file changed, 45 insertions(+), 28 deletions(-)

diff --git a/golibs/kvs/inmem/inmem.go b/golibs/kvs/inmem/inmem.go
index 8ef80ba..53eee37 100644
--- a/golibs/kvs/inmem/inmem.go
+++ b/golibs/kvs/inmem/inmem.go
@@ -57,7 +57,7 @@ func (s *service) Create(ctx context.Context, record kvs.Record) (string, error)
 	if ctx.Err() != nil {
 		return "", ctx.Err()
 	}
-	if r, ok := s.recs[record.Key]; ok {
+	if r, ok := s.getLive(record.Key); ok {
 		return r.Version, errors.ErrExist
 	}
 	record.Version = ulidutils.NewID()
@@ -68,17 +68,10 @@ func (s *service) Create(ctx context.Context, record kvs.Record) (string, error)
 func (s *service) Get(ctx context.Context, key string) (kvs.Record, error) {
 	s.lock.Lock()
 	defer s.lock.Unlock()
-	r, ok := s.recs[key]
+	r, ok := s.getLive(key)
 	if !ok {
 		return kvs.Record{}, errors.ErrNotExist
 	}
-	if r.ExpiresAt != nil {
-		if r.ExpiresAt.Before(time.Now()) {
-			delete(s.recs, key)
-			s.notifyWaiters(key)
-			return kvs.Record{}, errors.ErrNotExist
-		}
-	}
 	return r, nil
 }
 
@@ -108,17 +101,10 @@ func (s *service) GetMany(ctx context.Context, keys ...string) ([]*kvs.Record, e
 
 	res := make([]*kvs.Record, len(keys))
 	for idx, key := range keys {
-		r, ok := s.recs[key]
+		r, ok := s.getLive(key)
 		if !ok {
 			continue
 		}
-		if r.ExpiresAt != nil {
-			if r.ExpiresAt.Before(time.Now()) {
-				delete(s.recs, key)
-				s.notifyWaiters(key)
-				continue
-			}
-		}
 		res[idx] = &r
 	}
 	return res, nil
@@ -127,17 +113,10 @@ func (s *service) GetMany(ctx context.Context, keys ...string) ([]*kvs.Record, e
 func (s *service) CasByVersion(ctx context.Context, record kvs.Record) (kvs.Record, error) {
 	s.lock.Lock()
 	defer s.lock.Unlock()
-	r, ok := s.recs[record.Key]
+	r, ok := s.getLive(record.Key)
 	if !ok {
 		return kvs.Record{}, errors.ErrNotExist
 	}
-	if r.ExpiresAt != nil {
-		if r.ExpiresAt.Before(time.Now()) {
-			delete(s.recs, record.Key)
-			s.notifyWaiters(record.Key)
-			return kvs.Record{}, errors.ErrNotExist
-		}
-	}
 	if r.Version != record.Version {
 		return kvs.Record{}, errors.ErrConflict
 	}
@@ -151,7 +130,7 @@ func (s *service) Delete(ctx context.Context, key string) error {
 	s.lock.Lock()
 	defer s.lock.Unlock()
 
-	if _, ok := s.recs[key]; !ok {
+	if _, ok := s.getLive(key); !ok {
 		return errors.ErrNotExist
 	}
 	delete(s.recs, key)
@@ -162,7 +141,7 @@ func (s *service) Delete(ctx context.Context, key string) error {
 func (s *service) WaitForVersionChange(ctx context.Context, key, ver string) error {
 	for {
 		s.lock.Lock()
-		r, ok := s.recs[key]
+		r, ok := s.getLive(key)
 		if !ok {
 			s.lock.Unlock()
 			return errors.ErrNotExist
@@ -179,8 +158,19 @@ func (s *service) WaitForVersionChange(ctx context.Context, key, ver string) err
 		ws.waiters++
 		s.lock.Unlock()
 
+		// the record may expire while its version is waited for
+		var expired <-chan time.Time
+		var tmr *time.Timer
+		if r.ExpiresAt != nil {
+			tmr = time.NewTimer(time.Until(*r.ExpiresAt) + time.Nanosecond)
+			expired = tmr.C
+		}
+
 		select {
 		case <-ctx.Done():
+			if tmr != nil {
+				tmr.Stop()
+			}
 			s.lock.Lock()
 			defer s.lock.Unlock()
 			ws1, ok := s.verChange[key]
@@ -195,6 +185,21 @@ func (s *service) WaitForVersionChange(ctx context.Context, key, ver string) err
 			return ctx.Err()
 		case <-ws.done:
 			// need to check the version, go around
+			if tmr != nil {
+				tmr.Stop()
+			}
+		case <-expired:
+			// drop the expired record and wake the other waiters up
+			s.lock.Lock()
+			s.getLive(key)
+			if ws1, ok := s.verChange[key]; ok && ws.done == ws1.done {
+				ws.waiters--
+				if ws.waiters == 0 {
+					close(ws.done)
+					delete(s.verChange, key)
+				}
+			}
+			s.lock.Unlock()
 		}
 	}
 }
@@ -209,13 +214,25 @@ func (s *service) ListKeys(ctx context.Context, pattern string) (iterable.Iterat
 	}
 	res := []string{}
 	for k := range s.recs {
-		if g.Match(k) {
+		if _, ok := s.getLive(k); ok && g.Match(k) {
 			res = append(res, k)
 		}
 	}
 	return &keysIterator{res: res}, nil
 }
 
+// getLive returns the record by the key, if it exists and is not expired. The expired record is removed.
+// It must be called under the lock.
+func (s *service) getLive(key string) (kvs.Record, bool) {
+	r, ok := s.recs[key]
+	if ok && r.ExpiresAt != nil && r.ExpiresAt.Before(time.Now()) {
+		delete(s.recs, key)
+		s.notifyWaiters(key)
+		return kvs.Record{}, false
+	}
+	return r, ok
+}
+
 func (s *service) notifyWaiters(key string) {
 	ws, ok := s.verChange[key]
 	if !ok {
-- 
2.43.0


From 077e8493f010482a4383d05a81ae653d204faccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:45 +0000
Subject: [PATCH 57/98] fix: kvs inmem: the stored values are not shared with
 the callers

---
 golibs/kvs/inmem/inmem.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/golibs/kvs/inmem/inmem.go b/golibs/kvs/inmem/inmem.go
index 53eee37..f1540df 100644
--- a/golibs/kvs/inmem/inmem.go
+++ b/golibs/kvs/inmem/inmem.go
@@ -61,7 +61,7 @@ func (s *service) Create(ctx context.Context, record kvs.Record) (string, error)
 		return r.Version, errors.ErrExist
 	}
 	record.Version = ulidutils.NewID()
-	s.recs[record.Key] = record
+	s.recs[record.Key] = record.Copy()
 	return record.Version, nil
 }
 
@@ -72,14 +72,14 @@ func (s *service) Get(ctx context.Context, key string) (kvs.Record, error) {
 	if !ok {
 		return kvs.Record{}, errors.ErrNotExist
 	}
-	return r, nil
+	return r.Copy(), nil
 }
 
 func (s *service) Put(ctx context.Context, record kvs.Record) (kvs.Record, error) {
 	s.lock.Lock()
 	defer s.lock.Unlock()
 	record.Version = ulidutils.NewID()
-	s.recs[record.Key] = record
+	s.recs[record.Key] = record.Copy()
 	s.notifyWaiters(record.Key)
 	return record, nil
 }
@@ -89,7 +89,7 @@ func (s *service) PutMany(ctx context.Context, records []kvs.Record) error {
 	defer s.lock.Unlock()
 	for _, r := range records {
 		r.Version = ulidutils.NewID()
-		s.recs[r.Key] = r
+		s.recs[r.Key] = r.Copy()
 		s.notifyWaiters(r.Key)
 	}
 	return nil
@@ -105,7 +105,8 @@ func (s *service) GetMany(ctx context.Context, keys ...string) ([]*kvs.Record, e
 		if !ok {
 			continue
 		}
-		res[idx] = &r
+		rc := r.Copy()
+		res[idx] = &rc
 	}
 	return res, nil
 }
@@ -121,7 +122,7 @@ func (s *service) CasByVersion(ctx context.Context, record kvs.Record) (kvs.Reco
 		return kvs.Record{}, errors.ErrConflict
 	}
 	record.Version = ulidutils.NewID()
-	s.recs[record.Key] = record
+	s.recs[record.Key] = record.Copy()
 	s.notifyWaiters(record.Key)
 	return record, nil
 }
-- 
2.43.0


From 09f5acd88b501dee6329876b2e3633acd62937a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:46 +0000
Subject: [PATCH 58/98] fix: kvs redis: CasByVersion reports ErrConflict or
 ErrNotExist if the record is changed concurrently

---
 golibs/kvs/redis/redis.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/golibs/kvs/redis/redis.go b/golibs/kvs/redis/redis.go
index 76d8d34..a7dcfca 100644
--- a/golibs/kvs/redis/redis.go
+++ b/golibs/kvs/redis/redis.go
@@ -117,13 +117,14 @@ func (c *client) PutMany(ctx context.Context, records []kvs.Record) error {
 
 func (c *client) CasByVersion(ctx context.Context, record kvs.Record) (kvs.Record, error) {
 	key := rKey(record.Key)
-	err := c.rdb.Watch(ctx, func(tx *redis.Tx) error {
+	ver := record.Version
+	cas := func(tx *redis.Tx) error {
 		val, err := tx.Get(ctx, key).Result()
 		if err != nil {
 			return checkErr(err)
 		}
 		r := db2rec(cast.StringToByteArray(val))
-		if r.Version != record.Version {
+		if r.Version != ver {
 			return errors.ErrConflict
 		}
 		record.Version = ulidutils.NewID()
@@ -133,8 +134,14 @@ func (c *client) CasByVersion(ctx context.Context, record kvs.Record) (kvs.Recor
 			return err2
 		})
 		return err
-	}, key)
-	return record, err
+	}
+	for {
+		err := c.rdb.Watch(ctx, cas, key)
+		if err != redis.TxFailedErr {
+			return record, err
+		}
+		// the key was touched by somebody else, check what is there now
+	}
 }
 
 func (c *client) Delete(ctx context.Context, key string) error {
-- 
2.43.0


From 95ee299edab41be8865d59e099d9eb06a52684fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:47 +0000
Subject: [PATCH 59/98] fix: kvs redis: Create returns the version of the
 existing record

---
 golibs/kvs/redis/redis.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/golibs/kvs/redis/redis.go b/golibs/kvs/redis/redis.go
index a7dcfca..73ecd03 100644
--- a/golibs/kvs/redis/redis.go
+++ b/golibs/kvs/redis/redis.go
@@ -47,14 +47,23 @@ func New(opts *redis.Options) kvs.Storage {
 func (c *client) Create(ctx context.Context, record kvs.Record) (string, error) {
 	record.Version = ulidutils.NewID()
 	buf := rec2db(&record)
-	ok, err := c.rdb.SetNX(ctx, rKey(record.Key), buf, expiration(record.ExpiresAt, time.Now())).Result()
-	if err != nil {
-		return "", checkErr(err)
-	}
-	if !ok {
-		return "", errors.ErrExist
+	for {
+		ok, err := c.rdb.SetNX(ctx, rKey(record.Key), buf, expiration(record.ExpiresAt, time.Now())).Result()
+		if err != nil {
+			return "", checkErr(err)
+		}
+		if ok {
+			return record.Version, nil
+		}
+		r, err := c.Get(ctx, record.Key)
+		if err == nil {
+			return r.Version, errors.ErrExist
+		}
+		if err != errors.ErrNotExist {
+			return "", err
+		}
+		// the record is gone already, try again
 	}
-	return record.Version, nil
 }
 
 func (c *client) Get(ctx context.Context, key string) (kvs.Record, error) {
-- 
2.43.0


From fe9004d8c181c49990d6a7937638e406437fa0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:56 +0000
Subject: [PATCH 60/98] fix: kvs redis: GetMany without keys is not an error

---
 golibs/kvs/redis/redis.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/golibs/kvs/redis/redis.go b/golibs/kvs/redis/redis.go
index 73ecd03..5dfaf8d 100644
--- a/golibs/kvs/redis/redis.go
+++ b/golibs/kvs/redis/redis.go
@@ -78,6 +78,9 @@ func (c *client) Get(ctx context.Context, key string) (kvs.Record, error) {
 }
 
 func (c *client) GetMany(ctx context.Context, keys ...string) ([]*kvs.Record, error) {
+	if len(keys) == 0 {
+		return []*kvs.Record{}, nil
+	}
 	res, err := c.rdb.MGet(ctx, rKeys(keys)...).Result()
 	if err != nil {
 		return nil, checkErr(err)
-- 
2.43.0


From 483c4bbc1b7243e94545ecd5c7d7d8c62cc40678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:37 +0000
Subject: [PATCH 61/98] fix: kvs redis: PutMany gives new versions to the
 records

---
 golibs/kvs/redis/redis.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/golibs/kvs/redis/redis.go b/golibs/kvs/redis/redis.go
index 5dfaf8d..7f15da0 100644
--- a/golibs/kvs/redis/redis.go
+++ b/golibs/kvs/redis/redis.go
@@ -111,6 +111,7 @@ func (c *client) PutMany(ctx context.Context, records []kvs.Record) error {
 			mset = nil
 			break
 		}
+		r.Version = ulidutils.NewID()
 		mset = append(mset, rKey(r.Key))
 		mset = append(mset, cast.ByteArrayToString(rec2db(&r)))
 	}
-- 
2.43.0


From 2233f9bb4eec6a8193632f414b69da8f8824bb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:43 +0000
Subject: [PATCH 62/98] fix: distlock: a cancelled attempt to lock does not
 leave the lock acquired

---
 golibs/kvs/distlock/kvlock.go | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/golibs/kvs/distlock/kvlock.go b/golibs/kvs/distlock/kvlock.go
index ffb2b20..a09d9d1 100644
--- a/golibs/kvs/distlock/kvlock.go
+++ b/golibs/kvs/distlock/kvlock.go
@@ -106,13 +106,11 @@ func (l *kvsLock) TryLock(ctx context.Context) bool {
 	if err := l.tryLockInternal(); err != nil {
 		return false
 	}
-	if ver, err := l.dlp.Storage.Create(ctx, kvs.Record{
-		Key:       l.key,
-		Value:     cast.StringToByteArray(""),
-		ExpiresAt: cast.Ptr(time.Now().Add(l.dlp.leaseTTL)),
-	}); err == nil {
-		l.future.Store(timeout.Call(func() { l.supportTimeout(ver) }, l.dlp.leaseTTL/2))
-		return true
+	if ctx.Err() == nil {
+		if ver, err := l.createRecord(ctx); err == nil {
+			l.future.Store(timeout.Call(func() { l.supportTimeout(ver) }, l.dlp.leaseTTL/2))
+			return true
+		}
 	}
 	atomic.StoreInt32(&l.lckCntr, 0)
 	l.lockCh <- true
@@ -168,11 +166,7 @@ func (l *kvsLock) lockWithCtx(ctx context.Context) error {
 	err := ctx.Err()
 	var ver string
 	for err == nil {
-		ver, err = l.dlp.Storage.Create(ctx, kvs.Record{
-			Key:       l.key,
-			Value:     cast.StringToByteArray(""),
-			ExpiresAt: cast.Ptr(time.Now().Add(l.dlp.leaseTTL)),
-		})
+		ver, err = l.createRecord(ctx)
 		if err == nil {
 			l.future.Store(timeout.Call(func() { l.supportTimeout(ver) }, l.dlp.leaseTTL/2))
 			return nil
@@ -189,6 +183,16 @@ func (l *kvsLock) lockWithCtx(ctx context.Context) error {
 	return err
 }
 
+// createRecord tries to create the record of the lock. The ctx cannot interrupt the operation, otherwise the record
+// could be created, but nobody would know about that
+func (l *kvsLock) createRecord(ctx context.Context) (string, error) {
+	return l.dlp.Storage.Create(context.WithoutCancel(ctx), kvs.Record{
+		Key:       l.key,
+		Value:     cast.StringToByteArray(""),
+		ExpiresAt: cast.Ptr(time.Now().Add(l.dlp.leaseTTL)),
+	})
+}
+
 // supportTimeout tries to refresh the record timeout if we hold it too long (at least twice of leaseTTL)
 // the function is tricky, cause it uses CAS operation to update the record version and if the version
 // is updated, it recharges the timeout. This is where the new raise can happen and the new future may
-- 
2.43.0


From c1b01a64849942fda02099e646e942fdb90085d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:19 +0000
Subject: [PATCH 63/98] fix: distlock: a temporary problem with the storage
 does not stop prolonging the lease

---
 golibs/kvs/distlock/kvlock.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/golibs/kvs/distlock/kvlock.go b/golibs/kvs/distlock/kvlock.go
index a09d9d1..25de198 100644
--- a/golibs/kvs/distlock/kvlock.go
+++ b/golibs/kvs/distlock/kvlock.go
@@ -205,11 +205,17 @@ func (l *kvsLock) supportTimeout(ver string) {
 		Version:   ver,
 		ExpiresAt: cast.Ptr(time.Now().Add(l.dlp.leaseTTL)),
 	})
-	if err != nil {
+	nextCall := l.dlp.leaseTTL / 2
+	if err != nil && !errors.Is(err, errors.ErrConflict) && !errors.Is(err, errors.ErrNotExist) {
+		// the storage has a problem, the lease is not lost yet, so let's try again soon
+		l.dlp.logger.Warnf("supportTimeout could not prolong the lease for the key=%s, will try again: err=%s", l.key, err)
+		r.Version = ver
+		nextCall = l.dlp.leaseTTL / 10
+	} else if err != nil {
 		l.dlp.logger.Debugf("supportTimeout raise detected, just do nothing for the key=%s, err=%s", l.key, err)
 		return
 	}
-	newFuture := timeout.Call(func() { l.supportTimeout(r.Version) }, l.dlp.leaseTTL/2)
+	newFuture := timeout.Call(func() { l.supportTimeout(r.Version) }, nextCall)
 	if !l.future.CompareAndSwap(future, newFuture) {
 		// somebody already started the new timer, so drop this and forget about the incident
 		l.dlp.logger.Debugf("supportTimeout raise 2 detected, just cancelling the call timeout")
-- 
2.43.0


From b25b05a6e66b5ec8f7fca0f74de397430d21bd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:57 +0000
Subject: [PATCH 64/98] fix: distlock: unlocking does not release the lock,
 which is acquired by another one after the lease expired

---
 golibs/kvs/distlock/kvlock.go | 79 +++++++++++++++++++++++++----------
 1 file changed, 57 insertions(+), 22 deletions(-)

diff --git a/golibs/kvs/distlock/kvlock.go b/golibs/kvs/distlock/kvlock.go
index 25de198..e27c83d 100644
--- a/golibs/kvs/distlock/kvlock.go
+++ b/golibs/kvs/distlock/kvlock.go
@@ -24,6 +24,7 @@ import (
 	"github.com/solarisdb/solaris/golibs/logging"
 	"github.com/solarisdb/solaris/golibs/sync"
 	"github.com/solarisdb/solaris/golibs/timeout"
+	stdsync "sync"
 	"sync/atomic"
 	"time"
 )
@@ -45,9 +46,12 @@ type kvsLock struct {
 	dlp     *kvsLockProvider // immutable
 	key     string           // immutable
 	lockCh  chan bool        // immutable
-	future  atomic.Value     // timeout.Future
 	lckCntr int32
 	waiters int32
+
+	leaseLock stdsync.Mutex
+	future    timeout.Future // guarded by leaseLock
+	ver       string         // version of the record we hold, guarded by leaseLock
 }
 
 // LockProvider helper interface to indicate that the object has
@@ -108,7 +112,7 @@ func (l *kvsLock) TryLock(ctx context.Context) bool {
 	}
 	if ctx.Err() == nil {
 		if ver, err := l.createRecord(ctx); err == nil {
-			l.future.Store(timeout.Call(func() { l.supportTimeout(ver) }, l.dlp.leaseTTL/2))
+			l.startLease(ver)
 			return true
 		}
 	}
@@ -137,12 +141,10 @@ func (l *kvsLock) Unlock() {
 		panic("kvsLock: an attempt to unlock not-locked object " + l.String())
 	}
 
-	future := l.future.Load().(timeout.Future)
-	future.Cancel()
-	err := l.dlp.Storage.Delete(context.Background(), l.key)
-	if err != nil && !errors.Is(err, errors.ErrNotExist) {
+	err := l.releaseRecord(l.stopLease())
+	if err != nil && !errors.Is(err, errors.ErrNotExist) && !errors.Is(err, errors.ErrConflict) {
 		// some serious situation with the storage corruption or non-availability
-		l.dlp.logger.Warnf("kvsLock.Unlock(): could not read the key %s, but will release the lock: %s", l.String(), err)
+		l.dlp.logger.Warnf("kvsLock.Unlock(): could not delete the key %s, but will release the lock: %s", l.String(), err)
 	}
 
 	// unlock the lock
@@ -168,7 +170,7 @@ func (l *kvsLock) lockWithCtx(ctx context.Context) error {
 	for err == nil {
 		ver, err = l.createRecord(ctx)
 		if err == nil {
-			l.future.Store(timeout.Call(func() { l.supportTimeout(ver) }, l.dlp.leaseTTL/2))
+			l.startLease(ver)
 			return nil
 		}
 
@@ -193,18 +195,55 @@ func (l *kvsLock) createRecord(ctx context.Context) (string, error) {
 	})
 }
 
-// supportTimeout tries to refresh the record timeout if we hold it too long (at least twice of leaseTTL)
-// the function is tricky, cause it uses CAS operation to update the record version and if the version
-// is updated, it recharges the timeout. This is where the new raise can happen and the new future may
-// overwrite the future flag stored in the atomic.
-func (l *kvsLock) supportTimeout(ver string) {
-	future := l.future.Load().(timeout.Future)
-	r, err := l.dlp.Storage.CasByVersion(context.Background(), kvs.Record{
+// releaseRecord deletes the record of the lock, if it still has the version provided. If the lease expired, the record
+// could be created by another locker, so it must not be touched
+func (l *kvsLock) releaseRecord(ver string) error {
+	// the record belongs to us for the leaseTTL if the call is successful, so it may be deleted after that
+	if _, err := l.prolongRecord(ver); err != nil {
+		return err
+	}
+	return l.dlp.Storage.Delete(context.Background(), l.key)
+}
+
+// prolongRecord updates the expiration time of the record, if it has the version provided
+func (l *kvsLock) prolongRecord(ver string) (kvs.Record, error) {
+	return l.dlp.Storage.CasByVersion(context.Background(), kvs.Record{
 		Key:       l.key,
 		Value:     cast.StringToByteArray(""),
 		Version:   ver,
 		ExpiresAt: cast.Ptr(time.Now().Add(l.dlp.leaseTTL)),
 	})
+}
+
+// startLease begins supporting the record, which is just created with the version provided
+func (l *kvsLock) startLease(ver string) {
+	l.leaseLock.Lock()
+	defer l.leaseLock.Unlock()
+	l.ver = ver
+	l.future = timeout.Call(func() { l.supportTimeout(ver) }, l.dlp.leaseTTL/2)
+}
+
+// stopLease stops supporting the record and returns its last known version
+func (l *kvsLock) stopLease() string {
+	l.leaseLock.Lock()
+	defer l.leaseLock.Unlock()
+	l.future.Cancel()
+	ver := l.ver
+	l.ver = ""
+	return ver
+}
+
+// supportTimeout tries to refresh the record timeout if we hold it too long (at least twice of leaseTTL)
+// the function uses CAS operation to update the record version and if the version
+// is updated, it recharges the timeout.
+func (l *kvsLock) supportTimeout(ver string) {
+	l.leaseLock.Lock()
+	defer l.leaseLock.Unlock()
+	if l.ver != ver {
+		// the lock was released already
+		return
+	}
+	r, err := l.prolongRecord(ver)
 	nextCall := l.dlp.leaseTTL / 2
 	if err != nil && !errors.Is(err, errors.ErrConflict) && !errors.Is(err, errors.ErrNotExist) {
 		// the storage has a problem, the lease is not lost yet, so let's try again soon
@@ -212,15 +251,11 @@ func (l *kvsLock) supportTimeout(ver string) {
 		r.Version = ver
 		nextCall = l.dlp.leaseTTL / 10
 	} else if err != nil {
-		l.dlp.logger.Debugf("supportTimeout raise detected, just do nothing for the key=%s, err=%s", l.key, err)
+		l.dlp.logger.Warnf("supportTimeout the lease is lost for the key=%s, err=%s", l.key, err)
 		return
 	}
-	newFuture := timeout.Call(func() { l.supportTimeout(r.Version) }, nextCall)
-	if !l.future.CompareAndSwap(future, newFuture) {
-		// somebody already started the new timer, so drop this and forget about the incident
-		l.dlp.logger.Debugf("supportTimeout raise 2 detected, just cancelling the call timeout")
-		newFuture.Cancel()
-	}
+	l.ver = r.Version
+	l.future = timeout.Call(func() { l.supportTimeout(r.Version) }, nextCall)
 }
 
 func (l *kvsLock) isLocked() bool {
-- 
2.43.0


From ff4615ee2cddc04118eb67cac1902bfac4807186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:35 +0000
Subject: [PATCH 65/98] fix: files: ListDir lists the folder however its name
 is written (".", "./a", "a//")

---
 golibs/files/files.go | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/golibs/files/files.go b/golibs/files/files.go
index bdab0f4..5eb4bed 100644
--- a/golibs/files/files.go
+++ b/golibs/files/files.go
@@ -106,22 +106,18 @@ func ensureDirName(path string) string {
 
 // ListDir returns files and directories non-recursive (in the dir provided only)
 func ListDir(dir string) []os.FileInfo {
-	dir = ensureDirName(dir)
-	res := make([]os.FileInfo, 0, 10)
-	filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
-		if err != nil {
-			return nil
-		}
+	entries, _ := os.ReadDir(dir)
+	return toFileInfos(entries)
+}
 
-		fpath, _ := filepath.Split(path)
-		if ensureDirName(fpath) != dir {
-			return nil
+// toFileInfos returns the infos for the entries, which still exist
+func toFileInfos(entries []os.DirEntry) []os.FileInfo {
+	res := make([]os.FileInfo, 0, len(entries))
+	for _, e := range entries {
+		if info, err := e.Info(); err == nil {
+			res = append(res, info)
 		}
-
-		res = append(res, info)
-		return nil
-	})
-
+	}
 	return res
 }
 
-- 
2.43.0


From 9103c4c23e82660f75a54b3cfbfc91932ff854b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:35 +0000
Subject: [PATCH 66/98] fix: files: CopyDir reports that the source folder
 cannot be read

---
 golibs/files/files.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/golibs/files/files.go b/golibs/files/files.go
index 5eb4bed..338ddfd 100644
--- a/golibs/files/files.go
+++ b/golibs/files/files.go
@@ -284,13 +284,15 @@ func IsDirEmpty(name string) (bool, error) {
 
 // CopyDir copies dir by path "from" to the dir by path "to"
 func CopyDir(from, to string) error {
-	err := EnsureDirExists(to)
+	entries, err := os.ReadDir(from)
 	if err != nil {
+		return fmt.Errorf("CopyDir: could not read the folder %s: %w", from, err)
+	}
+	if err = EnsureDirExists(to); err != nil {
 		return err
 	}
 
-	finfos := ListDir(from)
-	for _, fi := range finfos {
+	for _, fi := range entries {
 		if fi.IsDir() {
 			err := CopyDir(filepath.Join(from, fi.Name()), filepath.Join(to, fi.Name()))
 			if err != nil {
-- 
2.43.0


From a39fc0e6d514d76a55a4a29fbbb384335ae3379b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:35 +0000
Subject: [PATCH 67/98] fix: files: ZipFolder gives right names to the files,
 however the name of the folder is written

---
 golibs/files/files.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/golibs/files/files.go b/golibs/files/files.go
index 338ddfd..6bf3bc5 100644
--- a/golibs/files/files.go
+++ b/golibs/files/files.go
@@ -126,7 +126,6 @@ func toFileInfos(entries []os.DirEntry) []os.FileInfo {
 // whether it should be zipped(true) or not(false).
 // The recursive param indicates whether sub-folders should be added recursively or not
 func ZipFolder(srcDir, destFile string, testFunc func(string) bool, recursive bool) error {
-	srcDir = ensureDirName(srcDir)
 	f, err := os.Create(destFile)
 	if err != nil {
 		return fmt.Errorf("ZipFolder: could not create %s for write, err=%w", destFile, err)
@@ -147,16 +146,18 @@ func ZipFolder(srcDir, destFile string, testFunc func(string) bool, recursive bo
 			return nil
 		}
 
+		relPath, err := filepath.Rel(srcDir, path)
+		if err != nil {
+			return fmt.Errorf("ZipFolder: unexpected path %s: %w", path, err)
+		}
 		if !recursive {
-			dir, _ := filepath.Split(path)
-			dir = ensureDirName(dir)
-			if dir != srcDir {
+			if filepath.Dir(relPath) != "." {
 				// skipping subfolders
 				return nil
 			}
 		}
 
-		dstFileName := path[len(srcDir):]
+		dstFileName := "/" + filepath.ToSlash(relPath)
 		out, err := w.Create(dstFileName)
 		if err != nil {
 			return fmt.Errorf("ZipFolder: could not write %s into %s, err=%w", path, dstFileName, err)
-- 
2.43.0


From 33ba1a869271093a879733e5afe668277ad2035f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:35 +0000
Subject: [PATCH 68/98] fix: files: ZipFolder reports the errors of reading and
 writing

---
 golibs/files/files.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/golibs/files/files.go b/golibs/files/files.go
index 6bf3bc5..28722f1 100644
--- a/golibs/files/files.go
+++ b/golibs/files/files.go
@@ -167,11 +167,16 @@ func ZipFolder(srcDir, destFile string, testFunc func(string) bool, recursive bo
 		if err != nil {
 			return fmt.Errorf("ZipFolder: could not write %s into %s, err=%w", path, dstFileName, err)
 		}
-		io.Copy(out, in)
+		_, err = io.Copy(out, in)
 		in.Close()
+		if err != nil {
+			return fmt.Errorf("ZipFolder: could not write %s into %s, err=%w", path, dstFileName, err)
+		}
 		return nil
 	})
-	w.Close()
+	if cerr := w.Close(); err == nil {
+		err = cerr
+	}
 	if err != nil {
 		os.Remove(destFile)
 	}
-- 
2.43.0


From 1fe453cb5e7b06f77eaf43b5c6d26df91f0476ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:35 +0000
Subject: [PATCH 69/98] fix: files: UnzipToFolder doesn't write out of the
 destination folder

---
 golibs/files/files.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/golibs/files/files.go b/golibs/files/files.go
index 28722f1..34b853b 100644
--- a/golibs/files/files.go
+++ b/golibs/files/files.go
@@ -201,6 +201,10 @@ func UnzipToFolder(zipFile, destDir string) error {
 			continue
 		}
 
+		if !filepath.IsLocal(strings.TrimLeft(z.Name, "/")) {
+			return fmt.Errorf("UnzipToFolder: the file \"%s\" is out of the destination folder: %w", z.Name, errors.ErrInvalid)
+		}
+
 		partPath, _ := filepath.Split(z.Name)
 		destPath := filepath.Join(destDir, partPath)
 		if !pathChecked[destPath] {
-- 
2.43.0


From bfe997e53f9d0e9a709282311a3b1e563d6ba5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:35 +0000
Subject: [PATCH 70/98] fix: files: the zip iterator and the writer close their
 files in case of errors

---
 golibs/files/ziputil.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/golibs/files/ziputil.go b/golibs/files/ziputil.go
index 0ad3417..a38bcd4 100644
--- a/golibs/files/ziputil.go
+++ b/golibs/files/ziputil.go
@@ -58,6 +58,7 @@ func NewZipIterator(zipFile string) (ZipIterator, error) {
 
 	zr, err := zip.NewReader(f, fi.Size())
 	if err != nil {
+		f.Close()
 		return nil, err
 	}
 	return &zipIterator{zr: zr, idx: 0, f: f}, nil
@@ -113,8 +114,10 @@ func (zw *ZipWriter) Close() error {
 	}
 	err := zw.zw.Close()
 	zw.zw = nil
-	if err == nil && zw.f != nil {
-		err = zw.f.Close()
+	if zw.f != nil {
+		if cerr := zw.f.Close(); err == nil {
+			err = cerr
+		}
 		zw.f = nil
 	}
 	return err
-- 
2.43.0


From 9f2f71c1252b4ad040fb2f3fa52acdf3b4033d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:35 +0000
Subject: [PATCH 71/98] fix: files: ZipCopy reports the errors of reading and
 writing

---
 golibs/files/ziputil.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/golibs/files/ziputil.go b/golibs/files/ziputil.go
index a38bcd4..2cd3d9d 100644
--- a/golibs/files/ziputil.go
+++ b/golibs/files/ziputil.go
@@ -135,8 +135,11 @@ func ZipCopy(zw *ZipWriter, zi ZipIterator, prefix string) error {
 		if err != nil {
 			return fmt.Errorf("could not open file %s: %w", f.Name, err)
 		}
-		io.Copy(w, in)
+		_, err = io.Copy(w, in)
 		in.Close()
+		if err != nil {
+			return fmt.Errorf("could not copy file %s: %w", f.Name, err)
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 786e49f320301028684ce7c57c68138c77642a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:35 +0000
Subject: [PATCH 72/98] fix: files: ZipCopy doesn't turn folders into empty
 files

---
 golibs/files/ziputil.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/golibs/files/ziputil.go b/golibs/files/ziputil.go
index 2cd3d9d..e8a5fbb 100644
--- a/golibs/files/ziputil.go
+++ b/golibs/files/ziputil.go
@@ -126,6 +126,9 @@ func (zw *ZipWriter) Close() error {
 // ZipCopy copy files from zi to zw adding the prefix name to each file from zi
 func ZipCopy(zw *ZipWriter, zi ZipIterator, prefix string) error {
 	for f := zi.Next(); f != nil; f = zi.Next() {
+		if f.FileInfo().IsDir() {
+			continue
+		}
 		fn := filepath.Join(prefix, f.Name)
 		w, err := zw.Create(fn)
 		if err != nil {
-- 
2.43.0


From fae13fb2095dd4d84bc8260022d6fa61eba42fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:35 +0000
Subject: [PATCH 73/98] fix: files: EnsureFileExists creates a file in the
 current folder

---
 golibs/files/files.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/golibs/files/files.go b/golibs/files/files.go
index 34b853b..98922b0 100644
--- a/golibs/files/files.go
+++ b/golibs/files/files.go
@@ -76,8 +76,7 @@ func EnsureDirExists(dir string) error {
 // EnsureFileExists checks whether the file exists and creates the new one if it doesn't. The function will create
 // directories which don't exist in the file path
 func EnsureFileExists(fn string) error {
-	dir, _ := filepath.Split(fn)
-	if err := EnsureDirExists(dir); err != nil {
+	if err := EnsureDirExists(filepath.Dir(fn)); err != nil {
 		return err
 	}
 	_, err := os.Stat(fn)
-- 
2.43.0


From 7a0b846b2de7557c2150e1ba01b944cbfa5fa3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:35 +0000
Subject: [PATCH 74/98] fix: files: HashDir is different for different folders
 and doesn't depend on how the name of the folder is written

---
 golibs/files/hash.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/golibs/files/hash.go b/golibs/files/hash.go
index f4ded1d..decc2b7 100644
--- a/golibs/files/hash.go
+++ b/golibs/files/hash.go
@@ -15,22 +15,32 @@ package files
 
 import (
 	"crypto/sha256"
+	"encoding/binary"
 	"github.com/solarisdb/solaris/golibs/cast"
 	"github.com/solarisdb/solaris/golibs/strutil"
+	"hash"
 	"os"
 	"path/filepath"
 	"sort"
 )
 
+// hashField adds the length and the data, so that different lists of the fields never look the same
+func hashField(h hash.Hash, data []byte) {
+	var size [8]byte
+	binary.BigEndian.PutUint64(size[:], uint64(len(data)))
+	h.Write(size[:])
+	h.Write(data)
+}
+
 // HashDir calculates SHA256 for the whole dir context. Context is the file names and their data
 // if recursive is true then the hash will be calculated for all sub-folders as well, otherwise
 // only the files in path will be included, but all directories in path will be ignored.
 func HashDir(path string, testFunc func(fi os.FileInfo) bool, recursive bool) (strutil.Hash, error) {
-	path = ensureDirName(path)
 	_, err := os.Stat(path)
 	if os.IsNotExist(err) {
 		return nil, nil
 	}
+	path = filepath.Clean(path)
 
 	files := make(map[string]bool, 10)
 	files[path] = false
@@ -41,9 +51,7 @@ func HashDir(path string, testFunc func(fi os.FileInfo) bool, recursive bool) (s
 			return nil
 		}
 		if !recursive {
-			dir, _ := filepath.Split(pth)
-			dir = ensureDirName(dir)
-			if dir != path || info.IsDir() {
+			if info.IsDir() || filepath.Dir(pth) != path {
 				return nil
 			}
 		}
@@ -64,13 +72,20 @@ func HashDir(path string, testFunc func(fi os.FileInfo) bool, recursive bool) (s
 
 	h := sha256.New()
 	for _, name := range names {
-		h.Write(cast.StringToByteArray(name[len(path):]))
+		rel, err := filepath.Rel(path, name)
+		if err != nil {
+			return nil, err
+		}
+		hashField(h, cast.StringToByteArray(rel))
 		if files[name] {
 			data, err := os.ReadFile(name)
 			if err != nil {
 				return nil, err
 			}
-			h.Write(data)
+			h.Write([]byte{1})
+			hashField(h, data)
+		} else {
+			h.Write([]byte{0})
 		}
 	}
 
-- 
2.43.0


From cd9ede7184e793a1e49dfdcbde59701790977c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:04 +0000
Subject: [PATCH 75/98] fix: config: the extension .json is recognized in any
 case, as .yaml is

---
 golibs/config/enricher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golibs/config/enricher.go b/golibs/config/enricher.go
index 1f2360a..577b6c6 100644
--- a/golibs/config/enricher.go
+++ b/golibs/config/enricher.go
@@ -137,7 +137,7 @@ func (e *enricher[T]) LoadFromFile(fileName string) error {
 	switch {
 	case strings.HasSuffix(fn, ".yaml"):
 		return e.LoadFromYAMLFile(fileName)
-	case strings.HasSuffix(fileName, ".json"):
+	case strings.HasSuffix(fn, ".json"):
 		return e.LoadFromJSONFile(fileName)
 	default:
 		return fmt.Errorf("cannot recognize file format %s, expecting .json or .yaml: %w", fileName, errors.ErrInvalid)
-- 
2.43.0


From 3380cdd313861e358bd18206702bda43b67c1b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:04 +0000
Subject: [PATCH 76/98] fix: config: the alias of a field is found when other
 annotations of it contain 'json'

---
 golibs/config/enricher.go | 40 +++------------------------------------
 1 file changed, 3 insertions(+), 37 deletions(-)

diff --git a/golibs/config/enricher.go b/golibs/config/enricher.go
index 577b6c6..9681864 100644
--- a/golibs/config/enricher.go
+++ b/golibs/config/enricher.go
@@ -389,42 +389,8 @@ func ifStringUnderlying(tp reflect.Type) bool {
 	return tp.Kind() == reflect.String
 }
 
+// getAlias returns the name of the field from its JSON annotation in the upper case
 func getAlias(tags string) string {
-	name := "json"
-	if len(name) >= len(tags) {
-		return ""
-	}
-
-	i := strings.Index(tags, name)
-	if i < 0 {
-		return ""
-	}
-
-	tags = tags[i+len(name):]
-	tags = strings.TrimLeft(tags, " ")
-	if len(tags) == 0 || tags[0] != ':' {
-		return ""
-	}
-	tags = strings.TrimLeft(tags[1:], " ")
-
-	if len(tags) == 0 || tags[0] != '"' {
-		return ""
-	}
-	tags = tags[1:]
-
-	for i = 0; i < len(tags) && tags[i] != '"'; i++ {
-		if tags[i] == '\\' {
-			i++
-		}
-	}
-	if i >= len(tags) {
-		return ""
-	}
-
-	tags = tags[:i]
-	idx := strings.Index(tags, ",")
-	if idx == -1 {
-		return strings.ToUpper(tags)
-	}
-	return strings.ToUpper(tags[:idx])
+	name, _, _ := strings.Cut(reflect.StructTag(tags).Get("json"), ",")
+	return strings.ToUpper(name)
 }
-- 
2.43.0


From a4d9770e136ffc906d730707ba7462a46a49daab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:04 +0000
Subject: [PATCH 77/98] fix: config: strings with control characters are
 accepted as values of variables

---
 golibs/config/enricher.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/golibs/config/enricher.go b/golibs/config/enricher.go
index 9681864..15fc66b 100644
--- a/golibs/config/enricher.go
+++ b/golibs/config/enricher.go
@@ -19,7 +19,6 @@ import (
 	"github.com/solarisdb/solaris/golibs/logging"
 	"os"
 	"reflect"
-	"strconv"
 	"strings"
 
 	"github.com/ghodss/yaml"
@@ -362,7 +361,12 @@ func setFieldValueByString(field reflect.Value, s string) error {
 
 	obj := reflect.New(field.Type()).Interface()
 	if ifStringUnderlying(field.Type()) && !isQuoted(s) {
-		s = strconv.Quote(s)
+		// strconv.Quote() is not an option here: its escape sequences are not the JSON ones
+		buf, err := json.Marshal(s)
+		if err != nil {
+			return err
+		}
+		s = string(buf)
 	}
 
 	err := json.Unmarshal([]byte(s), obj)
-- 
2.43.0


From 7ec711ec8e2efba013a231d4999eda0086aebd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:04 +0000
Subject: [PATCH 78/98] fix: config: ApplyOther applies zero values, which the
 other value has pointers to

---
 golibs/config/enricher.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/golibs/config/enricher.go b/golibs/config/enricher.go
index 15fc66b..aa3d975 100644
--- a/golibs/config/enricher.go
+++ b/golibs/config/enricher.go
@@ -249,6 +249,13 @@ func (e *enricher[T]) applyValues(other, target reflect.Value) error {
 		return nil
 	}
 	if other.Type().Kind() == reflect.Ptr {
+		if ek := other.Type().Elem().Kind(); ek != reflect.Ptr && ek != reflect.Struct {
+			// the pointer says that the value is set, even if the value is the zero one
+			val := reflect.New(other.Type().Elem())
+			val.Elem().Set(other.Elem())
+			target.Set(val)
+			return nil
+		}
 		if target.IsNil() {
 			target.Set(reflect.New(target.Type().Elem()))
 		}
-- 
2.43.0


From a8208cf5d609c8440941be439e45fd4c664cfae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:04 +0000
Subject: [PATCH 79/98] fix: config: ApplyOther does not panic if there are
 unexported fields

---
 golibs/config/enricher.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/golibs/config/enricher.go b/golibs/config/enricher.go
index aa3d975..bd6cb6d 100644
--- a/golibs/config/enricher.go
+++ b/golibs/config/enricher.go
@@ -261,11 +261,15 @@ func (e *enricher[T]) applyValues(other, target reflect.Value) error {
 		}
 		return e.applyValues(other.Elem(), target.Elem())
 	}
-	if other.Type().Kind() != reflect.Struct {
+	if !hasExportedFields(other.Type()) {
+		// not a structure, or the structure is an opaque value, like time.Time
 		target.Set(other)
 		return nil
 	}
 	for fi := 0; fi < other.NumField(); fi++ {
+		if !other.Type().Field(fi).IsExported() {
+			continue
+		}
 		fo := other.Field(fi)
 		ft := target.Field(fi)
 		err := e.applyValues(fo, ft)
@@ -348,6 +352,19 @@ func (e *enricher[T]) assignStruct(s any, path, sep string, v string) bool {
 	return false
 }
 
+// hasExportedFields returns whether the type is a structure, which has at least one exported field
+func hasExportedFields(t reflect.Type) bool {
+	if t.Kind() != reflect.Struct {
+		return false
+	}
+	for fi := 0; fi < t.NumField(); fi++ {
+		if t.Field(fi).IsExported() {
+			return true
+		}
+	}
+	return false
+}
+
 func isStructPtr(t reflect.Type) bool {
 	return t.Kind() == reflect.Ptr && t.Elem().Kind() == reflect.Struct
 }
-- 
2.43.0


From a4a1f0a0b439cb30ec2b565fa6eae9761ec0d1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:28 +0000
Subject: [PATCH 80/98] fix: config: no panic if a variable addresses an
 unexported field

---
 golibs/config/enricher.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/golibs/config/enricher.go b/golibs/config/enricher.go
index bd6cb6d..329d1a2 100644
--- a/golibs/config/enricher.go
+++ b/golibs/config/enricher.go
@@ -282,8 +282,8 @@ func (e *enricher[T]) applyValues(other, target reflect.Value) error {
 
 // assignStruct assigns a field addressed by the path with a seaprator sep to the value v,
 // which is a json encoded string. s must be a pointer to a structure. path contains the
-// name of fields or aliases (json:"name,..." annotation) separated by sep. If a field is
-// not exported or cannot be changed the function will panicing.
+// name of fields or aliases (json:"name,..." annotation) separated by sep. The
+// fields, which are not exported, are ignored. If a field cannot be changed the function will panicing.
 //
 // Some objects in the path may not exist yet (pointers to values or structs) with nil
 // value. This case the function will create the all objects needed in the path, but only in
@@ -311,6 +311,9 @@ func (e *enricher[T]) assignStruct(s any, path, sep string, v string) bool {
 	}
 
 	for fi := 0; fi < val.Elem().NumField(); fi++ {
+		if !tp.Elem().Field(fi).IsExported() {
+			continue
+		}
 		f := val.Elem().Field(fi)
 		fTags := string(tp.Elem().Field(fi).Tag)
 		fName := strings.ToUpper(tp.Elem().Field(fi).Name)
-- 
2.43.0


From fbe40049b5cb8f3fc337952b7054165a82b89227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:49 +0000
Subject: [PATCH 81/98] fix: sss: deleting of a missing object from the
 in-memory storage is not an error

---
 golibs/sss/inmem/storage.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/golibs/sss/inmem/storage.go b/golibs/sss/inmem/storage.go
index c9e9212..bb85774 100755
--- a/golibs/sss/inmem/storage.go
+++ b/golibs/sss/inmem/storage.go
@@ -103,15 +103,12 @@ func (st *Storage) List(_ context.Context, path string) ([]string, error) {
 }
 
 // Delete allows to delete a value by key. If the key doesn't exist, the operation
-// will return no errors.ErrNotExist
+// will return no error
 func (st *Storage) Delete(_ context.Context, key string) error {
 	if !sss.IsKeyValid(key) {
 		return fmt.Errorf("Storage.Delete(): invalid key=%s", key)
 	}
 
-	if _, ok := st.storage[key]; !ok {
-		return errors.ErrNotExist
-	}
 	delete(st.storage, key)
 	return nil
 }
-- 
2.43.0


From bd340086bcb36a554f7af34706f6c5c23d714ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:51 +0000
Subject: [PATCH 82/98] fix: sss: the in-memory storage may be used from
 several go-routines

---
 golibs/sss/inmem/storage.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/golibs/sss/inmem/storage.go b/golibs/sss/inmem/storage.go
index bb85774..3f7f1ae 100755
--- a/golibs/sss/inmem/storage.go
+++ b/golibs/sss/inmem/storage.go
@@ -23,11 +23,13 @@ import (
 	"io"
 	"io/ioutil"
 	"strings"
+	"sync"
 )
 
 // Storage provides kvs.Storage functionality in local process memory. This instance can be
 // used in a single-node configuration or in a test-purposes.
 type Storage struct {
+	lock    sync.RWMutex
 	storage map[string][]byte
 }
 
@@ -47,6 +49,9 @@ func (st *Storage) Get(_ context.Context, key string) (io.ReadCloser, error) {
 		return nil, fmt.Errorf("Storage.Get(): invalid key=%s", key)
 	}
 
+	st.lock.RLock()
+	defer st.lock.RUnlock()
+
 	if buf, ok := st.storage[key]; ok {
 		return ioutil.NopCloser(bytes.NewReader(buf)), nil
 	}
@@ -66,6 +71,10 @@ func (st *Storage) Put(_ context.Context, key string, r io.Reader) error {
 	}
 	b1 := make([]byte, len(buf))
 	copy(b1, buf)
+
+	st.lock.Lock()
+	defer st.lock.Unlock()
+
 	st.storage[key] = b1
 	return nil
 }
@@ -82,6 +91,9 @@ func (st *Storage) List(_ context.Context, path string) ([]string, error) {
 		return nil, fmt.Errorf("Storage.List(): invalid path=%s", path)
 	}
 
+	st.lock.RLock()
+	defer st.lock.RUnlock()
+
 	res := make([]string, 0, 10)
 	added := make(map[string]bool)
 	for k := range st.storage {
@@ -109,6 +121,9 @@ func (st *Storage) Delete(_ context.Context, key string) error {
 		return fmt.Errorf("Storage.Delete(): invalid key=%s", key)
 	}
 
+	st.lock.Lock()
+	defer st.lock.Unlock()
+
 	delete(st.storage, key)
 	return nil
 }
-- 
2.43.0


From 44981f1ca47fd070156efeae848b52bc5680c890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:19 +0000
Subject: [PATCH 83/98] fix: sss: s3 doesn't mix up objects, which keys have
 '.' or '..' in the path

---
 golibs/sss/s3/storage.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/golibs/sss/s3/storage.go b/golibs/sss/s3/storage.go
index 6830353..84c517e 100755
--- a/golibs/sss/s3/storage.go
+++ b/golibs/sss/s3/storage.go
@@ -42,7 +42,8 @@ func (st *Storage) Init(_ context.Context) error {
 	if err != nil {
 		return fmt.Errorf("could not initialize Storage, bucket=%s: %w", st.Bucket, err)
 	}
-	st.client = s3.New(newSession)
+	// the keys are used as they are, "/a/../b" and "/b" are different ones
+	st.client = s3.New(newSession, aws.NewConfig().WithDisableRestProtocolURICleaning(true))
 	return nil
 }
 
-- 
2.43.0


From a0662718481a9bb841880b3bad3cf43e5b278a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:21 +0000
Subject: [PATCH 84/98] fix: sss: s3 stores objects from the readers, which are
 not seekable

---
 golibs/sss/s3/storage.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/golibs/sss/s3/storage.go b/golibs/sss/s3/storage.go
index 84c517e..a94a20a 100755
--- a/golibs/sss/s3/storage.go
+++ b/golibs/sss/s3/storage.go
@@ -15,6 +15,7 @@
 package s3
 
 import (
+	"bytes"
 	"context"
 	"fmt"
 	"github.com/aws/aws-sdk-go/aws"
@@ -70,8 +71,18 @@ func (st *Storage) Put(ctx context.Context, key string, r io.Reader) error {
 		return fmt.Errorf("Storage.Put(): invalid key=%s: %w", key, errors.ErrInvalid)
 	}
 
+	body, ok := r.(io.ReadSeeker)
+	if !ok {
+		// only seekable bodies can be signed
+		buf, err := io.ReadAll(r)
+		if err != nil {
+			return err
+		}
+		body = bytes.NewReader(buf)
+	}
+
 	_, err := st.client.PutObjectWithContext(ctx, &s3.PutObjectInput{
-		Body:   aws.ReadSeekCloser(r),
+		Body:   body,
 		Bucket: aws.String(st.Bucket),
 		Key:    aws.String(toS3Path(key)),
 	})
-- 
2.43.0


From e7617a9afd9ba346c6a0111244860c903128b1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:29 +0000
Subject: [PATCH 85/98] fix: files: a mapped buffer of a huge size is cut at
 the end of the file

---
 golibs/container/bytes/inmem.go | 2 +-
 golibs/files/mmfile.go          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/golibs/container/bytes/inmem.go b/golibs/container/bytes/inmem.go
index f490dee..e06536c 100644
--- a/golibs/container/bytes/inmem.go
+++ b/golibs/container/bytes/inmem.go
@@ -68,7 +68,7 @@ func (ib *inmemBtsBuf) Buffer(offs int64, size int) ([]byte, error) {
 	if offs < 0 || offs >= ib.Size() {
 		return nil, fmt.Errorf("offs=%d is out of bounds [0..%d): %w", offs, ib.Size(), errors.ErrInvalid)
 	}
-	if offs+int64(size) > ib.Size() {
+	if int64(size) > ib.Size()-offs {
 		size = int(ib.Size() - offs)
 	}
 	return (*ib)[int(offs) : int(offs)+size], nil
diff --git a/golibs/files/mmfile.go b/golibs/files/mmfile.go
index 570d0da..ed846e1 100644
--- a/golibs/files/mmfile.go
+++ b/golibs/files/mmfile.go
@@ -159,7 +159,7 @@ func (mmf *MMFile) Buffer(offs int64, size int) ([]byte, error) {
 	}
 
 	idx := int(offs)
-	if idx+size >= int(mmf.size) {
+	if int64(size) > mmf.size-offs {
 		size = int(mmf.size - offs)
 	}
 
-- 
2.43.0


From 18701a198d8f337ffd46ec7670e27df68d168391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:32 +0000
Subject: [PATCH 86/98] fix: errors: no panic for the errors of the types,
 which are not comparable

---
 golibs/errors/grpc.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/golibs/errors/grpc.go b/golibs/errors/grpc.go
index 56e0b45..3a3b7ea 100644
--- a/golibs/errors/grpc.go
+++ b/golibs/errors/grpc.go
@@ -74,9 +74,6 @@ func GRPCStatusCode(err error) codes.Code {
 	if code != codes.Unknown {
 		return code
 	}
-	if code, ok := errorsToCode[err]; ok {
-		return code
-	}
 	for e, c := range errorsToCode {
 		if errors.Is(err, e) {
 			return c
-- 
2.43.0


From e1cf12fda733cb261dddcd09d19d8c022e325066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:01 +0000
Subject: [PATCH 87/98] fix: sss: the in-memory storage reports a missing
 object on delete again

The replicator's tests rely on it. Reverts fbe4004.
---
 golibs/sss/inmem/storage.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/golibs/sss/inmem/storage.go b/golibs/sss/inmem/storage.go
index 3f7f1ae..f36f3a6 100755
--- a/golibs/sss/inmem/storage.go
+++ b/golibs/sss/inmem/storage.go
@@ -115,7 +115,7 @@ func (st *Storage) List(_ context.Context, path string) ([]string, error) {
 }
 
 // Delete allows to delete a value by key. If the key doesn't exist, the operation
-// will return no error
+// will return no errors.ErrNotExist
 func (st *Storage) Delete(_ context.Context, key string) error {
 	if !sss.IsKeyValid(key) {
 		return fmt.Errorf("Storage.Delete(): invalid key=%s", key)
@@ -124,6 +124,9 @@ func (st *Storage) Delete(_ context.Context, key string) error {
 	st.lock.Lock()
 	defer st.lock.Unlock()
 
+	if _, ok := st.storage[key]; !ok {
+		return errors.ErrNotExist
+	}
 	delete(st.storage, key)
 	return nil
 }
-- 
2.43.0


From 241e0d772d94270f2458cb379644924390cafb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:21 +0000
Subject: [PATCH 88/98] fix: postgres: a condition with OR does not select the
 logs marked as deleted

---
 pkg/storage/postgres/postgres.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/pkg/storage/postgres/postgres.go b/pkg/storage/postgres/postgres.go
index 57c9592..f6eb2de 100644
--- a/pkg/storage/postgres/postgres.go
+++ b/pkg/storage/postgres/postgres.go
@@ -109,8 +109,8 @@ func (s *Storage) QueryLogs(ctx context.Context, qr storage.QueryLogsRequest) (*
 		}
 		sb.WriteString(")")
 	} else if len(qr.Condition) > 0 {
-		if err := qlToPqTranslator.Translate(&sb, qr.Condition); err != nil {
-			return nil, fmt.Errorf("condition=%q translate error=%v: %w", qr.Condition, err, errors.ErrInvalid)
+		if err := translateCondition(&sb, qr.Condition); err != nil {
+			return nil, err
 		}
 	}
 
@@ -180,8 +180,8 @@ func (s *Storage) DeleteLogs(ctx context.Context, req storage.DeleteLogsRequest)
 		}
 		sb.WriteString(")")
 	} else if len(req.Condition) > 0 {
-		if err := qlToPqTranslator.Translate(&sb, req.Condition); err != nil {
-			return nil, fmt.Errorf("condition=%q translate error=%v: %w", req.Condition, err, errors.ErrInvalid)
+		if err := translateCondition(&sb, req.Condition); err != nil {
+			return nil, err
 		}
 	}
 	if sb.Len() == 0 {
@@ -286,6 +286,19 @@ func (s *Storage) UpsertChunkInfos(ctx context.Context, logID string, cis []logf
 
 // ===================================== helpers =====================================
 
+// translateCondition writes the logs condition translated to the Postgres dialect. The result is
+// in parentheses, so it may be combined with other expressions.
+func translateCondition(sb *strings.Builder, cond string) error {
+	var res strings.Builder
+	if err := qlToPqTranslator.Translate(&res, cond); err != nil {
+		return fmt.Errorf("condition=%q translate error=%v: %w", cond, err, errors.ErrInvalid)
+	}
+	if res.Len() > 0 {
+		sb.WriteString(" (" + res.String() + ")")
+	}
+	return nil
+}
+
 func scan[T any](rows *sqlx.Rows) (T, error) {
 	var res T
 	if rows.Next() {
-- 
2.43.0


From 36e50f00027371fd2a8bbbf41901662783c76196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:21 +0000
Subject: [PATCH 89/98] fix: postgres: the page and the default limit of a
 query of logs are respected

---
 pkg/storage/postgres/postgres.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/storage/postgres/postgres.go b/pkg/storage/postgres/postgres.go
index f6eb2de..a023b10 100644
--- a/pkg/storage/postgres/postgres.go
+++ b/pkg/storage/postgres/postgres.go
@@ -137,7 +137,14 @@ func (s *Storage) QueryLogs(ctx context.Context, qr storage.QueryLogsRequest) (*
 		return nil, MapError(err)
 	}
 
-	limit := int(qr.Limit)
+	limit := int(min(qr.Limit, 1000))
+	if qr.Limit <= 0 {
+		limit = 50
+	}
+	if len(qr.Page) > 0 {
+		args = append(args, qr.Page)
+		where += fmt.Sprintf(" and id >= $%d", len(args))
+	}
 	args = append(args, limit+1)
 
 	qryRows, err := s.db.QueryxContext(ctx, fmt.Sprintf("select * from log %s order by id limit $%d", where, len(args)), args...)
-- 
2.43.0


From fdec75d5ca171fd2d97014aacbec47535d593779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:21 +0000
Subject: [PATCH 90/98] fix: postgres: the tags with special characters are
 written as correct JSON

---
 pkg/storage/postgres/model.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/pkg/storage/postgres/model.go b/pkg/storage/postgres/model.go
index 8703329..d9ceb70 100644
--- a/pkg/storage/postgres/model.go
+++ b/pkg/storage/postgres/model.go
@@ -18,7 +18,6 @@ import (
 	"database/sql/driver"
 	"encoding/json"
 	"fmt"
-	"strings"
 	"time"
 )
 
@@ -56,14 +55,9 @@ func (t *Tags) Scan(value any) error {
 }
 
 func (t Tags) JSON() string {
-	var sb strings.Builder
-	sb.WriteString("{")
-	for k, v := range t {
-		if sb.Len() > 1 {
-			sb.WriteByte(',')
-		}
-		sb.WriteString(fmt.Sprintf("%q:%q", k, v))
+	if t == nil {
+		return "{}"
 	}
-	sb.WriteString("}")
-	return sb.String()
+	buf, _ := json.Marshal(map[string]string(t)) // a map of strings is always marshaled
+	return string(buf)
 }
-- 
2.43.0


From 6c17ce6e26f60e0aedf46d353f0780d40e0aa71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:22 +0000
Subject: [PATCH 91/98] fix: postgres: a failure while the rows are read is
 reported

---
 pkg/storage/postgres/postgres.go | 36 ++++++++------------------------
 1 file changed, 9 insertions(+), 27 deletions(-)

diff --git a/pkg/storage/postgres/postgres.go b/pkg/storage/postgres/postgres.go
index a023b10..28abd43 100644
--- a/pkg/storage/postgres/postgres.go
+++ b/pkg/storage/postgres/postgres.go
@@ -75,21 +75,12 @@ func (s *Storage) UpdateLog(ctx context.Context, log *solaris.Log) (*solaris.Log
 	if len(log.ID) == 0 {
 		return nil, fmt.Errorf("log ID must be specified: %w", errors.ErrInvalid)
 	}
-	rows, err := s.db.QueryxContext(ctx, "update log set tags = $1, updated_at = $2 where id = $3 and deleted = false returning *",
+	var updatedLog Log
+	err := s.db.GetContext(ctx, &updatedLog, "update log set tags = $1, updated_at = $2 where id = $3 and deleted = false returning *",
 		Tags(log.Tags).JSON(), time.Now(), log.ID)
 	if err != nil {
 		return nil, MapError(err)
 	}
-	defer func() {
-		_ = rows.Close()
-	}()
-	if !rows.Next() {
-		return nil, errors.ErrNotExist
-	}
-	var updatedLog Log
-	if err = rows.StructScan(&updatedLog); err != nil {
-		return nil, MapError(err)
-	}
 	return logToAPI(updatedLog), nil
 }
 
@@ -125,15 +116,8 @@ func (s *Storage) QueryLogs(ctx context.Context, qr storage.QueryLogsRequest) (*
 		where = "where " + sb.String()
 	}
 
-	cntRows, err := s.db.QueryxContext(ctx, fmt.Sprintf("select count(*) from log %s ", where), args...)
-	if err != nil {
-		return nil, MapError(err)
-	}
-	defer func() {
-		_ = cntRows.Close()
-	}()
 	var count int64
-	if count, err = scan[int64](cntRows); err != nil {
+	if err := s.db.GetContext(ctx, &count, fmt.Sprintf("select count(*) from log %s ", where), args...); err != nil {
 		return nil, MapError(err)
 	}
 
@@ -306,14 +290,6 @@ func translateCondition(sb *strings.Builder, cond string) error {
 	return nil
 }
 
-func scan[T any](rows *sqlx.Rows) (T, error) {
-	var res T
-	if rows.Next() {
-		_ = rows.Scan(&res)
-	}
-	return res, nil
-}
-
 func scanRows[T any](rows *sqlx.Rows) ([]T, error) {
 	var res []T
 	for rows.Next() {
@@ -323,6 +299,9 @@ func scanRows[T any](rows *sqlx.Rows) ([]T, error) {
 		}
 		res = append(res, t)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, MapError(err)
+	}
 	return res, nil
 }
 
@@ -335,5 +314,8 @@ func structScanRows[T any](rows *sqlx.Rows) ([]T, error) {
 		}
 		res = append(res, t)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, MapError(err)
+	}
 	return res, nil
 }
-- 
2.43.0


From 9df7698a697fb5a3bf621fb58079065d0c716b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:22 +0000
Subject: [PATCH 92/98] fix: postgres: the chunks of an unknown or a deleted
 log are reported as not existing

---
 pkg/storage/postgres/postgres.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/pkg/storage/postgres/postgres.go b/pkg/storage/postgres/postgres.go
index 28abd43..16ab849 100644
--- a/pkg/storage/postgres/postgres.go
+++ b/pkg/storage/postgres/postgres.go
@@ -214,7 +214,8 @@ func (s *Storage) GetLastChunk(ctx context.Context, logID string) (logfs.ChunkIn
 		return logfs.ChunkInfo{}, fmt.Errorf("log ID must be specified: %w", errors.ErrInvalid)
 	}
 	var chunk Chunk
-	if err := s.db.GetContext(ctx, &chunk, "select * from chunk where log_id=$1 order by id desc limit 1", logID); err != nil {
+	if err := s.db.GetContext(ctx, &chunk, "select c.* from chunk c join log l on l.id = c.log_id "+
+		"where l.id = $1 and l.deleted = false order by c.id desc limit 1", logID); err != nil {
 		return logfs.ChunkInfo{}, MapError(err)
 	}
 	return chunkToInfo(chunk), nil
@@ -225,6 +226,9 @@ func (s *Storage) GetChunks(ctx context.Context, logID string) ([]logfs.ChunkInf
 	if len(logID) == 0 {
 		return nil, fmt.Errorf("log ID must be specified: %w", errors.ErrInvalid)
 	}
+	if _, err := s.GetLogByID(ctx, logID); err != nil {
+		return nil, err
+	}
 	rows, err := s.db.QueryxContext(ctx, "select * from chunk where log_id = $1 order by id", logID)
 	if err != nil {
 		return nil, MapError(err)
@@ -244,6 +248,20 @@ func (s *Storage) UpsertChunkInfos(ctx context.Context, logID string, cis []logf
 	if len(logID) == 0 {
 		return fmt.Errorf("log ID must be specified: %w", errors.ErrInvalid)
 	}
+
+	tx, err := s.db.BeginTxx(ctx, nil)
+	if err != nil {
+		return MapError(err)
+	}
+	defer func() {
+		_ = tx.Rollback()
+	}()
+
+	// the log is locked, so it cannot be deleted until the chunks are written
+	var id string
+	if err = tx.GetContext(ctx, &id, "select id from log where id = $1 and deleted = false for share", logID); err != nil {
+		return MapError(err)
+	}
 	if len(cis) == 0 {
 		return nil
 	}
@@ -271,8 +289,10 @@ func (s *Storage) UpsertChunkInfos(ctx context.Context, logID string, cis []logf
 	}
 
 	sb.WriteString(" on conflict (id, log_id) do update set (min, max, records) = (excluded.min, excluded.max, excluded.records)")
-	_, err := s.db.ExecContext(ctx, sb.String(), args...)
-	return MapError(err)
+	if _, err = tx.ExecContext(ctx, sb.String(), args...); err != nil {
+		return MapError(err)
+	}
+	return MapError(tx.Commit())
 }
 
 // ===================================== helpers =====================================
-- 
2.43.0


From adc2ebff1148bba531d9490c8042e4fdc978c36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:22 +0000
Subject: [PATCH 93/98] fix: postgres: a chunk may be there several times in
 one upsert, a blank chunk ID is not accepted

---
 pkg/storage/postgres/postgres.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pkg/storage/postgres/postgres.go b/pkg/storage/postgres/postgres.go
index 16ab849..fccd9de 100644
--- a/pkg/storage/postgres/postgres.go
+++ b/pkg/storage/postgres/postgres.go
@@ -269,14 +269,23 @@ func (s *Storage) UpsertChunkInfos(ctx context.Context, logID string, cis []logf
 	var sb strings.Builder
 	var args []any
 
+	// the last value is taken for the chunk, which is there several times: a row cannot be affected twice by the statement
+	last := make(map[string]int, len(cis))
+	for i, ci := range cis {
+		if len(strings.TrimSpace(ci.ID)) == 0 {
+			return fmt.Errorf("chunk ID for item=%d must be specified: %w", i, errors.ErrInvalid)
+		}
+		last[ci.ID] = i
+	}
+
 	firstIdx := 1
 	sb.WriteString("insert into chunk (id, log_id, min, max, records) values ")
 
 	for i, ci := range cis {
-		if len(ci.ID) == 0 {
-			return fmt.Errorf("chunk ID for item=%d  must be specified: %w", i, errors.ErrInvalid)
+		if last[ci.ID] != i {
+			continue
 		}
-		if i > 0 {
+		if len(args) > 0 {
 			sb.WriteString(",")
 		}
 		sb.WriteString(fmt.Sprintf("($%d, $%d, $%d, $%d, $%d)", firstIdx, firstIdx+1, firstIdx+2, firstIdx+3, firstIdx+4))
-- 
2.43.0


From 63e1fba14563afee7bff2f9844cd37e77aa37284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:23 +0000
Subject: [PATCH 94/98] fix: postgres: the times of a new log are the ones
 which will be read

---
 pkg/storage/postgres/postgres.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/storage/postgres/postgres.go b/pkg/storage/postgres/postgres.go
index fccd9de..bc220a1 100644
--- a/pkg/storage/postgres/postgres.go
+++ b/pkg/storage/postgres/postgres.go
@@ -47,7 +47,7 @@ func NewStorage(db *Db) *Storage {
 func (s *Storage) CreateLog(ctx context.Context, log *solaris.Log) (*solaris.Log, error) {
 	newLog := logToModel(log)
 	newLog.ID = ulidutils.NewID()
-	newLog.CreatedAt = time.Now()
+	newLog.CreatedAt = time.Now().Truncate(time.Microsecond) // what Postgres keeps
 	newLog.UpdatedAt = newLog.CreatedAt
 
 	_, err := s.db.ExecContext(ctx, "insert into log (id, tags, records, created_at, updated_at) values ($1, $2, $3, $4, $5)",
-- 
2.43.0


From 2f4f619ecbe209946227ef1ed84e2d04a50a2b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:17 +0000
Subject: [PATCH 95/98] fix: db: the parameters of a connection may be empty or
 have special characters

---
 pkg/db/config.go | 39 +++++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/pkg/db/config.go b/pkg/db/config.go
index 468d2a3..cb03dd1 100644
--- a/pkg/db/config.go
+++ b/pkg/db/config.go
@@ -1,6 +1,14 @@
 package db
 
-import "fmt"
+import (
+	"fmt"
+	"net"
+	"net/url"
+	"strings"
+)
+
+// dsnEscaper escapes a quoted value of a DSN
+var dsnEscaper = strings.NewReplacer(`\`, `\\`, `'`, `\'`)
 
 // DBConn represents database connection parameters
 type DBConn struct {
@@ -26,14 +34,33 @@ type DBConn struct {
 	MaxConnIdleTimeSec *int
 }
 
-// SourceName returns the DSN for the connection
+// SourceName returns the DSN for the connection. The parameters, which are not specified,
+// are not in there, so they have the default values.
 func (d *DBConn) SourceName() string {
-	return fmt.Sprintf("host=%s port=%s user=%s password=%s dbname=%s sslmode=%s",
-		d.Host, d.Port, d.Username, d.Password, d.DBName, d.SSLMode)
+	var sb strings.Builder
+	for _, p := range [][2]string{{"host", d.Host}, {"port", d.Port}, {"user", d.Username},
+		{"password", d.Password}, {"dbname", d.DBName}, {"sslmode", d.SSLMode}} {
+		if p[1] == "" {
+			continue
+		}
+		if sb.Len() > 0 {
+			sb.WriteByte(' ')
+		}
+		sb.WriteString(fmt.Sprintf("%s='%s'", p[0], dsnEscaper.Replace(p[1])))
+	}
+	return sb.String()
 }
 
 // URL returns the URL for the connection
 func (d *DBConn) URL() string {
-	return fmt.Sprintf("%s://%s:%s@%s:%s/%s?sslmode=%s",
-		d.Driver, d.Username, d.Password, d.Host, d.Port, d.DBName, d.SSLMode)
+	u := url.URL{
+		Scheme: d.Driver,
+		User:   url.UserPassword(d.Username, d.Password),
+		Host:   net.JoinHostPort(d.Host, d.Port),
+		Path:   "/" + d.DBName,
+	}
+	if d.SSLMode != "" {
+		u.RawQuery = url.Values{"sslmode": {d.SSLMode}}.Encode()
+	}
+	return u.String()
 }
-- 
2.43.0


From 15c5a37bb1300b5283b341584c4e0e0f8164b054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:22 +0000
Subject: [PATCH 96/98] fix: grpc: the requests were served after the server
 had been shut down, and their components had been closed

---
 pkg/grpc/server.go | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/pkg/grpc/server.go b/pkg/grpc/server.go
index 4d1204e..819e274 100644
--- a/pkg/grpc/server.go
+++ b/pkg/grpc/server.go
@@ -22,6 +22,7 @@ import (
 	"github.com/solarisdb/solaris/golibs/transport"
 	"net"
 	"sync/atomic"
+	"time"
 
 	"github.com/logrange/linker"
 	"google.golang.org/grpc"
@@ -47,6 +48,7 @@ type Server struct {
 	cfg Config
 
 	listnr net.Listener
+	gs     *grpc.Server
 	closed int32
 	logger logging.Logger
 }
@@ -56,6 +58,9 @@ func NewServer(cfg Config) *Server {
 	return &Server{cfg: cfg}
 }
 
+// shutdownTimeout defines how long the shutdown waits for the requests in progress
+const shutdownTimeout = time.Second
+
 var _ linker.Initializer = (*Server)(nil)
 var _ linker.Shutdowner = (*Server)(nil)
 
@@ -71,7 +76,8 @@ func (s *Server) Init(ctx context.Context) error {
 	}
 
 	s.listnr = lis
-	gs := grpc.NewServer()
+	// the components, the requests in progress work with, must not be shut down until the requests are over
+	gs := grpc.NewServer(grpc.WaitForHandlers(true))
 	err = s.cfg.RegisterEndpoints(gs)
 	if err != nil {
 		return fmt.Errorf("could not register endpoints: %w", err)
@@ -79,6 +85,7 @@ func (s *Server) Init(ctx context.Context) error {
 
 	// Register reflection service on gRPC server.
 	reflection.Register(gs)
+	s.gs = gs
 	go func() {
 		s.logger.Infof("Starting go routine by listening gRPC solaris connections")
 		if err := gs.Serve(lis); err != nil && atomic.LoadInt32(&s.closed) == 0 {
@@ -93,9 +100,24 @@ func (s *Server) Init(ctx context.Context) error {
 // Shutdown is an implementation of linker.Shutdowner. It must be called once, not thread-safe.
 func (s *Server) Shutdown() {
 	s.logger.Infof("Shutting down...")
-	if s.listnr != nil {
-		atomic.StoreInt32(&s.closed, 1)
-		s.listnr.Close()
+	if s.listnr == nil {
+		return
+	}
+	atomic.StoreInt32(&s.closed, 1)
+	s.listnr.Close()
+	if s.gs == nil {
+		return
+	}
+	// the requests in progress may be over, but no request is served when the server is shut down
+	done := make(chan struct{})
+	go func() {
+		s.gs.GracefulStop()
+		close(done)
+	}()
+	select {
+	case <-done:
+	case <-time.After(shutdownTimeout):
+		s.gs.Stop()
 	}
 }
 
-- 
2.43.0


From 56270faa0a2853a1610207f0073839c5aa85a2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:22 +0000
Subject: [PATCH 97/98] fix: http: the server was running though its port was
 in use; some connections were left after the shutdown

---
 pkg/http/router.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pkg/http/router.go b/pkg/http/router.go
index aa8984d..580940f 100644
--- a/pkg/http/router.go
+++ b/pkg/http/router.go
@@ -20,6 +20,7 @@ import (
 	"github.com/gin-gonic/gin"
 	"github.com/logrange/linker"
 	"github.com/solarisdb/solaris/golibs/logging"
+	"net"
 	"net/http"
 	"time"
 )
@@ -47,6 +48,7 @@ type Router struct {
 
 	r      *gin.Engine
 	srv    *http.Server
+	listnr net.Listener
 	logger logging.Logger
 }
 
@@ -78,6 +80,11 @@ func (r *Router) Init(_ context.Context) error {
 	}
 
 	addr := fmt.Sprintf("%s:%d", r.config.HttpAddr, r.config.HttpPort)
+	lis, err := net.Listen("tcp", addr)
+	if err != nil {
+		return fmt.Errorf("could not start listener for %s: %w", addr, err)
+	}
+	r.listnr = lis
 	r.srv = &http.Server{
 		Addr:    addr,
 		Handler: r.r,
@@ -86,7 +93,7 @@ func (r *Router) Init(_ context.Context) error {
 	go func() {
 		// service connections
 		r.logger.Infof("Starting serving connections")
-		_ = r.srv.ListenAndServe()
+		_ = r.srv.Serve(lis)
 	}()
 
 	r.logger.Infof("Initialized to serve HTTP requests on %s", addr)
@@ -102,7 +109,11 @@ func (r *Router) Shutdown() {
 	}
 	ctx, cancel := context.WithTimeout(context.Background(), time.Second)
 	defer cancel()
+	// the server doesn't know the listener, if it has not started serving yet
+	_ = r.listnr.Close()
 	_ = r.srv.Shutdown(ctx)
+	// some connections may be still active
+	_ = r.srv.Close()
 }
 
 func (r *Router) registerPingOnly(g *gin.Engine) error {
-- 
2.43.0


From c74252c83631e5bb68fdf3b9d476b0ad60634130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:22 +0000
Subject: [PATCH 98/98] fix: server: the connections to the database were left
 open after the server had been stopped

---
 pkg/server/server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index a0c6a6a..64e5a72 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -68,6 +68,9 @@ func Run(ctx context.Context, cfg *Config) error {
 
 	// Db
 	db := postgres.MustGetDb(ctx, cfg.DB)
+	// the order, in which the linker shuts the components down, is not specified for independent ones, but the requests
+	// in progress need the database, so it is closed the last
+	defer db.Close()
 
 	inj := linker.New()
 	inj.Register(linker.Component{Name: "", Value: cache.NewCachedStorage(postgres.NewStorage(db))})
-- 
2.43.0

