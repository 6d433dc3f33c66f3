From a9bd240375948e7ffd55a96d858e4072584812f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 01/57] fix: extra symbols in open mode do not consume
 iterations of a bounded repetition

---
 rbe/src/rbe.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rbe/src/rbe.rs b/rbe/src/rbe.rs
index ede88bf..53e3f11 100644
--- a/rbe/src/rbe.rs
+++ b/rbe/src/rbe.rs
@@ -401,6 +401,10 @@ where
                 let d = value.deriv(x, n, open, controlled);
                 Self::mk_and(&d, &Rbe::Star { value: value.clone() })
             },
+            Rbe::Repeat { .. } if open && !controlled.contains(x) => {
+                // Extra symbol (not controlled): it does not belong to any iteration, so none is consumed.
+                self.clone()
+            },
             Rbe::Repeat { ref value, ref card } if card.is_0_0() => {
                 let d = value.deriv(x, n, open, controlled);
                 if d.is_nullable() {
-- 
2.43.0


From 2d7c017fe146bcc6bcd9fdd7af40d9e55658c92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 02/57] fix: interval of a bounded repetition counts how often
 the group itself can repeat

---
 rbe/src/rbe.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/rbe/src/rbe.rs b/rbe/src/rbe.rs
index 53e3f11..3ac4aa0 100644
--- a/rbe/src/rbe.rs
+++ b/rbe/src/rbe.rs
@@ -181,12 +181,22 @@ where
                     if inner.is_empty() {
                         inner
                     } else {
-                        let card_interval = Interval::new(Max::IntMax(card.min.value), card.max.clone());
-                        let intersection = inner.intersection(&card_interval);
-                        if intersection.is_empty() {
+                        // `k` repetitions of the group consume between `k * min` and `k * max`
+                        // iterations of the inner expression, so the valid values of `k` are
+                        // [ceil(inner.n / max), floor(inner.m / min)].
+                        let lower = match &inner.n {
+                            Max::IntMax(n) => card.max.div_up(n),
+                            Max::Unbounded => Max::Unbounded,
+                        };
+                        let upper = match &inner.m {
+                            Max::IntMax(m) => Max::IntMax(card.min.value).div_down(m),
+                            Max::Unbounded => Max::Unbounded,
+                        };
+                        let interval = Interval::new(lower, upper);
+                        if interval.is_empty() {
                             Interval::fail()
                         } else {
-                            Interval::new(Max::IntMax(1), Max::IntMax(1))
+                            interval
                         }
                     }
                 }
-- 
2.43.0


From c77d7e370c7c4e462aa2ab1cc3a7904a1336f4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:04 +0000
Subject: [PATCH 03/57] fix: a nullable expression does not match values that
 no component accepts

---
 rbe/src/rbe_table.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rbe/src/rbe_table.rs b/rbe/src/rbe_table.rs
index 6ffd776..6c9dd69 100644
--- a/rbe/src/rbe_table.rs
+++ b/rbe/src/rbe_table.rs
@@ -232,7 +232,9 @@ where
             candidates.push(pairs);
         }
 
-        if candidates.is_empty() || pairs_found == 0 {
+        // A value rejected by every one of its candidate components is not "no candidates": it
+        // must make the match fail even when the expression is nullable.
+        if candidates.is_empty() || (pairs_found == 0 && prefilter_failed.is_empty()) {
             /*tracing::trace!(
                 "No candidates for rbe: {}, candidates: {:?}, pairs_found: {pairs_found}",
                 self.rbe,
-- 
2.43.0


From 0d1ffaa3a14470f51d394ac6ae726ea807793a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:15 +0000
Subject: [PATCH 04/57] fix: EXTRA does not open a closed shape to predicates
 its expression does not mention

---
 shex_validation/src/engine.rs | 21 ++++-----------------
 1 file changed, 4 insertions(+), 17 deletions(-)

diff --git a/shex_validation/src/engine.rs b/shex_validation/src/engine.rs
index 65aa01f..7dc9eeb 100644
--- a/shex_validation/src/engine.rs
+++ b/shex_validation/src/engine.rs
@@ -638,13 +638,10 @@ impl Engine {
         R: QueryRDF + NeighsRDF,
     {
         // trace!("check_node_shape: node = {node}, shape = {idx} [No extends]");
+        // EXTRA only relaxes predicates that the triple expression mentions: other predicates
+        // stay in the remainder, where CLOSED rejects them.
         let extra_preds = shape.extra().clone();
-        let mut candidate_preds = shape.preds();
-        for p in &extra_preds {
-            if !candidate_preds.contains(p) {
-                candidate_preds.push(p.clone());
-            }
-        }
+        let candidate_preds = shape.preds();
         let (values, reminder) = self.neighs(node, candidate_preds.clone(), rdf)?;
         let values_ctx = values
             .iter()
@@ -707,12 +704,7 @@ impl Engine {
         }
 
         let extra_preds = shape.extra().clone();
-        let mut candidate_preds = Vec::from_iter(schema.get_preds_extends(idx));
-        for p in &extra_preds {
-            if !candidate_preds.contains(p) {
-                candidate_preds.push(p.clone());
-            }
-        }
+        let candidate_preds = Vec::from_iter(schema.get_preds_extends(idx));
         /*trace!(
             "Predicates in this shape with extends: [{}]",
             candidate_preds.iter().map(|p| p.to_string()).join(", ")
@@ -1137,11 +1129,6 @@ impl Engine {
             }
         }
         let extra_preds = shape.extra().clone();
-        for p in &extra_preds {
-            if !candidate_preds.contains(p) {
-                candidate_preds.push(p.clone());
-            }
-        }
 
         let (values, reminder) = self.neighs(node, candidate_preds.clone(), rdf)?;
         if shape.is_closed() && !reminder.is_empty() {
-- 
2.43.0


From c2b3c85bfaf138fee4e9de7c75d144cb7a138e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:00 +0000
Subject: [PATCH 05/57] fix: EXTRA lets values through that fail a referenced
 shape

---
 shex_validation/src/engine.rs | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/shex_validation/src/engine.rs b/shex_validation/src/engine.rs
index 7dc9eeb..d941aa6 100644
--- a/shex_validation/src/engine.rs
+++ b/shex_validation/src/engine.rs
@@ -659,7 +659,7 @@ impl Engine {
                 }
                 // Lenient predicates (in EXTRA): only values that satisfy a leaf condition
                 // participate in the RBE; non-matching values fall into M^∉ and are ignored.
-                matches_any_leaf(shape.triple_expr(), pred, value, ctx)
+                matches_any_leaf(shape.triple_expr(), pred, value, ctx, typing)
             })
             .collect::<Vec<_>>();
         if shape.is_closed() && !reminder.is_empty() {
@@ -2085,18 +2085,14 @@ fn cond_has_ref(cond: &MatchCond<Pred, Node, ShapeLabelIdx, SemanticActionContex
 
 /// Returns true if `(pred, value)` satisfies at least one leaf condition in `expr`.
 ///
-/// For `MatchCond::Ref` leaves the value is kept in M^∈ conservatively — the RBE /
-/// pending-typing path already handles shape-reference validation correctly.
-fn matches_any_leaf(expr: &Expr, pred: &Pred, value: &Node, ctx: &SemanticActionContext) -> bool {
-    for (_, key, cond) in expr.components() {
-        if &key != pred {
-            continue;
-        }
-        if cond_has_ref(&cond) || cond.matches(value, ctx).is_ok() {
-            return true;
-        }
-    }
-    false
+/// The shape references of a leaf hold when `typing` has proved them.
+fn matches_any_leaf(expr: &Expr, pred: &Pred, value: &Node, ctx: &SemanticActionContext, typing: &RefTyping) -> bool {
+    expr.components().any(|(_, key, cond)| {
+        &key == pred
+            && cond
+                .matches(value, ctx)
+                .is_ok_and(|pending| pending.iter_vr().all(|(n, idx, _)| typing.contains(&(n.clone(), *idx))))
+    })
 }
 
 #[cfg(test)]
-- 
2.43.0


From 6c2a5a3b87889ac977d799d40dac5871c4b450ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:48 +0000
Subject: [PATCH 06/57] fix: cardinality after brackets applies to the group,
 not to its inner expression

---
 shex_ast/src/compact/shex_grammar.rs | 47 ++++++++++++++++++++++++++--
 1 file changed, 44 insertions(+), 3 deletions(-)

diff --git a/shex_ast/src/compact/shex_grammar.rs b/shex_ast/src/compact/shex_grammar.rs
index 0da4d17..66e5917 100644
--- a/shex_ast/src/compact/shex_grammar.rs
+++ b/shex_ast/src/compact/shex_grammar.rs
@@ -775,7 +775,11 @@ fn unary_triple_expr_opt1(i: Span) -> IRes<TripleExpr> {
         alt((bracketed_triple_expr(), triple_constraint())),
     )
         .parse(i)?;
-    Ok((i, te.with_id(id)))
+    match (id, te) {
+        (None, te) => Ok((i, te)),
+        (id, te @ TripleExpr::Ref(_)) => Ok((i, TripleExpr::each_of(vec![te]).with_id(id))),
+        (id, te) => Ok((i, te.with_id(id))),
+    }
 }
 
 // From unary_triple_expr_opt1
@@ -800,7 +804,13 @@ fn bracketed_triple_expr<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, TripleExpr> {
                 semantic_actions,
             )
                 .parse(i)?;
-            let mut te = te;
+            let decorated = maybe_card.is_some() || !annotations.is_empty() || sem_acts.is_some();
+            // The decorations of the brackets must not replace the ones of the inner expression
+            let mut te = if decorated && is_decorated(&te) {
+                TripleExpr::each_of(vec![te])
+            } else {
+                te
+            };
             if let Some(card) = maybe_card {
                 te = te.with_min(card.min());
                 te = te.with_max(card.max());
@@ -808,13 +818,44 @@ fn bracketed_triple_expr<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, TripleExpr> {
             if !annotations.is_empty() {
                 te = te.with_annotations(Some(annotations));
             }
-            te = te.with_sem_acts(sem_acts);
+            if sem_acts.is_some() {
+                te = te.with_sem_acts(sem_acts);
+            }
             Ok((i, te))
         },
         || ShExParseError::BracketedTripleExpr,
     )
 }
 
+/// Checks if a triple expression already has a cardinality, annotations or semantic actions.
+/// A reference has no place for them.
+fn is_decorated(te: &TripleExpr) -> bool {
+    match te {
+        TripleExpr::EachOf {
+            min,
+            max,
+            sem_acts,
+            annotations,
+            ..
+        }
+        | TripleExpr::OneOf {
+            min,
+            max,
+            sem_acts,
+            annotations,
+            ..
+        }
+        | TripleExpr::TripleConstraint {
+            min,
+            max,
+            sem_acts,
+            annotations,
+            ..
+        } => min.is_some() || max.is_some() || sem_acts.is_some() || annotations.is_some(),
+        TripleExpr::Ref(_) => true,
+    }
+}
+
 /// `[45] tripleConstraint ::= senseFlags? predicate inlineShapeExpression cardinality? annotation* semanticActions`
 fn triple_constraint<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, TripleExpr> {
     map_error(
-- 
2.43.0


From 2fddd11f87286c29769ab71036508576c4f96448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:54 +0000
Subject: [PATCH 07/57] fix: negated dependencies are not hidden by positive
 ones, and EXTRA references count as negated

---
 shex_ast/src/ir/dependency_graph.rs |  5 +++++
 shex_ast/src/ir/shape.rs            | 35 +++++++++++++++++++----------
 shex_ast/src/ir/shape_expr.rs       | 18 +++++++--------
 3 files changed, 37 insertions(+), 21 deletions(-)

diff --git a/shex_ast/src/ir/dependency_graph.rs b/shex_ast/src/ir/dependency_graph.rs
index acdd6e2..db9e45a 100644
--- a/shex_ast/src/ir/dependency_graph.rs
+++ b/shex_ast/src/ir/dependency_graph.rs
@@ -15,7 +15,12 @@ impl DependencyGraph {
         Self::default()
     }
 
+    /// Adds a dependency. A negative dependency is not replaced by a positive one between the
+    /// same shapes.
     pub fn add_edge(&mut self, from: ShapeLabelIdx, to: ShapeLabelIdx, pos_neg: PosNeg) {
+        if pos_neg.is_pos() && self.graph.contains_edge(from, to) {
+            return;
+        }
         self.graph.add_edge(from, to, pos_neg);
     }
 
diff --git a/shex_ast/src/ir/shape.rs b/shex_ast/src/ir/shape.rs
index f229546..2a4c253 100644
--- a/shex_ast/src/ir/shape.rs
+++ b/shex_ast/src/ir/shape.rs
@@ -3,7 +3,7 @@ use super::{
     dependency_graph::{DependencyGraph, PosNeg},
     sem_act::SemAct,
 };
-use crate::{Expr, Pred, ShapeLabelIdx, ir::schema_ir::SchemaIR};
+use crate::{Cond, Expr, Pred, ShapeLabelIdx, ir::schema_ir::SchemaIR};
 use itertools::Itertools;
 use serde::{Deserialize, Serialize};
 use std::{
@@ -107,11 +107,16 @@ impl Shape {
     }*/
 
     pub fn add_edges(&self, source: ShapeLabelIdx, graph: &mut DependencyGraph, pos_neg: PosNeg) {
-        for (_component, _pred, cond) in self.expr.components() {
-            match cond {
-                rbe::MatchCond::Single(_single_cond) => {},
-                rbe::MatchCond::And(_match_conds) => {},
-                rbe::MatchCond::Ref(r) => graph.add_edge(source, r, pos_neg),
+        for (_component, pred, cond) in self.expr.components() {
+            // Whether a value of an EXTRA predicate is needed depends on the values that do not
+            // conform, so the reference also counts as negated.
+            let pos_neg = if self.extra.contains(&pred) {
+                PosNeg::neg()
+            } else {
+                pos_neg
+            };
+            for r in cond_refs(&cond) {
+                graph.add_edge(source, r, pos_neg);
             }
         }
     }
@@ -119,18 +124,24 @@ impl Shape {
     fn get_value_expr_references(&self) -> HashMap<Pred, Vec<ShapeLabelIdx>> {
         let mut result: HashMap<Pred, Vec<ShapeLabelIdx>> = HashMap::new();
         for (_component, pred, cond) in self.expr.components() {
-            match cond {
-                rbe::MatchCond::Single(_single_cond) => {},
-                rbe::MatchCond::And(_match_conds) => {},
-                rbe::MatchCond::Ref(r) => {
-                    result.entry(pred.clone()).or_default().push(r);
-                },
+            let refs = cond_refs(&cond);
+            if !refs.is_empty() {
+                result.entry(pred.clone()).or_default().extend(refs);
             }
         }
         result
     }
 }
 
+/// The shapes referenced by a condition
+fn cond_refs(cond: &Cond) -> Vec<ShapeLabelIdx> {
+    match cond {
+        rbe::MatchCond::Single(_) => Vec::new(),
+        rbe::MatchCond::And(conds) => conds.iter().flat_map(cond_refs).collect(),
+        rbe::MatchCond::Ref(r) => vec![*r],
+    }
+}
+
 impl Display for Shape {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         let extends = if self.extends.is_empty() {
diff --git a/shex_ast/src/ir/shape_expr.rs b/shex_ast/src/ir/shape_expr.rs
index b6f515c..8be8271 100644
--- a/shex_ast/src/ir/shape_expr.rs
+++ b/shex_ast/src/ir/shape_expr.rs
@@ -214,17 +214,17 @@ impl ShapeExpr {
         graph: &mut DependencyGraph,
         pos_neg: PosNeg,
         schema: &'a SchemaIR,
-        visited: &mut Vec<&'a ShapeExpr>,
+        visited: &mut Vec<(&'a ShapeExpr, PosNeg)>,
     ) {
         match self {
             ShapeExpr::ShapeOr { exprs, .. } => {
                 for expr in exprs {
                     if let Some(info) = schema.find_shape_idx(expr) {
                         let expr = info.expr();
-                        if visited.contains(&expr) {
+                        if visited.contains(&(expr, pos_neg)) {
                             continue;
                         } else {
-                            visited.push(expr);
+                            visited.push((expr, pos_neg));
                             expr.add_edges(source, graph, pos_neg, schema, visited);
                         }
                     }
@@ -234,10 +234,10 @@ impl ShapeExpr {
                 for expr in exprs {
                     if let Some(info) = schema.find_shape_idx(expr) {
                         let expr = info.expr();
-                        if visited.contains(&expr) {
+                        if visited.contains(&(expr, pos_neg)) {
                             continue;
                         } else {
-                            visited.push(expr);
+                            visited.push((expr, pos_neg));
                             expr.add_edges(source, graph, pos_neg, schema, visited);
                         }
                     }
@@ -246,10 +246,10 @@ impl ShapeExpr {
             ShapeExpr::ShapeNot { expr, .. } => {
                 if let Some(info) = schema.find_shape_idx(expr) {
                     let expr = info.expr();
-                    if visited.contains(&expr) {
-                    } else {
-                        visited.push(expr);
-                        expr.add_edges(source, graph, pos_neg.change(), schema, visited);
+                    let pos_neg = pos_neg.change();
+                    if !visited.contains(&(expr, pos_neg)) {
+                        visited.push((expr, pos_neg));
+                        expr.add_edges(source, graph, pos_neg, schema, visited);
                     }
                 }
             },
-- 
2.43.0


From 70b86b8ad3b6bbcf19e5083a9072221ee858c23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:22 +0000
Subject: [PATCH 08/57] fix: ShExC facets separated by blanks and facet
 keywords in any case

---
 shex_ast/src/compact/shex_grammar.rs | 31 +++++++++++++++++-----------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/shex_ast/src/compact/shex_grammar.rs b/shex_ast/src/compact/shex_grammar.rs
index 66e5917..8242db3 100644
--- a/shex_ast/src/compact/shex_grammar.rs
+++ b/shex_ast/src/compact/shex_grammar.rs
@@ -463,11 +463,15 @@ fn xs_facet<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, XsFacet> {
 
 /// `[28] stringFacet ::= stringLength INTEGER | REGEXP`
 fn string_facet(i: Span) -> IRes<XsFacet> {
-    alt((
-        string_length,
-        map(regexp, |p| XsFacet::StringFacet(StringFacet::Pattern(p))),
-    ))
-    .parse(i)
+    let (i, (facet, _)) = (
+        alt((
+            string_length,
+            map(regexp, |p| XsFacet::StringFacet(StringFacet::Pattern(p))),
+        )),
+        tws0,
+    )
+        .parse(i)?;
+    Ok((i, facet))
 }
 
 // `[29]   	stringLength	   ::=   	"LENGTH" | "MINLENGTH" | "MAXLENGTH"`
@@ -503,7 +507,10 @@ fn pos_integer(i: Span) -> IRes<usize> {
 
 /// `[30] numericFacet ::= numericRange numericLiteral | numericLength INTEGER`
 fn numeric_facet<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, XsFacet> {
-    move |i| alt((numeric_range_lit(), numeric_length_int())).parse(i)
+    move |i| {
+        let (i, (facet, _)) = (alt((numeric_range_lit(), numeric_length_int())), tws0).parse(i)?;
+        Ok((i, facet))
+    }
 }
 
 /// `From [30] numeric_range_lit = numericRange numericLiteral``
@@ -534,8 +541,8 @@ fn numeric_length_int<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, XsFacet> {
 
 fn numeric_length(i: Span) -> IRes<NumericLength> {
     alt((
-        map(token_tws("TOTALDIGITS"), |_| NumericLength::TotalDigits),
-        map(token_tws("FRACTIONDIGITS"), |_| NumericLength::FractionDigits),
+        map(token_tws_no_case("TOTALDIGITS"), |_| NumericLength::TotalDigits),
+        map(token_tws_no_case("FRACTIONDIGITS"), |_| NumericLength::FractionDigits),
     ))
     .parse(i)
 }
@@ -543,10 +550,10 @@ fn numeric_length(i: Span) -> IRes<NumericLength> {
 /// `[31] numericRange ::= "MININCLUSIVE" | "MINEXCLUSIVE" | "MAXINCLUSIVE" | "MAXEXCLUSIVE"`
 fn numeric_range(i: Span) -> IRes<NumericRange> {
     alt((
-        map(token_tws("MININCLUSIVE"), |_| NumericRange::MinInclusive),
-        map(token_tws("MAXINCLUSIVE"), |_| NumericRange::MaxInclusive),
-        map(token_tws("MINEXCLUSIVE"), |_| NumericRange::MinExclusive),
-        map(token_tws("MAXEXCLUSIVE"), |_| NumericRange::MaxExclusive),
+        map(token_tws_no_case("MININCLUSIVE"), |_| NumericRange::MinInclusive),
+        map(token_tws_no_case("MAXINCLUSIVE"), |_| NumericRange::MaxInclusive),
+        map(token_tws_no_case("MINEXCLUSIVE"), |_| NumericRange::MinExclusive),
+        map(token_tws_no_case("MAXEXCLUSIVE"), |_| NumericRange::MaxExclusive),
     ))
     .parse(i)
 }
-- 
2.43.0


From 90a152b8154e034396963a4af71e750bdb7c0edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:22 +0000
Subject: [PATCH 09/57] fix: length of terms counts characters instead of bytes

---
 rudof_rdf/src/rdf_core/term/iri_or_blanknode.rs |  4 ++--
 rudof_rdf/src/rdf_core/term/triple.rs           | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/term/iri_or_blanknode.rs b/rudof_rdf/src/rdf_core/term/iri_or_blanknode.rs
index fef5ca2..a504783 100644
--- a/rudof_rdf/src/rdf_core/term/iri_or_blanknode.rs
+++ b/rudof_rdf/src/rdf_core/term/iri_or_blanknode.rs
@@ -25,8 +25,8 @@ impl IriOrBlankNode {
     /// - For IRIs: the length of the full IRI string
     pub fn length(&self) -> usize {
         match self {
-            IriOrBlankNode::BlankNode(label) => label.len(),
-            IriOrBlankNode::Iri(iri) => iri.as_str().len(),
+            IriOrBlankNode::BlankNode(label) => label.chars().count(),
+            IriOrBlankNode::Iri(iri) => iri.as_str().chars().count(),
         }
     }
 
diff --git a/rudof_rdf/src/rdf_core/term/triple.rs b/rudof_rdf/src/rdf_core/term/triple.rs
index de7ef97..94a217e 100644
--- a/rudof_rdf/src/rdf_core/term/triple.rs
+++ b/rudof_rdf/src/rdf_core/term/triple.rs
@@ -241,7 +241,7 @@ impl Object {
 
 /// ## Accessors methods
 impl Object {
-    // Returns the length (in bytes) of this object's string representation.
+    /// Returns the length (in characters) of this object's string representation.
     ///
     /// - For IRIs: the length of the IRI string
     /// - For blank nodes: the length of the identifier
@@ -249,14 +249,14 @@ impl Object {
     /// - For triples: the sum of all component lengths
     pub fn length(&self) -> usize {
         match self {
-            Object::Iri(iri) => iri.as_str().len(),
-            Object::BlankNode(bn) => bn.len(),
-            Object::Literal(lit) => lit.lexical_form().len(),
+            Object::Iri(iri) => iri.as_str().chars().count(),
+            Object::BlankNode(bn) => bn.chars().count(),
+            Object::Literal(lit) => lit.lexical_form().chars().count(),
             Object::Triple {
                 subject,
                 predicate,
                 object,
-            } => subject.as_ref().length() + predicate.as_str().len() + object.as_ref().length(),
+            } => subject.as_ref().length() + predicate.as_str().chars().count() + object.as_ref().length(),
         }
     }
 
-- 
2.43.0


From 58902b9e3253896daf25688cd021756362e37e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:22 +0000
Subject: [PATCH 10/57] fix: lexical spaces of xsd:double, xsd:float and
 xsd:decimal

---
 rudof_rdf/src/rdf_core/term/literal/literal.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/term/literal/literal.rs b/rudof_rdf/src/rdf_core/term/literal/literal.rs
index edbdad5..972b710 100644
--- a/rudof_rdf/src/rdf_core/term/literal/literal.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/literal.rs
@@ -828,8 +828,9 @@ impl ConcreteLiteral {
     ///
     /// Returns an error if the string cannot be parsed as a `f64`.
     pub fn parse_double(s: &str) -> Result<f64, String> {
-        // XSD double lexical space does not include "+INF"; only "INF", "-INF", "NaN"
-        if s.eq_ignore_ascii_case("+INF") || s.eq_ignore_ascii_case("+infinity") {
+        // The only names in the XSD double lexical space are "INF", "-INF" and "NaN"
+        if s.chars().any(|c| c.is_ascii_alphabetic() && !matches!(c, 'e' | 'E')) && !matches!(s, "INF" | "-INF" | "NaN")
+        {
             return Err(format!("{s} is not a valid xsd:double lexical form"));
         }
         s.parse::<f64>()
@@ -856,7 +857,7 @@ impl ConcreteLiteral {
     ///
     /// Returns an error if the string cannot be parsed as a `Decimal`.
     pub fn parse_decimal(s: &str) -> Result<Decimal, String> {
-        if s.contains('e') || s.contains('E') {
+        if s.contains(['e', 'E', '_']) {
             return Err("Invalid decimal: unknown character".to_string());
         }
         s.parse::<Decimal>()
@@ -869,8 +870,9 @@ impl ConcreteLiteral {
     ///
     /// Returns an error if the string cannot be parsed as a float.
     pub fn parse_float(s: &str) -> Result<f32, String> {
-        // XSD float lexical space does not include "+INF"; only "INF", "-INF", "NaN"
-        if s.eq_ignore_ascii_case("+INF") || s.eq_ignore_ascii_case("+infinity") {
+        // The only names in the XSD float lexical space are "INF", "-INF" and "NaN"
+        if s.chars().any(|c| c.is_ascii_alphabetic() && !matches!(c, 'e' | 'E')) && !matches!(s, "INF" | "-INF" | "NaN")
+        {
             return Err(format!("{s} is not a valid xsd:float lexical form"));
         }
         s.parse::<f32>()
-- 
2.43.0


From cab4acb15e53b1c95e96a47661aea276e619530c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:22 +0000
Subject: [PATCH 11/57] fix: literals of a graph keep their lexical form

---
 .../src/rdf_core/term/literal/literal.rs      | 42 ++++++++-----------
 1 file changed, 18 insertions(+), 24 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/term/literal/literal.rs b/rudof_rdf/src/rdf_core/term/literal/literal.rs
index 972b710..a65c0bc 100644
--- a/rudof_rdf/src/rdf_core/term/literal/literal.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/literal.rs
@@ -393,6 +393,14 @@ impl ConcreteLiteral {
             | (Self::NumericLiteral(_), Self::DatatypeLiteral { .. }) => false,
             (Self::DatetimeLiteral(dt1), Self::DatetimeLiteral(dt2)) => dt1 == dt2,
             (Self::BooleanLiteral(b1), Self::BooleanLiteral(b2)) => b1 == b2,
+            (
+                lit @ (Self::BooleanLiteral(_) | Self::DatetimeLiteral(_) | Self::WrongDatatypeLiteral { .. }),
+                Self::DatatypeLiteral { lexical_form, datatype },
+            )
+            | (
+                Self::DatatypeLiteral { lexical_form, datatype },
+                lit @ (Self::BooleanLiteral(_) | Self::DatetimeLiteral(_) | Self::WrongDatatypeLiteral { .. }),
+            ) => lit.lexical_form() == *lexical_form && lit.datatype() == *datatype,
             (
                 Self::WrongDatatypeLiteral {
                     lexical_form, datatype, ..
@@ -1067,30 +1075,16 @@ impl TryFrom<oxrdf::Literal> for ConcreteLiteral {
 
             (s, Some(dtype), None) => {
                 let datatype_iri = IriRef::iri(IriS::new_unchecked(dtype.as_str()));
-                let iri_str = dtype.as_str();
-                // For bare numeric types in Turtle, preserve original lexical form for valid values
-                // (ShEx value set matching requires lexical-form equality, not value equality).
-                // But invalid lexical forms must still produce WrongDatatypeLiteral.
-                if iri_str == XsdVocab::XSD_INTEGER
-                    || iri_str == XsdVocab::XSD_DECIMAL
-                    || iri_str == XsdVocab::XSD_DOUBLE
-                    || iri_str == XsdVocab::XSD_FLOAT
-                {
-                    match check_literal_datatype(s.as_ref(), &datatype_iri) {
-                        Ok(ConcreteLiteral::WrongDatatypeLiteral { error, .. }) => {
-                            Ok(ConcreteLiteral::WrongDatatypeLiteral {
-                                lexical_form: s.to_string(),
-                                datatype: datatype_iri,
-                                error,
-                            })
-                        },
-                        _ => Ok(ConcreteLiteral::DatatypeLiteral {
-                            lexical_form: s.to_string(),
-                            datatype: datatype_iri,
-                        }),
-                    }
-                } else {
-                    check_literal_datatype(s.as_ref(), &datatype_iri)
+                // Value set matching, lengths and patterns refer to the lexical form, so it must not be lost:
+                // values are only kept when their lexical form is the original one.
+                // Invalid lexical forms produce WrongDatatypeLiteral.
+                match check_literal_datatype(s.as_ref(), &datatype_iri)? {
+                    lit @ Self::WrongDatatypeLiteral { .. } => Ok(lit),
+                    lit @ (Self::BooleanLiteral(_) | Self::DatetimeLiteral(_)) if lit.lexical_form() == s => Ok(lit),
+                    _ => Ok(Self::DatatypeLiteral {
+                        lexical_form: s.to_string(),
+                        datatype: datatype_iri,
+                    }),
                 }
             },
 
-- 
2.43.0


From 8f25b72911e795a6186f7b991800e1a231aa4f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:58 +0000
Subject: [PATCH 12/57] fix: comparison of numeric literals with infinities,
 NaN and values out of the range of Decimal

---
 .../rdf_core/term/literal/numeric_literal.rs  | 58 +++++++++++++------
 shex_ast/src/ast/cond_kind.rs                 |  4 +-
 2 files changed, 41 insertions(+), 21 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs b/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
index de06ac9..6710ece 100644
--- a/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
@@ -216,10 +216,11 @@ impl NumericLiteral {
     pub fn to_decimal(&self) -> Option<Decimal> {
         match self {
             NumericLiteral::Integer(n) => Decimal::from_i128(*n),
-            NumericLiteral::Double(d) => Decimal::from_f64(*d),
+            // values which are too small for a Decimal are not converted to 0
+            NumericLiteral::Double(d) => Decimal::from_f64(*d).filter(|r| *d == 0.0 || !r.is_zero()),
             NumericLiteral::Decimal(d) => Some(*d),
             NumericLiteral::Long(l) => Decimal::from_i64(*l),
-            NumericLiteral::Float(f) => Decimal::from_f32(*f),
+            NumericLiteral::Float(f) => Decimal::from_f32(*f).filter(|r| *f == 0.0 || !r.is_zero()),
             NumericLiteral::Byte(b) => Decimal::from_i8(*b),
             NumericLiteral::Short(s) => Decimal::from_i16(*s),
             NumericLiteral::NonNegativeInteger(n) => Decimal::from_u128(*n),
@@ -232,6 +233,26 @@ impl NumericLiteral {
             NumericLiteral::NonPositiveInteger(n) => Decimal::from_i128(*n),
         }
     }
+
+    /// Converts any numeric literal to the nearest double.
+    fn to_f64(&self) -> f64 {
+        match self {
+            NumericLiteral::Double(d) => *d,
+            NumericLiteral::Float(f) => f64::from(*f),
+            NumericLiteral::Decimal(d) => d.to_f64().unwrap_or(f64::NAN),
+            NumericLiteral::Integer(n) | NumericLiteral::NegativeInteger(n) | NumericLiteral::NonPositiveInteger(n) => {
+                *n as f64
+            },
+            NumericLiteral::NonNegativeInteger(n) | NumericLiteral::PositiveInteger(n) => *n as f64,
+            NumericLiteral::Long(n) => *n as f64,
+            NumericLiteral::UnsignedLong(n) => *n as f64,
+            NumericLiteral::Byte(n) => f64::from(*n),
+            NumericLiteral::Short(n) => f64::from(*n),
+            NumericLiteral::UnsignedInt(n) => f64::from(*n),
+            NumericLiteral::UnsignedShort(n) => f64::from(*n),
+            NumericLiteral::UnsignedByte(n) => f64::from(*n),
+        }
+    }
 }
 
 /// ## Utility Methods
@@ -245,23 +266,17 @@ impl NumericLiteral {
 
     /// Checks if this numeric literal is less than another.
     ///
-    /// Optimized for integer comparisons; falls back to decimal conversion
-    /// for mixed-type comparisons.
+    /// Values that cannot be compared (NaN) are never less than another.
     pub fn less_than(&self, other: &NumericLiteral) -> bool {
-        match (self, other) {
-            // Fast path: direct integer comparison
-            (NumericLiteral::Integer(n1), NumericLiteral::Integer(n2)) => n1 < n2,
-            // Generic path: convert to decimal for comparison
-            (v1, v2) => v1.to_decimal() < v2.to_decimal(),
-        }
+        self.partial_cmp(other) == Some(std::cmp::Ordering::Less)
     }
 
     /// Checks if this numeric literal is less than or equal to another.
     pub fn less_than_or_eq(&self, other: &NumericLiteral) -> bool {
-        match (self, other) {
-            (NumericLiteral::Integer(n1), NumericLiteral::Integer(n2)) => n1 <= n2,
-            (v1, v2) => v1.to_decimal() <= v2.to_decimal(),
-        }
+        matches!(
+            self.partial_cmp(other),
+            Some(std::cmp::Ordering::Less | std::cmp::Ordering::Equal)
+        )
     }
 
     /// Returns the total number of digits in the literal.
@@ -637,12 +652,17 @@ impl Display for NumericLiteral {
 
 /// Ordering based on decimal conversion for cross-type comparisons.
 impl PartialOrd for NumericLiteral {
-    // Convert both to Decimal and compare
-    // Returns None if conversion fails (e.g., NaN)
+    // Convert both to Decimal and compare; values out of the range of Decimal
+    // (infinities, very large or very small numbers) are compared as doubles.
+    // Returns None if one of them is NaN.
     fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
-        let self_decimal = self.to_decimal()?;
-        let other_decimal = other.to_decimal()?;
-        self_decimal.partial_cmp(&other_decimal)
+        match (self, other) {
+            (NumericLiteral::Integer(n1), NumericLiteral::Integer(n2)) => n1.partial_cmp(n2),
+            (v1, v2) => match (v1.to_decimal(), v2.to_decimal()) {
+                (Some(d1), Some(d2)) => d1.partial_cmp(&d2),
+                _ => v1.to_f64().partial_cmp(&v2.to_f64()),
+            },
+        }
     }
 }
 
diff --git a/shex_ast/src/ast/cond_kind.rs b/shex_ast/src/ast/cond_kind.rs
index 9dad5ef..335b7a1 100644
--- a/shex_ast/src/ast/cond_kind.rs
+++ b/shex_ast/src/ast/cond_kind.rs
@@ -316,7 +316,7 @@ pub(crate) fn check_node_min_inclusive(node: &Node, min: NumericLiteral) -> CRes
             msg: "check_node_min_inclusive: as_numeric error".to_string(),
         })
     })?;
-    if !node_num.less_than(&min) {
+    if min.less_than_or_eq(&node_num) {
         Ok(())
     } else {
         Err(Box::new(SchemaIRError::MinInclusiveError {
@@ -339,7 +339,7 @@ pub(crate) fn check_node_min_exclusive(node: &Node, min: NumericLiteral) -> CRes
             msg: "check_node_min_exclusive: as_numeric error".to_string(),
         })
     })?;
-    if !node_num.less_than_or_eq(&min) {
+    if min.less_than(&node_num) {
         Ok(())
     } else {
         Err(Box::new(SchemaIRError::MinExclusiveError {
-- 
2.43.0


From eddcdac80c6f32e1aa2dc19e29d7ecbe6a36908a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:58 +0000
Subject: [PATCH 13/57] fix: literals of datatype xsd:int are checked and
 compared as numbers

---
 .../src/rdf_core/term/literal/literal.rs      | 18 +++++++++++++++
 .../rdf_core/term/literal/numeric_literal.rs  | 23 ++++++++++++++++++-
 shex_ast/src/ast/mod.rs                       |  1 +
 shex_ast/src/ast/object_value.rs              |  3 ++-
 shex_ast/src/compact/compact_printer.rs       |  1 +
 .../src/compact/shapemap_compact_printer.rs   |  5 ++++
 shex_ast/src/compact/shex_compact_printer.rs  |  5 ++++
 7 files changed, 54 insertions(+), 2 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/term/literal/literal.rs b/rudof_rdf/src/rdf_core/term/literal/literal.rs
index a65c0bc..c6ec4b7 100644
--- a/rudof_rdf/src/rdf_core/term/literal/literal.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/literal.rs
@@ -507,6 +507,14 @@ impl ConcreteLiteral {
         Self::NumericLiteral(NumericLiteral::short(n))
     }
 
+    /// Creates a literal representing an int (`i32`).
+    ///
+    /// This corresponds to XSD's `xsd:int` type.
+    #[inline]
+    pub fn int(n: i32) -> Self {
+        Self::NumericLiteral(NumericLiteral::int(n))
+    }
+
     /// Creates a literal representing an unsigned byte (`u8`), values 0–255.
     ///
     /// This corresponds to XSD's `xsd:unsignedByte` type.
@@ -906,6 +914,15 @@ impl ConcreteLiteral {
             .map_err(|e| format!("Cannot convert {s} to short: {e}"))
     }
 
+    /// Parses a signed int (32 bits) from its string representation.
+    ///
+    /// # Errors
+    ///
+    /// Returns an error if the string cannot be parsed as an `i32`.
+    pub fn parse_int(s: &str) -> Result<i32, String> {
+        s.parse::<i32>().map_err(|e| format!("Cannot convert {s} to int: {e}"))
+    }
+
     /// Parses a datetime string using XsdDateTime
     pub fn parse_datetime(s: &str) -> Result<XsdDateTime, String> {
         XsdDateTime::new(s).map_err(|e| e.to_string())
@@ -1226,6 +1243,7 @@ fn check_literal_datatype(lexical_form: &str, datatype: &IriRef) -> Result<Concr
         ConcreteLiteral::parse_short,
         ConcreteLiteral::short
     );
+    check_xsd_type!(XsdVocab::XSD_INT, ConcreteLiteral::parse_int, ConcreteLiteral::int);
     check_xsd_type!(
         XsdVocab::XSD_UNSIGNED_INT,
         ConcreteLiteral::parse_unsigned_int,
diff --git a/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs b/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
index 6710ece..54e075b 100644
--- a/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
@@ -32,6 +32,7 @@ pub enum NumericLiteral {
     Decimal(Decimal),
     Double(f64),
     Float(f32),
+    Int(i32),
 }
 
 // Macro to eliminate duplicated decimal conversion methods
@@ -65,6 +66,7 @@ impl NumericLiteral {
             NumericLiteral::Float(_) => XsdVocab::XSD_FLOAT,
             NumericLiteral::Byte(_) => XsdVocab::XSD_BYTE,
             NumericLiteral::Short(_) => XsdVocab::XSD_SHORT,
+            NumericLiteral::Int(_) => XsdVocab::XSD_INT,
             NumericLiteral::NonNegativeInteger(_) => XsdVocab::XSD_NON_NEGATIVE_INTEGER,
             NumericLiteral::UnsignedLong(_) => XsdVocab::XSD_UNSIGNED_LONG,
             NumericLiteral::UnsignedInt(_) => XsdVocab::XSD_UNSIGNED_INT,
@@ -165,6 +167,11 @@ impl NumericLiteral {
         NumericLiteral::Short(d)
     }
 
+    /// Creates an int literal (32-bit signed integer).
+    pub fn int(d: i32) -> NumericLiteral {
+        NumericLiteral::Int(d)
+    }
+
     /// Creates a long literal (64-bit signed integer).
     pub fn long(d: i64) -> NumericLiteral {
         NumericLiteral::Long(d)
@@ -223,6 +230,7 @@ impl NumericLiteral {
             NumericLiteral::Float(f) => Decimal::from_f32(*f).filter(|r| *f == 0.0 || !r.is_zero()),
             NumericLiteral::Byte(b) => Decimal::from_i8(*b),
             NumericLiteral::Short(s) => Decimal::from_i16(*s),
+            NumericLiteral::Int(n) => Decimal::from_i32(*n),
             NumericLiteral::NonNegativeInteger(n) => Decimal::from_u128(*n),
             NumericLiteral::UnsignedLong(n) => Decimal::from_u64(*n),
             NumericLiteral::UnsignedInt(n) => Decimal::from_u32(*n),
@@ -248,6 +256,7 @@ impl NumericLiteral {
             NumericLiteral::UnsignedLong(n) => *n as f64,
             NumericLiteral::Byte(n) => f64::from(*n),
             NumericLiteral::Short(n) => f64::from(*n),
+            NumericLiteral::Int(n) => f64::from(*n),
             NumericLiteral::UnsignedInt(n) => f64::from(*n),
             NumericLiteral::UnsignedShort(n) => f64::from(*n),
             NumericLiteral::UnsignedByte(n) => f64::from(*n),
@@ -314,6 +323,7 @@ impl NumericLiteral {
                     d.abs().to_string().len()
                 }
             },
+            NumericLiteral::Int(d) => d.unsigned_abs().to_string().len(),
             NumericLiteral::NonNegativeInteger(d) => d.to_string().len(),
             NumericLiteral::UnsignedLong(d) => d.to_string().len(),
             NumericLiteral::UnsignedInt(d) => d.to_string().len(),
@@ -364,7 +374,8 @@ impl NumericLiteral {
             | NumericLiteral::NegativeInteger(_)
             | NumericLiteral::NonPositiveInteger(_)
             | NumericLiteral::Byte(_)
-            | NumericLiteral::Short(_) => Some(0),
+            | NumericLiteral::Short(_)
+            | NumericLiteral::Int(_) => Some(0),
             // For decimals, normalize (strip trailing zeros for XSD canonical
             // form), then count digits after the decimal point.
             NumericLiteral::Decimal(d) => {
@@ -406,6 +417,7 @@ impl PartialEq for NumericLiteral {
                         (NumericLiteral::Integer(a), NumericLiteral::Integer(b)) => a == b,
                         (NumericLiteral::Byte(a), NumericLiteral::Byte(b)) => a == b,
                         (NumericLiteral::Short(a), NumericLiteral::Short(b)) => a == b,
+                        (NumericLiteral::Int(a), NumericLiteral::Int(b)) => a == b,
                         (NumericLiteral::NonNegativeInteger(a), NumericLiteral::NonNegativeInteger(b)) => a == b,
                         (NumericLiteral::UnsignedLong(a), NumericLiteral::UnsignedLong(b)) => a == b,
                         (NumericLiteral::UnsignedInt(a), NumericLiteral::UnsignedInt(b)) => a == b,
@@ -452,6 +464,7 @@ impl Hash for NumericLiteral {
             NumericLiteral::Integer(n) => n.hash(state),
             NumericLiteral::Byte(b) => b.hash(state),
             NumericLiteral::Short(s) => s.hash(state),
+            NumericLiteral::Int(n) => n.hash(state),
             NumericLiteral::NonNegativeInteger(n) => n.hash(state),
             NumericLiteral::UnsignedLong(n) => n.hash(state),
             NumericLiteral::UnsignedInt(n) => n.hash(state),
@@ -489,6 +502,7 @@ impl Serialize for NumericLiteral {
             NumericLiteral::Float(f) => serializer.serialize_f32(*f),
             NumericLiteral::Byte(b) => serializer.serialize_i8(*b),
             NumericLiteral::Short(s) => serializer.serialize_i16(*s),
+            NumericLiteral::Int(n) => serializer.serialize_i32(*n),
             NumericLiteral::NonNegativeInteger(n) => serializer.serialize_u128(*n),
             NumericLiteral::UnsignedLong(n) => serializer.serialize_u64(*n),
             NumericLiteral::UnsignedInt(n) => serializer.serialize_u32(*n),
@@ -536,6 +550,7 @@ enum NumericLiteralUntagged {
     Decimal(Decimal),
     Double(f64),
     Float(f32),
+    Int(i32),
 }
 
 impl From<NumericLiteralUntagged> for NumericLiteral {
@@ -544,6 +559,7 @@ impl From<NumericLiteralUntagged> for NumericLiteral {
             NumericLiteralUntagged::Integer(n) => NumericLiteral::Integer(n),
             NumericLiteralUntagged::Byte(n) => NumericLiteral::Byte(n),
             NumericLiteralUntagged::Short(n) => NumericLiteral::Short(n),
+            NumericLiteralUntagged::Int(n) => NumericLiteral::Int(n),
             NumericLiteralUntagged::NonNegativeInteger(n) => NumericLiteral::NonNegativeInteger(n),
             NumericLiteralUntagged::UnsignedLong(n) => NumericLiteral::UnsignedLong(n),
             NumericLiteralUntagged::UnsignedInt(n) => NumericLiteral::UnsignedInt(n),
@@ -577,6 +593,7 @@ enum NumericLiteralTagged {
     Decimal(String),
     Double(f64),
     Float(f32),
+    Int(i32),
 }
 
 impl From<&NumericLiteral> for NumericLiteralTagged {
@@ -585,6 +602,7 @@ impl From<&NumericLiteral> for NumericLiteralTagged {
             NumericLiteral::Integer(n) => NumericLiteralTagged::Integer(*n),
             NumericLiteral::Byte(n) => NumericLiteralTagged::Byte(*n),
             NumericLiteral::Short(n) => NumericLiteralTagged::Short(*n),
+            NumericLiteral::Int(n) => NumericLiteralTagged::Int(*n),
             NumericLiteral::NonNegativeInteger(n) => NumericLiteralTagged::NonNegativeInteger(*n),
             NumericLiteral::UnsignedLong(n) => NumericLiteralTagged::UnsignedLong(*n),
             NumericLiteral::UnsignedInt(n) => NumericLiteralTagged::UnsignedInt(*n),
@@ -609,6 +627,7 @@ impl TryFrom<NumericLiteralTagged> for NumericLiteral {
             NumericLiteralTagged::Integer(n) => NumericLiteral::Integer(n),
             NumericLiteralTagged::Byte(n) => NumericLiteral::Byte(n),
             NumericLiteralTagged::Short(n) => NumericLiteral::Short(n),
+            NumericLiteralTagged::Int(n) => NumericLiteral::Int(n),
             NumericLiteralTagged::NonNegativeInteger(n) => NumericLiteral::NonNegativeInteger(n),
             NumericLiteralTagged::UnsignedLong(n) => NumericLiteral::UnsignedLong(n),
             NumericLiteralTagged::UnsignedInt(n) => NumericLiteral::UnsignedInt(n),
@@ -638,6 +657,7 @@ impl Display for NumericLiteral {
             NumericLiteral::Float(n) => write!(f, "{n}"),
             NumericLiteral::Byte(b) => write!(f, "{b}"),
             NumericLiteral::Short(s) => write!(f, "{s}"),
+            NumericLiteral::Int(n) => write!(f, "{n}"),
             NumericLiteral::NonNegativeInteger(n) => write!(f, "{n}"),
             NumericLiteral::UnsignedLong(n) => write!(f, "{n}"),
             NumericLiteral::UnsignedInt(n) => write!(f, "{n}"),
@@ -707,6 +727,7 @@ impl From<NumericLiteral> for oxrdf::Literal {
             NumericLiteral::Float(f) => oxrdf::Literal::from(f),
             NumericLiteral::Byte(b) => oxrdf::Literal::new_typed_literal(b.to_string(), oxrdf::vocab::xsd::BYTE),
             NumericLiteral::Short(s) => oxrdf::Literal::from(s),
+            NumericLiteral::Int(n) => oxrdf::Literal::from(n),
             NumericLiteral::NonNegativeInteger(n) => {
                 oxrdf::Literal::new_typed_literal(n.to_string(), oxrdf::vocab::xsd::NON_NEGATIVE_INTEGER)
             },
diff --git a/shex_ast/src/ast/mod.rs b/shex_ast/src/ast/mod.rs
index e4ae2c7..a47373a 100644
--- a/shex_ast/src/ast/mod.rs
+++ b/shex_ast/src/ast/mod.rs
@@ -58,6 +58,7 @@ const BOOLEAN_STR: &str = "http://www.w3.org/2001/XMLSchema#boolean";
 const INTEGER_STR: &str = "http://www.w3.org/2001/XMLSchema#integer";
 const BYTE_STR: &str = "http://www.w3.org/2001/XMLSchema#byte";
 const SHORT_STR: &str = "http://www.w3.org/2001/XMLSchema#short";
+const INT_STR: &str = "http://www.w3.org/2001/XMLSchema#int";
 const NON_NEGATIVE_INTEGER_STR: &str = "http://www.w3.org/2001/XMLSchema#nonNegativeInteger";
 const UNSIGNED_LONG_STR: &str = "http://www.w3.org/2001/XMLSchema#unsignedLong";
 const UNSIGNED_INT_STR: &str = "http://www.w3.org/2001/XMLSchema#unsignedInt";
diff --git a/shex_ast/src/ast/object_value.rs b/shex_ast/src/ast/object_value.rs
index 548bc0e..365c187 100644
--- a/shex_ast/src/ast/object_value.rs
+++ b/shex_ast/src/ast/object_value.rs
@@ -18,7 +18,7 @@ use std::{result, str::FromStr};
 
 use crate::Node;
 use crate::ast::{
-    BYTE_STR, DATETIME_STR, FLOAT_STR, LONG_STR, NEGATIVE_INTEGER_STR, NON_NEGATIVE_INTEGER_STR,
+    BYTE_STR, DATETIME_STR, FLOAT_STR, INT_STR, LONG_STR, NEGATIVE_INTEGER_STR, NON_NEGATIVE_INTEGER_STR,
     NON_POSITIVE_INTEGER_STR, POSITIVE_INTEGER_STR, SHORT_STR, UNSIGNED_BYTE_STR, UNSIGNED_INT_STR, UNSIGNED_LONG_STR,
     UNSIGNED_SHORT_STR,
 };
@@ -174,6 +174,7 @@ fn get_type_str(n: &NumericLiteral) -> &str {
         NumericLiteral::Float(_) => FLOAT_STR,
         NumericLiteral::Byte(_) => BYTE_STR,
         NumericLiteral::Short(_) => SHORT_STR,
+        NumericLiteral::Int(_) => INT_STR,
         NumericLiteral::NonNegativeInteger(_) => NON_NEGATIVE_INTEGER_STR,
         NumericLiteral::UnsignedLong(_) => UNSIGNED_LONG_STR,
         NumericLiteral::UnsignedInt(_) => UNSIGNED_INT_STR,
diff --git a/shex_ast/src/compact/compact_printer.rs b/shex_ast/src/compact/compact_printer.rs
index 26b2d2d..58bec87 100644
--- a/shex_ast/src/compact/compact_printer.rs
+++ b/shex_ast/src/compact/compact_printer.rs
@@ -50,6 +50,7 @@ fn pp_numeric_literal<'a, A>(value: &NumericLiteral, doc: &'a Arena<'a, A>) -> D
         NumericLiteral::Float(n) => doc.text(n.to_string()),
         NumericLiteral::Byte(n) => doc.text(n.to_string()),
         NumericLiteral::Short(n) => doc.text(n.to_string()),
+        NumericLiteral::Int(n) => doc.text(n.to_string()),
         NumericLiteral::NonNegativeInteger(n) => doc.text(n.to_string()),
         NumericLiteral::UnsignedLong(n) => doc.text(n.to_string()),
         NumericLiteral::UnsignedInt(n) => doc.text(n.to_string()),
diff --git a/shex_ast/src/compact/shapemap_compact_printer.rs b/shex_ast/src/compact/shapemap_compact_printer.rs
index d247cc4..21a1579 100644
--- a/shex_ast/src/compact/shapemap_compact_printer.rs
+++ b/shex_ast/src/compact/shapemap_compact_printer.rs
@@ -257,6 +257,7 @@ where
             NumericLiteral::Float(f) => self.pp_float(&(*f as f64)),
             NumericLiteral::Byte(b) => self.pp_byte(b),
             NumericLiteral::Short(s) => self.pp_short(s),
+            NumericLiteral::Int(n) => self.pp_int(n),
             NumericLiteral::NonNegativeInteger(n) => self.pp_non_negative_integer(n),
             NumericLiteral::UnsignedLong(u) => self.pp_unsigned_long(u),
             NumericLiteral::UnsignedInt(u) => self.pp_unsigned_int(u),
@@ -292,6 +293,10 @@ where
         self.doc.text(value.to_string())
     }
 
+    fn pp_int(&self, value: &i32) -> DocBuilder<'a, Arena<'a, A>, A> {
+        self.doc.text(value.to_string())
+    }
+
     fn pp_non_negative_integer(&self, value: &u128) -> DocBuilder<'a, Arena<'a, A>, A> {
         self.doc.text(value.to_string())
     }
diff --git a/shex_ast/src/compact/shex_compact_printer.rs b/shex_ast/src/compact/shex_compact_printer.rs
index a564ed2..bf177ff 100644
--- a/shex_ast/src/compact/shex_compact_printer.rs
+++ b/shex_ast/src/compact/shex_compact_printer.rs
@@ -667,6 +667,7 @@ where
             NumericLiteral::Float(f) => self.pp_float(&(*f as f64)),
             NumericLiteral::Byte(b) => self.pp_byte(b),
             NumericLiteral::Short(s) => self.pp_short(s),
+            NumericLiteral::Int(n) => self.pp_int(n),
             NumericLiteral::NonNegativeInteger(n) => self.pp_non_negative_integer(n),
             NumericLiteral::UnsignedLong(u) => self.pp_unsigned_long(u),
             NumericLiteral::UnsignedInt(u) => self.pp_unsigned_int(u),
@@ -706,6 +707,10 @@ where
         self.doc.text(value.to_string())
     }
 
+    fn pp_int(&self, value: &i32) -> DocBuilder<'a, Arena<'a, A>, A> {
+        self.doc.text(value.to_string())
+    }
+
     fn pp_non_negative_integer(&self, value: &u128) -> DocBuilder<'a, Arena<'a, A>, A> {
         self.doc.text(value.to_string())
     }
-- 
2.43.0


From 9074d7cc2e9d8390cefb7ef776f9eaf47fca62fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:55 +0000
Subject: [PATCH 14/57] fix: compare literals by value and language, and give
 terms a total order

---
 .../src/rdf_core/term/literal/literal.rs      | 84 ++++++++++++-------
 .../rdf_core/term/literal/numeric_literal.rs  |  2 +-
 rudof_rdf/src/rdf_core/term/triple.rs         | 31 ++++++-
 3 files changed, 81 insertions(+), 36 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/term/literal/literal.rs b/rudof_rdf/src/rdf_core/term/literal/literal.rs
index c6ec4b7..2a0c415 100644
--- a/rudof_rdf/src/rdf_core/term/literal/literal.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/literal.rs
@@ -4,6 +4,7 @@ use crate::rdf_core::{
 };
 use rust_decimal::Decimal;
 use std::{
+    borrow::Cow,
     fmt::{self, Debug, Display},
     hash::Hash,
     result,
@@ -155,9 +156,9 @@ pub trait Literal: Debug + Clone + Display + PartialEq + Eq + Hash {
 ///
 /// # Panics
 ///
-/// The [`Ord`] implementation panics when comparing incomparable literals (e.g., NaN
+/// The [`Ord`] implementation is a total order that is also defined on incomparable literals (e.g., NaN
 /// floating-point values or literals with different datatypes). Use [`PartialOrd`]
-/// when comparing arbitrary literals to avoid panics.
+/// to compare literals according to the SPARQL semantics.
 #[derive(PartialEq, Eq, Hash, Debug, Serialize, Deserialize, Clone)]
 #[allow(clippy::enum_variant_names)]
 pub enum ConcreteLiteral {
@@ -923,6 +924,18 @@ impl ConcreteLiteral {
         s.parse::<i32>().map_err(|e| format!("Cannot convert {s} to int: {e}"))
     }
 
+    /// Returns the literal as a value that can be compared with others: datatype literals that keep their original
+    /// lexical form are converted to the value denoted by that form, if their datatype is a known one.
+    fn comparison_value(&self) -> Cow<'_, Self> {
+        match self {
+            Self::DatatypeLiteral { lexical_form, datatype } => match check_literal_datatype(lexical_form, datatype) {
+                Ok(value) => Cow::Owned(value),
+                Err(_) => Cow::Borrowed(self),
+            },
+            _ => Cow::Borrowed(self),
+        }
+    }
+
     /// Parses a datetime string using XsdDateTime
     pub fn parse_datetime(s: &str) -> Result<XsdDateTime, String> {
         XsdDateTime::new(s).map_err(|e| e.to_string())
@@ -962,15 +975,22 @@ impl Default for ConcreteLiteral {
 #[allow(clippy::non_canonical_partial_ord_impl)]
 impl PartialOrd for ConcreteLiteral {
     fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
-        match (self, other) {
+        match (self.comparison_value().as_ref(), other.comparison_value().as_ref()) {
             // Chronological comparison for datetime literals
             (Self::DatetimeLiteral(dt1), Self::DatetimeLiteral(dt2)) => dt1.partial_cmp(dt2),
-            // Lexicographic comparison for plain string literals
-            (Self::StringLiteral { lexical_form: lf1, .. }, Self::StringLiteral { lexical_form: lf2, .. }) => {
-                Some(lf1.cmp(lf2))
-            },
-            // Datatype literals: try numeric comparison for numeric types (cross-type allowed),
-            // fall back to lexical for same-datatype non-numeric, incomparable otherwise
+            // Lexicographic comparison for string literals. Strings with different language tags, or with and
+            // without a language tag, are not comparable
+            (
+                Self::StringLiteral {
+                    lexical_form: lf1,
+                    lang: lang1,
+                },
+                Self::StringLiteral {
+                    lexical_form: lf2,
+                    lang: lang2,
+                },
+            ) if lang1 == lang2 => Some(lf1.cmp(lf2)),
+            // Literals with other datatypes are compared by lexical form if they have the same datatype
             (
                 Self::DatatypeLiteral {
                     lexical_form: lf1,
@@ -980,18 +1000,12 @@ impl PartialOrd for ConcreteLiteral {
                     lexical_form: lf2,
                     datatype: dt2,
                 },
-            ) => match (check_literal_datatype(lf1, dt1), check_literal_datatype(lf2, dt2)) {
-                (Ok(Self::NumericLiteral(n1)), Ok(Self::NumericLiteral(n2))) => n1.partial_cmp(&n2),
-                _ if dt1 == dt2 => Some(lf1.cmp(lf2)),
-                _ => None,
-            },
+            ) if dt1 == dt2 => Some(lf1.cmp(lf2)),
             // Numeric comparison (may return None for NaN)
             (Self::NumericLiteral(n1), Self::NumericLiteral(n2)) => n1.partial_cmp(n2),
             // Boolean ordering: false < true
             (Self::BooleanLiteral(b1), Self::BooleanLiteral(b2)) => Some(b1.cmp(b2)),
-            // Wrong-datatype literals have an invalid lexical form and are incomparable for ordering
-            (Self::WrongDatatypeLiteral { .. }, _) | (_, Self::WrongDatatypeLiteral { .. }) => None,
-            // All other combinations are considered incomparable
+            // All other combinations, including literals with an invalid lexical form, are considered incomparable
             _ => None,
         }
     }
@@ -999,22 +1013,30 @@ impl PartialOrd for ConcreteLiteral {
 
 /// Total ordering for literals.
 ///
-/// # Panics
-///
-/// This implementation **panics** if two literals are not comparable, such as:
-/// - Literals with different datatypes
-/// - Numeric literals involving `NaN`
-///
-/// This is intended as a temporary solution to support sorting in validation
-/// workflows where such cases are not expected.
-///
-/// # TODO
-///
-/// Define a total ordering that is well-defined for *all* literals.
+/// It is defined on all the literals, including the ones that are not comparable according to the SPARQL semantics
+/// followed by [`PartialOrd`]: literals are ordered by their kind first and, inside each kind, by numeric value, datatype,
+/// lexical form and language tag.
 impl Ord for ConcreteLiteral {
     fn cmp(&self, other: &Self) -> std::cmp::Ordering {
-        self.partial_cmp(other)
-            .unwrap_or_else(|| panic!("Cannot compare literals {self} and {other}"))
+        fn kind(literal: &ConcreteLiteral) -> u8 {
+            match literal {
+                ConcreteLiteral::NumericLiteral(_) => 0,
+                ConcreteLiteral::BooleanLiteral(_) => 1,
+                ConcreteLiteral::DatetimeLiteral(_) => 2,
+                ConcreteLiteral::StringLiteral { .. } => 3,
+                ConcreteLiteral::DatatypeLiteral { .. } => 4,
+                ConcreteLiteral::WrongDatatypeLiteral { .. } => 5,
+            }
+        }
+        let by_value = match (self.comparison_value().as_ref(), other.comparison_value().as_ref()) {
+            (Self::NumericLiteral(n1), Self::NumericLiteral(n2)) => n1.to_f64().total_cmp(&n2.to_f64()),
+            (v1, v2) => kind(v1).cmp(&kind(v2)),
+        };
+        by_value
+            .then_with(|| kind(self).cmp(&kind(other)))
+            .then_with(|| self.datatype().to_string().cmp(&other.datatype().to_string()))
+            .then_with(|| self.lexical_form().cmp(&other.lexical_form()))
+            .then_with(|| self.lang().cmp(&other.lang()))
     }
 }
 
diff --git a/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs b/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
index 54e075b..c698fb4 100644
--- a/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
@@ -243,7 +243,7 @@ impl NumericLiteral {
     }
 
     /// Converts any numeric literal to the nearest double.
-    fn to_f64(&self) -> f64 {
+    pub(crate) fn to_f64(&self) -> f64 {
         match self {
             NumericLiteral::Double(d) => *d,
             NumericLiteral::Float(f) => f64::from(*f),
diff --git a/rudof_rdf/src/rdf_core/term/triple.rs b/rudof_rdf/src/rdf_core/term/triple.rs
index 94a217e..1b57b30 100644
--- a/rudof_rdf/src/rdf_core/term/triple.rs
+++ b/rudof_rdf/src/rdf_core/term/triple.rs
@@ -539,11 +539,34 @@ impl PartialOrd for Object {
 }
 
 impl Ord for Object {
-    /// Implements total ordering for objects according to RDF semantics.
-    ///
-    /// If elements are not comparable, [`Ordering::Less`] is returned
+    /// Implements a total ordering for objects: IRIs < Blank Nodes < Literals < Triples.
     fn cmp(&self, other: &Self) -> Ordering {
-        self.partial_cmp(other).unwrap_or(Ordering::Less)
+        fn kind(object: &Object) -> u8 {
+            match object {
+                Object::Iri(_) => 0,
+                Object::BlankNode(_) => 1,
+                Object::Literal(_) => 2,
+                Object::Triple { .. } => 3,
+            }
+        }
+        match (self, other) {
+            (Object::Iri(a), Object::Iri(b)) => a.cmp(b),
+            (Object::BlankNode(a), Object::BlankNode(b)) => a.cmp(b),
+            (Object::Literal(a), Object::Literal(b)) => a.cmp(b),
+            (
+                Object::Triple {
+                    subject: s1,
+                    predicate: p1,
+                    object: o1,
+                },
+                Object::Triple {
+                    subject: s2,
+                    predicate: p2,
+                    object: o2,
+                },
+            ) => s1.cmp(s2).then_with(|| p1.cmp(p2)).then_with(|| o1.cmp(o2)),
+            (a, b) => kind(a).cmp(&kind(b)),
+        }
     }
 }
 
-- 
2.43.0


From c66ab2b2375df68021fa29baafd1cbe9bfa622db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:55 +0000
Subject: [PATCH 15/57] fix: SHACL paths through literals and inverses of
 complex paths

---
 rudof_rdf/src/rdf_core/neighs_rdf.rs | 35 ++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/neighs_rdf.rs b/rudof_rdf/src/rdf_core/neighs_rdf.rs
index ec19298..b8ef11e 100644
--- a/rudof_rdf/src/rdf_core/neighs_rdf.rs
+++ b/rudof_rdf/src/rdf_core/neighs_rdf.rs
@@ -325,6 +325,10 @@ pub trait NeighsRDF: Rdf {
     fn objects_for_shacl_path(&self, subject: &Self::Term, path: &SHACLPath) -> Result<HashSet<Self::Term>, RDFError> {
         match path {
             SHACLPath::Predicate { pred } => {
+                // Nodes that can't be subjects, like literals, don't have outgoing arcs
+                if Self::term_as_subject(subject).is_err() {
+                    return Ok(HashSet::new());
+                }
                 let pred: Self::IRI = pred.clone().into();
                 self.objects_for(subject, &pred)
             },
@@ -349,10 +353,33 @@ pub trait NeighsRDF: Rdf {
                     Ok(all_objects)
                 },
             },
-            SHACLPath::Inverse { path } => {
-                let pred: Self::IRI = path.pred().unwrap().clone().into();
-                let objects = self.subjects_for(&pred, subject)?;
-                Ok(objects)
+            SHACLPath::Inverse { path } => match path.as_ref() {
+                SHACLPath::Predicate { pred } => {
+                    let pred: Self::IRI = pred.clone().into();
+                    self.subjects_for(&pred, subject)
+                },
+                // The inverse of a complex path is obtained by inverting its components
+                SHACLPath::Inverse { path } => self.objects_for_shacl_path(subject, path),
+                SHACLPath::Sequence { paths } => {
+                    let paths = paths.iter().rev().cloned().map(SHACLPath::inverse).collect();
+                    self.objects_for_shacl_path(subject, &SHACLPath::sequence(paths))
+                },
+                SHACLPath::Alternative { paths } => {
+                    let paths = paths.iter().cloned().map(SHACLPath::inverse).collect();
+                    self.objects_for_shacl_path(subject, &SHACLPath::alternative(paths))
+                },
+                SHACLPath::ZeroOrMore { path } => {
+                    let path = SHACLPath::inverse(path.as_ref().clone());
+                    self.objects_for_shacl_path(subject, &SHACLPath::zero_or_more(path))
+                },
+                SHACLPath::OneOrMore { path } => {
+                    let path = SHACLPath::inverse(path.as_ref().clone());
+                    self.objects_for_shacl_path(subject, &SHACLPath::one_or_more(path))
+                },
+                SHACLPath::ZeroOrOne { path } => {
+                    let path = SHACLPath::inverse(path.as_ref().clone());
+                    self.objects_for_shacl_path(subject, &SHACLPath::zero_or_one(path))
+                },
             },
             SHACLPath::ZeroOrMore { path } => {
                 let mut all_objects = HashSet::new();
-- 
2.43.0


From 123cf925b3f07ad34b813f1e16ff4af44d0adb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:55 +0000
Subject: [PATCH 16/57] fix: SHACL property pair constraints on literals and
 incomparable values

---
 .../core/property_pair/disjoint.rs            |  5 ++++-
 .../constraints/core/property_pair/equals.rs  | 19 +++++++++----------
 .../core/property_pair/less_than.rs           |  8 ++++++--
 .../core/property_pair/less_than_or_equals.rs |  8 ++++++--
 .../constraints/core/property_pair/mod.rs     | 12 ++++++++++++
 5 files changed, 37 insertions(+), 15 deletions(-)

diff --git a/shacl/src/validator/constraints/core/property_pair/disjoint.rs b/shacl/src/validator/constraints/core/property_pair/disjoint.rs
index 966e841..fbe62ad 100644
--- a/shacl/src/validator/constraints/core/property_pair/disjoint.rs
+++ b/shacl/src/validator/constraints/core/property_pair/disjoint.rs
@@ -31,7 +31,10 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for Disjoint {
         _: &IRSchema,
     ) -> Result<Vec<ValidationResult>, ValidationError> {
         let check_fn = |f: &S::Term, vn: &S::Term| {
-            let subject = S::term_as_subject(f).unwrap();
+            // Nodes that can't be subjects (literals) have no values for the property
+            let Ok(subject) = S::term_as_subject(f) else {
+                return false;
+            };
             let iri: S::IRI = self.iri().clone().into();
             let triples_to_compare = match store.triples_with_subject_predicate(&subject, &iri) {
                 Ok(iter) => iter,
diff --git a/shacl/src/validator/constraints/core/property_pair/equals.rs b/shacl/src/validator/constraints/core/property_pair/equals.rs
index f60ad68..bc33714 100644
--- a/shacl/src/validator/constraints/core/property_pair/equals.rs
+++ b/shacl/src/validator/constraints/core/property_pair/equals.rs
@@ -32,18 +32,17 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for Equals {
         let mut results = Vec::new();
 
         for (fnode, nodes) in value_nodes.iter() {
-            let subject = match S::term_as_subject(fnode) {
-                Ok(s) => s,
-                Err(_) => continue,
-            };
-
             let iri: S::IRI = self.iri().clone().into();
 
-            let prop_values = store
-                .triples_with_subject_predicate(&subject, &iri)
-                .map_err(ValidationError::new_graph_error::<S>)?
-                .map(|t| t.obj().clone())
-                .collect::<HashSet<_>>();
+            let prop_values = match S::term_as_subject(fnode) {
+                Ok(subject) => store
+                    .triples_with_subject_predicate(&subject, &iri)
+                    .map_err(ValidationError::new_graph_error::<S>)?
+                    .map(|t| t.obj().clone())
+                    .collect::<HashSet<_>>(),
+                // Nodes that can't be subjects (literals) have no values for the property
+                Err(_) => HashSet::new(),
+            };
 
             let nodes_set = nodes.iter().collect::<HashSet<_>>();
 
diff --git a/shacl/src/validator/constraints/core/property_pair/less_than.rs b/shacl/src/validator/constraints/core/property_pair/less_than.rs
index 27f7a15..4c1aa39 100644
--- a/shacl/src/validator/constraints/core/property_pair/less_than.rs
+++ b/shacl/src/validator/constraints/core/property_pair/less_than.rs
@@ -5,6 +5,7 @@ use crate::types::MessageMap;
 #[cfg(feature = "sparql")]
 use crate::validator::constraints::BasicSparqlValidator;
 use crate::validator::constraints::NativeValidator;
+use crate::validator::constraints::core::property_pair::compare_values;
 use crate::validator::engine::Engine;
 use crate::validator::nodes::ValueNodes;
 use crate::validator::report::ValidationResult;
@@ -32,7 +33,10 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for LessThan {
         let component = Object::Iri(component.into());
 
         for (fnode, nodes) in value_nodes.iter() {
-            let subject = S::term_as_subject(fnode)?;
+            // Nodes that can't be subjects (literals) have no values for the property
+            let Ok(subject) = S::term_as_subject(fnode) else {
+                continue;
+            };
             let iri: S::IRI = self.iri().clone().into();
             let fnode_obj = S::term_as_object(fnode)?;
 
@@ -43,7 +47,7 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for LessThan {
                         let node1 = S::term_as_object(triple.obj())?;
                         for value in nodes.iter() {
                             let node2 = S::term_as_object(value)?;
-                            let msg = match node2.partial_cmp(&node1) {
+                            let msg = match compare_values(&node2, &node1) {
                                 None => Some(format!(
                                     "LessThan constraint violated: {node1} is not comparable to {node2}"
                                 )),
diff --git a/shacl/src/validator/constraints/core/property_pair/less_than_or_equals.rs b/shacl/src/validator/constraints/core/property_pair/less_than_or_equals.rs
index 91c9393..a69c9d8 100644
--- a/shacl/src/validator/constraints/core/property_pair/less_than_or_equals.rs
+++ b/shacl/src/validator/constraints/core/property_pair/less_than_or_equals.rs
@@ -5,6 +5,7 @@ use crate::types::MessageMap;
 #[cfg(feature = "sparql")]
 use crate::validator::constraints::BasicSparqlValidator;
 use crate::validator::constraints::NativeValidator;
+use crate::validator::constraints::core::property_pair::compare_values;
 use crate::validator::engine::Engine;
 use crate::validator::nodes::ValueNodes;
 use crate::validator::report::ValidationResult;
@@ -32,7 +33,10 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for LessThanOrEquals {
         let component = Object::iri(component.into());
 
         for (fnode, nodes) in value_nodes.iter() {
-            let subject = S::term_as_subject(fnode)?;
+            // Nodes that can't be subjects (literals) have no values for the property
+            let Ok(subject) = S::term_as_subject(fnode) else {
+                continue;
+            };
             let iri: S::IRI = self.iri().clone().into();
             let fnode_obj = S::term_as_object(fnode)?;
 
@@ -43,7 +47,7 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for LessThanOrEquals {
                         let node1 = S::term_as_object(triple.obj())?;
                         for value in nodes.iter() {
                             let node2 = S::term_as_object(value)?;
-                            let msg = match node2.partial_cmp(&node1) {
+                            let msg = match compare_values(&node2, &node1) {
                                 None => Some(format!(
                                     "LessThanOrEquals constraint violated: {node1} is not comparable to {node2}"
                                 )),
diff --git a/shacl/src/validator/constraints/core/property_pair/mod.rs b/shacl/src/validator/constraints/core/property_pair/mod.rs
index a792644..6e6ea32 100644
--- a/shacl/src/validator/constraints/core/property_pair/mod.rs
+++ b/shacl/src/validator/constraints/core/property_pair/mod.rs
@@ -2,3 +2,15 @@ mod disjoint;
 mod equals;
 mod less_than;
 mod less_than_or_equals;
+
+use rudof_rdf::rdf_core::term::Object;
+use std::cmp::Ordering;
+
+/// Compares two values like the SPARQL operators `<` and `<=`, which are only defined on literals.
+/// Returns `None` if the values are not comparable.
+fn compare_values(a: &Object, b: &Object) -> Option<Ordering> {
+    match (a, b) {
+        (Object::Literal(a), Object::Literal(b)) => a.partial_cmp(b),
+        _ => None,
+    }
+}
-- 
2.43.0


From 5727ab976d9a07c03f31ec856871516f4aa16110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:55 +0000
Subject: [PATCH 17/57] fix: sh:minLength and sh:maxLength count characters

---
 .../src/validator/constraints/core/string_based/max_length.rs | 4 ++--
 .../src/validator/constraints/core/string_based/min_length.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/shacl/src/validator/constraints/core/string_based/max_length.rs b/shacl/src/validator/constraints/core/string_based/max_length.rs
index 07ae4eb..7108ed3 100644
--- a/shacl/src/validator/constraints/core/string_based/max_length.rs
+++ b/shacl/src/validator/constraints/core/string_based/max_length.rs
@@ -35,10 +35,10 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for MaxLength {
                 return true;
             }
             if let Ok(iri) = S::term_as_iri(vn) {
-                return iri.as_str().len() > self.max_length() as usize;
+                return iri.as_str().chars().count() > self.max_length() as usize;
             }
             if let Ok(lit) = S::term_as_literal(vn) {
-                return lit.lexical_form().len() > self.max_length() as usize;
+                return lit.lexical_form().chars().count() > self.max_length() as usize;
             }
             true
         };
diff --git a/shacl/src/validator/constraints/core/string_based/min_length.rs b/shacl/src/validator/constraints/core/string_based/min_length.rs
index b1e6dec..646577c 100644
--- a/shacl/src/validator/constraints/core/string_based/min_length.rs
+++ b/shacl/src/validator/constraints/core/string_based/min_length.rs
@@ -35,10 +35,10 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for MinLength {
                 return true;
             }
             if let Ok(iri) = S::term_as_iri(vn) {
-                return iri.as_str().len() < self.min_length() as usize;
+                return iri.as_str().chars().count() < self.min_length() as usize;
             }
             if let Ok(lit) = S::term_as_literal(vn) {
-                return lit.lexical_form().len() < self.min_length() as usize;
+                return lit.lexical_form().chars().count() < self.min_length() as usize;
             }
             true
         };
-- 
2.43.0


From 5b9d990cdabd355af7e195973602fcc0afc0055e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:55 +0000
Subject: [PATCH 18/57] fix: SHACL instances include instances of indirect
 subclasses

---
 .../validator/constraints/core/value/class.rs | 35 ++++++----------
 shacl/src/validator/engine/native.rs          | 42 ++++---------------
 shacl/src/validator/index/class.rs            | 16 +++----
 3 files changed, 31 insertions(+), 62 deletions(-)

diff --git a/shacl/src/validator/constraints/core/value/class.rs b/shacl/src/validator/constraints/core/value/class.rs
index 7b90934..c760ba4 100644
--- a/shacl/src/validator/constraints/core/value/class.rs
+++ b/shacl/src/validator/constraints/core/value/class.rs
@@ -41,17 +41,7 @@ impl<S: NeighsRDF + 'static> NativeValidator<S> for Class {
             }
             let term = S::object_as_term(self.class_rule());
 
-            !store
-                .objects_for(vn, &RdfVocab::rdf_type().into())
-                .unwrap_or_default()
-                .iter()
-                .any(|ctype| {
-                    ctype == &term
-                        || store
-                            .objects_for(ctype, &RdfsVocab::rdfs_subclass_of_str().into())
-                            .unwrap_or_default()
-                            .contains(&term)
-                })
+            !is_instance(store, vn, &term)
         };
 
         validate_with(
@@ -94,7 +84,7 @@ impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for Clas
                 let conforms = if vn.is_literal() {
                     false
                 } else if vn.is_blank_node() {
-                    blank_is_instance::<S>(store, vn, &class_term)?
+                    is_instance(store, vn, &class_term)
                 } else {
                     let vn_sparql = term_as_sparql::<S>(vn).unwrap_or_default();
                     let query = formatdoc! {"
@@ -121,14 +111,15 @@ impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for Clas
     }
 }
 
-#[cfg(feature = "sparql")]
-fn blank_is_instance<S: NeighsRDF>(store: &S, vn: &S::Term, class_term: &S::Term) -> Result<bool, ValidationError> {
-    let types = store.objects_for(vn, &RdfVocab::rdf_type().into()).unwrap_or_default();
-    Ok(types.iter().any(|ctype| {
-        ctype == class_term
-            || store
-                .objects_for(ctype, &RdfsVocab::rdfs_subclass_of_str().into())
-                .unwrap_or_default()
-                .contains(class_term)
-    }))
+/// Checks if a node is a SHACL instance of a class: an instance of the class or of one of its direct or indirect
+/// subclasses.
+fn is_instance<S: NeighsRDF>(store: &S, vn: &S::Term, class_term: &S::Term) -> bool {
+    let path = SHACLPath::sequence(vec![
+        SHACLPath::iri(RdfVocab::rdf_type()),
+        SHACLPath::zero_or_more(SHACLPath::iri(RdfsVocab::rdfs_subclass_of_str())),
+    ]);
+    store
+        .objects_for_shacl_path(vn, &path)
+        .unwrap_or_default()
+        .contains(class_term)
 }
diff --git a/shacl/src/validator/engine/native.rs b/shacl/src/validator/engine/native.rs
index 4d428d0..4c5f595 100644
--- a/shacl/src/validator/engine/native.rs
+++ b/shacl/src/validator/engine/native.rs
@@ -8,7 +8,6 @@ use crate::validator::nodes::{FocusNodes, ValueNodes};
 use crate::validator::report::ValidationResult;
 use rudof_iri::IriS;
 use rudof_rdf::rdf_core::term::{Object, Term, Triple};
-use rudof_rdf::rdf_core::vocabs::{RdfVocab, RdfsVocab};
 use rudof_rdf::rdf_core::{NeighsRDF, SHACLPath};
 use std::fmt::Debug;
 use std::sync::Arc;
@@ -55,18 +54,8 @@ impl NativeEngine {
         store: &RDF,
         class: &Object,
     ) -> Result<FocusNodes<RDF>, ValidationError> {
-        if let Some(index) = &self.class_index {
-            let focus_nodes = index.instances_of(class).map(|obj| -> RDF::Term { obj.clone().into() });
-            return Ok(FocusNodes::from_iter(focus_nodes));
-        }
-
-        let cls: RDF::Term = class.clone().into();
-        let focus_nodes = store
-            .shacl_instances_of(&cls)
-            .map_err(ValidationError::new_graph_error::<RDF>)?
-            .map(|s| RDF::subject_as_term(&s));
-
-        Ok(FocusNodes::from_iter(focus_nodes))
+        // The nodes with the target class are its SHACL instances, which include the instances of its subclasses
+        self.implicit_target_class_impl(store, class)
     }
 
     fn target_subject_of_impl<RDF: NeighsRDF + Debug + 'static>(
@@ -101,26 +90,13 @@ impl NativeEngine {
         store: &RDF,
         shape: &Object,
     ) -> Result<FocusNodes<RDF>, ValidationError> {
-        if let Some(index) = &self.class_index {
-            let instances = index.instances_of_with_subclasses(shape);
-            let focus_nodes = instances.into_iter().map(|obj| -> RDF::Term { obj.clone().into() });
-            return Ok(FocusNodes::from_iter(focus_nodes));
-        }
-
-        let term: RDF::Term = shape.clone().into();
-        let targets = store.subjects_for(&RdfVocab::rdf_type().into(), &term)?;
-
-        let subclass_targets = store
-            .subjects_for(&RdfsVocab::rdfs_subclass_of_str().into(), &term)?
-            .into_iter()
-            .flat_map(move |subclass| {
-                store
-                    .subjects_for(&RdfVocab::rdf_type().into(), &subclass)
-                    .into_iter()
-                    .flatten()
-            });
-
-        Ok(FocusNodes::from_iter(targets.into_iter().chain(subclass_targets)))
+        let index = match &self.class_index {
+            Some(index) => Arc::clone(index),
+            None => Arc::new(ClassIndex::build(store)?),
+        };
+        let instances = index.instances_of_with_subclasses(shape);
+        let focus_nodes = instances.into_iter().map(|obj| -> RDF::Term { obj.clone().into() });
+        Ok(FocusNodes::from_iter(focus_nodes))
     }
 }
 
diff --git a/shacl/src/validator/index/class.rs b/shacl/src/validator/index/class.rs
index 5ad5cd2..3cf749d 100644
--- a/shacl/src/validator/index/class.rs
+++ b/shacl/src/validator/index/class.rs
@@ -68,14 +68,16 @@ impl ClassIndex {
         self.subclass_map.get(class).into_iter().flat_map(|set| set.iter())
     }
 
-    /// Returns instances of the class and instances of all its direct subclasses.
-    pub fn instances_of_with_subclasses(&self, class: &Object) -> HashSet<&Object> {
-        let mut result: HashSet<_> = self.instances_of(class).collect();
+    /// Returns the SHACL instances of the class: the instances of the class and of all its direct and indirect
+    /// subclasses.
+    pub fn instances_of_with_subclasses<'a>(&'a self, class: &'a Object) -> HashSet<&'a Object> {
+        let mut result = HashSet::new();
+        let mut visited = HashSet::from([class]);
+        let mut pending = vec![class];
 
-        for subclass in self.subclasses_of(class) {
-            for instance in self.instances_of(subclass) {
-                result.insert(instance);
-            }
+        while let Some(current) = pending.pop() {
+            result.extend(self.instances_of(current));
+            pending.extend(self.subclasses_of(current).filter(|subclass| visited.insert(subclass)));
         }
 
         result
-- 
2.43.0


From 651064edb9c72c1d9e4241cf721325f5c88d3cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:02 +0000
Subject: [PATCH 19/57] fix: cached SHACL results lost or misplaced the results
 of nested property shapes

---
 shacl/src/validator/engine/validate.rs | 135 +++++++++++++------------
 1 file changed, 68 insertions(+), 67 deletions(-)

diff --git a/shacl/src/validator/engine/validate.rs b/shacl/src/validator/engine/validate.rs
index d40124e..61eb045 100644
--- a/shacl/src/validator/engine/validate.rs
+++ b/shacl/src/validator/engine/validate.rs
@@ -108,28 +108,42 @@ impl<RDF: NeighsRDF + Debug> Validate<RDF> for IRShape {
         // unique (value-node, shape) pair is only truly validated once; subsequent
         // invocations for the same pair return the cached results, correctly producing
         // one violation entry per path that led to the offending node.
+        //
+        // The results are grouped by the focus node they were obtained from, which is not necessarily the focus
+        // node of the result: the results of nested property shapes have the value nodes as focus nodes.
+        let mut by_focus: HashMap<Object, Vec<ValidationResult>> = uncached_focus_nodes
+            .iter()
+            .filter_map(|n| RDF::term_as_object(n).ok())
+            .map(|obj| (obj, Vec::new()))
+            .collect();
+        for r in &component_validation_results {
+            if let Some(bucket) = by_focus.get_mut(r.focus_node()) {
+                bucket.push(r.clone());
+            }
+        }
+
         let mut property_shapes_validation_results = Vec::new();
         for ps in self.property_shapes().iter() {
             let shape = shapes_graph.get_shape_from_idx_e(ps)?;
-            for (_, vn) in value_nodes.iter() {
+            for (fnode, vn) in value_nodes.iter() {
                 let results = shape.validate(store, runner, Some(vn), Some(self), shapes_graph)?;
+                if let Some(bucket) = RDF::term_as_object(fnode).ok().and_then(|obj| by_focus.get_mut(&obj)) {
+                    bucket.extend(results.iter().cloned());
+                }
                 property_shapes_validation_results.extend(results);
             }
         }
 
-        let reification_results = if let Some(reifier_info) = self.reifier_info() {
-            validate_reifiers(
-                self,
-                store,
-                runner,
-                source_shape,
-                reifier_info,
-                &uncached_focus_nodes,
-                shapes_graph,
-            )?
-        } else {
-            Vec::new()
-        };
+        let mut reification_results = Vec::new();
+        if let Some(reifier_info) = self.reifier_info() {
+            for fnode in uncached_focus_nodes.iter() {
+                let results = validate_reifiers(self, store, runner, source_shape, reifier_info, fnode, shapes_graph)?;
+                if let Some(bucket) = RDF::term_as_object(fnode).ok().and_then(|obj| by_focus.get_mut(&obj)) {
+                    bucket.extend(results.iter().cloned());
+                }
+                reification_results.extend(results);
+            }
+        }
 
         // Collect all NEW validation results (from uncached focus nodes)
         let new_results: Vec<ValidationResult> = component_validation_results
@@ -140,17 +154,6 @@ impl<RDF: NeighsRDF + Debug> Validate<RDF> for IRShape {
 
         // Record new results in the cache per focus node
         if let Some(idx) = idx {
-            // Group results by focus node in O(M), then record each in O(1)
-            let mut by_focus: HashMap<Object, Vec<ValidationResult>> = uncached_focus_nodes
-                .iter()
-                .filter_map(|n| RDF::term_as_object(n).ok())
-                .map(|obj| (obj, Vec::new()))
-                .collect();
-            for r in &new_results {
-                if let Some(bucket) = by_focus.get_mut(r.focus_node()) {
-                    bucket.push(r.clone());
-                }
-            }
             for (node_object, node_results) in by_focus {
                 runner.record_validation(node_object, *idx, node_results);
             }
@@ -169,53 +172,51 @@ fn validate_reifiers<RDF: NeighsRDF + Debug>(
     runner: &mut dyn Engine<RDF>,
     source_shape: Option<&IRShape>,
     reifier_info: &ReifierInfo,
-    focus_nodes: &FocusNodes<RDF>,
+    node: &RDF::Term,
     shapes_graph: &IRSchema,
 ) -> Result<Vec<ValidationResult>, ValidationError> {
     let mut results = Vec::new();
 
-    for node in focus_nodes.iter() {
-        for reifier_shape in reifier_info.reifier_shape() {
-            let pred = reifier_info.predicate();
-            let pred_iri: RDF::IRI = pred.clone().into();
-            let subject = RDF::term_as_subject(node)?;
-            let triples = store
-                .triples_with_subject_predicate(&subject, &pred_iri)
-                .map_err(ValidationError::new_graph_error::<RDF>)?;
-
-            for triple in triples {
-                let reifier_subjects = store
-                    .reifiers_of_triple(&triple)
-                    .map_err(ValidationError::new_graph_error::<RDF>)?
-                    .collect::<Vec<_>>();
-                if reifier_subjects.is_empty() && reifier_info.reification_required() {
-                    let vr_single = ValidationResult::new(
-                        shape.id().clone(),
-                        Object::iri(ShaclVocab::sh_reifier_shape_constraint_component()),
-                        shape.severity().clone(),
-                    )
-                    .with_message(MessageMap::from(
-                        "Reification required but no reifier found for triple {triple} with predicate {pred}",
-                    ))
-                    .with_path(Some(SHACLPath::iri(pred.clone())))
-                    .with_source(source_shape.map(|s| s.id()).cloned());
-                    results.push(vr_single);
-                    continue;
-                }
-                let reifier_nodes = reifier_subjects
-                    .iter()
-                    .map(RDF::subject_as_term)
-                    .collect::<HashSet<_>>();
-                let reifier_shape = shapes_graph.get_shape_from_idx_e(reifier_shape)?;
-                let vr_iter = reifier_shape.validate(
-                    store,
-                    runner,
-                    Some(&FocusNodes::from_iter(reifier_nodes)),
-                    Some(shape),
-                    shapes_graph,
-                )?;
-                results.extend(vr_iter)
+    for reifier_shape in reifier_info.reifier_shape() {
+        let pred = reifier_info.predicate();
+        let pred_iri: RDF::IRI = pred.clone().into();
+        let subject = RDF::term_as_subject(node)?;
+        let triples = store
+            .triples_with_subject_predicate(&subject, &pred_iri)
+            .map_err(ValidationError::new_graph_error::<RDF>)?;
+
+        for triple in triples {
+            let reifier_subjects = store
+                .reifiers_of_triple(&triple)
+                .map_err(ValidationError::new_graph_error::<RDF>)?
+                .collect::<Vec<_>>();
+            if reifier_subjects.is_empty() && reifier_info.reification_required() {
+                let vr_single = ValidationResult::new(
+                    RDF::term_as_object(node)?,
+                    Object::iri(ShaclVocab::sh_reifier_shape_constraint_component()),
+                    shape.severity().clone(),
+                )
+                .with_message(MessageMap::from(
+                    "Reification required but no reifier found for triple {triple} with predicate {pred}",
+                ))
+                .with_path(Some(SHACLPath::iri(pred.clone())))
+                .with_source(source_shape.map(|s| s.id()).cloned());
+                results.push(vr_single);
+                continue;
             }
+            let reifier_nodes = reifier_subjects
+                .iter()
+                .map(RDF::subject_as_term)
+                .collect::<HashSet<_>>();
+            let reifier_shape = shapes_graph.get_shape_from_idx_e(reifier_shape)?;
+            let vr_iter = reifier_shape.validate(
+                store,
+                runner,
+                Some(&FocusNodes::from_iter(reifier_nodes)),
+                Some(shape),
+                shapes_graph,
+            )?;
+            results.extend(vr_iter)
         }
     }
     Ok(results)
-- 
2.43.0


From bb176042eedd2b06ac8a3424ef9109832a2da636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:48 +0000
Subject: [PATCH 20/57] fix: SPARQL engine of SHACL on blank nodes, property
 pairs and lexical forms

---
 .../core/property_pair/disjoint.rs            | 55 +-------------
 .../constraints/core/property_pair/equals.rs  | 72 +------------------
 .../core/property_pair/less_than.rs           | 67 +----------------
 .../core/property_pair/less_than_or_equals.rs | 64 +----------------
 .../core/string_based/max_length.rs           |  6 +-
 .../core/string_based/min_length.rs           |  6 +-
 .../constraints/core/string_based/pattern.rs  |  6 +-
 shacl/src/validator/constraints/mod.rs        | 20 +++++-
 shacl/src/validator/engine/sparql.rs          | 35 +++++----
 9 files changed, 55 insertions(+), 276 deletions(-)

diff --git a/shacl/src/validator/constraints/core/property_pair/disjoint.rs b/shacl/src/validator/constraints/core/property_pair/disjoint.rs
index fbe62ad..bd85295 100644
--- a/shacl/src/validator/constraints/core/property_pair/disjoint.rs
+++ b/shacl/src/validator/constraints/core/property_pair/disjoint.rs
@@ -1,25 +1,17 @@
 use crate::error::ValidationError;
 use crate::ir::components::Disjoint;
 use crate::ir::{IRComponent, IRSchema, IRShape};
-#[cfg(feature = "sparql")]
-use crate::validator::constraints::BasicSparqlValidator;
-use crate::validator::constraints::{NativeValidator, validate_with_focus};
+use crate::validator::constraints::{Validator, validate_with_focus};
 use crate::validator::engine::Engine;
 use crate::validator::iteration::ValueNodeIteration;
 use crate::validator::nodes::ValueNodes;
 use crate::validator::report::ValidationResult;
-#[cfg(feature = "sparql")]
-use indoc::formatdoc;
-#[cfg(feature = "sparql")]
-use rudof_rdf::rdf_core::query::QueryRDF;
-#[cfg(feature = "sparql")]
-use rudof_rdf::rdf_core::term::Object;
 use rudof_rdf::rdf_core::term::Triple;
 use rudof_rdf::rdf_core::{NeighsRDF, SHACLPath};
 use std::fmt::Debug;
 
-impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for Disjoint {
-    fn validate_native(
+impl<S: NeighsRDF + Debug> Validator<S> for Disjoint {
+    fn validate(
         &self,
         component: &IRComponent,
         shape: &IRShape,
@@ -63,44 +55,3 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for Disjoint {
         )
     }
 }
-
-#[cfg(feature = "sparql")]
-impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for Disjoint {
-    fn validate_sparql(
-        &self,
-        component: &IRComponent,
-        shape: &IRShape,
-        store: &S,
-        _: &mut dyn Engine<S>,
-        value_nodes: &ValueNodes<S>,
-        _: Option<&IRShape>,
-        maybe_path: Option<&SHACLPath>,
-        _: &IRSchema,
-    ) -> Result<Vec<ValidationResult>, ValidationError> {
-        let component_obj = Object::iri(component.into());
-        let mut results = Vec::new();
-
-        for (fnode, nodes) in value_nodes.iter() {
-            let fnode_obj = S::term_as_object(fnode)?;
-
-            for vn in nodes.iter() {
-                let query = formatdoc! {"
-                    ASK {{ {} <{}> {} }}
-                ", fnode, self.iri(), vn};
-
-                let ask = store.query_ask(&query).map_err(ValidationError::ask_query_error::<S>)?;
-
-                if ask {
-                    let value = S::term_as_object(vn).ok();
-                    let vr = ValidationResult::new(fnode_obj.clone(), component_obj.clone(), shape.severity().clone())
-                        .with_source(Some(shape.id().clone()))
-                        .with_path(maybe_path.cloned())
-                        .with_value(value);
-                    results.push(vr);
-                }
-            }
-        }
-
-        Ok(results)
-    }
-}
diff --git a/shacl/src/validator/constraints/core/property_pair/equals.rs b/shacl/src/validator/constraints/core/property_pair/equals.rs
index bc33714..65cc9c4 100644
--- a/shacl/src/validator/constraints/core/property_pair/equals.rs
+++ b/shacl/src/validator/constraints/core/property_pair/equals.rs
@@ -1,23 +1,17 @@
 use crate::error::ValidationError;
 use crate::ir::components::Equals;
 use crate::ir::{IRComponent, IRSchema, IRShape};
-#[cfg(feature = "sparql")]
-use crate::validator::constraints::BasicSparqlValidator;
-use crate::validator::constraints::NativeValidator;
+use crate::validator::constraints::Validator;
 use crate::validator::engine::Engine;
 use crate::validator::nodes::ValueNodes;
 use crate::validator::report::ValidationResult;
-#[cfg(feature = "sparql")]
-use indoc::formatdoc;
-#[cfg(feature = "sparql")]
-use rudof_rdf::rdf_core::query::QueryRDF;
 use rudof_rdf::rdf_core::term::{Object, Triple};
 use rudof_rdf::rdf_core::{NeighsRDF, SHACLPath};
 use std::collections::HashSet;
 use std::fmt::Debug;
 
-impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for Equals {
-    fn validate_native(
+impl<S: NeighsRDF + Debug> Validator<S> for Equals {
+    fn validate(
         &self,
         component: &IRComponent,
         shape: &IRShape,
@@ -74,63 +68,3 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for Equals {
         Ok(results)
     }
 }
-
-#[cfg(feature = "sparql")]
-impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for Equals {
-    fn validate_sparql(
-        &self,
-        component: &IRComponent,
-        shape: &IRShape,
-        store: &S,
-        _: &mut dyn Engine<S>,
-        value_nodes: &ValueNodes<S>,
-        _: Option<&IRShape>,
-        maybe_path: Option<&SHACLPath>,
-        _: &IRSchema,
-    ) -> Result<Vec<ValidationResult>, ValidationError> {
-        let component_obj = Object::iri(component.into());
-        let mut results = Vec::new();
-
-        for (fnode, nodes) in value_nodes.iter() {
-            let query = formatdoc! {"
-                SELECT ?o WHERE {{ {} <{}> ?o }}
-            ", fnode, self.iri()};
-
-            let solutions = store
-                .query_select(&query)
-                .map_err(ValidationError::select_query_error::<S>)?;
-
-            let prop_values: HashSet<S::Term> = solutions
-                .iter()
-                .filter_map(|sol| sol.find_solution("o").cloned())
-                .collect();
-
-            let nodes_set = nodes.iter().collect::<HashSet<_>>();
-            let fnode_obj = S::term_as_object(fnode)?;
-
-            for pv in &prop_values {
-                if !nodes_set.contains(pv) {
-                    let value = S::term_as_object(pv).ok();
-                    let vr = ValidationResult::new(fnode_obj.clone(), component_obj.clone(), shape.severity().clone())
-                        .with_source(Some(shape.id().clone()))
-                        .with_path(maybe_path.cloned())
-                        .with_value(value);
-                    results.push(vr);
-                }
-            }
-
-            for vn in nodes.iter() {
-                if !prop_values.contains(vn) {
-                    let value = S::term_as_object(vn).ok();
-                    let vr = ValidationResult::new(fnode_obj.clone(), component_obj.clone(), shape.severity().clone())
-                        .with_source(Some(shape.id().clone()))
-                        .with_path(maybe_path.cloned())
-                        .with_value(value);
-                    results.push(vr);
-                }
-            }
-        }
-
-        Ok(results)
-    }
-}
diff --git a/shacl/src/validator/constraints/core/property_pair/less_than.rs b/shacl/src/validator/constraints/core/property_pair/less_than.rs
index 4c1aa39..be68a6c 100644
--- a/shacl/src/validator/constraints/core/property_pair/less_than.rs
+++ b/shacl/src/validator/constraints/core/property_pair/less_than.rs
@@ -2,23 +2,17 @@ use crate::error::ValidationError;
 use crate::ir::components::LessThan;
 use crate::ir::{IRComponent, IRSchema, IRShape};
 use crate::types::MessageMap;
-#[cfg(feature = "sparql")]
-use crate::validator::constraints::BasicSparqlValidator;
-use crate::validator::constraints::NativeValidator;
+use crate::validator::constraints::Validator;
 use crate::validator::constraints::core::property_pair::compare_values;
 use crate::validator::engine::Engine;
 use crate::validator::nodes::ValueNodes;
 use crate::validator::report::ValidationResult;
-#[cfg(feature = "sparql")]
-use indoc::formatdoc;
-#[cfg(feature = "sparql")]
-use rudof_rdf::rdf_core::query::QueryRDF;
 use rudof_rdf::rdf_core::term::{Object, Triple};
 use rudof_rdf::rdf_core::{NeighsRDF, SHACLPath};
 use std::fmt::Debug;
 
-impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for LessThan {
-    fn validate_native(
+impl<S: NeighsRDF + Debug> Validator<S> for LessThan {
+    fn validate(
         &self,
         component: &IRComponent,
         shape: &IRShape,
@@ -90,58 +84,3 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for LessThan {
         Ok(validation_results)
     }
 }
-
-#[cfg(feature = "sparql")]
-impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for LessThan {
-    fn validate_sparql(
-        &self,
-        component: &IRComponent,
-        shape: &IRShape,
-        store: &S,
-        _: &mut dyn Engine<S>,
-        value_nodes: &ValueNodes<S>,
-        _: Option<&IRShape>,
-        maybe_path: Option<&SHACLPath>,
-        _: &IRSchema,
-    ) -> Result<Vec<ValidationResult>, ValidationError> {
-        let component_obj = Object::iri(component.into());
-        let mut results = Vec::new();
-
-        for (fnode, nodes) in value_nodes.iter() {
-            let fnode_obj = S::term_as_object(fnode)?;
-
-            // emit one violation per (value_node, comparator) pair where
-            // value_node is not strictly less than the comparator. COALESCE(?, false)
-            // treats incomparable terms (e.g. cross-datatype) as violations.
-            for vn in nodes.iter() {
-                let query = formatdoc! {"
-                    SELECT ?other WHERE {{
-                        {} <{}> ?other .
-                        BIND (COALESCE({} < ?other, false) AS ?lt)
-                        FILTER (!?lt)
-                    }}
-                ", fnode, self.iri(), vn};
-
-                let solutions = store
-                    .query_select(&query)
-                    .map_err(ValidationError::select_query_error::<S>)?;
-
-                let value = S::term_as_object(vn).ok();
-                for _ in solutions.iter() {
-                    let msg = format!(
-                        "LessThan constraint violated for property {}: value is not strictly less than every comparator",
-                        self.iri()
-                    );
-                    let vr = ValidationResult::new(fnode_obj.clone(), component_obj.clone(), shape.severity().clone())
-                        .with_source(Some(shape.id().clone()))
-                        .with_path(maybe_path.cloned())
-                        .with_value(value.clone())
-                        .with_message(MessageMap::from(msg));
-                    results.push(vr);
-                }
-            }
-        }
-
-        Ok(results)
-    }
-}
diff --git a/shacl/src/validator/constraints/core/property_pair/less_than_or_equals.rs b/shacl/src/validator/constraints/core/property_pair/less_than_or_equals.rs
index a69c9d8..b3be492 100644
--- a/shacl/src/validator/constraints/core/property_pair/less_than_or_equals.rs
+++ b/shacl/src/validator/constraints/core/property_pair/less_than_or_equals.rs
@@ -2,23 +2,17 @@ use crate::error::ValidationError;
 use crate::ir::components::LessThanOrEquals;
 use crate::ir::{IRComponent, IRSchema, IRShape};
 use crate::types::MessageMap;
-#[cfg(feature = "sparql")]
-use crate::validator::constraints::BasicSparqlValidator;
-use crate::validator::constraints::NativeValidator;
+use crate::validator::constraints::Validator;
 use crate::validator::constraints::core::property_pair::compare_values;
 use crate::validator::engine::Engine;
 use crate::validator::nodes::ValueNodes;
 use crate::validator::report::ValidationResult;
-#[cfg(feature = "sparql")]
-use indoc::formatdoc;
-#[cfg(feature = "sparql")]
-use rudof_rdf::rdf_core::query::QueryRDF;
 use rudof_rdf::rdf_core::term::{Object, Triple};
 use rudof_rdf::rdf_core::{NeighsRDF, SHACLPath};
 use std::fmt::Debug;
 
-impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for LessThanOrEquals {
-    fn validate_native(
+impl<S: NeighsRDF + Debug> Validator<S> for LessThanOrEquals {
+    fn validate(
         &self,
         component: &IRComponent,
         shape: &IRShape,
@@ -90,55 +84,3 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for LessThanOrEquals {
         Ok(validation_results)
     }
 }
-
-#[cfg(feature = "sparql")]
-impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for LessThanOrEquals {
-    fn validate_sparql(
-        &self,
-        component: &IRComponent,
-        shape: &IRShape,
-        store: &S,
-        _: &mut dyn Engine<S>,
-        value_nodes: &ValueNodes<S>,
-        _: Option<&IRShape>,
-        maybe_path: Option<&SHACLPath>,
-        _: &IRSchema,
-    ) -> Result<Vec<ValidationResult>, ValidationError> {
-        let component_obj = Object::iri(component.into());
-        let mut results = Vec::new();
-
-        for (fnode, nodes) in value_nodes.iter() {
-            let fnode_obj = S::term_as_object(fnode)?;
-
-            for vn in nodes.iter() {
-                let query = formatdoc! {"
-                    SELECT ?other WHERE {{
-                        {} <{}> ?other .
-                        BIND (COALESCE({} <= ?other, false) AS ?lte)
-                        FILTER (!?lte)
-                    }}
-                ", fnode, self.iri(), vn};
-
-                let solutions = store
-                    .query_select(&query)
-                    .map_err(ValidationError::select_query_error::<S>)?;
-
-                let value = S::term_as_object(vn).ok();
-                for _ in solutions.iter() {
-                    let msg = format!(
-                        "LessThanOrEquals constraint violated for property {}: value is not less than or equal to every comparator",
-                        self.iri()
-                    );
-                    let vr = ValidationResult::new(fnode_obj.clone(), component_obj.clone(), shape.severity().clone())
-                        .with_source(Some(shape.id().clone()))
-                        .with_path(maybe_path.cloned())
-                        .with_value(value.clone())
-                        .with_message(MessageMap::from(msg));
-                    results.push(vr);
-                }
-            }
-        }
-
-        Ok(results)
-    }
-}
diff --git a/shacl/src/validator/constraints/core/string_based/max_length.rs b/shacl/src/validator/constraints/core/string_based/max_length.rs
index 7108ed3..10f8dce 100644
--- a/shacl/src/validator/constraints/core/string_based/max_length.rs
+++ b/shacl/src/validator/constraints/core/string_based/max_length.rs
@@ -12,7 +12,7 @@ use rudof_rdf::rdf_core::{NeighsRDF, SHACLPath};
 use std::fmt::Debug;
 
 #[cfg(feature = "sparql")]
-use crate::validator::constraints::{BasicSparqlValidator, term_as_sparql, validate_ask_with_opt};
+use crate::validator::constraints::{BasicSparqlValidator, str_as_sparql, validate_ask_with_opt};
 #[cfg(feature = "sparql")]
 use indoc::formatdoc;
 #[cfg(feature = "sparql")]
@@ -74,9 +74,9 @@ impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for MaxL
             if vn.is_blank_node() {
                 return Some("ASK { FILTER(false) }".to_string());
             }
-            let vn_sparql = term_as_sparql::<S>(vn)?;
+            let vn_str = str_as_sparql::<S>(vn)?;
             Some(formatdoc! {"
-                ASK {{ FILTER(STRLEN(STR({vn_sparql})) <= {max}) }}
+                ASK {{ FILTER(STRLEN({vn_str}) <= {max}) }}
             "})
         };
 
diff --git a/shacl/src/validator/constraints/core/string_based/min_length.rs b/shacl/src/validator/constraints/core/string_based/min_length.rs
index 646577c..9d04d3f 100644
--- a/shacl/src/validator/constraints/core/string_based/min_length.rs
+++ b/shacl/src/validator/constraints/core/string_based/min_length.rs
@@ -12,7 +12,7 @@ use rudof_rdf::rdf_core::{NeighsRDF, SHACLPath};
 use std::fmt::Debug;
 
 #[cfg(feature = "sparql")]
-use crate::validator::constraints::{BasicSparqlValidator, term_as_sparql, validate_ask_with_opt};
+use crate::validator::constraints::{BasicSparqlValidator, str_as_sparql, validate_ask_with_opt};
 #[cfg(feature = "sparql")]
 use indoc::formatdoc;
 #[cfg(feature = "sparql")]
@@ -74,9 +74,9 @@ impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for MinL
             if vn.is_blank_node() {
                 return Some("ASK { FILTER(false) }".to_string());
             }
-            let vn_sparql = term_as_sparql::<S>(vn)?;
+            let vn_str = str_as_sparql::<S>(vn)?;
             Some(formatdoc! {"
-                ASK {{ FILTER(STRLEN(STR({vn_sparql})) >= {min}) }}
+                ASK {{ FILTER(STRLEN({vn_str}) >= {min}) }}
             "})
         };
 
diff --git a/shacl/src/validator/constraints/core/string_based/pattern.rs b/shacl/src/validator/constraints/core/string_based/pattern.rs
index 918c9ee..4603d7f 100644
--- a/shacl/src/validator/constraints/core/string_based/pattern.rs
+++ b/shacl/src/validator/constraints/core/string_based/pattern.rs
@@ -13,7 +13,7 @@ use rudof_rdf::rdf_core::{NeighsRDF, SHACLPath};
 use std::fmt::Debug;
 
 #[cfg(feature = "sparql")]
-use crate::validator::constraints::{BasicSparqlValidator, term_as_sparql, validate_ask_with_opt};
+use crate::validator::constraints::{BasicSparqlValidator, str_as_sparql, validate_ask_with_opt};
 #[cfg(feature = "sparql")]
 use indoc::formatdoc;
 #[cfg(feature = "sparql")]
@@ -72,9 +72,9 @@ impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for Patt
             if vn.is_blank_node() {
                 return Some("ASK { FILTER(false) }".to_string());
             }
-            let vn_sparql = term_as_sparql::<S>(vn)?;
+            let vn_str = str_as_sparql::<S>(vn)?;
             Some(formatdoc! {"
-                ASK {{ FILTER(REGEX(STR({vn_sparql}), \"{pattern}\"{flags_arg})) }}
+                ASK {{ FILTER(REGEX({vn_str}, \"{pattern}\"{flags_arg})) }}
             "})
         };
 
diff --git a/shacl/src/validator/constraints/mod.rs b/shacl/src/validator/constraints/mod.rs
index b9578a7..a47eb0a 100644
--- a/shacl/src/validator/constraints/mod.rs
+++ b/shacl/src/validator/constraints/mod.rs
@@ -5,8 +5,8 @@ mod test;
 
 use crate::error::ValidationError;
 use crate::ir::components::{
-    And, Datatype, Deactivated, HasValue, In, LanguageIn, MaxCount, MinCount, Node, Not, Or, QualifiedValueShape,
-    UniqueLang, Xone,
+    And, Datatype, Deactivated, Disjoint, Equals, HasValue, In, LanguageIn, LessThan, LessThanOrEquals, MaxCount,
+    MinCount, Node, Not, Or, QualifiedValueShape, UniqueLang, Xone,
 };
 use crate::ir::{IRComponent, IRSchema, IRShape};
 use crate::types::MessageMap;
@@ -144,6 +144,10 @@ impl_validators_via_validate!(QualifiedValueShape);
 impl_validators_via_validate!(LanguageIn);
 impl_validators_via_validate!(UniqueLang);
 impl_validators_via_validate!(Datatype);
+impl_validators_via_validate!(Equals);
+impl_validators_via_validate!(Disjoint);
+impl_validators_via_validate!(LessThan);
+impl_validators_via_validate!(LessThanOrEquals);
 
 // TODO - move to crate::shacl_component
 pub(crate) struct ShaclComponent<'a, S> {
@@ -424,6 +428,18 @@ pub(crate) fn term_as_sparql<S: Rdf>(term: &S::Term) -> Option<String> {
     object_as_sparql(&obj)
 }
 
+/// Formats the string value of a term (what `STR` gives) as a SPARQL string. It is taken from the term and not obtained
+/// with a call to `STR` in the query, which may canonicalise the lexical form of the literals.
+#[cfg(feature = "sparql")]
+pub(crate) fn str_as_sparql<S: Rdf>(term: &S::Term) -> Option<String> {
+    let str = match S::term_as_object(term).ok()? {
+        Object::Iri(iri) => iri.as_str().to_string(),
+        Object::Literal(lit) => lit.lexical_form(),
+        Object::BlankNode(_) | Object::Triple { .. } => return None,
+    };
+    Some(format!("\"{}\"", escape_sparql_string(str)))
+}
+
 /// Escape a string for inclusion in a SPARQL double-quoted literal.
 #[cfg(feature = "sparql")]
 fn escape_sparql_string(s: impl AsRef<str>) -> String {
diff --git a/shacl/src/validator/engine/sparql.rs b/shacl/src/validator/engine/sparql.rs
index 4719fc7..d2a6c0d 100644
--- a/shacl/src/validator/engine/sparql.rs
+++ b/shacl/src/validator/engine/sparql.rs
@@ -8,7 +8,7 @@ use crate::validator::report::ValidationResult;
 use indoc::formatdoc;
 use rudof_iri::IriS;
 use rudof_rdf::rdf_core::query::QueryRDF;
-use rudof_rdf::rdf_core::term::{Object, Term};
+use rudof_rdf::rdf_core::term::{Object, Term, Triple};
 use rudof_rdf::rdf_core::{NeighsRDF, SHACLPath};
 use std::fmt::Debug;
 
@@ -82,28 +82,25 @@ impl<S: QueryRDF + NeighsRDF + Debug + 'static> Engine<S> for SparqlEngine {
         Ok(FocusNodes::new(results))
     }
 
+    // As in `target_node`, the terms are taken from the triples of the store: the results of a query may have
+    // canonicalised literals, which are not nodes of the data graph.
     fn target_subject_of(&self, store: &S, predicate: &IriS) -> Result<FocusNodes<S>, ValidationError> {
-        let query = formatdoc! {"
-            SELECT DISTINCT ?this
-            WHERE {{
-                ?this <{}> ?any .
-            }}
-        ", predicate};
-
-        let results = select(store, &query, "this")?;
-        Ok(FocusNodes::new(results))
+        let pred: S::IRI = predicate.clone().into();
+        let subjects = store
+            .triples_with_predicate(&pred)
+            .map_err(ValidationError::new_graph_error::<S>)?
+            .map(Triple::into_subject)
+            .map(Into::into);
+        Ok(FocusNodes::from_iter(subjects))
     }
 
     fn target_object_of(&self, store: &S, predicate: &IriS) -> Result<FocusNodes<S>, ValidationError> {
-        let query = formatdoc! {"
-            SELECT DISTINCT ?this
-            WHERE {{
-                ?any <{}> ?this.
-            }}
-        ", predicate};
-
-        let results = select(store, &query, "this")?;
-        Ok(FocusNodes::new(results))
+        let pred: S::IRI = predicate.clone().into();
+        let objects = store
+            .triples_with_predicate(&pred)
+            .map_err(ValidationError::new_graph_error::<S>)?
+            .map(Triple::into_object);
+        Ok(FocusNodes::from_iter(objects))
     }
 
     fn implicit_target_class(&self, store: &S, shape: &Object) -> Result<FocusNodes<S>, ValidationError> {
-- 
2.43.0


From 305766f3f225c0df7c462639f3cdef621093c319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:25 +0000
Subject: [PATCH 21/57] fix: SPARQL queries did not see triples added after the
 store was built

---
 rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs | 30 ++++++++++++++------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs b/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
index 8bd6edd..39c386f 100644
--- a/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
+++ b/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
@@ -107,6 +107,18 @@ impl OxigraphInMemory {
         self.graph.is_empty()
     }
 
+    /// Returns the graph to modify it.
+    ///
+    /// The SPARQL store was built from the graph as it was before the change, so
+    /// it is dropped: [`ensure_store`](Self::ensure_store) builds it again.
+    fn graph_mut(&mut self) -> &mut Graph {
+        #[cfg(feature = "sparql")]
+        {
+            self.store = None;
+        }
+        Arc::make_mut(&mut self.graph)
+    }
+
     pub fn set_default_base_prefixes(&mut self, default_base: Option<IriS>) {
         self.base = default_base;
     }
@@ -190,7 +202,7 @@ impl OxigraphInMemory {
         };
 
         let mut turtle_reader = turtle_parser.for_reader(reader);
-        let graph = Arc::make_mut(&mut self.graph);
+        let graph = self.graph_mut();
 
         for triple_result in turtle_reader.by_ref() {
             let triple = match handle_parse_error(triple_result, reader_mode, |e| {
@@ -245,7 +257,7 @@ impl OxigraphInMemory {
     ) -> Result<(), OxigraphInMemoryError> {
         let parser = NTriplesParser::new();
         let mut nt_reader = parser.for_reader(reader);
-        let graph = Arc::make_mut(&mut self.graph);
+        let graph = self.graph_mut();
 
         for triple_result in nt_reader.by_ref() {
             let triple =
@@ -279,7 +291,7 @@ impl OxigraphInMemory {
     ) -> Result<(), OxigraphInMemoryError> {
         let parser = RdfXmlParser::new();
         let mut xml_reader = parser.for_reader(reader);
-        let graph = Arc::make_mut(&mut self.graph);
+        let graph = self.graph_mut();
 
         for triple_result in xml_reader.by_ref() {
             let triple = match handle_parse_error(triple_result, reader_mode, |e| OxigraphInMemoryError::RDFXMLError {
@@ -313,7 +325,7 @@ impl OxigraphInMemory {
     ) -> Result<(), OxigraphInMemoryError> {
         let parser = NQuadsParser::new();
         let mut nq_reader = parser.for_reader(reader);
-        let graph = Arc::make_mut(&mut self.graph);
+        let graph = self.graph_mut();
 
         for triple_result in nq_reader.by_ref() {
             let triple = match handle_parse_error(triple_result, reader_mode, |e| OxigraphInMemoryError::NQuadsError {
@@ -346,7 +358,7 @@ impl OxigraphInMemory {
     ) -> Result<(), OxigraphInMemoryError> {
         let parser = JsonLdParser::new();
         let mut jsonld_reader = parser.for_reader(reader);
-        let graph = Arc::make_mut(&mut self.graph);
+        let graph = self.graph_mut();
 
         for triple_result in jsonld_reader.by_ref() {
             let triple = match handle_parse_error(triple_result, reader_mode, |e| OxigraphInMemoryError::JsonLDError {
@@ -482,7 +494,7 @@ impl OxigraphInMemory {
         O: Into<TermRef<'a>>,
     {
         let triple = TripleRef::new(subj.into(), pred.into(), obj.into());
-        Arc::make_mut(&mut self.graph).insert(triple);
+        self.graph_mut().insert(triple);
         Ok(())
     }
 }
@@ -993,7 +1005,7 @@ impl BuildRDF for OxigraphInMemory {
         O: Into<Self::Term>,
     {
         let triple = OxTriple::new(subj.into(), pred.into(), obj.into());
-        Arc::make_mut(&mut self.graph).insert(&triple);
+        self.graph_mut().insert(&triple);
         Ok(())
     }
 
@@ -1011,7 +1023,7 @@ impl BuildRDF for OxigraphInMemory {
         O: Into<Self::Term>,
     {
         let triple = OxTriple::new(subj.into(), pred.into(), obj.into());
-        Arc::make_mut(&mut self.graph).remove(&triple);
+        self.graph_mut().remove(&triple);
         Ok(())
     }
 
@@ -1029,7 +1041,7 @@ impl BuildRDF for OxigraphInMemory {
         T: Into<Self::Term>,
     {
         let triple = OxTriple::new(node.into(), rdf_type(), type_.into());
-        Arc::make_mut(&mut self.graph).insert(&triple);
+        self.graph_mut().insert(&triple);
         Ok(())
     }
 
-- 
2.43.0


From 4e72d142eeaad1097be3c387dc79067d6a97dcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:25 +0000
Subject: [PATCH 22/57] fix: a document that fails to parse leaves no triples
 behind

---
 rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs | 57 ++++++++++----------
 1 file changed, 28 insertions(+), 29 deletions(-)

diff --git a/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs b/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
index 39c386f..7865714 100644
--- a/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
+++ b/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
@@ -119,6 +119,17 @@ impl OxigraphInMemory {
         Arc::make_mut(&mut self.graph)
     }
 
+    /// Adds the triples read from a document.
+    ///
+    /// The parsers collect them first, so that a document that cannot be read to
+    /// its end leaves the graph as it was.
+    fn insert_all(&mut self, triples: Vec<OxTriple>) {
+        let graph = self.graph_mut();
+        for triple in &triples {
+            graph.insert(triple);
+        }
+    }
+
     pub fn set_default_base_prefixes(&mut self, default_base: Option<IriS>) {
         self.base = default_base;
     }
@@ -202,7 +213,7 @@ impl OxigraphInMemory {
         };
 
         let mut turtle_reader = turtle_parser.for_reader(reader);
-        let graph = self.graph_mut();
+        let mut triples = Vec::new();
 
         for triple_result in turtle_reader.by_ref() {
             let triple = match handle_parse_error(triple_result, reader_mode, |e| {
@@ -226,16 +237,18 @@ impl OxigraphInMemory {
                     None => continue,
                 }
             }
-            graph.insert(triple_ref);
+            triples.push(triple);
         }
 
         let prefixes: HashMap<&str, &str> = turtle_reader.prefixes().collect();
+        let prefixes = prefixes.try_into()?;
+        self.insert_all(triples);
         self.base = match (&self.base, base) {
             (None, None) => None,
             (Some(b), None) => Some(b.clone()),
             (_, Some(b)) => Some(IriS::new_unchecked(b)),
         };
-        self.merge_prefixes(prefixes.try_into()?);
+        self.merge_prefixes(prefixes);
 
         Ok(())
     }
@@ -257,7 +270,7 @@ impl OxigraphInMemory {
     ) -> Result<(), OxigraphInMemoryError> {
         let parser = NTriplesParser::new();
         let mut nt_reader = parser.for_reader(reader);
-        let graph = self.graph_mut();
+        let mut triples = Vec::new();
 
         for triple_result in nt_reader.by_ref() {
             let triple =
@@ -268,8 +281,9 @@ impl OxigraphInMemory {
                     Some(t) => t,
                     None => continue,
                 };
-            graph.insert(triple.as_ref());
+            triples.push(triple.into());
         }
+        self.insert_all(triples);
 
         Ok(())
     }
@@ -291,7 +305,7 @@ impl OxigraphInMemory {
     ) -> Result<(), OxigraphInMemoryError> {
         let parser = RdfXmlParser::new();
         let mut xml_reader = parser.for_reader(reader);
-        let graph = self.graph_mut();
+        let mut triples = Vec::new();
 
         for triple_result in xml_reader.by_ref() {
             let triple = match handle_parse_error(triple_result, reader_mode, |e| OxigraphInMemoryError::RDFXMLError {
@@ -301,9 +315,9 @@ impl OxigraphInMemory {
                 Some(t) => t,
                 None => continue,
             };
-            let triple_ref = cnv_triple(&triple);
-            graph.insert(triple_ref);
+            triples.push(triple);
         }
+        self.insert_all(triples);
 
         Ok(())
     }
@@ -325,7 +339,7 @@ impl OxigraphInMemory {
     ) -> Result<(), OxigraphInMemoryError> {
         let parser = NQuadsParser::new();
         let mut nq_reader = parser.for_reader(reader);
-        let graph = self.graph_mut();
+        let mut triples = Vec::new();
 
         for triple_result in nq_reader.by_ref() {
             let triple = match handle_parse_error(triple_result, reader_mode, |e| OxigraphInMemoryError::NQuadsError {
@@ -335,8 +349,9 @@ impl OxigraphInMemory {
                 Some(t) => t,
                 None => continue,
             };
-            graph.insert(triple.as_ref());
+            triples.push(triple.into());
         }
+        self.insert_all(triples);
 
         Ok(())
     }
@@ -358,7 +373,7 @@ impl OxigraphInMemory {
     ) -> Result<(), OxigraphInMemoryError> {
         let parser = JsonLdParser::new();
         let mut jsonld_reader = parser.for_reader(reader);
-        let graph = self.graph_mut();
+        let mut triples = Vec::new();
 
         for triple_result in jsonld_reader.by_ref() {
             let triple = match handle_parse_error(triple_result, reader_mode, |e| OxigraphInMemoryError::JsonLDError {
@@ -368,8 +383,9 @@ impl OxigraphInMemory {
                 Some(t) => t,
                 None => continue,
             };
-            graph.insert(triple.as_ref());
+            triples.push(triple.into());
         }
+        self.insert_all(triples);
 
         Ok(())
     }
@@ -1229,23 +1245,6 @@ impl Display for ReaderMode {
     }
 }
 
-/// Converts an owned triple to a triple reference.
-///
-/// # Parameters
-///
-/// * `t` - The owned triple to convert
-///
-/// # Returns
-///
-/// A triple reference with the same subject, predicate, and object.
-fn cnv_triple(t: &OxTriple) -> TripleRef<'_> {
-    TripleRef::new(
-        OxSubjectRef::from(&t.subject),
-        NamedNodeRef::from(&t.predicate),
-        TermRef::from(&t.object),
-    )
-}
-
 #[cfg(feature = "sparql")]
 impl QueryRDF for OxigraphInMemory {
     fn query_construct(&self, query_str: &str, _format: &QueryResultFormat) -> Result<String, OxigraphInMemoryError>
-- 
2.43.0


From 6399bfb5c24bfb31355a04d7ac32327be7ee99c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:25 +0000
Subject: [PATCH 23/57] fix: outgoing arcs for an empty list of predicates
 still report the other predicates

---
 rudof_rdf/src/rdf_impl/backend.rs        | 3 ---
 sparql_service/src/srdf_data/rdf_data.rs | 6 +++---
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/rudof_rdf/src/rdf_impl/backend.rs b/rudof_rdf/src/rdf_impl/backend.rs
index c6ece46..b31cf41 100644
--- a/rudof_rdf/src/rdf_impl/backend.rs
+++ b/rudof_rdf/src/rdf_impl/backend.rs
@@ -200,9 +200,6 @@ impl NeighsRDF for RdfBackend {
             return b.outgoing_arcs_from_list(subject, preds).map_err(Into::into);
         }
         // For InMemory and Qlever: default behavior — fetch all triples and filter in memory
-        if preds.is_empty() {
-            return Ok((std::collections::HashMap::new(), Vec::new()));
-        }
         let mut results: std::collections::HashMap<OxNamedNode, std::collections::HashSet<OxTerm>> =
             std::collections::HashMap::new();
         let mut reminder: Vec<OxNamedNode> = Vec::new();
diff --git a/sparql_service/src/srdf_data/rdf_data.rs b/sparql_service/src/srdf_data/rdf_data.rs
index a38de47..090c648 100644
--- a/sparql_service/src/srdf_data/rdf_data.rs
+++ b/sparql_service/src/srdf_data/rdf_data.rs
@@ -476,14 +476,14 @@ impl NeighsRDF for RdfData {
         ),
         Self::Err,
     > {
-        if preds.is_empty() {
-            return Ok((std::collections::HashMap::new(), Vec::new()));
-        }
         // Primary backend (in-memory or endpoint-backed): uses its own FILTER query when available
         let (mut results, reminder) = self
             .primary
             .outgoing_arcs_from_list(subject, preds)
             .map_err(|e| RdfDataError::Backend { err: Box::new(e) })?;
+        if preds.is_empty() {
+            return Ok((results, reminder));
+        }
         // Active SPARQL endpoints: each issues a single FILTER query for only the needed predicates
         for endpoint in self.use_endpoints.values() {
             let (ep_results, _) = endpoint.outgoing_arcs_from_list(subject, preds)?;
-- 
2.43.0


From 2c170dc6004bf5505d0052d415aaac5c500d3c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:25 +0000
Subject: [PATCH 24/57] fix: a new blank node could be one of the loaded graph

---
 rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs b/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
index 7865714..f62c4a1 100644
--- a/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
+++ b/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
@@ -1000,11 +1000,19 @@ impl BuildRDF for OxigraphInMemory {
     ///
     /// Returns an error if the blank node counter overflows (extremely unlikely).
     fn add_bnode(&mut self) -> Result<Self::BNode, Self::Err> {
-        self.bnode_counter += 1;
-        let bn = u128::try_from(self.bnode_counter).map_err(|_| OxigraphInMemoryError::BlankNodeId {
-            msg: format!("Blank node counter overflow: {}", self.bnode_counter),
-        })?;
-        Ok(OxBlankNode::new_from_unique_id(bn))
+        loop {
+            self.bnode_counter += 1;
+            let bn = u128::try_from(self.bnode_counter).map_err(|_| OxigraphInMemoryError::BlankNodeId {
+                msg: format!("Blank node counter overflow: {}", self.bnode_counter),
+            })?;
+            let bnode = OxBlankNode::new_from_unique_id(bn);
+            // A document that was loaded may use the same label
+            let used = self.graph.triples_for_subject(&bnode).next().is_some()
+                || self.graph.triples_for_object(&bnode).next().is_some();
+            if !used {
+                return Ok(bnode);
+            }
+        }
     }
 
     /// Adds a triple to the graph.
-- 
2.43.0


From 6278c259f696877ffe9dc256aa7a0e7d86362ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:26 +0000
Subject: [PATCH 25/57] fix: a failing load of data leaves the current data as
 it was; all of several inputs count

---
 .../src/api/data/implementations/load_data.rs | 94 +++++++++----------
 1 file changed, 43 insertions(+), 51 deletions(-)

diff --git a/rudof_lib/src/api/data/implementations/load_data.rs b/rudof_lib/src/api/data/implementations/load_data.rs
index 3a0c3a4..8ce26b9 100644
--- a/rudof_lib/src/api/data/implementations/load_data.rs
+++ b/rudof_lib/src/api/data/implementations/load_data.rs
@@ -7,6 +7,7 @@ use crate::{
     utils::{PrefixDirective, default_prefix_header, get_base_iri},
 };
 use pgschema::parser::pg_builder::PgBuilder;
+use pgschema::pg::PropertyGraph;
 use prefixmap::PrefixMap;
 use regex::Regex;
 use rudof_iri::{IriS, MimeType};
@@ -61,6 +62,8 @@ fn init_defaults(
 }
 
 fn load_data_from_specs_pg(rudof: &mut Rudof, data: &[InputSpec], merge: bool) -> Result<()> {
+    // The inputs are read before the current data changes, so that a failing load leaves it as it was
+    let mut graphs = Vec::new();
     for input_spec in data {
         let mut data_reader = input_spec
             .open_read(Some(DataFormat::Pg.mime_type()), "PG data")
@@ -70,9 +73,18 @@ fn load_data_from_specs_pg(rudof: &mut Rudof, data: &[InputSpec], merge: bool) -
                 })
             })?;
 
-        read_pg_data(rudof, &mut data_reader, input_spec.source_name().as_str(), merge)?;
+        graphs.push(read_pg_data(&mut data_reader, input_spec.source_name().as_str())?);
     }
 
+    let mut data = match rudof.data.take_if(|data| merge && data.is_pg()) {
+        Some(data) => data,
+        None => Data::empty_pg(),
+    };
+    for graph in &graphs {
+        data.unwrap_pg_mut().merge(graph);
+    }
+    rudof.data = Some(data);
+
     Ok(())
 }
 
@@ -85,6 +97,11 @@ fn load_data_from_specs_rdf(
     merge: bool,
     prefixes: Option<&[InputSpec]>,
 ) -> Result<()> {
+    // The inputs are read into a copy, so that a failing load leaves the current data as it was
+    let mut new_data = match rudof.data {
+        Some(Data::RDFData(ref current)) if merge => current.as_ref().clone(),
+        _ => init_rdf_data_with_config(rudof)?,
+    };
     for input_spec in data {
         let mut data_reader = input_spec
             .open_read(Some(data_format.mime_type()), "RDF data")
@@ -96,12 +113,12 @@ fn load_data_from_specs_rdf(
 
         read_rdf_data(
             rudof,
+            &mut new_data,
             &mut data_reader,
             input_spec.source_name().as_str(),
             &data_format,
             &base,
             &reader_mode,
-            merge,
         )?;
     }
 
@@ -112,8 +129,10 @@ fn load_data_from_specs_rdf(
             pm.merge(load_user_prefixes(prefix)?)
         }
 
-        rudof.data.as_mut().unwrap().unwrap_rdf_mut().merge_prefixes(pm);
+        new_data.merge_prefixes(pm);
     }
+
+    rudof.data = Some(Data::RDFData(Box::new(new_data)));
     Ok(())
 }
 
@@ -176,19 +195,14 @@ fn load_user_prefixes(input_spec: &InputSpec) -> Result<PrefixMap> {
 }
 
 fn read_rdf_data<R: Read>(
-    rudof: &mut Rudof,
+    rudof: &Rudof,
+    rdf_data: &mut RdfData,
     data_reader: &mut R,
     source_name: &str,
     data_format: &DataFormat,
     base: &IriS,
     reader_mode: &DataReaderMode,
-    merge: bool,
 ) -> Result<()> {
-    if !merge || rudof.data.is_none() || matches!(rudof.data, Some(ref data) if data.is_pg()) {
-        let rdf_data = init_rdf_data_with_config(rudof)?;
-        rudof.data = Some(rdf_data);
-    }
-
     // Only Turtle uses `@prefix` declarations that default prefixes can
     // usefully supplement; other formats either have no textual prefix
     // syntax (N-Triples, N-Quads) or aren't implemented (TriG, N3) or
@@ -206,7 +220,7 @@ fn read_rdf_data<R: Read>(
         })?;
         let header = default_prefix_header(rudof, &content, PrefixDirective::Turtle);
         let mut prefixed_reader = io::Cursor::new(format!("{header}{content}").into_bytes());
-        rudof.data.as_mut().unwrap().unwrap_rdf_mut().merge_from_reader(
+        rdf_data.merge_from_reader(
             &mut prefixed_reader,
             source_name,
             &(*data_format).try_into()?,
@@ -214,7 +228,7 @@ fn read_rdf_data<R: Read>(
             &(*reader_mode).into(),
         )
     } else {
-        rudof.data.as_mut().unwrap().unwrap_rdf_mut().merge_from_reader(
+        rdf_data.merge_from_reader(
             data_reader,
             source_name,
             &(*data_format).try_into()?,
@@ -236,11 +250,7 @@ fn read_rdf_data<R: Read>(
     Ok(())
 }
 
-fn read_pg_data<R: io::Read>(rudof: &mut Rudof, data_reader: &mut R, source_name: &str, merge: bool) -> Result<()> {
-    if !merge || rudof.data.is_none() || matches!(rudof.data, Some(ref data) if data.is_rdf()) {
-        rudof.data = Some(Data::empty_pg());
-    }
-
+fn read_pg_data<R: io::Read>(data_reader: &mut R, source_name: &str) -> Result<PropertyGraph> {
     let mut data_content = String::new();
 
     data_reader.read_to_string(&mut data_content).map_err(|error| {
@@ -249,35 +259,27 @@ fn read_pg_data<R: io::Read>(rudof: &mut Rudof, data_reader: &mut R, source_name
         })
     })?;
 
-    let pg = match PgBuilder::new().parse_pg(data_content.as_str()) {
-        Ok(pg) => pg,
-        Err(error) => {
-            return Err(Box::new(DataError::FailedParsingPgData {
-                source_name: source_name.to_string(),
-                error: error.to_string(),
-            }))?;
-        },
-    };
-
-    rudof.data.as_mut().unwrap().unwrap_pg_mut().merge(&pg);
-
-    Ok(())
+    match PgBuilder::new().parse_pg(data_content.as_str()) {
+        Ok(pg) => Ok(pg),
+        Err(error) => Err(Box::new(DataError::FailedParsingPgData {
+            source_name: source_name.to_string(),
+            error: error.to_string(),
+        }))?,
+    }
 }
 
 fn load_data_from_endpoint(rudof: &mut Rudof, endpoint_str: &str) -> Result<()> {
-    let rdf_data = init_rdf_data_with_config(rudof)?;
-    rudof.data = Some(rdf_data);
+    let mut rdf_data = init_rdf_data_with_config(rudof)?;
 
-    let enpoint = get_endpoint_name(rudof, endpoint_str)?;
+    let endpoint = get_endpoint_name(&rdf_data, endpoint_str)?;
+    rdf_data.use_endpoint(endpoint_str, endpoint);
 
-    use_endpoint(rudof, endpoint_str, enpoint);
+    rudof.data = Some(Data::RDFData(Box::new(rdf_data)));
 
     Ok(())
 }
 
-fn get_endpoint_name(rudof: &mut Rudof, endpoint_str: &str) -> Result<OxigraphEndpoint> {
-    let rdf_data = rudof.data.as_mut().unwrap().unwrap_rdf_mut();
-
+fn get_endpoint_name(rdf_data: &RdfData, endpoint_str: &str) -> Result<OxigraphEndpoint> {
     match rdf_data.find_endpoint(endpoint_str) {
         Some(endpoint) => Ok(endpoint),
         None => {
@@ -314,25 +316,15 @@ fn get_endpoint_name(rudof: &mut Rudof, endpoint_str: &str) -> Result<OxigraphEn
     }
 }
 
-fn use_endpoint(rudof: &mut Rudof, endpoint_str: &str, endpoint: OxigraphEndpoint) {
-    rudof
-        .data
-        .as_mut()
-        .unwrap()
-        .unwrap_rdf_mut()
-        .use_endpoint(endpoint_str, endpoint);
-}
-
-fn init_rdf_data_with_config(rudof: &Rudof) -> Result<Data> {
-    let rdf_data = RdfData::new()
+fn init_rdf_data_with_config(rudof: &Rudof) -> Result<RdfData> {
+    RdfData::new()
         .with_rdf_data_config(rudof.config.rdf_data())
         .map_err(|error| {
             Box::new(DataError::RdfDataConfig {
                 error: error.to_string(),
             })
-        })?;
-
-    Ok(Data::RDFData(Box::new(rdf_data)))
+            .into()
+        })
 }
 
 /// Load data into the QLever Docker backend instead of the in-memory graph.
-- 
2.43.0


From 82c2390d642f98bc3db56a71e36279d49e2fcdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:44 +0000
Subject: [PATCH 26/57] fix: a cardinality {0} could not be read back from the
 compiled form

---
 rbe/src/max.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rbe/src/max.rs b/rbe/src/max.rs
index abccb26..a6cd4d8 100644
--- a/rbe/src/max.rs
+++ b/rbe/src/max.rs
@@ -113,7 +113,7 @@ impl From<i64> for Max {
     fn from(m: i64) -> Self {
         match m {
             -1 => Max::Unbounded,
-            n if n > 0 => Max::IntMax(n as usize),
+            n if n >= 0 => Max::IntMax(n as usize),
             _ => panic!("Error converting i64 to Max, value {m} < -1"),
         }
     }
-- 
2.43.0


From 74f650f1145fa673148656c15e9817a096d6355c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:44 +0000
Subject: [PATCH 27/57] fix: a serialized boolean literal could not be read
 back

---
 rudof_rdf/src/rdf_core/term/literal/literal.rs | 16 +---------------
 1 file changed, 1 insertion(+), 15 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/term/literal/literal.rs b/rudof_rdf/src/rdf_core/term/literal/literal.rs
index 2a0c415..486161b 100644
--- a/rudof_rdf/src/rdf_core/term/literal/literal.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/literal.rs
@@ -7,13 +7,12 @@ use std::{
     borrow::Cow,
     fmt::{self, Debug, Display},
     hash::Hash,
-    result,
 };
 
 use crate::rdf_core::vocabs::{RdfVocab, XsdVocab};
 use prefixmap::{DerefError, DerefIri, IriRef, PrefixMap};
 use rudof_iri::IriS;
-use serde::{Deserialize, Serialize, Serializer};
+use serde::{Deserialize, Serialize};
 
 /// Types that implement this trait can be used as RDF Literals.
 ///
@@ -175,7 +174,6 @@ pub enum ConcreteLiteral {
     DatetimeLiteral(XsdDateTime),
 
     /// A boolean literal (true or false).
-    #[serde(serialize_with = "serialize_boolean_literal")]
     BooleanLiteral(bool),
 
     /// Represents a literal with an invalid datatype.
@@ -1174,18 +1172,6 @@ impl From<&ConcreteLiteral> for oxrdf::Literal {
 // Helper Functions
 // ============================================================================
 
-/// Serializes a boolean literal as a string ("true" or "false").
-///
-/// # Parameters
-/// - `value`: A reference to the boolean value to serialize.
-/// - `serializer`: The serializer to use (implements the `Serializer` trait).
-fn serialize_boolean_literal<S>(value: &bool, serializer: S) -> result::Result<S::Ok, S::Error>
-where
-    S: Serializer,
-{
-    serializer.serialize_str(if *value { "true" } else { "false" })
-}
-
 /// Validates a literal's lexical form against its declared datatype.
 ///
 /// Returns a properly typed literal if validation succeeds, or a
-- 
2.43.0


From 3dbe716e51b26732b8cc66b2ba06b48278121a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:44 +0000
Subject: [PATCH 28/57] fix: annotations of a disjunction of triple expressions
 were dropped

---
 shex_ast/src/ast/triple_expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shex_ast/src/ast/triple_expr.rs b/shex_ast/src/ast/triple_expr.rs
index 3074a9c..5f2b2b0 100644
--- a/shex_ast/src/ast/triple_expr.rs
+++ b/shex_ast/src/ast/triple_expr.rs
@@ -402,7 +402,7 @@ impl TripleExpr {
                 min,
                 max,
                 sem_acts,
-                annotations: new_annotations,
+                annotations: _,
             } => TripleExpr::OneOf {
                 id,
                 expressions,
-- 
2.43.0


From 7e34e87ac7dd437ebeb287e03df65eea6bb2205e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:44 +0000
Subject: [PATCH 29/57] fix: blank node labels of triple expressions in ShExJ

---
 shex_ast/src/ast/triple_expr_label.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/shex_ast/src/ast/triple_expr_label.rs b/shex_ast/src/ast/triple_expr_label.rs
index 6757c17..160e580 100644
--- a/shex_ast/src/ast/triple_expr_label.rs
+++ b/shex_ast/src/ast/triple_expr_label.rs
@@ -37,6 +37,11 @@ impl TryFrom<&str> for TripleExprLabel {
     type Error = IriSError;
 
     fn try_from(s: &str) -> Result<Self, Self::Error> {
+        if let Some(label) = s.strip_prefix("_:") {
+            return Ok(TripleExprLabel::BNode {
+                value: BNode::new(label),
+            });
+        }
         let iri_ref = IriRef::try_from(s)?;
         Ok(TripleExprLabel::IriRef { value: iri_ref })
     }
-- 
2.43.0


From 2dd3f9bd7bf239935bc0cee4ad933f44b9a5a7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:44 +0000
Subject: [PATCH 30/57] fix: start actions, IRI stems and exclusions are
 resolved against base and prefixes

---
 shex_ast/src/ast/iri_exclusion.rs       | 13 ++++++++++++-
 shex_ast/src/ast/iri_ref_or_wildcard.rs | 13 ++++++++++++-
 shex_ast/src/ast/value_set_value.rs     |  8 +++++---
 shex_ast/src/compact/shex_parser.rs     |  1 +
 4 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/shex_ast/src/ast/iri_exclusion.rs b/shex_ast/src/ast/iri_exclusion.rs
index 45d603e..f829630 100644
--- a/shex_ast/src/ast/iri_exclusion.rs
+++ b/shex_ast/src/ast/iri_exclusion.rs
@@ -1,4 +1,6 @@
-use prefixmap::IriRef;
+use prefixmap::error::DerefError;
+use prefixmap::{DerefIri, IriRef, PrefixMap};
+use rudof_iri::IriS;
 use serde::ser::SerializeMap;
 use serde::{Deserialize, Serialize, Serializer};
 use std::fmt::Display;
@@ -10,6 +12,15 @@ pub enum IriExclusion {
     IriStem(IriRef),
 }
 
+impl DerefIri for IriExclusion {
+    fn deref_iri(self, base: Option<&IriS>, prefixmap: Option<&PrefixMap>) -> Result<Self, DerefError> {
+        match self {
+            IriExclusion::Iri(iri) => Ok(IriExclusion::Iri(iri.deref_iri(base, prefixmap)?)),
+            IriExclusion::IriStem(stem) => Ok(IriExclusion::IriStem(stem.deref_iri(base, prefixmap)?)),
+        }
+    }
+}
+
 impl Serialize for IriExclusion {
     fn serialize<S>(&self, serializer: S) -> result::Result<S::Ok, S::Error>
     where
diff --git a/shex_ast/src/ast/iri_ref_or_wildcard.rs b/shex_ast/src/ast/iri_ref_or_wildcard.rs
index 16773bb..c2c81ae 100644
--- a/shex_ast/src/ast/iri_ref_or_wildcard.rs
+++ b/shex_ast/src/ast/iri_ref_or_wildcard.rs
@@ -1,4 +1,6 @@
-use prefixmap::IriRef;
+use prefixmap::error::DerefError;
+use prefixmap::{DerefIri, IriRef, PrefixMap};
+use rudof_iri::IriS;
 use rudof_iri::error::IriSError;
 use serde::ser::SerializeMap;
 use serde::{Serialize, Serializer};
@@ -10,6 +12,15 @@ pub enum IriRefOrWildcard {
     Wildcard,
 }
 
+impl DerefIri for IriRefOrWildcard {
+    fn deref_iri(self, base: Option<&IriS>, prefixmap: Option<&PrefixMap>) -> Result<Self, DerefError> {
+        match self {
+            IriRefOrWildcard::IriRef(iri) => Ok(IriRefOrWildcard::IriRef(iri.deref_iri(base, prefixmap)?)),
+            IriRefOrWildcard::Wildcard => Ok(IriRefOrWildcard::Wildcard),
+        }
+    }
+}
+
 impl FromStr for IriRefOrWildcard {
     type Err = IriSError;
 
diff --git a/shex_ast/src/ast/value_set_value.rs b/shex_ast/src/ast/value_set_value.rs
index 192ecef..b9d97f8 100644
--- a/shex_ast/src/ast/value_set_value.rs
+++ b/shex_ast/src/ast/value_set_value.rs
@@ -109,10 +109,12 @@ impl DerefIri for ValueSetValue {
                 language_tag: language_tag.clone(),
             }),
             ValueSetValue::LanguageStem { stem } => Ok(ValueSetValue::LanguageStem { stem: stem.clone() }),
-            ValueSetValue::IriStem { stem } => Ok(ValueSetValue::IriStem { stem: stem.clone() }),
+            ValueSetValue::IriStem { stem } => Ok(ValueSetValue::IriStem {
+                stem: stem.deref_iri(base, prefixmap)?,
+            }),
             ValueSetValue::IriStemRange { stem, exclusions } => Ok(ValueSetValue::IriStemRange {
-                stem: stem.clone(),
-                exclusions: exclusions.clone(),
+                stem: stem.deref_iri(base, prefixmap)?,
+                exclusions: exclusions.deref_iri(base, prefixmap)?,
             }),
             ValueSetValue::LanguageStemRange { stem, exclusions } => Ok(ValueSetValue::LanguageStemRange {
                 stem: stem.clone(),
diff --git a/shex_ast/src/compact/shex_parser.rs b/shex_ast/src/compact/shex_parser.rs
index 5d86286..009d7ee 100644
--- a/shex_ast/src/compact/shex_parser.rs
+++ b/shex_ast/src/compact/shex_parser.rs
@@ -58,6 +58,7 @@ impl ShExParser<'_> {
                     schema.add_shape(shape_label, shape_expr, is_abstract);
                 },
                 ShExStatement::StartActions { actions } => {
+                    let actions = actions.deref_iri(schema.base().as_ref(), schema.prefixmap().as_ref())?;
                     schema = schema.with_start_actions(Some(actions));
                 },
             }
-- 
2.43.0


From aaf50b4260e727ce61685c93a1265b9db4df6d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:44 +0000
Subject: [PATCH 31/57] fix: ShExC keywords in any case, space before a stem
 mark, EXTENDS in inline shapes

---
 shex_ast/src/compact/shex_grammar.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/shex_ast/src/compact/shex_grammar.rs b/shex_ast/src/compact/shex_grammar.rs
index 8242db3..341e399 100644
--- a/shex_ast/src/compact/shex_grammar.rs
+++ b/shex_ast/src/compact/shex_grammar.rs
@@ -622,11 +622,10 @@ fn inline_shape_definition(i: Span) -> IRes<ShapeExpr> {
         None
     };
     let mut extra = Vec::new();
+    let mut extends = Vec::new();
     for q in qualifiers {
         match q {
-            Qualifier::Extends(_) => {
-                todo!()
-            },
+            Qualifier::Extends(label) => extends.push(label),
             Qualifier::Closed => {},
             Qualifier::Extra(ps) => {
                 for p in ps {
@@ -636,7 +635,11 @@ fn inline_shape_definition(i: Span) -> IRes<ShapeExpr> {
         }
     }
     let maybe_extra = if extra.is_empty() { None } else { Some(extra) };
-    Ok((i, ShapeExpr::shape(Shape::new(closed, maybe_extra, maybe_triple_expr))))
+    let maybe_extends = if extends.is_empty() { None } else { Some(extends) };
+    Ok((
+        i,
+        ShapeExpr::shape(Shape::new(closed, maybe_extra, maybe_triple_expr).with_extends(maybe_extends)),
+    ))
 }
 
 fn maybe_triple_expr<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, Option<TripleExpr>> {
@@ -675,7 +678,7 @@ fn extension<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, Qualifier> {
 fn closed<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, Qualifier> {
     map_error(
         move |i| {
-            let (i, _) = token_tws("CLOSED")(i)?;
+            let (i, _) = tag_no_case_tws("CLOSED")(i)?;
             Ok((i, Qualifier::Closed))
         },
         || ShExParseError::ExpectedClosed,
@@ -686,7 +689,7 @@ fn closed<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, Qualifier> {
 fn extra_property_set<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, Qualifier> {
     map_error(
         move |i| {
-            let (i, (_, ps)) = (token_tws("EXTRA"), cut(many1((predicate, tws0)))).parse(i)?;
+            let (i, (_, ps)) = (tag_no_case_tws("EXTRA"), cut(many1((predicate, tws0)))).parse(i)?;
             let ps = ps.into_iter().map(|(p, _)| p).collect();
             Ok((i, Qualifier::Extra(ps)))
         },
@@ -1085,7 +1088,7 @@ fn dash<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, Span<'a>> {
 
 /// `[54] literalExclusion ::= '-' literal '~'?`
 fn literal_exclusion(i: Span) -> IRes<LiteralExclusion> {
-    let (i, (_, literal, maybe_tilde)) = (dash(), literal(), opt(tilde())).parse(i)?;
+    let (i, (_, literal, _, maybe_tilde)) = (dash(), literal(), tws0, opt(tilde())).parse(i)?;
     let le = match maybe_tilde {
         Some(_) => LiteralExclusion::LiteralStem(literal.lexical_form()),
         None => LiteralExclusion::Literal(literal.lexical_form()),
-- 
2.43.0


From 87f8d62e434815769e6253d09fa9d55008c8375c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:50 +0000
Subject: [PATCH 32/57] fix: schemas printed in compact syntax read back as the
 same schema

---
 shex_ast/src/compact/compact_printer.rs      |  91 ++--
 shex_ast/src/compact/shex_compact_printer.rs | 442 +++++++++++--------
 2 files changed, 333 insertions(+), 200 deletions(-)

diff --git a/shex_ast/src/compact/compact_printer.rs b/shex_ast/src/compact/compact_printer.rs
index 58bec87..6385dad 100644
--- a/shex_ast/src/compact/compact_printer.rs
+++ b/shex_ast/src/compact/compact_printer.rs
@@ -13,17 +13,47 @@ pub(crate) fn pp_object_value<'a, A>(
 ) -> DocBuilder<'a, Arena<'a, A>, A> {
     match v {
         ObjectValue::IriRef(i) => pp_iri_ref(i, doc, prefixmap),
-        ObjectValue::Literal(ConcreteLiteral::BooleanLiteral(_value)) => {
-            todo!()
+        ObjectValue::Literal(lit) => pp_literal(lit, doc, prefixmap),
+    }
+}
+
+pub(crate) fn pp_literal<'a, A>(
+    literal: &ConcreteLiteral,
+    doc: &'a Arena<'a, A>,
+    prefixmap: &PrefixMap,
+) -> DocBuilder<'a, Arena<'a, A>, A> {
+    match literal {
+        ConcreteLiteral::StringLiteral { lexical_form, lang } => match lang {
+            Some(lang) => doc.text(format!("{}@{lang}", quoted(lexical_form))),
+            None => doc.text(quoted(lexical_form)),
         },
-        ObjectValue::Literal(ConcreteLiteral::NumericLiteral(num)) => pp_numeric_literal(num, doc),
-        ObjectValue::Literal(ConcreteLiteral::DatatypeLiteral { .. }) => todo!(),
-        ObjectValue::Literal(ConcreteLiteral::WrongDatatypeLiteral { .. }) => todo!(),
-        ObjectValue::Literal(ConcreteLiteral::DatetimeLiteral { .. }) => todo!(),
-        ObjectValue::Literal(ConcreteLiteral::StringLiteral { .. }) => todo!(),
+        ConcreteLiteral::NumericLiteral(num) => pp_numeric_literal(num, doc, prefixmap),
+        ConcreteLiteral::BooleanLiteral(value) => doc.text(value.to_string()),
+        ConcreteLiteral::DatatypeLiteral { .. }
+        | ConcreteLiteral::WrongDatatypeLiteral { .. }
+        | ConcreteLiteral::DatetimeLiteral(_) => doc
+            .text(format!("{}^^", quoted(&literal.lexical_form())))
+            .append(pp_iri_ref(&literal.datatype(), doc, prefixmap)),
     }
 }
 
+/// A string between quotes, with the characters that can't appear there escaped
+pub(crate) fn quoted(str: &str) -> String {
+    let mut quoted = String::from("\"");
+    for c in str.chars() {
+        match c {
+            '"' => quoted.push_str("\\\""),
+            '\\' => quoted.push_str("\\\\"),
+            '\n' => quoted.push_str("\\n"),
+            '\r' => quoted.push_str("\\r"),
+            '\t' => quoted.push_str("\\t"),
+            c => quoted.push(c),
+        }
+    }
+    quoted.push('"');
+    quoted
+}
+
 pub(crate) fn pp_label<'a, A>(
     label: &ShapeExprLabel,
     doc: &'a Arena<'a, A>,
@@ -41,28 +71,28 @@ pub(crate) fn pp_bnode<'a, A>(value: &BNode, doc: &'a Arena<'a, A>) -> DocBuilde
     doc.text(format!("{value}"))
 }
 
-fn pp_numeric_literal<'a, A>(value: &NumericLiteral, doc: &'a Arena<'a, A>) -> DocBuilder<'a, Arena<'a, A>, A> {
+pub(crate) fn pp_numeric_literal<'a, A>(
+    value: &NumericLiteral,
+    doc: &'a Arena<'a, A>,
+    prefixmap: &PrefixMap,
+) -> DocBuilder<'a, Arena<'a, A>, A> {
     match value {
         NumericLiteral::Integer(n) => doc.text(n.to_string()),
-        NumericLiteral::Decimal(decimal) => doc.text(decimal.to_string()),
-        NumericLiteral::Double(d) => doc.text(d.to_string()),
-        NumericLiteral::Long(l) => doc.text(l.to_string()),
-        NumericLiteral::Float(n) => doc.text(n.to_string()),
-        NumericLiteral::Byte(n) => doc.text(n.to_string()),
-        NumericLiteral::Short(n) => doc.text(n.to_string()),
-        NumericLiteral::Int(n) => doc.text(n.to_string()),
-        NumericLiteral::NonNegativeInteger(n) => doc.text(n.to_string()),
-        NumericLiteral::UnsignedLong(n) => doc.text(n.to_string()),
-        NumericLiteral::UnsignedInt(n) => doc.text(n.to_string()),
-        NumericLiteral::UnsignedShort(n) => doc.text(n.to_string()),
-        NumericLiteral::UnsignedByte(n) => doc.text(n.to_string()),
-        NumericLiteral::PositiveInteger(n) => doc.text(n.to_string()),
-        NumericLiteral::NegativeInteger(n) => doc.text(n.to_string()),
-        NumericLiteral::NonPositiveInteger(n) => doc.text(n.to_string()),
+        NumericLiteral::Decimal(d) if d.scale() > 0 => doc.text(d.to_string()),
+        NumericLiteral::Double(d) if d.is_finite() => doc.text(format!("{d:E}")),
+        _ => doc.text(format!("{}^^", quoted(&value.to_string()))).append(pp_iri(
+            &IriS::new_unchecked(value.datatype()),
+            doc,
+            prefixmap,
+        )),
     }
 }
 
-fn pp_iri_ref<'a, A>(value: &IriRef, doc: &'a Arena<'a, A>, prefixmap: &PrefixMap) -> DocBuilder<'a, Arena<'a, A>, A> {
+pub(crate) fn pp_iri_ref<'a, A>(
+    value: &IriRef,
+    doc: &'a Arena<'a, A>,
+    prefixmap: &PrefixMap,
+) -> DocBuilder<'a, Arena<'a, A>, A> {
     match value {
         IriRef::Iri(iri) => pp_iri(iri, doc, prefixmap),
         IriRef::Prefixed { prefix, local } => doc
@@ -89,6 +119,15 @@ where
     }
 }
 
-fn pp_iri<'a, A>(iri: &IriS, doc: &'a Arena<'a, A>, prefixmap: &PrefixMap) -> DocBuilder<'a, Arena<'a, A>, A> {
-    doc.text(prefixmap.qualify(iri))
+pub(crate) fn pp_iri<'a, A>(
+    iri: &IriS,
+    doc: &'a Arena<'a, A>,
+    prefixmap: &PrefixMap,
+) -> DocBuilder<'a, Arena<'a, A>, A> {
+    // What follows the prefix can be written as a local name only if it has no special characters
+    let is_local_name = |s: &str| s.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '-') && !s.starts_with('-');
+    match prefixmap.qualify_local(iri) {
+        Some(local) if is_local_name(&local) => doc.text(prefixmap.qualify(iri)),
+        _ => doc.text(format!("<{iri}>")),
+    }
 }
diff --git a/shex_ast/src/compact/shex_compact_printer.rs b/shex_ast/src/compact/shex_compact_printer.rs
index bf177ff..35aab9d 100644
--- a/shex_ast/src/compact/shex_compact_printer.rs
+++ b/shex_ast/src/compact/shex_compact_printer.rs
@@ -2,20 +2,21 @@
 use crate::{
     IriOrStr,
     ast::{
-        Annotation, BNode, NodeConstraint, NodeKind, NumericFacet, ObjectValue, Pattern, Schema, SemAct, Shape,
-        ShapeDecl, ShapeExpr, ShapeExprLabel, StringFacet, TripleExpr, XsFacet, value_set_value::ValueSetValue,
+        Annotation, BNode, IriRefOrWildcard, LangOrWildcard, NodeConstraint, NodeKind, NumericFacet, ObjectValue,
+        Pattern, Schema, SemAct, Shape, ShapeDecl, ShapeExpr, ShapeExprLabel, StringFacet, StringOrWildcard,
+        TripleExpr, TripleExprLabel, XsFacet, iri_exclusion::IriExclusion, language_exclusion::LanguageExclusion,
+        literal_exclusion::LiteralExclusion, value_set_value::ValueSetValue,
     },
 };
 use colored::*;
 use prefixmap::{IriRef, PrefixMap};
 use pretty::{Arena, DocAllocator, DocBuilder, RefDoc};
 use rudof_iri::IriS;
-use rudof_rdf::rdf_core::term::literal::{ConcreteLiteral, Lang, NumericLiteral};
-use rust_decimal::Decimal;
+use rudof_rdf::rdf_core::term::literal::{ConcreteLiteral, NumericLiteral};
 use std::{borrow::Cow, io, marker::PhantomData};
 use tracing::trace;
 
-use crate::pp_object_value;
+use crate::{pp_iri, pp_numeric_literal, pp_object_value, quoted};
 
 /// Struct that can be used to pretty print ShEx schemas
 ///
@@ -253,7 +254,13 @@ where
     }
 
     fn pp_shape_decl(&self, sd: &ShapeDecl) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.pp_label(&sd.id)
+        let is_abstract = if sd.is_abstract {
+            self.keyword("ABSTRACT").append(self.space())
+        } else {
+            self.doc.nil()
+        };
+        is_abstract
+            .append(self.pp_label(&sd.id))
             .append(self.space())
             .append(self.pp_shape_expr(&sd.shape_expr))
     }
@@ -280,7 +287,8 @@ where
                 trace!("Displaying ShapeExpr::ShapeAnd");
                 let mut docs = Vec::new();
                 for sew in shape_exprs {
-                    docs.push(self.pp_shape_expr(&sew.se))
+                    let brackets = matches!(sew.se, ShapeExpr::ShapeAnd { .. } | ShapeExpr::ShapeOr { .. });
+                    docs.push(self.pp_shape_expr_brackets(&sew.se, brackets))
                 }
                 self.doc
                     .intersperse(docs, self.keyword(" AND "))
@@ -290,18 +298,35 @@ where
             ShapeExpr::ShapeOr { shape_exprs } => {
                 let mut docs = Vec::new();
                 for sew in shape_exprs {
-                    docs.push(self.pp_shape_expr(&sew.se))
+                    let brackets = matches!(sew.se, ShapeExpr::ShapeOr { .. });
+                    docs.push(self.pp_shape_expr_brackets(&sew.se, brackets))
                 }
                 self.doc
                     .intersperse(docs, self.keyword(" OR "))
                     .group()
                     .nest(self.indent)
             },
-            ShapeExpr::ShapeNot { shape_expr } => self
-                .doc
-                .nil()
-                .append(self.keyword("NOT "))
-                .append(self.pp_shape_expr(&shape_expr.se)),
+            ShapeExpr::ShapeNot { shape_expr } => {
+                let brackets = matches!(
+                    shape_expr.se,
+                    ShapeExpr::ShapeAnd { .. } | ShapeExpr::ShapeOr { .. } | ShapeExpr::ShapeNot { .. }
+                );
+                self.doc
+                    .nil()
+                    .append(self.keyword("NOT "))
+                    .append(self.pp_shape_expr_brackets(&shape_expr.se, brackets))
+            },
+        }
+    }
+
+    fn pp_shape_expr_brackets(&self, se: &ShapeExpr, brackets: bool) -> DocBuilder<'a, Arena<'a, A>, A> {
+        if brackets {
+            self.doc
+                .text("(")
+                .append(self.pp_shape_expr(se))
+                .append(self.doc.text(")"))
+        } else {
+            self.pp_shape_expr(se)
         }
     }
 
@@ -328,6 +353,7 @@ where
             .append(self.doc.line())
             .append(self.doc.text("}"))
             .append(annotations)
+            .append(self.opt_pp1(&s.sem_acts, self.pp_inner_actions()))
             .group()
     }
 
@@ -337,13 +363,16 @@ where
         move |vs, printer| {
             let mut docs = Vec::new();
             for v in vs {
-                docs.push(printer.pp_reference(v))
+                docs.push(
+                    printer
+                        .keyword("EXTENDS")
+                        .append(printer.space())
+                        .append(printer.pp_reference(v)),
+                )
             }
             printer
                 .doc
                 .nil()
-                .append(printer.keyword("EXTENDS"))
-                .append(printer.space())
                 .append(printer.doc.intersperse(docs, printer.doc.space()))
                 .append(printer.space())
         }
@@ -369,18 +398,44 @@ where
         &self,
     ) -> impl Fn(&TripleExpr, &ShExCompactPrinter<'a, A>) -> DocBuilder<'a, Arena<'a, A>, A> + '_ {
         move |te, printer| match te {
-            TripleExpr::EachOf { expressions, .. } => {
+            TripleExpr::EachOf {
+                id,
+                expressions,
+                min,
+                max,
+                sem_acts,
+                annotations,
+            } => {
                 let mut docs = Vec::new();
                 for e in expressions {
-                    let pp_te = printer.pp_triple_expr()(&e.te, printer);
-                    docs.push(pp_te)
+                    let brackets = matches!(e.te, TripleExpr::EachOf { .. } | TripleExpr::OneOf { .. });
+                    docs.push(printer.pp_triple_expr_brackets(&e.te, brackets))
                 }
-                printer
+                let doc = printer
                     .doc
-                    .intersperse(docs, printer.doc.text(";").append(printer.doc.line()))
+                    .intersperse(docs, printer.doc.text(";").append(printer.doc.line()));
+                printer.pp_group(doc, id, min, max, annotations, sem_acts)
+            },
+            TripleExpr::OneOf {
+                id,
+                expressions,
+                min,
+                max,
+                sem_acts,
+                annotations,
+            } => {
+                let mut docs = Vec::new();
+                for e in expressions {
+                    let brackets = matches!(e.te, TripleExpr::OneOf { .. });
+                    docs.push(printer.pp_triple_expr_brackets(&e.te, brackets))
+                }
+                let doc = printer
+                    .doc
+                    .intersperse(docs, printer.doc.line().append(printer.doc.text("| ")));
+                printer.pp_group(doc, id, min, max, annotations, sem_acts)
             },
-            TripleExpr::OneOf { .. } => todo!(),
             TripleExpr::TripleConstraint {
+                id,
                 negated,
                 inverse,
                 predicate,
@@ -389,25 +444,76 @@ where
                 max,
                 sem_acts,
                 annotations,
-                ..
             } => {
                 let doc_expr = match value_expr {
-                    Some(se) => printer.pp_shape_expr(se),
+                    // The annotations of a shape would be taken by the triple constraint
+                    Some(se) => printer.pp_shape_expr_brackets(se, ends_decorated(se)),
                     None => printer.doc.text("."),
                 };
                 printer
-                    .doc
-                    .nil()
+                    .pp_triple_expr_id(id)
                     .append(self.pp_negated(negated))
                     .append(self.pp_inverse(inverse))
                     .append(self.pp_iri_ref(predicate))
                     .append(self.doc.space())
                     .append(doc_expr)
                     .append(self.pp_cardinality(min, max))
-                    .append(self.opt_pp1(sem_acts, self.pp_actions()))
                     .append(self.opt_pp1(annotations, self.pp_annotations()))
+                    .append(self.opt_pp1(sem_acts, self.pp_inner_actions()))
             },
-            TripleExpr::Ref(_) => todo!(),
+            TripleExpr::Ref(label) => printer.doc.text("&").append(printer.pp_triple_expr_label(label)),
+        }
+    }
+
+    fn pp_triple_expr_brackets(&self, te: &TripleExpr, brackets: bool) -> DocBuilder<'a, Arena<'a, A>, A> {
+        let doc = self.pp_triple_expr()(te, self);
+        // A group with a name, a cardinality, annotations or actions has its own brackets
+        if brackets && !has_own_brackets(te) {
+            self.doc
+                .text("(")
+                .append(doc.nest(self.indent))
+                .append(self.doc.text(")"))
+        } else {
+            doc
+        }
+    }
+
+    fn pp_group(
+        &self,
+        doc: DocBuilder<'a, Arena<'a, A>, A>,
+        id: &Option<TripleExprLabel>,
+        min: &Option<i32>,
+        max: &Option<i32>,
+        annotations: &Option<Vec<Annotation>>,
+        sem_acts: &Option<Vec<SemAct>>,
+    ) -> DocBuilder<'a, Arena<'a, A>, A> {
+        if id.is_none() && min.is_none() && max.is_none() && annotations.is_none() && sem_acts.is_none() {
+            return doc;
+        }
+        self.pp_triple_expr_id(id)
+            .append(self.doc.text("("))
+            .append(doc.nest(self.indent))
+            .append(self.doc.text(")"))
+            .append(self.pp_cardinality(min, max))
+            .append(self.opt_pp1(annotations, self.pp_annotations()))
+            .append(self.opt_pp1(sem_acts, self.pp_inner_actions()))
+    }
+
+    fn pp_triple_expr_id(&self, id: &Option<TripleExprLabel>) -> DocBuilder<'a, Arena<'a, A>, A> {
+        match id {
+            Some(label) => self
+                .doc
+                .text("$")
+                .append(self.pp_triple_expr_label(label))
+                .append(self.doc.space()),
+            None => self.doc.nil(),
+        }
+    }
+
+    fn pp_triple_expr_label(&self, label: &TripleExprLabel) -> DocBuilder<'a, Arena<'a, A>, A> {
+        match label {
+            TripleExprLabel::IriRef { value } => self.pp_iri_ref(value),
+            TripleExprLabel::BNode { value } => self.pp_bnode(value),
         }
     }
 
@@ -428,37 +534,17 @@ where
     }
 
     fn pp_cardinality(&self, min: &Option<i32>, max: &Option<i32>) -> DocBuilder<'a, Arena<'a, A>, A> {
-        match (min, max) {
-            (Some(1), Some(1)) => self.doc.nil(),
-            (Some(0), Some(1)) => self.doc.space().append(self.doc.text("?")),
-            (Some(0), Some(-1)) => self.doc.space().append(self.doc.text("*")),
-            (Some(1), Some(-1)) => self.doc.space().append(self.doc.text("+")),
-            (Some(1), None) => self.doc.space().append(self.doc.text("+")),
-            (Some(m), Some(n)) => self.doc.space().append(
-                self.enclose_space(
-                    "{",
-                    self.doc
-                        .text(m.to_string())
-                        .append(self.doc.text(","))
-                        .append(self.doc.text(n.to_string())),
-                    "}",
-                ),
-            ),
-            (Some(m), None) => self
-                .doc
-                .space()
-                .append(self.doc.text("{"))
-                .append(self.doc.text(m.to_string()))
-                .append(self.doc.text(",}")),
-            (None, Some(-1)) => self.doc.space().append(self.doc.text("*")),
-            (None, Some(n)) => self
-                .doc
-                .space()
-                .append(self.doc.text("{,"))
-                .append(self.doc.text(n.to_string()))
-                .append(self.doc.text("}")),
-            (None, None) => self.doc.nil(),
-        }
+        // A bound that is not declared is 1
+        let card = match (min.unwrap_or(1), max.unwrap_or(1)) {
+            (1, 1) => return self.doc.nil(),
+            (0, 1) => "?".to_string(),
+            (0, -1) => "*".to_string(),
+            (1, -1) => "+".to_string(),
+            (m, -1) => format!("{{{m},}}"),
+            (m, n) if m == n => format!("{{{m}}}"),
+            (m, n) => format!("{{{m},{n}}}"),
+        };
+        self.doc.space().append(self.doc.text(card))
     }
 
     fn pp_extra(&self) -> impl Fn(&Vec<IriRef>, &ShExCompactPrinter<'a, A>) -> DocBuilder<'a, Arena<'a, A>, A> {
@@ -472,6 +558,7 @@ where
                 .nil()
                 .append(printer.keyword("EXTRA "))
                 .append(printer.doc.intersperse(docs, printer.doc.space()))
+                .append(printer.space())
         }
     }
 
@@ -487,38 +574,16 @@ where
 
     fn pp_object_value(&self, object_value: &ObjectValue) -> DocBuilder<'a, Arena<'a, A>, A> {
         match object_value {
-            ObjectValue::IriRef(iri_ref) => self.pp_iri_ref(iri_ref),
-            ObjectValue::Literal(lit) => self.pp_literal(lit),
-        }
-    }
-
-    fn pp_literal(&self, literal: &ConcreteLiteral) -> DocBuilder<'a, Arena<'a, A>, A> {
-        match literal {
-            ConcreteLiteral::StringLiteral { lexical_form, lang } => self.pp_string_literal(lexical_form, lang),
-            ConcreteLiteral::DatatypeLiteral {
-                lexical_form: _,
-                datatype: _,
-            } => todo!(),
-            ConcreteLiteral::WrongDatatypeLiteral {
-                lexical_form: _,
-                datatype: _,
-                error: _,
-            } => todo!(),
-            ConcreteLiteral::NumericLiteral(lit) => self.pp_numeric_literal(lit),
-            ConcreteLiteral::BooleanLiteral(_) => todo!(),
-            ConcreteLiteral::DatetimeLiteral(_xsd_date_time) => todo!(),
-        }
-    }
-
-    fn pp_string_literal(&self, lexical_form: &str, lang: &Option<Lang>) -> DocBuilder<'a, Arena<'a, A>, A> {
-        match lang {
-            Some(_) => todo!(),
-            None => self.pp_string(lexical_form),
+            ObjectValue::Literal(ConcreteLiteral::StringLiteral {
+                lexical_form,
+                lang: None,
+            }) => self.pp_string(lexical_form),
+            _ => pp_object_value(object_value, self.doc, &self.prefixmap),
         }
     }
 
     fn pp_string(&self, str: &str) -> DocBuilder<'a, Arena<'a, A>, A> {
-        let s = format!("\"{str}\"");
+        let s = quoted(str);
         if let Some(color) = self.string_color {
             self.doc.text(s.as_str().color(color).to_string())
         } else {
@@ -621,7 +686,19 @@ where
             Some(flags) => flags.clone(),
             None => "".to_string(),
         };
-        let str = format!("/{}/{}", pattern.str, flags);
+        let mut str = String::from("/");
+        let mut escaped = false;
+        for c in pattern.str.chars() {
+            match c {
+                '/' if !escaped => str.push_str("\\/"),
+                '\n' => str.push_str("\\n"),
+                '\r' => str.push_str("\\r"),
+                c => str.push(c),
+            }
+            escaped = c == '\\' && !escaped;
+        }
+        str.push('/');
+        str.push_str(&flags);
         self.doc.text(str)
     }
 
@@ -635,15 +712,58 @@ where
 
     fn pp_value_set_value(&self, v: &ValueSetValue) -> DocBuilder<'a, Arena<'a, A>, A> {
         match v {
-            ValueSetValue::LanguageStem { .. } => todo!(),
-            ValueSetValue::LanguageStemRange { .. } => todo!(),
             ValueSetValue::ObjectValue(ov) => pp_object_value(ov, self.doc, &self.prefixmap),
-            ValueSetValue::IriStem { .. } => todo!(),
-            ValueSetValue::IriStemRange { .. } => todo!(),
-            ValueSetValue::LiteralStem { .. } => todo!(),
-            ValueSetValue::LiteralStemRange { .. } => todo!(),
-            ValueSetValue::Language { .. } => todo!(),
+            ValueSetValue::Language { language_tag } => self.doc.text(format!("@{language_tag}")),
+            ValueSetValue::LanguageStem { stem } => self.pp_language_stem(stem),
+            ValueSetValue::LanguageStemRange { stem, exclusions } => {
+                self.pp_language_stem(stem)
+                    .append(self.pp_exclusions(exclusions, |e| match e {
+                        LanguageExclusion::Language(lang) => self.doc.text(format!("@{lang}")),
+                        LanguageExclusion::LanguageStem(lang) => self.doc.text(format!("@{lang}~")),
+                    }))
+            },
+            ValueSetValue::IriStem { stem } => self.pp_iri_ref(stem).append("~"),
+            ValueSetValue::IriStemRange { stem, exclusions } => {
+                let stem = match stem {
+                    IriRefOrWildcard::IriRef(iri) => self.pp_iri_ref(iri).append("~"),
+                    IriRefOrWildcard::Wildcard => self.doc.text("."),
+                };
+                stem.append(self.pp_exclusions(exclusions, |e| match e {
+                    IriExclusion::Iri(iri) => self.pp_iri_ref(iri),
+                    IriExclusion::IriStem(iri) => self.pp_iri_ref(iri).append("~"),
+                }))
+            },
+            ValueSetValue::LiteralStem { stem } => self.pp_string(stem).append("~"),
+            ValueSetValue::LiteralStemRange { stem, exclusions } => {
+                let stem = match stem {
+                    StringOrWildcard::String(str) => self.pp_string(str).append("~"),
+                    StringOrWildcard::Wildcard => self.doc.text("."),
+                };
+                stem.append(self.pp_exclusions(exclusions, |e| match e {
+                    LiteralExclusion::Literal(str) => self.pp_string(str),
+                    LiteralExclusion::LiteralStem(str) => self.pp_string(str).append("~"),
+                }))
+            },
+        }
+    }
+
+    fn pp_language_stem(&self, stem: &LangOrWildcard) -> DocBuilder<'a, Arena<'a, A>, A> {
+        match stem {
+            LangOrWildcard::Lang(lang) => self.doc.text(format!("@{lang}~")),
+            LangOrWildcard::Wildcard => self.doc.text("@~"),
+        }
+    }
+
+    fn pp_exclusions<E>(
+        &self,
+        exclusions: &Option<Vec<E>>,
+        pp: impl Fn(&E) -> DocBuilder<'a, Arena<'a, A>, A>,
+    ) -> DocBuilder<'a, Arena<'a, A>, A> {
+        let mut doc = self.doc.nil();
+        for e in exclusions.iter().flatten() {
+            doc = doc.append(self.doc.text(" -")).append(pp(e))
         }
+        doc
     }
 
     fn pp_label(&self, ref_: &ShapeExprLabel) -> DocBuilder<'a, Arena<'a, A>, A> {
@@ -660,22 +780,11 @@ where
 
     fn pp_numeric_literal(&self, value: &NumericLiteral) -> DocBuilder<'a, Arena<'a, A>, A> {
         match value {
-            NumericLiteral::Integer(n) => self.pp_isize(&(*n as isize)),
-            NumericLiteral::Decimal(d) => self.pp_decimal(d),
-            NumericLiteral::Double(d) => self.pp_double(d),
-            NumericLiteral::Long(l) => self.pp_isize(&(*l as isize)),
-            NumericLiteral::Float(f) => self.pp_float(&(*f as f64)),
-            NumericLiteral::Byte(b) => self.pp_byte(b),
-            NumericLiteral::Short(s) => self.pp_short(s),
-            NumericLiteral::Int(n) => self.pp_int(n),
-            NumericLiteral::NonNegativeInteger(n) => self.pp_non_negative_integer(n),
-            NumericLiteral::UnsignedLong(u) => self.pp_unsigned_long(u),
-            NumericLiteral::UnsignedInt(u) => self.pp_unsigned_int(u),
-            NumericLiteral::UnsignedShort(u) => self.pp_unsigned_short(u),
-            NumericLiteral::UnsignedByte(n) => self.pp_unsigned_byte(n),
-            NumericLiteral::PositiveInteger(n) => self.pp_positive_integer(n),
-            NumericLiteral::NegativeInteger(n) => self.pp_negative_integer(n),
-            NumericLiteral::NonPositiveInteger(n) => self.pp_non_positive_integer(n),
+            // The facets of ShEx have no datatype, only a number
+            NumericLiteral::Decimal(_) | NumericLiteral::Double(_) => {
+                pp_numeric_literal(value, self.doc, &self.prefixmap)
+            },
+            _ => self.doc.text(value.to_string()),
         }
     }
 
@@ -683,66 +792,6 @@ where
         self.doc.text(format!("{value}"))
     }
 
-    fn pp_isize(&self, value: &isize) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_decimal(&self, value: &Decimal) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_double(&self, value: &f64) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_float(&self, value: &f64) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_byte(&self, value: &i8) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_short(&self, value: &i16) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_int(&self, value: &i32) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_non_negative_integer(&self, value: &u128) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_unsigned_long(&self, value: &u64) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_unsigned_int(&self, value: &u32) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_unsigned_short(&self, value: &u16) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_unsigned_byte(&self, value: &u8) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_positive_integer(&self, value: &u128) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_negative_integer(&self, value: &i128) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_non_positive_integer(&self, value: &i128) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
     fn pp_usize(&self, value: &usize) -> DocBuilder<'a, Arena<'a, A>, A> {
         self.doc.text(value.to_string())
     }
@@ -761,7 +810,7 @@ where
     fn pp_iri_or_str(&self, iri_or_str: &IriOrStr) -> DocBuilder<'a, Arena<'a, A>, A> {
         match iri_or_str {
             IriOrStr::IriRef(iri) => self.pp_iri_ref(iri),
-            IriOrStr::String(str) => self.pp_string(str.as_str()),
+            IriOrStr::String(str) => self.doc.text(format!("<{str}>")),
         }
     }
 
@@ -795,6 +844,16 @@ where
         }
     }
 
+    fn pp_inner_actions(&self) -> impl Fn(&Vec<SemAct>, &ShExCompactPrinter<'a, A>) -> DocBuilder<'a, Arena<'a, A>, A> {
+        move |actions, printer| {
+            let mut doc = printer.doc.nil();
+            for a in actions {
+                doc = doc.append(printer.space()).append(printer.pp_action(a))
+            }
+            doc
+        }
+    }
+
     fn pp_action(&self, a: &SemAct) -> DocBuilder<'a, Arena<'a, A>, A> {
         self.doc
             .text("%")
@@ -804,7 +863,7 @@ where
                 Some(str) => self
                     .doc
                     .text("{")
-                    .append(self.doc.text(str))
+                    .append(self.doc.text(str.replace('\\', "\\\\").replace('%', "\\%")))
                     .append(self.doc.text("%}")),
             })
     }
@@ -848,7 +907,7 @@ where
     }
 
     fn pp_iri(&self, iri: &IriS) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(self.prefixmap.qualify(iri))
+        pp_iri(iri, self.doc, &self.prefixmap)
     }
 
     /*fn pp_str(&self, str: &str) -> DocBuilder<'a, Arena<'a, A>, A> {
@@ -924,6 +983,41 @@ where
     }
 }
 
+/// Checks if the text of the shape expression ends with annotations or semantic actions
+fn ends_decorated(se: &ShapeExpr) -> bool {
+    match se {
+        ShapeExpr::Shape(s) => s.annotations.is_some() || s.sem_acts.is_some(),
+        ShapeExpr::ShapeAnd { shape_exprs } | ShapeExpr::ShapeOr { shape_exprs } => {
+            shape_exprs.iter().any(|sew| ends_decorated(&sew.se))
+        },
+        ShapeExpr::ShapeNot { shape_expr } => ends_decorated(&shape_expr.se),
+        _ => false,
+    }
+}
+
+/// Checks if the triple expression is a group that is always printed between brackets
+fn has_own_brackets(te: &TripleExpr) -> bool {
+    match te {
+        TripleExpr::EachOf {
+            id,
+            min,
+            max,
+            sem_acts,
+            annotations,
+            ..
+        }
+        | TripleExpr::OneOf {
+            id,
+            min,
+            max,
+            sem_acts,
+            annotations,
+            ..
+        } => id.is_some() || min.is_some() || max.is_some() || sem_acts.is_some() || annotations.is_some(),
+        _ => false,
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 6b38b58cbc2c38a5c37840e359f1f6be64c42287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:45 +0000
Subject: [PATCH 33/57] fix: literals in triple patterns of shape maps are
 written as SPARQL literals

---
 shex_ast/src/shapemap/node_selector.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/shex_ast/src/shapemap/node_selector.rs b/shex_ast/src/shapemap/node_selector.rs
index 64b332d..893f6e5 100644
--- a/shex_ast/src/shapemap/node_selector.rs
+++ b/shex_ast/src/shapemap/node_selector.rs
@@ -1,3 +1,4 @@
+use crate::compact::quoted;
 use crate::object_value::ObjectValue;
 use crate::shapemap::Pattern;
 use crate::shapemap::SHACLPathRef;
@@ -141,7 +142,17 @@ fn mk_vble(p: &Pattern, prefixmap: &PrefixMap) -> Result<String, PrefixMapError>
                 let iri = prefixmap.resolve_iriref(iri_ref.clone())?;
                 Ok(format!("<{iri}>"))
             },
-            ObjectValue::Literal(sliteral) => Ok(sliteral.to_string()),
+            // The literal as it is written in SPARQL
+            ObjectValue::Literal(sliteral) => {
+                let lexical_form = quoted(&sliteral.lexical_form());
+                match sliteral.lang() {
+                    Some(lang) => Ok(format!("{lexical_form}@{lang}")),
+                    None => {
+                        let datatype = prefixmap.resolve_iriref(sliteral.datatype())?;
+                        Ok(format!("{lexical_form}^^<{datatype}>"))
+                    },
+                }
+            },
         },
         Pattern::Wildcard => Ok("?any".to_string()),
         Pattern::Focus => Ok("?focus".to_string()),
-- 
2.43.0


From 44bca81e7498afd8703958bdd8a89ec10fc75a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:45 +0000
Subject: [PATCH 34/57] fix: CSV reports of shape maps without details

---
 shex_ast/src/shapemap/result_shape_map.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/shex_ast/src/shapemap/result_shape_map.rs b/shex_ast/src/shapemap/result_shape_map.rs
index 59fc470..a325e92 100644
--- a/shex_ast/src/shapemap/result_shape_map.rs
+++ b/shex_ast/src/shapemap/result_shape_map.rs
@@ -201,7 +201,11 @@ impl ResultShapeMap {
 
     pub fn as_csv<W: Write>(&self, writer: W, sort_mode: SortMode, with_details: bool) -> Result<(), Error> {
         let mut wtr = csv::Writer::from_writer(writer);
-        wtr.write_record(["node", "shape", "status", "details"])?;
+        if with_details {
+            wtr.write_record(["node", "shape", "status", "details"])?;
+        } else {
+            wtr.write_record(["node", "shape", "status"])?;
+        }
 
         let cmp = self.get_comparator(&sort_mode);
         for (node, label, status) in self.iter().sorted_by(cmp) {
-- 
2.43.0


From f9c9d5dc4d43fba5fe418cb423a7b7e95c88bdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:45 +0000
Subject: [PATCH 35/57] fix: printed shape maps read back as the same shape
 map; space before @

---
 .../src/compact/shapemap_compact_printer.rs   | 135 +++---------------
 shex_ast/src/compact/shapemap_grammar.rs      |   2 +-
 2 files changed, 20 insertions(+), 117 deletions(-)

diff --git a/shex_ast/src/compact/shapemap_compact_printer.rs b/shex_ast/src/compact/shapemap_compact_printer.rs
index 21a1579..2657d88 100644
--- a/shex_ast/src/compact/shapemap_compact_printer.rs
+++ b/shex_ast/src/compact/shapemap_compact_printer.rs
@@ -2,12 +2,11 @@ use crate::ObjectValue;
 use crate::shapemap::Pattern;
 use crate::shapemap::SHACLPathRef;
 use crate::shapemap::{Association, NodeSelector, ShapeSelector, query_shape_map::QueryShapeMap};
-use crate::{keyword, pp_label, pp_object_value};
+use crate::{keyword, pp_iri, pp_label, pp_object_value, quoted};
 use colored::*;
 use prefixmap::{IriRef, PrefixMap};
 use pretty::{Arena, DocAllocator, DocBuilder};
-use rudof_rdf::rdf_core::term::literal::{ConcreteLiteral, Lang, NumericLiteral};
-use rust_decimal::Decimal;
+use rudof_rdf::rdf_core::term::literal::ConcreteLiteral;
 use std::borrow::Cow;
 use std::marker::PhantomData;
 
@@ -168,18 +167,24 @@ where
         for a in self.shapemap.iter() {
             docs.push(self.pp_association(a))
         }
-        self.doc.intersperse(docs, self.doc.hardline())
+        self.doc
+            .intersperse(docs, self.doc.text(",").append(self.doc.hardline()))
     }
 
     fn pp_association(&self, assoc: &Association) -> DocBuilder<'a, Arena<'a, A>, A> {
+        // "x"@START would be read as a string with a language tag
+        let separator = match (&assoc.node_selector, &assoc.shape_selector) {
+            (NodeSelector::Node(ObjectValue::Literal(_)), ShapeSelector::Start) => "@ ",
+            _ => "@",
+        };
         self.pp_node_selector(&assoc.node_selector)
-            .append(self.doc.text("@"))
+            .append(self.doc.text(separator))
             .append(self.pp_shape_selector(&assoc.shape_selector))
     }
 
     fn pp_node_selector(&self, ns: &NodeSelector) -> DocBuilder<'a, Arena<'a, A>, A> {
         match ns {
-            NodeSelector::Node(v) => pp_object_value(v, self.doc, &self.nodes_prefixmap),
+            NodeSelector::Node(v) => self.pp_object_value(v),
             NodeSelector::BNode(label) => self.doc.text(format!("_:{label}")),
             NodeSelector::TriplePattern { subject, path, object } => self
                 .doc
@@ -205,6 +210,7 @@ where
     }
 
     pub fn triple_quotes(&self, str: &str) -> DocBuilder<'a, Arena<'a, A>, A> {
+        let str = str.replace('\\', "\\\\").replace('\'', "\\'");
         self.doc.text(format!("'''{str}'''"))
     }
 
@@ -225,119 +231,16 @@ where
 
     pub fn pp_object_value(&self, ov: &ObjectValue) -> DocBuilder<'a, Arena<'a, A>, A> {
         match ov {
-            ObjectValue::IriRef(iri_ref) => self.pp_iri_ref(iri_ref, &self.nodes_prefixmap),
-            ObjectValue::Literal(sliteral) => self.pp_literal(sliteral),
-        }
-    }
-
-    fn pp_literal(&self, literal: &ConcreteLiteral) -> DocBuilder<'a, Arena<'a, A>, A> {
-        match literal {
-            ConcreteLiteral::StringLiteral { lexical_form, lang } => self.pp_string_literal(lexical_form, lang),
-            ConcreteLiteral::DatatypeLiteral {
-                lexical_form: _,
-                datatype: _,
-            } => todo!(),
-            ConcreteLiteral::WrongDatatypeLiteral {
-                lexical_form: _,
-                datatype: _,
-                error: _,
-            } => todo!(),
-            ConcreteLiteral::NumericLiteral(lit) => self.pp_numeric_literal(lit),
-            ConcreteLiteral::BooleanLiteral(_) => todo!(),
-            ConcreteLiteral::DatetimeLiteral(_xsd_date_time) => todo!(),
-        }
-    }
-
-    fn pp_numeric_literal(&self, value: &NumericLiteral) -> DocBuilder<'a, Arena<'a, A>, A> {
-        match value {
-            NumericLiteral::Integer(n) => self.pp_isize(&(*n as isize)),
-            NumericLiteral::Decimal(d) => self.pp_decimal(d),
-            NumericLiteral::Double(d) => self.pp_double(d),
-            NumericLiteral::Long(l) => self.pp_isize(&(*l as isize)),
-            NumericLiteral::Float(f) => self.pp_float(&(*f as f64)),
-            NumericLiteral::Byte(b) => self.pp_byte(b),
-            NumericLiteral::Short(s) => self.pp_short(s),
-            NumericLiteral::Int(n) => self.pp_int(n),
-            NumericLiteral::NonNegativeInteger(n) => self.pp_non_negative_integer(n),
-            NumericLiteral::UnsignedLong(u) => self.pp_unsigned_long(u),
-            NumericLiteral::UnsignedInt(u) => self.pp_unsigned_int(u),
-            NumericLiteral::UnsignedShort(u) => self.pp_unsigned_short(u),
-            NumericLiteral::UnsignedByte(n) => self.pp_unsigned_byte(n),
-            NumericLiteral::PositiveInteger(n) => self.pp_positive_integer(n),
-            NumericLiteral::NegativeInteger(n) => self.pp_negative_integer(n),
-            NumericLiteral::NonPositiveInteger(n) => self.pp_non_positive_integer(n),
-        }
-    }
-
-    fn pp_isize(&self, value: &isize) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_decimal(&self, value: &Decimal) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_double(&self, value: &f64) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_float(&self, value: &f64) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_byte(&self, value: &i8) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_short(&self, value: &i16) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_int(&self, value: &i32) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_non_negative_integer(&self, value: &u128) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_unsigned_long(&self, value: &u64) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_unsigned_int(&self, value: &u32) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_unsigned_short(&self, value: &u16) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_unsigned_byte(&self, value: &u8) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_positive_integer(&self, value: &u128) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_negative_integer(&self, value: &i128) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_non_positive_integer(&self, value: &i128) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_string_literal(&self, lexical_form: &str, lang: &Option<Lang>) -> DocBuilder<'a, Arena<'a, A>, A> {
-        match lang {
-            Some(_) => todo!(),
-            None => self.pp_string(lexical_form),
+            ObjectValue::Literal(ConcreteLiteral::StringLiteral {
+                lexical_form,
+                lang: None,
+            }) => self.pp_string(lexical_form),
+            _ => pp_object_value(ov, self.doc, &self.nodes_prefixmap),
         }
     }
 
     fn pp_string(&self, str: &str) -> DocBuilder<'a, Arena<'a, A>, A> {
-        let s = format!("\"{str}\"");
+        let s = quoted(str);
         if let Some(color) = self.string_color {
             self.doc.text(s.as_str().color(color).to_string())
         } else {
@@ -347,7 +250,7 @@ where
 
     fn pp_iri_ref(&self, value: &IriRef, prefixmap: &PrefixMap) -> DocBuilder<'a, Arena<'a, A>, A> {
         match value {
-            IriRef::Iri(iri) => self.doc.text(prefixmap.qualify(iri)),
+            IriRef::Iri(iri) => pp_iri(iri, self.doc, prefixmap),
             IriRef::Prefixed { prefix, local } => self
                 .doc
                 .text(prefix.clone())
diff --git a/shex_ast/src/compact/shapemap_grammar.rs b/shex_ast/src/compact/shapemap_grammar.rs
index 741d1be..d8bdce7 100644
--- a/shex_ast/src/compact/shapemap_grammar.rs
+++ b/shex_ast/src/compact/shapemap_grammar.rs
@@ -42,7 +42,7 @@ pub(crate) fn shapemap_statement<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, Vec<S
 
 /// `association ::= node_spec @ shape_spec`
 fn association(i: Span) -> IRes<ShapeMapStatement> {
-    let (i, (ns, _, sl)) = (node_selector(), token_tws("@"), shape_spec()).parse(i)?;
+    let (i, (ns, _, _, sl)) = (node_selector(), tws0, token_tws("@"), shape_spec()).parse(i)?;
     let s = ShapeMapStatement::Association {
         node_selector: ns,
         shape_selector: sl,
-- 
2.43.0


From eada1697f4ea4a48a9a1b6ca1f2e88fd71f669bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:44 +0000
Subject: [PATCH 36/57] fix: prefixed names denote the concatenation of
 namespace and local name

---
 prefixmap/src/prefix_map.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/prefixmap/src/prefix_map.rs b/prefixmap/src/prefix_map.rs
index 42d3cf2..9c46781 100644
--- a/prefixmap/src/prefix_map.rs
+++ b/prefixmap/src/prefix_map.rs
@@ -511,7 +511,8 @@ impl PrefixMap {
     /// # Ok::<(), PrefixMapError>(())
     /// ```
     pub fn resolve(&self, str: &str) -> Result<IriS, PrefixMapError> {
-        match str.rsplit_once(':') {
+        // The prefix ends at the first colon: a local name may contain more of them
+        match str.split_once(':') {
             Some((prefix, local)) => Ok(self.resolve_prefix_local(prefix, local)?),
             None => Ok(IriS::from_str(str)?),
         }
@@ -566,7 +567,8 @@ impl PrefixMap {
                 if local.is_empty() {
                     return Ok(iri.clone());
                 }
-                let new_iri = iri.extend(local.as_str())?;
+                // The IRI is the concatenation of both parts, whatever the first one ends with
+                let new_iri = IriS::new(&format!("{iri}{local}"))?;
                 Ok(new_iri)
             },
             None => Err(PrefixMapError::PrefixNotFound {
-- 
2.43.0


From fa9af6b58a33ceaedcd53610af95bd33c417721f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:44 +0000
Subject: [PATCH 37/57] fix: escapes, final dots and non-ASCII characters in
 local names; invalid code points are syntax errors

---
 shex_ast/src/compact/shex_grammar.rs | 95 ++++++++++++----------------
 1 file changed, 40 insertions(+), 55 deletions(-)

diff --git a/shex_ast/src/compact/shex_grammar.rs b/shex_ast/src/compact/shex_grammar.rs
index 341e399..032e32d 100644
--- a/shex_ast/src/compact/shex_grammar.rs
+++ b/shex_ast/src/compact/shex_grammar.rs
@@ -19,7 +19,7 @@ use nom::{
     branch::alt,
     bytes::complete::{tag, take_while, take_while1},
     character::complete::{alpha1, alphanumeric1, char, digit0, digit1, none_of, one_of, satisfy},
-    combinator::{cut, map, map_res, opt, recognize},
+    combinator::{cut, map, map_opt, map_res, opt, recognize},
     error::ErrorKind,
     error_position,
     multi::{count, fold_many0, many0, many1},
@@ -1471,13 +1471,14 @@ const REQUIRES_ESCAPE_SINGLE_QUOTE: &str = "\u{27}\u{5C}\u{0A}\u{0D}";
 /// `[26t] <UCHAR> ::= "\\u" HEX HEX HEX HEX`
 /// `          | "\\U" HEX HEX HEX HEX HEX HEX HEX HEX`
 fn uchar(i: Span) -> IRes<char> {
-    let (i, str) = recognize(alt((
-        preceded(token(r"\u"), count(hex, 4)),
-        preceded(token(r"\U"), count(hex, 8)),
-    )))
-    .parse(i)?;
-    let c = unescape_uchar(str.fragment()).unwrap();
-    Ok((i, c))
+    map_opt(
+        recognize(alt((
+            preceded(token(r"\u"), count(hex, 4)),
+            preceded(token(r"\U"), count(hex, 8)),
+        ))),
+        |str: Span| unescape_uchar(str.fragment()).ok(),
+    )
+    .parse(i)
 }
 
 /// `[160s] <ECHAR> ::= "\\" [tbnrf\\\"\\']`
@@ -1831,7 +1832,8 @@ pub(crate) fn blank_node(i: Span) -> IRes<BNode> {
 /// `[142s] <BLANK_NODE_LABEL> ::= "_:" (PN_CHARS_U | [0-9]) ((PN_CHARS | ".")* PN_CHARS)?`
 fn blank_node_label(i: Span<'_>) -> IRes<'_, &str> {
     let (i, _) = tag("_:")(i)?;
-    let (i, label) = recognize((one_if(is_pn_chars_u_digit), blank_node_label2)).parse(i)?;
+    let (_, label) = recognize((one_if(is_pn_chars_u_digit), blank_node_label3)).parse(i)?;
+    let (i, label) = i.take_split(len_without_final_dots(label.fragment()));
     Ok((i, label.fragment()))
 }
 
@@ -1843,24 +1845,6 @@ fn is_pn_chars_or_dot(c: char) -> bool {
     c == '.' || is_pn_chars(c)
 }
 
-fn blank_node_label2(src: Span) -> IRes<()> {
-    match blank_node_label3(src) {
-        Ok((left, m)) => {
-            // if last is a '.', remove that
-            if m.ends_with('.') {
-                // TODO!!: Original parser had this:
-                // But I need to see how to remove the last character of left...
-                // Ok(((&src[m.len() - 1..]), ()))
-                tracing::error!("This code is pending review when the last is a '.' {left}");
-                Ok((left, ()))
-            } else {
-                Ok((left, ()))
-            }
-        },
-        Err(e) => Err(e),
-    }
-}
-
 fn blank_node_label3(i: Span) -> IRes<Span> {
     take_while(is_pn_chars_or_dot)(i)
 }
@@ -1933,35 +1917,29 @@ fn digits(i: Span) -> IRes<i128> {
 fn pname_ln(i: Span) -> IRes<IriRef> {
     // This code is different here: https://github.com/vandenoever/rome/blob/047cf54def2aaac75ac4b9adbef08a9d010689bd/src/io/turtle/grammar.rs#L293
     let (i, (prefix, local)) = (pname_ns, pn_local).parse(i)?;
-    Ok((i, IriRef::prefixed(*prefix.fragment(), local)))
+    Ok((i, IriRef::prefixed(prefix.fragment().to_string(), local)))
 }
 
-/// `[77] <PN_LOCAL> ::= (PN_CHARS_U | ":" | [0-9] | PLX) (PN_CHARS | "." | ":" | PLX)`
-fn pn_local(i: Span<'_>) -> IRes<'_, &str> {
-    let (i, cs) = recognize((alt((one_if(is_pn_local_start), plx)), pn_local2)).parse(i)?;
-    Ok((i, cs.fragment()))
+/// `[77] <PN_LOCAL> ::= (PN_CHARS_U | ":" | [0-9] | PLX) ((PN_CHARS | "." | ":" | PLX)* (PN_CHARS | ":" | PLX))?`
+///
+/// Returns the local name without the backslashes of its escape sequences
+fn pn_local(i: Span<'_>) -> IRes<'_, String> {
+    let (_, cs) = recognize((alt((one_if(is_pn_local_start), plx)), pn_local3)).parse(i)?;
+    let (i, cs) = i.take_split(len_without_final_dots(cs.fragment()));
+    Ok((i, cs.fragment().replace('\\', "")))
 }
 
-fn is_pn_local_start(c: char) -> bool {
-    c == ':' || is_digit(c) || is_pn_chars_u(c)
+/// Names do not end with a dot unless it is escaped
+fn len_without_final_dots(name: &str) -> usize {
+    let mut len = name.len();
+    while name[..len].ends_with('.') && !name[..len].ends_with("\\.") {
+        len -= 1;
+    }
+    len
 }
 
-fn pn_local2(src: Span) -> IRes<()> {
-    match pn_local3(src) {
-        Ok((left, m)) => {
-            // if last is a '.', remove that
-            if m.ends_with('.') {
-                // TODO!!: Original parser had this:
-                // But I need to see how to remove the last character of left...
-                // Ok(((&src[m.len() - 1..]), ()))
-                tracing::error!("This code is pending review when the last is a '.' {left}");
-                Ok((left, ()))
-            } else {
-                Ok((left, ()))
-            }
-        },
-        Err(e) => Err(e),
-    }
+fn is_pn_local_start(c: char) -> bool {
+    c == ':' || is_digit(c) || is_pn_chars_u(c)
 }
 
 fn pn_local3(i: Span) -> IRes<Span> {
@@ -2050,6 +2028,9 @@ enum UCharError {
 
     #[error("No character after \\")]
     NoCharAfterBackSlash,
+
+    #[error("{code} is not the code of a Unicode character")]
+    NoUnicodeCharacter { code: String },
 }
 
 fn unescape_uchar(str: &str) -> Result<char, UCharError> {
@@ -2070,8 +2051,10 @@ fn unescape_uchar(str: &str) -> Result<char, UCharError> {
                     }
                 }
 
-                let u = u32::from_str_radix(&s, 16).unwrap();
-                r = char::from_u32(u).unwrap();
+                r = u32::from_str_radix(&s, 16)
+                    .ok()
+                    .and_then(char::from_u32)
+                    .ok_or(UCharError::NoUnicodeCharacter { code: s })?;
             },
             Some('U') => {
                 let mut s = String::new();
@@ -2083,8 +2066,10 @@ fn unescape_uchar(str: &str) -> Result<char, UCharError> {
                     }
                 }
 
-                let u = u32::from_str_radix(&s, 16).unwrap();
-                r = char::from_u32(u).unwrap();
+                r = u32::from_str_radix(&s, 16)
+                    .ok()
+                    .and_then(char::from_u32)
+                    .ok_or(UCharError::NoUnicodeCharacter { code: s })?;
             },
             Some(c) => return Err(UCharError::UnexpectedCharacterAfterBackSlash { c }),
             None => return Err(UCharError::NoCharAfterBackSlash),
@@ -2210,7 +2195,7 @@ fn one_if<'a, F: Fn(char) -> bool>(f: F) -> impl Fn(Span<'a>) -> IRes<'a, Span<'
     move |i| {
         if let Some(c) = i.chars().next() {
             if f(c) {
-                Ok(i.take_split(1))
+                Ok(i.take_split(c.len_utf8()))
             } else {
                 Err(Err::Error(error_position!(i, ErrorKind::OneOf)))
             }
-- 
2.43.0


From 5593da2bd6783a164ca1a76d9d4b7a24f3577133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:44 +0000
Subject: [PATCH 38/57] fix: relative BASE, PREFIX and IMPORT IRIs are resolved
 against the current base

---
 shex_ast/src/compact/shex_parser.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/shex_ast/src/compact/shex_parser.rs b/shex_ast/src/compact/shex_parser.rs
index 009d7ee..5d5bc2e 100644
--- a/shex_ast/src/compact/shex_parser.rs
+++ b/shex_ast/src/compact/shex_parser.rs
@@ -5,7 +5,7 @@ use crate::compact::grammar_structs::ShExStatement;
 use crate::shex_statement;
 use crate::tws0;
 use nom::Err;
-use prefixmap::DerefIri;
+use prefixmap::{DerefError, DerefIri};
 use rudof_iri::IriS;
 use std::fs;
 use std::io;
@@ -36,9 +36,11 @@ impl ShExParser<'_> {
         for s in parser.shex_statement_iterator.by_ref() {
             match s? {
                 ShExStatement::BaseDecl { iri } => {
+                    let iri = Self::resolve_iri(iri, schema.base())?;
                     schema = schema.with_base(Some(iri));
                 },
                 ShExStatement::PrefixDecl { alias, iri } => {
+                    let iri = Self::resolve_iri(iri, schema.base())?;
                     schema.add_prefix(alias, &iri);
                 },
                 ShExStatement::StartDecl { shape_expr } => {
@@ -46,6 +48,7 @@ impl ShExParser<'_> {
                     schema = schema.with_start(Some(shape_expr))
                 },
                 ShExStatement::ImportDecl { iri } => {
+                    let iri = iri.deref_iri(schema.base().as_ref(), schema.prefixmap().as_ref())?;
                     schema = schema.with_import(iri);
                 },
                 ShExStatement::ShapeDecl {
@@ -66,6 +69,14 @@ impl ShExParser<'_> {
         Ok(schema)
     }
 
+    /// The IRI of a directive may be relative to the current base
+    fn resolve_iri(iri: IriS, base: Option<IriS>) -> Result<IriS> {
+        match base {
+            None => Ok(iri),
+            Some(base) => Ok(base.resolve(iri).map_err(DerefError::from)?),
+        }
+    }
+
     pub fn parse_buf(path: &Path, base: Option<IriS>) -> Result<Schema> {
         let source_iri = path.try_into().map_err(|e| ParseError::Custom {
             msg: format!("Cannot convert path to IRI: {e}"),
-- 
2.43.0


From 361cca1e056871591b9bd9ccc343fe3a62f2d524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:14 +0000
Subject: [PATCH 39/57] fix: literals of ShExJ value sets keep their lexical
 form, so that they match data

---
 shex_ast/src/ast/object_value.rs    | 39 +++-------------------
 shex_ast/src/ast/value_set_value.rs | 51 ++++-------------------------
 2 files changed, 10 insertions(+), 80 deletions(-)

diff --git a/shex_ast/src/ast/object_value.rs b/shex_ast/src/ast/object_value.rs
index 365c187..6a9041b 100644
--- a/shex_ast/src/ast/object_value.rs
+++ b/shex_ast/src/ast/object_value.rs
@@ -7,7 +7,6 @@ use rudof_rdf::rdf_core::term::{
     literal::{ConcreteLiteral, Lang, NumericLiteral},
 };
 use rust_decimal::Decimal;
-use serde::de::Unexpected;
 use serde::ser::SerializeMap;
 use serde::{
     Deserialize, Serialize, Serializer,
@@ -189,9 +188,6 @@ fn get_type_str(n: &NumericLiteral) -> &str {
 #[derive(Debug, PartialEq)]
 enum ObjectValueType {
     Boolean,
-    Integer,
-    Decimal,
-    Double,
     Other(IriRef),
 }
 
@@ -199,9 +195,6 @@ impl ObjectValueType {
     fn parse(s: &str) -> Result<ObjectValueType, IriSError> {
         match s {
             BOOLEAN_STR => Ok(ObjectValueType::Boolean),
-            DECIMAL_STR => Ok(ObjectValueType::Decimal),
-            DOUBLE_STR => Ok(ObjectValueType::Double),
-            INTEGER_STR => Ok(ObjectValueType::Integer),
             other => {
                 let iri = FromStr::from_str(other)?;
                 Ok(ObjectValueType::Other(iri))
@@ -312,34 +305,10 @@ impl<'de> Deserialize<'de> for ObjectValue {
                         Some(s) => match s.as_str() {
                             "false" => Ok(ObjectValue::bool(false)),
                             "true" => Ok(ObjectValue::bool(true)),
-                            _ => Err(de::Error::invalid_value(Unexpected::Str(&s), &self)),
-                        },
-                        None => Err(de::Error::missing_field("value")),
-                    },
-                    Some(ObjectValueType::Decimal) => match value {
-                        Some(s) => {
-                            let n = Decimal::from_str(&s).map_err(|e| {
-                                de::Error::custom(format!("Can't parse value {s} as decimal: Error {e}"))
-                            })?;
-                            Ok(ObjectValue::decimal(n))
-                        },
-                        None => Err(de::Error::missing_field("value")),
-                    },
-                    Some(ObjectValueType::Double) => match value {
-                        Some(s) => {
-                            let n = f64::from_str(&s).map_err(|e| {
-                                de::Error::custom(format!("Can't parse value {s} as double: Error {e}"))
-                            })?;
-                            Ok(ObjectValue::double(n))
-                        },
-                        None => Err(de::Error::missing_field("value")),
-                    },
-                    Some(ObjectValueType::Integer) => match value {
-                        Some(s) => {
-                            let n = isize::from_str(&s).map_err(|e| {
-                                de::Error::custom(format!("Can't parse value {s} as integer: Error {e}"))
-                            })?;
-                            Ok(ObjectValue::integer(n))
+                            _ => Ok(ObjectValue::datatype_literal(
+                                &s,
+                                &IriRef::iri(IriS::new_unchecked(BOOLEAN_STR)),
+                            )),
                         },
                         None => Err(de::Error::missing_field("value")),
                     },
diff --git a/shex_ast/src/ast/value_set_value.rs b/shex_ast/src/ast/value_set_value.rs
index b9d97f8..c687bfc 100644
--- a/shex_ast/src/ast/value_set_value.rs
+++ b/shex_ast/src/ast/value_set_value.rs
@@ -6,13 +6,12 @@ use crate::language_exclusion::LanguageExclusion;
 use crate::literal_exclusion::LiteralExclusion;
 use prefixmap::error::DerefError;
 use prefixmap::{DerefIri, IriRef};
-use rudof_iri::error::IriSError;
+use rudof_iri::{IriS, error::IriSError};
 use rudof_rdf::rdf_core::term::literal::{ConcreteLiteral, Lang};
-use rust_decimal::Decimal;
 use serde::ser::SerializeMap;
 use serde::{
     Deserialize, Serialize, Serializer,
-    de::{self, MapAccess, Unexpected, Visitor},
+    de::{self, MapAccess, Visitor},
 };
 use std::{fmt, str::FromStr};
 use thiserror::Error;
@@ -164,16 +163,10 @@ enum ValueSetValueType {
     LiteralStemRange,
     Language,
     Boolean,
-    Integer,
-    Decimal,
-    Double,
     Other(IriRef),
 }
 
 const BOOLEAN_STR: &str = "http://www.w3.org/2001/XMLSchema#boolean";
-const INTEGER_STR: &str = "http://www.w3.org/2001/XMLSchema#integer";
-const DOUBLE_STR: &str = "http://www.w3.org/2001/XMLSchema#double";
-const DECIMAL_STR: &str = "http://www.w3.org/2001/XMLSchema#decimal";
 
 impl ValueSetValueType {
     fn parse(s: &str) -> Result<ValueSetValueType, IriSError> {
@@ -186,9 +179,6 @@ impl ValueSetValueType {
             "LanguageStemRange" => Ok(ValueSetValueType::LanguageStemRange),
             "LiteralStemRange" => Ok(ValueSetValueType::LiteralStemRange),
             BOOLEAN_STR => Ok(ValueSetValueType::Boolean),
-            DECIMAL_STR => Ok(ValueSetValueType::Decimal),
-            DOUBLE_STR => Ok(ValueSetValueType::Double),
-            INTEGER_STR => Ok(ValueSetValueType::Integer),
             other => {
                 let iri = FromStr::from_str(other)?;
                 Ok(ValueSetValueType::Other(iri))
@@ -198,9 +188,6 @@ impl ValueSetValueType {
 }
 
 //const BOOLEAN_STR: &str = "http://www.w3.org/2001/XMLSchema#boolean";
-//const INTEGER_STR: &str = "http://www.w3.org/2001/XMLSchema#integer";
-//const DOUBLE_STR: &str = "http://www.w3.org/2001/XMLSchema#double";
-//const DECIMAL_STR: &str = "http://www.w3.org/2001/XMLSchema#decimal";
 
 impl Serialize for ValueSetValue {
     fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
@@ -704,36 +691,10 @@ impl<'de> Deserialize<'de> for ValueSetValue {
                         Some(s) => match s.as_str() {
                             "false" => Ok(ValueSetValue::ObjectValue(ObjectValue::bool(false))),
                             "true" => Ok(ValueSetValue::ObjectValue(ObjectValue::bool(true))),
-                            _ => Err(de::Error::invalid_value(Unexpected::Str(&s), &self)),
-                        },
-                        None => Err(de::Error::missing_field("value")),
-                    },
-                    Some(ValueSetValueType::Double) => match value {
-                        Some(s) => {
-                            let n = f64::from_str(&s).map_err(|e| {
-                                de::Error::custom(format!("Can't parse value {s} as double: Error {e}"))
-                            })?;
-                            Ok(ValueSetValue::ObjectValue(ObjectValue::double(n)))
-                        },
-                        None => Err(de::Error::missing_field("value")),
-                    },
-                    Some(ValueSetValueType::Decimal) => match value {
-                        Some(s) => {
-                            let n = Decimal::from_str(&s).map_err(|e| {
-                                de::Error::custom(format!("Can't parse value {s} as decimal: Error {e}"))
-                            })?;
-                            let v = ValueSetValue::ObjectValue(ObjectValue::decimal(n));
-                            Ok(v)
-                        },
-                        None => Err(de::Error::missing_field("value")),
-                    },
-                    Some(ValueSetValueType::Integer) => match value {
-                        Some(s) => {
-                            let n = isize::from_str(&s).map_err(|e| {
-                                de::Error::custom(format!("Can't parse value {s} as integer: Error {e}"))
-                            })?;
-                            let v = ValueSetValue::ObjectValue(ObjectValue::integer(n));
-                            Ok(v)
+                            _ => Ok(ValueSetValue::datatype_literal(
+                                &s,
+                                &IriRef::iri(IriS::new_unchecked(BOOLEAN_STR)),
+                            )),
                         },
                         None => Err(de::Error::missing_field("value")),
                     },
-- 
2.43.0


From 9ae3a1c2b077b79e2a9e8b4f3cffb34fab069e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:14 +0000
Subject: [PATCH 40/57] fix: import cycles that go through the root schema
 don't import it again

---
 .../shex/implementations/load_shex_schema.rs  | 57 ++++++++++---------
 shex_ast/src/ir/ast2ir.rs                     |  4 +-
 2 files changed, 34 insertions(+), 27 deletions(-)

diff --git a/rudof_lib/src/api/shex/implementations/load_shex_schema.rs b/rudof_lib/src/api/shex/implementations/load_shex_schema.rs
index a7b4910..7fb9e7f 100644
--- a/rudof_lib/src/api/shex/implementations/load_shex_schema.rs
+++ b/rudof_lib/src/api/shex/implementations/load_shex_schema.rs
@@ -80,31 +80,7 @@ fn load_shex_schema_shexc<R: io::Read>(
         })?;
     let header = default_prefix_header(rudof, &content, PrefixDirective::Sparql);
     let prefixed_reader = io::Cursor::new(format!("{header}{content}"));
-    #[cfg(target_family = "wasm")]
-    let source_iri = {
-        IriS::from_str(source_name).map_err(|error| IriError::ParseError {
-            iri: source_name.to_string(),
-            error: error.to_string(),
-        })?
-    };
-
-    #[cfg(not(target_family = "wasm"))]
-    let source_iri = {
-        let cwd = env::current_dir().map_err(|e| IriError::PathConversionError {
-            path: ".".to_string(),
-            error: format!("Error resolving source IRI. Failed to get current directory: {e}"),
-        })?;
-
-        let url = Url::from_directory_path(&cwd).map_err(|_| IriError::PathConversionError {
-            path: cwd.to_string_lossy().to_string(),
-            error: "Error resolving source IRI. Cannot convert current directory to a file URL".to_string(),
-        })?;
-
-        IriS::from_str_base(source_name, Some(url.as_str())).map_err(|e| IriError::ParseError {
-            iri: source_name.to_string(),
-            error: format!("Failed to parse source name as IRI: {e}"),
-        })?
-    };
+    let source_iri = get_source_iri(source_name)?;
 
     let schema = ShExParser::from_reader(prefixed_reader, Some(base_schema.clone()), &source_iri).map_err(|error| {
         ShExError::FailedParsingShExSchema {
@@ -126,17 +102,46 @@ fn load_shex_schema_shexj<R: io::Read>(
     base_schema: IriS,
     reader_mode: &DataReaderMode,
 ) -> Result<()> {
-    let schema = ShExSchema::from_reader(schema_reader).map_err(|error| ShExError::FailedParsingShExSchema {
+    let mut schema = ShExSchema::from_reader(schema_reader).map_err(|error| ShExError::FailedParsingShExSchema {
         error: error.to_string(),
         source_name: source_name.to_string(),
         format: "ShExJ".to_string(),
     })?;
+    schema.with_source_iri(&get_source_iri(source_name)?);
 
     compile_shex_schema(rudof, base_schema, schema, reader_mode)?;
 
     Ok(())
 }
 
+#[cfg(target_family = "wasm")]
+fn get_source_iri(source_name: &str) -> Result<IriS> {
+    Ok(IriS::from_str(source_name).map_err(|error| IriError::ParseError {
+        iri: source_name.to_string(),
+        error: error.to_string(),
+    })?)
+}
+
+#[cfg(not(target_family = "wasm"))]
+fn get_source_iri(source_name: &str) -> Result<IriS> {
+    let cwd = env::current_dir().map_err(|e| IriError::PathConversionError {
+        path: ".".to_string(),
+        error: format!("Error resolving source IRI. Failed to get current directory: {e}"),
+    })?;
+
+    let url = Url::from_directory_path(&cwd).map_err(|_| IriError::PathConversionError {
+        path: cwd.to_string_lossy().to_string(),
+        error: "Error resolving source IRI. Cannot convert current directory to a file URL".to_string(),
+    })?;
+
+    Ok(
+        IriS::from_str_base(source_name, Some(url.as_str())).map_err(|e| IriError::ParseError {
+            iri: source_name.to_string(),
+            error: format!("Failed to parse source name as IRI: {e}"),
+        })?,
+    )
+}
+
 fn compile_shex_schema(rudof: &mut Rudof, base: IriS, schema: ShExSchema, reader_mode: &DataReaderMode) -> Result<()> {
     // Build the registry with all extensions pre-registered so that the Arc<Mutex<MapState>>
     // inside MapActionExtension is shared with every closure compiled from the schema.
diff --git a/shex_ast/src/ir/ast2ir.rs b/shex_ast/src/ir/ast2ir.rs
index 178cb06..61c9b01 100644
--- a/shex_ast/src/ir/ast2ir.rs
+++ b/shex_ast/src/ir/ast2ir.rs
@@ -82,7 +82,8 @@ impl AST2IR {
         let schema_ast = &rewritten_root;
 
         // Collect labels of all imported schemas first, so they are available when compiling the root schema's shape expressions. This also serves as a cycle check for imports.
-        let mut visited = Vec::new();
+        // The root counts as visited, so that import cycles that go through it don't import it again.
+        let mut visited = vec![source_iri.clone()];
 
         let mut imported_asts: Vec<(SchemaAST, IriS)> = Vec::new();
         /*trace!(
@@ -135,6 +136,7 @@ impl AST2IR {
         }
         self.collect_shape_exprs(schema_ast, compiled_schema, source_iri, &schema_ast.base())?;
         compiled_schema.set_local_shapes_counter(local_shapes);
+        visited.retain(|iri| iri != source_iri);
         compiled_schema.set_imported_schemas(visited);
         compiled_schema.increment_total_shapes(local_shapes);
         compiled_schema.build_dependency_graph();
-- 
2.43.0


From 8524775f73884e03d147b627395a1a0dab9fb187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:46 +0000
Subject: [PATCH 41/57] fix: generated blank nodes have labels that every RDF
 syntax allows

---
 rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs b/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
index f62c4a1..24cbbef 100644
--- a/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
+++ b/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
@@ -1002,10 +1002,9 @@ impl BuildRDF for OxigraphInMemory {
     fn add_bnode(&mut self) -> Result<Self::BNode, Self::Err> {
         loop {
             self.bnode_counter += 1;
-            let bn = u128::try_from(self.bnode_counter).map_err(|_| OxigraphInMemoryError::BlankNodeId {
-                msg: format!("Blank node counter overflow: {}", self.bnode_counter),
-            })?;
-            let bnode = OxBlankNode::new_from_unique_id(bn);
+            // The label starts with a letter because RDF/XML doesn't allow labels that start with a digit
+            let bnode = OxBlankNode::new(format!("bn{}", self.bnode_counter))
+                .map_err(|e| OxigraphInMemoryError::BlankNodeId { msg: e.to_string() })?;
             // A document that was loaded may use the same label
             let used = self.graph.triples_for_subject(&bnode).next().is_some()
                 || self.graph.triples_for_object(&bnode).next().is_some();
-- 
2.43.0


From 9b58ac3fc90b36cd37389757a63c97caa56eaef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:46 +0000
Subject: [PATCH 42/57] fix: shapes graphs are written as RDF that reads back
 as the same shapes

---
 shacl/src/ir/component.rs      | 190 +++++++++++++++++++++++----------
 shacl/src/ir/node_shape.rs     |   8 +-
 shacl/src/ir/property_shape.rs |  46 +++++---
 shacl/src/ir/schema.rs         |  10 ++
 4 files changed, 182 insertions(+), 72 deletions(-)

diff --git a/shacl/src/ir/component.rs b/shacl/src/ir/component.rs
index 8cc2cc9..33cbb4e 100644
--- a/shacl/src/ir/component.rs
+++ b/shacl/src/ir/component.rs
@@ -13,10 +13,10 @@ use crate::ir::{convert_iri_ref, convert_value};
 use crate::types::NodeKind;
 use itertools::Itertools;
 use rudof_iri::IriS;
-use rudof_rdf::rdf_core::BuildRDF;
 use rudof_rdf::rdf_core::term::Object;
 use rudof_rdf::rdf_core::term::literal::ConcreteLiteral;
-use rudof_rdf::rdf_core::vocabs::ShaclVocab;
+use rudof_rdf::rdf_core::vocabs::{RdfVocab, ShaclVocab};
+use rudof_rdf::rdf_core::{BuildRDF, SHACLPath};
 use std::collections::{HashMap, HashSet};
 use std::fmt::{Display, Formatter};
 
@@ -168,10 +168,14 @@ impl IRComponent {
             IRComponent::Datatype(iri) => register_iri(iri.datatype(), ShaclVocab::sh_datatype(), id, graph),
             IRComponent::NodeKind(nk) => {
                 let iri = match nk.node_kind() {
-                    NodeKind::Iri => ShaclVocab::sh_iri_ref(),
-                    _ => unimplemented!(),
+                    NodeKind::Iri => ShaclVocab::sh_iri(),
+                    NodeKind::Lit => ShaclVocab::sh_literal(),
+                    NodeKind::BNode => ShaclVocab::sh_blank_node(),
+                    NodeKind::BNodeOrIri => ShaclVocab::sh_blank_node_or_iri(),
+                    NodeKind::BNodeOrLit => ShaclVocab::sh_blank_node_or_literal(),
+                    NodeKind::IriOrLit => ShaclVocab::sh_iri_or_literal(),
                 };
-                register_iri(iri, ShaclVocab::sh_datatype(), id, graph)
+                register_iri(&iri, ShaclVocab::sh_node_kind(), id, graph)
             },
             IRComponent::MinCount(mc) => {
                 register_integer(mc.min_count() as isize, ShaclVocab::sh_min_count(), id, graph)
@@ -200,34 +204,25 @@ impl IRComponent {
                 register_literal(&ConcreteLiteral::str(p.pattern()), ShaclVocab::sh_pattern(), id, graph)
             },
             IRComponent::UniqueLang(ul) => register_boolean(ul.unique_lang(), ShaclVocab::sh_unique_lang(), id, graph),
-            IRComponent::LanguageIn(li) => li.langs().iter().try_for_each(|l| {
-                register_literal(
-                    &ConcreteLiteral::str(&l.to_string()),
-                    ShaclVocab::sh_language_in(),
-                    id,
-                    graph,
-                )
-            }),
+            IRComponent::LanguageIn(li) => {
+                let langs = li
+                    .langs()
+                    .iter()
+                    .map(|l| {
+                        let literal: RDF::Literal = l.to_string().into();
+                        literal.into()
+                    })
+                    .collect();
+                register_list(langs, ShaclVocab::sh_language_in(), id, graph)
+            },
             IRComponent::Equals(eq) => register_iri(eq.iri(), ShaclVocab::sh_equals(), id, graph),
             IRComponent::Disjoint(d) => register_iri(d.iri(), ShaclVocab::sh_disjoint(), id, graph),
             IRComponent::LessThan(lt) => register_iri(lt.iri(), ShaclVocab::sh_less_than(), id, graph),
             IRComponent::LessThanOrEquals(lte) => {
                 register_iri(lte.iri(), ShaclVocab::sh_less_than_or_equals(), id, graph)
             },
-            IRComponent::Or(or) => {
-                or.shapes().iter().try_for_each(|idx| {
-                    // TODO - Throw error instead of unwrap
-                    let shape = shape_map.get(idx).unwrap();
-                    register_term(&shape.id().clone().into(), ShaclVocab::sh_or(), id, graph)
-                })
-            },
-            IRComponent::And(and) => {
-                and.shapes().iter().try_for_each(|idx| {
-                    // TODO - Throw error instead of unwrap
-                    let shape = shape_map.get(idx).unwrap();
-                    register_term(&shape.id().clone().into(), ShaclVocab::sh_and(), id, graph)
-                })
-            },
+            IRComponent::Or(or) => register_shapes(or.shapes(), ShaclVocab::sh_or(), id, graph, shape_map),
+            IRComponent::And(and) => register_shapes(and.shapes(), ShaclVocab::sh_and(), id, graph, shape_map),
             IRComponent::Not(not) => register_term(
                 // TODO - Throw error instead of unwrap
                 &shape_map.get(not.shape()).unwrap().id().clone().into(),
@@ -235,13 +230,7 @@ impl IRComponent {
                 id,
                 graph,
             ),
-            IRComponent::Xone(xone) => {
-                xone.shapes().iter().try_for_each(|idx| {
-                    // TODO - Throw error instead of unwrap
-                    let shape = shape_map.get(idx).unwrap();
-                    register_term(&shape.id().clone().into(), ShaclVocab::sh_xone(), id, graph)
-                })
-            },
+            IRComponent::Xone(xone) => register_shapes(xone.shapes(), ShaclVocab::sh_xone(), id, graph, shape_map),
             IRComponent::Node(n) => register_term(
                 // TODO - Throw error instead of unwrap
                 &shape_map.get(n.shape()).unwrap().id().clone().into(),
@@ -249,18 +238,12 @@ impl IRComponent {
                 id,
                 graph,
             ),
-            IRComponent::HasValue(hv) => match hv.value() {
-                Object::Iri(iri) => register_iri(iri, ShaclVocab::sh_has_value(), id, graph),
-                Object::Literal(lit) => register_literal(lit, ShaclVocab::sh_has_value(), id, graph),
-                _ => unreachable!(),
+            IRComponent::HasValue(hv) => {
+                register_term(&hv.value().clone().into(), ShaclVocab::sh_has_value(), id, graph)
             },
             IRComponent::In(i) => {
-                // TODO - Review this code
-                i.values().iter().try_for_each(|v| match v {
-                    Object::Iri(iri) => register_iri(iri, ShaclVocab::sh_in(), id, graph),
-                    Object::Literal(lit) => register_literal(lit, ShaclVocab::sh_in(), id, graph),
-                    _ => unreachable!(),
-                })
+                let values = i.values().iter().map(|v| v.clone().into()).collect();
+                register_list(values, ShaclVocab::sh_in(), id, graph)
             },
             IRComponent::QualifiedValueShape(qvs) => {
                 if let Some(value) = qvs.qualified_min_count() {
@@ -288,10 +271,16 @@ impl IRComponent {
             IRComponent::Closed(closed) => {
                 register_boolean(closed.is_closed(), ShaclVocab::sh_closed(), id, graph)?;
 
-                closed
+                if closed.ignored_properties().is_empty() {
+                    return Ok(());
+                }
+                let ignored = closed
                     .ignored_properties()
                     .iter()
-                    .try_for_each(|iri| register_iri(iri, ShaclVocab::sh_ignored_properties(), id, graph))
+                    .sorted()
+                    .map(|iri| iri.clone().into())
+                    .collect();
+                register_list(ignored, ShaclVocab::sh_ignored_properties(), id, graph)
             },
             IRComponent::Deactivated(deactivated) => {
                 // TODO - Adapt for node expression
@@ -299,12 +288,7 @@ impl IRComponent {
             },
             IRComponent::BasicSparql(sparql) => {
                 // Create a blank node to hold the constraint properties
-                let bn = graph
-                    .add_bnode()
-                    .map_err(|e| IRError::from_rdf_err::<RDF>("add_bnode for sh:sparql", e))?;
-                let bn_subj: RDF::Subject = bn.into();
-                let bn_term: RDF::Term = bn_subj.clone().into();
-                let bn_obj = RDF::term_as_object(&bn_term)?;
+                let (bn_term, bn_obj) = new_bnode(graph)?;
 
                 // Register bnode stuff
                 register_literal(
@@ -325,9 +309,24 @@ impl IRComponent {
                 }
 
                 if let Some(prefixes) = sparql.prefixes() {
-                    prefixes
-                        .iter()
-                        .try_for_each(|(_, iri)| register_iri(iri, ShaclVocab::sh_prefixes(), &bn_obj, graph))?;
+                    let (ontology, ontology_obj) = new_bnode(graph)?;
+                    register_term(&ontology, ShaclVocab::sh_prefixes(), &bn_obj, graph)?;
+                    for (prefix, iri) in prefixes.iter() {
+                        let (declaration, declaration_obj) = new_bnode(graph)?;
+                        register_term(&declaration, ShaclVocab::sh_declare(), &ontology_obj, graph)?;
+                        register_literal(
+                            &ConcreteLiteral::str(prefix),
+                            ShaclVocab::sh_prefix(),
+                            &declaration_obj,
+                            graph,
+                        )?;
+                        register_literal(
+                            &ConcreteLiteral::str(iri.as_str()),
+                            ShaclVocab::sh_namespace(),
+                            &declaration_obj,
+                            graph,
+                        )?;
+                    }
                 }
 
                 // Register sh:sparql bnode
@@ -447,7 +446,7 @@ fn register_integer<RDF: BuildRDF>(
     register_term(&literal.into(), predicate, node, graph)
 }
 
-fn register_boolean<RDF: BuildRDF>(
+pub(crate) fn register_boolean<RDF: BuildRDF>(
     value: bool,
     predicate: IriS,
     node: &Object,
@@ -457,13 +456,13 @@ fn register_boolean<RDF: BuildRDF>(
     register_term(&literal.into(), predicate, node, graph)
 }
 
-fn register_literal<RDF: BuildRDF>(
+pub(crate) fn register_literal<RDF: BuildRDF>(
     value: &ConcreteLiteral,
     predicate: IriS,
     node: &Object,
     graph: &mut RDF,
 ) -> Result<(), IRError> {
-    let literal: RDF::Literal = value.lexical_form().into();
+    let literal: RDF::Literal = value.clone().into();
     register_term(&literal.into(), predicate, node, graph)
 }
 
@@ -471,7 +470,7 @@ fn register_iri<RDF: BuildRDF>(value: &IriS, predicate: IriS, node: &Object, gra
     register_term(&value.clone().into(), predicate, node, graph)
 }
 
-fn register_term<RDF: BuildRDF>(
+pub(crate) fn register_term<RDF: BuildRDF>(
     value: &RDF::Term,
     predicate: IriS,
     node: &Object,
@@ -483,6 +482,79 @@ fn register_term<RDF: BuildRDF>(
         .map_err(|e| IRError::from_rdf_err::<RDF>("add triple", e))
 }
 
+/// Adds a blank node to the graph, which is returned both as a term and as an object
+fn new_bnode<RDF: BuildRDF>(graph: &mut RDF) -> Result<(RDF::Term, Object), IRError> {
+    let bnode = graph
+        .add_bnode()
+        .map_err(|e| IRError::from_rdf_err::<RDF>("add blank node", e))?;
+    let term: RDF::Term = bnode.into();
+    let object = RDF::term_as_object(&term)?;
+    Ok((term, object))
+}
+
+/// Adds an RDF list with the given values to the graph
+fn add_list<RDF: BuildRDF>(values: Vec<RDF::Term>, graph: &mut RDF) -> Result<RDF::Term, IRError> {
+    let mut list: RDF::Term = RdfVocab::rdf_nil().into();
+    for value in values.into_iter().rev() {
+        let (cell, cell_obj) = new_bnode(graph)?;
+        register_term(&value, RdfVocab::rdf_first(), &cell_obj, graph)?;
+        register_term(&list, RdfVocab::rdf_rest(), &cell_obj, graph)?;
+        list = cell;
+    }
+    Ok(list)
+}
+
+fn register_list<RDF: BuildRDF>(
+    values: Vec<RDF::Term>,
+    predicate: IriS,
+    node: &Object,
+    graph: &mut RDF,
+) -> Result<(), IRError> {
+    let list = add_list(values, graph)?;
+    register_term(&list, predicate, node, graph)
+}
+
+fn register_shapes<RDF: BuildRDF>(
+    shapes: &[ShapeLabelIdx],
+    predicate: IriS,
+    node: &Object,
+    graph: &mut RDF,
+    shape_map: &HashMap<ShapeLabelIdx, IRShape>,
+) -> Result<(), IRError> {
+    let ids = shapes
+        .iter()
+        .map(|idx| {
+            let shape = shape_map.get(idx).ok_or(IRError::ShapeNotFound(*idx))?;
+            Ok(shape.id().clone().into())
+        })
+        .collect::<Result<Vec<RDF::Term>, IRError>>()?;
+    register_list(ids, predicate, node, graph)
+}
+
+/// Adds the RDF representation of a path to the graph
+pub(crate) fn add_path<RDF: BuildRDF>(path: &SHACLPath, graph: &mut RDF) -> Result<RDF::Term, IRError> {
+    let (predicate, value) = match path {
+        SHACLPath::Predicate { pred } => return Ok(pred.clone().into()),
+        SHACLPath::Sequence { paths } => return add_path_list(paths, graph),
+        SHACLPath::Alternative { paths } => (ShaclVocab::sh_alternative_path(), add_path_list(paths, graph)?),
+        SHACLPath::Inverse { path } => (ShaclVocab::sh_inverse_path(), add_path(path, graph)?),
+        SHACLPath::ZeroOrMore { path } => (ShaclVocab::sh_zero_or_more_path(), add_path(path, graph)?),
+        SHACLPath::OneOrMore { path } => (ShaclVocab::sh_one_or_more_path(), add_path(path, graph)?),
+        SHACLPath::ZeroOrOne { path } => (ShaclVocab::sh_zero_or_one_path(), add_path(path, graph)?),
+    };
+    let (term, object) = new_bnode(graph)?;
+    register_term(&value, predicate, &object, graph)?;
+    Ok(term)
+}
+
+fn add_path_list<RDF: BuildRDF>(paths: &[SHACLPath], graph: &mut RDF) -> Result<RDF::Term, IRError> {
+    let terms = paths
+        .iter()
+        .map(|p| add_path(p, graph))
+        .collect::<Result<Vec<RDF::Term>, IRError>>()?;
+    add_list(terms, graph)
+}
+
 impl From<&IRComponent> for IriS {
     fn from(value: &IRComponent) -> Self {
         match value {
diff --git a/shacl/src/ir/node_shape.rs b/shacl/src/ir/node_shape.rs
index f97cd7c..4f1e992 100644
--- a/shacl/src/ir/node_shape.rs
+++ b/shacl/src/ir/node_shape.rs
@@ -1,5 +1,5 @@
 use crate::ast::{ASTNodeShape, ASTSchema};
-use crate::ir::component::IRComponent;
+use crate::ir::component::{IRComponent, register_literal};
 use crate::ir::dg::{DependencyGraph, PosNeg};
 use crate::ir::error::IRError;
 use crate::ir::schema::IRSchema;
@@ -211,6 +211,12 @@ impl IRNodeShape {
             })?;
         }
 
+        if let Some(message) = &self.message {
+            message
+                .iter_literals()
+                .try_for_each(|lit| register_literal(&lit, ShaclVocab::sh_message(), &self.id, graph))?;
+        }
+
         self.components
             .iter()
             .try_for_each(|c| c.register(&self.id, graph, shapes_map))?;
diff --git a/shacl/src/ir/property_shape.rs b/shacl/src/ir/property_shape.rs
index cbdb641..d8fa5e6 100644
--- a/shacl/src/ir/property_shape.rs
+++ b/shacl/src/ir/property_shape.rs
@@ -1,5 +1,5 @@
 use crate::ast::{ASTPropertyShape, ASTSchema};
-use crate::ir::component::IRComponent;
+use crate::ir::component::{IRComponent, add_path, register_boolean, register_literal, register_term};
 use crate::ir::dg::{DependencyGraph, PosNeg};
 use crate::ir::error::IRError;
 use crate::ir::schema::IRSchema;
@@ -252,12 +252,38 @@ impl IRPropertyShape {
                 .map_err(IRError::add_triple::<RDF>)?;
         }
 
-        if let SHACLPath::Predicate { pred } = &self.path {
-            graph
-                .add_triple(id.clone(), ShaclVocab::sh_path(), pred.clone())
-                .map_err(IRError::add_triple::<RDF>)?;
-        } else {
-            unimplemented!()
+        let path = add_path(&self.path, graph)?;
+        graph
+            .add_triple(id.clone(), ShaclVocab::sh_path(), path)
+            .map_err(IRError::add_triple::<RDF>)?;
+
+        if let Some(message) = &self.message {
+            message
+                .iter_literals()
+                .try_for_each(|lit| register_literal(&lit, ShaclVocab::sh_message(), &self.id, graph))?;
+        }
+
+        self.property_shapes.iter().try_for_each(|idx| {
+            let ps = shapes_map.get(idx).ok_or(IRError::ShapeNotFound(*idx))?;
+            register_term(&ps.id().clone().into(), ShaclVocab::sh_property(), &self.id, graph)
+        })?;
+
+        if let Some(reifier_info) = &self.reifier_info {
+            reifier_info.reifier_shape().iter().try_for_each(|idx| {
+                let shape = shapes_map.get(idx).ok_or(IRError::ShapeNotFound(*idx))?;
+                register_term(
+                    &shape.id().clone().into(),
+                    ShaclVocab::sh_reifier_shape(),
+                    &self.id,
+                    graph,
+                )
+            })?;
+            register_boolean(
+                reifier_info.reification_required(),
+                ShaclVocab::sh_reification_required(),
+                &self.id,
+                graph,
+            )?;
         }
 
         self.components
@@ -270,11 +296,7 @@ impl IRPropertyShape {
             .map_err(|e| IRError::from_rdf_err::<RDF>("add target to graph", e))?;
 
         if self.deactivated {
-            let lit: RDF::Literal = "true".to_string().into();
-
-            graph
-                .add_triple(id.clone(), ShaclVocab::sh_deactivated(), lit)
-                .map_err(IRError::add_triple::<RDF>)?;
+            register_boolean(true, ShaclVocab::sh_deactivated(), &self.id, graph)?;
         }
 
         if let Some(severity) = &self.severity {
diff --git a/shacl/src/ir/schema.rs b/shacl/src/ir/schema.rs
index 8022a38..d685378 100644
--- a/shacl/src/ir/schema.rs
+++ b/shacl/src/ir/schema.rs
@@ -1,5 +1,6 @@
 use crate::ast::{ASTSchema, ASTShape};
 use crate::error::ASTError;
+use crate::ir::component::register_term;
 use crate::ir::dg::{DependencyGraph, PosNeg};
 use crate::ir::error::IRError;
 use crate::ir::shape::IRShape;
@@ -303,6 +304,15 @@ impl IRSchema {
 
         graph.add_base(&self.base().cloned());
 
+        // The shapes go first, so that the blank nodes which identify them are not taken for lists and paths.
+        self.shapes.values().try_for_each(|shape| {
+            let (id, shape_type) = match shape {
+                IRShape::NodeShape(ns) => (ns.id(), ShaclVocab::sh_node_shape()),
+                IRShape::PropertyShape(ps) => (ps.id(), ShaclVocab::sh_property_shape()),
+            };
+            register_term(&shape_type.into(), RdfVocab::rdf_type(), id, &mut graph)
+        })?;
+
         self.labels_idx_map.iter().try_for_each(|(_, idx)| {
             let shape = self.shapes.get(idx).ok_or(IRError::ShapeNotFound(*idx))?;
 
-- 
2.43.0


From a0ea7efdd5a0b336f7484e0c7823be3927356d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:10 +0000
Subject: [PATCH 43/57] fix: sh:closed of property shapes looks at the value
 nodes

---
 .../constraints/core/other/closed.rs          | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/shacl/src/validator/constraints/core/other/closed.rs b/shacl/src/validator/constraints/core/other/closed.rs
index aad1db3..9429b6e 100644
--- a/shacl/src/validator/constraints/core/other/closed.rs
+++ b/shacl/src/validator/constraints/core/other/closed.rs
@@ -38,8 +38,9 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for Closed {
         let component_obj = Object::iri(component.into());
         let mut results = Vec::new();
 
-        for (fnode, _) in value_nodes.iter() {
-            let subject = match S::term_as_subject(fnode) {
+        let pairs = value_nodes.iter().flat_map(|(f, vs)| vs.iter().map(move |v| (f, v)));
+        for (fnode, vnode) in pairs {
+            let subject = match S::term_as_subject(vnode) {
                 Ok(subj) => subj,
                 Err(_) => continue,
             };
@@ -100,14 +101,16 @@ impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for Clos
             format!(" FILTER (?p NOT IN ({iris}))")
         };
 
-        for (fnode, _) in value_nodes.iter() {
+        let pairs = value_nodes.iter().flat_map(|(f, vs)| vs.iter().map(move |v| (f, v)));
+        for (fnode, vnode) in pairs {
             let focus_obj = S::term_as_object(fnode)?;
+            // Literals have no triples
+            let subject = match S::term_as_subject(vnode) {
+                Ok(s) => s,
+                Err(_) => continue,
+            };
 
-            let triples_iter: Box<dyn Iterator<Item = (Object, Option<Object>)>> = if fnode.is_blank_node() {
-                let subject = match S::term_as_subject(fnode) {
-                    Ok(s) => s,
-                    Err(_) => continue,
-                };
+            let triples_iter: Box<dyn Iterator<Item = (Object, Option<Object>)>> = if vnode.is_blank_node() {
                 let triples = store
                     .triples_with_subject(&subject)
                     .map_err(ValidationError::new_graph_error::<S>)?;
@@ -123,7 +126,7 @@ impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for Clos
             } else {
                 let query = formatdoc! {"
                     SELECT ?p ?o WHERE {{ {} ?p ?o .{} }}
-                ", fnode, not_in_clause};
+                ", vnode, not_in_clause};
 
                 let solutions = store
                     .query_select(&query)
-- 
2.43.0


From 9eae3d2b7901f98b482c8eeb5083a1bdb3c2342a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:10 +0000
Subject: [PATCH 44/57] fix: the messages of a shape are those of all its
 results

---
 shacl/src/validator/constraints/mod.rs |  5 +----
 shacl/src/validator/engine/validate.rs | 12 ++++++++++--
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/shacl/src/validator/constraints/mod.rs b/shacl/src/validator/constraints/mod.rs
index a47eb0a..360ddef 100644
--- a/shacl/src/validator/constraints/mod.rs
+++ b/shacl/src/validator/constraints/mod.rs
@@ -266,10 +266,7 @@ fn apply<S: Rdf, I: IterationStrategy<S>>(
             let shape_id = shape.id();
             let source = Some(shape_id);
             let value = strategy.to_object(item);
-            let mut msg = MessageMap::from(msg);
-            if let Some(m) = shape.message() {
-                msg = msg.merge(m.to_owned(), true);
-            }
+            let msg = MessageMap::from(msg);
             if let Ok(condition) = evaluator(item)
                 && condition
             {
diff --git a/shacl/src/validator/engine/validate.rs b/shacl/src/validator/engine/validate.rs
index 61eb045..a0d19f1 100644
--- a/shacl/src/validator/engine/validate.rs
+++ b/shacl/src/validator/engine/validate.rs
@@ -1,5 +1,5 @@
 use crate::error::ValidationError;
-use crate::ir::{IRSchema, IRShape, ReifierInfo};
+use crate::ir::{IRComponent, IRSchema, IRShape, ReifierInfo};
 use crate::types::MessageMap;
 use crate::validator::engine::Engine;
 use crate::validator::engine::focus_nodes_ops::FocusNodesOps;
@@ -90,7 +90,15 @@ impl<RDF: NeighsRDF + Debug> Validate<RDF> for IRShape {
                 self.path(),
                 shapes_graph,
             )?;
-            component_validation_results.extend(results);
+            // The messages of the shape are those of all its results. A SPARQL constraint can have its own.
+            component_validation_results.extend(results.into_iter().map(|r| match self.message() {
+                Some(message)
+                    if r.message().messages().is_empty() || !matches!(component, IRComponent::BasicSparql(_)) =>
+                {
+                    r.with_message(message.clone())
+                },
+                _ => r,
+            }));
         }
 
         // After validating the constraints of the current shape, validate any nested
-- 
2.43.0


From ed685178f4051d26863c68c140cfa5f7273dac4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:10 +0000
Subject: [PATCH 45/57] fix: reports as RDF don't merge their nodes with those
 of the data; results are sorted as asked; table header

---
 .../serialize_shacl_validation_results.rs     |  4 +-
 rudof_lib/src/display/table.rs                | 10 +--
 shacl/src/types/severity.rs                   | 14 +++
 shacl/src/validator/report/mod.rs             | 89 +++++++++++++------
 shacl/src/validator/report/result.rs          | 33 +++++--
 5 files changed, 106 insertions(+), 44 deletions(-)

diff --git a/rudof_lib/src/api/shacl/implementations/serialize_shacl_validation_results.rs b/rudof_lib/src/api/shacl/implementations/serialize_shacl_validation_results.rs
index c7f7de2..f6ebfde 100644
--- a/rudof_lib/src/api/shacl/implementations/serialize_shacl_validation_results.rs
+++ b/rudof_lib/src/api/shacl/implementations/serialize_shacl_validation_results.rs
@@ -16,7 +16,7 @@ pub fn serialize_shacl_validation_results<W: io::Write>(
     result_shacl_validation_format: Option<&ResultShaclValidationFormat>,
     writer: &mut W,
 ) -> Result<()> {
-    let (_shacl_validation_sort_order_mode, result_shacl_validation_format) =
+    let (shacl_validation_sort_order_mode, result_shacl_validation_format) =
         init_defaults(shacl_validation_sort_order_mode, result_shacl_validation_format);
 
     let serialize_shacl_validation_results = rudof
@@ -30,11 +30,13 @@ pub fn serialize_shacl_validation_results<W: io::Write>(
         },
         ResultShaclValidationFormat::Compact => {
             serialize_shacl_validation_results
+                .sorted_by(shacl_validation_sort_order_mode.into())
                 .table(writer, Some(false), Some(true), Some(terminal_width()))
                 .map_err(|e| ShaclError::FailedIoOperation { error: e.to_string() })?;
         },
         ResultShaclValidationFormat::Details => {
             serialize_shacl_validation_results
+                .sorted_by(shacl_validation_sort_order_mode.into())
                 .table(writer, Some(true), Some(true), Some(terminal_width()))
                 .map_err(|e| ShaclError::FailedIoOperation { error: e.to_string() })?;
         },
diff --git a/rudof_lib/src/display/table.rs b/rudof_lib/src/display/table.rs
index 5dd6d60..ec4a826 100644
--- a/rudof_lib/src/display/table.rs
+++ b/rudof_lib/src/display/table.rs
@@ -36,15 +36,7 @@ impl Table for ValidationReport {
         let colored = colored.unwrap_or(false);
 
         let mut builder = Builder::default();
-        let mut header = vec![
-            "Severity",
-            "Node",
-            "Component",
-            "Path",
-            "Value",
-            "Source shape",
-            "Details",
-        ];
+        let mut header = vec!["Severity", "Node", "Component", "Path", "Value", "Source shape"];
         if detailed {
             header.push("Details");
         }
diff --git a/shacl/src/types/severity.rs b/shacl/src/types/severity.rs
index 4405b63..66305b2 100644
--- a/shacl/src/types/severity.rs
+++ b/shacl/src/types/severity.rs
@@ -12,6 +12,20 @@ pub enum Severity {
     Generic(IriS),
 }
 
+impl Severity {
+    /// A string by which severities can be sorted, the most severe ones first
+    pub fn rank(&self) -> String {
+        match self {
+            Severity::Violation => "0".to_string(),
+            Severity::Warning => "1".to_string(),
+            Severity::Info => "2".to_string(),
+            Severity::Debug => "3".to_string(),
+            Severity::Trace => "4".to_string(),
+            Severity::Generic(iri) => format!("5{iri}"),
+        }
+    }
+}
+
 impl From<&IriS> for Severity {
     fn from(value: &IriS) -> Self {
         match value.named_node().as_str() {
diff --git a/shacl/src/validator/report/mod.rs b/shacl/src/validator/report/mod.rs
index 4282186..2048735 100644
--- a/shacl/src/validator/report/mod.rs
+++ b/shacl/src/validator/report/mod.rs
@@ -93,45 +93,80 @@ impl ValidationReport {
     pub fn to_rdf<RDF: BuildRDF + Sized>(&self, writer: &mut RDF) -> Result<(), ValidationError> {
         writer.add_prefix("sh", ShaclVocab::sh_ref());
 
-        let report_node: RDF::Subject = writer
-            .add_bnode()
-            .map_err(error_mapper::<RDF>("Error creating bnode"))?
-            .into();
+        // The nodes that are generated for the report must not be blank nodes that the results mention
+        let mentioned: Vec<RDF::Term> = self
+            .results
+            .iter()
+            .flat_map(|vr| [Some(vr.focus_node()), vr.value(), vr.source()])
+            .flatten()
+            .filter(|o| !matches!(o, Object::Iri(_) | Object::Literal(_)))
+            .map(|o| o.clone().into())
+            .collect();
+
+        let report_node = term_as_subject::<RDF>(fresh_bnode(writer, &mentioned)?)?;
         writer
             .add_type(report_node.clone(), ShaclVocab::sh_validation_report())
             .map_err(error_mapper::<RDF>("Error type ValidationReport to bnode"))?;
 
         let conforms: RDF::IRI = ShaclVocab::sh_conforms().into();
         let result: RDF::IRI = ShaclVocab::sh_result().into();
+        let conforms_term: RDF::Term = Object::boolean(self.conforms()).into();
+        writer
+            .add_triple(report_node.clone(), conforms, conforms_term)
+            .map_err(error_mapper::<RDF>("Error adding conforms to bnode"))?;
 
-        if self.results.is_empty() {
-            let true_term: RDF::Term = Object::boolean(true).into();
+        let mut result_nodes = Vec::new();
+        for vr in self.results.iter() {
+            let result_node_term = fresh_bnode(writer, &mentioned)?;
             writer
-                .add_triple(report_node.clone(), conforms, true_term)
-                .map_err(error_mapper::<RDF>("Error adding conforms to bnode"))?;
-        } else {
-            let false_term: RDF::Term = Object::boolean(false).into();
-            writer
-                .add_triple(report_node.clone(), conforms, false_term)
-                .map_err(error_mapper::<RDF>("Error adding conforms to bnode"))?;
-
-            for vr in self.results.iter() {
-                let result_node = writer
-                    .add_bnode()
-                    .map_err(error_mapper::<RDF>("Error creating bnode"))?;
-                let result_node_term: RDF::Term = result_node.into();
-                writer
-                    .add_triple(report_node.clone(), result.clone(), result_node_term.clone())
-                    .map_err(error_mapper::<RDF>("Error adding result to bnode"))?;
-
-                let result_node_subject: RDF::Subject = RDF::Subject::try_from(result_node_term)
-                    .map_err(|_| ValidationError::CastError("term".to_string(), "subject".to_string()))?;
-                vr.to_rdf(writer, result_node_subject)?;
-            }
+                .add_triple(report_node.clone(), result.clone(), result_node_term.clone())
+                .map_err(error_mapper::<RDF>("Error adding result to bnode"))?;
+
+            let result_node = term_as_subject::<RDF>(result_node_term)?;
+            vr.terms_to_rdf(writer, result_node.clone())?;
+            result_nodes.push(result_node);
+        }
+
+        // The paths come last, when all the blank nodes that the results mention are in the graph
+        for (vr, result_node) in self.results.iter().zip(result_nodes) {
+            vr.result_path_to_rdf(writer, result_node)?;
         }
 
         Ok(())
     }
+
+    /// Sorts the results, so that those with the same value of the given field are together
+    pub fn sorted_by(&self, sorting: ValidationReportSorting) -> Self {
+        let mut results = self.results.clone();
+        let show_shape = |r: &ValidationResult| self.shapes_pm.show(&r.source());
+        results.sort_by_cached_key(|r| match sorting {
+            ValidationReportSorting::Node => self.nodes_pm.show(r.focus_node()),
+            ValidationReportSorting::Severity => r.severity().rank(),
+            ValidationReportSorting::Shape | ValidationReportSorting::Source => show_shape(r),
+            ValidationReportSorting::Component => self.shapes_pm.show(r.constraint_component()),
+            ValidationReportSorting::Path => self.shapes_pm.show(&r.path()),
+            ValidationReportSorting::Value => self.nodes_pm.show(&r.value()),
+            ValidationReportSorting::Details => r.message().to_string(),
+        });
+        self.clone().with_results(results)
+    }
+}
+
+/// Generates a blank node that is none of the given terms
+fn fresh_bnode<RDF: BuildRDF>(writer: &mut RDF, mentioned: &[RDF::Term]) -> Result<RDF::Term, ValidationError> {
+    loop {
+        let node: RDF::Term = writer
+            .add_bnode()
+            .map_err(error_mapper::<RDF>("Error creating bnode"))?
+            .into();
+        if !mentioned.contains(&node) {
+            return Ok(node);
+        }
+    }
+}
+
+fn term_as_subject<RDF: BuildRDF>(term: RDF::Term) -> Result<RDF::Subject, ValidationError> {
+    RDF::Subject::try_from(term).map_err(|_| ValidationError::CastError("term".to_string(), "subject".to_string()))
 }
 
 impl Default for ValidationReport {
diff --git a/shacl/src/validator/report/result.rs b/shacl/src/validator/report/result.rs
index e69defc..1392488 100644
--- a/shacl/src/validator/report/result.rs
+++ b/shacl/src/validator/report/result.rs
@@ -140,6 +140,16 @@ impl ValidationResult {
         &self,
         writer: &mut RDF,
         report_node: RDF::Subject,
+    ) -> Result<(), ValidationError> {
+        self.terms_to_rdf(writer, report_node.clone())?;
+        self.result_path_to_rdf(writer, report_node)
+    }
+
+    /// Writes everything except the path
+    pub(crate) fn terms_to_rdf<RDF: BuildRDF + Sized>(
+        &self,
+        writer: &mut RDF,
+        report_node: RDF::Subject,
     ) -> Result<(), ValidationError> {
         writer
             .add_type(report_node.clone(), ShaclVocab::sh_validation_result())
@@ -179,13 +189,6 @@ impl ValidationResult {
                 .map_err(error_mapper::<RDF>("Error adding source to validation result"))?;
         }
 
-        if let Some(path) = &self.path {
-            let result_path = path_to_rdf(writer, path)?;
-            writer
-                .add_triple(report_node.clone(), ShaclVocab::sh_result_path(), result_path)
-                .map_err(error_mapper::<RDF>("Error adding result path to validation result"))?;
-        }
-
         if let Some(value) = &self.value {
             let term: RDF::Term = value.clone().into();
             writer
@@ -195,6 +198,22 @@ impl ValidationResult {
 
         Ok(())
     }
+
+    /// Writes the path
+    pub(crate) fn result_path_to_rdf<RDF: BuildRDF + Sized>(
+        &self,
+        writer: &mut RDF,
+        report_node: RDF::Subject,
+    ) -> Result<(), ValidationError> {
+        if let Some(path) = &self.path {
+            let result_path = path_to_rdf(writer, path)?;
+            writer
+                .add_triple(report_node, ShaclVocab::sh_result_path(), result_path)
+                .map_err(error_mapper::<RDF>("Error adding result path to validation result"))?;
+        }
+
+        Ok(())
+    }
 }
 
 /// Serializes a SHACL path returning the term that identifies the path.
-- 
2.43.0


From ad74ee67da1dd523c51e2bbec9fc37e0d82221d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:39 +0000
Subject: [PATCH 46/57] fix: shapes that extend others are always judged by
 dividing the arcs among the ancestors

With parents of a single alternative, an ancestor was also checked against all the
arcs that match it (so ancestors that share predicates never conformed), its
disjunctions and negations were dropped, arcs that only a conjunct accepts were
ignored, and EXTRA and CLOSED of conjuncts had no effect. An abstract shape without
descendants fails instead of aborting the validation.
---
 docs/src/internals/feasibility-model.md |   4 +-
 shex_validation/src/engine.rs           | 828 +++---------------------
 2 files changed, 109 insertions(+), 723 deletions(-)

diff --git a/docs/src/internals/feasibility-model.md b/docs/src/internals/feasibility-model.md
index f79496d..cbe3130 100644
--- a/docs/src/internals/feasibility-model.md
+++ b/docs/src/internals/feasibility-model.md
@@ -252,8 +252,8 @@ Ordered so each step lands independently with tests.
    constraint conjuncts through a direct evaluator (`check_node_constraint_expr` — the
    typing-based `check_node_ref` cannot be used because anonymous conjuncts under a
    previously-unreachable OR are never scheduled by the solver), then runs the existing
-   partition/RBE machinery. Parents with single alternatives keep the historical code path
-   byte-identical. Two supporting fixes were required: (a) `ShapeExpr::references` now
+   partition/RBE machinery. Parents with single alternatives are the selection with
+   one choice per parent. Two supporting fixes were required: (a) `ShapeExpr::references` now
    recurses through `Ref` targets (cycle-guarded), so value-reference dependencies behind
    `@<B>` indirections and OR branches (eg `ex:rolls @<RoleCode>` inside `<Item>`) are
    scheduled into the typing that `prove`/`dep` precompute; (b) step 1's dereference.
diff --git a/shex_validation/src/engine.rs b/shex_validation/src/engine.rs
index d941aa6..07d6d40 100644
--- a/shex_validation/src/engine.rs
+++ b/shex_validation/src/engine.rs
@@ -12,7 +12,6 @@ use either::Either;
 use indexmap::IndexSet;
 use itertools::Itertools;
 // use prefixmap::PrefixMap;
-use rbe::MatchCond;
 use rudof_iri::iri;
 use rudof_rdf::rdf_core::{
     NeighsRDF,
@@ -23,7 +22,6 @@ use shex_ast::Expr;
 use shex_ast::Node;
 use shex_ast::Pred;
 use shex_ast::ShapeLabelIdx;
-use shex_ast::ast::cond_kind::CondKind;
 use shex_ast::ir::extend_alternative::ExtendAlternative;
 use shex_ast::ir::external_resolver::{DispatchOutcome, ExternalResolveCtx};
 use shex_ast::ir::preds::Preds;
@@ -355,7 +353,7 @@ impl Engine {
             if schema.is_abstract(idx) {
                 let descendants = schema.descendants(idx);
                 if descendants.is_empty() {
-                    return Err(ValidatorError::AbstractShapeNoDescendants { idx: *idx });
+                    return fail(ValidatorError::AbstractShapeNoDescendants { idx: *idx });
                 }
                 // Each descendant gets its own prove call so it builds a fresh typing
                 // with all the dependencies it actually needs (RESTRICTS semantics).
@@ -685,362 +683,15 @@ impl Engine {
     {
         // trace!("check_node_shape_extends: node={node}, shape={idx}");
 
-        // When some extended parent resolves to several alternatives (it contains a
-        // ShapeOr), validate by trying every selection of one alternative per parent.
-        // Parents with a single alternative keep the historical code path below.
+        // Every extended parent resolves to one or more alternatives (several when it contains
+        // a ShapeOr): validate by trying every selection of one alternative per parent.
         // See docs/src/internals/feasibility-model.md §3-§4.
         let parent_alternatives: Vec<Vec<ExtendAlternative>> =
             shape.extends().iter().map(|e| schema.extend_alternatives(e)).collect();
-        if parent_alternatives.iter().any(|alts| alts.len() > 1) {
-            return self.check_node_shape_extends_selections(
-                idx,
-                node,
-                shape,
-                schema,
-                rdf,
-                typing,
-                &parent_alternatives,
-            );
-        }
-
-        let extra_preds = shape.extra().clone();
-        let candidate_preds = Vec::from_iter(schema.get_preds_extends(idx));
-        /*trace!(
-            "Predicates in this shape with extends: [{}]",
-            candidate_preds.iter().map(|p| p.to_string()).join(", ")
-        );*/
-        let (values, reminder) = self.neighs(node, candidate_preds.clone(), rdf)?;
-
-        if shape.is_closed() && !reminder.is_empty() {
-            /*debug!(
-                "Closed shape {idx} with extends has remainder preds: [{}]",
-                reminder.iter().map(|p| p.to_string()).join(", ")
-            );*/
-            return fail(ValidatorError::ClosedShapeWithRemainderPreds {
-                remainder: Preds::new(reminder),
-                declared: Preds::new(candidate_preds),
-            });
-        }
-        /*if !reminder.is_empty() {
-            debug!(
-                "Shape {idx} has extra preds: [{}] but is not closed",
-                reminder.iter().map(|p| p.to_string()).join(", ")
-            );
-        }*/
-        /*debug!(
-            "Neighs of {node} [{}]",
-            values.iter().map(|(p, v)| format!("{p} {v}")).join(", ")
-        );*/
-        // One bucket per distinct transitive ancestor, each holding only that ancestor's
-        // MAIN triple expression.  The map is keyed by ancestor, so a diamond's shared
-        // ancestor appears exactly once and its constraints are satisfied by a single
-        // allocation of the same triples, never demanded once per inheritance path.
-        // An ancestor's remaining conjuncts (RESTRICTS-style constraints) are not
-        // partition buckets competing for triples: they are validated after a partition
-        // succeeds, against the triples the partition allocated to that ancestor and to
-        // the ancestor's own ancestors (its "split", following jena-shex).
-        let mut triple_exprs: HashMap<Option<ShapeLabelIdx>, Vec<Expr>> = HashMap::new();
-        triple_exprs.insert(None, vec![shape.triple_expr().clone()]);
-        let mut ancestor_constraints: Vec<(ShapeLabelIdx, Vec<ShapeLabelIdx>, Vec<Expr>)> = Vec::new();
-        for a in extends_closure(schema, shape.extends()) {
-            if let Some((ncs, main, rest)) = schema.get_main_shape_constraints(&a) {
-                // The ancestors whose split parts this ancestor's constraints may see:
-                // the transitive extends closure of its main shape.
-                let split_ancestors: Vec<ShapeLabelIdx> = main
-                    .as_ref()
-                    .map(|m| extends_closure(schema, m.extends()))
-                    .unwrap_or_default();
-                if let Some(main_shape) = main {
-                    triple_exprs.insert(Some(a), vec![main_shape.triple_expr().clone()]);
-                }
-                let mut constraint_tes: Vec<Expr> = Vec::new();
-                let mut conjuncts_ok = true;
-                for se in &rest {
-                    conjuncts_ok = conjuncts_ok && collect_constraint_exprs(schema, se, node, &mut constraint_tes);
-                }
-                for nc in &ncs {
-                    let ctx = SemanticActionContext::subject(node);
-                    conjuncts_ok = conjuncts_ok && nc.cond().matches(node, &ctx).is_ok();
-                }
-                if !conjuncts_ok {
-                    return Ok(Either::Left(vec![ValidatorError::ShapeExtendsError {
-                        node: Box::new(node.clone()),
-                        shape: Box::new(shape.clone()),
-                        idx: *idx,
-                        extends: a,
-                        errors: ValidatorErrors::new(vec![ValidatorError::TripleExprRefuted {
-                            node: Box::new(node.clone()),
-                            idx: a,
-                        }]),
-                    }]));
-                }
-                if !constraint_tes.is_empty() {
-                    ancestor_constraints.push((a, split_ancestors, constraint_tes));
-                }
-            }
-        }
-        /*debug!(
-            "Candidate triple exprs of {node}:\n{}",
-            triple_exprs
-                .iter()
-                .map(|(maybe_label, te)| format!(
-                    "   {} -> [{}]",
-                    maybe_label.map(|l| l.to_string()).unwrap_or("_?".to_string()),
-                    te.iter().map(|p| p.show_rbe_simplified()).join("\n")
-                ))
-                .join("\n")
-        );*/
-        let values_ctx_raw: Vec<_> = values
-            .iter()
-            .map(|(p, v)| {
-                (
-                    p.clone(),
-                    v.clone(),
-                    SemanticActionContext::triple(node, p, v).with_registry(schema.semantic_actions_registry_arc()),
-                )
-            })
-            .collect();
-
-        // Collect every triple-expression reachable from the parent shapes through the full
-        // extends / ShapeAnd / ShapeRef hierarchy.  This is needed to distinguish two cases:
-        //   (a) A triple that matches no leaf-bucket condition but IS covered by some transitive
-        //       ancestor's condition.  These are validated by check_node_extends_main_shape
-        //       (exhaustive semantics) and must be excluded from the partition to avoid spurious
-        //       partition failures.
-        //   (b) A triple that matches no leaf-bucket condition and is NOT covered by any ancestor
-        //       either.  These are truly invalid and must remain so the partition correctly fails.
-        let all_ancestor_exprs: Vec<Expr> = {
-            let mut exprs = Vec::new();
-            let mut visited = HashSet::new();
-            for pi in triple_exprs.keys().filter_map(|k| *k) {
-                exprs.extend(collect_all_exprs_for_shape(&pi, schema, &mut visited));
-            }
-            // Include None (the shape's own) bucket exprs as well
-            if let Some(none_exprs) = triple_exprs.get(&None) {
-                exprs.extend(none_exprs.iter().cloned());
-            }
-            exprs
-        };
-
-        let values_ctx: Vec<_> = values_ctx_raw
-            .into_iter()
-            .filter(|(pred, value, ctx)| {
-                // Keep if the triple satisfies at least one leaf-bucket condition
-                // (conservatively: Ref conditions count as matching for M^∈ placement).
-                let matches_leaf = triple_exprs.values().any(|rbes| {
-                    rbes.iter().any(|rbe| {
-                        rbe.components().any(|(_, key, cond)| {
-                            &key == pred && (cond_has_ref(&cond) || cond.matches(value, ctx).is_ok())
-                        })
-                    })
-                });
-                if matches_leaf {
-                    return true;
-                }
-                // EXTRA predicate with no satisfying leaf → goes into M^∉, exclude from partition.
-                if extra_preds.contains(pred) {
-                    return false;
-                }
-                // Triple is not needed by any leaf bucket.
-                // Keep it only if it is also NOT covered by any ancestor (case b: truly invalid).
-                // If it IS covered by an ancestor (case a), exclude it — the exhaustive check
-                // in check_node_extends_main_shape already handles it.
-                let covered_by_ancestor = all_ancestor_exprs.iter().any(|rbe| {
-                    rbe.components()
-                        .any(|(_, key, cond)| &key == pred && cond.matches(value, ctx).is_ok())
-                });
-                !covered_by_ancestor
-            })
-            .collect();
-
-        let mut reasons_parents = Vec::new();
-        tracing::trace!("Checking extends of shape {idx} for node {node}");
-        for e in shape.extends() {
-            tracing::trace!("Checking extends of shape {idx} for node {node} with extends {e}");
-            let result_parents = self.check_node_extends_main_shape(node, e, shape, schema, rdf, typing)?;
-            match result_parents {
-                Either::Left(errors) => {
-                    /*debug!(
-                        "Main shape {idx} or some of its ancestors failed for node {node}\nErrors: {}\nTyping: {}",
-                        errors.iter().map(|err| format!("{err}")).join(", "),
-                        typing.iter().map(|(n, l)| format!("{n}@{l}")).join(", ")
-                    );*/
-                    return Ok(Either::Left(vec![ValidatorError::ShapeExtendsError {
-                        node: Box::new(node.clone()),
-                        shape: Box::new(shape.clone()),
-                        idx: *idx,
-                        extends: *e,
-                        errors: ValidatorErrors::new(errors),
-                    }]));
-                },
-                Either::Right(reasons) => {
-                    /*debug!(
-                        "Main shape {idx} and its ancestors succeeded for node {node}\nReasons: {}\nTyping: {}",
-                        reasons.iter().map(|r| format!("{r}")).join(", "),
-                        typing.iter().map(|(n, l)| format!("{n}@{l}")).join(", ")
-                    );*/
-                    reasons_parents.push(Reason::ShapeExtends {
-                        node: node.clone(),
-                        shape: Box::new(shape.clone()),
-                        reasons: Reasons::new(reasons),
-                    });
-                },
-            }
-        }
-
-        // Feasibility guard: refute in time linear in the expressions when some bucket
-        // cannot be satisfied by any assignment of its candidate triples, instead of
-        // enumerating partitions. Sound: candidate counts over-approximate any share.
-        for rbes in triple_exprs.values() {
-            for rbe in rbes {
-                if !rbe.feasible_neighs(&values_ctx) {
-                    return fail(ValidatorError::TripleExprRefuted {
-                        node: Box::new(node.clone()),
-                        idx: *idx,
-                    });
-                }
-            }
-        }
-
-        let parts_iter = crate::class_partitions_iter(&values_ctx, &triple_exprs);
-        let mut parts_peekable = parts_iter.peekable();
-        if let Some(_parts) = parts_peekable.peek() {
-            // There are some partitions to check, we will check them one by one until we find one that works or we exhaust all of them. We use peekable to avoid computing the first partition twice (once for the debug message and once for the loop). We could also compute the first partition before the loop and then use a regular iterator, but this way we avoid computing any partition if there are no partitions at all.
-            /*debug!(
-                "Some partition found for node {node} and shape {idx}, showing the first one:\n{}",
-                parts
-                    .iter()
-                    .enumerate()
-                    .map(|(npart, partition)| format!(" Part {npart}: {}\n", show_partition(partition)))
-                    .join("\n")
-            );*/
-
-            let mut errors_in_partitions = Vec::new();
-            for (npart, partition) in parts_peekable.enumerate() {
-                let partition_display = create_partitions_display(&partition);
-                //debug!("Partition {npart}: {}", partition_display);
-                let mut ok_partition = true;
-                let mut errors_in_loop = Vec::new();
-                let mut reasons_in_loop = Vec::new();
-                let mut allocated: HashMap<Option<ShapeLabelIdx>, Vec<_>> = HashMap::new();
-                for (maybe_label, rbes, neighs_subset) in partition.iter() {
-                    allocated.insert(*maybe_label, neighs_subset.clone());
-                    let result = check_exprs_neigh(rbes, neighs_subset, node, shape, idx, typing)?;
-                    match result {
-                        Either::Right(reasons) => {
-                            /*debug!(
-                                " Part {npart}| Success component {}: neighs {}",
-                                maybe_label.map(|l| l.to_string()).unwrap_or("[]".to_string()),
-                                neighs_subset.iter().map(|(p, v, _ctx)| format!("{p} {v}")).join(", ")
-                            );*/
-                            reasons_in_loop.push(Reason::PartitionComponent {
-                                maybe_label: *maybe_label,
-                                node: node.clone(),
-                                shape: Box::new(shape.clone()),
-                                idx: *idx,
-                                partition_idx: npart,
-                                partition: partition_display.clone(),
-                                neighs: neighs_subset.iter().map(|(p, v, _ctx)| format!("{p} {v}")).join(", "),
-                                reasons: Reasons::new(reasons),
-                            });
-                        },
-                        Either::Left(errs) => {
-                            errors_in_loop.push(ValidatorError::PartitionComponentFailed {
-                                maybe_label: *maybe_label,
-                                node: Box::new(node.clone()),
-                                shape: Box::new(shape.clone()),
-                                idx: *idx,
-                                partition_idx: npart,
-                                partition: partition_display.clone(),
-                                neighs: neighs_subset.iter().map(|(p, v, _ctx)| format!("{p} {v}")).join(", "),
-                                errors: ValidatorErrors::new(errs),
-                            });
-                            ok_partition = false;
-                            /*debug!(
-                                " Part {npart}| Failed component {}: neighs {}",
-                                maybe_label.map(|l| l.to_string()).unwrap_or("[]".to_string()),
-                                neighs_subset.iter().map(|(p, v, _ctx)| format!("{p} {v}")).join(", ")
-                            );*/
-                            // We could collect errors here to provide more information about why the partition failed, but for now we just
-                            // indicate that the partition failed without going into details about the failure of each triple expr
-                            break;
-                        },
-                    }
-                }
-                if ok_partition {
-                    // The ancestors' constraint conjuncts must hold over each ancestor's
-                    // split: the triples this partition allocated to the ancestor and to
-                    // the ancestor's own transitive ancestors.
-                    'constraints: for (a, split_ancestors, constraint_tes) in &ancestor_constraints {
-                        let mut constraint_neighs = allocated.get(&Some(*a)).cloned().unwrap_or_default();
-                        for b in split_ancestors {
-                            if let Some(more) = allocated.get(&Some(*b)) {
-                                constraint_neighs.extend(more.iter().cloned());
-                            }
-                        }
-                        for te in constraint_tes {
-                            match check_exprs_neigh(
-                                std::slice::from_ref(te),
-                                &constraint_neighs,
-                                node,
-                                shape,
-                                idx,
-                                typing,
-                            )? {
-                                Either::Right(_) => {},
-                                Either::Left(errs) => {
-                                    errors_in_loop.push(ValidatorError::ShapeExtendsError {
-                                        node: Box::new(node.clone()),
-                                        shape: Box::new(shape.clone()),
-                                        idx: *idx,
-                                        extends: *a,
-                                        errors: ValidatorErrors::new(errs),
-                                    });
-                                    ok_partition = false;
-                                    break 'constraints;
-                                },
-                            }
-                        }
-                    }
-                }
-                if ok_partition {
-                    // debug!(" Part {npart}| Partition succeeded",);
-                    return pass(Reason::ShapeExtends {
-                        node: node.clone(),
-                        shape: Box::new(shape.clone()),
-                        reasons: Reasons::new(reasons_in_loop),
-                    });
-                } else {
-                    // debug!(" Part {npart}| Partition failed",);
-                    errors_in_partitions.push(ValidatorError::PartitionFailed {
-                        node: Box::new(node.clone()),
-                        shape: Box::new(shape.clone()),
-                        idx: *idx,
-                        partition: partition_display.clone(),
-                        errors: ValidatorErrors::new(errors_in_loop),
-                    });
-                }
-            }
-            // If we exhaust all partitions, the shape fails
-            // debug!(" Failed shape {idx}. All partitions failed",);
-            fail(ValidatorError::ShapeFailed {
-                node: Box::new(node.clone()),
-                shape: Box::new(shape.clone()),
-                idx: *idx,
-                errors: errors_in_partitions,
-            })
-        } else {
-            debug!("No partitions to check for node {node} and shape {idx}");
-            fail(ValidatorError::ShapeFailedNoPartitions {
-                node: Box::new(node.clone()),
-                shape: Box::new(shape.clone()),
-                idx: *idx,
-            })
-        }
+        self.check_node_shape_extends_selections(idx, node, shape, schema, rdf, typing, &parent_alternatives)
     }
 
-    /// Validates a shape with extends when some extended parent resolves to several
-    /// alternatives: tries every selection of one alternative per parent until one
+    /// Validates a shape with extends: tries every selection of one alternative per parent until one
     /// conforms. See docs/src/internals/feasibility-model.md §3-§4.
     fn check_node_shape_extends_selections<R>(
         &self,
@@ -1140,21 +791,21 @@ impl Engine {
 
         let values_ctx: Vec<_> = values
             .iter()
-            .map(|(p, v)| (p.clone(), v.clone(), SemanticActionContext::triple(node, p, v)))
+            .map(|(p, v)| {
+                (
+                    p.clone(),
+                    v.clone(),
+                    SemanticActionContext::triple(node, p, v).with_registry(schema.semantic_actions_registry_arc()),
+                )
+            })
             .filter(|(pred, value, ctx)| {
-                let matches_leaf = bucket_exprs.values().any(|rbes| {
-                    rbes.iter().any(|rbe| {
-                        rbe.components().any(|(_, key, cond)| {
-                            &key == pred && (cond_has_ref(&cond) || cond.matches(value, ctx).is_ok())
-                        })
-                    })
-                });
-                if matches_leaf {
-                    return true;
-                }
                 // EXTRA predicate with no satisfying leaf goes into M^∉; other non-matching
                 // triples stay so the partition correctly fails (forced assignment).
                 !extra_preds.contains(pred)
+                    || bucket_exprs
+                        .values()
+                        .flatten()
+                        .any(|rbe| matches_any_leaf(rbe, pred, value, ctx, typing))
             })
             .collect();
 
@@ -1172,46 +823,28 @@ impl Engine {
             }
         }
 
-        // The selection's constraint conjuncts.  Those expressible as triple expressions
-        // are validated by split-constraint logic once a partition succeeds (below),
-        // against the union of the triples the partition allocated to the buckets in the
-        // constraint's scope — mirroring check_node_shape_extends.  NodeConstraint
-        // conjuncts involve no triples and are checked against the node right away;
-        // anything else (e.g. a NOT conjunct) keeps the whole-neighbourhood check.
+        // The selection's constraint conjuncts. Those that can be judged over the triples
+        // allocated to the buckets in their scope are validated once a partition succeeds
+        // (below); anything else (e.g. a NOT conjunct) is checked against the whole
+        // neighbourhood.
         let mut reasons = Vec::new();
-        let mut split_constraints: Vec<(ShapeLabelIdx, &[ShapeLabelIdx], Vec<Expr>)> = Vec::new();
+        let mut split_constraints: Vec<(ShapeLabelIdx, &[ShapeLabelIdx])> = Vec::new();
         for c in sigma.constraints() {
-            let mut tes = Vec::new();
-            match try_split_constraint(schema, c.expr(), node, &mut tes) {
-                Some(true) => {
-                    if !tes.is_empty() {
-                        split_constraints.push((*c.expr(), c.scope(), tes));
-                    }
-                },
-                Some(false) => {
+            if is_split_constraint(schema, c.expr(), &mut Vec::new()) {
+                split_constraints.push((*c.expr(), c.scope()));
+                continue;
+            }
+            match self.check_node_constraint_expr(c.expr(), node, schema, rdf, typing)? {
+                Either::Left(errors) => {
                     return Ok(Either::Left(vec![ValidatorError::ShapeExtendsError {
                         node: Box::new(node.clone()),
                         shape: Box::new(shape.clone()),
                         idx: *idx,
                         extends: *c.expr(),
-                        errors: ValidatorErrors::new(vec![ValidatorError::TripleExprRefuted {
-                            node: Box::new(node.clone()),
-                            idx: *c.expr(),
-                        }]),
+                        errors: ValidatorErrors::new(errors),
                     }]));
                 },
-                None => match self.check_node_constraint_expr(c.expr(), node, schema, rdf, typing)? {
-                    Either::Left(errors) => {
-                        return Ok(Either::Left(vec![ValidatorError::ShapeExtendsError {
-                            node: Box::new(node.clone()),
-                            shape: Box::new(shape.clone()),
-                            idx: *idx,
-                            extends: *c.expr(),
-                            errors: ValidatorErrors::new(errors),
-                        }]));
-                    },
-                    Either::Right(rs) => reasons.extend(rs),
-                },
+                Either::Right(rs) => reasons.extend(rs),
             }
         }
 
@@ -1267,29 +900,23 @@ impl Engine {
             if ok_partition {
                 // Split-constraint validation: each constraint sees the union of the
                 // triples this partition allocated to the buckets in its scope.
-                'constraints: for (cidx, scope, tes) in &split_constraints {
-                    let mut constraint_neighs = Vec::new();
+                for (cidx, scope) in &split_constraints {
+                    let mut split = Vec::new();
                     for b in *scope {
                         if let Some(more) = allocated.get(&Some(*b)) {
-                            constraint_neighs.extend(more.iter().cloned());
+                            split.extend(more.iter().cloned());
                         }
                     }
-                    for te in tes {
-                        match check_exprs_neigh(std::slice::from_ref(te), &constraint_neighs, node, shape, idx, typing)?
-                        {
-                            Either::Right(_) => {},
-                            Either::Left(errs) => {
-                                errors_in_loop.push(ValidatorError::ShapeExtendsError {
-                                    node: Box::new(node.clone()),
-                                    shape: Box::new(shape.clone()),
-                                    idx: *idx,
-                                    extends: *cidx,
-                                    errors: ValidatorErrors::new(errs),
-                                });
-                                ok_partition = false;
-                                break 'constraints;
-                            },
-                        }
+                    if let Either::Left(errs) = check_split_constraint(schema, cidx, node, &split, typing)? {
+                        errors_in_loop.push(ValidatorError::ShapeExtendsError {
+                            node: Box::new(node.clone()),
+                            shape: Box::new(shape.clone()),
+                            idx: *idx,
+                            extends: *cidx,
+                            errors: ValidatorErrors::new(errs),
+                        });
+                        ok_partition = false;
+                        break;
                     }
                 }
             }
@@ -1381,191 +1008,6 @@ impl Engine {
         }
     }
 
-    fn check_node_extends_main_shape<R>(
-        &self,
-        node: &Node,
-        idx: &ShapeLabelIdx,
-        shape: &Shape,
-        schema: &SchemaIR,
-        rdf: &R,
-        typing: &mut RefTyping,
-    ) -> Result<ValidationResult>
-    where
-        R: QueryRDF + NeighsRDF,
-    {
-        tracing::debug!("Checking node {node} against main shape {idx}, shape: {shape}");
-        if let Some((ncs, maybe_main_shape, rest_exprs)) = schema.get_main_shape_constraints(idx) {
-            tracing::debug!(
-                "Main shape {idx} has node constraints: [{}], main shape: {}, rest exprs: [{}]",
-                ncs.iter().map(|nc| nc.to_string()).join(", "),
-                maybe_main_shape
-                    .clone()
-                    .map(|ms| ms.to_string())
-                    .unwrap_or("None".to_string()),
-                rest_exprs.iter().map(|e| e.to_string()).join(", ")
-            );
-            let mut errors = Vec::new();
-            let mut reasons = Vec::new();
-
-            if let Some(main_shape) = maybe_main_shape {
-                // For shapes with their own triple expression alongside extends (e.g.,
-                // EXTENDS @<Parent> { <p> [4] }), validate the triple expression using
-                // exhaustive semantics: pre-filter triples to those matching any component's
-                // value condition, then check cardinality. This handles open shapes correctly
-                // since extra values that don't match any constraint are simply ignored.
-                // Skip this check for shapes with shape-reference value conditions (MatchCond::Ref),
-                // which require the partition algorithm to correctly distribute triples.
-                let main_preds = main_shape.preds();
-                let no_shape_refs = main_shape
-                    .triple_expr()
-                    .components()
-                    .all(|(_, _, cond)| !cond_has_ref(&cond));
-                // Skip this shortcut when the ancestor's predicates overlap with the child
-                // shape's own declared predicates. In that case a single triple can satisfy
-                // both the ancestor's condition (e.g. a datatype constraint) and the child's
-                // own, more specific condition (e.g. a value set), and how many triples go to
-                // each side is exactly the counting problem the partition algorithm in
-                // check_node_shape_extends solves; this exhaustive pre-filter cannot (it can
-                // only keep-or-exclude a triple wholesale, not split a run of them between
-                // the two buckets in the right proportions).
-                let overlaps_child_preds = shape.preds().iter().any(|p| main_preds.contains(p));
-                if !main_preds.is_empty() && no_shape_refs && !overlaps_child_preds {
-                    let (all_values, _) = self.neighs(node, main_preds, rdf)?;
-                    let all_values_ctx: Vec<_> = all_values
-                        .iter()
-                        .map(|(p, v)| {
-                            (
-                                p.clone(),
-                                v.clone(),
-                                SemanticActionContext::triple(node, p, v)
-                                    .with_registry(schema.semantic_actions_registry_arc()),
-                            )
-                        })
-                        .collect();
-                    // Keep only triples where the value satisfies some component's condition
-                    let filtered: Vec<_> = all_values_ctx
-                        .iter()
-                        .filter(|(pred, value, ctx)| {
-                            main_shape
-                                .triple_expr()
-                                .components()
-                                .any(|(_, key, cond)| &key == pred && cond.matches(value, ctx).is_ok())
-                        })
-                        .cloned()
-                        .collect();
-                    match check_expr_neigh(main_shape.triple_expr(), &filtered, node, shape, idx, typing)? {
-                        Either::Left(errs) => {
-                            errors.push(ValidatorError::ParentShapeMainShapeFailed {
-                                node: Box::new(node.clone()),
-                                shape: Box::new(main_shape.clone()),
-                                idx: *idx,
-                                errors: ValidatorErrors::new(errs),
-                            });
-                        },
-                        Either::Right(rs) => {
-                            reasons.push(Reason::ParentShapeMainShapePassed {
-                                node: node.clone(),
-                                shape: Box::new(main_shape.clone()),
-                                idx: *idx,
-                                reasons: Reasons::new(rs),
-                            });
-                        },
-                    }
-                }
-                // Recursively check node constraints and triple expressions through the
-                // ancestor extends chain.
-                for e in main_shape.extends() {
-                    match self.check_node_extends_main_shape(node, e, &main_shape, schema, rdf, typing)? {
-                        Either::Left(errs) => {
-                            errors.push(ValidatorError::ParentShapeMainShapeFailed {
-                                node: Box::new(node.clone()),
-                                shape: Box::new(main_shape.clone()),
-                                idx: *idx,
-                                errors: ValidatorErrors::new(errs),
-                            });
-                        },
-                        Either::Right(rs) => {
-                            reasons.push(Reason::ParentShapeMainShapePassed {
-                                node: node.clone(),
-                                shape: Box::new(main_shape.clone()),
-                                idx: *idx,
-                                reasons: Reasons::new(rs),
-                            });
-                        },
-                    }
-                }
-            }
-            // We also validate the node constraints of the main shape
-            for nc in ncs {
-                match nc.cond().matches(
-                    node,
-                    &SemanticActionContext::subject(node).with_registry(schema.semantic_actions_registry_arc()),
-                ) {
-                    Ok(_pending) => {
-                        reasons.push(Reason::ParentShapeNodeConstraint {
-                            node: node.clone(),
-                            idx: *idx,
-                            nc: nc.clone(),
-                        });
-                    },
-                    Err(error) => {
-                        errors.push(ValidatorError::ParentShapeNodeConstraintFailed {
-                            node: Box::new(node.clone()),
-                            idx: *idx,
-                            nc: Box::new(nc.clone()),
-                            error: error.to_string(),
-                        });
-                    },
-                }
-            }
-            // Validate NodeConstraints from ShapeRef AND-components (e.g. @<C> in a ShapeAnd).
-            // Triple constraints in the referenced shape are already included in the partition's
-            // triple_exprs (via get_triple_exprs → Ref.get_triple_exprs), so only the
-            // NodeConstraint parts need to be checked here.
-            for rest_se in &rest_exprs {
-                if let ShapeExpr::Ref { idx: ref_idx } = rest_se
-                    && let Some((ref_ncs, _, _)) = schema.get_main_shape_constraints(ref_idx)
-                {
-                    for nc in ref_ncs {
-                        match nc.cond().matches(
-                            node,
-                            &SemanticActionContext::subject(node).with_registry(schema.semantic_actions_registry_arc()),
-                        ) {
-                            Ok(_) => {},
-                            Err(error) => {
-                                errors.push(ValidatorError::ParentShapeNodeConstraintFailed {
-                                    node: Box::new(node.clone()),
-                                    idx: *ref_idx,
-                                    nc: Box::new(nc.clone()),
-                                    error: error.to_string(),
-                                });
-                            },
-                        }
-                    }
-                }
-            }
-            if errors.is_empty() {
-                pass(Reason::ParentShapePassed {
-                    node: node.clone(),
-                    idx: *idx,
-                    reasons: Reasons::new(reasons),
-                })
-            } else {
-                fail(ValidatorError::ParentShapeFailed {
-                    node: Box::new(node.clone()),
-                    idx: *idx,
-                    errors: ValidatorErrors::new(errors),
-                })
-            }
-        } else {
-            tracing::error!("No info for shape {idx}. This is non-extendable");
-            fail(ValidatorError::ShapeExtendsNoMainShape {
-                idx: *idx,
-                node: Box::new(node.clone()),
-            })
-        }
-    }
-
     fn cnv_iri<S>(&self, iri: S::IRI) -> Pred
     where
         S: NeighsRDF,
@@ -1684,131 +1126,86 @@ impl Engine {
     }
 }
 
-/// Recursively collects every `Expr` (triple-expression RbeTable) reachable from `idx` by
-/// traversing ShapeAnd components, ShapeRef references, and extends chains.  This gives the
-/// complete set of conditions declared anywhere in the shape hierarchy rooted at `idx`, which
-/// is used to decide whether a particular triple is "covered" by the extends chain (and thus
-/// handled by check_node_extends_main_shape's exhaustive semantics) or truly undeclared.
-fn collect_all_exprs_for_shape(
-    idx: &ShapeLabelIdx,
-    schema: &SchemaIR,
-    visited: &mut HashSet<ShapeLabelIdx>,
-) -> Vec<Expr> {
-    if !visited.insert(*idx) {
-        return vec![];
-    }
-    if let Some(info) = schema.find_shape_idx(idx) {
-        match info.expr() {
-            ShapeExpr::Shape(shape) => {
-                let mut exprs = vec![shape.triple_expr().clone()];
-                for e in shape.extends() {
-                    exprs.extend(collect_all_exprs_for_shape(e, schema, visited));
-                }
-                exprs
-            },
-            ShapeExpr::ShapeAnd { exprs } => exprs
-                .iter()
-                .flat_map(|e| collect_all_exprs_for_shape(e, schema, visited))
-                .collect(),
-            ShapeExpr::Ref { idx: ref_idx } => collect_all_exprs_for_shape(ref_idx, schema, visited),
-            ShapeExpr::NodeConstraint(_) | ShapeExpr::Empty | ShapeExpr::External {} => vec![],
-            _ => vec![],
-        }
-    } else {
-        vec![]
+/// Whether a selection constraint is validated against its split: a Shape without extends, a
+/// NodeConstraint (which involves no triples), or conjunctions and disjunctions of such. Other
+/// constraints (e.g. a negation or a shape with its own extends) are checked against the whole
+/// neighbourhood.
+fn is_split_constraint(schema: &SchemaIR, cidx: &ShapeLabelIdx, visited: &mut Vec<ShapeLabelIdx>) -> bool {
+    if visited.contains(cidx) {
+        return false;
     }
+    visited.push(*cidx);
+    let result = match schema.find_shape_idx(cidx).map(|info| info.expr()) {
+        Some(ShapeExpr::Shape(s)) => s.extends().is_empty(),
+        Some(ShapeExpr::NodeConstraint(_)) => true,
+        Some(ShapeExpr::Ref { idx }) => is_split_constraint(schema, idx, visited),
+        Some(ShapeExpr::ShapeAnd { exprs }) | Some(ShapeExpr::ShapeOr { exprs }) => {
+            exprs.iter().all(|e| is_split_constraint(schema, e, visited))
+        },
+        _ => false,
+    };
+    visited.pop();
+    result
 }
 
-/// Classify a selection constraint for split-constraint validation.  Returns
-/// `Some(true)` with the constraint's triple expressions pushed onto `out` when the
-/// (dereferenced) expression is expressible as triple expressions over its split scope
-/// — a Shape without extends, a NodeConstraint (checked against the node immediately),
-/// or a conjunction of such.  `Some(false)` reports a NodeConstraint the node fails.
-/// `None` means the constraint is not split-validatable (e.g. a negation or a shape
-/// with its own extends) and must keep the whole-neighbourhood check.
-fn try_split_constraint(schema: &SchemaIR, cidx: &ShapeLabelIdx, node: &Node, out: &mut Vec<Expr>) -> Option<bool> {
+/// Validates a split constraint (see [`is_split_constraint`]) against the triples allocated to
+/// the buckets in its scope.
+fn check_split_constraint(
+    schema: &SchemaIR,
+    cidx: &ShapeLabelIdx,
+    node: &Node,
+    split: &[(Pred, Node, SemanticActionContext)],
+    typing: &RefTyping,
+) -> Result<ValidationResult> {
     match schema.find_shape_idx(cidx).map(|info| info.expr()) {
-        Some(ShapeExpr::Shape(s)) if s.extends().is_empty() => {
-            out.push(s.triple_expr().clone());
-            Some(true)
+        Some(ShapeExpr::Shape(s)) => {
+            let preds = s.preds();
+            let (values, remainder): (Vec<_>, Vec<_>) = split.iter().cloned().partition(|(p, _, _)| preds.contains(p));
+            if s.is_closed() && !remainder.is_empty() {
+                return fail(ValidatorError::ClosedShapeWithRemainderPreds {
+                    remainder: Preds::new(remainder.into_iter().map(|(p, _, _)| p).collect()),
+                    declared: Preds::new(preds),
+                });
+            }
+            let values = values
+                .into_iter()
+                .filter(|(p, v, ctx)| !s.extra().contains(p) || matches_any_leaf(s.triple_expr(), p, v, ctx, typing))
+                .collect::<Vec<_>>();
+            check_expr_neigh(s.triple_expr(), &values, node, s, cidx, typing)
         },
         Some(ShapeExpr::NodeConstraint(nc)) => {
-            let ctx = SemanticActionContext::subject(node);
-            Some(nc.cond().matches(node, &ctx).is_ok())
+            let ctx = SemanticActionContext::subject(node).with_registry(schema.semantic_actions_registry_arc());
+            match nc.cond().matches(node, &ctx) {
+                Ok(_pending) => pass(Reason::NodeConstraint {
+                    node: node.clone(),
+                    nc: (**nc).clone(),
+                }),
+                Err(err) => fail(ValidatorError::RbeError(err)),
+            }
         },
-        Some(ShapeExpr::Ref { idx }) => try_split_constraint(schema, idx, node, out),
+        Some(ShapeExpr::Ref { idx }) => check_split_constraint(schema, idx, node, split, typing),
         Some(ShapeExpr::ShapeAnd { exprs }) => {
-            let mark = out.len();
+            let mut reasons = Vec::new();
             for e in exprs {
-                match try_split_constraint(schema, e, node, out) {
-                    Some(true) => {},
-                    Some(false) => return Some(false),
-                    None => {
-                        out.truncate(mark);
-                        return None;
-                    },
+                match check_split_constraint(schema, e, node, split, typing)? {
+                    Either::Left(errors) => return Ok(Either::Left(errors)),
+                    Either::Right(rs) => reasons.extend(rs),
                 }
             }
-            Some(true)
-        },
-        _ => None,
-    }
-}
-
-/// Collect the triple expressions contributed by an ancestor's constraint conjunct:
-/// Shapes contribute their triple expression, references are dereferenced (recursing
-/// into conjunctions), and NodeConstraints are checked against the node immediately —
-/// a failing one makes the whole collection report false.
-fn collect_constraint_exprs(schema: &SchemaIR, se: &ShapeExpr, node: &Node, out: &mut Vec<Expr>) -> bool {
-    match se {
-        ShapeExpr::Shape(s) => {
-            out.push(s.triple_expr().clone());
-            true
-        },
-        ShapeExpr::NodeConstraint(nc) => {
-            let ctx = SemanticActionContext::subject(node);
-            nc.cond().matches(node, &ctx).is_ok()
-        },
-        ShapeExpr::Ref { idx } => match schema.get_main_shape_constraints(idx) {
-            Some((ncs, main, rest)) => {
-                for nc in &ncs {
-                    let ctx = SemanticActionContext::subject(node);
-                    if nc.cond().matches(node, &ctx).is_err() {
-                        return false;
-                    }
-                }
-                if let Some(m) = main {
-                    out.push(m.triple_expr().clone());
-                }
-                rest.iter().all(|r| collect_constraint_exprs(schema, r, node, out))
-            },
-            None => true,
+            Ok(Either::Right(reasons))
         },
-        _ => true,
-    }
-}
-
-/// The transitive EXTENDS closure of `roots`, deduplicated (a diamond's shared ancestor
-/// appears once) and traversed through ShapeAnd declarations via their main conjunct —
-/// the schema's inheritance graph records no edges for ShapeAnd declarations, so
-/// SchemaIR::parents stops at them.
-fn extends_closure(schema: &SchemaIR, roots: &[ShapeLabelIdx]) -> Vec<ShapeLabelIdx> {
-    let mut result: Vec<ShapeLabelIdx> = Vec::new();
-    let mut queue: Vec<ShapeLabelIdx> = roots.to_vec();
-    while let Some(a) = queue.pop() {
-        if result.contains(&a) {
-            continue;
-        }
-        result.push(a);
-        if let Some((_ncs, Some(main), _rest)) = schema.get_main_shape_constraints(&a) {
-            for e in main.extends() {
-                if !result.contains(e) {
-                    queue.push(*e);
+        Some(ShapeExpr::ShapeOr { exprs }) => {
+            let mut errors = Vec::new();
+            for e in exprs {
+                match check_split_constraint(schema, e, node, split, typing)? {
+                    Either::Right(reasons) => return Ok(Either::Right(reasons)),
+                    Either::Left(errs) => errors.extend(errs),
                 }
             }
-        }
+            Ok(Either::Left(errors))
+        },
+        _ => pass(Reason::Empty { node: node.clone() }),
     }
-    result
 }
 
 fn pass(reason: Reason) -> Result<ValidationResult> {
@@ -2072,17 +1469,6 @@ fn check_start_acts(start_acts: &[SemAct], _node: &Node, _idx: &ShapeLabelIdx, s
     Ok(true)
 }
 
-/// Returns true if a MatchCond contains a shape reference (MatchCond::Ref),
-/// which means the condition delegates to a shape's typing check rather than
-/// directly verifying a value set.
-fn cond_has_ref(cond: &MatchCond<Pred, Node, ShapeLabelIdx, SemanticActionContext, CondKind>) -> bool {
-    match cond {
-        MatchCond::Ref(_) => true,
-        MatchCond::And(vs) => vs.iter().any(cond_has_ref),
-        MatchCond::Single(_) => false,
-    }
-}
-
 /// Returns true if `(pred, value)` satisfies at least one leaf condition in `expr`.
 ///
 /// The shape references of a leaf hold when `typing` has proved them.
-- 
2.43.0


From 31ad88047c0695f38ec7784446c760396870bd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:39 +0000
Subject: [PATCH 47/57] fix: a conjunct doesn't stand for its conjunction among
 the descendants of a shape

---
 shex_ast/src/ir/schema_ir.rs | 50 +++++++++++++++++++++++++++++++-----
 1 file changed, 43 insertions(+), 7 deletions(-)

diff --git a/shex_ast/src/ir/schema_ir.rs b/shex_ast/src/ir/schema_ir.rs
index a2dded1..4f8957c 100644
--- a/shex_ast/src/ir/schema_ir.rs
+++ b/shex_ast/src/ir/schema_ir.rs
@@ -576,19 +576,55 @@ impl SchemaIR {
 
     pub(crate) fn build_inheritance_graph(&mut self) {
         let mut inheritance_graph = InheritanceGraph::new();
-        for (idx, info) in self.shapes.iter() {
+        // A conjunct (or a negated expression) doesn't stand for the expression it is part of:
+        // what extends a shape is the conjunction as a whole.
+        let mut parts = HashSet::new();
+        for info in self.shapes.values() {
             match info.expr() {
-                ShapeExpr::Shape(shape) => {
-                    for e in shape.extends() {
-                        inheritance_graph.add_edge(*idx, *e);
-                    }
-                },
-                _ => continue,
+                ShapeExpr::ShapeAnd { exprs } => exprs.iter().for_each(|e| self.collect_parts(e, &mut parts)),
+                ShapeExpr::ShapeNot { expr } => self.collect_parts(expr, &mut parts),
+                _ => {},
+            }
+        }
+        for idx in self.shapes.keys().filter(|idx| !parts.contains(idx)) {
+            for e in self.extended_by(idx) {
+                inheritance_graph.add_edge(*idx, e);
             }
         }
         self.inheritance_graph = inheritance_graph
     }
 
+    /// Collects the anonymous shape expressions at `idx` and inside it.
+    fn collect_parts(&self, idx: &ShapeLabelIdx, parts: &mut HashSet<ShapeLabelIdx>) {
+        if self.labels_idx_map.values().any(|i| i == idx) || !parts.insert(*idx) {
+            return;
+        }
+        match self.find_shape_idx(idx).map(|info| info.expr()) {
+            Some(ShapeExpr::ShapeAnd { exprs }) | Some(ShapeExpr::ShapeOr { exprs }) => {
+                exprs.iter().for_each(|e| self.collect_parts(e, parts))
+            },
+            Some(ShapeExpr::ShapeNot { expr }) => self.collect_parts(expr, parts),
+            _ => {},
+        }
+    }
+
+    /// The shapes that the shape expression at `idx` extends: those of the shape, or of the main
+    /// shape of a conjunction.
+    fn extended_by(&self, idx: &ShapeLabelIdx) -> Vec<ShapeLabelIdx> {
+        match self.find_shape_idx(idx).map(|info| info.expr()) {
+            Some(ShapeExpr::Shape(shape)) => shape.extends().clone(),
+            Some(ShapeExpr::ShapeAnd { exprs }) => exprs
+                .iter()
+                .find_map(|e| match self.find_shape_idx(e).map(|info| info.expr()) {
+                    Some(ShapeExpr::Shape(shape)) => Some(shape.extends().clone()),
+                    Some(ShapeExpr::ShapeAnd { .. }) => Some(self.extended_by(e)),
+                    _ => None,
+                })
+                .unwrap_or_default(),
+            _ => Vec::new(),
+        }
+    }
+
     pub fn dependencies(&self) -> Vec<(ShapeLabel, PosNeg, ShapeLabel)> {
         let mut deps = Vec::new();
         for (source, posneg, target) in self.dependency_graph().all_edges() {
-- 
2.43.0


From 6d71d54449161217d2bdab271d707f8574a1b074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:19 +0000
Subject: [PATCH 48/57] fix: parts of property graph schemas were ignored: the
 types after the second one, the properties of types without labels

---
 pgschema/src/parser/pgs_builder.rs | 33 ++++++++++++++++--------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/pgschema/src/parser/pgs_builder.rs b/pgschema/src/parser/pgs_builder.rs
index fc5983f..445894f 100644
--- a/pgschema/src/parser/pgs_builder.rs
+++ b/pgschema/src/parser/pgs_builder.rs
@@ -74,19 +74,18 @@ fn get_create_types(create_types: Vec<CreateType>, schema: &mut PropertyGraphSch
 }
 
 fn get_label_property_spec(label_property_spec: LabelPropertySpec) -> Result<PGLabelPropertySpec, PgsError> {
-    if let Some(label_spec) = label_property_spec.label_spec_opt {
-        let label_spec = get_labels(label_spec)?;
-        if let Some(property_spec) = label_property_spec.property_spec_opt {
-            let property_value_spec = get_property_value_spec(property_spec)?;
-            Ok(PGLabelPropertySpec::content(
-                label_spec,
-                PGPropertyValueSpec::closed(property_value_spec),
-            ))
-        } else {
-            Ok(label_spec)
-        }
+    let label_spec = match label_property_spec.label_spec_opt {
+        Some(label_spec) => get_labels(label_spec)?,
+        None => PGLabelPropertySpec::new(),
+    };
+    if let Some(property_spec) = label_property_spec.property_spec_opt {
+        let property_value_spec = get_property_value_spec(property_spec)?;
+        Ok(PGLabelPropertySpec::content(
+            label_spec,
+            PGPropertyValueSpec::closed(property_value_spec),
+        ))
     } else {
-        Ok(PGLabelPropertySpec::new())
+        Ok(label_spec)
     }
 }
 
@@ -220,15 +219,19 @@ fn get_type_spec(type_spec: TypeSpec) -> Result<PGTypeSpec, PgsError> {
 }
 
 fn get_more_types(more_types: MoreTypes, current: PGTypeSpec) -> Result<PGTypeSpec, PgsError> {
-    match more_types {
+    let (combined, more_types_opt) = match more_types {
         MoreTypes::UnionType(union_type) => {
             let right = get_simple_type(union_type.simple_type)?;
-            Ok(PGTypeSpec::union(current, right))
+            (PGTypeSpec::union(current, right), union_type.more_types_opt)
         },
         MoreTypes::IntersectionType(intersection_type) => {
             let right = get_simple_type(intersection_type.simple_type)?;
-            Ok(PGTypeSpec::intersection(current, right))
+            (PGTypeSpec::intersection(current, right), intersection_type.more_types_opt)
         },
+    };
+    match *more_types_opt {
+        Some(more_types) => get_more_types(more_types, combined),
+        None => Ok(combined),
     }
 }
 
-- 
2.43.0


From 0f1276636c4abc12321b1a77cd1b75afc8ee493e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:19 +0000
Subject: [PATCH 49/57] fix: node types defined in terms of themselves are an
 error instead of overflowing the stack

---
 pgschema/src/pgs.rs       | 41 ++++++++++++++++++++++++++++++++++++++-
 pgschema/src/pgs_error.rs |  3 +++
 2 files changed, 43 insertions(+), 1 deletion(-)

diff --git a/pgschema/src/pgs.rs b/pgschema/src/pgs.rs
index 5d2733b..b0288be 100644
--- a/pgschema/src/pgs.rs
+++ b/pgschema/src/pgs.rs
@@ -4,7 +4,10 @@ use crate::{
     pgs_error::PgsError, type_name::TypeName,
 };
 use either::Either;
-use std::{collections::HashMap, fmt::Display};
+use std::{
+    collections::{HashMap, HashSet},
+    fmt::Display,
+};
 
 /// Simple representation of a property graph
 #[derive(Debug, Clone)]
@@ -46,6 +49,42 @@ impl PropertyGraphSchema {
     }
 
     pub fn get_node_semantics(&self, type_name: &str) -> Result<&LabelPropertySpec, PgsError> {
+        let spec = self.get_node_spec(type_name)?;
+        self.check_acyclic(spec, &mut Vec::new(), &mut HashSet::new())?;
+        Ok(spec)
+    }
+
+    // `refs` are the names of the types that are being defined by this expression, and `checked` the ones already checked
+    fn check_acyclic<'a>(
+        &'a self,
+        spec: &'a LabelPropertySpec,
+        refs: &mut Vec<&'a str>,
+        checked: &mut HashSet<&'a str>,
+    ) -> Result<(), PgsError> {
+        match spec {
+            LabelPropertySpec::Empty | LabelPropertySpec::Label(_) => Ok(()),
+            LabelPropertySpec::Ref(type_name) => {
+                if refs.contains(&type_name.as_str()) {
+                    return Err(PgsError::CyclicType(type_name.clone()));
+                }
+                if checked.insert(type_name) {
+                    refs.push(type_name);
+                    self.check_acyclic(self.get_node_spec(type_name)?, refs, checked)?;
+                    refs.pop();
+                }
+                Ok(())
+            },
+            LabelPropertySpec::Optional(inner)
+            | LabelPropertySpec::Open(inner)
+            | LabelPropertySpec::Content(inner, _) => self.check_acyclic(inner, refs, checked),
+            LabelPropertySpec::And(left, right) | LabelPropertySpec::Or(left, right) => {
+                self.check_acyclic(left, refs, checked)?;
+                self.check_acyclic(right, refs, checked)
+            },
+        }
+    }
+
+    fn get_node_spec(&self, type_name: &str) -> Result<&LabelPropertySpec, PgsError> {
         let node_id = self.node_names.get(type_name).ok_or(PgsError::MissingNodeLabel {
             label: type_name.to_string(),
         })?;
diff --git a/pgschema/src/pgs_error.rs b/pgschema/src/pgs_error.rs
index 50263a9..a68bccb 100644
--- a/pgschema/src/pgs_error.rs
+++ b/pgschema/src/pgs_error.rs
@@ -24,6 +24,9 @@ pub enum PgsError {
     #[error("Not found type: {0}")]
     MissingType(TypeName),
 
+    #[error("Type {0} is defined in terms of itself")]
+    CyclicType(TypeName),
+
     #[error("Invalid regex pattern /{pattern}/: {error}")]
     InvalidRegex { pattern: String, error: String },
 
-- 
2.43.0


From 3c247a729322dcce371257bdc1d7dd631323ad71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:19 +0000
Subject: [PATCH 50/57] fix: the alternatives of a property graph type keep the
 content that goes with their labels

---
 pgschema/src/formal_base_type.rs | 211 +++++++++++--------------------
 1 file changed, 73 insertions(+), 138 deletions(-)

diff --git a/pgschema/src/formal_base_type.rs b/pgschema/src/formal_base_type.rs
index 3f0ae5c..0c72a37 100644
--- a/pgschema/src/formal_base_type.rs
+++ b/pgschema/src/formal_base_type.rs
@@ -7,13 +7,14 @@ use crate::{
     type_name::{LabelName, Name},
 };
 use either::Either;
+use itertools::Itertools;
 use std::{collections::HashSet, fmt::Display};
 
 #[derive(Debug, Clone, PartialEq, Eq)]
 pub struct FormalBaseType {
-    labels: HashSet<LabelSet>, // Set of label sets, where each set represents a combination of labels that can be present
+    // Each pair is a combination of labels together with the content that goes with it
+    types: HashSet<(LabelSet, RecordType)>,
     open_labels: bool,
-    content: HashSet<RecordType>, // Define the structure of FormalBaseType as needed
 }
 
 impl Default for FormalBaseType {
@@ -26,9 +27,8 @@ impl FormalBaseType {
     /// Creates a new FormalBaseType with no labels or content.
     pub fn new() -> Self {
         FormalBaseType {
-            labels: HashSet::new(),
+            types: HashSet::from([(LabelSet::new(), RecordType::empty())]),
             open_labels: false,
-            content: HashSet::new(),
         }
     }
 
@@ -37,34 +37,51 @@ impl FormalBaseType {
         self
     }
 
-    /// Sets the labels for the FormalBaseType.
+    /// Adds the labels of one of the given label sets to each of the types.
     pub fn with_labels(mut self, label_sets: impl IntoIterator<Item = impl IntoIterator<Item = LabelName>>) -> Self {
-        for labels in label_sets {
-            let label_set = LabelSet::from(labels);
-            self.labels.insert(label_set);
-        }
+        let label_sets = label_sets.into_iter().map(LabelSet::from).collect();
+        self.types = combine_types(
+            &self.types,
+            &types_of(&label_sets, &HashSet::from([RecordType::empty()])),
+        );
         self
     }
 
-    /// Adds a RecordType to the content of the FormalBaseType.
-    pub fn with_record_type(mut self, record_type: RecordType) -> Self {
-        self.content.insert(record_type);
-        self
+    /// Adds a RecordType to the content of each of the types.
+    pub fn with_record_type(self, record_type: RecordType) -> Self {
+        self.with_content(HashSet::from([record_type]))
     }
 
-    /// Sets the content of the FormalBaseType.
+    /// Adds one of the given RecordTypes to the content of each of the types, which stay as they are if there are none.
     pub fn with_content(mut self, content: HashSet<RecordType>) -> Self {
-        self.content = content;
+        if content.is_empty() {
+            return self;
+        }
+        self.types = combine_types(&self.types, &types_of(&HashSet::from([LabelSet::new()]), &content));
         self
     }
 
+    /// The combinations of labels of the types
+    fn labels(&self) -> HashSet<&LabelSet> {
+        self.types.iter().map(|(labels, _)| labels).collect()
+    }
+
+    /// The contents of the types with some given labels
+    fn content<'a>(&'a self, labels: &'a LabelSet) -> impl Iterator<Item = &'a RecordType> {
+        self.types
+            .iter()
+            .filter(move |(type_labels, _)| type_labels == labels)
+            .map(|(_, record_type)| record_type)
+    }
+
     /// Checks if the FormalBaseType conforms to the given labels and content.
     pub fn conforms(&self, labels: &LabelSet, content: &Record) -> Either<Vec<PgsError>, Vec<Evidence>> {
-        if !self.labels.contains(labels) {
+        let type_labels = self.labels();
+        if !type_labels.contains(labels) {
             tracing::trace!(
                 "Labels do not conform: record labels = [{}], expected labels = [{}]",
                 labels.iter().cloned().collect::<Vec<_>>().join(", "),
-                self.labels
+                type_labels
                     .iter()
                     .map(|lblset| lblset.to_string())
                     .collect::<Vec<_>>()
@@ -84,7 +101,7 @@ impl FormalBaseType {
             }]);
         }
 
-        for record_type in &self.content {
+        for record_type in self.content(labels) {
             if record_type.conforms(content).is_right() {
                 return Either::Right(vec![Evidence::LabelsContentConforms {
                     labels: labels.iter().cloned().collect::<Vec<_>>().join(", ").to_string(),
@@ -95,63 +112,31 @@ impl FormalBaseType {
         }
         Either::Left(vec![PgsError::RecordContentFails {
             record: format!("{}", content),
-            type_content: self
-                .content
-                .iter()
-                .map(|rt| rt.to_string())
-                .collect::<Vec<_>>()
-                .join("\n")
-                .to_string(),
+            type_content: self.content(labels).map(|rt| rt.to_string()).sorted().join("\n"),
         }])
     }
 
     /// Creates a FormalBaseType from a single label.
     pub fn from_label(label: Name) -> Self {
-        FormalBaseType::new()
-            .with_labels(vec![vec![label]])
-            .with_content(HashSet::from([RecordType::empty()]))
-    }
-
-    /*pub fn add_label(&mut self, label: Name) {
-        self.labels.insert(label);
-    }*/
-
-    pub fn add_content(&mut self, record_type: RecordType) {
-        self.content.insert(record_type);
+        FormalBaseType::new().with_labels(vec![vec![label]])
     }
 
     pub fn union(&self, other: &FormalBaseType) -> Self {
-        let mut result = FormalBaseType::new();
-        result.labels.extend(self.labels.iter().cloned());
-        result.labels.extend(other.labels.iter().cloned());
-        result.content.extend(self.content.iter().cloned());
-        result.content.extend(other.content.iter().cloned());
-        result
+        FormalBaseType {
+            types: self.types.union(&other.types).cloned().collect(),
+            open_labels: combine_openness(self.open_labels, other.open_labels),
+        }
     }
 
     pub fn combine(&self, other: &FormalBaseType) -> Self {
-        // The following line was using a simple union following the PGSchema paper,
-        // but it doesn't capture the intended semantics of combining labels.
-        // Instead, we should combine the label sets in a way that reflects the possible combinations of labels from both types.
-        // let labels: HashSet<_> = self.labels.union(&other.labels).cloned().collect();
-        let labels = combine_label_sets(&self.labels, &other.labels);
-
-        let content = combine_set_records(&self.content, &other.content);
         FormalBaseType {
-            labels,
+            types: combine_types(&self.types, &other.types),
             open_labels: combine_openness(self.open_labels, other.open_labels),
-            content,
         }
     }
 
     pub fn type_0() -> FormalBaseType {
-        let mut content = HashSet::new();
-        content.insert(RecordType::empty());
-        FormalBaseType {
-            labels: HashSet::new(),
-            open_labels: false,
-            content,
-        }
+        FormalBaseType::new()
     }
 }
 
@@ -159,36 +144,31 @@ fn combine_openness(open1: bool, open2: bool) -> bool {
     open1 || open2
 }
 
-fn combine_label_sets(set1: &HashSet<LabelSet>, set2: &HashSet<LabelSet>) -> HashSet<LabelSet> {
-    if set1.is_empty() {
-        return set2.clone();
-    }
-    if set2.is_empty() {
-        return set1.clone();
-    }
-    let mut combined: HashSet<LabelSet> = HashSet::new();
-    for lblset1 in set1 {
-        for lblset2 in set2 {
-            let mut combined_labels = lblset1.labels().clone();
-            combined_labels.extend(lblset2.labels().iter().cloned());
-            combined.insert(LabelSet::from(combined_labels));
-        }
-    }
-    combined
+fn types_of(labels: &HashSet<LabelSet>, content: &HashSet<RecordType>) -> HashSet<(LabelSet, RecordType)> {
+    labels
+        .iter()
+        .flat_map(|label_set| {
+            content
+                .iter()
+                .map(|record_type| (label_set.clone(), record_type.clone()))
+        })
+        .collect()
 }
 
-fn combine_set_records(set1: &HashSet<RecordType>, set2: &HashSet<RecordType>) -> HashSet<RecordType> {
-    if set1.is_empty() {
-        return set2.clone();
-    }
-    if set2.is_empty() {
-        return set1.clone();
-    }
-    let mut combined: HashSet<RecordType> = HashSet::new();
-    for record1 in set1 {
-        for record2 in set2 {
-            let combined_record = record1.combine(record2);
-            combined.insert(combined_record);
+// Following the PGSchema paper literally would be a simple union of the label sets, but it doesn't capture the intended
+// semantics of combining labels.
+// Instead, each combination of labels of one type is merged with each combination of labels of the other, keeping the
+// content that goes with each of them.
+fn combine_types(
+    types1: &HashSet<(LabelSet, RecordType)>,
+    types2: &HashSet<(LabelSet, RecordType)>,
+) -> HashSet<(LabelSet, RecordType)> {
+    let mut combined = HashSet::new();
+    for (labels1, record1) in types1 {
+        for (labels2, record2) in types2 {
+            let mut labels = labels1.clone();
+            labels.extend(labels2.iter().cloned());
+            combined.insert((labels, record1.combine(record2)));
         }
     }
     combined
@@ -196,57 +176,12 @@ fn combine_set_records(set1: &HashSet<RecordType>, set2: &HashSet<RecordType>) -
 
 impl Display for FormalBaseType {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        match self {
-            FormalBaseType { labels, content, .. } if labels.is_empty() && content.is_empty() => write!(f, "Empty"),
-            FormalBaseType { labels, content, .. } if !labels.is_empty() && content.is_empty() => {
-                write!(
-                    f,
-                    "Labels([{}])",
-                    labels
-                        .iter()
-                        .map(|lblset| lblset.to_string())
-                        .collect::<Vec<_>>()
-                        .join(", ")
-                )
-            },
-            FormalBaseType { labels, content, .. } if labels.is_empty() && !content.is_empty() => {
-                write!(
-                    f,
-                    "Content({})",
-                    content.iter().map(|c| format!("{}", c)).collect::<Vec<_>>().join(", ")
-                )
-            },
-            FormalBaseType { labels, content, .. } => {
-                let spec = if !labels.is_empty() {
-                    format!(
-                        "Labels({})",
-                        labels
-                            .iter()
-                            .map(|lblset| lblset.to_string())
-                            .collect::<Vec<_>>()
-                            .join(", ")
-                    )
-                } else {
-                    String::new()
-                };
-                let value_spec = if !content.is_empty() {
-                    format!(
-                        "Content({})",
-                        content.iter().map(|c| format!("{}", c)).collect::<Vec<_>>().join(", ")
-                    )
-                } else {
-                    String::new()
-                };
-                if !spec.is_empty() && !value_spec.is_empty() {
-                    write!(f, "{}, {}", spec, value_spec)
-                } else if !spec.is_empty() {
-                    write!(f, "{}", spec)
-                } else if !value_spec.is_empty() {
-                    write!(f, "{}", value_spec)
-                } else {
-                    write!(f, "Empty")
-                }
-            },
-        }
+        let types = self
+            .types
+            .iter()
+            .map(|(labels, content)| format!("Labels([{labels}]), Content({content})"))
+            .sorted()
+            .join(" | ");
+        write!(f, "{types}")
     }
 }
-- 
2.43.0


From 7f09732307f98ee1597edd01115f94dd01fa6a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:19 +0000
Subject: [PATCH 51/57] fix: open record types stay open when they are combined

---
 pgschema/src/record_type.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pgschema/src/record_type.rs b/pgschema/src/record_type.rs
index 0a58fcc..2ef1adf 100644
--- a/pgschema/src/record_type.rs
+++ b/pgschema/src/record_type.rs
@@ -93,6 +93,7 @@ impl RecordType {
 
     pub fn combine(&self, other: &RecordType) -> Self {
         let mut result = RecordType::new();
+        result.open = self.open || other.open;
         for (key, value_type) in &self.map {
             if let Some(other_value_type) = other.map.get(key) {
                 let combined_type = ValueType::intersection(value_type.clone(), other_value_type.clone());
-- 
2.43.0


From dc07c72fa1ae7d1f92a22267596edab2def1e26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:38 +0000
Subject: [PATCH 52/57] fix: a conjunct that several extended shapes state is
 checked on the triples of each

---
 shex_ast/src/ir/extend_alternative.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/shex_ast/src/ir/extend_alternative.rs b/shex_ast/src/ir/extend_alternative.rs
index 7f5e099..57292b2 100644
--- a/shex_ast/src/ir/extend_alternative.rs
+++ b/shex_ast/src/ir/extend_alternative.rs
@@ -97,8 +97,8 @@ impl ExtendAlternative {
 
     /// Union of two alternatives, deduplicated, preserving order of first occurrence.
     /// Used to combine one chosen alternative per extended parent into a selection.
-    /// A constraint reaching the merge through several paths (a diamond) keeps one
-    /// entry whose scope is the union of the paths' scopes.
+    /// A constraint reaching the merge through several paths (a diamond) keeps one entry;
+    /// the same constraint stated about different buckets is checked on each of them.
     pub fn merge(&self, other: &Self) -> Self {
         let mut result = self.clone();
         for b in &other.bucket_shapes {
@@ -112,11 +112,7 @@ impl ExtendAlternative {
 }
 
 fn push_unique_constraint(v: &mut Vec<ScopedConstraint>, c: ScopedConstraint) {
-    if let Some(existing) = v.iter_mut().find(|e| e.expr == c.expr) {
-        for s in c.scope {
-            push_unique(&mut existing.scope, s);
-        }
-    } else {
+    if !v.contains(&c) {
         v.push(c);
     }
 }
-- 
2.43.0


From 989443da680d1e41b2d76dd583aab7974bb0f860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:07 +0000
Subject: [PATCH 53/57] fix: the datatype, node type and values of a DCTAP
 statement are converted to ShEx

---
 dctap/src/tap_statement.rs                   |   3 +
 shapes_converter/src/tap_to_shex/tap2shex.rs | 157 ++++++++++---------
 2 files changed, 87 insertions(+), 73 deletions(-)

diff --git a/dctap/src/tap_statement.rs b/dctap/src/tap_statement.rs
index 4742f1b..5320e8a 100644
--- a/dctap/src/tap_statement.rs
+++ b/dctap/src/tap_statement.rs
@@ -97,6 +97,9 @@ impl TapStatement {
     pub fn repeatable(&self) -> Option<bool> {
         self.repeatable
     }
+    pub fn value_nodetype(&self) -> Option<&NodeType> {
+        self.value_nodetype.as_ref()
+    }
     pub fn value_datatype(&self) -> &[DatatypeId] {
         &self.value_datatype
     }
diff --git a/shapes_converter/src/tap_to_shex/tap2shex.rs b/shapes_converter/src/tap_to_shex/tap2shex.rs
index 7a1ecdc..85ac4f6 100644
--- a/shapes_converter/src/tap_to_shex/tap2shex.rs
+++ b/shapes_converter/src/tap_to_shex/tap2shex.rs
@@ -1,17 +1,23 @@
 //! Struct that converts DCTAP to ShEx schemas
 //!
 //!
-use dctap::{DCTap, DatatypeId, ExtendsId, PropertyId, ShapeId, TapShape, TapStatement, Value, ValueConstraint};
+use dctap::{
+    BasicNodeType, DCTap, DatatypeId, ExtendsId, NodeType, PropertyId, ShapeId, TapShape, TapStatement, Value,
+    ValueConstraint,
+};
 use prefixmap::IriRef;
 use rudof_iri::IriS;
 use rudof_iri::iri;
 use shex_ast::{
-    Annotation, NodeConstraint, ObjectValue, Schema, Shape, ShapeDecl, ShapeExpr, ShapeExprLabel, TripleExpr,
+    Annotation, NodeConstraint, NodeKind, ObjectValue, Schema, Shape, ShapeDecl, ShapeExpr, ShapeExprLabel, TripleExpr,
     ValueSetValue,
 };
 use tracing::trace;
 
 use crate::{Tap2ShExConfig, Tap2ShExError};
+
+const XSD_STRING: &str = "http://www.w3.org/2001/XMLSchema#string";
+
 pub struct Tap2ShEx {
     config: Tap2ShExConfig,
 }
@@ -116,47 +122,53 @@ fn statement_to_value_expr(
     statement: &TapStatement,
     config: &Tap2ShExConfig,
 ) -> Result<Option<ShapeExpr>, Tap2ShExError> {
-    let mut se: Option<ShapeExpr> = None;
-    parse_node_constraint(statement, &mut se, config)?;
-    parse_shape_ref(statement, &mut se, config)?;
-    Ok(se)
+    let mut exprs = Vec::new();
+    exprs.extend(statement.value_nodetype().map(node_type2shape_expr));
+    exprs.extend(parse_node_constraint(statement, config)?);
+    exprs.extend(parse_shape_ref(statement, config)?);
+    Ok(combine(exprs, ShapeExpr::and))
+}
+
+/// Combines several shape expressions with AND or OR when there is more than one
+fn combine(mut exprs: Vec<ShapeExpr>, op: impl FnOnce(Vec<ShapeExpr>) -> ShapeExpr) -> Option<ShapeExpr> {
+    if exprs.len() > 1 { Some(op(exprs)) } else { exprs.pop() }
+}
+
+fn node_type2shape_expr(node_type: &NodeType) -> ShapeExpr {
+    let alternatives = match node_type {
+        NodeType::Basic(basic) => std::slice::from_ref(basic),
+        NodeType::Or(alternatives) => alternatives.as_slice(),
+    };
+    let exprs = alternatives
+        .iter()
+        .map(|basic| {
+            let kind = match basic {
+                BasicNodeType::Iri => NodeKind::Iri,
+                BasicNodeType::BNode => NodeKind::BNode,
+                BasicNodeType::Literal => NodeKind::Literal,
+            };
+            ShapeExpr::node_constraint(NodeConstraint::new().with_node_kind(kind))
+        })
+        .collect();
+    combine(exprs, ShapeExpr::or).unwrap_or_default()
 }
 
 #[allow(clippy::result_large_err)]
-fn parse_shape_ref(
-    statement: &TapStatement,
-    shape_expr: &mut Option<ShapeExpr>,
-    config: &Tap2ShExConfig,
-) -> Result<(), Tap2ShExError> {
+fn parse_shape_ref(statement: &TapStatement, config: &Tap2ShExConfig) -> Result<Option<ShapeExpr>, Tap2ShExError> {
+    let mut shapes = Vec::new();
     if let Some(shape_refs) = statement.value_shape() {
         let line_no = shape_refs.line();
-        let mut shapes = Vec::new();
-        for s in shape_refs.str().split_whitespace() {
-            if s == config.dctap().value_shape_delimiter().to_string() {
+        let delimiter = config.dctap().value_shape_delimiter();
+        for s in shape_refs.str().split(|c: char| c.is_whitespace() || c == delimiter) {
+            if s.is_empty() {
                 continue;
             }
             let sid = ShapeId::new(s, line_no);
             let iri = parse_single_shape_ref(&sid, config)?;
             shapes.push(ShapeExpr::iri_ref(iri));
         }
-        match &shapes[..] {
-            [] => return Ok(()),
-            [shape] => {
-                *shape_expr = match shape_expr {
-                    Some(se) => Some(ShapeExpr::and(vec![se.clone(), shape.clone()])),
-                    None => Some(shape.clone()),
-                };
-            },
-            _ => {
-                let shape_ref_expr = ShapeExpr::or(shapes);
-                *shape_expr = match shape_expr {
-                    Some(se) => Some(ShapeExpr::and(vec![se.clone(), shape_ref_expr])),
-                    None => Some(shape_ref_expr),
-                };
-            },
-        }
     }
-    Ok(())
+    Ok(combine(shapes, ShapeExpr::or))
 }
 
 fn get_min(mandatory: Option<bool>) -> Option<i32> {
@@ -192,59 +204,49 @@ fn property_id2iri<'a>(property_id: &'a PropertyId, config: &'a Tap2ShExConfig)
 #[allow(clippy::result_large_err)]
 fn parse_node_constraint(
     statement: &TapStatement,
-    shape_expr: &mut Option<ShapeExpr>,
     config: &Tap2ShExConfig,
-) -> Result<(), Tap2ShExError> {
-    match statement.value_datatype() {
-        [] => {
-            if let Some(constraint) = statement.value_constraint() {
-                let mut nc = NodeConstraint::new();
-                parse_constraint(constraint, config, &mut nc, statement.source_line_number())?;
-                *shape_expr = Some(ShapeExpr::node_constraint(nc));
-            }
-        },
-        [datatype] => {
-            let mut nc = NodeConstraint::new();
-            let iri = datatype_id2iri(datatype, config)?;
-            nc.add_datatype(IriRef::iri(iri));
-            if let Some(constraint) = statement.value_constraint() {
-                parse_constraint(constraint, config, &mut nc, statement.source_line_number())?;
-            }
-        },
-        datatypes => {
-            let mut shape_exprs = Vec::new();
-            for datatype in datatypes {
-                let mut nc = NodeConstraint::new();
-                let iri = datatype_id2iri(datatype, config)?;
-                nc.add_datatype(IriRef::iri(iri));
-                if let Some(constraint) = statement.value_constraint() {
-                    parse_constraint(constraint, config, &mut nc, statement.source_line_number())?;
-                }
-                shape_exprs.push(ShapeExpr::node_constraint(nc));
-            }
-            *shape_expr = Some(ShapeExpr::or(shape_exprs));
-        },
+) -> Result<Option<ShapeExpr>, Tap2ShExError> {
+    let line = statement.source_line_number();
+    let mut exprs = Vec::new();
+    for datatype in statement.value_datatype() {
+        let iri = IriRef::iri(datatype_id2iri(datatype, config)?);
+        let nc = match statement.value_constraint() {
+            Some(constraint) => parse_constraint(constraint, config, Some(&iri), line)?,
+            None => NodeConstraint::new().with_datatype(iri),
+        };
+        exprs.push(ShapeExpr::node_constraint(nc));
+    }
+    if exprs.is_empty()
+        && let Some(constraint) = statement.value_constraint()
+    {
+        // The values of a statement about literals are literals
+        let datatype = match statement.value_nodetype() {
+            Some(NodeType::Basic(BasicNodeType::Literal)) => Some(IriRef::iri(IriS::new_unchecked(XSD_STRING))),
+            _ => None,
+        };
+        let nc = parse_constraint(constraint, config, datatype.as_ref(), line)?;
+        exprs.push(ShapeExpr::node_constraint(nc));
     }
-    Ok(())
+    Ok(combine(exprs, ShapeExpr::or))
 }
 
+/// `datatype` is the datatype of the values, or none if they are IRIs
 #[allow(clippy::result_large_err)]
 fn parse_constraint(
     constraint: &ValueConstraint,
     config: &Tap2ShExConfig,
-    node_constraint: &mut NodeConstraint,
+    datatype: Option<&IriRef>,
     line: u64,
-) -> Result<(), Tap2ShExError> {
+) -> Result<NodeConstraint, Tap2ShExError> {
     match constraint {
         ValueConstraint::PickList(values) => {
             let mut value_set_values: Vec<ValueSetValue> = Vec::new();
             for v in values {
                 trace!("Parsing value set value: {v}");
-                let value_set_value = parse_value_set_value(v, config, line)?;
+                let value_set_value = parse_value_set_value(v, config, datatype, line)?;
                 value_set_values.push(value_set_value)
             }
-            node_constraint.add_values(value_set_values);
-            Ok(())
+            Ok(NodeConstraint::new().with_values(value_set_values))
         },
         _ => Err(Tap2ShExError::NotImplemented {
             msg: format!("ValueConstraint: {constraint:?}"),
@@ -253,13 +255,22 @@ fn parse_constraint(
 }
 
 #[allow(clippy::result_large_err)]
-fn parse_value_set_value(value: &Value, config: &Tap2ShExConfig, line: u64) -> Result<ValueSetValue, Tap2ShExError> {
-    match value {
-        Value::Str(str) => {
-            let iri = config.resolve_iri(str, line)?;
+fn parse_value_set_value(
+    value: &Value,
+    config: &Tap2ShExConfig,
+    datatype: Option<&IriRef>,
+    line: u64,
+) -> Result<ValueSetValue, Tap2ShExError> {
+    match (value, datatype) {
+        (Value::Str(str), Some(datatype)) => Ok(ValueSetValue::ObjectValue(ObjectValue::datatype_literal(
+            str.trim(),
+            datatype,
+        ))),
+        (Value::Str(str), None) => {
+            let iri = config.resolve_iri(str.trim(), line)?;
             Ok(ValueSetValue::ObjectValue(ObjectValue::IriRef(IriRef::iri(iri))))
         },
-        Value::Iri(iri) => Ok(ValueSetValue::ObjectValue(ObjectValue::IriRef(IriRef::iri(
+        (Value::Iri(iri), _) => Ok(ValueSetValue::ObjectValue(ObjectValue::IriRef(IriRef::iri(
             iri.clone(),
         )))),
     }
-- 
2.43.0


From 6ea677e6f54e8a6dfaf44f75440abaa8e2c41aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:07 +0000
Subject: [PATCH 54/57] fix: the rows of a DCTAP shape need not be next to each
 other and labels do not leak to the next shape

---
 dctap/src/dctap.rs     | 10 +++++++++-
 dctap/src/tap_shape.rs | 16 +++++++++++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/dctap/src/dctap.rs b/dctap/src/dctap.rs
index e098efb..0ae9e31 100644
--- a/dctap/src/dctap.rs
+++ b/dctap/src/dctap.rs
@@ -36,8 +36,16 @@ impl DCTap {
         }
     }
 
+    /// Adds a shape. The statements about a shape that was already added are added to it
     pub fn add_shape(&mut self, shape: &TapShape) {
-        self.shapes.push(shape.clone());
+        let same_id = |s: &&mut TapShape| match (s.shape_id(), shape.shape_id()) {
+            (Some(s1), Some(s2)) => s1.str() == s2.str(),
+            _ => false,
+        };
+        match self.shapes.iter_mut().find(same_id) {
+            Some(previous) => previous.merge(shape),
+            None => self.shapes.push(shape.clone()),
+        }
     }
 
     pub fn from_path<P: AsRef<Path>>(path: P, config: &TapConfig) -> Result<DCTap, TapError> {
diff --git a/dctap/src/tap_shape.rs b/dctap/src/tap_shape.rs
index 2e53e5c..7549830 100644
--- a/dctap/src/tap_shape.rs
+++ b/dctap/src/tap_shape.rs
@@ -44,7 +44,8 @@ impl TapShape {
 
     pub fn set_shape_id(&mut self, shape_id: &ShapeId) {
         self.shape_id = Some(shape_id.clone());
-        // Reset the statements because we have a new shape
+        // Reset the label and the statements because we have a new shape
+        self.shape_label = None;
         self.statements = Vec::new();
     }
 
@@ -78,6 +79,19 @@ impl TapShape {
         self.statements.push(statement.clone());
     }
 
+    /// Adds the statements, the extended shapes and, if there was none, the label of another shape
+    pub fn merge(&mut self, other: &TapShape) {
+        self.statements.extend(other.statements.iter().cloned());
+        for e in &other.extends {
+            if !self.extends.iter().any(|e1| e1.str() == e.str()) {
+                self.extends.push(e.clone());
+            }
+        }
+        if self.shape_label.as_deref().unwrap_or_default().is_empty() {
+            self.shape_label = other.shape_label.clone();
+        }
+    }
+
     pub fn statements(&self) -> impl Iterator<Item = &TapStatement> {
         self.statements.iter()
     }
-- 
2.43.0


From cb01478079de194abc924b369e019033218606ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:10 +0000
Subject: [PATCH 55/57] fix: a blank cell is not a DCTAP shape label

---
 dctap/src/tap_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dctap/src/tap_reader.rs b/dctap/src/tap_reader.rs
index 4162072..2fa5fd3 100644
--- a/dctap/src/tap_reader.rs
+++ b/dctap/src/tap_reader.rs
@@ -169,7 +169,7 @@ impl<R: io::Read> TapReader<R> {
 
     fn get_shape_label(&mut self, rcd: &StringRecord) -> Result<Option<String>> {
         if let Some(str) = self.state.headers().shape_label(rcd) {
-            Ok(Some(str.trim().to_string()))
+            Ok(strip_whitespace(&str).map(str::to_string))
         } else {
             Ok(None)
         }
-- 
2.43.0


From 1b0d9f180c8ce5e16fa00e8bb78e1d88577b0716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:10 +0000
Subject: [PATCH 56/57] fix: the datatype of the literals of a ShEx value set
 is resolved and xsd:string literals match

---
 shex_ast/src/ir/ast2ir.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/shex_ast/src/ir/ast2ir.rs b/shex_ast/src/ir/ast2ir.rs
index 61c9b01..cadd2e0 100644
--- a/shex_ast/src/ir/ast2ir.rs
+++ b/shex_ast/src/ir/ast2ir.rs
@@ -24,7 +24,8 @@ use rbe::{Cardinality, SingleCond};
 use rbe::{Component, MatchCond, Max, Min, RbeStruct, RbeTable};
 use rudof_iri::IriS;
 use rudof_iri::error::IriSError;
-use rudof_rdf::rdf_core::term::literal::NumericLiteral;
+use rudof_rdf::rdf_core::term::literal::{ConcreteLiteral, NumericLiteral};
+use rudof_rdf::rdf_core::vocabs::XsdVocab;
 use std::collections::HashMap;
 use std::sync::Arc;
 use tracing::{info, trace};
@@ -1331,6 +1332,15 @@ fn cnv_object_value(ov: &ast::ObjectValue, prefixmap: &PrefixMap) -> CResult<Obj
             let iri = cnv_iri_ref(ir, prefixmap)?;
             Ok(ObjectValue::IriRef(iri))
         },
+        ast::ObjectValue::Literal(ConcreteLiteral::DatatypeLiteral { lexical_form, datatype }) => {
+            let datatype = cnv_iri_ref(datatype, prefixmap)?;
+            let literal = if datatype.as_str() == XsdVocab::XSD_STRING {
+                ConcreteLiteral::str(lexical_form)
+            } else {
+                ConcreteLiteral::lit_datatype(lexical_form, &IriRef::iri(datatype))
+            };
+            Ok(ObjectValue::ObjectLiteral(literal))
+        },
         ast::ObjectValue::Literal(lit) => Ok(ObjectValue::ObjectLiteral(lit.clone())),
     }
 }
-- 
2.43.0


From 3f3897052865ea1b37779adeefd4ad1e79bd8ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:39 +0000
Subject: [PATCH 57/57] fix: TriG and N3 data can be read, and RDF/XML and
 JSON-LD resolve relative IRIs against the base

---
 .../src/api/data/implementations/load_data.rs |  2 +-
 rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs  | 74 ++++++++++++++++---
 2 files changed, 65 insertions(+), 11 deletions(-)

diff --git a/rudof_lib/src/api/data/implementations/load_data.rs b/rudof_lib/src/api/data/implementations/load_data.rs
index 8ce26b9..41980cc 100644
--- a/rudof_lib/src/api/data/implementations/load_data.rs
+++ b/rudof_lib/src/api/data/implementations/load_data.rs
@@ -205,7 +205,7 @@ fn read_rdf_data<R: Read>(
 ) -> Result<()> {
     // Only Turtle uses `@prefix` declarations that default prefixes can
     // usefully supplement; other formats either have no textual prefix
-    // syntax (N-Triples, N-Quads) or aren't implemented (TriG, N3) or
+    // syntax (N-Triples, N-Quads), must declare theirs (TriG, N3) or
     // resolve prefixed names some other way entirely (JSON-LD, RDF/XML).
     let parse_result = if matches!(data_format, DataFormat::Turtle) {
         let mut content = String::new();
diff --git a/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs b/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
index 24cbbef..c3c2fb6 100644
--- a/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
+++ b/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
@@ -11,7 +11,7 @@ use oxrdf::{
     NamedOrBlankNode as OxSubject, NamedOrBlankNodeRef as OxSubjectRef, Quad, Term as OxTerm, TermRef,
     Triple as OxTriple, TripleRef,
 };
-use oxrdfio::{JsonLdProfileSet, RdfFormat, RdfSerializer};
+use oxrdfio::{JsonLdProfileSet, RdfFormat, RdfParser, RdfSerializer};
 use oxrdfxml::RdfXmlParser;
 use oxttl::{NQuadsParser, NTriplesParser, TurtleParser};
 use prefixmap::{PrefixMapError, prefix_map::*};
@@ -166,19 +166,16 @@ impl OxigraphInMemory {
                 self.parse_ntriples(reader, reader_mode)?;
             },
             RDFFormat::Rdfxml => {
-                self.parse_rdfxml(reader, reader_mode)?;
+                self.parse_rdfxml(reader, base, reader_mode)?;
             },
-            RDFFormat::TriG => {
-                todo!();
-            },
-            RDFFormat::N3 => {
-                todo!();
+            RDFFormat::TriG | RDFFormat::N3 => {
+                self.parse_trig_n3(reader, source_name, format, base, reader_mode)?;
             },
             RDFFormat::NQuads => {
                 self.parse_nquads(reader, reader_mode)?;
             },
             RDFFormat::JsonLd => {
-                self.parse_jsonld(reader, reader_mode)?;
+                self.parse_jsonld(reader, base, reader_mode)?;
             },
         }
         if let Some(base) = base {
@@ -293,6 +290,7 @@ impl OxigraphInMemory {
     /// # Parameters
     ///
     /// * `reader` - Input stream containing RDF/XML data
+    /// * `base` - Optional base IRI for resolving relative IRIs
     /// * `reader_mode` - Controls error handling (strict or lax)
     ///
     /// # Errors
@@ -301,9 +299,13 @@ impl OxigraphInMemory {
     fn parse_rdfxml<R: io::Read>(
         &mut self,
         reader: &mut R,
+        base: Option<&str>,
         reader_mode: &ReaderMode,
     ) -> Result<(), OxigraphInMemoryError> {
-        let parser = RdfXmlParser::new();
+        let parser = match base {
+            None => RdfXmlParser::new(),
+            Some(iri) => RdfXmlParser::new().with_base_iri(iri)?,
+        };
         let mut xml_reader = parser.for_reader(reader);
         let mut triples = Vec::new();
 
@@ -356,11 +358,59 @@ impl OxigraphInMemory {
         Ok(())
     }
 
+    /// Parses TriG or N3 data and merges the triples of all its graphs into the graph.
+    ///
+    /// # Parameters
+    ///
+    /// * `reader` - Input stream containing TriG or N3 data
+    /// * `source_name` - Name used for error reporting
+    /// * `format` - RDF serialization format
+    /// * `base` - Optional base IRI for resolving relative IRIs
+    /// * `reader_mode` - Controls error handling (strict or lax)
+    ///
+    /// # Errors
+    ///
+    /// Returns an error if parsing fails in strict mode.
+    fn parse_trig_n3<R: io::Read>(
+        &mut self,
+        reader: &mut R,
+        source_name: &str,
+        format: &RDFFormat,
+        base: Option<&str>,
+        reader_mode: &ReaderMode,
+    ) -> Result<(), OxigraphInMemoryError> {
+        let mut parser = RdfParser::from_format(cnv_rdf_format(format));
+        if let Some(iri) = base {
+            parser = parser.with_base_iri(iri)?;
+        }
+        let mut quad_reader = parser.for_reader(reader);
+        let mut triples = Vec::new();
+
+        for quad_result in quad_reader.by_ref() {
+            let quad =
+                match handle_parse_error(quad_result, reader_mode, |e| OxigraphInMemoryError::TurtleParseError {
+                    source_name: source_name.to_string(),
+                    error: e,
+                })? {
+                    Some(q) => q,
+                    None => continue,
+                };
+            triples.push(quad.into());
+        }
+        let prefixes: HashMap<&str, &str> = quad_reader.prefixes().collect();
+        let prefixes = prefixes.try_into()?;
+        self.insert_all(triples);
+        self.merge_prefixes(prefixes);
+
+        Ok(())
+    }
+
     /// Parses JSON-LD data and merges it into the graph.
     ///
     /// # Parameters
     ///
     /// * `reader` - Input stream containing JSON-LD data
+    /// * `base` - Optional base IRI for resolving relative IRIs
     /// * `reader_mode` - Controls error handling (strict or lax)
     ///
     /// # Errors
@@ -369,9 +419,13 @@ impl OxigraphInMemory {
     fn parse_jsonld<R: io::Read>(
         &mut self,
         reader: &mut R,
+        base: Option<&str>,
         reader_mode: &ReaderMode,
     ) -> Result<(), OxigraphInMemoryError> {
-        let parser = JsonLdParser::new();
+        let parser = match base {
+            None => JsonLdParser::new(),
+            Some(iri) => JsonLdParser::new().with_base_iri(iri)?,
+        };
         let mut jsonld_reader = parser.for_reader(reader);
         let mut triples = Vec::new();
 
-- 
2.43.0

