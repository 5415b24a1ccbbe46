From dd99fe51273b200021cd68842441dd2b7c202336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:45 +0000
Subject: [PATCH 01/33] fix: gt is the converse of lt, not its negation

---
 crates/cryptovampire/src/problem/general_assertions/order.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/problem/general_assertions/order.rs b/crates/cryptovampire/src/problem/general_assertions/order.rs
index fa64abd..d84f224 100644
--- a/crates/cryptovampire/src/problem/general_assertions/order.rs
+++ b/crates/cryptovampire/src/problem/general_assertions/order.rs
@@ -63,7 +63,7 @@ pub fn generate<'bump>(
                     (leq.f([t2.into(), pred.apply([t1])]) | leq.f([t1, t2]))}), // ax11
             // other
             mforall!(a!0:step, b!1:step;
-                {!meq(gt.f([a, b]), lt.f([b, a]))}),
+                {meq(gt.f([a, b]), lt.f([b, a]))}),
         ]
         .into_iter()
         .map(Axiom::theory), // .chain(pbl.protocol().ordering().iter().cloned().map(Axiom::base)),
-- 
2.43.0


From 222e3b51a2285d4898be5f5bbd9fb970e866093e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:57 +0000
Subject: [PATCH 02/33] fix: legacy evaluate congruence must relate the two
 argument tuples

---
 .../cryptovampire/src/problem/general_assertions/evaluate.rs  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/cryptovampire/src/problem/general_assertions/evaluate.rs b/crates/cryptovampire/src/problem/general_assertions/evaluate.rs
index 6db6675..f2c721e 100644
--- a/crates/cryptovampire/src/problem/general_assertions/evaluate.rs
+++ b/crates/cryptovampire/src/problem/general_assertions/evaluate.rs
@@ -178,8 +178,8 @@ pub fn generate<'bump>(
                             .collect_vec();
 
                         let premise =
-                            formula::ands(vars1.iter().zip(vars2.iter()).map(|(v1, _v2)| {
-                                meq(pbl.evaluator().eval(v1), pbl.evaluator().eval(v1))
+                            formula::ands(vars1.iter().zip(vars2.iter()).map(|(v1, v2)| {
+                                meq(pbl.evaluator().eval(v1), pbl.evaluator().eval(v2))
                             }));
                         let conclusion = meq(
                             pbl.evaluator().eval(f.f(&vars1)), //.map(|v| v.into_formula()))),
-- 
2.43.0


From 5cb9298cd9f0dafbe3301a973ea8ebea62cb8c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:04 +0000
Subject: [PATCH 03/33] fix: verify takes the signature first in the general
 unforgeability axioms

---
 crates/cryptovampire/src/problem/crypto_assumptions/euf_cma.rs | 2 +-
 crates/cryptovampire/src/problem/crypto_assumptions/uf_cma.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/cryptovampire/src/problem/crypto_assumptions/euf_cma.rs b/crates/cryptovampire/src/problem/crypto_assumptions/euf_cma.rs
index 0cd36f9..0c2aed5 100644
--- a/crates/cryptovampire/src/problem/crypto_assumptions/euf_cma.rs
+++ b/crates/cryptovampire/src/problem/crypto_assumptions/euf_cma.rs
@@ -135,7 +135,7 @@ impl<'bump> EufCma<'bump> {
                 formula: mforall!(m!1:message_sort, sigma!2:message_sort, k!3:nonce_sort; {
                     let k_f = pbl.name_caster().cast(message_sort, k);
                     let ev = pbl.evaluator();
-                    ev.eval(self.verify.apply([m.into(), sigma.into(), self.pk.f([ k_f.clone()])])) >>
+                    ev.eval(self.verify.apply([sigma.into(), m.into(), self.pk.f([ k_f.clone()])])) >>
                     mexists!(u!4:message_sort; {
                         meq(ev.eval(u), ev.eval(m)) &
                         (
diff --git a/crates/cryptovampire/src/problem/crypto_assumptions/uf_cma.rs b/crates/cryptovampire/src/problem/crypto_assumptions/uf_cma.rs
index 34c73cd..2b5e8a0 100644
--- a/crates/cryptovampire/src/problem/crypto_assumptions/uf_cma.rs
+++ b/crates/cryptovampire/src/problem/crypto_assumptions/uf_cma.rs
@@ -170,7 +170,7 @@ impl<'bump> UfCma<'bump> {
                 formula : mforall!(m!1:message_sort, sigma!2:message_sort, k!3:nonce_sort; {
                     let k_f = pbl.name_caster().cast(message_sort, k);
                     let ev = pbl.evaluator();
-                    ev.eval(self.verify.f([m.into(), sigma.into(), k_f.clone()])) >>
+                    ev.eval(self.verify.f([sigma.into(), m.into(), k_f.clone()])) >>
                     mexists!(u!4:message_sort; {
                         meq(ev.eval(u), ev.eval(m)) &
                         (
-- 
2.43.0


From 5929bba001f40d4cb49a23904a3d2245f006d91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:15 +0000
Subject: [PATCH 04/33] fix: the FALSE formula is built from the false symbol

---
 crates/cryptovampire/src/formula/function/builtin.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/formula/function/builtin.rs b/crates/cryptovampire/src/formula/function/builtin.rs
index 4fa2284..62198ca 100644
--- a/crates/cryptovampire/src/formula/function/builtin.rs
+++ b/crates/cryptovampire/src/formula/function/builtin.rs
@@ -70,7 +70,7 @@ pub static TRUE: RichFormula<'static> = RichFormula::Fun(*TRUE_F, Arc::new([]));
 pub static TRUE_ARC: ARichFormula<'static> = TRUE.clone_as_arc();
 
 #[dynamic]
-pub static FALSE: RichFormula<'static> = RichFormula::Fun(*TRUE_F, Arc::new([]));
+pub static FALSE: RichFormula<'static> = RichFormula::Fun(*FALSE_F, Arc::new([]));
 
 #[dynamic]
 pub static AND: Function<'static> = new_static_function(InnerFunction::Bool(Booleans::Connective(
-- 
2.43.0


From 81dddef3091cdd2ab0d011ea8ac22bbbcb49459a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:35 +0000
Subject: [PATCH 05/33] fix: mgu follows the binding of a right variable on the
 right

---
 crates/cryptovampire/src/formula/manipulation/unifier.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/formula/manipulation/unifier.rs b/crates/cryptovampire/src/formula/manipulation/unifier.rs
index 1104dcb..f6c489e 100644
--- a/crates/cryptovampire/src/formula/manipulation/unifier.rs
+++ b/crates/cryptovampire/src/formula/manipulation/unifier.rs
@@ -161,7 +161,7 @@ impl<'bump> Unifier<'bump> {
                         }
                         _ => false,
                     },
-                    Some(nl) => aux(&nl, right, left_p, right_p),
+                    Some(nr) => aux(left, &nr, left_p, right_p),
                     None => {
                         right_p.add(v.id, left.shallow_copy());
                         true
-- 
2.43.0


From 9021d767f48acdfed41814aa870e5e8ebdcae8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:59 +0000
Subject: [PATCH 06/33] fix: direct exec quantifies the condition over all
 earlier steps

---
 .../cryptovampire/src/problem/crypto_assumptions/unfolding.rs   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/problem/crypto_assumptions/unfolding.rs b/crates/cryptovampire/src/problem/crypto_assumptions/unfolding.rs
index 21db0b3..f7227d1 100644
--- a/crates/cryptovampire/src/problem/crypto_assumptions/unfolding.rs
+++ b/crates/cryptovampire/src/problem/crypto_assumptions/unfolding.rs
@@ -118,7 +118,7 @@ impl<'bump> Unfolding<'bump> {
                 mforall!(s!1:step; {HAPPENS.f([s]) >>
                   meq(ev.eval(exec.f([s])),
                   mforall!(s2!2:step;
-                      {LESS_THAN_EQ_STEP.f([s2, s]) >> ev.eval(self.cond().f([s]))}))})
+                      {LESS_THAN_EQ_STEP.f([s2, s]) >> ev.eval(self.cond().f([s2]))}))})
             });
 
             chain!(
-- 
2.43.0


From 3be9694ce8b1601855fc1132350cbb1ddce7e1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:49 +0000
Subject: [PATCH 07/33] fix: a failed run exits non-zero even with quiet output

---
 crates/cryptovampire/src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/main.rs b/crates/cryptovampire/src/main.rs
index 842386d..62e20f0 100644
--- a/crates/cryptovampire/src/main.rs
+++ b/crates/cryptovampire/src/main.rs
@@ -43,7 +43,12 @@ fn main() {
     };
 
     match output_format {
-        cryptovampire::cli::Output::Quiet => (),
+        cryptovampire::cli::Output::Quiet => {
+            // the exit status is the only way left to report a failure
+            if res.is_err() {
+                std::process::exit(1)
+            }
+        }
         cryptovampire::cli::Output::Stdout => {
             let res = res.unwrap();
             eprintln!("{res}")
-- 
2.43.0


From 9ac9c7c091a4dffc68b02ee2074692ce484ba021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:49 +0000
Subject: [PATCH 08/33] fix: pretty-json output is pretty printed

---
 crates/cryptovampire/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/main.rs b/crates/cryptovampire/src/main.rs
index 62e20f0..44621f7 100644
--- a/crates/cryptovampire/src/main.rs
+++ b/crates/cryptovampire/src/main.rs
@@ -59,7 +59,7 @@ fn main() {
         }
         cryptovampire::cli::Output::PrettyJSON => {
             let res = res.map_err(|e| format!("{e:}"));
-            println!("{}", serde_json::to_string(&res).unwrap())
+            println!("{}", serde_json::to_string_pretty(&res).unwrap())
         }
     }
 
-- 
2.43.0


From c3269ae049e6c266dd17864ae11838e9ff1d201d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:54 +0000
Subject: [PATCH 09/33] fix: recognise the recursive option of the unfolding
 assumption

---
 .../src/parser/parser/parse_step_cell_asserts/assert_crypto.rs  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/parser/parser/parse_step_cell_asserts/assert_crypto.rs b/crates/cryptovampire/src/parser/parser/parse_step_cell_asserts/assert_crypto.rs
index bd3e5e3..2a5c649 100644
--- a/crates/cryptovampire/src/parser/parser/parse_step_cell_asserts/assert_crypto.rs
+++ b/crates/cryptovampire/src/parser/parser/parse_step_cell_asserts/assert_crypto.rs
@@ -164,7 +164,7 @@ where
     }
 
     let mut flags = Default::default();
-    if options.contains("recurisve") {
+    if options.contains("recursive") {
         flags |= CryptoFlag::RECURSIVE_EXEC
     };
     // default
-- 
2.43.0


From 980ec343c33d15d3fb9d33e9b9723d153ad5defc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:04 +0000
Subject: [PATCH 10/33] fix: honour --disallow-shadowing for every command

---
 crates/cryptovampire/src/cli.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/cryptovampire/src/cli.rs b/crates/cryptovampire/src/cli.rs
index df5b95d..6e9f412 100644
--- a/crates/cryptovampire/src/cli.rs
+++ b/crates/cryptovampire/src/cli.rs
@@ -316,6 +316,7 @@ impl<'bump> IntoWith<Environement<'bump>, &'bump ScopedContainer<'bump>> for &Ar
             *legacy_evaluate => Flags::LEGACY_EVALUATE,
             *skolemnise => Flags::SKOLEMNISE,
             *no_bitstring && realm.is_symbolic() => Flags::NO_BITSTRING,
+            *disallow_shadowing => Flags::DISALLOW_SHADOWING,
             // *ignore_lemmas => Flags::IGNORE_LEMMAS
         );
 
@@ -354,8 +355,7 @@ impl<'bump> IntoWith<Environement<'bump>, &'bump ScopedContainer<'bump>> for &Ar
                 flags |= mk_bitflag!(
                     *lemmas => Flags::LEMMA,
                     *assert_theory=> Flags::ASSERT_THEORY,
-                    *assert_ground => Flags::ASSERT_GROUND,
-                    *disallow_shadowing => Flags::DISALLOW_SHADOWING
+                    *assert_ground => Flags::ASSERT_GROUND
                 );
                 if *cvc5 {
                     flags -= Flags::ASSERT_GROUND | Flags::ASSERT_NOT | Flags::ASSERT_THEORY;
-- 
2.43.0


From 58acdc5382514c94bf35c3da7a66a57823f26819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:44 +0000
Subject: [PATCH 11/33] fix: a variable refers to its innermost binding

---
 crates/cryptovampire/src/parser/parser/parsable_trait.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/cryptovampire/src/parser/parser/parsable_trait.rs b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
index 608d474..94e4daa 100644
--- a/crates/cryptovampire/src/parser/parser/parsable_trait.rs
+++ b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
@@ -396,8 +396,10 @@ where
         match self {
             ast::Application::ConstVar { span, content } => {
                 // check if it is a variable
+                // (the innermost binding shadows the others)
                 bvars
                     .iter()
+                    .rev()
                     .find(|(s, _)| s == content)
                     .map(|(_, v)| {
                         let VarProxy { id, sort } = v;
-- 
2.43.0


From 864e18633ba199b43fe3c251250430146efd09e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:00 +0000
Subject: [PATCH 12/33] fix: the variable of a let-in does not outlive it

---
 crates/cryptovampire/src/parser/parser/parsable_trait.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/cryptovampire/src/parser/parser/parsable_trait.rs b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
index 94e4daa..927692c 100644
--- a/crates/cryptovampire/src/parser/parser/parsable_trait.rs
+++ b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
@@ -130,10 +130,14 @@ where
             t1,
             t2,
         } = self;
+        let bn = bvars.len();
         let var = var.parse(env, bvars, state, None)?;
         let t1 = t1.parse(env, bvars, state, Some(var.sort().into()))?;
         let t2 = t2.parse(env, bvars, state, expected_sort)?;
 
+        // the variable is only bound in the let
+        bvars.truncate(bn);
+
         Ok(t2.apply_substitution2(&OneVarSubstF::new(var, t1)))
     }
 }
-- 
2.43.0


From 753f2fde5da17d7af075117a8a379f3ed7be084a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:17 +0000
Subject: [PATCH 13/33] fix: reject applications with too many arguments

---
 .../src/parser/parser/parsable_trait.rs       | 25 ++++++++++---------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/crates/cryptovampire/src/parser/parser/parsable_trait.rs b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
index 927692c..15315a3 100644
--- a/crates/cryptovampire/src/parser/parser/parsable_trait.rs
+++ b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
@@ -496,6 +496,19 @@ where
 {
     let signature = function.signature();
     let mut formula_realm = signature.realm();
+    let args = args.into_iter().collect_vec();
+
+    // check arity (before zipping with the signature, which would drop the extra arguments)
+    if !signature.args_size().contains(&args.len().into()) {
+        let range = signature.args_size();
+        bail_at!(
+            span,
+            "wrong number of arguments: got {}, expected [{}, {}]",
+            args.len(),
+            range.start(),
+            range.end()
+        )
+    }
 
     // parse further
     let n_args: Result<Vec<_>, _> = {
@@ -513,18 +526,6 @@ where
     };
     let n_args = n_args?;
 
-    // check arity
-    if !signature.args_size().contains(&n_args.len().into()) {
-        let range = signature.args_size();
-        bail_at!(
-            span,
-            "wrong number of arguments: got {}, expected [{}, {}]",
-            n_args.len(),
-            range.start(),
-            range.end()
-        )
-    }
-
     let ifun = function.get_function();
     // if it's a name, cast it
     let formula = if let Some(name) = ifun.as_name() {
-- 
2.43.0


From e1198462f1a47f20fb17f4e44939561a46cdadd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:36 +0000
Subject: [PATCH 14/33] fix: parse a symbolic <=> of two terms instead of
 looping

---
 .../cryptovampire/src/parser/parser/parsable_trait.rs  | 10 ++++++++++
 .../parser/parser/parsable_trait/cached_builtins.rs    |  6 ++++++
 2 files changed, 16 insertions(+)

diff --git a/crates/cryptovampire/src/parser/parser/parsable_trait.rs b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
index 15315a3..e7fc21e 100644
--- a/crates/cryptovampire/src/parser/parser/parsable_trait.rs
+++ b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
@@ -775,6 +775,16 @@ where
                     &self.terms,
                 )
                 .debug_continue(),
+                Realm::Symbolic if self.terms.len() == 2 => parse_application(
+                    env,
+                    &self.span,
+                    state,
+                    bvars,
+                    expected_sort,
+                    &IFF_TA_CACHE(),
+                    &self.terms,
+                )
+                .debug_continue(),
                 Realm::Symbolic => Self {
                     operation: ast::Operation::And,
                     terms: as_pair_of_term(
diff --git a/crates/cryptovampire/src/parser/parser/parsable_trait/cached_builtins.rs b/crates/cryptovampire/src/parser/parser/parsable_trait/cached_builtins.rs
index 1e5188c..000e76f 100644
--- a/crates/cryptovampire/src/parser/parser/parsable_trait/cached_builtins.rs
+++ b/crates/cryptovampire/src/parser/parser/parsable_trait/cached_builtins.rs
@@ -27,6 +27,12 @@ pub(crate) fn EQUALITY_TA_CACHE<'a, 'str, 'bump, S>() -> MOw<'a, FunctionCache<'
     MOw::Owned((*EQUALITY_TA).into())
 }
 
+// #[dynamic]
+#[allow(non_snake_case)]
+pub(crate) fn IFF_TA_CACHE<'a, 'str, 'bump, S>() -> MOw<'a, FunctionCache<'str, 'bump, S>> {
+    MOw::Owned((*IFF_TA).into())
+}
+
 // #[dynamic]
 // #[allow(non_snake_case)]
 // pub(crate) fn IFF_CACHE<'a, 'str, 'bump>() -> MOw<'a, FunctionCache<'str, 'bump>> {
-- 
2.43.0


From 240d05afce0c895d88976f28f2f885c58833df85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:48 +0000
Subject: [PATCH 15/33] fix: propagating evaluate instantiates the free
 variables of a quantifier

---
 .../problem/general_assertions/assertion_preprocessor.rs    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/cryptovampire/src/problem/general_assertions/assertion_preprocessor.rs b/crates/cryptovampire/src/problem/general_assertions/assertion_preprocessor.rs
index b203578..690cfc8 100644
--- a/crates/cryptovampire/src/problem/general_assertions/assertion_preprocessor.rs
+++ b/crates/cryptovampire/src/problem/general_assertions/assertion_preprocessor.rs
@@ -86,7 +86,7 @@ fn preprocess_after_eval<'bump>(
                     InnerQuantifier::Forall { content } | InnerQuantifier::Exists { content } => {
                         Some({
                             let content = content.apply_substitution2(&FrozenSubstF::new_from(
-                                bound_variables.iter().map(Variable::id).collect_vec(),
+                                free_variables.iter().map(Variable::id).collect_vec(),
                                 args,
                             ));
                             let content = preprocess_after_eval(content.as_ref(), env);
@@ -94,12 +94,12 @@ fn preprocess_after_eval<'bump>(
                             let q = match inner {
                                 InnerQuantifier::Forall { .. } => {
                                     formula::quantifier::Quantifier::Forall {
-                                        variables: free_variables.clone(),
+                                        variables: bound_variables.clone(),
                                     }
                                 }
                                 InnerQuantifier::Exists { .. } => {
                                     formula::quantifier::Quantifier::Exists {
-                                        variables: free_variables.clone(),
+                                        variables: bound_variables.clone(),
                                     }
                                 }
                                 _ => unreachable!(),
-- 
2.43.0


From a80df16e3a07224a96705592d82ced5fb69183a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:01 +0000
Subject: [PATCH 16/33] fix: squirrel tuples keep the order of their elements

---
 .../converters/helper_functions/convertion_functions.rs        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/squirrel/converters/helper_functions/convertion_functions.rs b/crates/cryptovampire/src/squirrel/converters/helper_functions/convertion_functions.rs
index 277fdcb..a442b77 100644
--- a/crates/cryptovampire/src/squirrel/converters/helper_functions/convertion_functions.rs
+++ b/crates/cryptovampire/src/squirrel/converters/helper_functions/convertion_functions.rs
@@ -301,7 +301,8 @@ pub fn convert_tuple<'a>(
 ) -> RAoO<ast::Term<'a, StrRef<'a>>> {
     let empty =
         mdo! { pure ast::Application::new_app(Default::default(),EMPTY_FUN_NAME.into(), []).into()};
-    elements.iter().fold(empty, |acc, t| {
+    // nested to the right, as expected by [convert_projection]
+    elements.iter().rev().fold(empty, |acc, t| {
         let acc = acc?;
         let t = t.convert(ctx)?;
         mdo! {
-- 
2.43.0


From 2acb0f41eab93d1c9e81e218ce01e2cb1eb6c353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:13 +0000
Subject: [PATCH 17/33] fix: int-ctxt looks for encryptions in every subterm

---
 crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs b/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs
index 652e1fd..ce2769c 100644
--- a/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs
+++ b/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs
@@ -235,7 +235,7 @@ impl<'bump> IntCtxt<'bump> {
         // with variables unchanged
         let candidates_enc = pbl
             .list_top_level_terms()
-            // .flat_map(move |f| f.iter()) // sad...
+            .flat_map(|f| f.iter_with(AllTermsIterator, ())) // sad...
             .filter_map(|formula| match formula.as_ref() {
                 RichFormula::Fun(fun, args) => {
                     if fun == &self.enc {
-- 
2.43.0


From fbbca2f482e2b42054a5a3835d3f5f2a5b9c03ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:19 +0000
Subject: [PATCH 18/33] fix: int-ctxt side condition quantifies over the
 variables of both keys

---
 crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs b/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs
index ce2769c..b25c1cf 100644
--- a/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs
+++ b/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs
@@ -364,7 +364,7 @@ impl<'bump> IntCtxt<'bump> {
                                     let unifier_m = unify(&m1, &m2)?;
 
                                     let free_vars = BTreeSet::from_iter(
-                                        [&r1, &m1, &k1, &r2, &m2, &r2]
+                                        [&r1, &m1, &k1, &r2, &m2, &k2]
                                             .into_iter()
                                             .flat_map(|f| f.free_vars_iter()),
                                     );
-- 
2.43.0


From 05b948bb393ed83b882478cb5a389f794ad83991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:26 +0000
Subject: [PATCH 19/33] fix: int-ctxt rejects randomness shared by distinct
 encryptions

---
 .../src/problem/crypto_assumptions/int_ctxt.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs b/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs
index b25c1cf..770a744 100644
--- a/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs
+++ b/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs
@@ -19,7 +19,7 @@ use crate::{
     formula::{
         file_descriptior::{axioms::Axiom, declare::Declaration},
         formula::{ands, forall, meq, ARichFormula, RichFormula},
-        function::{builtin::TRUE, Function},
+        function::{builtin::{FALSE, TRUE}, Function},
         function::{inner::subterm::Subsubterm, name_caster_collection::NameCasterCollection},
         manipulation::Unifier,
         sort::{
@@ -328,7 +328,8 @@ impl<'bump> IntCtxt<'bump> {
                         #[allow(clippy::needless_borrow)]
                         let candidates_enc = candidates_enc
                             .iter()
-                            .tuple_combinations::<(_, _)>()
+                            // an encryption may also collide with another instance of itself
+                            .cartesian_product(candidates_enc.iter())
                             .filter_map(
                                 |(
                                     IntCtxtEncCandidates {
@@ -358,10 +359,17 @@ impl<'bump> IntCtxt<'bump> {
                                     let unfier_r = unify(&r1, &r2)?;
 
                                     let k2 = k2.translate_vars(max_var).into_arc();
-                                    let unifier_k12 = unify(&k1, &k2)?;
+                                    let unifier_k12 = unify(&k1, &k2);
 
                                     let m2 = m2.translate_vars(max_var).into_arc();
-                                    let unifier_m = unify(&m1, &m2)?;
+                                    let unifier_m = unify(&m1, &m2);
+
+                                    // the same randomness with different keys or messages
+                                    // can never be allowed
+                                    let same_key_and_message = match (unifier_k12, unifier_m) {
+                                        (Some(k), Some(m)) => ands(itertools::chain!(k, m)),
+                                        _ => FALSE.clone().into_arc(),
+                                    };
 
                                     let free_vars = BTreeSet::from_iter(
                                         [&r1, &m1, &k1, &r2, &m2, &k2]
@@ -372,7 +380,7 @@ impl<'bump> IntCtxt<'bump> {
                                     Some(forall(
                                         free_vars,
                                         ands(itertools::chain!(unfier_r, unifier_k,))
-                                            >> ands(itertools::chain!(unifier_k12, unifier_m)),
+                                            >> same_key_and_message,
                                     ))
                                 },
                             );
-- 
2.43.0


From 3d3db35e2b96d465c219f86219730e370adf31e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:53 +0000
Subject: [PATCH 20/33] fix: well-sorted and fully constrained general int-ctxt
 axiom

---
 .../cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs b/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs
index 770a744..592f689 100644
--- a/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs
+++ b/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs
@@ -139,7 +139,7 @@ impl<'bump> IntCtxt<'bump> {
                 formula: mforall!(c!1:message_sort, k!3:nonce_sort; {
                     let k_f = nc.cast(message_sort, k);
                     // ev.eval(self.verify.apply([c.into(), k_f.clone()])) >>
-                    (!meq(ev.eval(self.dec.f([c, k])), ev.eval(self.fail()))) >>
+                    (!meq(ev.eval(self.dec.f([c.into(), k_f.clone()])), ev.eval(self.fail()))) >>
                     mexists!(m!4:message_sort, r!5:nonce_sort; {
                         let r_f = nc.cast(message_sort, r);
                         let c2 = self.enc.f([m.into(), r_f.clone(), k_f.clone()]);
@@ -149,7 +149,7 @@ impl<'bump> IntCtxt<'bump> {
                             subterm_key.f_a(env,  k, c) |
                             subterm_rand.f_a(env, r, c) |
                             (mexists!(m2!6:message_sort, k2!7:message_sort, r2!8:message_sort; {
-                                subterm_main.f_a(env, self.enc.f([m2.into(), r2.into(), k_f.clone()]), c.into())
+                                subterm_main.f_a(env, self.enc.f([m2, r2, k2]), c.into())
                                 & (
                                     (mforall!(n!9:nonce_sort; {!meq(r2, nc.cast(message_sort, n))})) |
                                     ( meq(r2, r_f.clone()) &
-- 
2.43.0


From 657cd2d8f67974691f9ba2b369837b4b62b44295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:46 +0000
Subject: [PATCH 21/33] fix: int-ctxt side condition covers encryptions under
 find-such-that

---
 .../problem/crypto_assumptions/int_ctxt.rs    | 30 +++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs b/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs
index 592f689..abee801 100644
--- a/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs
+++ b/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs
@@ -21,7 +21,7 @@ use crate::{
         formula::{ands, forall, meq, ARichFormula, RichFormula},
         function::{builtin::{FALSE, TRUE}, Function},
         function::{inner::subterm::Subsubterm, name_caster_collection::NameCasterCollection},
-        manipulation::Unifier,
+        manipulation::{FrozenSubstF, Unifier},
         sort::{
             builtins::{CONDITION, MESSAGE, NAME},
             Sort,
@@ -235,7 +235,7 @@ impl<'bump> IntCtxt<'bump> {
         // with variables unchanged
         let candidates_enc = pbl
             .list_top_level_terms()
-            .flat_map(|f| f.iter_with(AllTermsIterator, ())) // sad...
+            .flat_map(terms_and_quantified_terms) // sad...
             .filter_map(|formula| match formula.as_ref() {
                 RichFormula::Fun(fun, args) => {
                     if fun == &self.enc {
@@ -431,6 +431,32 @@ impl<'bump> IntCtxt<'bump> {
     }
 }
 
+/// every subterm of `formula`, including those under term algebra quantifiers
+fn terms_and_quantified_terms<'bump>(formula: &ARichFormula<'bump>) -> Vec<ARichFormula<'bump>> {
+    let mut terms = formula
+        .iter_with(AllTermsIterator, ())
+        .cloned()
+        .collect_vec();
+    let quantified = terms
+        .iter()
+        .filter_map(|t| match t.as_ref() {
+            RichFormula::Fun(fun, args) => fun.as_quantifer().map(|q| (q, args)),
+            _ => None,
+        })
+        .flat_map(|(q, args)| {
+            let substitution = FrozenSubstF::new_from(
+                q.free_variables.iter().map(Variable::id).collect_vec(),
+                args,
+            );
+            q.get_content_iter()
+                .flat_map(|c| terms_and_quantified_terms(&c.apply_substitution2(&substitution)))
+                .collect_vec()
+        })
+        .collect_vec();
+    terms.extend(quantified);
+    terms
+}
+
 fn define_subterms<'bump>(
     env: &Environement<'bump>,
     pbl: &Problem<'bump>,
-- 
2.43.0


From c48d213fe1d34be6d0c1635f56368616d3f32ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:09 +0000
Subject: [PATCH 22/33] fix: p2 of a tuple is its second component in the
 indistinguishability rules

---
 crates/indistinguishability/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/indistinguishability/src/main.rs b/crates/indistinguishability/src/main.rs
index c42c9b8..c237864 100644
--- a/crates/indistinguishability/src/main.rs
+++ b/crates/indistinguishability/src/main.rs
@@ -49,7 +49,7 @@ mk_consts!(nonce enc dec pl ite tuple p1 p2 eq length zeroes mtrue mfalse etq in
 fn make_general_rules() -> Vec<Rewrite<CCSA, ()>> {
     vec![
         rewrite!("simpl-tuple-1"; "(p1 (tuple ?a ?b))" => "?a"),
-        rewrite!("simpl-tuple-2"; "(p2 (tuple ?a ?b))" => "?a"),
+        rewrite!("simpl-tuple-2"; "(p2 (tuple ?a ?b))" => "?b"),
         rewrite!("simpl-dec"; "(dec (enc ?m ?r (pk ?k)) ?k)" => "?m"),
         rewrite!("ite-base-1"; "(ite mtrue ?a ?b)" => "?a"),
         rewrite!("ite-base-2"; "(ite mfalse ?a ?b)" => "?b"),
-- 
2.43.0


From f5b8238a32f175af0194062a55a996976ec2913d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:11 +0000
Subject: [PATCH 23/33] fix: a conditional on an equality is equal to its else
 branch, not to its then branch

---
 crates/indistinguishability/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/indistinguishability/src/main.rs b/crates/indistinguishability/src/main.rs
index c237864..74e5511 100644
--- a/crates/indistinguishability/src/main.rs
+++ b/crates/indistinguishability/src/main.rs
@@ -54,7 +54,7 @@ fn make_general_rules() -> Vec<Rewrite<CCSA, ()>> {
         rewrite!("ite-base-1"; "(ite mtrue ?a ?b)" => "?a"),
         rewrite!("ite-base-2"; "(ite mfalse ?a ?b)" => "?b"),
         rewrite!("ite-same"; "(ite ?c ?a ?a)" => "?a"),
-        rewrite!("ite-eq-1"; "(ite (eq ?a ?b) ?a ?b)" => "?a"),
+        rewrite!("ite-eq-1"; "(ite (eq ?a ?b) ?b ?a)" => "?a"),
         rewrite!("ite-eq-2"; "(ite (eq ?a ?b) ?a ?b)" => "?b"),
         rewrite!("eq-refl"; "(eq ?a ?a)" => "mtrue"),
         rewrite!("eq-sym"; "(eq ?a ?b)" => "(eq ?b ?a)"),
-- 
2.43.0


From 6860a46eeb59ea0795c4fbb43c20a1edfac50d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:02 +0000
Subject: [PATCH 24/33] fix: the value of an assigned cell equals the value of
 its content

The axiom for an assignment equated the cell and its content as terms. In
the symbolic realm both are built from distinct constructors, so the axiom
was contradictory and every query was proven.
---
 crates/cryptovampire/src/problem/crypto_assumptions/cell.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/problem/crypto_assumptions/cell.rs b/crates/cryptovampire/src/problem/crypto_assumptions/cell.rs
index 8685f1d..7272280 100644
--- a/crates/cryptovampire/src/problem/crypto_assumptions/cell.rs
+++ b/crates/cryptovampire/src/problem/crypto_assumptions/cell.rs
@@ -79,7 +79,11 @@ impl Cell {
                                 (
                                     formula::forall(
                                         bvars.clone(),
-                                        ands.shallow_copy() >> formula::meq(&cell_call, content),
+                                        ands.shallow_copy()
+                                            >> formula::meq(
+                                                pbl.evaluator().eval(&cell_call),
+                                                pbl.evaluator().eval(content),
+                                            ),
                                     ),
                                     formula::forall(bvars, !ands.shallow_copy()),
                                 )
-- 
2.43.0


From 8de609ddbce62de0f1e7e3c9a390b17e625161c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:03 +0000
Subject: [PATCH 25/33] fix: a negation evaluates to the negation, not only to
 something implying it

Only one direction was stated, so a negated condition could be false
together with the condition and valid queries were reported as disproven.
---
 .../src/problem/general_assertions/evaluate.rs              | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/cryptovampire/src/problem/general_assertions/evaluate.rs b/crates/cryptovampire/src/problem/general_assertions/evaluate.rs
index f2c721e..32897ab 100644
--- a/crates/cryptovampire/src/problem/general_assertions/evaluate.rs
+++ b/crates/cryptovampire/src/problem/general_assertions/evaluate.rs
@@ -231,8 +231,10 @@ fn generate_connectives<'bump>(
         }))),
         Connective::BaseConnective(BaseConnective::Not) => {
             assertions.push(Axiom::base(mforall!(a!0:cond; {
-                pbl.evaluator().eval(function.apply([a])) >>
-                    !pbl.evaluator().eval(a)
+                meq(
+                    pbl.evaluator().eval(function.apply([a])),
+                    !pbl.evaluator().eval(a),
+                )
             })))
         }
         Connective::BaseConnective(c) => {
-- 
2.43.0


From 3bab23dc6bdb0e1d53ef0936872b695656cb5b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:09 +0000
Subject: [PATCH 26/33] fix: a quantified condition evaluates to the quantified
 formula in both directions

Only one direction was stated, so a quantified condition could be false
although the formula holds and valid queries were reported as disproven.
---
 .../problem/general_assertions/evaluate.rs    | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/crates/cryptovampire/src/problem/general_assertions/evaluate.rs b/crates/cryptovampire/src/problem/general_assertions/evaluate.rs
index 32897ab..c88a390 100644
--- a/crates/cryptovampire/src/problem/general_assertions/evaluate.rs
+++ b/crates/cryptovampire/src/problem/general_assertions/evaluate.rs
@@ -267,20 +267,26 @@ pub fn generate_quantifier<'bump>(
     match q.inner() {
         InnerQuantifier::Forall { content } => {
             assertions.push(Axiom::base(mforall!(q.free_variables.iter().cloned(), {
-                pbl.evaluator()
-                    .eval(function.apply(q.free_variables.iter().map(|v| v.into_formula())))
-                    >> mforall!(q.bound_variables.iter().cloned(), {
+                meq(
+                    pbl.evaluator().eval(
+                        function.apply(q.free_variables.iter().map(|v| v.into_formula())),
+                    ),
+                    mforall!(q.bound_variables.iter().cloned(), {
                         pbl.evaluator().eval(content)
-                    })
+                    }),
+                )
             })))
         }
         InnerQuantifier::Exists { content } => {
             assertions.push(Axiom::base(mforall!(q.free_variables.iter().cloned(), {
-                pbl.evaluator()
-                    .eval(function.apply(q.free_variables.iter().map(|v| v.into_formula())))
-                    >> mexists!(q.bound_variables.iter().cloned(), {
+                meq(
+                    pbl.evaluator().eval(
+                        function.apply(q.free_variables.iter().map(|v| v.into_formula())),
+                    ),
+                    mexists!(q.bound_variables.iter().cloned(), {
                         pbl.evaluator().eval(content)
-                    })
+                    }),
+                )
             })))
         }
         InnerQuantifier::FindSuchThat {
-- 
2.43.0


From 3fede205eeaf5996bb6e63c3853053272655aa33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:05 +0000
Subject: [PATCH 27/33] fix: a subterm search does not capture the variables of
 the terms it is about

---
 .../src/formula/utils/formula_expander.rs     | 31 ++++++++++++++-----
 crates/cryptovampire/src/subterm/mod.rs       | 15 ++++++++-
 2 files changed, 37 insertions(+), 9 deletions(-)

diff --git a/crates/cryptovampire/src/formula/utils/formula_expander.rs b/crates/cryptovampire/src/formula/utils/formula_expander.rs
index 43a5b41..dc69417 100644
--- a/crates/cryptovampire/src/formula/utils/formula_expander.rs
+++ b/crates/cryptovampire/src/formula/utils/formula_expander.rs
@@ -58,6 +58,10 @@ pub struct UnfoldingState<'bump> {
     /// The variables bound by the search (quantifiers or otherwise)
     #[builder(setter(into), default = "Rc::new([])")]
     bound_variables: Rc<[Variable<'bump>]>, // faster than Vec in our usecase
+    /// Variables used around the search (e.g., in the term we look for). They
+    /// must not be captured by the variables bound by the search
+    #[builder(setter(into), default = "Rc::new([])")]
+    reserved_variables: Rc<[Variable<'bump>]>,
     /// Some condition to get here
     #[builder(setter(into, strip_option), default)]
     guard: Option<ARichFormula<'bump>>,
@@ -104,6 +108,13 @@ impl<'bump> UnfoldingState<'bump> {
         &self.bound_variables
     }
 
+    /// The variables a newly bound variable must not collide with
+    pub fn taken_variables(&self) -> Rc<[Variable<'bump>]> {
+        chain!(self.bound_variables.iter(), self.reserved_variables.iter())
+            .cloned()
+            .collect()
+    }
+
     /// Same as [Self::bound_variables()] but with an owned [Rc]
     pub fn owned_bound_variable(&self) -> Rc<[Variable<'bump>]> {
         self.bound_variables.clone()
@@ -214,15 +225,14 @@ impl<'bump> Unfolder<'bump> {
         kind: step_macro::MessageOrCondition,
     ) -> Vec<Unfolder<'bump>> {
         destvec!([arg] = args);
-        let state_variables = self.state.bound_variables();
+        let state_variables = &self.state.taken_variables();
         steps
             .into_iter()
             .map(|s| {
                 let content = match kind {
                     step_macro::MessageOrCondition::Condition => s.condition_arc(),
                     step_macro::MessageOrCondition::Message => s.message_arc(),
-                }
-                .shallow_copy();
+                };
 
                 let collision_var =
                     make_collision_avoiding_subst(s.free_variables(), state_variables);
@@ -235,7 +245,10 @@ impl<'bump> Unfolder<'bump> {
                     nvars.iter().copied(),
                     meq(arg, s.function().f(nvars.iter().map(ARichFormula::from))),
                 );
-                Unfolder { state, content }
+                Unfolder {
+                    state,
+                    content: content.apply_substitution2(&collision_var),
+                }
             })
             .collect_vec()
     }
@@ -276,7 +289,8 @@ impl<'bump> Unfolder<'bump> {
             args.iter().cloned().collect_vec(),
         );
         let collistion_avoidance = {
-            let to_avoid = chain!(q.free_variables.iter(), self.state.bound_variables())
+            let taken = self.state.taken_variables();
+            let to_avoid = chain!(q.free_variables.iter(), taken.iter())
                 .cloned()
                 .collect_vec();
             make_collision_avoiding_subst(q.bound_variables.iter(), &to_avoid)
@@ -315,7 +329,8 @@ fn unfold_cell_or_input<'b, 'bump>(
 where
     'bump: 'b,
 {
-    let state_variables = state.bound_variables();
+    let state_variables = state.taken_variables();
+    let input_state_variables = state_variables.clone();
     // let max_var = state_variables.iter().map(|v| v.id).max().unwrap_or(0);
     trace!("expand_cell_or_input");
     let Ancestors { input, cells } = graph.ancestors(to_expand).unwrap();
@@ -336,7 +351,7 @@ where
 
             let collision_var = make_collision_avoiding_subst(
                 chain!(vars.iter(), fresh_vars.iter()),
-                state_variables,
+                &state_variables,
             );
 
             let step_f = step.function().f(vars.iter().map(|v| collision_var.get(v)));
@@ -364,7 +379,7 @@ where
             steps.into_iter().flat_map(move |step| {
                 trace!("in input");
                 let vars = step.free_variables();
-                let collision_var = make_collision_avoiding_subst(vars, state_variables);
+                let collision_var = make_collision_avoiding_subst(vars, &input_state_variables);
                 let step_f = step.function().f(vars.iter().map(|v| collision_var.get(v)));
 
                 [step.message_arc(), step.condition_arc()]
diff --git a/crates/cryptovampire/src/subterm/mod.rs b/crates/cryptovampire/src/subterm/mod.rs
index 8c29c35..1da9b97 100644
--- a/crates/cryptovampire/src/subterm/mod.rs
+++ b/crates/cryptovampire/src/subterm/mod.rs
@@ -402,6 +402,14 @@ where
         trace!("------------------- preprocess_terms ---------------------");
         let realm = env.get_realm();
 
+        let m = m.into_iter().collect_vec();
+        // the variables that must not be captured
+        let reserved_variables: Rc<[_]> =
+            itertools::chain!([x], m.iter().map(FormlAndVars::formula))
+                .flat_map(|f| f.used_vars_iter())
+                .unique()
+                .collect();
+
         // let pile = vec![(ExpantionState::None, m)];
         let pile = //repeat_n_zip(ExpantionState::from_deeper_kind(deeper_kind), m).collect_vec();
             m.into_iter().map(|FormlAndVars { bounded_variables, formula }| {
@@ -415,7 +423,12 @@ where
                     warn!("collision in the variables ({:} in {:}, {:?})",x, &formula, &bounded_variables)
                 }
                 // (, formula)
-                let passing = UnfoldingStateBuilder::default().flags(deeper_kind).bound_variables(bounded_variables).build().unwrap();
+                let passing = UnfoldingStateBuilder::default()
+                    .flags(deeper_kind)
+                    .bound_variables(bounded_variables)
+                    .reserved_variables(reserved_variables.clone())
+                    .build()
+                    .unwrap();
                 logic_formula::Content::Next { formula, passing }
             }).collect_vec();
         OwnedPile::new(
-- 
2.43.0


From e12fe1fdd1f07af5bc37b9f493bd4588bf9aaf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:31 +0000
Subject: [PATCH 28/33] fix: exec unfolds to the conditions of all the steps up
 to it

---
 .../src/formula/utils/formula_expander.rs     | 25 ++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/formula/utils/formula_expander.rs b/crates/cryptovampire/src/formula/utils/formula_expander.rs
index dc69417..6697604 100644
--- a/crates/cryptovampire/src/formula/utils/formula_expander.rs
+++ b/crates/cryptovampire/src/formula/utils/formula_expander.rs
@@ -329,6 +329,7 @@ fn unfold_cell_or_input<'b, 'bump>(
 where
     'bump: 'b,
 {
+    let steps = steps.into_iter().collect_vec();
     let state_variables = state.taken_variables();
     let input_state_variables = state_variables.clone();
     // let max_var = state_variables.iter().map(|v| v.id).max().unwrap_or(0);
@@ -374,6 +375,28 @@ where
             }
         },
     );
+    // `exec` is also made of the conditions of all the steps so far
+    let exec_iter = to_expand
+        .is_exec()
+        .then(|| {
+            steps
+                .iter()
+                .map(|step| {
+                    let vars = step.free_variables();
+                    let collision_var = make_collision_avoiding_subst(vars, &input_state_variables);
+                    let step_f = step.function().f(vars.iter().map(|v| collision_var.get(v)));
+                    Unfolder {
+                        state: state.add_condition(
+                            vars.iter().map(|v| collision_var.get_var(v)),
+                            Step::before(step_f, step_origin.shallow_copy()),
+                        ),
+                        content: step.condition_arc().apply_substitution2(&collision_var),
+                    }
+                })
+                .collect_vec()
+        })
+        .into_iter()
+        .flatten();
     let input_iter = input
         .then(move || {
             steps.into_iter().flat_map(move |step| {
@@ -400,7 +423,7 @@ where
         .into_iter()
         .flatten();
 
-    itertools::chain!(cells_iter, input_iter)
+    itertools::chain!(cells_iter, exec_iter, input_iter)
 }
 
 /// create a substitution that remaps `vars` such that it doesn't collide with `base`
-- 
2.43.0


From 51c286c167482ec21359dcfc9fbe1710b39c8876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:20 +0000
Subject: [PATCH 29/33] fix: mgu follows the bindings of variables that are
 already bound

A variable bound to another variable could not be unified with a function
application any more, so unifiable terms were reported as not unifiable and
the subterm search missed occurrences.
---
 .../src/formula/manipulation/unifier.rs       | 74 ++++++++++---------
 1 file changed, 40 insertions(+), 34 deletions(-)

diff --git a/crates/cryptovampire/src/formula/manipulation/unifier.rs b/crates/cryptovampire/src/formula/manipulation/unifier.rs
index f6c489e..e17a9c8 100644
--- a/crates/cryptovampire/src/formula/manipulation/unifier.rs
+++ b/crates/cryptovampire/src/formula/manipulation/unifier.rs
@@ -119,54 +119,60 @@ impl<'bump> Unifier<'bump> {
     }
 
     pub fn mgu(left: &ARichFormula<'bump>, right: &ARichFormula<'bump>) -> Option<Self> {
+        /// follows the bindings of `f` as long as it is a bound variable
+        fn resolve<'bump>(
+            f: &ARichFormula<'bump>,
+            left_p: &MulitpleVarSubstF<'bump>,
+            right_p: &MulitpleVarSubstF<'bump>,
+        ) -> ARichFormula<'bump> {
+            let mut f = f.shallow_copy();
+            while let RichFormula::Var(v) = f.as_ref() {
+                match left_p.maybe_get(v.id).or(right_p.maybe_get(v.id)) {
+                    Some(next) => f = next.shallow_copy(),
+                    None => break,
+                }
+            }
+            f
+        }
+
+        /// does the variable `id` occur in `f`, once the bindings are applied?
+        fn occurs<'bump>(
+            id: uvar,
+            f: &ARichFormula<'bump>,
+            left_p: &MulitpleVarSubstF<'bump>,
+            right_p: &MulitpleVarSubstF<'bump>,
+        ) -> bool {
+            match resolve(f, left_p, right_p).as_ref() {
+                RichFormula::Var(v) => v.id == id,
+                RichFormula::Fun(_, args) => {
+                    args.iter().any(|arg| occurs(id, arg, left_p, right_p))
+                }
+                RichFormula::Quantifier(_, arg) => occurs(id, arg, left_p, right_p),
+            }
+        }
+
         fn aux<'bump>(
             left: &ARichFormula<'bump>,
             right: &ARichFormula<'bump>,
             left_p: &mut MulitpleVarSubstF<'bump>,
             right_p: &mut MulitpleVarSubstF<'bump>,
         ) -> bool {
+            let left = resolve(left, left_p, right_p);
+            let right = resolve(right, left_p, right_p);
             match (left.as_ref(), right.as_ref()) {
                 (RichFormula::Var(vl), RichFormula::Var(vr)) if vl == vr => true,
-                (RichFormula::Var(v), _) => match left_p.maybe_get(v.id).cloned() {
-                    Some(nl) if nl.is_var() => match (nl.as_ref(), right.as_ref()) {
-                        (RichFormula::Var(v2), RichFormula::Var(v3)) => {
-                            v2 == v3 || {
-                                if let Some(r) = right_p.maybe_get_as_rf(v3.id) {
-                                    nl.as_ref() == r
-                                } else {
-                                    right_p.add(v3.id, nl.shallow_copy());
-                                    true
-                                }
-                            }
-                        }
-                        _ => false,
-                    },
-                    Some(nl) => aux(&nl, right, left_p, right_p),
-                    None => {
+                (RichFormula::Var(v), _) => {
+                    !occurs(v.id, &right, left_p, right_p) && {
                         left_p.add(v.id, right.shallow_copy());
                         true
                     }
-                },
-                (_, RichFormula::Var(v)) => match right_p.maybe_get(v.id).cloned() {
-                    Some(nr) if nr.is_var() => match (nr.as_ref(), left.as_ref()) {
-                        (RichFormula::Var(v2), RichFormula::Var(v3)) => {
-                            v2 == v3 || {
-                                if let Some(r) = left_p.maybe_get(v3.id) {
-                                    &nr == r
-                                } else {
-                                    left_p.add(v3.id, nr.shallow_copy());
-                                    true
-                                }
-                            }
-                        }
-                        _ => false,
-                    },
-                    Some(nr) => aux(left, &nr, left_p, right_p),
-                    None => {
+                }
+                (_, RichFormula::Var(v)) => {
+                    !occurs(v.id, &left, left_p, right_p) && {
                         right_p.add(v.id, left.shallow_copy());
                         true
                     }
-                },
+                }
                 (RichFormula::Fun(fl, args_l), RichFormula::Fun(fr, args_r))
                     if fl == fr && args_l.len() == args_r.len() =>
                 {
-- 
2.43.0


From e1b71506b7550b023911a0a0b7058b6f3d41cddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:42 +0000
Subject: [PATCH 30/33] fix: keep vampire's rewrites and subterm relations out
 of standard smt files

`--eval-rewrite`, `--crypto-rewrite` and `--vampire-subterm` leaked into the
files given to z3 and into those of `to-file --cvc5`, which no smt solver
accepts.
---
 crates/cryptovampire/src/cli.rs       | 3 ++-
 crates/cryptovampire/src/runner/z3.rs | 7 +++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/cryptovampire/src/cli.rs b/crates/cryptovampire/src/cli.rs
index 6e9f412..c67a3a2 100644
--- a/crates/cryptovampire/src/cli.rs
+++ b/crates/cryptovampire/src/cli.rs
@@ -320,7 +320,7 @@ impl<'bump> IntoWith<Environement<'bump>, &'bump ScopedContainer<'bump>> for &Ar
             // *ignore_lemmas => Flags::IGNORE_LEMMAS
         );
 
-        let rewrite_flags = mk_bitflag!(
+        let mut rewrite_flags = mk_bitflag!(
             *eval_rewrite => RewriteFlags::EVALUATE,
             *crypto_rewrite => RewriteFlags::CRYPTOGRAPHY
         );
@@ -360,6 +360,7 @@ impl<'bump> IntoWith<Environement<'bump>, &'bump ScopedContainer<'bump>> for &Ar
                 if *cvc5 {
                     flags -= Flags::ASSERT_GROUND | Flags::ASSERT_NOT | Flags::ASSERT_THEORY;
                     subterm_flags -= SubtermFlags::VAMPIRE;
+                    rewrite_flags = RewriteFlags::empty();
                 }
                 SolverConfig {
                     enable_solvers: EnabledSolvers::empty(),
diff --git a/crates/cryptovampire/src/runner/z3.rs b/crates/cryptovampire/src/runner/z3.rs
index 30158fa..8069138 100644
--- a/crates/cryptovampire/src/runner/z3.rs
+++ b/crates/cryptovampire/src/runner/z3.rs
@@ -10,7 +10,7 @@ use utils::traits::MyWriteTo;
 
 use crate::{
     ensure,
-    environement::environement::Flags,
+    environement::environement::{Flags, RewriteFlags, SubtermFlags},
     error::{BaseContext, CVContext},
     runner::{exec_cmd, RetCodeAndStdout, RunnerOut},
     smt::SmtFile,
@@ -42,7 +42,10 @@ impl Runner for Z3Runner {
         mut file: W,
     ) -> crate::Result<()> {
         let mut env = env.clone();
-        env.options_mut().flags -= Flags::NON_SMT_STANDARD;
+        let options = env.options_mut();
+        options.flags -= Flags::NON_SMT_STANDARD;
+        options.rewrite_flags = RewriteFlags::empty();
+        options.subterm_flags -= SubtermFlags::VAMPIRE;
         let env = &env;
 
         SmtFile::from_general_file(env, pbl.into_general_file(env)) // gen smt
-- 
2.43.0


From 9f1c25cf7f4ebbe7b64ed0f6a10935b6211ac44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:19 +0000
Subject: [PATCH 31/33] fix: give z3 its time limit in whole seconds

z3 rejects `-T:0.5`, so every run with a fractional `--timeout` failed.
---
 crates/cryptovampire/src/runner/runners.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/runner/runners.rs b/crates/cryptovampire/src/runner/runners.rs
index 87e3954..c1925da 100644
--- a/crates/cryptovampire/src/runner/runners.rs
+++ b/crates/cryptovampire/src/runner/runners.rs
@@ -131,7 +131,8 @@ impl TryFrom<SolverConfig> for Runners {
         };
         let z3 = z3.map(|location| Z3Runner {
             location,
-            extra_args: vec![format!("-T:{timeout:}")],
+            // z3 only takes whole seconds
+            extra_args: vec![format!("-T:{}", timeout.ceil() as u64)],
         });
 
         let cvc5 = None;
-- 
2.43.0


From 332feb6c8346932f96a158bb69cc848948d049a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:12 +0000
Subject: [PATCH 32/33] fix: accept options on a step that has no assignments

The grammar makes both optional, but the options were first tried as
assignments, which ended in unreachable!() as soon as one option was given.
---
 crates/cryptovampire/src/parser/ast/step.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/cryptovampire/src/parser/ast/step.rs b/crates/cryptovampire/src/parser/ast/step.rs
index 75d07b1..bdfe6c8 100644
--- a/crates/cryptovampire/src/parser/ast/step.rs
+++ b/crates/cryptovampire/src/parser/ast/step.rs
@@ -55,8 +55,11 @@ boiler_plate!(@ Step, 'a, step; |p| {
     let message = p.next().unwrap().try_into()?;
 
     // temporary save the Rule obj
-    let assignement_rule = p.next();
-    let options_rule = p.next();
+    let (assignement_rule, options_rule) = match p.next() {
+        // the assignements can be omitted when there are options
+        Some(r) if r.as_rule() == Rule::options => (None, Some(r)),
+        r => (r, p.next()),
+    };
 
     // save the actual rule of the assignement for err management later
     let assignement_rule_rule = assignement_rule.as_ref().map(|a| a.as_rule());
-- 
2.43.0


From f670cc397964c754438ad41c8f77820eee285e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:45 +0000
Subject: [PATCH 33/33] fix: search the other side of an equality with a MAC
 for honest MACs

A comparison of a MAC with a term that is not itself a MAC is a
verification of that term, which has to be computed: the MACs inside it
are honest ones. It was not searched at all, so they were missed and
forgeries of them were excluded.
---
 .../problem/crypto_assumptions/uf_cma/subterm.rs   | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/crates/cryptovampire/src/problem/crypto_assumptions/uf_cma/subterm.rs b/crates/cryptovampire/src/problem/crypto_assumptions/uf_cma/subterm.rs
index c89cb36..6f4cdfb 100644
--- a/crates/cryptovampire/src/problem/crypto_assumptions/uf_cma/subterm.rs
+++ b/crates/cryptovampire/src/problem/crypto_assumptions/uf_cma/subterm.rs
@@ -166,19 +166,21 @@ impl<'bump> UfCmaMainSubtAux<'bump> {
             if f == *EQUALITY || f == *EQUALITY_TA;
             if let [left, right] = args.as_ref();
             then {
-                let mut nexts = Vec::with_capacity(2*4);
+                let mut nexts = Vec::with_capacity(2*2);
+                let mut found = false;
                 for e in [left, right] {
-                    if_chain!{
-                        if let RichFormula::Fun(m_mac, m_args) = e.as_ref();
-                        if *m_mac == uf_cma.mac();
-                        then {
+                    match e.as_ref() {
+                        RichFormula::Fun(m_mac, m_args) if *m_mac == uf_cma.mac() => {
                             debug_assert_eq!(m_args.len(), 2); // should be ensured by the *m_mac == uf_cma.mac() check
+                            found = true;
                             nexts.extend(m_args.iter().cloned())
                         }
+                        // the other side is part of the verification
+                        _ => nexts.push(e.clone()),
                     }
                 }
 
-                if !nexts.is_empty() {
+                if found {
                     return nexts.into_iter().collect()
                 }
              }
-- 
2.43.0

