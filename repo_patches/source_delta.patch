From 92f5039c8c8de04afacf7233d7c64d2e8b014d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:05 +0000
Subject: [PATCH 01/23] fix: model() no longer panics when a variable was
 created after the last solve

---
 varisat/src/solver.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/varisat/src/solver.rs b/varisat/src/solver.rs
index b46bcf8..93e1c19 100644
--- a/varisat/src/solver.rs
+++ b/varisat/src/solver.rs
@@ -196,7 +196,12 @@ impl<'a> Solver<'a> {
                             .global_from_user()
                             .get(user_var)
                             .expect("no existing global var for user var");
-                        ctx.part(ModelP).assignment()[global_var.index()]
+                        // Variables created after the model was found have no value in it.
+                        ctx.part(ModelP)
+                            .assignment()
+                            .get(global_var.index())
+                            .cloned()
+                            .flatten()
                             .map(|value| user_var.lit(value))
                     })
                     .collect(),
-- 
2.43.0


From 85947e50d0e815cedba81530a6f4f34e46622407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:30 +0000
Subject: [PATCH 02/23] fix: variables of implied assumptions no longer stay
 marked as assumed

---
 varisat/src/assumptions.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/varisat/src/assumptions.rs b/varisat/src/assumptions.rs
index c21d8cb..d2b4642 100644
--- a/varisat/src/assumptions.rs
+++ b/varisat/src/assumptions.rs
@@ -2,7 +2,7 @@
 
 use partial_ref::{partial, PartialRef};
 
-use varisat_formula::Lit;
+use varisat_formula::{Lit, Var};
 use varisat_internal_proof::{clause_hash, lit_hash, ClauseHash, ProofStep};
 
 use crate::{
@@ -17,6 +17,10 @@ use crate::{
 #[derive(Default)]
 pub struct Assumptions {
     assumptions: Vec<Lit>,
+    /// All variables marked as assumed.
+    ///
+    /// This includes the variables of implied assumptions that were removed from `assumptions`.
+    assumed_vars: Vec<Var>,
     failed_core: Vec<Lit>,
     user_failed_core: Vec<Lit>,
     assumption_levels: usize,
@@ -89,10 +93,10 @@ pub fn set_assumptions<'a>(
 
     let (assumptions, mut ctx_2) = ctx.split_part_mut(AssumptionsP);
 
-    for lit in assumptions.assumptions.iter() {
+    for var in assumptions.assumed_vars.drain(..) {
         ctx_2
             .part_mut(VariablesP)
-            .var_data_solver_mut(lit.var())
+            .var_data_solver_mut(var)
             .assumed = false;
     }
 
@@ -108,6 +112,7 @@ pub fn set_assumptions<'a>(
             .part_mut(VariablesP)
             .var_data_solver_mut(lit.var())
             .assumed = true;
+        assumptions.assumed_vars.push(lit.var());
     }
 
     proof::add_step(
-- 
2.43.0


From 1289f23fb89bdd551cc322dc5cc6672e57101cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:54 +0000
Subject: [PATCH 03/23] fix: failed core analysis no longer leaves a stale flag
 behind

---
 varisat/src/assumptions.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/varisat/src/assumptions.rs b/varisat/src/assumptions.rs
index d2b4642..98c0c89 100644
--- a/varisat/src/assumptions.rs
+++ b/varisat/src/assumptions.rs
@@ -238,6 +238,9 @@ fn analyze_assumption_conflict<'a>(
         }
     }
 
+    // If the assumption is false due to a removed unit clause it is not on the trail anymore.
+    flags[assumption.index()] = false;
+
     assumptions.failed_propagation_hashes.reverse();
 
     assumptions.user_failed_core.clear();
-- 
2.43.0


From c65675451a6a9268c7cba6a0af90f944068e897e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:52 +0000
Subject: [PATCH 04/23] fix: clauses after a unit conflict keep their clause
 ids

The checker stopped counting input clauses once the formula was known to be
unsatisfiable and gave the derived empty clause an id that belonged to an
input clause, so LRAT proofs of such formulas were wrong. The derived empty
clause was also emitted again, with the same id, on every further solve call.
---
 varisat-checker/src/clauses.rs |  3 +++
 varisat-checker/src/state.rs   | 13 ++++++++-----
 varisat/src/load.rs            |  5 ++++-
 varisat/src/proof.rs           | 14 ++++++++++++++
 4 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/varisat-checker/src/clauses.rs b/varisat-checker/src/clauses.rs
index 06f99f4..5c1487b 100644
--- a/varisat-checker/src/clauses.rs
+++ b/varisat-checker/src/clauses.rs
@@ -155,6 +155,9 @@ pub fn add_clause<'a>(
     clause: &[Lit],
 ) -> Result<(), CheckerError> {
     if ctx.part(CheckerStateP).unsat {
+        // The clause is ignored, but still uses up an id to keep the ids of the input formula's
+        // clauses consecutive.
+        ctx.part_mut(ClausesP).next_clause_id += 1;
         return Ok(());
     }
 
diff --git a/varisat-checker/src/state.rs b/varisat-checker/src/state.rs
index 7f3e747..13dd66d 100644
--- a/varisat-checker/src/state.rs
+++ b/varisat-checker/src/state.rs
@@ -624,19 +624,22 @@ pub fn check_proof<'a>(
 
 /// Process unit conflicts detected during clause loading.
 pub fn process_unit_conflicts<'a>(
-    mut ctx: partial!(Context<'a>, mut ProcessingP<'a>, ClausesP, VariablesP),
+    mut ctx: partial!(Context<'a>, mut ClausesP, mut ProcessingP<'a>, VariablesP),
 ) -> Result<(), CheckerError> {
-    let (clauses, mut ctx) = ctx.split_part(ClausesP);
-    if let Some(ids) = &clauses.unit_conflict {
+    let (clauses, mut ctx) = ctx.split_part_mut(ClausesP);
+    if let Some(ids) = clauses.unit_conflict.take() {
         let clause = &[];
 
+        let id = clauses.next_clause_id;
+        clauses.next_clause_id += 1;
+
         process_step(
             ctx.borrow(),
             &CheckedProofStep::AtClause {
-                id: clauses.next_clause_id,
+                id,
                 redundant: false,
                 clause,
-                propagations: ids,
+                propagations: &ids,
             },
         )?;
     }
diff --git a/varisat/src/load.rs b/varisat/src/load.rs
index 43415db..b9c46d1 100644
--- a/varisat/src/load.rs
+++ b/varisat/src/load.rs
@@ -44,7 +44,10 @@ pub fn load_clause<'a>(
     user_lits: &[Lit],
 ) {
     match ctx.part(SolverStateP).sat_state {
-        SatState::Unsat => return,
+        SatState::Unsat => {
+            proof::ignore_clause(ctx.borrow());
+            return;
+        }
         SatState::Sat => {
             ctx.part_mut(SolverStateP).sat_state = SatState::Unknown;
         }
diff --git a/varisat/src/proof.rs b/varisat/src/proof.rs
index 65aeb56..6ae9c26 100644
--- a/varisat/src/proof.rs
+++ b/varisat/src/proof.rs
@@ -155,6 +155,20 @@ pub fn add_clause<'a>(
     }
 }
 
+/// Call instead of [`add_clause`] when an external clause is ignored as the formula is already known
+/// to be unsatisfiable.
+///
+/// The checker ignores the clause too, but has to count it as it numbers the clauses of the formula.
+pub fn ignore_clause<'a>(mut ctx: partial!(Context<'a>, mut ProofP<'a>, mut SolverStateP)) {
+    if ctx.part(SolverStateP).solver_invoked {
+        return;
+    }
+    if let Some(checker) = &mut ctx.part_mut(ProofP).checker {
+        let result = checker.add_clause(&[]);
+        handle_self_check_result(ctx.borrow(), result);
+    }
+}
+
 /// Add a step to the proof.
 ///
 /// Ignored when proof generation is disabled.
-- 
2.43.0


From 32b4803cddae0a033999a4445dfcbb25da15f125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:34 +0000
Subject: [PATCH 05/23] fix: transcripts of formulas with tautological clauses
 no longer panic

The variables of a tautological input clause were not registered with the
checker, so producing the transcript step for it failed to find them.
---
 varisat-checker/src/clauses.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/varisat-checker/src/clauses.rs b/varisat-checker/src/clauses.rs
index 5c1487b..f3dd3c8 100644
--- a/varisat-checker/src/clauses.rs
+++ b/varisat-checker/src/clauses.rs
@@ -163,7 +163,13 @@ pub fn add_clause<'a>(
 
     let (tmp_data, mut ctx) = ctx.split_part_mut(TmpDataP);
 
-    if copy_canonical(&mut tmp_data.tmp, clause) {
+    let tautology = copy_canonical(&mut tmp_data.tmp, clause);
+
+    for &lit in tmp_data.tmp.iter() {
+        ensure_sampling_var(ctx.borrow(), lit.var())?;
+    }
+
+    if tautology {
         let (clauses, mut ctx) = ctx.split_part_mut(ClausesP);
         process_step(
             ctx.borrow(),
@@ -176,10 +182,6 @@ pub fn add_clause<'a>(
         return Ok(());
     }
 
-    for &lit in tmp_data.tmp.iter() {
-        ensure_sampling_var(ctx.borrow(), lit.var())?;
-    }
-
     let (id, added) = store_clause(ctx.borrow(), &tmp_data.tmp, false);
 
     let (clauses, mut ctx) = ctx.split_part_mut(ClausesP);
-- 
2.43.0


From 8d0601838548898c9e44a1264e6b562a1e20d9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:01 +0000
Subject: [PATCH 06/23] fix: proof parser reports out of range numbers instead
 of panicking

---
 varisat-internal-proof/src/binary_format.rs | 54 ++++++++++++++-------
 1 file changed, 36 insertions(+), 18 deletions(-)

diff --git a/varisat-internal-proof/src/binary_format.rs b/varisat-internal-proof/src/binary_format.rs
index e296468..49b3d94 100644
--- a/varisat-internal-proof/src/binary_format.rs
+++ b/varisat-internal-proof/src/binary_format.rs
@@ -168,32 +168,32 @@ impl Parser {
         let code = read_u64(&mut *source)?;
         match code {
             CODE_SOLVER_VAR_NAME_UPDATE => {
-                let global = Var::from_index(read_u64(&mut *source)? as usize);
-                let solver = Some(Var::from_index(read_u64(&mut *source)? as usize));
+                let global = read_var(&mut *source)?;
+                let solver = Some(read_var(&mut *source)?);
                 Ok(ProofStep::SolverVarName { global, solver })
             }
             CODE_SOLVER_VAR_NAME_REMOVE => {
-                let global = Var::from_index(read_u64(&mut *source)? as usize);
+                let global = read_var(&mut *source)?;
                 Ok(ProofStep::SolverVarName {
                     global,
                     solver: None,
                 })
             }
             CODE_USER_VAR_NAME_UPDATE => {
-                let global = Var::from_index(read_u64(&mut *source)? as usize);
-                let user = Some(Var::from_index(read_u64(&mut *source)? as usize));
+                let global = read_var(&mut *source)?;
+                let user = Some(read_var(&mut *source)?);
                 Ok(ProofStep::UserVarName { global, user })
             }
             CODE_USER_VAR_NAME_REMOVE => {
-                let global = Var::from_index(read_u64(&mut *source)? as usize);
+                let global = read_var(&mut *source)?;
                 Ok(ProofStep::UserVarName { global, user: None })
             }
             CODE_DELETE_VAR => {
-                let var = Var::from_index(read_u64(&mut *source)? as usize);
+                let var = read_var(&mut *source)?;
                 Ok(ProofStep::DeleteVar { var })
             }
             CODE_CHANGE_SAMPLING_MODE_SAMPLE | CODE_CHANGE_SAMPLING_MODE_WITNESS => {
-                let var = Var::from_index(read_u64(&mut *source)? as usize);
+                let var = read_var(&mut *source)?;
                 Ok(ProofStep::ChangeSamplingMode {
                     var,
                     sample: code == CODE_CHANGE_SAMPLING_MODE_SAMPLE,
@@ -265,6 +265,24 @@ impl Parser {
     }
 }
 
+/// Read a variable from a varisat proof
+fn read_var(source: &mut impl BufRead) -> Result<Var, Error> {
+    let index = read_u64(&mut *source)?;
+    if index >= Var::max_count() as u64 {
+        anyhow::bail!("variable index {} is out of range", index);
+    }
+    Ok(Var::from_index(index as usize))
+}
+
+/// Read a literal from a varisat proof
+fn read_lit(source: &mut impl BufRead) -> Result<Lit, Error> {
+    let code = read_u64(&mut *source)?;
+    if code >= Var::max_count() as u64 * 2 {
+        anyhow::bail!("literal code {} is out of range", code);
+    }
+    Ok(Lit::from_code(code as usize))
+}
+
 /// Writes a slice of literals for a varisat proof
 fn write_literals(target: &mut impl Write, literals: &[Lit]) -> io::Result<()> {
     write_u64(&mut *target, literals.len() as u64)?;
@@ -275,12 +293,12 @@ fn write_literals(target: &mut impl Write, literals: &[Lit]) -> io::Result<()> {
 }
 
 /// Read a slice of literals from a varisat proof
-fn read_literals(source: &mut impl BufRead, literals: &mut Vec<Lit>) -> Result<(), io::Error> {
+fn read_literals(source: &mut impl BufRead, literals: &mut Vec<Lit>) -> Result<(), Error> {
     literals.clear();
-    let len = read_u64(&mut *source)? as usize;
-    literals.reserve(len);
+    // The length is not trusted, so don't use it to reserve memory
+    let len = read_u64(&mut *source)?;
     for _ in 0..len {
-        literals.push(Lit::from_code(read_u64(&mut *source)? as usize));
+        literals.push(read_lit(&mut *source)?);
     }
     Ok(())
 }
@@ -297,8 +315,8 @@ fn write_hashes(target: &mut impl Write, hashes: &[ClauseHash]) -> io::Result<()
 /// Read a slice of clause hashes from a varisat proof
 fn read_hashes(source: &mut impl BufRead, hashes: &mut Vec<ClauseHash>) -> Result<(), io::Error> {
     hashes.clear();
-    let len = read_u64(&mut *source)? as usize;
-    hashes.reserve(len);
+    // The length is not trusted, so don't use it to reserve memory
+    let len = read_u64(&mut *source)?;
     for _ in 0..len {
         hashes.push(read_u64(&mut *source)? as ClauseHash);
     }
@@ -319,12 +337,12 @@ fn write_unit_clauses(target: &mut impl Write, units: &[(Lit, ClauseHash)]) -> i
 fn read_unit_clauses(
     source: &mut impl BufRead,
     units: &mut Vec<(Lit, ClauseHash)>,
-) -> Result<(), io::Error> {
+) -> Result<(), Error> {
     units.clear();
-    let len = read_u64(&mut *source)? as usize;
-    units.reserve(len);
+    // The length is not trusted, so don't use it to reserve memory
+    let len = read_u64(&mut *source)?;
     for _ in 0..len {
-        let lit = Lit::from_code(read_u64(&mut *source)? as usize);
+        let lit = read_lit(&mut *source)?;
         let hash = read_u64(&mut *source)? as ClauseHash;
         units.push((lit, hash));
     }
-- 
2.43.0


From 0a4be76a02d3e424418d67e14e098e714f70ea7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:01 +0000
Subject: [PATCH 07/23] fix: checker reports invalid hash sizes and unknown
 variables instead of panicking

---
 varisat-checker/src/clauses.rs | 5 ++++-
 varisat-checker/src/state.rs   | 6 ++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/varisat-checker/src/clauses.rs b/varisat-checker/src/clauses.rs
index f3dd3c8..42d386b 100644
--- a/varisat-checker/src/clauses.rs
+++ b/varisat-checker/src/clauses.rs
@@ -144,7 +144,10 @@ pub struct Clauses {
 impl Clauses {
     /// Value of a literal if known from unit clauses.
     pub fn lit_value(&self, lit: Lit) -> Option<(bool, UnitClause)> {
-        self.unit_clauses[lit.index()]
+        self.unit_clauses
+            .get(lit.index())
+            .copied()
+            .flatten()
             .map(|unit_clause| (unit_clause.value ^ lit.is_negative(), unit_clause))
     }
 }
diff --git a/varisat-checker/src/state.rs b/varisat-checker/src/state.rs
index 13dd66d..af5b814 100644
--- a/varisat-checker/src/state.rs
+++ b/varisat-checker/src/state.rs
@@ -106,6 +106,12 @@ pub fn check_step<'a>(
         }
         ProofStep::UnitClauses { units } => check_unit_clauses_step(ctx.borrow(), units),
         ProofStep::ChangeHashBits { bits } => {
+            if bits == 0 || bits > 64 {
+                return Err(CheckerError::check_failed(
+                    ctx.part(CheckerStateP).step,
+                    format!("invalid number of hash bits {}", bits),
+                ));
+            }
             ctx.part_mut(ClauseHasherP).hash_bits = bits;
             rehash(ctx.borrow());
             Ok(())
-- 
2.43.0


From 4f9ee39c679cbcc6b72846709e346ee9bd528250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:26 +0000
Subject: [PATCH 08/23] fix: checker rejects models that violate unit clauses
 or follow a refutation

---
 varisat-checker/src/state.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/varisat-checker/src/state.rs b/varisat-checker/src/state.rs
index af5b814..cc5dd17 100644
--- a/varisat-checker/src/state.rs
+++ b/varisat-checker/src/state.rs
@@ -508,6 +508,25 @@ fn check_model_step<'a>(
         }
     }
 
+    if ctx.part(CheckerStateP).unsat {
+        return Err(CheckerError::check_failed(
+            ctx.part(CheckerStateP).step,
+            "model for an unsatisfiable formula".to_string(),
+        ));
+    }
+
+    for (index, unit_clause) in ctx.part(ClausesP).unit_clauses.iter().enumerate() {
+        if let Some(unit_clause) = unit_clause {
+            let lit = Lit::from_index(index, unit_clause.value);
+            if !assignments.contains(&lit) {
+                return Err(CheckerError::check_failed(
+                    ctx.part(CheckerStateP).step,
+                    format!("model does not satisfy unit clause {:?}", lit),
+                ));
+            }
+        }
+    }
+
     for (_, candidates) in ctx.part(ClausesP).clauses.iter() {
         for clause in candidates.iter() {
             let lits = clause.lits.slice(&ctx.part(ClausesP).literal_buffer);
-- 
2.43.0


From 57dac7311a4d4317eedff8ecd8515c486b05bcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:49 +0000
Subject: [PATCH 09/23] fix: checker only deletes hidden variables' unit
 clauses and forgets them as justification

---
 varisat-checker/src/state.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/varisat-checker/src/state.rs b/varisat-checker/src/state.rs
index cc5dd17..051738b 100644
--- a/varisat-checker/src/state.rs
+++ b/varisat-checker/src/state.rs
@@ -156,10 +156,10 @@ pub fn check_step<'a>(
 fn check_delete_var_step<'a>(
     mut ctx: partial!(
         Context<'a>,
+        mut CheckerStateP,
         mut ClausesP,
         mut ProcessingP<'a>,
         mut VariablesP,
-        CheckerStateP,
     ),
     var: Var,
 ) -> Result<(), CheckerError> {
@@ -184,6 +184,15 @@ fn check_delete_var_step<'a>(
     }
 
     if let Some(unit_clause) = ctx.part(ClausesP).unit_clauses[var.index()] {
+        if ctx.part(VariablesP).var_data[var.index()].sampling_mode != SamplingMode::Hide {
+            // A variable without a user name that was never hidden can still correspond to a user
+            // variable, see CheckerData::user_from_proof_var.
+            return Err(CheckerError::check_failed(
+                ctx.part(CheckerStateP).step,
+                format!("deleted variable {:?} with a unit clause is not hidden", var),
+            ));
+        }
+
         let clause = [var.lit(unit_clause.value)];
 
         let id = match unit_clause.id {
@@ -202,6 +211,11 @@ fn check_delete_var_step<'a>(
             },
         )?;
         ctx.part_mut(ClausesP).unit_clauses[var.index()] = None;
+
+        // The deleted unit clause could be the last added irredundant clause.
+        let state = ctx.part_mut(CheckerStateP);
+        state.previous_irred_clause_id = None;
+        state.previous_irred_clause_lits.clear();
     }
 
     ctx.part_mut(VariablesP).var_data[var.index()] = VarData::default();
-- 
2.43.0


From 38a440e04cf23ad396853a475c74a3f3e4da4f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:32 +0000
Subject: [PATCH 10/23] fix: checker keeps assumed variables visible instead of
 panicking in the transcript

---
 varisat-checker/src/state.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/varisat-checker/src/state.rs b/varisat-checker/src/state.rs
index 051738b..95eefab 100644
--- a/varisat-checker/src/state.rs
+++ b/varisat-checker/src/state.rs
@@ -87,6 +87,7 @@ pub fn check_step<'a>(
             if let Some(user) = user {
                 add_user_mapping(ctx.borrow(), global, user)?;
             } else {
+                ensure_not_assumed(ctx.borrow(), global)?;
                 remove_user_mapping(ctx.borrow(), global)?;
             }
             Ok(())
@@ -223,6 +224,18 @@ fn check_delete_var_step<'a>(
     Ok(())
 }
 
+/// Check that a variable that is about to become a non-sampling variable is not assumed.
+fn ensure_not_assumed(ctx: partial!(Context, CheckerStateP), var: Var) -> Result<(), CheckerError> {
+    let state = ctx.part(CheckerStateP);
+    if state.assumptions.iter().any(|lit| lit.var() == var) {
+        return Err(CheckerError::check_failed(
+            state.step,
+            format!("variable {:?} is in use as an assumption", var),
+        ));
+    }
+    Ok(())
+}
+
 /// Check a ChangeSamplingMode step
 fn check_change_sampling_mode<'a>(
     mut ctx: partial!(
@@ -236,6 +249,9 @@ fn check_change_sampling_mode<'a>(
     sample: bool,
 ) -> Result<(), CheckerError> {
     ensure_var(ctx.borrow(), var);
+    if !sample {
+        ensure_not_assumed(ctx.borrow(), var)?;
+    }
     let mut ctx_in = ctx;
     let (variables, ctx) = ctx_in.split_part_mut(VariablesP);
     let var_data = &mut variables.var_data[var.index()];
-- 
2.43.0


From e108437115ffcd87fdf80b4101417f0e998c91b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:03 +0000
Subject: [PATCH 11/23] fix: checker reports checked unit clauses as
 irredundant

---
 varisat-checker/src/state.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/varisat-checker/src/state.rs b/varisat-checker/src/state.rs
index 95eefab..cc9cf0d 100644
--- a/varisat-checker/src/state.rs
+++ b/varisat-checker/src/state.rs
@@ -319,6 +319,10 @@ fn check_at_clause_step<'a>(
 
     check_clause_with_hashes(ctx.borrow(), &tmp, &*propagation_hashes)?;
 
+    // Unit clauses can be used to justify the deletion of irredundant clauses, so these and the
+    // empty clause are always irredundant.
+    let redundant = redundant && tmp.len() > 1;
+
     let (id, added) = store_clause(ctx.borrow(), &tmp, redundant);
 
     if !redundant {
-- 
2.43.0


From a231916afa138baf4697fc17ebbd372238a560be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:41 +0000
Subject: [PATCH 12/23] fix: checker reports a unit conflict before its unit
 clauses are deleted

---
 varisat-checker/src/state.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/varisat-checker/src/state.rs b/varisat-checker/src/state.rs
index cc9cf0d..dcc7c8b 100644
--- a/varisat-checker/src/state.rs
+++ b/varisat-checker/src/state.rs
@@ -194,6 +194,9 @@ fn check_delete_var_step<'a>(
             ));
         }
 
+        // A pending unit conflict refers to the unit clause's id.
+        process_unit_conflicts(ctx.borrow())?;
+
         let clause = [var.lit(unit_clause.value)];
 
         let id = match unit_clause.id {
-- 
2.43.0


From d3ff76efa1e30df2794879919167bb38ed78ddeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:26 +0000
Subject: [PATCH 13/23] fix: DIMACS input ending in a dangling minus sign is
 refused

---
 varisat-dimacs/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/varisat-dimacs/src/lib.rs b/varisat-dimacs/src/lib.rs
index dc56230..5abb815 100644
--- a/varisat-dimacs/src/lib.rs
+++ b/varisat-dimacs/src/lib.rs
@@ -244,7 +244,9 @@ impl DimacsParser {
 
         self.finish_literal();
 
-        if !self.partial_clause.is_empty() {
+        let dangling_negation = self.negate_next_lit && !self.in_lit;
+
+        if dangling_negation || !self.partial_clause.is_empty() {
             return Err(ParserError::UnterminatedClause {
                 line: self.line_number,
             });
-- 
2.43.0


From 83c664c12207741d8874ae78a1e3af6162cd500b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:26 +0000
Subject: [PATCH 14/23] fix: DIMACS header errors report the header's line

---
 varisat-dimacs/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/varisat-dimacs/src/lib.rs b/varisat-dimacs/src/lib.rs
index 5abb815..26c2d6c 100644
--- a/varisat-dimacs/src/lib.rs
+++ b/varisat-dimacs/src/lib.rs
@@ -158,9 +158,6 @@ impl DimacsParser {
             return Err(ParserError::PreviousError);
         }
         for &byte in chunk.iter() {
-            if byte == b'\n' {
-                self.line_number += 1;
-            }
             match byte {
                 b'\n' | b'\r' if self.in_comment_or_header => {
                     if self.in_header {
@@ -228,6 +225,9 @@ impl DimacsParser {
                     });
                 }
             }
+            if byte == b'\n' {
+                self.line_number += 1;
+            }
         }
 
         Ok(())
-- 
2.43.0


From cbe2655c87f8dcddce9676b86c06af3670e1f156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:40 +0000
Subject: [PATCH 15/23] fix: huge restart intervals no longer overflow the
 restart schedule

---
 varisat/src/schedule.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/varisat/src/schedule.rs b/varisat/src/schedule.rs
index 1e1b04e..e4283f7 100644
--- a/varisat/src/schedule.rs
+++ b/varisat/src/schedule.rs
@@ -82,7 +82,11 @@ pub fn schedule_step<'a>(
         if schedule.next_restart == schedule.conflicts {
             restart(ctx.borrow());
             schedule.restarts += 1;
-            schedule.next_restart += config.luby_restart_interval_scale * schedule.luby.advance();
+            schedule.next_restart = schedule.next_restart.saturating_add(
+                config
+                    .luby_restart_interval_scale
+                    .saturating_mul(schedule.luby.advance()),
+            );
         }
 
         if schedule.conflicts % config.reduce_locals_interval == 0 {
-- 
2.43.0


From ff85975cec4fc64806c445ab384022eb62484ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:50 +0000
Subject: [PATCH 16/23] fix: the command line tool reports errors when
 finishing proofs

---
 varisat-cli/src/check.rs | 27 ++++++++++++++++++++-------
 varisat-cli/src/main.rs  | 30 ++++++++++++++++++++++++------
 2 files changed, 44 insertions(+), 13 deletions(-)

diff --git a/varisat-cli/src/check.rs b/varisat-cli/src/check.rs
index ce5a45e..d58639e 100644
--- a/varisat-cli/src/check.rs
+++ b/varisat-cli/src/check.rs
@@ -48,18 +48,20 @@ pub fn check_main(matches: &ArgMatches) -> Result<i32, Error> {
 
     checker.add_transcript(&mut transcript);
 
-    let mut lrat_processor;
+    let mut lrat_processor = None;
 
     if let Some(lrat_path) = matches.value_of("lrat-file") {
-        lrat_processor = WriteLrat::new(fs::File::create(lrat_path)?, false);
-        checker.add_processor(&mut lrat_processor);
+        let processor =
+            lrat_processor.get_or_insert(WriteLrat::new(fs::File::create(lrat_path)?, false));
+        checker.add_processor(processor);
     }
 
-    let mut clrat_processor;
+    let mut clrat_processor = None;
 
     if let Some(clrat_path) = matches.value_of("clrat-file") {
-        clrat_processor = WriteLrat::new(fs::File::create(clrat_path)?, true);
-        checker.add_processor(&mut clrat_processor);
+        let processor =
+            clrat_processor.get_or_insert(WriteLrat::new(fs::File::create(clrat_path)?, true));
+        checker.add_processor(processor);
     }
 
     checker.add_dimacs_cnf(file)?;
@@ -69,7 +71,7 @@ pub fn check_main(matches: &ArgMatches) -> Result<i32, Error> {
     log::info!("Checking proof file '{}'", path);
 
     match checker.check_proof(fs::File::open(path)?) {
-        Ok(()) => println!("s VERIFIED"),
+        Ok(()) => (),
         Err(err) => {
             log::error!("{}", err);
             if let CheckerError::CheckFailed { debug_step, .. } = err {
@@ -82,5 +84,16 @@ pub fn check_main(matches: &ArgMatches) -> Result<i32, Error> {
         }
     }
 
+    // Make sure that the converted proofs are written before reporting success
+    drop(checker);
+    if let Some(processor) = &mut lrat_processor {
+        processor.flush()?;
+    }
+    if let Some(processor) = &mut clrat_processor {
+        processor.flush()?;
+    }
+
+    println!("s VERIFIED");
+
     Ok(0)
 }
diff --git a/varisat-cli/src/main.rs b/varisat-cli/src/main.rs
index 8791121..47cb43f 100644
--- a/varisat-cli/src/main.rs
+++ b/varisat-cli/src/main.rs
@@ -119,7 +119,7 @@ fn main_with_err() -> Result<i32, Error> {
         config_update.merge(toml::from_str(&config_option)?);
     }
 
-    let mut lrat_processor;
+    let mut lrat_processor = None;
 
     let mut solver = Solver::new();
 
@@ -154,9 +154,11 @@ fn main_with_err() -> Result<i32, Error> {
             "binary-drat" => Some(ProofFormat::BinaryDrat),
             "varisat" => Some(ProofFormat::Varisat),
             "lrat" | "clrat" => {
-                lrat_processor =
-                    WriteLrat::new(fs::File::create(path)?, proof_format_str == "clrat");
-                solver.add_proof_processor(&mut lrat_processor);
+                let processor = lrat_processor.get_or_insert(WriteLrat::new(
+                    fs::File::create(path)?,
+                    proof_format_str == "clrat",
+                ));
+                solver.add_proof_processor(processor);
                 None
             }
             _ => unreachable!(),
@@ -175,11 +177,27 @@ fn main_with_err() -> Result<i32, Error> {
 
     solver.add_dimacs_cnf(file)?;
 
-    match solver.solve() {
+    let mut result = solver.solve().map_err(Error::from);
+    let model = solver.model();
+
+    // Make sure that the whole proof is written before reporting a result
+    if result.is_ok() {
+        if let Err(err) = solver.close_proof() {
+            result = Err(err.into());
+        }
+    }
+    drop(solver);
+    if let (Ok(_), Some(processor)) = (&result, &mut lrat_processor) {
+        if let Err(err) = processor.flush() {
+            result = Err(err);
+        }
+    }
+
+    match result {
         Ok(true) => {
             println!("s SATISFIABLE");
             print!("v");
-            for l in solver.model().unwrap() {
+            for l in model.unwrap() {
                 print!(" {}", l);
             }
             println!(" 0");
-- 
2.43.0


From 4c59531fc609603db5cb97810837b69abe4317a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:59 +0000
Subject: [PATCH 17/23] fix: models have a value for variables created after
 the model was found

---
 varisat/src/solver.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/varisat/src/solver.rs b/varisat/src/solver.rs
index 93e1c19..27fee0a 100644
--- a/varisat/src/solver.rs
+++ b/varisat/src/solver.rs
@@ -190,19 +190,22 @@ impl<'a> Solver<'a> {
             Some(
                 ctx.part(VariablesP)
                     .user_var_iter()
-                    .flat_map(|user_var| {
+                    .map(|user_var| {
                         let global_var = ctx
                             .part(VariablesP)
                             .global_from_user()
                             .get(user_var)
                             .expect("no existing global var for user var");
-                        // Variables created after the model was found have no value in it.
-                        ctx.part(ModelP)
+                        // Variables created after the model was found are not part of it. They are
+                        // unconstrained, so any value extends the model.
+                        let value = ctx
+                            .part(ModelP)
                             .assignment()
                             .get(global_var.index())
                             .cloned()
                             .flatten()
-                            .map(|value| user_var.lit(value))
+                            .unwrap_or(false);
+                        user_var.lit(value)
                     })
                     .collect(),
             )
-- 
2.43.0


From 99cb967080d0d743c85553ae05935778edd69a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:41 +0000
Subject: [PATCH 18/23] fix: the progress message counts variables without
 underflow

---
 varisat/src/prop/assignment.rs | 12 ------------
 varisat/src/schedule.rs        | 16 ++++++++++++++--
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/varisat/src/prop/assignment.rs b/varisat/src/prop/assignment.rs
index a87f604..ebf36e4 100644
--- a/varisat/src/prop/assignment.rs
+++ b/varisat/src/prop/assignment.rs
@@ -87,8 +87,6 @@ pub struct Trail {
     queue_head_pos: usize,
     /// Decision levels as trail indices.
     decisions: Vec<LitIdx>,
-    /// Number of unit clauses removed from the trail.
-    units_removed: usize,
 }
 
 impl Trail {
@@ -122,7 +120,6 @@ impl Trail {
     /// no active decisions.
     pub fn clear(&mut self) {
         assert!(self.decisions.is_empty());
-        self.units_removed += self.trail.len();
         self.trail.clear();
         self.queue_head_pos = 0;
     }
@@ -139,15 +136,6 @@ impl Trail {
         self.decisions.len()
     }
 
-    /// The number of assignments at level 0.
-    pub fn top_level_assignment_count(&self) -> usize {
-        self.decisions
-            .get(0)
-            .map(|&len| len as usize)
-            .unwrap_or(self.trail.len())
-            + self.units_removed
-    }
-
     /// Whether all assignments are processed.
     pub fn fully_propagated(&self) -> bool {
         self.queue_head_pos == self.trail.len()
diff --git a/varisat/src/schedule.rs b/varisat/src/schedule.rs
index e4283f7..95f6ecf 100644
--- a/varisat/src/schedule.rs
+++ b/varisat/src/schedule.rs
@@ -5,6 +5,8 @@ use log::info;
 
 use partial_ref::{partial, PartialRef};
 
+use varisat_formula::Var;
+
 use crate::{
     cdcl::conflict_step,
     clause::{
@@ -65,12 +67,22 @@ pub fn schedule_step<'a>(
     } else {
         if schedule.conflicts > 0 && schedule.conflicts % 5000 == 0 {
             let db = ctx.part(ClauseDbP);
-            let units = ctx.part(TrailP).top_level_assignment_count();
+            let variables = ctx.part(VariablesP);
+            let assignment = ctx.part(AssignmentP).assignment();
+            let impl_graph = ctx.part(ImplGraphP);
+            let vars = (0..assignment.len())
+                .map(Var::from_index)
+                .filter(|&var| {
+                    let is_unit = assignment[var.index()].is_some()
+                        && (impl_graph.is_removed_unit(var) || impl_graph.level(var) == 0);
+                    variables.solver_var_present(var) && !is_unit
+                })
+                .count();
             info!(
                 "confl: {}k rest: {} vars: {} bin: {} irred: {} core: {} mid: {} local: {}",
                 schedule.conflicts / 1000,
                 schedule.restarts,
-                ctx.part(AssignmentP).assignment().len() - units,
+                vars,
                 ctx.part(BinaryClausesP).count(),
                 db.count_by_tier(Tier::Irred),
                 db.count_by_tier(Tier::Core),
-- 
2.43.0


From 539a89fbe12aa35f01d6acdcc903a9a3b33716e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:25 +0000
Subject: [PATCH 19/23] fix: keep only the latest buffered solver variable name
 in the checker

Names were collected in a list that is drained only when a clause is
looked up by its hash. A self-checked session that reuses variables
without ever needing such a lookup grew the list without bound.
---
 varisat-checker/src/hash.rs  | 6 +++---
 varisat-checker/src/state.rs | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/varisat-checker/src/hash.rs b/varisat-checker/src/hash.rs
index 40474ff..70506df 100644
--- a/varisat-checker/src/hash.rs
+++ b/varisat-checker/src/hash.rs
@@ -13,7 +13,7 @@ pub struct ClauseHasher {
     /// How many bits are used for storing clause hashes.
     pub hash_bits: u32,
     /// Changed solver names that are not yet reflected in the checkers current clause hashes.
-    pub buffered_solver_var_names: Vec<(Var, Option<Var>)>,
+    pub buffered_solver_var_names: HashMap<Var, Option<Var>>,
     /// Does buffered_solver_var_names contain a new name?
     ///
     /// If it contains only deletes, there is no need to rehash
@@ -26,7 +26,7 @@ impl Default for ClauseHasher {
     fn default() -> ClauseHasher {
         ClauseHasher {
             hash_bits: 64,
-            buffered_solver_var_names: vec![],
+            buffered_solver_var_names: Default::default(),
             rename_in_buffered_solver_var_names: false,
             solver_var_names: Default::default(),
         }
@@ -53,7 +53,7 @@ pub fn rehash(mut ctx: partial!(Context, mut ClauseHasherP, mut ClausesP)) {
     let (hasher, mut ctx) = ctx.split_part_mut(ClauseHasherP);
     let clauses = ctx.part_mut(ClausesP);
 
-    for (global, solver) in hasher.buffered_solver_var_names.drain(..) {
+    for (global, solver) in hasher.buffered_solver_var_names.drain() {
         if let Some(solver) = solver {
             hasher.solver_var_names.insert(global, solver);
         } else {
diff --git a/varisat-checker/src/state.rs b/varisat-checker/src/state.rs
index dcc7c8b..52bd0bb 100644
--- a/varisat-checker/src/state.rs
+++ b/varisat-checker/src/state.rs
@@ -76,7 +76,7 @@ pub fn check_step<'a>(
         ProofStep::SolverVarName { global, solver } => {
             ctx.part_mut(ClauseHasherP)
                 .buffered_solver_var_names
-                .push((global, solver));
+                .insert(global, solver);
             if solver.is_some() {
                 ctx.part_mut(ClauseHasherP)
                     .rename_in_buffered_solver_var_names = true;
-- 
2.43.0


From fec26bc74dcd0bb48119294021a7f2a0efb72a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:16 +0000
Subject: [PATCH 20/23] fix: a failed clause check leaves no temporary
 assignments in the checker

---
 varisat-checker/src/rup.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/varisat-checker/src/rup.rs b/varisat-checker/src/rup.rs
index e6f2b9f..78ba139 100644
--- a/varisat-checker/src/rup.rs
+++ b/varisat-checker/src/rup.rs
@@ -60,6 +60,7 @@ pub fn check_clause_with_hashes<'a>(
     rup.trace_edges.clear();
 
     let mut rup_is_unsat = false;
+    let mut missing_hash = None;
 
     assert!(rup.trail.is_empty());
 
@@ -95,10 +96,8 @@ pub fn check_clause_with_hashes<'a>(
         let candidates = match clauses.clauses.get(&hash) {
             Some(candidates) if !candidates.is_empty() => candidates,
             _ => {
-                return Err(CheckerError::check_failed(
-                    ctx.part(CheckerStateP).step,
-                    format!("no clause found for hash {:x}", hash),
-                ))
+                missing_hash = Some(hash);
+                break 'hashes;
             }
         };
 
@@ -194,6 +193,11 @@ pub fn check_clause_with_hashes<'a>(
 
     if rup_is_unsat {
         Ok(())
+    } else if let Some(hash) = missing_hash {
+        Err(CheckerError::check_failed(
+            ctx.part(CheckerStateP).step,
+            format!("no clause found for hash {:x}", hash),
+        ))
     } else {
         Err(CheckerError::check_failed(
             ctx.part(CheckerStateP).step,
-- 
2.43.0


From c38abdee96490fd722a26484ffae291d3de13cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:16 +0000
Subject: [PATCH 21/23] fix: the checker checks further proofs instead of
 accepting them unread

---
 varisat-checker/src/state.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/varisat-checker/src/state.rs b/varisat-checker/src/state.rs
index 52bd0bb..a4c91a6 100644
--- a/varisat-checker/src/state.rs
+++ b/varisat-checker/src/state.rs
@@ -654,6 +654,9 @@ pub fn check_proof<'a>(
     let mut buffer = io::BufReader::new(input);
     let mut parser = Parser::default();
 
+    // The end of a proof that was checked before is not the end of this one.
+    ctx.part_mut(CheckerStateP).ended = false;
+
     while !ctx.part(CheckerStateP).ended {
         ctx.part_mut(CheckerStateP).step += 1;
 
-- 
2.43.0


From 3fe8ea64e1a37237f2e202f9c9d54e4292b438c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:16 +0000
Subject: [PATCH 22/23] fix: refuse to start a proof after variables are used

Only clauses and new_var made write_proof, enable_self_checking and
add_proof_processor refuse. After assume, witness_var, sample_var or
hide_var they were accepted, but the proof was missing the variables
and self checking failed.
---
 varisat/src/solver.rs    | 6 +++---
 varisat/src/variables.rs | 3 +++
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/varisat/src/solver.rs b/varisat/src/solver.rs
index 27fee0a..74a3ef1 100644
--- a/varisat/src/solver.rs
+++ b/varisat/src/solver.rs
@@ -227,7 +227,7 @@ impl<'a> Solver<'a> {
 
     /// Generate a proof of unsatisfiability during solving.
     ///
-    /// This needs to be called before any clauses are added.
+    /// This needs to be called before any clauses are added or variables are used.
     pub fn write_proof(&mut self, target: impl io::Write + 'a, format: ProofFormat) {
         assert!(
             self.ctx.solver_state.formula_is_empty,
@@ -247,7 +247,7 @@ impl<'a> Solver<'a> {
 
     /// Generate and check a proof on the fly.
     ///
-    /// This needs to be called before any clauses are added.
+    /// This needs to be called before any clauses are added or variables are used.
     pub fn enable_self_checking(&mut self) {
         assert!(
             self.ctx.solver_state.formula_is_empty,
@@ -260,7 +260,7 @@ impl<'a> Solver<'a> {
     ///
     /// This implicitly enables self checking.
     ///
-    /// This needs to be called before any clauses are added.
+    /// This needs to be called before any clauses are added or variables are used.
     pub fn add_proof_processor(&mut self, processor: &'a mut dyn ProofProcessor) {
         assert!(
             self.ctx.solver_state.formula_is_empty,
diff --git a/varisat/src/variables.rs b/varisat/src/variables.rs
index ec99743..a1c86a1 100644
--- a/varisat/src/variables.rs
+++ b/varisat/src/variables.rs
@@ -255,6 +255,9 @@ pub fn global_from_user<'a>(
             variables.global_freelist.remove(&global);
             variables.user_freelist.remove(&user);
 
+            // A proof started after this point would be missing the variable
+            ctx.part_mut(SolverStateP).formula_is_empty = false;
+
             proof::add_step(
                 ctx.borrow(),
                 false,
-- 
2.43.0


From f4795d828875ec7bf10ee91e8bb7313792ed6920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:18 +0000
Subject: [PATCH 23/23] fix: a proof that replaces another starts with the
 initial hash size

Solving the still empty formula shrinks the hash size, which is written
to the first proof only. A proof started afterwards contained hashes of
a size its reader did not know about.
---
 varisat/src/proof.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/varisat/src/proof.rs b/varisat/src/proof.rs
index 6ae9c26..957723d 100644
--- a/varisat/src/proof.rs
+++ b/varisat/src/proof.rs
@@ -85,7 +85,9 @@ impl<'a> Proof<'a> {
     /// Start writing proof steps to the given target with the given format.
     pub fn write_proof(&mut self, target: impl Write + 'a, format: ProofFormat) {
         self.format = Some(format);
-        self.target = BufWriter::new(Box::new(target))
+        self.target = BufWriter::new(Box::new(target));
+        // A new proof starts with the initial hash size
+        self.hash_bits = 64;
     }
 
     /// Begin checking proof steps.
-- 
2.43.0

