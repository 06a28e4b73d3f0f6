From 6c5e63e6dce7ad9b62a8acf2c8afc15faa39da6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:16 +0000
Subject: [PATCH] fix: reject malformed proofs in verify instead of panicking
 or ignoring parts of them

Wrong numbers of proofs, proof elements or commitments and a wrong equation
type made verify panic, and surplus proof elements of the multi-scalar and
quadratic equations were ignored. Such proofs are now rejected. Statements
without y variables no longer panic either.
---
 src/verifier.rs | 85 +++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 68 insertions(+), 17 deletions(-)

diff --git a/src/verifier.rs b/src/verifier.rs
index a56a39f..853dba2 100644
--- a/src/verifier.rs
+++ b/src/verifier.rs
@@ -6,13 +6,14 @@
 //! See the [`prover`](crate::prover) and [`statement`](crate::statement) modules for more details about the structure of the equations and their proofs.
 
 use ark_ec::pairing::Pairing;
+use ark_std::Zero;
 
 use crate::data_structures::{
     col_vec_to_vec, vec_to_col_vec, Com1, Com2, ComT, Mat, Matrix, B1, B2, BT,
 };
 use crate::generator::CRS;
 use crate::prover::CProof;
-use crate::statement::{Equation, QuadEqu, MSMEG1, MSMEG2, PPE};
+use crate::statement::{EquType, Equation, QuadEqu, MSMEG1, MSMEG2, PPE};
 
 /// A collection of attributes containing verifier functionality for an [`Equation`](crate::statement::Equation).
 pub trait Verifiable<E: Pairing> {
@@ -20,10 +21,38 @@ pub trait Verifiable<E: Pairing> {
     fn verify(&self, com_proof: &CProof<E>, crs: &CRS<E>) -> bool;
 }
 
+/// Whether the commitments and the proof have the shape required by an equation of the given type
+/// with `m` x variables and `n` y variables, so that the verification equation is defined for them.
+fn is_well_formed<E: Pairing>(
+    com_proof: &CProof<E>,
+    equ_type: EquType,
+    gamma: &Matrix<E::ScalarField>,
+    (m, n): (usize, usize),
+) -> bool {
+    // Number of elements in the proofs (pi, theta) for this type of equation
+    let (pi_len, theta_len) = match equ_type {
+        EquType::PairingProduct => (2, 2),
+        EquType::MultiScalarG1 => (2, 1),
+        EquType::MultiScalarG2 => (1, 2),
+        EquType::Quadratic => (1, 1),
+    };
+
+    com_proof.equ_proofs.len() == 1
+        && com_proof.equ_proofs[0].equ_type == equ_type
+        && com_proof.equ_proofs[0].pi.len() == pi_len
+        && com_proof.equ_proofs[0].theta.len() == theta_len
+        && com_proof.xcoms.coms.len() == m
+        && com_proof.ycoms.coms.len() == n
+        && gamma.len() == m
+        && gamma.iter().all(|row| row.len() == n)
+}
+
 impl<E: Pairing> Verifiable<E> for PPE<E> {
     fn verify(&self, com_proof: &CProof<E>, crs: &CRS<E>) -> bool {
-        assert_eq!(com_proof.equ_proofs.len(), 1);
-        assert_eq!(self.get_type(), com_proof.equ_proofs[0].equ_type);
+        let dims = (self.b_consts.len(), self.a_consts.len());
+        if !is_well_formed(com_proof, self.get_type(), &self.gamma, dims) {
+            return false;
+        }
         let is_parallel = true;
 
         let lin_a_com_y = ComT::<E>::pairing_sum(
@@ -38,8 +67,12 @@ impl<E: Pairing> Verifiable<E> for PPE<E> {
 
         let stmt_com_y: Matrix<Com2<E>> =
             vec_to_col_vec(&com_proof.ycoms.coms).left_mul(&self.gamma, is_parallel);
-        let com_x_stmt_com_y =
-            ComT::<E>::pairing_sum(&com_proof.xcoms.coms, &col_vec_to_vec(&stmt_com_y));
+        // There are no cross terms without y variables
+        let com_x_stmt_com_y = if stmt_com_y.is_empty() {
+            ComT::<E>::zero()
+        } else {
+            ComT::<E>::pairing_sum(&com_proof.xcoms.coms, &col_vec_to_vec(&stmt_com_y))
+        };
 
         let lin_t = ComT::<E>::linear_map_PPE(&self.target);
 
@@ -56,8 +89,10 @@ impl<E: Pairing> Verifiable<E> for PPE<E> {
 
 impl<E: Pairing> Verifiable<E> for MSMEG1<E> {
     fn verify(&self, com_proof: &CProof<E>, crs: &CRS<E>) -> bool {
-        assert_eq!(com_proof.equ_proofs.len(), 1);
-        assert_eq!(self.get_type(), com_proof.equ_proofs[0].equ_type);
+        let dims = (self.b_consts.len(), self.a_consts.len());
+        if !is_well_formed(com_proof, self.get_type(), &self.gamma, dims) {
+            return false;
+        }
         let is_parallel = true;
 
         let lin_a_com_y = ComT::<E>::pairing_sum(
@@ -72,8 +107,12 @@ impl<E: Pairing> Verifiable<E> for MSMEG1<E> {
 
         let stmt_com_y: Matrix<Com2<E>> =
             vec_to_col_vec(&com_proof.ycoms.coms).left_mul(&self.gamma, is_parallel);
-        let com_x_stmt_com_y =
-            ComT::<E>::pairing_sum(&com_proof.xcoms.coms, &col_vec_to_vec(&stmt_com_y));
+        // There are no cross terms without y variables
+        let com_x_stmt_com_y = if stmt_com_y.is_empty() {
+            ComT::<E>::zero()
+        } else {
+            ComT::<E>::pairing_sum(&com_proof.xcoms.coms, &col_vec_to_vec(&stmt_com_y))
+        };
 
         let lin_t = ComT::<E>::linear_map_MSMEG1(&self.target, crs);
 
@@ -90,8 +129,10 @@ impl<E: Pairing> Verifiable<E> for MSMEG1<E> {
 
 impl<E: Pairing> Verifiable<E> for MSMEG2<E> {
     fn verify(&self, com_proof: &CProof<E>, crs: &CRS<E>) -> bool {
-        assert_eq!(com_proof.equ_proofs.len(), 1);
-        assert_eq!(self.get_type(), com_proof.equ_proofs[0].equ_type);
+        let dims = (self.b_consts.len(), self.a_consts.len());
+        if !is_well_formed(com_proof, self.get_type(), &self.gamma, dims) {
+            return false;
+        }
         let is_parallel = true;
 
         let lin_a_com_y = ComT::<E>::pairing_sum(
@@ -106,8 +147,12 @@ impl<E: Pairing> Verifiable<E> for MSMEG2<E> {
 
         let stmt_com_y: Matrix<Com2<E>> =
             vec_to_col_vec(&com_proof.ycoms.coms).left_mul(&self.gamma, is_parallel);
-        let com_x_stmt_com_y =
-            ComT::<E>::pairing_sum(&com_proof.xcoms.coms, &col_vec_to_vec(&stmt_com_y));
+        // There are no cross terms without y variables
+        let com_x_stmt_com_y = if stmt_com_y.is_empty() {
+            ComT::<E>::zero()
+        } else {
+            ComT::<E>::pairing_sum(&com_proof.xcoms.coms, &col_vec_to_vec(&stmt_com_y))
+        };
 
         let lin_t = ComT::<E>::linear_map_MSMEG2(&self.target, crs);
 
@@ -124,8 +169,10 @@ impl<E: Pairing> Verifiable<E> for MSMEG2<E> {
 
 impl<E: Pairing> Verifiable<E> for QuadEqu<E> {
     fn verify(&self, com_proof: &CProof<E>, crs: &CRS<E>) -> bool {
-        assert_eq!(com_proof.equ_proofs.len(), 1);
-        assert_eq!(self.get_type(), com_proof.equ_proofs[0].equ_type);
+        let dims = (self.b_consts.len(), self.a_consts.len());
+        if !is_well_formed(com_proof, self.get_type(), &self.gamma, dims) {
+            return false;
+        }
         let is_parallel = true;
 
         let lin_a_com_y = ComT::<E>::pairing_sum(
@@ -140,8 +187,12 @@ impl<E: Pairing> Verifiable<E> for QuadEqu<E> {
 
         let stmt_com_y: Matrix<Com2<E>> =
             vec_to_col_vec(&com_proof.ycoms.coms).left_mul(&self.gamma, is_parallel);
-        let com_x_stmt_com_y =
-            ComT::<E>::pairing_sum(&com_proof.xcoms.coms, &col_vec_to_vec(&stmt_com_y));
+        // There are no cross terms without y variables
+        let com_x_stmt_com_y = if stmt_com_y.is_empty() {
+            ComT::<E>::zero()
+        } else {
+            ComT::<E>::pairing_sum(&com_proof.xcoms.coms, &col_vec_to_vec(&stmt_com_y))
+        };
 
         let lin_t = ComT::<E>::linear_map_quad(&self.target, crs);
 
-- 
2.43.0

