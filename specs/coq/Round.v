(* The rounding errors that specs/real.inc and specs/image.inc state as axioms, proved for IEEE 754 binary numbers.
   The constants are those of the unit ($T2, $LIT, ...); [Consts.v], generated from the unit's @define lines,
   shows that they satisfy [Fits] below. *)
From Coq Require Import ZArith Reals Psatz.
From Flocq Require Import Core Relative Plus_error IEEE754.BinarySingleNaN.
Open Scope R_scope.

Record consts := { T2 : R; T4 : R; T7 : R; T10 : R; T14 : R; T17 : R; LIT : R; CUBELIT : R; CUBEMIN : R; CUBE : R }.

(* absolute errors far below anything that counts: underflow *)
Definition tiny := / 1000000000000000000000000000000.

Section Any.
Variable prec emax : Z.
Context (Hprec : FLX.Prec_gt_0 prec) (Hmax : Prec_lt_emax prec emax).
Variable C : consts.
Notation float := (binary_float prec emax).
Notation emin := (3 - emax - prec)%Z.
Notation fexp := (SpecFloat.fexp prec emax).
Notation beta := radix2.
Definition u := bpow beta (- prec).
(* a constant expression in double precision: at most three roundings (extract/src/lit.rs) *)
Definition wd := 3.01 * / 2 ^ 53.
Record Fits : Prop := {
  fit_prec : (24 <= prec)%Z;
  fit_emax : (128 <= emax)%Z;
  fit_lit : u + wd + u * wd + tiny <= LIT C <= / 1000000;
  fit_one : 2 * u + tiny <= T2 C /\ 4 * u + tiny <= T4 C /\ 128 * u + tiny <= T7 C /\ 1024 * u + tiny <= T10 C /\ 16000 * u + tiny <= T14 C /\ 200000 * u + tiny <= T17 C;
  fit_two : let d := 1.01 * LIT C + 1.01 * u in
    2 * d + tiny <= T2 C * 2 /\ 4 * d + tiny <= T4 C * 2 /\ 128 * d + tiny <= T7 C * 2 /\ 1024 * d + tiny <= T10 C * 2 /\ 16000 * d + tiny <= T14 C * 2 /\ 200000 * d + tiny <= T17 C * 2;
  fit_cubelit : 3.01 * LIT C + 2.02 * u <= CUBELIT C /\ tiny <= CUBEMIN C;
  fit_cube : 8 * (2.02 * u) + tiny <= CUBE C }.
Context (F : Fits).

Definition eta := tiny * / 1000000000.
Definition rnd := round beta fexp ZnearestE.
Definition fin (x : float) := is_finite x = true.
Definition val (x : float) := B2R x.
Definition mid (x : float) := fin x /\ -100000 <= val x <= 100000.
Definition near (a b e : R) := a - b <= e /\ b - a <= e.
Definition rounded (a b k : R) :=
  (b >= 0 -> a >= 0) /\ (b <= 0 -> a <= 0) /\
  (-2 <= b <= 2 -> near a b (T2 C * k)) /\ (-4 <= b <= 4 -> near a b (T4 C * k)) /\ (-128 <= b <= 128 -> near a b (T7 C * k)) /\
  (-1024 <= b <= 1024 -> near a b (T10 C * k)) /\ (-16000 <= b <= 16000 -> near a b (T14 C * k)) /\ (-200000 <= b <= 200000 -> near a b (T17 C * k)).
Definition fadd (a b : float) := Bplus mode_NE a b.
Definition fsub (a b : float) := Bminus mode_NE a b.
Definition fmul (a b : float) := Bmult mode_NE a b.
Definition fdiv (a b : float) := Bdiv mode_NE a b.
Definition fneg (a : float) := Bopp a.
(* x is the number F::from_f64 gives for a constant expression that denotes c: d is its value in double precision *)
Definition is_lit (x : float) (c : R) :=
  fin x /\ exists d : R, Rabs (d - c) <= wd * Rabs c + eta * / 1000 /\ (c >= 0 -> d >= 0) /\ (c <= 0 -> d <= 0) /\ val x = rnd d.
(* x is the number F::from_u8, from_u32, from_u64 or from_usize gives for a whole number that F can represent *)
Definition is_int (x : float) (n : Z) := fin x /\ val x = rnd (IZR n).

Lemma wd_pos : 0 < wd <= / 1000000000000000. Proof. unfold wd. lra. Qed.
Lemma u_pos : 0 < u. Proof. apply bpow_gt_0. Qed.
Lemma tiny_pos : 0 < tiny. Proof. unfold tiny. lra. Qed.
Lemma u_small : u <= / 16777216.
Proof.
  unfold u. apply Rle_trans with (bpow beta (-24)). apply bpow_le. destruct F. lia. simpl. lra.
Qed.

(* ---- approximation up to a relative and an absolute error *)
Definition apx (r b d h : R) := Rabs (r - b) <= d * Rabs b + h.
Lemma apx_trans : forall r s b d1 h1 d2 h2, 0 <= d1 -> apx r s d1 h1 -> apx s b d2 h2 -> apx r b (d1 + d2 + d1 * d2) (h1 + (1 + d1) * h2).
Proof.
  unfold apx. intros r s b d1 h1 d2 h2 P H1 H2.
  assert (Rabs s <= Rabs b + (d2 * Rabs b + h2)). { replace s with (b + (s - b)) by ring. eapply Rle_trans. apply Rabs_triang. lra. }
  replace (r - b) with ((r - s) + (s - b)) by ring. eapply Rle_trans. apply Rabs_triang. nra.
Qed.
Lemma apx_scale : forall r b a d h, apx r b d h -> apx (r * a) (b * a) d (h * Rabs a).
Proof.
  unfold apx. intros r b a d h H. replace (r * a - b * a) with ((r - b) * a) by ring. rewrite !Rabs_mult.
  pose proof (Rabs_pos a). nra.
Qed.
Lemma apx_mul : forall r b r' b' d h d' h', apx r b d h -> apx r' b' d' h' ->
  apx (r * r') (b * b') (d * (1 + d') + d') (d * Rabs b * h' + h * (1 + d') * Rabs b' + h * h' + Rabs b * h').
Proof.
  unfold apx. intros r b r' b' d h d' h' H H'.
  assert (Rabs r' <= (1 + d') * Rabs b' + h'). { replace r' with (b' + (r' - b')) by ring. eapply Rle_trans. apply Rabs_triang. lra. }
  replace (r * r' - b * b') with ((r - b) * r' + b * (r' - b')) by ring. eapply Rle_trans. apply Rabs_triang. rewrite !Rabs_mult.
  pose proof (Rabs_pos b). pose proof (Rabs_pos r'). pose proof (Rabs_pos (r - b)). pose proof (Rabs_pos b').
  assert (Rabs (r - b) * Rabs r' <= (d * Rabs b + h) * ((1 + d') * Rabs b' + h')) by (apply Rmult_le_compat; assumption).
  assert (Rabs b * Rabs (r' - b') <= Rabs b * (d' * Rabs b' + h')) by (apply Rmult_le_compat_l; assumption).
  nra.
Qed.
Lemma apx_weaken : forall r b d h d' h', d <= d' -> h <= h' -> apx r b d h -> apx r b d' h'.
Proof. unfold apx. intros. pose proof (Rabs_pos b). nra. Qed.
Lemma apx_near : forall r b d h m e, 0 <= d -> apx r b d h -> - m <= b <= m -> m * d + h <= e -> near r b e.
Proof.
  unfold apx, near. intros r b d h m e P H B E. assert (Rabs b <= m) by (apply Rabs_le; lra). 
  apply Rabs_le_inv in H. nra.
Qed.

(* ---- rounding *)
Lemma valid_rnd : Valid_rnd ZnearestE. Proof. apply valid_rnd_N. Qed.
Lemma valid_exp : Valid_exp fexp. Proof. apply (FLT_exp_valid emin prec). Qed.
Lemma rnd_mono : forall r s, r <= s -> rnd r <= rnd s.
Proof. intros. apply round_le; [apply valid_exp|apply valid_rnd|assumption]. Qed.
Lemma rnd_0 : rnd 0 = 0. Proof. apply round_0. apply valid_rnd. Qed.
Lemma rnd_nonneg : forall r, r >= 0 -> rnd r >= 0.
Proof. intros r H. rewrite <- rnd_0. apply Rle_ge, rnd_mono. lra. Qed.
Lemma rnd_nonpos : forall r, r <= 0 -> rnd r <= 0.
Proof. intros r H. rewrite <- rnd_0. apply rnd_mono. lra. Qed.
Lemma rnd_bpow : forall e, (emin <= e)%Z -> rnd (bpow beta e) = bpow beta e.
Proof. intros e H. apply round_generic. apply valid_rnd. apply (generic_format_FLT_bpow beta emin prec). exact H. Qed.

Lemma bpow_150 : bpow beta (-149) * / 2 <= eta.
Proof. unfold eta, tiny. simpl bpow. lra. Qed.
Lemma rnd_apx : forall r, apx (rnd r) r u eta.
Proof.
  intros r. destruct (error_N_FLT beta emin prec Hprec (fun x => negb (Z.even x)) r) as (e & h & E & H & _ & Q).
  unfold apx, rnd. change (round beta fexp ZnearestE r) with (round beta (FLT_exp emin prec) ZnearestE r).
  rewrite Q. replace (r * (1 + e) + h - r) with (e * r + h) by ring.
  eapply Rle_trans. apply Rabs_triang. rewrite Rabs_mult. pose proof (Rabs_pos r).
  assert (Rabs e <= u). { unfold u. replace (bpow beta (- prec)) with (/ 2 * bpow beta (- prec + 1)). exact E.
    rewrite bpow_plus. change (bpow beta 1) with 2. field. }
  assert (Rabs h <= eta).
  { eapply Rle_trans. exact H. pose proof bpow_150. assert (bpow beta emin <= bpow beta (-149)) by (apply bpow_le; destruct F; lia). lra. }
  nra.
Qed.

Lemma no_overflow : forall r, Rabs r <= 1000000000000 -> Rabs (rnd r) < bpow beta emax.
Proof.
  intros r H. apply Rle_lt_trans with (bpow beta 40).
  - assert (P : rnd (bpow beta 40) = bpow beta 40) by (apply rnd_bpow; destruct F; lia).
    assert (Q : rnd (- bpow beta 40) = - bpow beta 40) by (unfold rnd; rewrite round_NE_opp; fold rnd; now f_equal).
    apply Rabs_le_inv in H. apply Rabs_le. rewrite <- P at 1 2. 
    assert (1000000000000 <= bpow beta 40) by (simpl; lra).
    rewrite P, <- Q, <- P. split; apply rnd_mono; rewrite ?P; lra.
  - apply bpow_lt. destruct F. lia.
Qed.

Lemma add_val : forall a b, fin a -> fin b -> Rabs (val a + val b) <= 1000000000000 -> fin (fadd a b) /\ val (fadd a b) = rnd (val a + val b).
Proof.
  intros a b A B H. pose proof (Bplus_correct prec emax Hprec Hmax mode_NE a b A B) as P. cbn [round_mode] in P.
  rewrite Rlt_bool_true in P by (now apply no_overflow). unfold fin, val, fadd. tauto.
Qed.
Lemma sub_val : forall a b, fin a -> fin b -> Rabs (val a - val b) <= 1000000000000 -> fin (fsub a b) /\ val (fsub a b) = rnd (val a - val b).
Proof.
  intros a b A B H. pose proof (Bminus_correct prec emax Hprec Hmax mode_NE a b A B) as P. cbn [round_mode] in P.
  rewrite Rlt_bool_true in P by (now apply no_overflow). unfold fin, val, fsub. tauto.
Qed.
Lemma mul_val : forall a b, fin a -> fin b -> Rabs (val a * val b) <= 1000000000000 -> fin (fmul a b) /\ val (fmul a b) = rnd (val a * val b).
Proof.
  intros a b A B H. pose proof (Bmult_correct prec emax Hprec Hmax mode_NE a b) as P. cbn [round_mode] in P.
  rewrite Rlt_bool_true in P by (now apply no_overflow). unfold fin, val, fmul in *. rewrite A, B in P. tauto.
Qed.
Lemma div_val : forall a b, fin a -> fin b -> val b <> 0 -> Rabs (val a / val b) <= 1000000000000 -> fin (fdiv a b) /\ val (fdiv a b) = rnd (val a / val b).
Proof.
  intros a b A B N H. pose proof (Bdiv_correct prec emax Hprec Hmax mode_NE a b N) as P. cbn [round_mode] in P.
  rewrite Rlt_bool_true in P by (now apply no_overflow). unfold fin, val, fdiv in *. rewrite A in P. tauto.
Qed.

Lemma rounded_one : forall r b, apx r b u eta -> (b >= 0 -> r >= 0) -> (b <= 0 -> r <= 0) -> rounded r b 1.
Proof.
  intros r b A P N. pose proof u_pos. destruct F as [_ _ _ (H2 & H4 & H7 & H10 & H14 & H17) _ _ _].
  assert (eta <= tiny) by (unfold eta, tiny; lra).
  unfold rounded. rewrite !Rmult_1_r. split; [exact P|]. split; [exact N|].
  split; [intros; apply (apx_near r b u eta 2); auto; lra|]. split; [intros; apply (apx_near r b u eta 4); auto; lra|].
  split; [intros; apply (apx_near r b u eta 128); auto; lra|]. split; [intros; apply (apx_near r b u eta 1024); auto; lra|].
  split; [intros; apply (apx_near r b u eta 16000); auto; lra|]. intros; apply (apx_near r b u eta 200000); auto; lra.
Qed.
Lemma rounded_two : forall r b, apx r b (1.01 * LIT C + 1.01 * u) tiny -> (b >= 0 -> r >= 0) -> (b <= 0 -> r <= 0) -> rounded r b 2.
Proof.
  intros r b A P N. pose proof u_pos. pose proof tiny_pos. destruct F as [_ _ L _ (H2 & H4 & H7 & H10 & H14 & H17) _ _].
  pose proof wd_pos. assert (0 <= u * wd) by nra.
  set (d := 1.01 * LIT C + 1.01 * u) in *. assert (0 <= d) by (unfold d; lra).
  unfold rounded. split; [exact P|]. split; [exact N|].
  split; [intros; apply (apx_near r b d tiny 2); auto; lra|]. split; [intros; apply (apx_near r b d tiny 4); auto; lra|].
  split; [intros; apply (apx_near r b d tiny 128); auto; lra|]. split; [intros; apply (apx_near r b d tiny 1024); auto; lra|].
  split; [intros; apply (apx_near r b d tiny 16000); auto; lra|]. intros; apply (apx_near r b d tiny 200000); auto; lra.
Qed.

(* ---- the axioms *)
Theorem ax_zero : fin (B754_zero false) /\ val (B754_zero false) = 0.
Proof. split; reflexivity. Qed.

Theorem ax_add : forall a b, mid a -> mid b -> fin (fadd a b) /\ rounded (val (fadd a b)) (val a + val b) 1.
Proof.
  intros a b [A A'] [B B']. destruct (add_val a b A B) as [P Q]. apply Rabs_le. lra.
  split. exact P. rewrite Q. apply rounded_one. apply rnd_apx. apply rnd_nonneg. apply rnd_nonpos.
Qed.
Theorem ax_sub : forall a b, mid a -> mid b -> fin (fsub a b) /\ rounded (val (fsub a b)) (val a - val b) 1.
Proof.
  intros a b [A A'] [B B']. destruct (sub_val a b A B) as [P Q]. apply Rabs_le. lra.
  split. exact P. rewrite Q. apply rounded_one. apply rnd_apx. apply rnd_nonneg. apply rnd_nonpos.
Qed.
Theorem ax_neg : forall a, mid a -> fin (fneg a) /\ val (fneg a) = - val a.
Proof. intros a [A _]. unfold fin, val, fneg. rewrite is_finite_Bopp, B2R_Bopp. now split. Qed.

Lemma lit_apx : forall x c, is_lit x c -> apx (val x) c (u + wd + u * wd) (eta + 2 * (eta * / 1000)).
Proof.
  intros x c (_ & d & D & _ & _ & V). rewrite V. pose proof u_pos. pose proof u_small. pose proof wd_pos. 
  assert (0 < eta) by (unfold eta, tiny; lra).
  apply (apx_weaken _ _ _ _ _ _ (Rle_refl _)) with (2 := apx_trans _ _ _ _ _ _ _ (Rlt_le _ _ u_pos) (rnd_apx _) D). nra.
Qed.
Theorem ax_lit : forall x c, is_lit x c -> c = 0 \/ 0.001 <= Rabs c <= 10000 ->
  fin x /\ near (val x) c (LIT C * Rabs c) /\ (c >= 0 <-> val x >= 0) /\ (c <= 0 <-> val x <= 0).
Proof.
  intros x c L H. pose proof (lit_apx x c L) as A. destruct L as (Fx & d & D & S1 & S2 & V). pose proof u_pos.
  destruct F as [_ _ [L1 L2] _ _ _ _]. split. exact Fx.
  assert (M : Rabs (val x - c) <= LIT C * Rabs c).
  { destruct H as [H|H].
    - subst c. rewrite Rabs_R0, Rmult_0_r. rewrite V. replace d with 0 by lra. rewrite rnd_0. rewrite Rminus_0_r, Rabs_R0. lra.
    - unfold apx in A. assert (eta + 2 * (eta * / 1000) <= tiny * 0.001) by (unfold eta, tiny; lra). pose proof tiny_pos. nra. }
  assert (LIT C * Rabs c <= Rabs c * / 1000000) by (pose proof (Rabs_pos c); nra).
  apply Rabs_le_inv in M. split. unfold near. lra.
  destruct H as [H|H].
  - subst c. rewrite Rabs_R0 in *. split; lra.
  - destruct (Rle_dec c 0) as [Q|Q]; [rewrite Rabs_left1 in * by lra|rewrite Rabs_right in * by lra]; split; lra.
Qed.

(* the sign of a constant; as [lit_apx], for constants of any size *)
Lemma lit_sign : forall x c, is_lit x c -> (c >= 0 -> val x >= 0) /\ (c <= 0 -> val x <= 0).
Proof.
  intros x c (_ & d & _ & S1 & S2 & V). rewrite V. split; intros H. apply rnd_nonneg. now apply S1. apply rnd_nonpos. now apply S2.
Qed.
Lemma lit_bound : forall x c m, is_lit x c -> - m <= c <= m -> 0.001 <= m -> Rabs (val x) <= 1.01 * m.
Proof.
  intros x c m L H M. pose proof (lit_apx x c L) as A. unfold apx in A. pose proof u_pos. pose proof u_small. pose proof wd_pos.
  assert (Rabs c <= m) by (apply Rabs_le; lra). replace (val x) with (c + (val x - c)) by ring.
  eapply Rle_trans. apply Rabs_triang. assert (eta <= / 1000000) by (unfold eta, tiny; lra).
  assert ((u + wd + u * wd) * Rabs c <= / 1000 * m). { apply Rmult_le_compat; try apply Rabs_pos; nra. } lra.
Qed.
Lemma mul_sign : forall a b, (a * b >= 0 -> rnd (a * b) >= 0) /\ (a * b <= 0 -> rnd (a * b) <= 0).
Proof. intros. split. apply rnd_nonneg. apply rnd_nonpos. Qed.
Lemma sign_mul : forall x c a, (c >= 0 -> x >= 0) -> (c <= 0 -> x <= 0) -> (c * a >= 0 -> c <> 0 -> x * a >= 0) /\ (c * a <= 0 -> c <> 0 -> x * a <= 0).
Proof. intros. split; intros; destruct (Rtotal_order c 0) as [|[|]]; try lra; nra. Qed.

Theorem ax_mul_left : forall x c a, is_lit x c -> mid a -> -10000 <= c <= 10000 -> fin (fmul x a) /\ rounded (val (fmul x a)) (c * val a) 2.
Proof.
  intros x c a L [A A'] H. pose proof (lit_bound x c 10000 L H ltac:(lra)) as B.
  destruct (mul_val x a (proj1 L) A) as [P Q].
  { rewrite Rabs_mult. assert (Rabs (val a) <= 100000) by (apply Rabs_le; lra). pose proof (Rabs_pos (val a)). pose proof (Rabs_pos (val x)). nra. }
  split. exact P. rewrite Q. pose proof u_pos. pose proof u_small. pose proof wd_pos. destruct F as [_ _ [L1 L2] _ _ _ _].
  assert (0 < eta) by (unfold eta, tiny; lra). 
  assert (Ha : Rabs (val a) <= 100000) by (apply Rabs_le; lra). pose proof (Rabs_pos (val a)).
  apply rounded_two.
  - eapply apx_weaken. 3: exact (apx_trans _ _ _ _ _ _ _ (Rlt_le _ _ u_pos) (rnd_apx _) (apx_scale _ _ (val a) _ _ (lit_apx x c L))).
    + set (l := u + wd + u * wd) in *. assert (0 <= l) by (unfold l; nra). pose proof tiny_pos. nra.
    + assert ((eta + 2 * (eta * / 1000)) * Rabs (val a) <= (eta + 2 * (eta * / 1000)) * 100000) by (apply Rmult_le_compat_l; lra).
      assert ((1 + u) * ((eta + 2 * (eta * / 1000)) * Rabs (val a)) <= 2 * ((eta + 2 * (eta * / 1000)) * 100000)).
      { apply Rmult_le_compat; try lra. apply Rmult_le_pos; lra. }
      unfold eta, tiny in *. lra.
  - intros S. destruct (lit_sign x c L) as [S1 S2]. apply rnd_nonneg.
    destruct (Req_dec c 0) as [Z|Z]. rewrite Z in *. replace (val x) with 0 by (specialize (S1 ltac:(lra)); specialize (S2 ltac:(lra)); lra). lra.
    now apply (sign_mul (val x) c (val a) S1 S2).
  - intros S. destruct (lit_sign x c L) as [S1 S2]. apply rnd_nonpos.
    destruct (Req_dec c 0) as [Z|Z]. rewrite Z in *. replace (val x) with 0 by (specialize (S1 ltac:(lra)); specialize (S2 ltac:(lra)); lra). lra.
    now apply (sign_mul (val x) c (val a) S1 S2).
Qed.
Theorem ax_mul_right : forall x c a, is_lit x c -> mid a -> -10000 <= c <= 10000 -> fin (fmul a x) /\ rounded (val (fmul a x)) (c * val a) 2.
Proof.
  intros x c a L M H. destruct (ax_mul_left x c a L M H) as [P Q].
  assert (Fx : fin x) by apply L. destruct M as [A A'].
  pose proof (lit_bound x c 10000 L H ltac:(lra)) as B.
  assert (S : Rabs (val x * val a) <= 1000000000000).
  { rewrite Rabs_mult. assert (Rabs (val a) <= 100000) by (apply Rabs_le; lra). pose proof (Rabs_pos (val a)). pose proof (Rabs_pos (val x)). nra. }
  destruct (mul_val x a Fx A S) as [_ V]. rewrite Rmult_comm in S. destruct (mul_val a x A Fx S) as [P' V'].
  split. exact P'. rewrite V'. rewrite V in Q. rewrite Rmult_comm. exact Q.
Qed.

(* whole numbers that F represents exactly *)
Lemma int_val : forall x n, is_int x n -> (Z.abs n <= 2 ^ prec)%Z -> val x = IZR n.
Proof.
  intros x n [_ V] H. rewrite V. apply round_generic. apply valid_rnd.
  apply (generic_format_FLT beta emin prec).
  destruct (Z.eq_dec (Z.abs n) (2 ^ prec)) as [E|E].
  - assert (P : (0 <= prec)%Z) by (destruct F; lia).
    exists (Float beta (Z.sgn n) prec).
    + unfold F2R, Fnum, Fexp. rewrite <- IZR_Zpower by exact P. rewrite <- mult_IZR. f_equal. change (Zpower beta prec) with (2 ^ prec)%Z. rewrite <- E. now rewrite Z.mul_comm, Z.abs_sgn.
    + unfold Fnum. change (Zpower beta prec) with (2 ^ prec)%Z. assert (1 < 2 ^ prec)%Z by (apply Z.pow_gt_1; destruct F; lia). destruct n; simpl; lia.
    + unfold Fexp. destruct F. lia.
  - exists (Float beta n 0).
    + unfold F2R, Fnum, Fexp. simpl. ring.
    + unfold Fnum. change (Zpower beta prec) with (2 ^ prec)%Z. lia.
    + unfold Fexp. destruct F. lia.
Qed.
Lemma pow_24 : (2 ^ 24 <= 2 ^ prec)%Z.
Proof. apply Z.pow_le_mono_r; destruct F; lia. Qed.

Theorem ax_byte : forall x n, is_int x n -> (0 <= n <= 255)%Z -> fin x /\ val x = IZR n /\ 0 <= IZR n <= 255.
Proof.
  intros x n I H. split. apply I. split. apply int_val. exact I. pose proof pow_24. lia.
  split; apply (IZR_le 0) || apply (IZR_le _ 255); lia.
Qed.
Lemma byte_255 : forall x, is_int x 255 -> val x = 255.
Proof. intros x I. apply (ax_byte x 255 I). lia. Qed.

Lemma two_from_one : forall r b, apx r b u eta -> apx r b (1.01 * LIT C + 1.01 * u) tiny.
Proof.
  intros r b. destruct F as [_ _ [L _] _ _ _ _]. pose proof u_pos. pose proof tiny_pos. pose proof wd_pos. assert (0 <= u * wd) by nra. apply apx_weaken; [lra|unfold eta, tiny; lra].
Qed.
Theorem ax_mul_byte_left : forall x a, is_int x 255 -> mid a -> fin (fmul x a) /\ rounded (val (fmul x a)) (255 * val a) 2.
Proof.
  intros x a I [A A']. assert (Fx : fin x) by apply I. destruct (mul_val x a Fx A) as [P Q].
  rewrite (byte_255 x I). apply Rabs_le. lra.
  split. exact P. rewrite Q, (byte_255 x I). apply rounded_two. apply two_from_one, rnd_apx. apply rnd_nonneg. apply rnd_nonpos.
Qed.
Theorem ax_mul_byte_right : forall x a, is_int x 255 -> mid a -> fin (fmul a x) /\ rounded (val (fmul a x)) (255 * val a) 2.
Proof.
  intros x a I [A A']. assert (Fx : fin x) by apply I. destruct (mul_val a x A Fx) as [P Q].
  rewrite (byte_255 x I). apply Rabs_le. lra.
  split. exact P. rewrite Q, (byte_255 x I). rewrite Rmult_comm. apply rounded_two. apply two_from_one, rnd_apx. apply rnd_nonneg. apply rnd_nonpos.
Qed.
Theorem ax_div_byte : forall x a, is_int x 255 -> mid a -> fin (fdiv a x) /\ rounded (val (fdiv a x)) (val a / 255) 2.
Proof.
  intros x a I [A A']. assert (Fx : fin x) by apply I. destruct (div_val a x A Fx) as [P Q].
  rewrite (byte_255 x I). lra.
  rewrite (byte_255 x I). apply Rabs_le. lra.
  split. exact P. rewrite Q, (byte_255 x I). apply rounded_two. apply two_from_one, rnd_apx. apply rnd_nonneg. apply rnd_nonpos.
Qed.

Theorem ax_div : forall x c a, is_lit x c -> mid a -> c <= -0.001 \/ 0.001 <= c -> -10000 <= c <= 10000 ->
  fin (fdiv a x) /\ rounded (val (fdiv a x)) (val a / c) 2.
Proof.
  intros x c a L [A A'] N H. assert (Fx : fin x) by apply L.
  assert (Hc : 0.001 <= Rabs c <= 10000). { split. destruct N; [rewrite Rabs_left1|rewrite Rabs_right]; lra. apply Rabs_le. lra. }
  destruct (ax_lit x c L (or_intror Hc)) as (_ & E & S1 & S2).
  destruct F as [_ _ [L1 L2] _ _ _ _]. pose proof u_pos. pose proof wd_pos. pose proof u_small. pose proof wd_pos. pose proof tiny_pos.
  set (l := LIT C) in *. assert (L0 : 0 <= l) by nra.
  assert (Cn : c <> 0) by lra.
  assert (Vx : Rabs c <= 1.01 * Rabs (val x) /\ val x <> 0).
  { assert (D : Rabs (val x - c) <= l * Rabs c) by (destruct E; apply Rabs_le; lra).
    assert (Rabs c <= Rabs (val x) + Rabs (val x - c)). { replace c with (val x - (val x - c)) at 1 by ring. unfold Rminus at 1. eapply Rle_trans. apply Rabs_triang. rewrite Rabs_Ropp. lra. }
    split. nra. intros Z. rewrite Z, Rabs_R0 in *. nra. }
  destruct Vx as [Vx Vn]. pose proof (Rabs_pos (val x)).
  assert (Ha : Rabs (val a) <= 100000) by (apply Rabs_le; lra). pose proof (Rabs_pos (val a)).
  assert (I : apx (/ val x) (/ c) (1.001 * l) 0).
  { unfold apx. rewrite Rplus_0_r. replace (/ val x - / c) with ((c - val x) * (/ val x * / c)) by (field; tauto).
    rewrite !Rabs_mult, !Rabs_inv.
    assert (D : Rabs (c - val x) <= l * Rabs c) by (destruct E; apply Rabs_le; lra).
    assert (Xc : Rabs c <= (1 + 2 * l) * Rabs (val x)).
    { assert (Rabs c <= Rabs (val x) + Rabs (c - val x)). { replace c with (val x + (c - val x)) at 1 by ring. apply Rabs_triang. } nra. }
    assert (0 < Rabs (val x)) by (apply Rabs_pos_lt; exact Vn). assert (0 < Rabs c) by (apply Rabs_pos_lt; exact Cn).
    apply Rmult_le_reg_r with (Rabs (val x) * Rabs c). nra.
    replace (Rabs (c - val x) * (/ Rabs (val x) * / Rabs c) * (Rabs (val x) * Rabs c)) with (Rabs (c - val x)) by (field; split; lra).
    replace (1.001 * l * / Rabs c * (Rabs (val x) * Rabs c)) with (1.001 * l * Rabs (val x)) by (field; lra).
    apply Rle_trans with (l * Rabs c). exact D.
    apply Rle_trans with (l * ((1 + 2 * l) * Rabs (val x))). now apply Rmult_le_compat_l.
    assert (0 <= l * Rabs (val x)) by (apply Rmult_le_pos; lra). assert (1 + 2 * l <= 1.001) by lra.
    replace (l * ((1 + 2 * l) * Rabs (val x))) with ((1 + 2 * l) * (l * Rabs (val x))) by ring. rewrite (Rmult_assoc 1.001). now apply Rmult_le_compat_r. }
  destruct (div_val a x A Fx Vn) as [P Q].
  { unfold Rdiv. rewrite Rabs_mult, Rabs_inv.
    assert (/ Rabs (val x) <= 2000). { rewrite <- (Rinv_inv 2000). apply Rinv_le. lra. lra. }
    assert (0 <= / Rabs (val x)) by (left; apply Rinv_0_lt_compat; lra). nra. }
  split. exact P. rewrite Q. unfold Rdiv.
  apply rounded_two.
  - rewrite !(Rmult_comm (val a)). eapply apx_weaken. 3: exact (apx_trans _ _ _ _ _ _ _ (Rlt_le _ _ u_pos) (rnd_apx _) (apx_scale _ _ (val a) _ _ I)).
    + fold l. nra.
    + unfold eta, tiny. lra.
  - intros S. apply rnd_nonneg. destruct N as [N|N].
    + assert (/ c < 0) by (apply Rinv_lt_0_compat; lra). assert (val x < 0) by (assert (val x <= 0) by (apply S2; lra); lra).
      assert (/ val x < 0) by (now apply Rinv_lt_0_compat). nra.
    + assert (0 < / c) by (apply Rinv_0_lt_compat; lra). assert (0 < val x) by (assert (val x >= 0) by (apply S1; lra); lra).
      assert (0 < / val x) by (now apply Rinv_0_lt_compat). nra.
  - intros S. apply rnd_nonpos. destruct N as [N|N].
    + assert (/ c < 0) by (apply Rinv_lt_0_compat; lra). assert (val x < 0) by (assert (val x <= 0) by (apply S2; lra); lra).
      assert (/ val x < 0) by (now apply Rinv_lt_0_compat). nra.
    + assert (0 < / c) by (apply Rinv_0_lt_compat; lra). assert (0 < val x) by (assert (val x >= 0) by (apply S1; lra); lra).
      assert (0 < / val x) by (now apply Rinv_0_lt_compat). nra.
Qed.

(* powi(3), whichever way the two products are taken *)
Lemma cube_apx : forall x, Rabs x <= 11 -> apx (rnd (rnd (x * x) * x)) (x * x * x) (2.01 * u) (tiny * / 1000).
Proof.
  intros x H. pose proof u_pos. pose proof u_small. pose proof wd_pos. assert (0 < eta) by (unfold eta, tiny; lra). pose proof (Rabs_pos x).
  eapply apx_weaken. 3: exact (apx_trans _ _ _ _ _ _ _ (Rlt_le _ _ u_pos) (rnd_apx _) (apx_scale _ _ x _ _ (rnd_apx (x * x)))).
  - assert (u * u <= u * / 16777216) by (apply Rmult_le_compat_l; lra). lra.
  - assert (eta * Rabs x <= eta * 11) by nra. assert ((1 + u) * (eta * Rabs x) <= 2 * (eta * 11)). { apply Rmult_le_compat; nra. } unfold eta, tiny in *. lra.
Qed.
Lemma square_small : forall x, Rabs x <= 11 -> Rabs (rnd (x * x)) <= 200.
Proof.
  intros x H. pose proof (rnd_apx (x * x)) as A. unfold apx in A. rewrite Rabs_mult in A. pose proof u_pos. pose proof u_small. pose proof wd_pos. pose proof (Rabs_pos x).
  replace (rnd (x * x)) with (x * x + (rnd (x * x) - x * x)) by ring. eapply Rle_trans. apply Rabs_triang. rewrite Rabs_mult.
  assert (Rabs x * Rabs x <= 121) by nra. assert (eta <= 1) by (unfold eta, tiny; lra). nra.
Qed.
Lemma cube_left_val : forall a, fin a -> Rabs (val a) <= 11 -> fin (fmul (fmul a a) a) /\ val (fmul (fmul a a) a) = rnd (rnd (val a * val a) * val a).
Proof.
  intros a A H. pose proof (Rabs_pos (val a)). destruct (mul_val a a A A) as [P Q]. rewrite Rabs_mult. nra.
  pose proof (square_small (val a) H) as S.
  destruct (mul_val (fmul a a) a P A) as [P' Q']. rewrite Q, Rabs_mult. pose proof (Rabs_pos (rnd (val a * val a))). nra.
  split. exact P'. now rewrite Q', Q.
Qed.
Lemma cube_right_val : forall a, fin a -> Rabs (val a) <= 11 -> fin (fmul a (fmul a a)) /\ val (fmul a (fmul a a)) = rnd (rnd (val a * val a) * val a).
Proof.
  intros a A H. pose proof (Rabs_pos (val a)). destruct (mul_val a a A A) as [P Q]. rewrite Rabs_mult. nra.
  pose proof (square_small (val a) H) as S.
  destruct (mul_val a (fmul a a) A P) as [P' Q']. rewrite Q, Rabs_mult. pose proof (Rabs_pos (rnd (val a * val a))). nra.
  split. exact P'. rewrite Q', Q. f_equal. ring.
Qed.
Definition cube (x : R) := x * x * x.
Lemma cube_near : forall a, -2 <= val a <= 2 -> near (rnd (rnd (val a * val a) * val a)) (cube (val a)) (CUBE C).
Proof.
  intros a H. destruct F as [_ _ _ _ _ _ K]. pose proof u_pos.
  apply apx_near with (d := 2.01 * u) (h := tiny * / 1000) (m := 8). lra. apply cube_apx. apply Rabs_le. lra.
  unfold cube. generalize dependent (val a). intros x H. split.
  - assert (0 <= (2 + x) * (4 - 2 * x + x * x)) by (apply Rmult_le_pos; nra). lra.
  - assert (0 <= (2 - x) * (4 + 2 * x + x * x)) by (apply Rmult_le_pos; nra). lra.
  -
  pose proof tiny_pos. lra.
Qed.
Theorem ax_cube_left : forall a, mid a -> -2 <= val a <= 2 -> fin (fmul (fmul a a) a) /\ near (val (fmul (fmul a a) a)) (cube (val a)) (CUBE C).
Proof.
  intros a [A _] H. destruct (cube_left_val a A) as [P Q]. apply Rabs_le. lra. split. exact P. rewrite Q. now apply cube_near.
Qed.
Theorem ax_cube_right : forall a, mid a -> -2 <= val a <= 2 -> fin (fmul a (fmul a a)) /\ near (val (fmul a (fmul a a))) (cube (val a)) (CUBE C).
Proof.
  intros a [A _] H. destruct (cube_right_val a A) as [P Q]. apply Rabs_le. lra. split. exact P. rewrite Q. now apply cube_near.
Qed.
Definition fpowi3 (x r : float) := r = fmul x (fmul x x) \/ r = fmul (fmul x x) x.
Theorem ax_cube : forall a r, fpowi3 a r -> mid a -> -2 <= val a <= 2 -> fin r /\ near (val r) (cube (val a)) (CUBE C).
Proof. intros a r [E|E] M H; subst r. now apply ax_cube_right. now apply ax_cube_left. Qed.

Theorem ax_cube_lit : forall x c r, is_lit x c -> fpowi3 x r -> -10 <= c <= 10 ->
  fin r /\ near (val r) (c * c * c) (CUBELIT C * Rabs (c * c * c) + CUBEMIN C).
Proof.
  intros x c r L E H. assert (Fx : fin x) by apply L. pose proof (lit_bound x c 10 L H ltac:(lra)) as B.
  assert (V : fin r /\ val r = rnd (rnd (val x * val x) * val x)).
  { destruct E as [E|E]; subst r; [apply cube_right_val|apply cube_left_val]; try exact Fx; lra. }
  destruct V as [P Q]. split. exact P. rewrite Q.
  pose proof (lit_apx x c L) as A. set (l := u + wd + u * wd) in *. set (h := eta + 2 * (eta * / 1000)) in *.
  destruct F as [_ _ [L1 L2] _ _ [K1 K2] _]. pose proof u_pos. pose proof u_small. pose proof wd_pos.
  assert (l0 : 0 <= l). { unfold l. assert (0 <= u * wd) by (apply Rmult_le_pos; lra). lra. } assert (Hh : 0 <= h <= tiny * / 100000000) by (unfold h, eta, tiny; lra).
  assert (ll : l <= / 1000000) by (pose proof tiny_pos; fold l in L1; lra). fold l in L1.
  assert (Hc : Rabs c <= 10) by (apply Rabs_le; lra). pose proof (Rabs_pos c).
  assert (A2 : apx (val x * val x) (c * c) (2.00001 * l) (50 * h)).
  { eapply apx_weaken. 3: exact (apx_mul _ _ _ _ _ _ _ _ A A).
    assert (l * l <= l * / 1000000) by (apply Rmult_le_compat_l; lra). lra.
    assert (l * Rabs c * h <= 1 * 10 * h) by (apply Rmult_le_compat_r; [lra|apply Rmult_le_compat; lra]).
    assert (h * (1 + l) * Rabs c <= h * 2 * 10) by (apply Rmult_le_compat; [apply Rmult_le_pos|apply Rabs_pos|apply Rmult_le_compat_l|]; lra).
    assert (h * h <= h * 1) by (apply Rmult_le_compat_l; unfold tiny in *; lra).
    assert (Rabs c * h <= 10 * h) by (apply Rmult_le_compat_r; lra). lra. }
  assert (A3 : apx (val x * val x * val x) (c * c * c) (3.0001 * l) (10000 * h)).
  { eapply apx_weaken. 3: exact (apx_mul _ _ _ _ _ _ _ _ A2 A).
    assert (2.00001 * l * l <= 2.00001 * l * / 1000000) by (apply Rmult_le_compat_l; lra). lra.
    assert (C2 : 0 <= Rabs (c * c) <= 100). { split. apply Rabs_pos. rewrite Rabs_mult. replace 100 with (10 * 10) by ring. apply Rmult_le_compat; lra. }
    assert (2.00001 * l * Rabs (c * c) * h <= 1 * 100 * h) by (apply Rmult_le_compat_r; [lra|apply Rmult_le_compat; lra]).
    assert (50 * h * (1 + l) * Rabs c <= 50 * h * 2 * 10) by (apply Rmult_le_compat; [apply Rmult_le_pos|apply Rabs_pos|apply Rmult_le_compat_l|]; lra).
    assert (50 * h * h <= 50 * h * 1) by (apply Rmult_le_compat_l; unfold tiny in *; lra).
    assert (Rabs (c * c) * h <= 100 * h) by (apply Rmult_le_compat_r; lra). lra. }
  pose proof (cube_apx (val x) ltac:(lra)) as A1.
  assert (D0 : 0 <= 2.01 * u) by lra.
  pose proof (apx_trans _ _ _ _ _ _ _ D0 A1 A3) as R. unfold apx in R. pose proof (Rabs_pos (c * c * c)).
  apply Rabs_le_inv in R.
  assert ((2.01 * u + 3.0001 * l + 2.01 * u * (3.0001 * l)) * Rabs (c * c * c) <= CUBELIT C * Rabs (c * c * c)).
  { apply Rmult_le_compat_r. lra. assert (2.01 * u * (3.0001 * l) <= 2.01 * u * (3.0001 * / 1000000)) by (apply Rmult_le_compat_l; lra). pose proof tiny_pos. lra. }
  assert ((1 + 2.01 * u) * (10000 * h) <= 2 * (10000 * h)) by (apply Rmult_le_compat_r; lra).
  unfold near. unfold tiny in *. lra.
Qed.

(* f32::round, f64::round: to the nearest whole number, away from zero when there are two *)
Definition round_away (x : R) : Z := Znearest (Zle_bool 0) x.
Theorem ax_round : forall a r, mid a -> is_int r (round_away (val a)) -> fin r /\ (exists n, val r = IZR n) /\ near (val r) (val a) 0.5.
Proof.
  intros a r [A A'] I. assert (H : val r = IZR (round_away (val a))).
  { apply int_val. exact I. pose proof pow_24.
    assert (-100000 <= round_away (val a) <= 100000)%Z.
    { unfold round_away. split.
      - rewrite <- (Zrnd_IZR (Znearest (Zle_bool 0)) (-100000)). apply Zrnd_le; try apply valid_rnd_N. lra.
      - rewrite <- (Zrnd_IZR (Znearest (Zle_bool 0)) 100000). apply Zrnd_le; try apply valid_rnd_N. lra. }
    lia. }
  split. apply I. split. now exists (round_away (val a)).
  rewrite H. pose proof (Znearest_half (Zle_bool 0) (val a)) as N. unfold round_away. apply Rabs_le_inv in N. unfold near. lra.
Qed.

(* ---- specs/image.inc, for double precision *)
Definition unit := 0.00000000000000012.
Definition prod (r a b : R) := near r (a * b) (unit * Rabs (a * b) + 0.0000000000000000000001).
Definition quot (r a b : R) := near (r * b) a (unit * Rabs a + 0.0000000000000000000001).
Section Double.
Context (D : prec = 53%Z).
Lemma u_unit : u <= unit.
Proof. unfold u, unit. rewrite D. simpl. lra. Qed.

Theorem ax_int : forall x n, is_int x n -> (0 <= n <= 9007199254740992)%Z -> fin x /\ val x = IZR n.
Proof. intros x n I H. split. apply I. apply int_val. exact I. rewrite D. change (2 ^ 53)%Z with 9007199254740992%Z. lia. Qed.

Theorem ax_product : forall a b, fin a -> fin b -> -100 <= val a <= 100 -> 0 <= val b <= 5000000000 ->
  fin (fmul a b) /\ prod (val (fmul a b)) (val a) (val b).
Proof.
  intros a b A B Ha Hb. destruct (mul_val a b A B) as [P Q]. apply Rabs_le. split; nra.
  split. exact P. rewrite Q. pose proof (rnd_apx (val a * val b)) as R. unfold apx in R. pose proof u_unit. pose proof (Rabs_pos (val a * val b)).
  assert (eta <= 0.0000000000000000000001) by (unfold eta, tiny; lra).
  apply Rabs_le_inv in R. assert (u * Rabs (val a * val b) <= unit * Rabs (val a * val b)) by nra. unfold prod, near. lra.
Qed.

Theorem ax_quotient : forall a b, fin a -> fin b -> -10000000000 <= val a <= 10000000000 -> 0.5 <= val b <= 10000000000 ->
  fin (fdiv a b) /\ quot (val (fdiv a b)) (val a) (val b) /\
  (val a >= 0 -> val (fdiv a b) >= 0) /\ (val a <= val b -> val (fdiv a b) <= 1) /\ (val a >= 1 -> val (fdiv a b) > 0).
Proof.
  intros a b A B Ha Hb.
  assert (I : 0 < / val b <= 2). { split. apply Rinv_0_lt_compat. lra. rewrite <- (Rinv_inv 2). apply Rinv_le; lra. }
  assert (S : Rabs (val a / val b) <= 1000000000000). { unfold Rdiv. apply Rabs_le. split; nra. }
  destruct (div_val a b A B ltac:(lra) S) as [P Q].
  pose proof (rnd_apx (val a / val b)) as R. unfold apx in R. pose proof u_unit. pose proof u_pos. pose proof u_small. pose proof wd_pos.
  split. exact P. rewrite Q. repeat split.
  - (* quot *) apply Rabs_le_inv in R.
    assert (E : Rabs (val a / val b) * val b = Rabs (val a)). { unfold Rdiv. rewrite Rabs_mult, Rabs_inv. rewrite (Rabs_right (val b)) by lra. field. lra. }
    assert (E' : val a / val b * val b = val a) by (field; lra).
    pose proof (Rabs_pos (val a)). assert (eta * 10000000000 <= 0.0000000000000000000001) by (unfold eta, tiny; lra).
    assert (0 < eta) by (unfold eta, tiny; lra).
    assert ((rnd (val a / val b) - val a / val b) * val b <= (u * Rabs (val a / val b) + eta) * val b) by (apply Rmult_le_compat_r; lra).
    assert ((u * Rabs (val a / val b) + eta) * val b = u * Rabs (val a) + eta * val b) by (rewrite <- E; ring).
    assert (eta * val b <= eta * 10000000000) by nra. assert (u * Rabs (val a) <= unit * Rabs (val a)) by nra. lra.
  - apply Rabs_le_inv in R.
    assert (E : Rabs (val a / val b) * val b = Rabs (val a)). { unfold Rdiv. rewrite Rabs_mult, Rabs_inv. rewrite (Rabs_right (val b)) by lra. field. lra. }
    assert (E' : val a / val b * val b = val a) by (field; lra).
    pose proof (Rabs_pos (val a)). assert (eta * 10000000000 <= 0.0000000000000000000001) by (unfold eta, tiny; lra).
    assert (0 < eta) by (unfold eta, tiny; lra).
    assert (- ((u * Rabs (val a / val b) + eta) * val b) <= (rnd (val a / val b) - val a / val b) * val b).
    { rewrite <- Ropp_mult_distr_l_reverse. apply Rmult_le_compat_r; lra. }
    assert ((u * Rabs (val a / val b) + eta) * val b = u * Rabs (val a) + eta * val b) by (rewrite <- E; ring).
    assert (eta * val b <= eta * 10000000000) by nra. assert (u * Rabs (val a) <= unit * Rabs (val a)) by nra. lra.
  - intros H9. apply rnd_nonneg. unfold Rdiv. nra.
  - intros H9. assert (O : rnd 1 = 1) by (change 1 with (bpow beta 0); apply rnd_bpow; destruct F; lia). rewrite <- O. apply rnd_mono.
    replace 1 with (val b * / val b) by (field; lra). unfold Rdiv. nra.
  - intros H9. assert (0.0000000001 <= val a / val b).
    { apply Rmult_le_reg_r with (val b). lra. replace (val a / val b * val b) with (val a) by (field; lra). lra. }
    rewrite (Rabs_right (val a / val b)) in R by lra. apply Rabs_le_inv in R. assert (eta <= 0.00000000001) by (unfold eta, tiny; lra).
    assert (u * (val a / val b) <= / 16777216 * (val a / val b)) by (apply Rmult_le_compat_r; lra). lra.
Qed.

Theorem ax_sum : forall a b, fin a -> fin b -> -10000000000 <= val a <= 10000000000 -> -10000000000 <= val b <= 10000000000 ->
  fin (fadd a b) /\ near (val (fadd a b)) (val a + val b) (unit * Rabs (val a + val b)).
Proof.
  intros a b A B Ha Hb. destruct (add_val a b A B) as [P Q]. apply Rabs_le. lra.
  split. exact P. rewrite Q.
  destruct (@FLT_plus_error_N_ex beta emin prec Hprec (fun x => negb (Z.even x)) (val a) (val b)) as (e & E & V).
  { apply generic_format_B2R. } { apply generic_format_B2R. }
  assert (V' : rnd (val a + val b) - (val a + val b) = (val a + val b) * e).
  { change (rnd (val a + val b)) with (round beta (FLT_exp emin prec) ZnearestE (val a + val b)). rewrite V. ring. }
  assert (Rabs e <= unit).
  { eapply Rle_trans. exact E. assert (0 <= u_ro beta prec) by apply u_ro_pos. apply Rle_trans with (u_ro beta prec).
    - apply Rmult_le_reg_r with (1 + u_ro beta prec). lra. unfold Rdiv. rewrite Rmult_assoc, Rinv_l by lra. nra.
    - apply Rle_trans with u; [|apply u_unit]. right. unfold u_ro, u. rewrite D. simpl. lra. }
  assert (Rabs ((val a + val b) * e) <= unit * Rabs (val a + val b)).
  { rewrite Rabs_mult, Rmult_comm. apply Rmult_le_compat_r. apply Rabs_pos. assumption. }
  rewrite <- V' in *. match goal with H : Rabs (rnd _ - _) <= _ |- _ => apply Rabs_le_inv in H end. unfold near. lra.
Qed.
Definition rounds_double := (ax_int, ax_product, ax_quotient, ax_sum).
End Double.
Definition rounds := (ax_zero, ax_add, ax_sub, ax_neg, ax_lit, ax_mul_left, ax_mul_right, ax_byte, ax_mul_byte_left, ax_mul_byte_right, ax_div_byte, ax_div, ax_cube_left, ax_cube_right, ax_cube, ax_cube_lit, ax_round).
End Any.
