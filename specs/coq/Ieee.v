(* The facts about IEEE comparison and arithmetic that specs/float.inc, specs/point.inc, specs/arith.inc and
   specs/kmeans.inc state as axioms, proved for IEEE 754 binary numbers of any precision (binary32 and binary64 below).
   [rank] is the integer the contracts compare numbers by. *)
From Coq Require Import ZArith Reals Psatz.
From Flocq Require Import Core Plus_error IEEE754.BinarySingleNaN.

Section Any.
Variable prec emax : Z.
Context (Hprec : FLX.Prec_gt_0 prec) (Hmax : Prec_lt_emax prec emax).
Notation float := (binary_float prec emax).
Notation emin := (3 - emax - prec)%Z.
Notation fexp := (SpecFloat.fexp prec emax).
Notation beta := radix2.
Definition rnd := round beta fexp ZnearestE.

Definition nan (x : float) := is_nan x = true.
Definition finite (x : float) := is_finite x = true.
Definition fzero : float := B754_zero false.
Definition fadd (a b : float) := Bplus mode_NE a b.
Definition fsub (a b : float) := Bminus mode_NE a b.
Definition fmul (a b : float) := Bmult mode_NE a b.
(* x.powi(2) *)
Definition fsq (a : float) := Bmult mode_NE a a.
Definition fsqrt (a : float) := Bsqrt mode_NE a.
(* from_usize *)
Definition fof (n : nat) : float := binary_normalize prec emax Hprec Hmax mode_NE (Z.of_nat n) 0 false.

(* The value, with the infinities just outside the finite numbers. *)
Definition rk (x : float) : R :=
  match x with
  | B754_infinity s => if s then (- bpow beta emax)%R else bpow beta emax
  | _ => B2R x
  end.
Definition rank (x : float) : Z :=
  match x with
  | B754_zero _ => 0
  | B754_infinity s => cond_Zopp s (2 ^ (emax - emin))
  | B754_nan => 0
  | B754_finite s m e _ => cond_Zopp s (Zpos m * 2 ^ (e - emin))
  end%Z.

Lemma emin_emax : (emin < emax)%Z.
Proof. unfold FLX.Prec_gt_0, Prec_lt_emax in *. lia. Qed.

Lemma rank_rk : forall x, (IZR (rank x) * bpow beta emin)%R = rk x.
Proof.
  intros [s|s| |s m e H]; unfold rank, rk, B2R.
  - ring.
  - assert (E : (IZR (2 ^ (emax - emin)) * bpow beta emin = bpow beta emax)%R).
    { change 2%Z with (radix_val beta). rewrite IZR_Zpower. rewrite <- bpow_plus. f_equal. lia. pose proof emin_emax. lia. }
    destruct s; unfold cond_Zopp; [rewrite opp_IZR; nra|exact E].
  - ring.
  - assert (He : (emin <= e)%Z).
    { pose proof H as H'. unfold SpecFloat.bounded in H'. apply andb_prop in H'. destruct H' as [H' _].
      unfold SpecFloat.canonical_mantissa in H'. apply Zeq_bool_eq in H'. unfold SpecFloat.fexp, SpecFloat.emin in H'. lia. }
    unfold F2R, Fnum, Fexp.
    destruct s; unfold cond_Zopp.
    + rewrite Z.opp_eq_mul_m1, !mult_IZR. change (Zneg m) with (- Zpos m)%Z. rewrite opp_IZR.
      change 2%Z with (radix_val beta). rewrite IZR_Zpower by lia.
      replace (bpow beta e) with (bpow beta (e - emin) * bpow beta emin)%R.
      ring. rewrite <- bpow_plus. f_equal. lia.
    + rewrite mult_IZR. change 2%Z with (radix_val beta). rewrite IZR_Zpower by lia.
      replace (bpow beta e) with (bpow beta (e - emin) * bpow beta emin)%R.
      ring. rewrite <- bpow_plus. f_equal. lia.
Qed.

Lemma rank_le : forall x y, (rank x <= rank y)%Z <-> (rk x <= rk y)%R.
Proof.
  intros x y. rewrite <- !rank_rk. pose proof (bpow_gt_0 beta emin). split; intros H0.
  - apply Rmult_le_compat_r. lra. now apply IZR_le.
  - apply le_IZR. now apply Rmult_le_reg_r with (bpow beta emin).
Qed.
Lemma rank_lt : forall x y, (rank x < rank y)%Z <-> (rk x < rk y)%R.
Proof. intros x y. pose proof (rank_le y x). split; intros; [apply Rnot_le_lt|apply Z.nle_gt]; intros C; apply H in C; [lia|lra]. Qed.
Lemma rank_fzero : rank fzero = 0%Z. Proof. reflexivity. Qed.
Lemma rk_fzero : rk fzero = 0%R. Proof. reflexivity. Qed.
Lemma rank_nonneg : forall x, (0 <= rank x)%Z <-> (0 <= rk x)%R.
Proof. intros x. rewrite <- rank_fzero, rank_le, rk_fzero. tauto. Qed.
Lemma rank_pos : forall x, (0 < rank x)%Z <-> (0 < rk x)%R.
Proof. intros x. rewrite <- rank_fzero, rank_lt, rk_fzero. tauto. Qed.
Lemma rank_neg : forall x, (rank x < 0)%Z <-> (rk x < 0)%R.
Proof. intros x. rewrite <- rank_fzero, rank_lt, rk_fzero. tauto. Qed.

Lemma rk_finite : forall x : float, finite x -> rk x = B2R x.
Proof. intros [s|s| |s m e H] F; try reflexivity; discriminate F. Qed.
Lemma finite_small : forall x : float, (Rabs (B2R x) < bpow beta emax)%R.
Proof. intros x. apply abs_B2R_lt_emax. Qed.
Lemma rk_bound : forall x, (- bpow beta emax <= rk x <= bpow beta emax)%R.
Proof.
  intros x. pose proof (finite_small x) as H. pose proof (bpow_gt_0 beta emax).
  destruct x as [s|[|]| |s m e B]; unfold rk; try (simpl in *; lra); apply Rabs_def2 in H; lra.
Qed.

(* ---- comparison: what partial_cmp and the comparison operators decide *)
Theorem compare_rank : forall x y, ~ nan x -> ~ nan y -> Bcompare x y = Some (Z.compare (rank x) (rank y)).
Proof.
  intros x y Nx Ny.
  assert (F : finite x -> finite y -> Bcompare x y = Some (Z.compare (rank x) (rank y))).
  { intros Fx Fy. rewrite Bcompare_correct by assumption. f_equal.
    rewrite <- (rk_finite x Fx), <- (rk_finite y Fy), <- (rank_rk x), <- (rank_rk y).
    rewrite Rcompare_mult_r by apply bpow_gt_0. apply Rcompare_IZR. }
  assert (I : forall z, finite z -> (- 2 ^ (emax - emin) < rank z < 2 ^ (emax - emin))%Z).
  { intros z Fz. pose proof (finite_small z) as H. rewrite <- (rk_finite z Fz), <- rank_rk in H.
    apply Rabs_def2 in H. destruct H as [H1 H2].
    replace (bpow beta emax) with (IZR (2 ^ (emax - emin)) * bpow beta emin)%R in H1, H2.
    split; apply lt_IZR; apply Rmult_lt_reg_r with (bpow beta emin); try apply bpow_gt_0; rewrite ?opp_IZR; lra.
    change 2%Z with (radix_val beta). rewrite IZR_Zpower by (pose proof emin_emax; lia). rewrite <- bpow_plus. f_equal. lia. }
  assert (P : (0 < 2 ^ (emax - emin))%Z) by (pose proof emin_emax; apply Z.pow_pos_nonneg; lia).
  destruct (is_finite x) eqn:Fx; destruct (is_finite y) eqn:Fy; auto.
  - destruct y as [s|s| |s m e H]; try discriminate Fy; [|now exfalso; apply Ny].
    pose proof (I x Fx) as J.
    destruct x as [s'|s'| |s' m' e' H']; try discriminate Fx; destruct s; unfold rank at 2, cond_Zopp;
      cbn [Bcompare SpecFloat.SFcompare B2SF]; f_equal; symmetry; try (apply Z.compare_gt_iff; lia); apply Z.compare_lt_iff; lia.
  - destruct x as [s|s| |s m e H]; try discriminate Fx; [|now exfalso; apply Nx].
    pose proof (I y Fy) as J.
    destruct y as [s'|s'| |s' m' e' H']; try discriminate Fy; destruct s; unfold rank at 1, cond_Zopp;
      cbn [Bcompare SpecFloat.SFcompare B2SF]; f_equal; symmetry; try (apply Z.compare_gt_iff; lia); apply Z.compare_lt_iff; lia.
  - destruct x as [s|s| |s m e H]; try discriminate Fx; [|now exfalso; apply Nx].
    destruct y as [s'|s'| |s' m' e' H']; try discriminate Fy; [|now exfalso; apply Ny].
    destruct s, s'; unfold rank, cond_Zopp; cbn [Bcompare SpecFloat.SFcompare B2SF]; f_equal; symmetry;
      try (apply Z.compare_refl); try (apply Z.compare_gt_iff; lia); apply Z.compare_lt_iff; lia.
Qed.

(* ---- a rounded result: rounded to nearest, cut off at the infinities *)
Definition clip (r : R) : R := Rmax (- bpow beta emax) (Rmin (bpow beta emax) r).
Lemma clip_mono : forall r s, (r <= s)%R -> (clip r <= clip s)%R.
Proof. intros r s H. unfold clip. apply Rle_max_compat_l. apply Rle_min_compat_l. exact H. Qed.
Lemma clip_rk : forall x, clip (rk x) = rk x.
Proof. intros x. pose proof (rk_bound x). unfold clip. rewrite Rmin_right by lra. apply Rmax_right. lra. Qed.
Lemma clip_pos : forall r, (0 < r)%R -> (0 < clip r)%R.
Proof. intros r H. unfold clip. pose proof (bpow_gt_0 beta emax). apply Rlt_le_trans with (Rmin (bpow beta emax) r). apply Rmin_glb_lt; lra. apply Rmax_r. Qed.
Lemma clip_neg : forall r, (r < 0)%R -> (clip r < 0)%R.
Proof. intros r H. unfold clip. pose proof (bpow_gt_0 beta emax). apply Rmax_lub_lt. lra. apply Rle_lt_trans with r. apply Rmin_r. lra. Qed.
Lemma clip_0 : clip 0 = 0%R.
Proof. apply (clip_rk fzero). Qed.
Lemma clip_big : forall r, (bpow beta emax <= r)%R -> clip r = bpow beta emax.
Proof. intros r H. unfold clip. pose proof (bpow_gt_0 beta emax). rewrite Rmin_left by lra. apply Rmax_right. lra. Qed.
Lemma clip_small : forall r, (r <= - bpow beta emax)%R -> clip r = (- bpow beta emax)%R.
Proof. intros r H. unfold clip. pose proof (bpow_gt_0 beta emax). rewrite Rmin_right by lra. apply Rmax_left. lra. Qed.
Lemma clip_in : forall r, (Rabs r < bpow beta emax)%R -> clip r = r.
Proof. intros r H. apply Rabs_def2 in H. unfold clip. rewrite Rmin_right by lra. apply Rmax_right. lra. Qed.

Lemma valid_rnd : Valid_rnd ZnearestE. Proof. apply valid_rnd_N. Qed.
Lemma rnd_mono : forall r s, (r <= s)%R -> (rnd r <= rnd s)%R.
Proof. intros. apply round_le; [apply (FLT_exp_valid emin prec)|apply valid_rnd|assumption]. Qed.
Lemma rnd_0 : rnd 0 = 0%R. Proof. apply round_0. apply valid_rnd. Qed.
Lemma rnd_rk : forall x, finite x -> rnd (rk x) = rk x.
Proof. intros x F. rewrite rk_finite by assumption. apply round_generic. apply valid_rnd. apply generic_format_B2R. Qed.

Lemma overflow_sign : forall (z : float) s, B2SF z = binary_overflow prec emax mode_NE s -> z = B754_infinity s.
Proof. intros z s H. unfold binary_overflow in H. simpl in H. destruct z; inversion H; reflexivity. Qed.

(* sums of finite numbers *)
Lemma rk_add : forall a b, finite a -> finite b -> ~ nan (fadd a b) /\ rk (fadd a b) = clip (rnd (rk a + rk b)).
Proof.
  intros a b Fa Fb. pose proof (Bplus_correct prec emax Hprec Hmax mode_NE a b Fa Fb) as H.
  rewrite (rk_finite a Fa), (rk_finite b Fb). unfold fadd, rnd. cbn [round_mode] in H.
  destruct (Rlt_bool_spec (Rabs (round beta fexp ZnearestE (B2R a + B2R b))) (bpow beta emax)) as [L|L].
  - destruct H as (H1 & H2 & _). split. unfold nan. destruct (Bplus mode_NE a b); easy.
    rewrite rk_finite by exact H2. rewrite H1. symmetry. now apply clip_in.
  - destruct H as (H1 & H2). apply overflow_sign in H1. rewrite H1. split. easy.
    pose proof (finite_small a). pose proof (finite_small b). pose proof (bpow_gt_0 beta emax).
    destruct (Bsign a) eqn:S.
    + assert (A : (B2R a + B2R b <= 0)%R).
      { assert (B2R a <= 0)%R. { destruct a as [s|s| |s m e B]; simpl in *; try lra; try easy. subst s. apply Rlt_le, F2R_lt_0. simpl. lia. }
        assert (B2R b <= 0)%R. { destruct b as [s|s| |s m e B]; simpl in *; try lra; try easy. subst s. apply Rlt_le, F2R_lt_0. simpl. lia. } lra. }
      apply rnd_mono in A. rewrite rnd_0 in A. unfold rnd in A. rewrite Rabs_left1 in L by exact A. simpl. symmetry. apply clip_small. lra.
    + assert (A : (0 <= B2R a + B2R b)%R).
      { assert (0 <= B2R a)%R. { destruct a as [s|s| |s m e B]; simpl in *; try lra; try easy. subst s. apply Rlt_le, F2R_gt_0. simpl. lia. }
        assert (0 <= B2R b)%R. { destruct b as [s|s| |s m e B]; simpl in *; try lra; try easy. subst s. apply Rlt_le, F2R_gt_0. simpl. lia. } lra. }
      apply rnd_mono in A. rewrite rnd_0 in A. unfold rnd in A. rewrite Rabs_right in L by lra. simpl. symmetry. now apply clip_big.
Qed.

Lemma rk_sub : forall a b, finite a -> finite b -> ~ nan (fsub a b) /\ rk (fsub a b) = clip (rnd (rk a - rk b)).
Proof.
  intros a b Fa Fb. pose proof (Bminus_correct prec emax Hprec Hmax mode_NE a b Fa Fb) as H.
  rewrite (rk_finite a Fa), (rk_finite b Fb). unfold fsub, rnd. cbn [round_mode] in H.
  destruct (Rlt_bool_spec (Rabs (round beta fexp ZnearestE (B2R a - B2R b))) (bpow beta emax)) as [L|L].
  - destruct H as (H1 & H2 & _). split. unfold nan. destruct (Bminus mode_NE a b); easy.
    rewrite rk_finite by exact H2. rewrite H1. symmetry. now apply clip_in.
  - destruct H as (H1 & H2). apply overflow_sign in H1. rewrite H1. split. easy.
    pose proof (finite_small a). pose proof (finite_small b). pose proof (bpow_gt_0 beta emax).
    destruct (Bsign a) eqn:S.
    + assert (A : (B2R a - B2R b <= 0)%R).
      { assert (B2R a <= 0)%R. { destruct a as [s|s| |s m e B]; simpl in *; try lra; try easy. subst s. apply Rlt_le, F2R_lt_0. simpl. lia. }
        assert (0 <= B2R b)%R. { destruct b as [s|s| |s m e B]; simpl in *; try lra; try easy. destruct s; try easy. apply Rlt_le, F2R_gt_0. simpl. lia. } lra. }
      apply rnd_mono in A. rewrite rnd_0 in A. unfold rnd in A. rewrite Rabs_left1 in L by exact A. simpl. symmetry. apply clip_small. lra.
    + assert (A : (0 <= B2R a - B2R b)%R).
      { assert (0 <= B2R a)%R. { destruct a as [s|s| |s m e B]; simpl in *; try lra; try easy. subst s. apply Rlt_le, F2R_gt_0. simpl. lia. }
        assert (B2R b <= 0)%R. { destruct b as [s|s| |s m e B]; simpl in *; try lra; try easy. destruct s; try easy. apply Rlt_le, F2R_lt_0. simpl. lia. } lra. }
      apply rnd_mono in A. rewrite rnd_0 in A. unfold rnd in A. rewrite Rabs_right in L by lra. simpl. symmetry. now apply clip_big.
Qed.

Lemma rk_sq_finite : forall a, finite a -> ~ nan (fsq a) /\ rk (fsq a) = clip (rnd (rk a * rk a)).
Proof.
  intros a Fa. pose proof (Bmult_correct prec emax Hprec Hmax mode_NE a a) as H.
  rewrite (rk_finite a Fa). unfold fsq, rnd. cbn [round_mode] in H.
  destruct (Rlt_bool_spec (Rabs (round beta fexp ZnearestE (B2R a * B2R a))) (bpow beta emax)) as [L|L].
  - destruct H as (H1 & H2 & _). rewrite Fa in H2. split. unfold nan. destruct (Bmult mode_NE a a); easy.
    rewrite rk_finite by exact H2. rewrite H1. symmetry. now apply clip_in.
  - apply overflow_sign in H. rewrite H. split. easy.
    assert (A : (0 <= B2R a * B2R a)%R) by nra.
    apply rnd_mono in A. rewrite rnd_0 in A. unfold rnd in A. rewrite Rabs_right in L by lra. rewrite Bool.xorb_nilpotent. simpl. symmetry. now apply clip_big.
Qed.

Lemma not_nan : forall x, ~ nan x -> finite x \/ exists s, x = B754_infinity s.
Proof. intros [s|s| |s m e H] N; unfold finite; simpl; eauto. now exfalso; apply N. Qed.

(* ---- the axioms, under their names in specs/*.inc *)
Theorem axiom_zero : ~ nan fzero /\ rank fzero = 0%Z.
Proof. split. easy. reflexivity. Qed.

Theorem axiom_zero_finite : finite fzero.
Proof. reflexivity. Qed.

Theorem axiom_finite : forall x, finite x -> ~ nan x.
Proof. intros [s|s| |s m e H]; easy. Qed.

Theorem axiom_sub : forall a b, finite a -> finite b ->
  ~ nan (fsub a b) /\ ((rank a < rank b)%Z <-> (rank (fsub a b) < 0)%Z) /\ ((rank a > rank b)%Z <-> (rank (fsub a b) > 0)%Z).
Proof.
  intros a b Fa Fb. destruct (rk_sub a b Fa Fb) as [N H]. split. exact N.
  assert (G : forall x y, finite x -> finite y -> (rk x < rk y)%R -> (rnd (rk x - rk y) < 0)%R).
  { intros x y Fx Fy L.
    assert ((rnd (rk x - rk y) <= 0)%R). { rewrite <- rnd_0. apply rnd_mono. lra. }
    assert (rnd (rk x - rk y) <> 0)%R.
    { unfold rnd, Rminus. apply round_plus_neq_0.
      - apply (FLT_exp_valid emin prec).
      - exact (@monotone_exp_not_FTZ (FLT_exp emin prec) (FLT_exp_valid emin prec) (FLT_exp_monotone emin prec)) || apply (@monotone_exp_not_FTZ (FLT_exp emin prec)).
      - apply valid_rnd.
      - rewrite rk_finite by assumption. apply generic_format_B2R.
      - apply generic_format_opp. rewrite rk_finite by assumption. apply generic_format_B2R.
      - lra. }
    lra. }
  assert (O : rnd (rk a - rk b) = (- rnd (rk b - rk a))%R).
  { unfold rnd. rewrite <- round_NE_opp. f_equal. ring. }
  split; split.
  - intros L. apply rank_lt in L. apply rank_neg. rewrite H. apply clip_neg. now apply G.
  - intros L. apply rank_neg in L. apply rank_lt. rewrite H in L. apply Rnot_le_lt. intros C.
    assert (0 <= clip (rnd (rk a - rk b)))%R. { rewrite <- clip_0. apply clip_mono. rewrite <- rnd_0. apply rnd_mono. lra. } lra.
  - intros L. apply Z.gt_lt, rank_lt in L. apply Z.lt_gt, rank_pos. rewrite H, O. apply clip_pos. pose proof (G b a Fb Fa L). lra.
  - intros L. apply Z.gt_lt, rank_pos in L. apply Z.lt_gt, rank_lt. rewrite H in L. apply Rnot_le_lt. intros C.
    assert (clip (rnd (rk a - rk b)) <= 0)%R. { rewrite <- clip_0. apply clip_mono. rewrite <- rnd_0. apply rnd_mono. lra. } lra.
Qed.

Theorem axiom_sub_mono : forall a b c, finite a -> finite b -> finite c -> (rank a <= rank b)%Z ->
  (rank (fsub a c) <= rank (fsub b c))%Z /\ (rank (fsub c b) <= rank (fsub c a))%Z.
Proof.
  intros a b c Fa Fb Fc L. apply rank_le in L.
  split; apply rank_le; rewrite !(fun x y Fx Fy => proj2 (rk_sub x y Fx Fy)) by assumption; apply clip_mono, rnd_mono; lra.
Qed.

Theorem axiom_sq : forall a, ~ nan a -> ~ nan (fsq a) /\ (rank (fsq a) >= 0)%Z /\ (rank a = 0%Z -> fsq a = fzero).
Proof.
  intros a N. destruct (not_nan a N) as [F|[s E]].
  - destruct (rk_sq_finite a F) as [M H]. split. exact M. split.
    + apply Z.le_ge, rank_nonneg. rewrite H. rewrite <- clip_0. apply clip_mono. rewrite <- rnd_0. apply rnd_mono. nra.
    + intros Z. destruct a as [s|s| |s m e B]; try easy.
      * unfold fsq. simpl. now destruct s.
      * exfalso. assert (R : rk (B754_finite s m e B) = 0%R). { rewrite <- rank_rk, Z. ring. }
        rewrite rk_finite in R by assumption. simpl in R. apply eq_0_F2R in R. simpl in R. destruct s; easy.
  - subst a. change (fsq (B754_infinity s)) with (B754_infinity (xorb s s) : float). rewrite Bool.xorb_nilpotent. split. easy. split.
    + unfold rank, cond_Zopp. apply Z.le_ge, Z.pow_nonneg. lia.
    + unfold rank, cond_Zopp. pose proof emin_emax. assert (0 < 2 ^ (emax - emin))%Z by (apply Z.pow_pos_nonneg; lia). intros; exfalso; destruct s; lia.
Qed.

Theorem axiom_sq_mono : forall a b, ~ nan a -> ~ nan b -> (0 <= rank a <= rank b)%Z -> (rank (fsq a) <= rank (fsq b))%Z.
Proof.
  intros a b Na Nb [H0 L]. apply rank_nonneg in H0. apply rank_le in L. apply rank_le.
  destruct (not_nan b Nb) as [Fb|[s E]].
  - destruct (not_nan a Na) as [Fa|[t E]].
    + rewrite !(fun x Fx => proj2 (rk_sq_finite x Fx)) by assumption. apply clip_mono, rnd_mono. nra.
    + exfalso. subst a. rewrite (rk_finite b Fb) in L. pose proof (finite_small b) as S. apply Rabs_def2 in S. pose proof (bpow_gt_0 beta emax).
      unfold rk in L, H0. destruct t; lra.
  - subst b. unfold fsq at 2. simpl. rewrite Bool.xorb_nilpotent. simpl. apply rk_bound.
Qed.

Lemma sq_sign : forall x, ~ nan x -> Bsign (fsq x) = false.
Proof.
  intros x N. destruct (not_nan x N) as [F|[s E]].
  - pose proof (Bmult_correct prec emax Hprec Hmax mode_NE x x) as H. fold (fsq x) in H.
    pose proof (proj1 (axiom_sq x N)) as M.
    destruct (Rlt_bool _ _).
    + destruct H as (_ & _ & H). rewrite H. apply Bool.xorb_nilpotent. unfold nan in M. now destruct (is_nan (fsq x)).
    + apply overflow_sign in H. rewrite H. simpl. apply Bool.xorb_nilpotent.
  - subst x. simpl. apply Bool.xorb_nilpotent.
Qed.

Lemma rk_inf : forall x s, finite x -> rk x <> rk (B754_infinity s).
Proof. intros x s F. rewrite rk_finite by assumption. pose proof (finite_small x) as S. apply Rabs_def2 in S. unfold rk. destruct s; lra. Qed.

Lemma same : forall x y, ~ nan x -> ~ nan y -> rk x = rk y -> Bsign x = Bsign y -> x = y.
Proof.
  intros x y Nx Ny E S. destruct (not_nan x Nx) as [Fx|[s Ex]]; destruct (not_nan y Ny) as [Fy|[t Ey]].
  - apply B2R_Bsign_inj; try assumption. now rewrite <- (rk_finite x), <- (rk_finite y).
  - exfalso. subst y. now apply (rk_inf x t).
  - exfalso. subst x. now apply (rk_inf y s).
  - subst. simpl in S. now subst.
Qed.

Lemma sq_infinity : forall x s, x = B754_infinity s -> fsq x = B754_infinity false.
Proof. intros x s E. subst x. unfold fsq. simpl. now rewrite Bool.xorb_nilpotent. Qed.

Theorem axiom_sq_sub : forall a b, finite a -> finite b -> fsq (fsub a b) = fsq (fsub b a).
Proof.
  intros a b Fa Fb. destruct (rk_sub a b Fa Fb) as [N H]. destruct (rk_sub b a Fb Fa) as [N' H'].
  assert (O : rk (fsub b a) = (- rk (fsub a b))%R).
  { rewrite H, H'. assert (E : rnd (rk b - rk a) = (- rnd (rk a - rk b))%R). { unfold rnd. rewrite <- round_NE_opp. f_equal. ring. }
    rewrite E. unfold clip. pose proof (bpow_gt_0 beta emax). unfold Rmax, Rmin. repeat destruct Rle_dec; lra. }
  destruct (not_nan _ N) as [F|[s E]]; destruct (not_nan _ N') as [F'|[t E']].
  - apply same. apply axiom_sq, N. apply axiom_sq, N'.
    rewrite (proj2 (rk_sq_finite _ F)), (proj2 (rk_sq_finite _ F')), O. do 2 f_equal. ring.
    now rewrite !sq_sign by assumption.
  - exfalso. apply (rk_inf (fsub a b) (negb t) F). rewrite E' in O. unfold rk at 1 in O. unfold rk at 2. destruct t; simpl negb; cbv iota; lra.
  - exfalso. apply (rk_inf (fsub b a) (negb s) F'). rewrite O, E. unfold rk. destruct s; simpl negb; cbv iota; ring.
  - now rewrite (sq_infinity _ _ E), (sq_infinity _ _ E').
Qed.

Theorem axiom_add_nonneg : forall a b, ~ nan a -> ~ nan b -> (rank a >= 0)%Z -> (rank b >= 0)%Z ->
  ~ nan (fadd a b) /\ (rank (fadd a b) >= rank a)%Z /\ (rank (fadd a b) >= rank b)%Z.
Proof.
  intros a b Na Nb Pa Pb. apply Z.ge_le, rank_nonneg in Pa. apply Z.ge_le, rank_nonneg in Pb. pose proof (bpow_gt_0 beta emax).
  assert (G : ~ nan (fadd a b) /\ (rk (fadd a b) >= rk a)%R /\ (rk (fadd a b) >= rk b)%R).
  { destruct (not_nan a Na) as [Fa|[s Ea]]; destruct (not_nan b Nb) as [Fb|[t Eb]].
    - destruct (rk_add a b Fa Fb) as [N H0]. split. exact N. rewrite H0. split; apply Rle_ge.
      + rewrite <- (clip_rk a) at 1. apply clip_mono. rewrite <- (rnd_rk a Fa) at 1. apply rnd_mono. lra.
      + rewrite <- (clip_rk b) at 1. apply clip_mono. rewrite <- (rnd_rk b Fb) at 1. apply rnd_mono. lra.
    - subst b. destruct t. unfold rk in Pb. lra.
      replace (fadd a (B754_infinity false)) with (B754_infinity false : float) by now destruct a.
      split. easy. pose proof (rk_bound a). unfold rk at 1 3 4. lra.
    - subst a. destruct s. unfold rk in Pa. lra.
      replace (fadd (B754_infinity false) b) with (B754_infinity false : float) by now destruct b.
      split. easy. pose proof (rk_bound b). unfold rk at 1 2 3. lra.
    - subst. destruct s. unfold rk in Pa. lra. destruct t. unfold rk in Pb. lra. split. easy. simpl. lra. }
  destruct G as (G & G1 & G2). split. exact G. split; apply Z.le_ge, rank_le; lra.
Qed.

Theorem axiom_add_zero : fadd fzero fzero = fzero.
Proof. reflexivity. Qed.

Theorem axiom_zero_plus : forall x, finite x -> finite (fadd fzero x) /\ rank (fadd fzero x) = rank x.
Proof.
  intros x F. assert (finite (fadd fzero x)). { destruct x as [s|s| |s m e B]; try easy. now destruct s. }
  split. assumption. apply Z.le_antisymm; apply rank_le; rewrite (proj2 (rk_add fzero x axiom_zero_finite F)), rk_fzero, Rplus_0_l, rnd_rk, clip_rk by assumption; lra.
Qed.

Theorem axiom_fof : forall n, ~ nan (fof n) /\ ((n > 0)%nat -> (rank (fof n) > 0)%Z).
Proof.
  intros n. pose proof (binary_normalize_correct prec emax Hprec Hmax mode_NE (Z.of_nat n) 0 false) as H. fold (fof n) in H. cbn [round_mode] in H.
  assert (V : F2R (Float beta (Z.of_nat n) 0) = IZR (Z.of_nat n)). { unfold F2R. simpl. ring. }
  rewrite V in H.
  destruct (Rlt_bool_spec (Rabs (round beta fexp ZnearestE (IZR (Z.of_nat n)))) (bpow beta emax)) as [L|L].
  - destruct H as (H1 & H2 & _). split. unfold nan. destruct (fof n); easy.
    intros P. apply Z.lt_gt, rank_pos. rewrite rk_finite by exact H2. rewrite H1.
    apply Rlt_le_trans with 1%R. lra.
    replace 1%R with (round beta fexp ZnearestE 1).
    apply rnd_mono. apply IZR_le. lia.
    apply round_generic. apply valid_rnd. change 1%R with (bpow beta 0). apply generic_format_bpow. unfold SpecFloat.fexp, SpecFloat.emin, FLX.Prec_gt_0, Prec_lt_emax in *. lia.
  - apply overflow_sign in H. rewrite H. split. easy. intros P. 
    rewrite Rlt_bool_false by (apply IZR_le; lia). unfold rank, cond_Zopp. pose proof emin_emax. apply Z.lt_gt, Z.pow_pos_nonneg; lia.
Qed.

Lemma rk_sqrt : forall a, finite a -> (0 <= rk a)%R -> ~ nan (fsqrt a) /\ rk (fsqrt a) = rnd (sqrt (rk a)).
Proof.
  intros a F P. pose proof (Bsqrt_correct prec emax Hprec Hmax mode_NE a) as (H1 & H2 & _). cbn [round_mode] in H1.
  rewrite (rk_finite a F) in *.
  assert (G : is_finite (fsqrt a) = true).
  { unfold fsqrt. rewrite H2. destruct a as [s|s| |s m e B]; try easy. destruct s; try reflexivity.
    exfalso. simpl in P. assert (F2R (Float beta (Z.neg m) e) < 0)%R by (apply F2R_lt_0; simpl; lia). lra. }
  split. unfold nan. destruct (fsqrt a); easy. rewrite rk_finite by exact G. exact H1.
Qed.

Theorem axiom_sqrt : forall a, ~ nan a -> (rank a >= 0)%Z -> ~ nan (fsqrt a) /\ (rank (fsqrt a) >= 0)%Z.
Proof.
  intros a N P. apply Z.ge_le, rank_nonneg in P. destruct (not_nan a N) as [F|[s E]].
  - destruct (rk_sqrt a F P) as [M H]. split. exact M. apply Z.le_ge, rank_nonneg. rewrite H. rewrite <- rnd_0. apply rnd_mono. apply sqrt_pos.
  - subst a. pose proof (bpow_gt_0 beta emax). destruct s. unfold rk in P. lra. split. easy. simpl. apply Z.le_ge, Z.pow_nonneg. lia.
Qed.

Theorem axiom_sqrt_zero : fsqrt fzero = fzero.
Proof. reflexivity. Qed.

Theorem axiom_sqrt_mono : forall a b, ~ nan a -> ~ nan b -> (0 <= rank a <= rank b)%Z -> (rank (fsqrt a) <= rank (fsqrt b))%Z.
Proof.
  intros a b Na Nb [P L]. apply rank_nonneg in P. apply rank_le in L. apply rank_le. pose proof (bpow_gt_0 beta emax).
  destruct (not_nan b Nb) as [Fb|[s E]].
  - destruct (not_nan a Na) as [Fa|[t E]].
    + rewrite (proj2 (rk_sqrt a Fa P)), (proj2 (rk_sqrt b Fb (Rle_trans _ _ _ P L))). apply rnd_mono. now apply sqrt_le_1_alt.
    + exfalso. subst a. rewrite (rk_finite b Fb) in L. pose proof (finite_small b) as S. apply Rabs_def2 in S. unfold rk in L, P. destruct t; lra.
  - subst b. destruct s. unfold rk at 2 in L. lra. unfold fsqrt at 2. simpl. apply rk_bound.
Qed.
End Any.

(* binary32 and binary64 *)
Lemma P24 : FLX.Prec_gt_0 24. Proof. reflexivity. Qed.
Lemma M24 : Prec_lt_emax 24 128. Proof. reflexivity. Qed.
Lemma P53 : FLX.Prec_gt_0 53. Proof. reflexivity. Qed.
Lemma M53 : Prec_lt_emax 53 1024. Proof. reflexivity. Qed.
Definition all prec emax (P : FLX.Prec_gt_0 prec) (M : Prec_lt_emax prec emax) :=
  (compare_rank prec emax P M, axiom_zero prec emax, axiom_zero_finite prec emax, axiom_finite prec emax, axiom_sub prec emax P M,
   axiom_sub_mono prec emax P M, axiom_sq_sub prec emax P M, axiom_sq prec emax P M, axiom_sq_mono prec emax P M,
   axiom_add_nonneg prec emax P M, axiom_add_zero prec emax P M, axiom_zero_plus prec emax P M, axiom_fof prec emax P M,
   axiom_sqrt prec emax P M, axiom_sqrt_zero prec emax P M, axiom_sqrt_mono prec emax P M).
Definition all_single := all 24 128 P24 M24.
Definition all_double := all 53 1024 P53 M53.
Print Assumptions all_single.
Print Assumptions all_double.
