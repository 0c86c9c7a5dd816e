(* The facts about real powers and cube roots that specs/real.inc states as axioms. *)
From Coq Require Import Reals Psatz.
From Coquelicot Require Import Coquelicot.
From Interval Require Import Tactic.
Open Scope R_scope.

Definition rpow (x y : R) := Rpower x y.
Definition rcbrt (x : R) := if Rle_dec x 0 then 0 else Rpower x (1 / 3).
Definition cube (x : R) := x * x * x.
Definition near (a b e : R) := a - b <= e /\ b - a <= e.

Lemma near_abs : forall a b e, Rabs (a - b) <= e -> near a b e.
Proof. intros a b e H. apply Rabs_le_between in H. unfold near. lra. Qed.

Theorem ax_rcbrt : forall x, 0 <= x -> 0 <= rcbrt x /\ cube (rcbrt x) = x.
Proof.
  intros x H. unfold rcbrt, cube. destruct (Rle_dec x 0).
  - replace x with 0 by lra. split; ring_simplify; lra.
  - assert (0 < Rpower x (1 / 3)) by apply exp_pos. split. lra.
    rewrite <- !Rpower_plus. replace (1 / 3 + 1 / 3 + 1 / 3) with 1 by field. apply Rpower_1. lra.
Qed.

Lemma rpow_pos : forall x y, 0 < rpow x y.
Proof. intros. apply exp_pos. Qed.

Lemma ln_nonneg : forall x, 1 <= x -> 0 <= ln x.
Proof. intros x H. rewrite <- ln_1. apply ln_le; lra. Qed.
Lemma ln_nonpos : forall x, 0 < x <= 1 -> ln x <= 0.
Proof. intros x H. rewrite <- ln_1. apply ln_le; lra. Qed.
Lemma exp_le : forall x y, x <= y -> exp x <= exp y.
Proof. intros x y [H|H]. left. now apply exp_increasing. right. now subst. Qed.

(* |d/dx x^y| = y x^(y-1) *)
Lemma rpow_dx : forall x y, 0 < x -> is_derive (fun x => rpow x y) x (y * rpow x (y - 1)).
Proof.
  intros x y H. unfold rpow, Rpower. auto_derive. exact H.
  replace ((y - 1) * ln x) with (y * ln x - ln x) by ring. unfold Rminus. rewrite exp_plus, exp_Ropp, exp_ln by exact H. field. lra.
Qed.
Lemma rpow_dy : forall x y, is_derive (fun y => rpow x y) y (ln x * rpow x y).
Proof. intros x y. unfold rpow, Rpower. auto_derive. exact I. ring. Qed.

(* mean values *)
Lemma lip_x : forall lo hi y c, 0 < lo -> (forall x, lo <= x <= hi -> Rabs (y * rpow x (y - 1)) <= c) ->
  forall x s, lo <= x <= hi -> lo <= s <= hi -> Rabs (rpow x y - rpow s y) <= c * Rabs (x - s).
Proof.
  intros lo hi y c P B x s Hx Hs.
  destruct (MVT_gen (fun x => rpow x y) s x (fun x => y * rpow x (y - 1))) as (t & T & E).
  - intros t T. apply rpow_dx. unfold Rmin in T. destruct Rle_dec; lra.
  - intros t T. apply derivable_continuous_pt. exists (y * rpow t (y - 1)). apply is_derive_Reals. apply rpow_dx. unfold Rmin in T. destruct Rle_dec; lra.
  - rewrite E, Rabs_mult. apply Rmult_le_compat_r. apply Rabs_pos. apply B. unfold Rmin, Rmax in T. repeat destruct Rle_dec; lra.
Qed.
Lemma lip_y : forall x lo hi c, (forall y, lo <= y <= hi -> Rabs (ln x * rpow x y) <= c) ->
  forall y t, lo <= y <= hi -> lo <= t <= hi -> Rabs (rpow x y - rpow x t) <= c * Rabs (y - t).
Proof.
  intros x lo hi c B y t Hy Ht.
  destruct (MVT_gen (fun y => rpow x y) t y (fun y => ln x * rpow x y)) as (u & U & E).
  - intros u U. apply rpow_dy.
  - intros u U. apply derivable_continuous_pt. exists (ln x * rpow x u). apply is_derive_Reals. apply rpow_dy.
  - rewrite E, Rabs_mult. apply Rmult_le_compat_r. apply Rabs_pos. apply B. unfold Rmin, Rmax in U. repeat destruct Rle_dec; lra.
Qed.

Theorem ax_rpow : forall x y, x > 0 -> 0 < y ->
  0 <= rpow x y /\ (x <= 1 -> rpow x y <= 1) /\ (x >= 1 -> rpow x y >= 1) /\
  (x >= 1 -> y <= 1 -> rpow x y <= x) /\ (x <= 1 -> y <= 1 -> rpow x y >= x) /\
  (1 <= x <= 1.1 -> y <= 2.5 -> rpow x y <= 1 + 3 * (x - 1)).
Proof.
  intros x y X Y. pose proof (rpow_pos x y). assert (E : exp (ln x) = x) by (apply exp_ln; lra).
  repeat split.
  - lra.
  - intros L. rewrite <- exp_0. apply exp_le. pose proof (ln_nonpos x). nra.
  - intros L. apply Rle_ge. rewrite <- exp_0. apply exp_le. pose proof (ln_nonneg x). nra.
  - intros L M. rewrite <- E at 2. apply exp_le. pose proof (ln_nonneg x). nra.
  - intros L M. apply Rle_ge. rewrite <- E at 1. apply exp_le. pose proof (ln_nonpos x). nra.
  - intros L M.
    assert (B : Rabs (rpow x y - rpow 1 y) <= 3 * Rabs (x - 1)).
    { apply lip_x with 1 1.1; try lra. intros t T.
      assert (0 <= rpow t (y - 1) <= exp (1.5 * ln 1.1)).
      { split. left; apply exp_pos. apply exp_le. pose proof (ln_nonneg t). assert (ln t <= ln 1.1) by (apply ln_le; lra).
        destruct (Rle_dec (y - 1) 0). pose proof (ln_nonneg 1.1). nra. nra. }
      assert (exp (1.5 * ln 1.1) <= 1.16) by interval. rewrite Rabs_right; nra. }
    assert (rpow 1 y = 1). { unfold rpow, Rpower. rewrite ln_1, Rmult_0_r. apply exp_0. }
    rewrite (Rabs_right (x - 1)) in B by lra. apply Rabs_le_between in B. lra.
Qed.

Lemma slope_small : forall x y, 0.003 <= x <= 1.1 -> 0.4 <= y <= 2.5 -> Rabs (y * rpow x (y - 1)) <= 13.1.
Proof. intros x y X Y. unfold rpow, Rpower. interval with (i_bisect x, i_bisect y, i_autodiff x, i_depth 40). Qed.
Lemma slope_two : forall x y, 0.003 <= x <= 1.1 -> 2 <= y <= 2.5 -> Rabs (y * rpow x (y - 1)) <= 3.
Proof. intros x y X Y. unfold rpow, Rpower. interval with (i_bisect x, i_bisect y, i_depth 40). Qed.
Lemma slope_near_one : forall x y, 0.9 <= x <= 1.1 -> 0.4 <= y <= 0.5 -> Rabs (y * rpow x (y - 1)) <= 0.6.
Proof. intros x y X Y. unfold rpow, Rpower. interval with (i_bisect x, i_bisect y, i_depth 40). Qed.
Lemma slope_exponent : forall x y, 0.003 <= x <= 1.1 -> 0.4 <= y <= 2.5 -> Rabs (ln x * rpow x y) <= 1.
Proof. intros x y X Y. unfold rpow, Rpower. interval with (i_bisect x, i_bisect y, i_depth 40). Qed.

Lemma lipschitz : forall lo hi c l h, 0.003 <= lo -> hi <= 1.1 -> 0.4 <= l -> h <= 2.5 ->
  (forall x y, lo <= x <= hi -> l <= y <= h -> Rabs (y * rpow x (y - 1)) <= c) ->
  forall x y s t, lo <= x <= hi -> lo <= s <= hi -> l <= y <= h -> l <= t <= h ->
  near (rpow x y) (rpow s t) (c * Rabs (x - s) + Rabs (y - t)).
Proof.
  intros lo hi c l h Hlo Hhi Hl Hh B x y s t Hx Hs Hy Ht. apply near_abs.
  replace (rpow x y - rpow s t) with ((rpow x y - rpow s y) + (rpow s y - rpow s t)) by ring.
  eapply Rle_trans. apply Rabs_triang. apply Rplus_le_compat.
  - apply lip_x with lo hi; try lra. intros; apply B; lra.
  - rewrite <- (Rmult_1_l (Rabs (y - t))). apply lip_y with l h; try lra. intros; apply slope_exponent; lra.
Qed.

Theorem ax_rpow_lipschitz : forall x y s t, 0.003 <= x <= 1.1 -> 0.003 <= s <= 1.1 -> 0.4 <= y <= 2.5 -> 0.4 <= t <= 2.5 ->
  near (rpow x y) (rpow s t) (13.1 * Rabs (x - s) + Rabs (y - t)) /\
  (y >= 2 -> t >= 2 -> near (rpow x y) (rpow s t) (3 * Rabs (x - s) + Rabs (y - t))) /\
  (x >= 0.9 -> s >= 0.9 -> y <= 0.5 -> t <= 0.5 -> near (rpow x y) (rpow s t) (0.6 * Rabs (x - s) + Rabs (y - t))).
Proof.
  intros x y s t Hx Hs Hy Ht. split; [|split].
  - apply (lipschitz 0.003 1.1 13.1 0.4 2.5); try lra. apply slope_small.
  - intros. apply (lipschitz 0.003 1.1 3 2 2.5); try lra. apply slope_two.
  - intros. apply (lipschitz 0.9 1.1 0.6 0.4 0.5); try lra. apply slope_near_one.
Qed.

Theorem ax_rpow_eleven : rpow ((11 / 255 + 0.055) / 1.055) 2.4 >= 0.0033.
Proof. apply Rle_ge. unfold rpow, Rpower. interval. Qed.

Theorem ax_rpow_monotone : forall s t y, 0 < s <= t -> y > 0 -> rpow s y <= rpow t y.
Proof. intros s t y S Y. unfold rpow, Rpower. apply exp_le. apply Rmult_le_compat_l. lra. apply ln_le; lra. Qed.

Theorem ax_rpow_inverse : forall x y z, x > 0 -> y > 0 -> y * z = 1 -> rpow (rpow x y) z = x.
Proof. intros x y z X Y E. unfold rpow. rewrite Rpower_mult, E. now apply Rpower_1. Qed.

Lemma slope_threshold : forall x y, 0.0030308 <= x <= 0.0032308 -> 0.416665 <= y <= 0.416668 -> Rabs (y * rpow x (y - 1)) <= 13.1.
Proof. intros x y X Y. unfold rpow, Rpower. interval. Qed.

Theorem ax_rpow_threshold : forall x y, near y (1 / 2.4) 0.000001 -> near x 0.0031308 0.0001 ->
  near (rpow x y) 0.0904738 (13.1 * Rabs (x - 0.0031308) + 0.000002).
Proof.
  intros x y [Y1 Y2] [X1 X2]. apply near_abs.
  assert (Hy : 0.416665 <= y <= 0.416668) by lra.
  assert (A : Rabs (rpow x y - rpow 0.0031308 y) <= 13.1 * Rabs (x - 0.0031308)).
  { apply lip_x with 0.0030308 0.0032308; try lra. intros; apply slope_threshold; lra. }
  assert (B : Rabs (rpow 0.0031308 y - 0.0904738) <= 0.000002).
  { assert (1 / 2.4 - 0.000001 <= y <= 1 / 2.4 + 0.000001) by lra. unfold rpow, Rpower. interval with (i_bisect y, i_autodiff y, i_prec 60). }
  replace (rpow x y - 0.0904738) with ((rpow x y - rpow 0.0031308 y) + (rpow 0.0031308 y - 0.0904738)) by ring.
  eapply Rle_trans. apply Rabs_triang. lra.
Qed.
Print Assumptions ax_rpow_threshold.
