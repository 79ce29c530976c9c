import RsPrelude
set_option linter.all false
set_option autoImplicit false
/-! Mathematical specifications: polynomials given by coefficient lists, Lagrange weights at 0. -/
open Polynomial
namespace Rs
section
variable {F : Type} [Field F] {V : Type} [AddCommGroup V] [Module F V]

/-- value at `x` of the polynomial with these coefficients, constant term first -/
def peval (x : F) (l : List V) : V := l.foldr (fun c a => c + x • a) 0

@[simp] theorem peval_nil (x : F) : peval x ([] : List V) = 0 := rfl
@[simp] theorem peval_cons (x : F) (c : V) (l : List V) : peval x (c :: l) = c + x • peval x l := rfl
theorem peval_append (x : F) (a b : List V) : peval x (a ++ b) = peval x a + x ^ a.length • peval x b := by
  induction a with
  | nil => simp
  | cons c a ih => simp [ih, pow_succ', mul_smul, add_assoc]
@[simp] theorem peval_zero (c : V) (l : List V) : peval (0 : F) (c :: l) = c := by simp
theorem peval_add (x : F) (a b : List V) (h : a.length = b.length) : peval x (List.zipWith (· + ·) a b) = peval x a + peval x b := by
  induction a generalizing b with
  | nil => cases b <;> simp_all
  | cons c a ih =>
    cases b with
    | nil => simp at h
    | cons d b => simp only [List.zipWith_cons_cons, peval_cons, ih b (by simpa using h), smul_add]; abel
theorem peval_map (x : F) {W : Type} [AddCommGroup W] [Module F W] (f : V →ₗ[F] W) (a : List V) : peval x (a.map f) = f (peval x a) := by
  induction a with
  | nil => simp
  | cons c a ih => simp [ih]
theorem peval_axpy (x r : F) (a b : List F) (h : a.length = b.length) : peval x (List.zipWith (fun u v => u - v * r) a b) = peval x a - peval x b * r := by
  induction a generalizing b with
  | nil => cases b <;> simp_all
  | cons c a ih =>
    cases b with
    | nil => simp at h
    | cons d b => simp only [List.zipWith_cons_cons, peval_cons, ih b (by simpa using h), smul_eq_mul]; ring
theorem peval_smul (x c : F) (a : List V) : peval x (a.map (c • ·)) = c • peval x a := by
  induction a with
  | nil => simp
  | cons d a ih => simp [ih, smul_comm c x]
theorem peval_replicate_zero (x : F) (n : ℕ) : peval x (List.replicate n (0 : V)) = 0 := by
  induction n with
  | zero => rfl
  | succ n ih => simp [List.replicate_succ, ih]

/-- Horner's rule from the top coefficient down, in the shape the code uses -/
theorem foldl_horner (x : F) (l : List V) (e : V) : l.foldl (fun a c => x • a + c) e = peval x (l.reverse ++ [e]) := by
  induction l generalizing e with
  | nil => simp
  | cons c l ih => rw [List.foldl_cons, ih]; simp [peval_append, add_comm]

theorem foldr_horner (x : F) (l : List V) (e : V) : l.foldr (fun c a => x • a + c) e = peval x (l ++ [e]) := by
  induction l with
  | nil => simp
  | cons c l ih => rw [List.foldr_cons, ih]; simp [add_comm]
theorem foldr_horner' (x : F) (l : List F) (e : F) : l.foldr (fun c a => x * a + c) e = peval x (l ++ [e]) := foldr_horner x l e

/-- a polynomial from its coefficient list -/
noncomputable def toPoly (l : List F) : F[X] := l.foldr (fun c a => C c + X * a) 0
theorem toPoly_eval (l : List F) (x : F) : (toPoly l).eval x = peval x l := by
  induction l with
  | nil => simp [toPoly]
  | cons c l ih => simp only [toPoly, List.foldr_cons] at *; simp [ih]
theorem toPoly_degree_lt (l : List F) : (toPoly l).degree < l.length ∨ (l = [] ∧ toPoly l = 0) := by
  induction l with
  | nil => right; simp [toPoly]
  | cons c l ih =>
    left
    have e : toPoly (c :: l) = C c + X * toPoly l := rfl
    rw [e]
    refine lt_of_le_of_lt (degree_add_le _ _) (max_lt ?_ ?_)
    · exact lt_of_le_of_lt degree_C_le (by rw [List.length_cons]; exact_mod_cast Nat.succ_pos _)
    · rcases ih with h | ⟨rfl, h⟩
      · rw [degree_mul, degree_X]
        have : (toPoly l).degree + 1 < (l.length : WithBot ℕ) + 1 := by
          rcases eq_or_ne (toPoly l) 0 with h0 | h0
          · rw [h0, degree_zero]; simp
          · rw [degree_eq_natDegree h0] at h ⊢; exact_mod_cast Nat.add_lt_add_right (by exact_mod_cast h) 1
        rw [add_comm]; simpa using this
      · rw [h]; simp
theorem toPoly_coeff (l : List F) (i : ℕ) : (toPoly l).coeff i = (l[i]?).getD 0 := by
  induction l generalizing i with
  | nil => simp [toPoly]
  | cons c l ih =>
    have e : toPoly (c :: l) = C c + X * toPoly l := rfl
    rw [e]
    cases i with
    | zero => simp
    | succ i => simp [coeff_C, ih]

theorem prod_map_div' {α : Type} (l : List α) (f g : α → F) : (l.map (fun a => f a / g a)).prod = (l.map f).prod / (l.map g).prod := by
  induction l with
  | nil => simp
  | cons a l ih => simp [ih, mul_div_mul_comm]

/-- the positions are pairwise distinct in the field (true when they are below the characteristic) -/
def Inj (F : Type) [Field F] (l : List ℕ) : Prop := ∀ a ∈ l, ∀ b ∈ l, (a : F) = b → a = b

/-- Lagrange weight at 0 of position `i` among the positions `l` -/
noncomputable def lw (F : Type) [Field F] (l : List ℕ) (i : ℕ) : F := ((l.filter (fun j => decide (i ≠ j))).map (fun j : ℕ => (j : F) / ((j : F) - i))).prod

theorem lw_eq_basis (l : List ℕ) (h : l.Nodup) (i : ℕ) :
    lw F l i = (Lagrange.basis l.toFinset (fun j : ℕ => (j : F)) i).eval 0 := by
  unfold lw Lagrange.basis Lagrange.basisDivisor
  rw [eval_prod]
  have : (l.toFinset.erase i) = (l.filter (fun j => decide (i ≠ j))).toFinset := by
    ext j; simp only [Finset.mem_erase, List.mem_toFinset, List.mem_filter, decide_eq_true_eq]; exact ⟨fun h => ⟨h.2, fun e => h.1 e.symm⟩, fun h => ⟨fun e => h.2 e.symm, h.1⟩⟩
  rw [this, List.prod_toFinset _ (h.filter _)]
  refine congrArg List.prod (List.map_congr_left ?_)
  intro j hj
  have hj' := (List.mem_filter.mp hj).2
  simp only [eval_mul, eval_C, eval_sub, eval_X, zero_sub]
  rcases eq_or_ne ((j : F) - i) 0 with h0 | h0
  · have h1 : (i : F) - j = 0 := by rw [← neg_sub, h0, neg_zero]
    simp [h0, h1]
  · have h1 : (i : F) - j ≠ 0 := by rw [← neg_sub]; exact neg_ne_zero.mpr h0
    field_simp; rw [← neg_sub]; field_simp

theorem lw_pow (l : List ℕ) (h : l.Nodup) (hi : Inj F l) (k : ℕ) (hk : k < l.length) :
    (l.map (fun i => lw F l i * (i : F) ^ k)).sum = 0 ^ k := by
  have inj : Set.InjOn (fun j : ℕ => (j : F)) l.toFinset := by
    intro a ha b hb hab; exact hi a (by simpa using ha) b (by simpa using hb) hab
  have hc : l.toFinset.card = l.length := List.toFinset_card_of_nodup h
  have e := Lagrange.eq_interpolate (f := (X : F[X]) ^ k) inj (by rw [degree_X_pow, hc]; exact_mod_cast hk)
  have e0 := congrArg (eval (0 : F)) e
  rw [eval_pow, eval_X] at e0
  rw [e0, Lagrange.interpolate_apply, eval_finset_sum, List.sum_toFinset _ h]
  refine congrArg List.sum (List.map_congr_left ?_)
  intro i _
  simp [lw_eq_basis l h, mul_comm]

/-- interpolation at 0: any `m` distinct positions determine the constant term of a polynomial with at most `m` coefficients -/
theorem lagrange_sum (l : List ℕ) (h : l.Nodup) (hi : Inj F l) (c : V) (p : List V) (hp : p.length < l.length) :
    (l.map (fun i : ℕ => lw F l i • peval (i : F) (c :: p))).sum = c := by
  have key : ∀ (k : ℕ) (q : List V), k + q.length ≤ l.length →
      (l.map (fun i : ℕ => (lw F l i * (i : F) ^ k) • peval (i : F) q)).sum = if k = 0 then (q.head?).getD 0 else 0 := by
    intro k q
    induction q generalizing k with
    | nil => intro _; simp
    | cons d q ih =>
      intro hk
      simp only [List.length_cons] at hk
      have e : (l.map (fun i : ℕ => (lw F l i * (i : F) ^ k) • peval (i : F) (d :: q))) =
          l.map (fun i : ℕ => (lw F l i * (i : F) ^ k) • d + (lw F l i * (i : F) ^ (k + 1)) • peval (i : F) q) := by
        refine List.map_congr_left (fun i _ => ?_)
        simp [smul_add, smul_smul, pow_succ, mul_assoc]
      rw [e, List.sum_map_add, ih (k + 1) (by omega)]
      have : (l.map (fun i : ℕ => (lw F l i * (i : F) ^ k) • d)).sum = ((l.map (fun i : ℕ => lw F l i * (i : F) ^ k)).sum) • d := by
        rw [List.sum_smul]; simp [Function.comp_def]
      rw [this, lw_pow l h hi k (by omega)]
      rcases k with _ | k <;> simp
  have := key 0 (c :: p) (by simp; omega)
  simpa using this
end
end Rs
