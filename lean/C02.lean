import C01
set_option linter.all false
set_option autoImplicit false
open Rs Rs.Shamir Rs.C01
namespace Rs.C02
variable {F : Type} [Field F] [DecidableEq F] {V : Type} [AddCommGroup V] [Module F V]
variable {G : Type} [AddCommGroup G] [Module F G] [DecidableEq G]

/-! ## The polynomial that is 1 at 0 and vanishes on the positions of the observers -/

def wpoly : List F → List F
  | [] => [1]
  | x :: xs => List.zipWith (· + ·) (wpoly xs ++ [0]) (0 :: (wpoly xs).map ((-x⁻¹) • ·))

theorem wpoly_length (l : List F) : (wpoly l).length = l.length + 1 := by
  induction l with
  | nil => rfl
  | cons x xs ih => simp [wpoly, ih]

theorem wpoly_eval (z : F) (l : List F) : peval z (wpoly l) = (l.map (fun x => 1 - z * x⁻¹)).prod := by
  induction l with
  | nil => simp [wpoly]
  | cons x xs ih =>
    rw [wpoly, peval_add _ _ _ (by simp), peval_append]
    have e := peval_smul (V := F) z (-x⁻¹) (wpoly xs)
    rw [peval_cons, peval_cons, peval_nil, e, ih, List.map_cons, List.prod_cons]
    simp only [smul_eq_mul]
    ring

/-- what an offset of the randomness does to the shares -/
theorem exists_offset (t : ℕ) (S : List ℕ) (hS : S.length ≤ t) (h0 : ∀ i ∈ S, (i : F) ≠ 0) (s s' : V) :
    ∃ d : List V, d.length = t ∧ ∀ r : List V, r.length = t → ∀ i ∈ S,
      peval (i : F) (s' :: List.zipWith (· + ·) r d) = peval (i : F) (s :: r) := by
  set w : List F := wpoly (S.map (fun i : ℕ => (i : F)))
  have hw : w.length = S.length + 1 := by simp [w, wpoly_length]
  obtain ⟨c, tl, e⟩ : ∃ c tl, w = c :: tl := by
    cases hh : w with
    | nil => rw [hh] at hw; simp at hw
    | cons c tl => exact ⟨c, tl, rfl⟩
  have hc : c = 1 := by
    have := wpoly_eval (0 : F) (S.map (fun i : ℕ => (i : F)))
    change peval 0 w = _ at this
    rw [e, peval_zero] at this
    rw [this]; apply List.prod_eq_one; intro x hx; simp at hx; obtain ⟨_, _, rfl⟩ := hx; rfl
  subst hc
  have htl : tl.length = S.length := by rw [e] at hw; simpa using hw
  refine ⟨(tl ++ List.replicate (t - S.length) 0).map (fun a => a • (s' - s)), by simp [htl]; omega, ?_⟩
  intro r hr i hi
  have hz : peval (i : F) (1 :: (tl ++ List.replicate (t - S.length) 0)) = 0 := by
    rw [← List.cons_append, ← e, peval_append, peval_replicate_zero, smul_zero, add_zero, wpoly_eval]
    rw [List.prod_eq_zero_iff, List.map_map, List.mem_map]
    exact ⟨i, hi, by simp [h0 i hi]⟩
  have hmap : peval (i : F) ((1 :: (tl ++ List.replicate (t - S.length) 0)).map (fun a => a • (s' - s))) = 0 := by
    have e2 := peval_map (i : F) (LinearMap.toSpanSingleton F V (s' - s)) (1 :: (tl ++ List.replicate (t - S.length) 0))
    rw [hz, map_zero] at e2
    exact e2
  have : s' :: List.zipWith (· + ·) r ((tl ++ List.replicate (t - S.length) 0).map (fun a => a • (s' - s)))
      = List.zipWith (· + ·) (s :: r) ((1 :: (tl ++ List.replicate (t - S.length) 0)).map (fun a => a • (s' - s))) := by
    simp
  rw [this, peval_add _ _ _ (by simp [hr, htl]; omega), hmap, add_zero]

/-- The shares of all parties as a function of the secret and the `t` random coefficients. -/
def sharesOf (F : Type) [Field F] {V : Type} [AddCommGroup V] [Module F V] (n : ℕ) (s : V) (r : List V) : List V :=
  (List.range' 1 n).map (fun i : ℕ => peval (i : F) (s :: r))

theorem view_eq {n : ℕ} (S : List ℕ) (hp : ∀ p ∈ S, 1 ≤ p ∧ p ≤ n) (s : V) (r : List V) :
    pick (sharesOf F n s r) S = S.map (fun i : ℕ => peval (i : F) (s :: r)) := pick_map n _ S hp

theorem nonzero {n : ℕ} (hF : Positions F n) {S : List ℕ} (hp : ∀ p ∈ S, 1 ≤ p ∧ p ≤ n) : ∀ i ∈ S, (i : F) ≠ 0 := by
  intro i hi h
  have := hF i 0 (hp i hi).2 (by omega) (by simpa using h)
  have := (hp i hi).1
  omega

/-- Any view of at most `t` parties arises from equally many random coefficients under any two secrets
(the map r ↦ r + d is a bijection of the randomness). -/
theorem same_view {n t : ℕ} (hF : Positions F n) (S : List ℕ) (hp : ∀ p ∈ S, 1 ≤ p ∧ p ≤ n) (ht : S.length ≤ t) (s s' : V) :
    ∃ d : List V, d.length = t ∧ ∀ r : List V, r.length = t →
      pick (sharesOf F n s' (List.zipWith (· + ·) r d)) S = pick (sharesOf F n s r) S := by
  obtain ⟨d, hd, h⟩ := exists_offset (F := F) t S ht (nonzero hF hp) s s'
  refine ⟨d, hd, fun r hr => ?_⟩
  rw [view_eq S hp, view_eq S hp]
  exact List.map_congr_left (h r hr)

theorem same_count [Fintype V] [DecidableEq V] {n t : ℕ} (hF : Positions F n) (S : List ℕ) (hp : ∀ p ∈ S, 1 ≤ p ∧ p ≤ n) (ht : S.length ≤ t)
    (s s' : V) (view : List V) :
    Fintype.card {r : Fin t → V // pick (sharesOf F n s (List.ofFn r)) S = view} =
    Fintype.card {r : Fin t → V // pick (sharesOf F n s' (List.ofFn r)) S = view} := by
  obtain ⟨d, hd, h⟩ := same_view hF S hp ht s s'
  subst hd
  have key : ∀ r : Fin d.length → V, List.zipWith (· + ·) (List.ofFn r) d = List.ofFn (fun i => r i + d[i]) := by
    intro r; apply List.ext_getElem <;> simp
  refine Fintype.card_congr (Equiv.subtypeEquiv (Equiv.addRight (fun i => d[i])) ?_)
  intro r
  have := h (List.ofFn r) (by simp)
  rw [key] at this
  have e : (Equiv.addRight (fun i : Fin d.length => d[i])) r = fun i => r i + d[i] := rfl
  rw [e, this]

/-! ## The code hands out exactly these shares, with `t` fresh draws per secret -/

theorem field_element (s : F) (n t : ℕ) (rng : Rng) :
    share_field_element s t n rng = .ok ((sharesOf F n s (Rng.drawsF F t rng).1).map ShamirPrimeFieldShare.mk, (Rng.drawsF F t rng).2) := by
  unfold share_field_element
  rw [share_spec]; simp only [ok_bind, pure_eq]
  first | rfl | simp [sharesOf]

theorem curve_point (s : G) (n t : ℕ) (rng : Rng) :
    share_curve_point (F := F) s t n rng = .ok ((sharesOf F n s (Rng.drawsF G t rng).1).map ShamirPointShare.mk, (Rng.drawsF G t rng).2) := by
  unfold share_curve_point
  rw [share_point_spec]; simp only [ok_bind, pure_eq]
  first | rfl | simp [sharesOf]

/-- the draws for each of `k` secrets: consecutive, disjoint stretches of the stream -/
def stretches (F : Type) [Zero F] (t : ℕ) : ℕ → Rng → List (List F) × Rng
  | 0, r => ([], r)
  | k + 1, r =>
    let p := stretches F t k r
    let q := Rng.drawsF F t p.2
    (p.1 ++ [q.1], q.2)

theorem stretches_length (t k : ℕ) (r : Rng) : (stretches F t k r).1.length = k := by
  induction k with
  | zero => rfl
  | succ k ih => simp [stretches, ih]

theorem drawsF_add (a b : ℕ) (r : Rng) : Rng.drawsF F (a + b) r = ((Rng.drawsF F a r).1 ++ (Rng.drawsF F b (Rng.drawsF F a r).2).1, (Rng.drawsF F b (Rng.drawsF F a r).2).2) := by
  induction a generalizing r with
  | zero => simp [Rng.drawsF]
  | succ a ih => rw [Nat.add_right_comm, Rng.drawsF, ih]; simp [Rng.drawsF]

/-- every stretch holds `t` draws, and together they are the first `k * t` draws of the stream, each used once -/
theorem stretches_flat (t k : ℕ) (r : Rng) : (stretches F t k r).1.flatten = (Rng.drawsF F (k * t) r).1 ∧ (stretches F t k r).2 = (Rng.drawsF F (k * t) r).2 ∧
    ∀ s ∈ (stretches F t k r).1, s.length = t := by
  induction k with
  | zero => simp [stretches, Rng.drawsF]
  | succ k ih =>
    obtain ⟨h1, h2, h3⟩ := ih
    rw [Nat.succ_mul, drawsF_add]
    refine ⟨by simp [stretches, h1, h2], by simp [stretches, h2], ?_⟩
    intro s hs
    simp only [stretches, List.mem_append, List.mem_singleton] at hs
    rcases hs with hs | rfl
    · exact h3 s hs
    · simp

theorem field_elements (ss : List F) (n t : ℕ) (rng : Rng) :
    share_field_elements ss t n rng = .ok ((List.range' 1 n).map (fun i : ℕ => List.zipWith (fun s r => ShamirPrimeFieldShare.mk (peval (i : F) (s :: r))) ss (stretches F t ss.length rng).1),
      (stretches F t ss.length rng).2) := by
  have key : Ens (share_field_elements ss t n rng) (fun r =>
      r.1 = (List.range' 1 n).map (fun i : ℕ => List.zipWith (fun s r => ShamirPrimeFieldShare.mk (peval (i : F) (s :: r))) ss (stretches F t ss.length rng).1) ∧
      r.2 = (stretches F t ss.length rng).2) := by
    unfold share_field_elements
    refine Ens.bind (foldlM_inv _ _ _ (fun pre (s : Rng × List (List (ShamirPrimeFieldShare F))) =>
      s.2 = (List.range' 1 n).map (fun i : ℕ => List.zipWith (fun s r => ShamirPrimeFieldShare.mk (peval (i : F) (s :: r))) pre (stretches F t pre.length rng).1) ∧
      s.1 = (stretches F t pre.length rng).2) ?_ ?_) ?_
    · refine ⟨?_, rfl⟩
      apply List.ext_getElem <;> simp
    · rintro pre v ⟨r, st⟩ _ ⟨h1, h2⟩
      simp only at h1 h2; subst h1; subst h2
      simp only [share_spec, ok_bind, pure_eq]
      refine ⟨_, rfl, ?_, by simp [stretches]⟩
      rw [overwrite_eq (by simp)]
      apply List.ext_getElem
      · simp
      · intro k h1 h2
        simp [stretches, List.zipWith_append, stretches_length]
    · rintro ⟨r, st⟩ ⟨h1, h2⟩
      exact ⟨_, rfl, h1, h2⟩
  obtain ⟨⟨a, b⟩, e, h1, h2⟩ := key
  rw [e]; simp only at h1 h2; rw [h1, h2]

end Rs.C02
