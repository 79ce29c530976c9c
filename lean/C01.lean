import Shamir
import Spec
set_option linter.all false
set_option autoImplicit false
open Rs Rs.Shamir Polynomial
namespace Rs.C01
variable {F : Type} [Field F] [DecidableEq F] {G : Type} [AddCommGroup G] [Module F G] [DecidableEq G]

theorem evaluate_poly_spec (p : List F) (x : F) (h : p ≠ []) : evaluate_poly p x = .ok (peval x p) := by
  obtain ⟨q, e, rfl⟩ : ∃ q e, p = q ++ [e] := ⟨p.dropLast, p.getLast h, (List.dropLast_append_getLast h).symm⟩
  unfold evaluate_poly
  simp [mul_comm _ x, foldr_horner']

theorem evaluate_poly_point_spec (p : List G) (x : F) (h : p ≠ []) : evaluate_poly_point p x = .ok (peval x p) := by
  obtain ⟨q, e, rfl⟩ : ∃ q e, p = q ++ [e] := ⟨p.dropLast, p.getLast h, (List.dropLast_append_getLast h).symm⟩
  unfold evaluate_poly_point
  simp [point_mul, foldr_horner]

theorem lagrange_from_coeff_spec (l : List ℕ) (hi : Inj F l) : lagrange_from_coeff (F := F) l = .ok (l.map (lw F l)) := by
  unfold lagrange_from_coeff
  rw [mapM_ok (g := lw F l)]
  · simp
  · intro i hil
    simp only [rfrom_nat, psub_group]
    generalize hr : List.foldl _ _ _ = r
    have inv : r = (((l.filter (fun j => decide (i ≠ j))).map (fun j : ℕ => (j : F))).prod, ((l.filter (fun j => decide (i ≠ j))).map (fun j : ℕ => (j : F) - i)).prod) := by
      rw [← hr]
      refine foldl_inv l _ _ (fun pre s => s = (((pre.filter (fun j => decide (i ≠ j))).map (fun j : ℕ => (j : F))).prod, ((pre.filter (fun j => decide (i ≠ j))).map (fun j : ℕ => (j : F) - i)).prod)) ?_ ?_
      · simp
      · rintro pre a ⟨n, d⟩ _ h
        injection h with h1 h2
        subst h1 h2
        by_cases hia : i = a <;> simp [hia, List.filter_append]
    subst inv
    have hne : ((l.filter (fun j => decide (i ≠ j))).map (fun j : ℕ => (j : F) - i)).prod ≠ 0 := by
      apply List.prod_ne_zero
      intro h0
      obtain ⟨j, hj, e⟩ := List.mem_map.mp h0
      have hj := List.mem_filter.mp hj
      have := hi j hj.1 i hil (sub_eq_zero.mp e)
      simp [this] at hj
    simp only [inv?_of_ne hne, unwrap_some, ok_bind, pure_eq, lw, Except.ok.injEq]
    rw [← div_eq_mul_inv, ← prod_map_div']

theorem reconstruct_spec (s l : List F) : reconstruct s l = (List.zipWith (· • ·) l s).sum := by
  unfold reconstruct
  have : ∀ (a : F), List.foldl (fun res (x : F × F) => res + x.1 * x.2) a (s.zip l) = a + (List.zipWith (· • ·) l s).sum := by
    induction s generalizing l with
    | nil => simp
    | cons x s ih => cases l <;> simp_all [add_assoc, mul_comm]
  simpa using this 0

theorem reconstruct_point_spec (s : List G) (l : List F) : reconstruct_point s l = (List.zipWith (· • ·) l s).sum := by
  unfold reconstruct_point
  have : ∀ (a : G), List.foldl (fun res (x : G × F) => res + x.2 • x.1) a (s.zip l) = a + (List.zipWith (· • ·) l s).sum := by
    induction s generalizing l with
    | nil => simp
    | cons x s ih => cases l <;> simp_all [add_assoc]
  simpa [point_mul] using this 0

/-- the sharing polynomial: the secret, then the random coefficients -/
theorem share_spec (secret : F) (n t : ℕ) (rng : Rng) :
    share secret n t rng = .ok ((List.range' 1 n).map (fun i : ℕ => peval (i : F) (secret :: (Rng.drawsF F t rng).1)), (Rng.drawsF F t rng).2) := by
  unfold share
  simp only [pure_eq]
  rw [Rng.foldl_drawF _ _ _ _ (by intros; rfl)]
  rw [mapM_ok (g := fun i : ℕ => peval (i : F) (secret :: (Rng.drawsF F t rng).1))]
  · simp [rrange]
  · intro i _; simp [evaluate_poly_spec]

theorem share_point_spec (secret : G) (n t : ℕ) (rng : Rng) :
    share_point (F := F) secret n t rng = .ok ((List.range' 1 n).map (fun i : ℕ => peval (i : F) (secret :: (Rng.drawsF G t rng).1)), (Rng.drawsF G t rng).2) := by
  unfold share_point
  simp only [pure_eq]
  rw [Rng.foldl_drawF _ _ _ _ (by intros; rfl)]
  rw [mapM_ok (g := fun i : ℕ => peval (i : F) (secret :: (Rng.drawsF G t rng).1))]
  · simp [rrange]
  · intro i _; simp [evaluate_poly_point_spec]


/-! ### Combination recovers the secret -/
theorem take_facts (F : Type) [Field F] {pos : List ℕ} {t : ℕ} (hnd : pos.Nodup) (hi : Inj F pos) (ht : t < pos.length) :
    Inj F (pos.take (t + 1)) ∧ (pos.take (t + 1)).Nodup ∧ (pos.take (t + 1)).length = t + 1 :=
  ⟨fun a ha b hb => hi a (List.mem_of_mem_take ha) b (List.mem_of_mem_take hb), hnd.sublist (List.take_sublist _ _), by simp; omega⟩

/-- field elements: any `t + 1` or more distinct positions of a polynomial of degree at most `t` give its constant term -/
theorem combine_of_poly (secret : F) (c : List F) (pos : List ℕ) (t : ℕ) (hnd : pos.Nodup) (hi : Inj F pos)
    (hc : c.length ≤ t) (ht : t < pos.length) :
    combine_field_element (pos.map (fun i : ℕ => ShamirPrimeFieldShare.mk (peval (i : F) (secret :: c)))) pos t = .ok secret := by
  obtain ⟨hi', hn', hl⟩ := take_facts F hnd hi ht
  have ht' : t + 1 ≤ pos.length := ht
  have key := lagrange_sum (V := F) (pos.take (t + 1)) hn' hi' secret c (by omega)
  unfold combine_field_element
  simp [-peval_cons, ht, ht', lagrange_from_coeff_spec _ hi', reconstruct_spec, ← List.map_take, Function.comp_def]
  simpa [-peval_cons, Nat.not_le.mpr ht] using key

theorem combine_point_of_poly (secret : G) (c : List G) (pos : List ℕ) (t : ℕ) (hnd : pos.Nodup) (hi : Inj F pos)
    (hc : c.length ≤ t) (ht : t < pos.length) :
    combine_curve_point (F := F) (pos.map (fun i : ℕ => ShamirPointShare.mk (peval (i : F) (secret :: c)))) pos t = .ok secret := by
  obtain ⟨hi', hn', hl⟩ := take_facts F hnd hi ht
  have ht' : t + 1 ≤ pos.length := ht
  have key := lagrange_sum (V := G) (pos.take (t + 1)) hn' hi' secret c (by omega)
  unfold combine_curve_point
  simp [-peval_cons, ht, ht', lagrange_from_coeff_spec _ hi', reconstruct_point_spec, ← List.map_take, Function.comp_def]
  simpa [-peval_cons, Nat.not_le.mpr ht] using key

/-- vectors: entry `k` of party `i` lies on polynomial `k` -/
theorem combine_vec_of_poly (ps : List (F × List F)) (pos : List ℕ) (t : ℕ) (hnd : pos.Nodup) (hi : Inj F pos)
    (hc : ∀ p ∈ ps, p.2.length ≤ t) (ht : t < pos.length) :
    combine_field_elements (pos.map (fun i : ℕ => ps.map (fun p => ShamirPrimeFieldShare.mk (peval (i : F) (p.1 :: p.2))))) pos t = .ok (ps.map Prod.fst) := by
  obtain ⟨hi', hn', hl⟩ := take_facts F hnd hi ht
  have ht' : t + 1 ≤ pos.length := ht
  have h0 : 0 < pos.length := by omega
  unfold combine_field_elements
  simp [-peval_cons, ht, ht', h0, lagrange_from_coeff_spec _ hi', ← List.map_take, Function.comp_def, ← List.map_drop]
  rw [foldlM_check _ _ (fun s => s.length = ps.length) .err (by intros; rfl)]
  rw [mapM_ok (g := fun k => ((ps.map Prod.fst)[k]?).getD 0)]
  · have hall : ∀ a ∈ (pos.map (fun i : ℕ => ps.map (fun p => ShamirPrimeFieldShare.mk (peval (i : F) (p.1 :: p.2))))).tail, a.length = ps.length := by
      intro a ha
      obtain ⟨i, _, rfl⟩ := List.mem_map.mp (List.mem_of_mem_tail ha)
      simp
    rw [if_neg (Nat.not_le.mpr ht), if_pos hall]
    simp only [ok_bind, Except.ok.injEq]
    apply List.ext_getElem <;> simp
    intro k hk; simp [hk]
  · intro k hk
    have hk : k < ps.length := by simpa using hk
    rw [mapM_ok (g := fun i : ℕ => peval (i : F) (ps[k].1 :: ps[k].2))]
    · have key := lagrange_sum (V := F) (pos.take (t + 1)) hn' hi' ps[k].1 ps[k].2 (by have := hc ps[k] (by simp); omega)
      generalize List.take (t + 1) pos = P at *
      simpa [-peval_cons, reconstruct_spec, hk, List.zipWith_map] using key
    · intro i _
      rw [idx_of_lt (by simpa using hk)]; simp

theorem combine_field_element_err (s : List (ShamirPrimeFieldShare F)) (pos : List ℕ) (t : ℕ) (h : s.length ≠ pos.length ∨ s.length ≤ t) :
    combine_field_element s pos t = .error .err := by
  unfold combine_field_element; rcases h with h | h <;> simp [h] <;> intros <;> first | rfl | omega
theorem combine_field_elements_err (s : List (List (ShamirPrimeFieldShare F))) (pos : List ℕ) (t : ℕ) (h : s.length ≠ pos.length ∨ s.length ≤ t) :
    combine_field_elements s pos t = .error .err := by
  unfold combine_field_elements; rcases h with h | h <;> simp [h] <;> intros <;> first | rfl | omega
theorem combine_curve_point_err (s : List (ShamirPointShare G)) (pos : List ℕ) (t : ℕ) (h : s.length ≠ pos.length ∨ s.length ≤ t) :
    combine_curve_point (F := F) s pos t = .error .err := by
  unfold combine_curve_point; rcases h with h | h <;> simp [h] <;> intros <;> first | rfl | omega
/-- vectors of different lengths are rejected -/
theorem combine_field_elements_ragged (s : List (List (ShamirPrimeFieldShare F))) (pos : List ℕ) (t : ℕ)
    (h : ∃ a ∈ s, ∃ b ∈ s, a.length ≠ b.length) : combine_field_elements s pos t = .error .err := by
  by_cases h1 : s.length ≠ pos.length ∨ s.length ≤ t
  · exact combine_field_elements_err s pos t h1
  obtain ⟨a, ha, b, hb, hab⟩ := h
  push Not at h1
  rcases s with _ | ⟨s0, s⟩
  · simp at ha
  unfold combine_field_elements
  have hno : ¬ ∀ a ∈ s, a.length = s0.length := by
    intro hall
    have h2 : ∀ a ∈ s0 :: s, a.length = s0.length := by simpa using hall
    exact hab ((h2 a ha).trans (h2 b hb).symm)
  have hn1 : ¬ (s.length + 1 ≤ t) := by simpa using h1.2
  have hl : s.length + 1 = pos.length := by simpa using h1.1
  simp [hl, Nat.not_le.mpr h1.2, hn1]
  simp [foldlM_check s _ (fun a => a.length = s0.length) .err (by intros; rfl), hno]

/-! ### The interpolation helpers -/
theorem poly_times_root_spec (p : List F) (r : F) : Ens (poly_times_root_inplace p r) (fun q => q.length = p.length + 1 ∧ ∀ x : F, peval x q = (x - r) * peval x p) := by
  unfold poly_times_root_inplace
  simp only [rinsert_zero, ok_bind, pure_eq]
  refine Ens.mono (foldlM_inv _ _ _ (fun pre (st : List F) => st.length = p.length + 1 ∧ ∀ j : ℕ, st[j]? = if j < pre.length then some ((((0 : F) :: p)[j]?).getD 0 - ((((0 : F) :: p)[j + 1]?).getD 0) * r) else ((0 : F) :: p)[j]?) ?_ ?_) ?_
  · simp
  · rintro pre i st hp ⟨hl, hst⟩
    obtain ⟨rfl, hlt⟩ := prefix_range' hp
    have hlt : pre.length < p.length := by simpa using hlt
    have h1 := hst (1 + pre.length)
    have h2 := hst pre.length
    rw [if_neg (by omega)] at h1 h2
    rw [idx_of_lt (by omega), ok_bind, rsub_nat (by omega)]
    simp only [ok_bind]
    rw [idx_of_lt (by omega), ok_bind, rset_of_lt (by omega)]
    refine ⟨_, rfl, by simp [hl], fun j => ?_⟩
    simp only [List.getElem?_set, psub_group, List.length_append, List.length_singleton, Nat.add_sub_cancel_left, hl, hst]
    by_cases hj : pre.length = j
    · subst hj
      have e1 : st[1 + pre.length]'(by omega) = ((0 :: p)[pre.length + 1]?).getD 0 := by rw [Nat.add_comm pre.length 1, ← h1, List.getElem?_eq_getElem (by omega)]; rfl
      have e2 : st[pre.length]'(by omega) = ((0 :: p)[pre.length]?).getD 0 := by rw [← h2, List.getElem?_eq_getElem (by omega)]; rfl
      rw [if_pos rfl, if_pos (by omega), if_pos (by omega), e1, e2]
    · rw [if_neg hj]
      by_cases h3 : j < pre.length
      · rw [if_pos h3, if_pos (by omega)]
      · rw [if_neg h3, if_neg (by omega)]
  · rintro q ⟨hl, hq⟩
    refine ⟨hl, fun x => ?_⟩
    have : q = List.zipWith (fun u v => u - v * r) (0 :: p) (p ++ [0]) := by
      apply List.ext_getElem?
      intro j
      rw [hq]
      simp only [rrange, List.length_range', List.length_cons, Nat.add_sub_cancel]
      rcases Nat.lt_trichotomy j p.length with h | h | h
      · simp [h, List.getElem?_zipWith, List.getElem?_append]
        rcases j with _ | j
        · simp
        · have : j < p.length := by omega
          simp [this]
      · subst h; simp [List.getElem?_zipWith]
      · have h1 : ((0 : F) :: p)[j]? = none := by simp; omega
        have h2 : (p ++ [(0 : F)])[j]? = none := by simp; omega
        rw [if_neg (by omega)]
        simp [List.getElem?_zipWith, h1]
    rw [this, peval_axpy _ _ _ _ (by simp), peval_append]
    simp; ring


/-- the polynomial with value 1 at 0 and the prescribed zeros -/
theorem zero_points_spec (zs : List ℕ) (h : ∀ z ∈ zs, (z : F) ≠ 0) :
    Ens (interpolation_poly_from_zero_points (F := F) zs) (fun q => q.length = zs.length + 1 ∧ ∀ x : F, peval x q = (zs.map (fun z : ℕ => (x - z) / (0 - z))).prod) := by
  unfold interpolation_poly_from_zero_points
  simp only [pure_eq, rfrom_nat]
  refine Ens.bind (p := fun (s : List F × F) => s.1.length = zs.length + 1 ∧ s.2 = (zs.map (fun z : ℕ => (0 : F) - z)).prod ∧ ∀ x, peval x s.1 = (zs.map (fun z : ℕ => x - (z : F))).prod) ?_ ?_
  · refine Ens.mono (foldlM_inv _ _ _ (fun pre (s : List F × F) => s.1.length = pre.length + 1 ∧ s.2 = (pre.map (fun z : ℕ => (0 : F) - z)).prod ∧ ∀ x, peval x s.1 = (pre.map (fun z : ℕ => x - (z : F))).prod) ?_ ?_) (fun _ h => h)
    · simp
    · rintro pre z ⟨n, d⟩ _ ⟨h1, h2, h3⟩
      refine (poly_times_root_spec n (z : F)).bind ?_
      rintro q ⟨hq, hx⟩
      refine ⟨_, rfl, ?_, ?_, ?_⟩
      · simp [hq] at h1 ⊢; exact h1
      · simp at h2 ⊢; rw [h2]; simp
      · intro x; simp at h3 ⊢; rw [hx, h3]; ring
  · rintro ⟨n, d⟩ ⟨h1, h2, h3⟩
    have hd : d ≠ 0 := by
      simp only at h2; rw [h2]; apply List.prod_ne_zero; intro h0
      obtain ⟨z, hz, e⟩ := List.mem_map.mp h0
      exact h z hz (by simpa using e)
    simp only [inv?_of_ne hd, unwrap_some, ok_bind]
    refine ⟨_, rfl, ?_, ?_⟩
    · simpa [overwrite] using h1
    · intro x
      have : overwrite n (n.map (fun r => r * d⁻¹)) = n.map (d⁻¹ • ·) := by simp [overwrite, mul_comm]
      simp only [this, peval_smul, h3]
      simp only at h2
      rw [prod_map_div', h2, smul_eq_mul, mul_comm, div_eq_mul_inv]

theorem with_zeros_spec (secret : F) (pre : List F) : poly_with_zeros_from_precomputed secret pre = pre.map (fun r => secret * r) := by
  unfold poly_with_zeros_from_precomputed; simp [overwrite, mul_comm]
theorem with_zeros_point_spec (secret : G) (pre : List F) : poly_with_zeros_from_precomputed_point secret pre = pre.map (fun r => r • secret) := by
  unfold poly_with_zeros_from_precomputed_point; simp [point_mul]

theorem secret_and_zeros_spec (secret : F) (zs : List ℕ) (h : ∀ z ∈ zs, (z : F) ≠ 0) :
    Ens (interpolate_poly_from_secret_and_zeros secret zs) (fun q => q.length = zs.length + 1 ∧ peval (0 : F) q = secret ∧ (∀ z ∈ zs, peval (z : F) q = 0)) := by
  unfold interpolate_poly_from_secret_and_zeros
  refine (zero_points_spec zs h).bind ?_
  rintro q ⟨hl, hx⟩
  refine ⟨_, rfl, ?_, ?_, ?_⟩
  · simp [with_zeros_spec, hl]
  · rw [with_zeros_spec, show (fun r => secret * r) = (fun r => secret • r) from rfl, peval_smul, hx]
    have : (zs.map (fun z : ℕ => ((0 : F) - z) / (0 - z))).prod = 1 := by
      apply List.prod_eq_one; intro y hy
      obtain ⟨z, hz, rfl⟩ := List.mem_map.mp hy
      exact div_self (by simpa using h z hz)
    simp only [this, smul_eq_mul, mul_one]
  · intro z hz
    rw [with_zeros_spec, show (fun r => secret * r) = (fun r => secret • r) from rfl, peval_smul, hx]
    have : (zs.map (fun y : ℕ => ((z : F) - y) / (0 - y))).prod = 0 := by
      apply List.prod_eq_zero; exact List.mem_map.mpr ⟨z, hz, by simp⟩
    simp only [this, smul_zero]

theorem share_with_zeros_spec (secret : F) (zs ps : List ℕ) (h : ∀ z ∈ zs, (z : F) ≠ 0) :
    ∃ q : List F, q.length = zs.length + 1 ∧ peval (0 : F) q = secret ∧ (∀ z ∈ zs, peval (z : F) q = 0) ∧
      share_with_zeros secret zs ps = .ok (ps.map (fun i : ℕ => peval (i : F) q)) := by
  obtain ⟨q, e, hl, h0, hz⟩ := secret_and_zeros_spec secret zs h
  refine ⟨q, hl, h0, hz, ?_⟩
  have hne : q ≠ [] := by rintro rfl; simp at hl
  unfold share_with_zeros
  simp only [e, ok_bind, pure_eq]
  rw [mapM_ok (g := fun i : ℕ => peval (i : F) q)]
  · simp
  · intro i _; simp [evaluate_poly_spec q _ hne]

/-- row `i` is the Lagrange basis polynomial of position `i` -/
theorem precompute_spec (l : List ℕ) (hn : l.Nodup) (hi : Inj F l) :
    Ens (precompute_interpolation_polys (F := F) l) (fun rows => List.Forall₂ (fun i row => row.length = l.length ∧ ∀ j ∈ l, peval (j : F) row = if i = j then 1 else 0) l rows) := by
  unfold precompute_interpolation_polys
  simp only [pure_eq, rfrom_nat, psub_group]
  refine (mapM_ens l _ (fun i (row : List F) => row.length = l.length ∧ ∀ j ∈ l, peval (j : F) row = if i = j then 1 else 0) ?_).bind ?_
  · intro i hil
    refine Ens.bind (p := fun (s : List F × F) => s.1.length = (l.filter (fun j => decide (i ≠ j))).length + 1 ∧ s.2 = ((l.filter (fun j => decide (i ≠ j))).map (fun z : ℕ => (i : F) - z)).prod ∧ ∀ x, peval x s.1 = ((l.filter (fun j => decide (i ≠ j))).map (fun z : ℕ => x - (z : F))).prod) ?_ ?_
    · refine Ens.mono (foldlM_inv _ _ _ (fun pre (s : List F × F) => s.1.length = (pre.filter (fun j => decide (i ≠ j))).length + 1 ∧ s.2 = ((pre.filter (fun j => decide (i ≠ j))).map (fun z : ℕ => (i : F) - z)).prod ∧ ∀ x, peval x s.1 = ((pre.filter (fun j => decide (i ≠ j))).map (fun z : ℕ => x - (z : F))).prod) ?_ ?_) (fun _ h => h)
      · simp
      · rintro pre z ⟨n, d⟩ _ ⟨h1, h2, h3⟩
        simp only at h1 h2 h3
        by_cases hz : i = z
        · subst hz
          refine ⟨(n, d), by simp, ?_, ?_, ?_⟩ <;> simp_all [List.filter_append]
        · simp only [beq_eq_false_iff_ne.mpr hz, Bool.not_false, if_true]
          have hf : (pre ++ [z]).filter (fun j => decide (i ≠ j)) = pre.filter (fun j => decide (i ≠ j)) ++ [z] := by simp [List.filter_append, hz]
          rw [hf]
          obtain ⟨q, e, hq, hx⟩ := poly_times_root_spec n (z : F)
          refine ⟨_, by rw [e]; rfl, ?_, ?_, ?_⟩
          · simp [hq, h1]
          · simp [h2]
          · intro x; simp [hx, h3, mul_comm]
    · rintro ⟨n, d⟩ ⟨h1, h2, h3⟩
      simp only at h1 h2 h3
      have hd : d ≠ 0 := by
        rw [h2]; apply List.prod_ne_zero; intro h0
        obtain ⟨z, hz, e⟩ := List.mem_map.mp h0
        have hz := List.mem_filter.mp hz
        have := hi i hil z hz.1 (sub_eq_zero.mp e)
        simp [this] at hz
      simp only [inv?_of_ne hd, unwrap_some, ok_bind]
      have hov : overwrite n (n.map (fun r => r * d⁻¹)) = n.map (d⁻¹ • ·) := by simp [overwrite, mul_comm]
      refine ⟨_, rfl, ?_, ?_⟩
      · rw [hov, List.length_map, h1]
        have e1 : l.filter (fun j => decide (i ≠ j)) = l.erase i := by
          rw [hn.erase_eq_filter]; congr 1; funext j; rw [Bool.eq_iff_iff]; simp [ne_comm]
        rw [e1, List.length_erase_of_mem hil]
        have := List.length_pos_of_mem hil; omega
      · intro j hj
        rw [hov, peval_smul, h3]
        by_cases hij : i = j
        · subst hij; rw [if_pos rfl, ← h2, smul_eq_mul, inv_mul_cancel₀ hd]
        · rw [if_neg hij]
          have : ((l.filter (fun j => decide (i ≠ j))).map (fun z : ℕ => (j : F) - z)).prod = 0 := by
            apply List.prod_eq_zero; exact List.mem_map.mpr ⟨j, List.mem_filter.mpr ⟨hj, by simpa using hij⟩, by simp⟩
          rw [this, smul_zero]
  · intro rows hr; exact ⟨_, rfl, by simpa using hr⟩

theorem interpolate_spec (s : List F) (rows : List (List F)) (m : ℕ) (hm : s.length = m) (hr : ∀ r ∈ rows, r.length = m) :
    (interpolate_poly_from_precomputed s rows).length = m ∧ ∀ x : F, peval x (interpolate_poly_from_precomputed s rows) = (List.zipWith (fun r p => p * peval x r) rows s).sum := by
  unfold interpolate_poly_from_precomputed
  dsimp only
  generalize hres : List.foldl _ _ _ = res
  have inv : res.length = m ∧ ∀ x : F, peval x res = ((rows.zip s).map (fun z => z.2 * peval x z.1)).sum := by
    rw [← hres]
    refine foldl_inv (rows.zip s) _ _ (fun pre st => st.length = m ∧ ∀ x : F, peval x st = (pre.map (fun z => z.2 * peval x z.1)).sum) ?_ ?_
    · refine ⟨by simpa using hm, fun x => ?_⟩
      rw [peval_replicate_zero]; simp
    · rintro pre ⟨row, p⟩ st hp ⟨h1, h2⟩
      have hrow : row.length = m := by
        obtain ⟨t, ht⟩ := hp
        have : (row, p) ∈ rows.zip s := by rw [← ht]; simp
        exact hr _ (List.of_mem_zip this).1
      have e : overwrite st ((st.zip row).map (fun (r, n) => r + n * p)) = List.zipWith (fun u v => u - v * (-p)) st row := by
        simp [overwrite, h1, hrow, List.zip, List.map_zipWith]
      refine ⟨?_, fun x => ?_⟩
      · dsimp only; rw [e]; simp [h1, hrow]
      · dsimp only; rw [e]; rw [peval_axpy _ _ _ _ (by omega), h2]; simp [mul_comm]
  refine ⟨inv.1, fun x => ?_⟩
  rw [inv.2, List.zip, List.map_zipWith]

/-- interpolation through given points, by way of the precomputed basis -/
theorem interpolate_points (l : List ℕ) (s : List F) (hn : l.Nodup) (hi : Inj F l) (hs : s.length = l.length) :
    ∃ rows, precompute_interpolation_polys (F := F) l = .ok rows ∧ (interpolate_poly_from_precomputed s rows).length = l.length ∧
      ∀ k (hk : k < l.length), peval (l[k] : F) (interpolate_poly_from_precomputed s rows) = s[k] := by
  obtain ⟨rows, e, hr⟩ := precompute_spec (F := F) l hn hi
  have hlen : rows.length = l.length := hr.length_eq.symm
  obtain ⟨h1, h2⟩ := interpolate_spec s rows l.length hs (by
    intro r hr'
    obtain ⟨k, hk, rfl⟩ := List.getElem_of_mem hr'
    exact ((List.forall₂_iff_get.mp hr).2 k (by omega) hk).1)
  refine ⟨rows, e, h1, fun k hk => ?_⟩
  rw [h2]
  have hrow : ∀ j (hj : j < l.length), peval (l[k] : F) (rows[j]) = if j = k then 1 else 0 := by
    intro j hj
    have := ((List.forall₂_iff_get.mp hr).2 j hj (by omega)).2 l[k] (by simp)
    simp only [List.get_eq_getElem] at this
    rw [this]; simp [hn.getElem_inj_iff]
  have : List.zipWith (fun r p => p * peval (l[k] : F) r) rows s = (List.range l.length).map (fun j => if j = k then s[k] else 0) := by
    apply List.ext_getElem
    · simp; omega
    · intro j hj1 hj2
      have hj : j < l.length := by simpa using hj2
      simp only [List.getElem_zipWith, List.getElem_map, List.getElem_range, hrow j hj]
      by_cases hjk : j = k
      · subst hjk; simp
      · simp [hjk]
  rw [this]
  rw [List.sum_map_ite_eq, List.count_eq_one_of_mem List.nodup_range (by simpa using hk)]; simp

/-- uniqueness: two coefficient lists of the same length that agree at as many distinct positions are equal -/
theorem interpolation_unique (a b : List F) (l : List ℕ) (hn : l.Nodup) (hi : Inj F l) (ha : a.length ≤ l.length) (hab : a.length = b.length)
    (h : ∀ i ∈ l, peval (i : F) a = peval (i : F) b) : a = b := by
  have hp : toPoly a = toPoly b := by
    have dl : ∀ c : List F, c.length ≤ l.length → (toPoly c).degree < l.toFinset.card := by
      intro c hc
      rw [List.toFinset_card_of_nodup hn]
      rcases toPoly_degree_lt c with h | ⟨rfl, h⟩
      · exact lt_of_lt_of_le h (by exact_mod_cast hc)
      · rw [h, degree_zero]; exact WithBot.bot_lt_coe _
    refine Polynomial.eq_of_degrees_lt_of_eval_index_eq (v := fun i : ℕ => (i : F)) l.toFinset ?_ (dl a ha) (dl b (by omega)) ?_
    · intro x hx y hy hxy; exact hi x (by simpa using hx) y (by simpa using hy) hxy
    · intro i hil; rw [toPoly_eval, toPoly_eval]; exact h i (by simpa using hil)
  apply List.ext_getElem hab
  intro i h1 h2
  have := congrArg (fun p => Polynomial.coeff p i) hp
  simpa [toPoly_coeff, h1, h2] using this

/-! ### C01: what a caller of the library observes -/

/-- the positions `1..n` are distinct in `F` -/
def Positions (F : Type) [Field F] (n : ℕ) : Prop := ∀ i j : ℕ, i ≤ n → j ≤ n → (i : F) = j → i = j

theorem Positions.inj {n : ℕ} (h : Positions F n) {pos : List ℕ} (hp : ∀ p ∈ pos, 1 ≤ p ∧ p ≤ n) : Inj F pos :=
  fun a ha b hb e => h a b (hp a ha).2 (hp b hb).2 e

/-- the shares of the parties at these positions -/
def pick {α : Type} (shs : List α) (pos : List ℕ) : List α := pos.filterMap (fun p => shs[p - 1]?)

theorem pick_map {α : Type} (n : ℕ) (f : ℕ → α) (pos : List ℕ) (h : ∀ p ∈ pos, 1 ≤ p ∧ p ≤ n) : pick ((List.range' 1 n).map f) pos = pos.map f := by
  unfold pick
  induction pos with
  | nil => rfl
  | cons p pos ih =>
    have hp := h p (by simp)
    rw [List.filterMap_cons, ih (fun q hq => h q (by simp [hq]))]
    have : p - 1 < n := by omega
    simp [this]; congr; omega

/-- C01, field elements: every quorum of more than `t` distinct parties, in any order, recovers the secret -/
theorem field_element (secret : F) (n t : ℕ) (rng : Rng) (hF : Positions F n) :
    ∃ shs rng', share_field_element secret t n rng = .ok (shs, rng') ∧ shs.length = n ∧
      ∀ pos : List ℕ, pos.Nodup → (∀ p ∈ pos, 1 ≤ p ∧ p ≤ n) → t < pos.length →
        combine_field_element (pick shs pos) pos t = .ok secret := by
  unfold share_field_element
  rw [share_spec]; simp only [ok_bind, pure_eq]
  refine ⟨_, _, rfl, by simp, ?_⟩
  intro pos hn hp ht
  rw [List.map_map, pick_map n _ pos hp]
  exact combine_of_poly secret _ pos t hn (hF.inj hp) (by simp) ht

/-- C01, group elements -/
theorem curve_point (secret : G) (n t : ℕ) (rng : Rng) (hF : Positions F n) :
    ∃ shs rng', share_curve_point (F := F) secret t n rng = .ok (shs, rng') ∧ shs.length = n ∧
      ∀ pos : List ℕ, pos.Nodup → (∀ p ∈ pos, 1 ≤ p ∧ p ≤ n) → t < pos.length →
        combine_curve_point (F := F) (pick shs pos) pos t = .ok secret := by
  unfold share_curve_point
  rw [share_point_spec]; simp only [ok_bind, pure_eq]
  refine ⟨_, _, rfl, by simp, ?_⟩
  intro pos hn hp ht
  rw [List.map_map, pick_map n _ pos hp]
  exact combine_point_of_poly secret _ pos t hn (hF.inj hp) (by simp) ht

/-- C01, vectors of field elements -/
theorem field_elements (secrets : List F) (n t : ℕ) (rng : Rng) (hF : Positions F n) :
    ∃ shs rng', share_field_elements secrets t n rng = .ok (shs, rng') ∧ shs.length = n ∧
      ∀ pos : List ℕ, pos.Nodup → (∀ p ∈ pos, 1 ≤ p ∧ p ≤ n) → t < pos.length →
        combine_field_elements (pick shs pos) pos t = .ok secrets := by
  have key : Ens (share_field_elements secrets t n rng) (fun r => ∃ ps : List (F × List F), ps.map Prod.fst = secrets ∧ (∀ p ∈ ps, p.2.length ≤ t) ∧
      r.1 = (List.range' 1 n).map (fun i : ℕ => ps.map (fun p => ShamirPrimeFieldShare.mk (peval (i : F) (p.1 :: p.2))))) := by
    unfold share_field_elements
    refine Ens.bind (foldlM_inv _ _ _ (fun pre (s : Rng × List (List (ShamirPrimeFieldShare F))) => ∃ ps : List (F × List F), ps.map Prod.fst = pre ∧ (∀ p ∈ ps, p.2.length ≤ t) ∧
      s.2 = (List.range' 1 n).map (fun i : ℕ => ps.map (fun p => ShamirPrimeFieldShare.mk (peval (i : F) (p.1 :: p.2))))) ?_ ?_) ?_
    · refine ⟨[], rfl, by simp, ?_⟩
      apply List.ext_getElem <;> simp
    · rintro pre v ⟨r, st⟩ _ ⟨ps, h1, h2, h3⟩
      simp only at h3; subst h3
      simp only [share_spec, ok_bind, pure_eq]
      refine ⟨_, rfl, ps ++ [(v, (Rng.drawsF F t r).1)], by simp [h1], ?_, ?_⟩
      · intro p hp; rcases List.mem_append.mp hp with hp | hp
        · exact h2 p hp
        · simp at hp; subst hp; simp
      · rw [overwrite_eq (by simp)]; apply List.ext_getElem <;> simp
    · rintro ⟨r, st⟩ ⟨ps, h1, h2, h3⟩
      exact ⟨_, rfl, ps, h1, h2, h3⟩
  obtain ⟨⟨shs, rng'⟩, e, ps, h1, h2, h3⟩ := key
  simp only at h3; subst h3
  refine ⟨_, _, e, by simp, ?_⟩
  intro pos hn hp ht
  rw [pick_map n _ pos hp, ← h1]
  exact combine_vec_of_poly ps pos t hn (hF.inj hp) h2 ht

end Rs.C01
