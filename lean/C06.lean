import PolyFn
import Rep3Arith
set_option linter.all false
set_option autoImplicit false
open Rs Rs.Rep3Ops
namespace C06
variable {F : Type} [Field F] [DecidableEq F]

local macro "op" : tactic => `(tactic| first | rfl | (ext <;> simp; done) | (ext <;> simp <;> ring) | (simp; done) | (simp; ring))

/-! ## Contracts of the operators: every form computes component-wise -/
section
variable (s t : Rep3PrimeFieldShare F) (k v : F) (id : PartyID)
theorem rf_add_spec : rf_add s t = ⟨s.a + t.a, s.b + t.b⟩ := by unfold rf_add; op
theorem rf_add_rr_spec : rf_add_ref_rRep3PrimeFieldShare s t = ⟨s.a + t.a, s.b + t.b⟩ := by unfold rf_add_ref_rRep3PrimeFieldShare; op
theorem rf_add_assign_spec : rf_add_assign_vRep3PrimeFieldShare s t = ⟨s.a + t.a, s.b + t.b⟩ := by unfold rf_add_assign_vRep3PrimeFieldShare; op
theorem rf_add_assign_r_spec : rf_add_assign_rRep3PrimeFieldShare s t = ⟨s.a + t.a, s.b + t.b⟩ := by unfold rf_add_assign_rRep3PrimeFieldShare; op
theorem rf_sub_spec : rf_sub s t = ⟨s.a - t.a, s.b - t.b⟩ := by unfold rf_sub; op
theorem rf_sub_rr_spec : rf_sub_ref_rRep3PrimeFieldShare s t = ⟨s.a - t.a, s.b - t.b⟩ := by unfold rf_sub_ref_rRep3PrimeFieldShare; op
theorem rf_sub_assign_spec : rf_sub_assign_vRep3PrimeFieldShare s t = ⟨s.a - t.a, s.b - t.b⟩ := by unfold rf_sub_assign_vRep3PrimeFieldShare; op
theorem rf_mul_spec : rf_mul s t = s.a * t.a + s.a * t.b + s.b * t.a := by unfold rf_mul; op
theorem rf_mul_rr_spec : rf_mul_ref_rRep3PrimeFieldShare s t = s.a * t.a + s.a * t.b + s.b * t.a := by unfold rf_mul_ref_rRep3PrimeFieldShare; op
theorem rf_mul_pub_spec : rf_mul_vF s k = ⟨s.a * k, s.b * k⟩ := by unfold rf_mul_vF; op
theorem rf_mul_pub_r_spec : rf_mul_ref_vF s k = ⟨s.a * k, s.b * k⟩ := by unfold rf_mul_ref_vF; op
theorem rf_mul_assign_spec : rf_mul_assign_vF s k = ⟨s.a * k, s.b * k⟩ := by unfold rf_mul_assign_vF; op
theorem rf_neg_spec : rf_neg s = ⟨-s.a, -s.b⟩ := by unfold rf_neg; op
theorem rf_zero_spec : (rf_zero : Rep3PrimeFieldShare F) = ⟨0, 0⟩ := by unfold rf_zero; op
theorem rf_zero_share_spec : (rf_zero_share : Rep3PrimeFieldShare F) = ⟨0, 0⟩ := by unfold rf_zero_share; op
theorem rf_new_spec : rf_new k v = ⟨k, v⟩ := by unfold rf_new; op
theorem rf_ab_spec : rf_ab s = (s.a, s.b) := by unfold rf_ab; op
theorem rf_double_spec : rf_double s = ⟨s.a + s.a, s.b + s.b⟩ := by unfold rf_double; op
theorem rf_double_in_place_spec : rf_double_in_place s = ⟨s.a + s.a, s.b + s.b⟩ := by unfold rf_double_in_place; op
theorem rf_promote_with_spec : rf_promote_from_trivial_with_scalar v k id = match id with
    | .ID0 => ⟨v, -k⟩ | .ID1 => ⟨k, v⟩ | .ID2 => ⟨-k, k⟩ := by
  unfold rf_promote_from_trivial_with_scalar; cases id <;> simp [rf_new_spec]
theorem rf_promote_spec : rf_promote_from_trivial v id = match id with
    | .ID0 => ⟨v, 0⟩ | .ID1 => ⟨0, v⟩ | .ID2 => ⟨0, 0⟩ := by
  unfold rf_promote_from_trivial; cases id <;> simp [rf_promote_with_spec, rf_new_spec]
theorem next_spec : pid_next id = match id with | .ID0 => .ID1 | .ID1 => .ID2 | .ID2 => .ID0 := by unfold pid_next; cases id <;> rfl
theorem prev_spec : pid_prev id = match id with | .ID0 => .ID2 | .ID1 => .ID0 | .ID2 => .ID1 := by unfold pid_prev; cases id <;> rfl
theorem next_prev : pid_next (pid_prev id) = id := by rw [prev_spec, next_spec]; cases id <;> rfl
theorem prev_next : pid_prev (pid_next id) = id := by rw [prev_spec, next_spec]; cases id <;> rfl

@[simp] theorem hadd : s + t = ⟨s.a + t.a, s.b + t.b⟩ := rf_add_spec s t
@[simp] theorem hsub : s - t = ⟨s.a - t.a, s.b - t.b⟩ := rf_sub_spec s t
@[simp] theorem psub' : psub s t = (⟨s.a - t.a, s.b - t.b⟩ : Rep3PrimeFieldShare F) := rf_sub_spec s t
@[simp] theorem hmul : s * t = s.a * t.a + s.a * t.b + s.b * t.a := rf_mul_spec s t
@[simp] theorem hmul_pub : s * k = ⟨s.a * k, s.b * k⟩ := rf_mul_pub_spec s k
@[simp] theorem neg' : -s = ⟨-s.a, -s.b⟩ := rf_neg_spec s
attribute [local simp] rf_new_spec rf_zero_share_spec rf_zero_spec overwrite

theorem add_spec : ra_add s t = ⟨s.a + t.a, s.b + t.b⟩ := by unfold ra_add; op
theorem add_assign_spec : ra_add_assign s t = ⟨s.a + t.a, s.b + t.b⟩ := by unfold ra_add_assign; op
theorem sub_spec : ra_sub s t = ⟨s.a - t.a, s.b - t.b⟩ := by unfold ra_sub; op
theorem sub_assign_spec : ra_sub_assign s t = ⟨s.a - t.a, s.b - t.b⟩ := by unfold ra_sub_assign; op
theorem mul_public_spec : ra_mul_public s k = ⟨s.a * k, s.b * k⟩ := by unfold ra_mul_public; op
theorem mul_assign_public_spec : ra_mul_assign_public s k = ⟨s.a * k, s.b * k⟩ := by unfold ra_mul_assign_public; op
theorem neg_spec : ra_neg s = ⟨-s.a, -s.b⟩ := by unfold ra_neg; op
theorem add_public_spec : ra_add_public s k id = match id with
    | .ID0 => ⟨s.a + k, s.b⟩ | .ID1 => ⟨s.a, s.b + k⟩ | .ID2 => s := by unfold ra_add_public; cases id <;> op
theorem add_assign_public_spec : ra_add_assign_public s k id = ra_add_public s k id := by
  rw [add_public_spec]; unfold ra_add_assign_public; cases id <;> op
theorem sub_shared_by_public_spec : ra_sub_shared_by_public s k id = ra_add_public s (-k) id := by
  unfold ra_sub_shared_by_public; simp only [add_public_spec]; try (cases id <;> op)
theorem sub_public_by_shared_spec : ra_sub_public_by_shared k s id = ra_add_public ⟨-s.a, -s.b⟩ k id := by
  unfold ra_sub_public_by_shared; simp only [add_public_spec, neg']; try (cases id <;> op)
theorem add_mul_public_spec : ra_add_mul_public s t k = ⟨s.a + t.a * k, s.b + t.b * k⟩ := by
  unfold ra_add_mul_public; simp [add_spec, mul_public_spec]
theorem promote_spec : ra_promote_to_trivial_share id v = match id with
    | .ID0 => ⟨v, 0⟩ | .ID1 => ⟨0, v⟩ | .ID2 => ⟨0, 0⟩ := by unfold ra_promote_to_trivial_share; cases id <;> op
theorem div_public_spec : ra_div_shared_by_public s k = if k = 0 then .error .err else .ok ⟨s.a * k⁻¹, s.b * k⁻¹⟩ := by
  unfold ra_div_shared_by_public
  by_cases h : k = 0
  · subst h; simp
  · simp [h, mul_public_spec]
theorem add_vec_spec (l r : List (Rep3PrimeFieldShare F)) (h : l.length = r.length) :
    ra_add_vec_assign l r = List.zipWith (fun s t => ⟨s.a + t.a, s.b + t.b⟩) l r := by
  unfold ra_add_vec_assign; simp [List.zip, List.map_zipWith, h]
theorem sub_vec_spec (l r : List (Rep3PrimeFieldShare F)) (h : l.length = r.length) :
    ra_sub_vec_assign l r = List.zipWith (fun s t => ⟨s.a - t.a, s.b - t.b⟩) l r := by
  unfold ra_sub_vec_assign; simp [List.zip, List.map_zipWith, h]
end

/-! ## polynomial evaluation -/
theorem horner_spec (cs : List (Rep3PrimeFieldShare F)) (x : F) : rpoly_horner_evaluate cs x = ⟨peval x (cs.map (·.a)), peval x (cs.map (·.b))⟩ := by
  unfold rpoly_horner_evaluate
  simp only [rf_zero_share_spec, add_spec, mul_public_spec]
  induction cs with
  | nil => rfl
  | cons c cs ih => simp only [List.reverse_cons, List.foldl_append, List.foldl_cons, List.foldl_nil, ih, List.map_cons, peval_cons, smul_eq_mul]; ext <;> simp <;> ring
theorem foldl_add_shares (l : List (Rep3PrimeFieldShare F)) (z : Rep3PrimeFieldShare F) :
    l.foldl (fun acc e => ra_add acc e) z = ⟨z.a + (l.map (·.a)).sum, z.b + (l.map (·.b)).sum⟩ := by
  induction l generalizing z with
  | nil => simp
  | cons a l ih => rw [List.foldl_cons, ih, add_spec]; simp [add_assoc]
theorem eval_poly_spec (cs : List (Rep3PrimeFieldShare F)) (x : F) :
    rpoly_eval_poly cs x = .ok ⟨peval x (cs.map (·.a)), peval x (cs.map (·.b))⟩ := by
  unfold rpoly_eval_poly
  rcases eq_or_ne cs [] with h | h
  · subst h; simp [rf_zero_share_spec]
  have he : cs.isEmpty = false := by simpa using h
  have hl : ¬ (cs.length = 0) := by simpa using h
  by_cases hx : x = 0
  · subst hx
    obtain ⟨c, cs, rfl⟩ := List.exists_cons_of_ne_nil h
    simp [idx]
  · have hth := numThreads_pos
    simp only [he, Bool.false_eq_true, beq_iff_eq, hx, hl, if_false, rdiv, hth.ne', ok_bind, pure_eq]
    generalize hm : max (cs.length / numThreads) 16 = m
    have hm0 : 0 < m := by omega
    have hb : cs.length ≤ (cs.length + m - 1) / m * m := by
      have := Nat.div_add_mod (cs.length + m - 1) m
      have h2 := Nat.mod_lt (cs.length + m - 1) hm0
      rw [Nat.mul_comm]; omega
    simp only [foldl_add_shares, rf_zero_share_spec, horner_spec, zero_add, List.map_map]
    have H : ∀ p : Rep3PrimeFieldShare F → F, peval x (cs.map p) = ((renum (toChunks m cs)).map (fun q => peval x (q.2.map p) * x ^ (q.1 * m))).sum := by
      intro p
      rw [← chunks_peval x m hm0 (cs.map p) ((cs.length + m - 1) / m) (by rw [List.length_map]; exact hb)]
      congr 1
      simp only [renum, toChunks, hm0.ne', if_false, List.map_map]
      apply List.ext_getElem <;> simp [Function.comp_def, List.map_drop, List.map_take]
    rw [H (·.a), H (·.b)]
    rfl

/-! ## The property.  `Rp x s`: the three parties' shares `s` are consistent and combine to `x`. -/
structure Rp (x : F) (s : PartyID → Rep3PrimeFieldShare F) : Prop where
  con : ∀ i, (s (pid_next i)).b = (s i).a
  val : r3_combine_field_element (s .ID0) (s .ID1) (s .ID2) = x

theorem combine_spec (s t u : Rep3PrimeFieldShare F) : r3_combine_field_element s t u = s.a + t.a + u.a := by
  unfold r3_combine_field_element; first | rfl | ring
theorem Rp.mk' {x : F} {s : PartyID → Rep3PrimeFieldShare F} (h0 : (s .ID1).b = (s .ID0).a) (h1 : (s .ID2).b = (s .ID1).a)
    (h2 : (s .ID0).b = (s .ID2).a) (h : (s .ID0).a + (s .ID1).a + (s .ID2).a = x) : Rp x s :=
  ⟨fun i => by cases i <;> simpa [next_spec], by rw [combine_spec]; exact h⟩
theorem Rp.c0 {x : F} {s} (h : Rp x s) : (s .ID1).b = (s .ID0).a := by simpa [next_spec] using h.con .ID0
theorem Rp.c1 {x : F} {s} (h : Rp x s) : (s .ID2).b = (s .ID1).a := by simpa [next_spec] using h.con .ID1
theorem Rp.c2 {x : F} {s} (h : Rp x s) : (s .ID0).b = (s .ID2).a := by simpa [next_spec] using h.con .ID2
theorem Rp.v {x : F} {s} (h : Rp x s) : (s .ID0).a + (s .ID1).a + (s .ID2).a = x := by rw [← combine_spec]; exact h.val

section
variable {x y : F} {s t : PartyID → Rep3PrimeFieldShare F} (k : F)
theorem add (hs : Rp x s) (ht : Rp y t) : Rp (x + y) (fun i => ra_add (s i) (t i)) := by
  refine .mk' ?_ ?_ ?_ ?_ <;> simp only [add_spec, hs.c0, hs.c1, hs.c2, ht.c0, ht.c1, ht.c2]
  linear_combination hs.v + ht.v
theorem sub (hs : Rp x s) (ht : Rp y t) : Rp (x - y) (fun i => ra_sub (s i) (t i)) := by
  refine .mk' ?_ ?_ ?_ ?_ <;> simp only [sub_spec, hs.c0, hs.c1, hs.c2, ht.c0, ht.c1, ht.c2]
  linear_combination hs.v - ht.v
theorem neg (hs : Rp x s) : Rp (-x) (fun i => ra_neg (s i)) := by
  refine .mk' ?_ ?_ ?_ ?_ <;> simp only [neg_spec, hs.c0, hs.c1, hs.c2]
  linear_combination -hs.v
theorem double (hs : Rp x s) : Rp (2 * x) (fun i => rf_double (s i)) := by
  refine .mk' ?_ ?_ ?_ ?_ <;> simp only [rf_double_spec, hs.c0, hs.c1, hs.c2]
  linear_combination 2 * hs.v
theorem double_in_place (hs : Rp x s) : Rp (2 * x) (fun i => rf_double_in_place (s i)) := by
  simpa only [rf_double_spec, rf_double_in_place_spec] using double hs
theorem mul_public (hs : Rp x s) : Rp (x * k) (fun i => ra_mul_public (s i) k) := by
  refine .mk' ?_ ?_ ?_ ?_ <;> simp only [mul_public_spec, hs.c0, hs.c1, hs.c2]
  linear_combination k * hs.v
theorem add_public (hs : Rp x s) : Rp (x + k) (fun i => ra_add_public (s i) k i) := by
  refine .mk' ?_ ?_ ?_ ?_ <;> simp only [add_public_spec, hs.c0, hs.c1, hs.c2]
  linear_combination hs.v
theorem add_assign_public (hs : Rp x s) : Rp (x + k) (fun i => ra_add_assign_public (s i) k i) := by
  simpa only [add_assign_public_spec] using add_public k hs
theorem sub_shared_by_public (hs : Rp x s) : Rp (x - k) (fun i => ra_sub_shared_by_public (s i) k i) := by
  simpa only [sub_shared_by_public_spec, sub_eq_add_neg] using add_public (-k) hs
theorem sub_public_by_shared (hs : Rp x s) : Rp (k - x) (fun i => ra_sub_public_by_shared k (s i) i) := by
  have := add_public k (neg hs)
  simp only [sub_public_by_shared_spec, neg_spec] at this ⊢
  rwa [sub_eq_add_neg, add_comm]
theorem add_mul_public (hs : Rp x s) (ht : Rp y t) : Rp (x + y * k) (fun i => ra_add_mul_public (s i) (t i) k) := by
  have := add hs (mul_public k ht)
  simpa only [add_mul_public_spec, add_spec, mul_public_spec] using this
theorem promote : Rp k (fun i => ra_promote_to_trivial_share i k) := by
  refine .mk' ?_ ?_ ?_ ?_ <;> simp [promote_spec]
theorem promote_from_trivial : Rp k (fun i => rf_promote_from_trivial k i) := by
  refine .mk' ?_ ?_ ?_ ?_ <;> simp [rf_promote_spec]
theorem promote_from_trivial_with_scalar (r : F) : Rp k (fun i => rf_promote_from_trivial_with_scalar k r i) := by
  refine .mk' ?_ ?_ ?_ ?_ <;> simp [rf_promote_with_spec]
theorem zero : Rp (0 : F) (fun _ => rf_zero_share) := by
  refine .mk' ?_ ?_ ?_ ?_ <;> simp [rf_zero_share_spec]
theorem div_public (hs : Rp x s) (hk : k ≠ 0) : ∃ r, (∀ i, ra_div_shared_by_public (s i) k = .ok (r i)) ∧ Rp (x / k) r := by
  refine ⟨_, fun i => by rw [div_public_spec, if_neg hk], ?_⟩
  simpa only [mul_public_spec, div_eq_mul_inv] using mul_public k⁻¹ hs
theorem div_public_zero (i : PartyID) : ra_div_shared_by_public (s i) 0 = .error .err := by rw [div_public_spec, if_pos rfl]
/-- the local product terms sum to the product -/
theorem mul_local (hs : Rp x s) (ht : Rp y t) : s .ID0 * t .ID0 + s .ID1 * t .ID1 + s .ID2 * t .ID2 = x * y := by
  simp only [hmul, hs.c0, hs.c1, hs.c2, ht.c0, ht.c1, ht.c2, ← hs.v, ← ht.v]; ring
end

/-- a shared polynomial evaluated at a public point, for every number of coefficients and threads -/
theorem eval_poly (xs : List F) (cs : PartyID → List (Rep3PrimeFieldShare F)) (y : F)
    (h : ∀ i, (cs i).length = xs.length)
    (hc : ∀ j (hj : j < xs.length), Rp xs[j] (fun i => (cs i)[j]'(by rw [h]; exact hj))) :
    ∃ r, (∀ i, rpoly_eval_poly (cs i) y = .ok (r i)) ∧ Rp (peval y xs) r := by
  refine ⟨_, fun i => eval_poly_spec (cs i) y, ?_⟩
  have hb : ∀ i, (cs (pid_next i)).map (·.b) = (cs i).map (·.a) := by
    intro i
    apply List.ext_getElem
    · simp [h]
    · intro j h1 h2
      simp only [List.getElem_map]
      exact (hc j (by simpa [h] using h1)).con i
  constructor
  · intro i; simp only [hb]
  · rw [combine_spec]
    have hx : xs = List.zipWith (· + ·) (List.zipWith (· + ·) ((cs .ID0).map (·.a)) ((cs .ID1).map (·.a))) ((cs .ID2).map (·.a)) := by
      apply List.ext_getElem
      · simp [h]
      · intro j h1 h2
        simp only [List.getElem_zipWith, List.getElem_map]
        exact (hc j h1).v.symm
    have hz : ∀ l m : List F, l.length = m.length → peval y (List.zipWith (· + ·) l m) = peval y l + peval y m := by
      intro l
      induction l with
      | nil => intro m hm; obtain rfl : m = [] := by simpa using hm.symm
               simp
      | cons a l ih =>
        intro m hm
        cases m with
        | nil => simp at hm
        | cons b m => simp only [List.zipWith_cons_cons, peval_cons, ih m (by simpa using hm), smul_eq_mul]; ring
    conv_rhs => rw [hx, hz _ _ (by simp [h]), hz _ _ (by simp [h])]

/-! ### sharing and combining -/
theorem share_field_element (x : F) (rng : Rng) : ∃ s rng', r3_share_field_element x rng = ([s .ID0, s .ID1, s .ID2], rng') ∧ Rp x s := by
  unfold r3_share_field_element
  simp only [rf_new_spec, psub_group]
  refine ⟨fun i => match i with | .ID0 => ⟨_, _⟩ | .ID1 => ⟨_, _⟩ | .ID2 => ⟨_, _⟩, _, rfl, ?_⟩
  refine .mk' ?_ ?_ ?_ ?_ <;> simp
theorem combine_field_elements (a b c : List (Rep3PrimeFieldShare F)) : r3_combine_field_elements a b c =
    if a.length = b.length ∧ b.length = c.length then .ok (List.zipWith (· + ·) (List.zipWith (· + ·) (a.map (·.a)) (b.map (·.a))) (c.map (·.a))) else .error .panic := by
  unfold r3_combine_field_elements multizip3
  by_cases h1 : a.length = b.length
  · by_cases h2 : b.length = c.length
    · simp only [h1, h2, beq_self_eq_true, Bool.not_true, if_false, Bool.false_eq_true, and_self, if_true, pure_eq]
      congr 1
      apply List.ext_getElem <;> simp [h1, h2]
    · simp [h1, h2]
  · simp [h1]
end C06
