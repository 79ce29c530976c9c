import C06
import Rep3Pt
set_option linter.all false
set_option autoImplicit false
open Rs Rs.Rep3Ops
namespace C08
variable {F : Type} [Field F] [DecidableEq F] {G : Type} [AddCommGroup G] [Module F G] [DecidableEq G]

local macro "op" : tactic => `(tactic| first | rfl | (ext <;> simp; done) | (ext <;> simp <;> abel) | (simp; done) | (simp; abel))

/-! ## Contracts of the operators -/
section
variable (p q : Rep3PointShare G) (s : Rep3PrimeFieldShare F) (k : F) (g v : G) (id : PartyID)
theorem rp_add_spec : rp_add p q = ⟨p.a + q.a, p.b + q.b⟩ := by unfold rp_add; op
theorem rp_add_r_spec : rp_add_rRep3PointShare p q = ⟨p.a + q.a, p.b + q.b⟩ := by unfold rp_add_rRep3PointShare; op
theorem rp_add_rr_spec : rp_add_ref_rRep3PointShare p q = ⟨p.a + q.a, p.b + q.b⟩ := by unfold rp_add_ref_rRep3PointShare; op
theorem rp_add_assign_spec : rp_add_assign_rRep3PointShare p q = ⟨p.a + q.a, p.b + q.b⟩ := by unfold rp_add_assign_rRep3PointShare; op
theorem rp_sub_spec : rp_sub p q = ⟨p.a - q.a, p.b - q.b⟩ := by unfold rp_sub; op
theorem rp_sub_r_spec : rp_sub_rRep3PointShare p q = ⟨p.a - q.a, p.b - q.b⟩ := by unfold rp_sub_rRep3PointShare; op
theorem rp_sub_rr_spec : rp_sub_ref_rRep3PointShare p q = ⟨p.a - q.a, p.b - q.b⟩ := by unfold rp_sub_ref_rRep3PointShare; op
theorem rp_sub_assign_spec : rp_sub_assign_rRep3PointShare p q = ⟨p.a - q.a, p.b - q.b⟩ := by unfold rp_sub_assign_rRep3PointShare; op
theorem rp_mul_spec : rp_mul_ref_vCScalarField p k = ⟨k • p.a, k • p.b⟩ := by unfold rp_mul_ref_vCScalarField; op
theorem rp_mul_share_spec : rp_mul_rRep3PointShare s p = s.a • p.a + s.a • p.b + s.b • p.a := by
  unfold rp_mul_rRep3PointShare; simp only [point_mul] <;> first | rfl | abel | (module)
theorem rp_neg_spec : rp_neg p = ⟨-p.a, -p.b⟩ := by unfold rp_neg; op
theorem rp_new_spec : rp_new g v = ⟨g, v⟩ := by unfold rp_new; op
theorem rp_zero_share_spec : (rp_zero_share : Rep3PointShare G) = ⟨0, 0⟩ := by unfold rp_zero_share; op
theorem rp_ab_spec : rp_ab p = (p.a, p.b) := by unfold rp_ab; op

@[simp] theorem hadd : p + q = ⟨p.a + q.a, p.b + q.b⟩ := rp_add_spec p q
@[simp] theorem hsub : p - q = ⟨p.a - q.a, p.b - q.b⟩ := rp_sub_spec p q
@[simp] theorem psub' : psub p q = (⟨p.a - q.a, p.b - q.b⟩ : Rep3PointShare G) := rp_sub_spec p q
@[simp] theorem hmul : p * k = ⟨k • p.a, k • p.b⟩ := rp_mul_spec p k
@[simp] theorem hmul_share : s * p = s.a • p.a + s.a • p.b + s.b • p.a := rp_mul_share_spec p s
@[simp] theorem neg' : -p = ⟨-p.a, -p.b⟩ := rp_neg_spec p
attribute [local simp] rp_new_spec rp_zero_share_spec point_mul

theorem add_spec : rq_add p q = ⟨p.a + q.a, p.b + q.b⟩ := by unfold rq_add; op
theorem sub_spec : rq_sub p q = ⟨p.a - q.a, p.b - q.b⟩ := by unfold rq_sub; op
theorem add_assign_spec : rq_add_assign p q = ⟨p.a + q.a, p.b + q.b⟩ := by unfold rq_add_assign; op
theorem sub_assign_spec : rq_sub_assign p q = ⟨p.a - q.a, p.b - q.b⟩ := by unfold rq_sub_assign; op
theorem add_assign_public_spec : rq_add_assign_public p g id = match id with
    | .ID0 => ⟨p.a + g, p.b⟩ | .ID1 => ⟨p.a, p.b + g⟩ | .ID2 => p := by unfold rq_add_assign_public; cases id <;> op
theorem sub_assign_public_spec : rq_sub_assign_public p g id = match id with
    | .ID0 => ⟨p.a - g, p.b⟩ | .ID1 => ⟨p.a, p.b - g⟩ | .ID2 => p := by unfold rq_sub_assign_public; cases id <;> op
theorem scalar_mul_public_point_spec : rq_scalar_mul_public_point g s = ⟨s.a • g, s.b • g⟩ := by unfold rq_scalar_mul_public_point; op
theorem scalar_mul_public_scalar_spec : rq_scalar_mul_public_scalar p k = ⟨k • p.a, k • p.b⟩ := by unfold rq_scalar_mul_public_scalar; op
theorem msm_spec (gs : List G) (ss : List (Rep3PrimeFieldShare F)) : rq_msm_public_points gs ss =
    ⟨(List.zipWith (fun g s => s.a • g) gs ss).sum, (List.zipWith (fun g s => s.b • g) gs ss).sum⟩ := by
  unfold rq_msm_public_points msm; simp [List.zipWith_map_right, List.unzip_eq_map]
end

/-! ## The property.  `Rq x p`: the three parties' shares `p` of a group element are consistent and combine to `x`. -/
structure Rq (x : G) (p : PartyID → Rep3PointShare G) : Prop where
  con : ∀ i, (p (pid_next i)).b = (p i).a
  val : r3_combine_curve_point (p .ID0) (p .ID1) (p .ID2) = x
theorem combine_spec (s t u : Rep3PointShare G) : r3_combine_curve_point s t u = s.a + t.a + u.a := by
  unfold r3_combine_curve_point; first | rfl | abel
theorem Rq.mk' {x : G} {s : PartyID → Rep3PointShare G} (h0 : (s .ID1).b = (s .ID0).a) (h1 : (s .ID2).b = (s .ID1).a)
    (h2 : (s .ID0).b = (s .ID2).a) (h : (s .ID0).a + (s .ID1).a + (s .ID2).a = x) : Rq x s :=
  ⟨fun i => by cases i <;> simpa [C06.next_spec], by rw [combine_spec]; exact h⟩
theorem Rq.c0 {x : G} {s} (h : Rq x s) : (s .ID1).b = (s .ID0).a := by simpa [C06.next_spec] using h.con .ID0
theorem Rq.c1 {x : G} {s} (h : Rq x s) : (s .ID2).b = (s .ID1).a := by simpa [C06.next_spec] using h.con .ID1
theorem Rq.c2 {x : G} {s} (h : Rq x s) : (s .ID0).b = (s .ID2).a := by simpa [C06.next_spec] using h.con .ID2
theorem Rq.v {x : G} {s} (h : Rq x s) : (s .ID0).a + (s .ID1).a + (s .ID2).a = x := by rw [← combine_spec]; exact h.val

section
variable {x y : G} {p q : PartyID → Rep3PointShare G} {c : F} {s : PartyID → Rep3PrimeFieldShare F} (k : F) (g : G)
theorem add (hp : Rq x p) (hq : Rq y q) : Rq (x + y) (fun i => rq_add (p i) (q i)) := by
  refine .mk' ?_ ?_ ?_ ?_ <;> simp only [add_spec, hp.c0, hp.c1, hp.c2, hq.c0, hq.c1, hq.c2]
  rw [← hp.v, ← hq.v]; abel
theorem sub (hp : Rq x p) (hq : Rq y q) : Rq (x - y) (fun i => rq_sub (p i) (q i)) := by
  refine .mk' ?_ ?_ ?_ ?_ <;> simp only [sub_spec, hp.c0, hp.c1, hp.c2, hq.c0, hq.c1, hq.c2]
  rw [← hp.v, ← hq.v]; abel
theorem neg (hp : Rq x p) : Rq (-x) (fun i => -(p i)) := by
  refine .mk' ?_ ?_ ?_ ?_ <;> simp only [neg', hp.c0, hp.c1, hp.c2]
  rw [← hp.v]; abel
theorem add_public (hp : Rq x p) : Rq (x + g) (fun i => rq_add_assign_public (p i) g i) := by
  refine .mk' ?_ ?_ ?_ ?_ <;> simp only [add_assign_public_spec, hp.c0, hp.c1, hp.c2]
  rw [← hp.v]; abel
theorem sub_public (hp : Rq x p) : Rq (x - g) (fun i => rq_sub_assign_public (p i) g i) := by
  refine .mk' ?_ ?_ ?_ ?_ <;> simp only [sub_assign_public_spec, hp.c0, hp.c1, hp.c2]
  rw [← hp.v]; abel
theorem scale (hp : Rq x p) : Rq (k • x) (fun i => rq_scalar_mul_public_scalar (p i) k) := by
  refine .mk' ?_ ?_ ?_ ?_ <;> simp only [scalar_mul_public_scalar_spec, hp.c0, hp.c1, hp.c2]
  rw [← hp.v]; simp only [smul_add]
theorem public_point (hs : C06.Rp c s) : Rq (c • g) (fun i => rq_scalar_mul_public_point g (s i)) := by
  refine .mk' ?_ ?_ ?_ ?_ <;> simp only [scalar_mul_public_point_spec, hs.c0, hs.c1, hs.c2]
  rw [← hs.v]; simp only [add_smul]
theorem zero : Rq (0 : G) (fun _ => rp_zero_share) := by
  refine .mk' ?_ ?_ ?_ ?_ <;> simp [rp_zero_share_spec]
/-- promotion, whatever group element the code masks with -/
theorem promote (gen : G) : Rq g (fun i => rq_promote_to_trivial_share gen i g) := by
  by_cases h : g = 0
  · subst h
    refine .mk' ?_ ?_ ?_ ?_ <;> simp [rq_promote_to_trivial_share, rp_new_spec]
    try abel
  · refine .mk' ?_ ?_ ?_ ?_ <;> simp [rq_promote_to_trivial_share, rp_new_spec, h]
/-- the local products of a shared scalar and a shared point sum to the scaled point -/
theorem mul_local (hs : C06.Rp c s) (hp : Rq x p) : s .ID0 * p .ID0 + s .ID1 * p .ID1 + s .ID2 * p .ID2 = c • x := by
  simp only [hmul_share, hs.c0, hs.c1, hs.c2, hp.c0, hp.c1, hp.c2, ← hs.v, ← hp.v, smul_add, add_smul]; abel
theorem msm (gs : List G) (cs : List F) (ss : PartyID → List (Rep3PrimeFieldShare F)) (h : ∀ i, (ss i).length = cs.length)
    (hc : ∀ j (hj : j < cs.length), C06.Rp cs[j] (fun i => (ss i)[j]'(by rw [h]; exact hj))) :
    Rq (List.zipWith (fun g c => c • g) gs cs).sum (fun i => rq_msm_public_points gs (ss i)) := by
  simp only [msm_spec]
  have hb : ∀ i, List.zipWith (fun g (s : Rep3PrimeFieldShare F) => s.b • g) gs (ss (pid_next i)) = List.zipWith (fun g (s : Rep3PrimeFieldShare F) => s.a • g) gs (ss i) := by
    intro i
    apply List.ext_getElem
    · simp [h]
    · intro j h1 h2
      simp only [List.getElem_zipWith]
      rw [← (hc j (by simp [h] at h1; omega)).con i]
  constructor
  · intro i; simp only [hb]
  · simp only [combine_spec]
    have hs : ∀ a b : List G, a.length = b.length → a.sum + b.sum = (List.zipWith (· + ·) a b).sum := by
      intro a
      induction a with
      | nil => intro b hb; obtain rfl : b = [] := by simpa using hb.symm
               simp
      | cons x a ih =>
        intro b hb
        cases b with
        | nil => simp at hb
        | cons y b => simp only [List.zipWith_cons_cons, List.sum_cons, ← ih b (by simpa using hb)]; abel
    rw [hs _ _ (by simp [h]), hs _ _ (by simp [h])]
    congr 1
    apply List.ext_getElem
    · simp [h]
    · intro j h1 h2
      simp only [List.getElem_zipWith, ← add_smul]
      rw [(hc j (by simp at h2; omega)).v]
end
theorem share_curve_point (x : G) (rng : Rng) : ∃ s rng', r3_share_curve_point x rng = ([s .ID0, s .ID1, s .ID2], rng') ∧ Rq x s := by
  unfold r3_share_curve_point
  simp only [rp_new_spec, psub_group]
  refine ⟨fun i => match i with | .ID0 => ⟨_, _⟩ | .ID1 => ⟨_, _⟩ | .ID2 => ⟨_, _⟩, _, rfl, ?_⟩
  refine .mk' ?_ ?_ ?_ ?_ <;> simp
theorem combine_curve_points (a b c : List (Rep3PointShare G)) : r3_combine_curve_points a b c =
    if a.length = b.length ∧ b.length = c.length then .ok (List.zipWith (· + ·) (List.zipWith (· + ·) (a.map (·.a)) (b.map (·.a))) (c.map (·.a))) else .error .panic := by
  unfold r3_combine_curve_points multizip3
  by_cases h1 : a.length = b.length
  · by_cases h2 : b.length = c.length
    · simp only [h1, h2, beq_self_eq_true, Bool.not_true, if_false, Bool.false_eq_true, and_self, if_true, pure_eq]
      congr 1
      apply List.ext_getElem <;> simp [h1, h2]
    · simp [h1, h2]
  · simp [h1]
end C08
