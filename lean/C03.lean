import PolyFn
import ShamirArith
set_option linter.all false
set_option autoImplicit false
open Rs Rs.ShamirOps
namespace C03
variable {F : Type} [Field F] [DecidableEq F] {G : Type} [AddCommGroup G] [Module F G] [DecidableEq G]

/-! ## Contracts of the operator implementations: every form (owned, by reference, assigning) is the same operation -/
local macro "op" : tactic => `(tactic| first | rfl | (ext; simp; done) | (ext <;> simp <;> ring) | (ext <;> simp <;> abel))

section
variable (s t : ShamirPrimeFieldShare F) (k : F) (p q : ShamirPointShare G)
theorem fs_add_spec : fs_add s t = ⟨s.a + t.a⟩ := by unfold fs_add; op
theorem fs_add_assign_spec : fs_add_assign s t = ⟨s.a + t.a⟩ := by unfold fs_add_assign; op
theorem fs_add_assign_r_spec : fs_add_assign_rShamirPrimeFieldShare s t = ⟨s.a + t.a⟩ := by unfold fs_add_assign_rShamirPrimeFieldShare; op
theorem fs_add_r_spec : fs_add_rShamirPrimeFieldShare s t = ⟨s.a + t.a⟩ := by unfold fs_add_rShamirPrimeFieldShare; op
theorem fs_add_rr_spec : fs_add_ref_rShamirPrimeFieldShare s t = ⟨s.a + t.a⟩ := by unfold fs_add_ref_rShamirPrimeFieldShare; op
theorem fs_add_pub_r_spec : fs_add_ref_rF s k = ⟨s.a + k⟩ := by unfold fs_add_ref_rF; op
theorem fs_add_pub_spec : fs_add_vF s k = ⟨s.a + k⟩ := by unfold fs_add_vF; op
theorem fs_add_assign_pub_spec : fs_add_assign_vF s k = ⟨s.a + k⟩ := by unfold fs_add_assign_vF; op
theorem fs_sub_spec : fs_sub s t = ⟨s.a - t.a⟩ := by unfold fs_sub; op
theorem fs_sub_assign_spec : fs_sub_assign s t = ⟨s.a - t.a⟩ := by unfold fs_sub_assign; op
theorem fs_sub_r_spec : fs_sub_rShamirPrimeFieldShare s t = ⟨s.a - t.a⟩ := by unfold fs_sub_rShamirPrimeFieldShare; op
theorem fs_sub_rr_spec : fs_sub_ref_rShamirPrimeFieldShare s t = ⟨s.a - t.a⟩ := by unfold fs_sub_ref_rShamirPrimeFieldShare; op
theorem fs_mul_spec : fs_mul s t = ⟨s.a * t.a⟩ := by unfold fs_mul; op
theorem fs_mul_r_spec : fs_mul_rShamirPrimeFieldShare s t = ⟨s.a * t.a⟩ := by unfold fs_mul_rShamirPrimeFieldShare; op
theorem fs_mul_rr_spec : fs_mul_ref_rShamirPrimeFieldShare s t = ⟨s.a * t.a⟩ := by unfold fs_mul_ref_rShamirPrimeFieldShare; op
theorem fs_mul_pub_r_spec : fs_mul_ref_rF s k = ⟨s.a * k⟩ := by unfold fs_mul_ref_rF; op
theorem fs_mul_pub_spec : fs_mul_vF s k = ⟨s.a * k⟩ := by unfold fs_mul_vF; op
theorem fs_mul_assign_pub_spec : fs_mul_assign_vF s k = ⟨s.a * k⟩ := by unfold fs_mul_assign_vF; op
theorem fs_neg_spec : fs_neg s = ⟨-s.a⟩ := by unfold fs_neg; op
theorem fs_neg_ref_spec : fs_neg_ref s = ⟨-s.a⟩ := by unfold fs_neg_ref; op
theorem fs_zero_spec : (fs_zero : ShamirPrimeFieldShare F) = ⟨0⟩ := by unfold fs_zero; op
theorem fs_zero_share_spec : (fs_zero_share : ShamirPrimeFieldShare F) = ⟨0⟩ := by unfold fs_zero_share; op
theorem fs_new_spec : fs_new k = ⟨k⟩ := by unfold fs_new; op
theorem fs_inner_spec : fs_inner s = s.a := by unfold fs_inner; op
theorem ps_add_spec : ps_add p q = ⟨p.a + q.a⟩ := by unfold ps_add; op
theorem ps_add_r_spec : ps_add_rShamirPointShare p q = ⟨p.a + q.a⟩ := by unfold ps_add_rShamirPointShare; op
theorem ps_add_rr_spec : ps_add_ref_rShamirPointShare p q = ⟨p.a + q.a⟩ := by unfold ps_add_ref_rShamirPointShare; op
theorem ps_add_assign_spec : ps_add_assign_rShamirPointShare p q = ⟨p.a + q.a⟩ := by unfold ps_add_assign_rShamirPointShare; op
theorem ps_sub_spec : ps_sub p q = ⟨p.a - q.a⟩ := by unfold ps_sub; op
theorem ps_sub_r_spec : ps_sub_rShamirPointShare p q = ⟨p.a - q.a⟩ := by unfold ps_sub_rShamirPointShare; op
theorem ps_sub_rr_spec : ps_sub_ref_rShamirPointShare p q = ⟨p.a - q.a⟩ := by unfold ps_sub_ref_rShamirPointShare; op
theorem ps_sub_assign_spec : ps_sub_assign_rShamirPointShare p q = ⟨p.a - q.a⟩ := by unfold ps_sub_assign_rShamirPointShare; op
theorem ps_mul_pub_spec : ps_mul_ref_rCScalarField p k = ⟨k • p.a⟩ := by unfold ps_mul_ref_rCScalarField; simp only [point_mul]
theorem ps_mul_share_spec : ps_mul_rShamirPointShare s p = ⟨s.a • p.a⟩ := by unfold ps_mul_rShamirPointShare; simp only [point_mul]
theorem ps_new_spec (g : G) : ps_new g = ⟨g⟩ := by unfold ps_new; op
theorem ps_inner_spec : ps_inner p = p.a := by unfold ps_inner; op
end

/-! ## Contracts of the functions of `arithmetic.rs`, `pointshare.rs`, `poly.rs` -/
section
variable (s t : ShamirPrimeFieldShare F) (k : F) (p q : ShamirPointShare G) (g : G)
@[simp] theorem hadd_fs : s + t = ⟨s.a + t.a⟩ := fs_add_spec s t
@[simp] theorem hadd_pub : s + k = ⟨s.a + k⟩ := fs_add_pub_spec s k
@[simp] theorem hsub_fs : s - t = ⟨s.a - t.a⟩ := fs_sub_spec s t
@[simp] theorem psub_fs : psub s t = (⟨s.a - t.a⟩ : ShamirPrimeFieldShare F) := fs_sub_spec s t
@[simp] theorem hmul_fs : s * t = ⟨s.a * t.a⟩ := fs_mul_spec s t
@[simp] theorem hmul_pub : s * k = ⟨s.a * k⟩ := fs_mul_pub_spec s k
@[simp] theorem neg_fs : -s = ⟨-s.a⟩ := fs_neg_spec s
@[simp] theorem hadd_ps : p + q = ⟨p.a + q.a⟩ := ps_add_spec p q
@[simp] theorem hsub_ps : p - q = ⟨p.a - q.a⟩ := ps_sub_spec p q
@[simp] theorem psub_ps : psub p q = (⟨p.a - q.a⟩ : ShamirPointShare G) := ps_sub_spec p q
@[simp] theorem hmul_ps : p * k = ⟨k • p.a⟩ := ps_mul_pub_spec k p
@[simp] theorem hmul_share_ps : s * p = ⟨s.a • p.a⟩ := ps_mul_share_spec s p
attribute [local simp] point_mul fs_new_spec ps_new_spec fs_zero_share_spec overwrite

theorem add_spec : ar_add s t = ⟨s.a + t.a⟩ := by unfold ar_add; simp
theorem add_assign_spec : ar_add_assign s t = ⟨s.a + t.a⟩ := by unfold ar_add_assign; simp
theorem sub_spec : ar_sub s t = ⟨s.a - t.a⟩ := by unfold ar_sub; simp
theorem sub_assign_spec : ar_sub_assign s t = ⟨s.a - t.a⟩ := by unfold ar_sub_assign; simp
theorem add_public_spec : ar_add_public s k = ⟨s.a + k⟩ := by unfold ar_add_public; simp
theorem add_assign_public_spec : ar_add_assign_public s k = ⟨s.a + k⟩ := by unfold ar_add_assign_public; simp
theorem mul_public_spec : ar_mul_public s k = ⟨s.a * k⟩ := by unfold ar_mul_public; simp
theorem mul_assign_public_spec : ar_mul_assign_public s k = ⟨s.a * k⟩ := by unfold ar_mul_assign_public; simp
theorem neg_spec : ar_neg s = ⟨-s.a⟩ := by unfold ar_neg; simp
theorem promote_spec : ar_promote_to_trivial_share k = ⟨k⟩ := by unfold ar_promote_to_trivial_share; simp
theorem promotes_spec (l : List F) : ar_promote_to_trivial_shares l = l.map .mk := by unfold ar_promote_to_trivial_shares; rfl
theorem div_public_spec : ar_div_shared_by_public s k = if k = 0 then .error .err else .ok ⟨s.a * k⁻¹⟩ := by
  unfold ar_div_shared_by_public
  by_cases h : k = 0
  · subst h; simp
  · simp [h, mul_public_spec]
theorem add_vec_spec (l r : List (ShamirPrimeFieldShare F)) (h : l.length = r.length) :
    ar_add_vec_assign l r = List.zipWith (fun s t => ⟨s.a + t.a⟩) l r := by
  unfold ar_add_vec_assign; simp [List.zip, List.map_zipWith, h]
theorem sub_vec_spec (l r : List (ShamirPrimeFieldShare F)) (h : l.length = r.length) :
    ar_sub_vec_assign l r = List.zipWith (fun s t => ⟨s.a - t.a⟩) l r := by
  unfold ar_sub_vec_assign; simp [List.zip, List.map_zipWith, h]
theorem local_mul_vec_spec (l r : List (ShamirPrimeFieldShare F)) (h : l.length = r.length) :
    ar_local_mul_vec l r = .ok (List.zipWith (fun s t => s.a * t.a) l r) := by
  unfold ar_local_mul_vec; simp [zipEq, h, List.zip, List.map_zipWith]
theorem pt_add_spec : pt_add p q = ⟨p.a + q.a⟩ := by unfold pt_add; simp
theorem pt_sub_spec : pt_sub p q = ⟨p.a - q.a⟩ := by unfold pt_sub; simp
theorem pt_add_assign_spec : pt_add_assign p q = ⟨p.a + q.a⟩ := by unfold pt_add_assign; simp
theorem pt_sub_assign_spec : pt_sub_assign p q = ⟨p.a - q.a⟩ := by unfold pt_sub_assign; simp
theorem pt_add_assign_public_spec : pt_add_assign_public p g = ⟨p.a + g⟩ := by unfold pt_add_assign_public; simp
theorem pt_sub_assign_public_spec : pt_sub_assign_public p g = ⟨p.a - g⟩ := by unfold pt_sub_assign_public; simp
theorem pt_add_assign_public_affine_spec : pt_add_assign_public_affine p g = ⟨p.a + g⟩ := by unfold pt_add_assign_public_affine; simp
theorem pt_sub_assign_public_affine_spec : pt_sub_assign_public_affine p g = ⟨p.a - g⟩ := by unfold pt_sub_assign_public_affine; simp
theorem pt_scalar_mul_public_point_spec : pt_scalar_mul_public_point s g = ⟨s.a • g⟩ := by unfold pt_scalar_mul_public_point; simp
theorem pt_scalar_mul_public_scalar_spec : pt_scalar_mul_public_scalar p k = ⟨k • p.a⟩ := by unfold pt_scalar_mul_public_scalar; simp
theorem pt_scalar_mul_local_spec : pt_scalar_mul_local p s = s.a • p.a := by unfold pt_scalar_mul_local; simp
theorem pt_promote_spec : pt_promote_to_trivial_share g = ⟨g⟩ := by unfold pt_promote_to_trivial_share; simp
theorem pt_msm_spec (gs : List G) (ss : List (ShamirPrimeFieldShare F)) : pt_msm_public_points gs ss = ⟨(List.zipWith (fun g s => s.a • g) gs ss).sum⟩ := by
  unfold pt_msm_public_points msm; simp [List.zipWith_map_right]
end

/-! ### the polynomial evaluation, for every number of threads -/
theorem horner_spec (cs : List (ShamirPrimeFieldShare F)) (x : F) : poly_horner_evaluate cs x = ⟨peval x (cs.map (·.a))⟩ := by
  unfold poly_horner_evaluate
  simp only [fs_zero_share_spec, add_spec, mul_public_spec]
  induction cs with
  | nil => rfl
  | cons c cs ih => simp only [List.reverse_cons, List.foldl_append, List.foldl_cons, List.foldl_nil, ih, List.map_cons, peval_cons, smul_eq_mul]; ext; simp; ring

theorem foldl_add_shares (l : List (ShamirPrimeFieldShare F)) (z : ShamirPrimeFieldShare F) :
    l.foldl (fun acc e => ar_add acc e) z = ⟨z.a + (l.map (·.a)).sum⟩ := by
  induction l generalizing z with
  | nil => simp
  | cons a l ih => rw [List.foldl_cons, ih, add_spec]; simp [add_assoc]

/-- evaluation at a public point, for every coefficient list, every point and every thread count -/
theorem eval_poly_spec (cs : List (ShamirPrimeFieldShare F)) (x : F) :
    poly_eval_poly cs x = .ok ⟨peval x (cs.map (·.a))⟩ := by
  unfold poly_eval_poly
  rcases eq_or_ne cs [] with h | h
  · subst h; simp [fs_zero_share_spec]
  have he : cs.isEmpty = false := by simpa using h
  have hl : ¬ (cs.length = 0) := by simpa using h
  by_cases hx : x = 0
  · subst hx
    obtain ⟨c, cs, rfl⟩ := List.exists_cons_of_ne_nil h
    simp [idx]
  · have hth := numThreads_pos
    simp only [he, Bool.false_eq_true, beq_iff_eq, hx, hl, if_false, rdiv, hth.ne', ok_bind, pure_eq]
    generalize hm : max (cs.length / numThreads) 16 = m
    have hm0 : 0 < m := by omega
    simp only [foldl_add_shares, fs_zero_share_spec, horner_spec, zero_add, List.map_map]
    congr 2
    rw [← chunks_peval x m hm0 (cs.map (·.a)) ((cs.length + m - 1) / m) (by
      rw [List.length_map]
      have := Nat.div_add_mod (cs.length + m - 1) m
      have h2 := Nat.mod_lt (cs.length + m - 1) hm0
      rw [Nat.mul_comm]; omega)]
    congr 1
    simp only [renum, toChunks, hm0.ne', if_false, List.map_map]
    apply List.ext_getElem <;> simp [Function.comp_def, List.map_drop, List.map_take]

/-! ## The property: the operations commute with reconstruction.
`Sh t f x s`: the share `s` of the party at position `x` lies on the degree-`t` polynomial `f`; the secret is `f 0`.
`PolyFn.reconstruct` says that any `t + 1` such shares give `f 0`. -/
def Sh (t : ℕ) (f : F → F) (x : F) (s : ShamirPrimeFieldShare F) : Prop := PolyFn t f ∧ s.a = f x
def ShG (t : ℕ) (f : F → G) (x : F) (s : ShamirPointShare G) : Prop := PolyFn t f ∧ s.a = f x
section
variable {t u : ℕ} {x : F} {f g : F → F} {s r : ShamirPrimeFieldShare F} {P Q : F → G} {p q : ShamirPointShare G} (k : F) (c : G)
theorem sh_add (hs : Sh t f x s) (hr : Sh t g x r) : Sh t (fun x => f x + g x) x (ar_add s r) := ⟨hs.1.add hr.1, by rw [add_spec]; simp [hs.2, hr.2]⟩
theorem sh_sub (hs : Sh t f x s) (hr : Sh t g x r) : Sh t (fun x => f x - g x) x (ar_sub s r) := ⟨hs.1.sub hr.1, by rw [sub_spec]; simp [hs.2, hr.2]⟩
theorem sh_neg (hs : Sh t f x s) : Sh t (fun x => -f x) x (ar_neg s) := ⟨hs.1.neg, by rw [neg_spec]; simp [hs.2]⟩
theorem sh_mul_public (hs : Sh t f x s) : Sh t (fun x => f x * k) x (ar_mul_public s k) := ⟨hs.1.mul_right k, by rw [mul_public_spec]; simp [hs.2]⟩
theorem sh_add_public (hs : Sh t f x s) : Sh t (fun x => f x + k) x (ar_add_public s k) := ⟨hs.1.add (.const t k), by rw [add_public_spec]; simp [hs.2]⟩
theorem sh_promote : Sh t (fun _ => k) x (ar_promote_to_trivial_share k) := ⟨.const t k, by rw [promote_spec]⟩
theorem sh_mul_local (hs : Sh t f x s) (hr : Sh u g x r) : Sh (t + u) (fun x => f x * g x) x (s * r) := ⟨hs.1.mul hr.1, by simp [hs.2, hr.2]⟩
theorem shG_add (hp : ShG t P x p) (hq : ShG t Q x q) : ShG t (fun x => P x + Q x) x (pt_add p q) := ⟨hp.1.add hq.1, by rw [pt_add_spec]; simp [hp.2, hq.2]⟩
theorem shG_sub (hp : ShG t P x p) (hq : ShG t Q x q) : ShG t (fun x => P x - Q x) x (pt_sub p q) := ⟨hp.1.sub hq.1, by rw [pt_sub_spec]; simp [hp.2, hq.2]⟩
theorem shG_add_public (hp : ShG t P x p) : ShG t (fun x => P x + c) x (pt_add_assign_public p c) := ⟨hp.1.add (.const t c), by rw [pt_add_assign_public_spec]; simp [hp.2]⟩
theorem shG_sub_public (hp : ShG t P x p) : ShG t (fun x => P x - c) x (pt_sub_assign_public p c) := ⟨hp.1.sub (.const t c), by rw [pt_sub_assign_public_spec]; simp [hp.2]⟩
theorem shG_scale (hp : ShG t P x p) : ShG t (fun x => k • P x) x (pt_scalar_mul_public_scalar p k) := ⟨hp.1.smul k, by rw [pt_scalar_mul_public_scalar_spec]; simp [hp.2]⟩
theorem shG_public_point (hs : Sh t f x s) : ShG t (fun x => f x • c) x (pt_scalar_mul_public_point s c) := ⟨hs.1.smul_right c, by rw [pt_scalar_mul_public_point_spec]; simp [hs.2]⟩
theorem shG_promote : ShG (F := F) t (fun _ => c) x (pt_promote_to_trivial_share c) := ⟨.const t c, by rw [pt_promote_spec]⟩
theorem shG_mul_local (hs : Sh t f x s) (hp : ShG u P x p) : PolyFn (t + u) (fun x => f x • P x) ∧ pt_scalar_mul_local p s = f x • P x :=
  ⟨hs.1.mul hp.1, by rw [pt_scalar_mul_local_spec, hs.2, hp.2]⟩
end

/-- a shared polynomial evaluated at the public point `y` -/
theorem sh_eval_poly {t : ℕ} {x y : F} (fs : List (F → F)) (cs : List (ShamirPrimeFieldShare F))
    (hs : List.Forall₂ (fun f s => Sh t f x s) fs cs) :
    ∃ r, poly_eval_poly cs y = .ok r ∧ Sh t (fun x => peval y (fs.map (· x))) x r := by
  refine ⟨_, eval_poly_spec cs y, ?_, ?_⟩
  · induction hs with
    | nil => simpa using PolyFn.const (F := F) t (0 : F)
    | cons h _ ih => simpa using h.1.add (ih.smul y)
  · show peval y (cs.map (·.a)) = peval y (fs.map (· x))
    induction hs with
    | nil => rfl
    | cons h _ ih => simp only [List.map_cons, peval_cons, h.2, ih]

/-- a multi-scalar multiplication of public points with shared scalars -/
theorem shG_msm {t : ℕ} {x : F} (gs : List G) (fs : List (F → F)) (ss : List (ShamirPrimeFieldShare F))
    (hs : List.Forall₂ (fun f s => Sh t f x s) fs ss) :
    ShG t (fun x => (List.zipWith (fun g (f : F → F) => f x • g) gs fs).sum) x (pt_msm_public_points gs ss) := by
  rw [pt_msm_spec]
  constructor
  · induction hs generalizing gs with
    | nil => simpa using PolyFn.const (F := F) t (0 : G)
    | cons h _ ih =>
      cases gs with
      | nil => simpa using PolyFn.const (F := F) t (0 : G)
      | cons g gs => simpa using (h.1.smul_right g).add (ih gs)
  · simp only
    induction hs generalizing gs with
    | nil => simp
    | cons h _ ih =>
      cases gs with
      | nil => simp
      | cons g gs => simp [h.2, ih]

/-- vectors, of every length -/
theorem sh_add_vec {t : ℕ} {x : F} (fs gs : List (F → F)) (l r : List (ShamirPrimeFieldShare F))
    (hl : List.Forall₂ (fun f s => Sh t f x s) fs l) (hr : List.Forall₂ (fun f s => Sh t f x s) gs r) (h : l.length = r.length) :
    List.Forall₂ (fun f s => Sh t f x s) (List.zipWith (fun f g => fun x => f x + g x) fs gs) (ar_add_vec_assign l r) := by
  rw [add_vec_spec l r h]
  clear h
  induction hl generalizing gs r with
  | nil => simp
  | cons h _ ih =>
    cases hr with
    | nil => simp
    | cons h' hr => exact .cons ⟨h.1.add h'.1, by simp [h.2, h'.2]⟩ (ih _ _ hr)
theorem sh_sub_vec {t : ℕ} {x : F} (fs gs : List (F → F)) (l r : List (ShamirPrimeFieldShare F))
    (hl : List.Forall₂ (fun f s => Sh t f x s) fs l) (hr : List.Forall₂ (fun f s => Sh t f x s) gs r) (h : l.length = r.length) :
    List.Forall₂ (fun f s => Sh t f x s) (List.zipWith (fun f g => fun x => f x - g x) fs gs) (ar_sub_vec_assign l r) := by
  rw [sub_vec_spec l r h]
  clear h
  induction hl generalizing gs r with
  | nil => simp
  | cons h _ ih =>
    cases hr with
    | nil => simp
    | cons h' hr => exact .cons ⟨h.1.sub h'.1, by simp [h.2, h'.2]⟩ (ih _ _ hr)
end C03
