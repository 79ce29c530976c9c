import Lib
import PolyFn
import ProveCore
import ProvePlain
import ProveShamir
import ProveShNet
import C04
import C18
set_option linter.all false
set_option autoImplicit false
open Rs Rs.Prove
noncomputable section
namespace C19
open Finset

/-! ## the generic prover over a back end whose half shares live in the field and the groups themselves -/
section
variable {F Sh St G G1 G2 : Type} [Field F] [DecidableEq F] [Inhabited F] [AddCommGroup G] [Module F G] [AddCommGroup G1] [Module F G1] [AddCommGroup G2] [Module F G2]

/-- local point operations -/
structure PtLaw (D : PtDriver F G F G) : Prop where
  msm : ∀ ps ss, D.msm ps ss = Rs.msm ps ss
  smul : ∀ g x, D.smul g x = x • g
  addp : ∀ i p g, D.addp i p g = p + g
/-- the local product of two shares is the product of their half shares -/
def MulLaw (T : Driver F Sh F St) : Prop := ∀ a b st, T.mulv [a] [b] st = .ok ([T.half a * T.half b], st)

/-- one column of a query against the assignment -/
def coeffVal (init : G) (q : List G) (vk : G) (pub priv : List F) : G :=
  init + q.getD 0 0 + vk + Rs.msm ((q.take pub.length).drop 1) (pub.drop 1) + Rs.msm (q.drop pub.length) priv

theorem calc_spec [D : PtDriver F G F G] (hD : PtLaw D) (id : ℕ) (init : G) (q : List G) (vk : G) (pub priv : List F) (h1 : 1 ≤ pub.length) (hq : pub.length ≤ q.length) :
    calculate_coeff id init q vk (pub.drop 1) priv = .ok (coeffVal init q vk pub priv) := by
  unfold calculate_coeff
  have e1 : slice q (1 + (pub.drop 1).length) q.length = .ok (q.drop pub.length) := by
    rw [slice_ok (by simp; omega) (by omega)]; simp; congr 1; omega
  have e2 : slice q 1 ((pub.drop 1).length + 1) = .ok ((q.take pub.length).drop 1) := by
    rw [slice_ok (by simp) (by simp; omega)]; simp [show pub.length - 1 + 1 = pub.length by omega]
  have e3 : idx q 0 = .ok (q.getD 0 0) := by
    rw [idx_of_lt (show 0 < q.length by omega)]; simp [List.getD, List.getElem?_eq_getElem (show 0 < q.length by omega)]
  simp only [e1, e2, e3, ok_bind, pure_eq, hD.msm, hD.addp, coeffVal]

/-- what the prover computes: two openings, one multiplication, two more openings, everything else in the clear formula -/
theorem create_proof_spec [T : Driver F Sh F St] [D1 : PtDriver F G1 F G1] [D2 : PtDriver F G2 F G2] [O1 : OpenDriver St G1 G1] [O2 : OpenDriver St G2 G2] [S1 : SclDriver St Sh G1]
    (hT : MulLaw T) (hD1 : PtLaw D1) (hD2 : PtLaw D2) (n0 n1 : Unit) (st0 st1 : St) (pk : ProvingKey F G1 G2) (r s : Sh) (h : List F) (pub priv : List F)
    (hp : 1 ≤ pub.length) (ha : pub.length ≤ pk.a_query.length) (hb : pub.length ≤ pk.b_g1_query.length) (hb2 : pub.length ≤ pk.b_g2_query.length) :
    create_proof n0 n1 st0 st1 pk r s h pub priv = (do
      let a ← O1.opn (coeffVal (T.half r • pk.delta_g1) pk.a_query pk.vk.alpha_g1 pub priv) st0
      let rb ← S1.scl (coeffVal (T.half s • pk.delta_g1) pk.b_g1_query pk.beta_g1 pub priv) r st1
      let c ← O1.opn (T.half s • a.1 + rb.1 - (T.half r * T.half s) • pk.delta_g1 + Rs.msm pk.l_query priv + Rs.msm pk.h_query h) a.2
      let b ← O2.opn (coeffVal (T.half s • pk.vk.delta_g2) pk.b_g2_query pk.vk.beta_g2 pub priv) rb.2
      pure (⟨a.1, b.1, c.1⟩, c.2, b.2)) := by
  have e : slice pub 1 pub.length = .ok (pub.drop 1) := by rw [slice_ok hp (by omega)]; simp
  unfold MulLaw at hT
  unfold create_proof
  simp only [e, ok_bind, pure_eq, calc_spec hD1 _ _ _ _ _ _ hp ha, calc_spec hD1 _ _ _ _ _ _ hp hb, calc_spec hD2 _ _ _ _ _ _ hp hb2, hT, hD1.smul, hD2.smul, hD1.msm,
    List.getLast?_singleton, unwrap_some, psub_group]

theorem bind_ok {A : Type} (x : M A) : (x >>= Except.ok) = x := by cases x <;> rfl
/-- the entry point: sizes are checked, the witness map and the blinding values come first -/
theorem prove_inner_spec [T : Driver F Sh F St] [D1 : PtDriver F G1 F G1] [D2 : PtDriver F G2 F G2] [O1 : OpenDriver St G1 G1] [O2 : OpenDriver St G2 G2] [S1 : SclDriver St Sh G1] [MD : MapDriver F Sh F St]
    (n0 n1 : Unit) (st0 st1 : St) (pk : ProvingKey F G1 G2) (M : ConstraintMatrices F) (w : SharedWitness F Sh) :
    prove_inner n0 n1 st0 st1 pk M w =
      if w.public_inputs.length = M.num_instance_variables ∧ w.witness.length = M.num_witness_variables then (do
        let h ← MD.wmap st0 M w.public_inputs w.witness
        let r ← T.rand h.2
        let s ← T.rand r.2
        create_proof n0 n1 s.2 st1 pk r.1 s.1 h.1 w.public_inputs (w.witness.map T.half))
      else .error .err := by
  unfold prove_inner
  by_cases h1 : w.public_inputs.length = M.num_instance_variables
  · by_cases h2 : w.witness.length = M.num_witness_variables
    · simp [h1, h2, bind_ok]
    · simp [h1, h2]
  · simp [h1]
end

/-! ## the plain and the Shamir back end -/
section
variable {F G G1 G2 : Type} [Field F] [DecidableEq F] [Inhabited F] [AddCommGroup G] [Module F G] [AddCommGroup G1] [Module F G1] [AddCommGroup G2] [Module F G2]
open Rs.Prove.Plain Rs.Prove.Shamir Rs.ShamirOps

@[reducible] def plainPt (F G : Type) [Field F] [DecidableEq F] [Inhabited F] [AddCommGroup G] [Module F G] : PtDriver F G F G where
  msm := plain_msm_public_points_hs
  smul g x := plain_scalar_mul_public_point_hs g x
  addp := plain_add_assign_points_public_hs
@[reducible] def shamirPt (F G : Type) [Field F] [DecidableEq F] [Inhabited F] [AddCommGroup G] [Module F G] : PtDriver F G F G where
  msm := shamir_msm_public_points_hs
  smul g x := shamir_scalar_mul_public_point_hs g x
  addp := shamir_add_assign_points_public_hs
theorem plain_pt : PtLaw (plainPt F G) := ⟨fun _ _ => rfl, fun _ _ => rfl, fun _ _ _ => rfl⟩
theorem shamir_pt : PtLaw (shamirPt F G) := ⟨fun _ _ => rfl, fun _ _ => rfl, fun _ _ _ => rfl⟩

@[reducible] def plainDriver (F : Type) [Field F] [DecidableEq F] [Inhabited F] (rnd : ℕ → F) : Driver F F F ℕ where
  id _ := 0
  half := plain_to_half_share
  mulv a b st := do let r ← .ok (plain_mul a b ()); pure (r.1, st)
  rand st := .ok (rnd st, st + 1)
@[reducible] def shamirDriver (F : Type) [Field F] [DecidableEq F] [Inhabited F] (St : Type) (id : ℕ) (rnd : St → M (ShamirPrimeFieldShare F × St)) : Driver F (ShamirPrimeFieldShare F) F St where
  id _ := id
  half := shamir_to_half_share
  mulv a b st := do let r ← shamir_mul a b (); pure (r.1, st)
  rand := rnd
theorem plain_mul_law (rnd : ℕ → F) : MulLaw (plainDriver F rnd) := by
  intro a b st
  show (do let r ← (.ok (plain_mul [a] [b] ()) : M _); pure (r.1, st) : M _) = .ok ([plain_to_half_share a * plain_to_half_share b], st)
  simp [plain_mul, plain_to_half_share]
theorem shamir_mul_law (St : Type) (id : ℕ) (rnd : St → M (ShamirPrimeFieldShare F × St)) : MulLaw (shamirDriver F St id rnd) := by
  intro a b st
  show (do let r ← shamir_mul [a] [b] (); pure (r.1, st) : M _) = .ok ([shamir_to_half_share a * shamir_to_half_share b], st)
  simp [shamir_mul, shamir_to_half_share, ar_local_mul_vec, zipEq]

/-- the three elements, as a formula in the blinding values, the coefficients of the quotient and the assignment -/
def proofOf (pk : ProvingKey F G1 G2) (r s : F) (h pub priv : List F) : Proof G1 G2 where
  a := coeffVal (r • pk.delta_g1) pk.a_query pk.vk.alpha_g1 pub priv
  b := coeffVal (s • pk.vk.delta_g2) pk.b_g2_query pk.vk.beta_g2 pub priv
  c := s • coeffVal (r • pk.delta_g1) pk.a_query pk.vk.alpha_g1 pub priv + r • coeffVal (s • pk.delta_g1) pk.b_g1_query pk.beta_g1 pub priv
    - (r * s) • pk.delta_g1 + Rs.msm pk.l_query priv + Rs.msm pk.h_query h

@[reducible] def plainOpen (F G : Type) [Field F] [DecidableEq F] [Inhabited F] [AddCommGroup G] [Module F G] : OpenDriver ℕ G G where
  opn g st := do let r ← plain_open_half_point g () (); pure (r.1, st)
@[reducible] def plainScl (F G : Type) [Field F] [DecidableEq F] [Inhabited F] [AddCommGroup G] [Module F G] : SclDriver ℕ F G where
  scl p x st := do let r ← plain_scalar_mul p x () (); pure (r.1, st)

/-- the plain prover's proof is the formula -/
theorem plain_create (rnd : ℕ → F) (n0 n1 : Unit) (st0 st1 : ℕ) (pk : ProvingKey F G1 G2) (r s : F) (h pub priv : List F)
    (hp : 1 ≤ pub.length) (ha : pub.length ≤ pk.a_query.length) (hb : pub.length ≤ pk.b_g1_query.length) (hb2 : pub.length ≤ pk.b_g2_query.length) :
    create_proof (T := plainDriver F rnd) (D1 := plainPt F G1) (D2 := plainPt F G2) (O1 := plainOpen F G1) (O2 := plainOpen F G2) (S1 := plainScl F G1) n0 n1 st0 st1 pk r s h pub priv
      = .ok (proofOf pk r s h pub priv, st0, st1) := by
  rw [create_proof_spec (T := plainDriver F rnd) (D1 := plainPt F G1) (D2 := plainPt F G2) (O1 := plainOpen F G1) (O2 := plainOpen F G2) (S1 := plainScl F G1) (plain_mul_law rnd) plain_pt plain_pt n0 n1 st0 st1 pk r s h pub priv hp ha hb hb2]
  rfl

/-! ## shares -/
open Rs.ShamirNet Rs.Prove.ShNet C04
variable [DecidableEq G] [DecidableEq G1] [DecidableEq G2] [Ser F] [Ser (List F)] [Ser G] [Ser (List G)] [Ser G1] [Ser (List G1)] [Ser G2] [Ser (List G2)] [Refill F] [Gen G1]

@[reducible] def shamirOpen (F G : Type) [Field F] [DecidableEq F] [AddCommGroup G] [Module F G] [DecidableEq G] [Ser G] [Ser (List G)] : OpenDriver (Net × ShamirState F) G G where
  opn g st := open_half_point (F := F) g st.1 st.2
@[reducible] def shamirScl (F G : Type) [Field F] [DecidableEq F] [AddCommGroup G] [Module F G] [DecidableEq G] [Ser F] [Ser (List F)] [Ser G] [Ser (List G)] [Refill F] [Gen G] : SclDriver (Net × ShamirState F) (ShamirPrimeFieldShare F) G where
  scl p x st := scalar_mul p x st.1 st.2

/-- opening a point of a degree-2t sharing gives its secret (over the messages of the others: property C04) -/
theorem shamir_open [Ser (G × F)] [Ser (List G × List F)] [Ser (List (G × F))] [Ser (List (List F))] [Ser (List (List G))] [Ser (List (List G × List F))] [Gen G] (s : ShamirState F) (id n t : ℕ) (hF : C01.Positions F n) (hs : Ready s id n t) (net : Net) (hid : net.id_ = id) (f : F → G) (hf : PolyFn (2 * t) f)
    (hw : ∀ r, 1 ≤ r → r < 2 * t + 1 → Waits net (prev id n r) (Ser.ser (f ((prev id n r + 1 : ℕ) : F)))) :
    Ens ((shamirOpen F G).opn (f ((id + 1 : ℕ) : F)) (net, s)) (fun r => r.1 = f 0 ∧ r.2.2 = s) := by
  obtain ⟨r, e, h1, h2, h3⟩ := open_half_point_spec s id n t hF hs net hid f hf _ rfl hw
  exact ⟨_, by show open_half_point _ _ _ = _; unfold open_half_point; rw [e]; simp only [ok_bind, pure_eq], h1, h3⟩

theorem polyfn_msm {t m : ℕ} (q : List G) (w : F → List F) (h : C18.Sharing t m w) : PolyFn t (fun α => Rs.msm q (w α)) := by
  have e : (fun α => Rs.msm q (w α)) = fun α => ((List.range (min q.length m)).map (fun i => (w α).getD i 0 • q.getD i 0)).sum := by
    funext α
    unfold Rs.msm
    congr 1
    apply List.ext_getElem (by simp [h.1 α])
    intro i h1 h2
    simp at h1 h2
    simp [List.getD, List.getElem?_eq_getElem h1.1, List.getElem?_eq_getElem h1.2]
  rw [e]
  exact PolyFn.sum _ _ (fun i hi => (h.2 i (by simp at hi; omega)).smul_right _)

theorem polyfn_coeff {t m : ℕ} (c : G) (q : List G) (vk : G) (pub : List F) (w : F → List F) (x : F → F) (hx : PolyFn t x) (h : C18.Sharing t m w) :
    PolyFn t (fun α => coeffVal (x α • c) q vk pub (w α)) := by
  unfold coeffVal
  exact ((((hx.smul_right _).add (PolyFn.const _ _)).add (PolyFn.const _ _)).add (PolyFn.const _ _)).add (polyfn_msm _ _ h)

section
variable (pk : ProvingKey F G1 G2) (pub : List F) (w h : F → List F) (r s : F → F) (q : F → G1)
/-- what a party at position `α` holds of the first element, of the second in the first group, of the third, of the second -/
def shA (α : F) : G1 := coeffVal (r α • pk.delta_g1) pk.a_query pk.vk.alpha_g1 pub (w α)
def shB1 (α : F) : G1 := coeffVal (s α • pk.delta_g1) pk.b_g1_query pk.beta_g1 pub (w α)
def shB2 (α : F) : G2 := coeffVal (s α • pk.vk.delta_g2) pk.b_g2_query pk.vk.beta_g2 pub (w α)
def shC (α : F) : G1 := s α • shA pk pub w r 0 + r α • q α - (r α * s α) • pk.delta_g1 + Rs.msm pk.l_query (w α) + Rs.msm pk.h_query (h α)

variable {t m k : ℕ} (hw : C18.Sharing t m w) (hh : C18.Sharing (t + t) k h) (hr : PolyFn t r) (hs : PolyFn t s) (hq : PolyFn t q)
include hw
/-- everything the parties open is shared with a degree the opening can handle, and the secrets are the formula at the secrets -/
theorem shared_values (hh : C18.Sharing (t + t) k h) (hr : PolyFn t r) (hs : PolyFn t s) (hq : PolyFn t q) (hq0 : q 0 = shB1 pk pub w s 0) :
    PolyFn (2 * t) (shA pk pub w r) ∧ PolyFn (2 * t) (shB1 pk pub w s) ∧ PolyFn (2 * t) (shB2 pk pub w s) ∧ PolyFn (2 * t) (shC pk pub w h r s q) ∧
    (⟨shA pk pub w r 0, shB2 pk pub w s 0, shC pk pub w h r s q 0⟩ : Proof G1 G2) = proofOf pk (r 0) (s 0) (h 0) pub (w 0) := by
  have l : t ≤ 2 * t := by omega
  rw [show t + t = 2 * t by omega] at hh
  refine ⟨(polyfn_coeff _ _ _ _ w r hr hw).mono l, (polyfn_coeff _ _ _ _ w s hs hw).mono l, (polyfn_coeff _ _ _ _ w s hs hw).mono l, ?_, ?_⟩
  · unfold shC
    have rq : PolyFn (2 * t) (fun α => r α • q α) := by rw [show 2 * t = t + t by omega]; exact hr.mul hq
    have rs : PolyFn (2 * t) (fun α => (r α * s α) • pk.delta_g1) := by
      rw [show 2 * t = t + t by omega]; exact PolyFn.smul_right (f := fun α => r α * s α) (by simpa using hr.mul hs) _
    exact (((((hs.smul_right _).mono l).add rq).sub rs).add ((polyfn_msm _ _ hw).mono l)).add (polyfn_msm _ _ hh)
  · simp only [proofOf, shC, hq0, shA, shB1, shB2]

/-- the run of one party: whatever the network delivered in the openings and the multiplication, if it delivered what C04 promises, the
proof is the formula at the secrets — the same for every party -/
theorem shamir_party (id : ℕ) (rnd : Net × ShamirState F → M (ShamirPrimeFieldShare F × (Net × ShamirState F))) (n0 n1 : Unit) (st0 st1 : Net × ShamirState F)
    (hh : C18.Sharing (t + t) k h) (hr : PolyFn t r) (hs : PolyFn t s) (hq : PolyFn t q) (hq0 : q 0 = shB1 pk pub w s 0)
    (hp : 1 ≤ pub.length) (ha : pub.length ≤ pk.a_query.length) (hb : pub.length ≤ pk.b_g1_query.length) (hb2 : pub.length ≤ pk.b_g2_query.length)
    (α : F) (s0 s0' : Net × ShamirState F) (net1 s1' : Net × ShamirState F)
    (o1 : (shamirOpen F G1).opn (shA pk pub w r α) st0 = .ok (shA pk pub w r 0, s0))
    (d1 : degree_reduce_point st1.1 st1.2 (shB1 pk pub w s α) = .ok (⟨q α⟩, net1.1, net1.2))
    (o2 : (shamirOpen F G1).opn (shC pk pub w h r s q α) s0 = .ok (shC pk pub w h r s q 0, s0'))
    (o3 : (shamirOpen F G2).opn (shB2 pk pub w s α) net1 = .ok (shB2 pk pub w s 0, s1')) :
    create_proof (T := shamirDriver F (Net × ShamirState F) id rnd) (D1 := shamirPt F G1) (D2 := shamirPt F G2) (O1 := shamirOpen F G1) (O2 := shamirOpen F G2) (S1 := shamirScl F G1)
      n0 n1 st0 st1 pk ⟨r α⟩ ⟨s α⟩ (h α) pub (w α) = .ok (proofOf pk (r 0) (s 0) (h 0) pub (w 0), s0', s1') := by
  rw [create_proof_spec (T := shamirDriver F (Net × ShamirState F) id rnd) (D1 := shamirPt F G1) (D2 := shamirPt F G2) (O1 := shamirOpen F G1) (O2 := shamirOpen F G2) (S1 := shamirScl F G1)
    (shamir_mul_law _ id rnd) shamir_pt shamir_pt n0 n1 st0 st1 pk _ _ (h α) pub (w α) hp ha hb hb2]
  have eq := (shared_values pk pub w h r s q hw hh hr hs hq hq0).2.2.2.2
  have e2 : (shamirScl F G1).scl (shB1 pk pub w s α) ⟨r α⟩ st1 = .ok (r α • q α, net1) := by
    show scalar_mul _ _ _ _ = _
    unfold scalar_mul
    rw [d1]; simp only [ok_bind, pure_eq]
    rfl
  show (do
      let a ← (shamirOpen F G1).opn (shA pk pub w r α) st0
      let rb ← (shamirScl F G1).scl (shB1 pk pub w s α) ⟨r α⟩ st1
      let c ← (shamirOpen F G1).opn (s α • a.1 + rb.1 - (r α * s α) • pk.delta_g1 + Rs.msm pk.l_query (w α) + Rs.msm pk.h_query (h α)) a.2
      let b ← (shamirOpen F G2).opn (shB2 pk pub w s α) rb.2
      pure ((⟨a.1, b.1, c.1⟩ : Proof G1 G2), c.2, b.2) : M _) = _
  rw [o1, e2]; simp only [ok_bind]
  have o2' : (shamirOpen F G1).opn (s α • shA pk pub w r 0 + r α • q α - (r α * s α) • pk.delta_g1 + Rs.msm pk.l_query (w α) + Rs.msm pk.h_query (h α)) s0 = .ok (shC pk pub w h r s q 0, s0') := o2
  rw [o2', o3]; simp only [ok_bind, pure_eq]
  rw [← eq]
end
end
end C19

/-! ## why such a proof verifies -/
namespace C19
open Finset Polynomial
section
variable {F G G1 G2 GT : Type} [Field F] [DecidableEq F] [Inhabited F] [AddCommGroup G] [Module F G] [AddCommGroup G1] [Module F G1] [AddCommGroup G2] [Module F G2] [AddCommGroup GT] [Module F GT]
open Rs.Groth (Domain)

theorem msm_range (f : ℕ → F) (g : G) (k : ℕ) (z : List F) : Rs.msm ((List.range k).map (fun j => f j • g)) z = (∑ j ∈ range k, z.getD j 0 * f j) • g := by
  induction z generalizing f k with
  | nil => simp [Rs.msm]
  | cons x z ih =>
    cases k with
    | zero => simp [Rs.msm]
    | succ k =>
      rw [List.range_succ_eq_map, Finset.sum_range_succ']
      have := ih (fun j => f (j + 1)) k
      simp only [Rs.msm, List.map_cons, List.map_map, List.zipWith_cons_cons, List.sum_cons] at this ⊢
      rw [show ((fun j => f j • g) ∘ Nat.succ) = fun j => f (j + 1) • g from rfl, this]
      simp [add_smul, smul_smul, mul_comm]
      rw [add_comm]

theorem coeffVal_eq (init : G) (q : List G) (vk : G) (pub priv : List F) (hp : 1 ≤ pub.length) (h1 : pub.getD 0 0 = 1) (hq : pub.length ≤ q.length) :
    coeffVal init q vk pub priv = init + vk + Rs.msm q (pub ++ priv) := by
  obtain ⟨x, pub, rfl⟩ := List.exists_cons_of_length_pos hp
  simp at h1
  subst h1
  obtain ⟨y, q, rfl⟩ := List.exists_cons_of_length_pos (show 0 < q.length by simp at hq; omega)
  simp at hq
  have e : Rs.msm (y :: q) (1 :: pub ++ priv) = y + (Rs.msm (q.take pub.length) pub + Rs.msm (q.drop pub.length) priv) := by
    unfold Rs.msm
    rw [List.cons_append, List.zipWith_cons_cons, List.sum_cons, one_smul]
    congr 1
    conv_lhs => rw [← List.take_append_drop pub.length q]
    rw [List.zipWith_append (by simp [hq]), List.sum_append]
  rw [e]
  simp [coeffVal]
  abel

/-- the coefficient of variable `j` in a row -/
def colc (row : List (F × ℕ)) (j : ℕ) : F := (row.map (fun e => if e.2 = j then e.1 else 0)).sum
theorem rowval_colc (row : List (F × ℕ)) (z : List F) (n : ℕ) (h : ∀ e ∈ row, e.2 < n) : C18.rowval row z = ∑ j ∈ range n, z.getD j 0 * colc row j := by
  induction row with
  | nil => simp [C18.rowval, colc]
  | cons e row ih =>
    have := ih (fun e he => h e (by simp [he]))
    have hn := h e (by simp)
    simp only [C18.rowval, colc, List.map_cons, List.sum_cons] at this ⊢
    rw [this]
    simp only [mul_add, Finset.sum_add_distrib, mul_ite, mul_zero, Finset.sum_ite_eq, Finset.mem_range, hn, if_true]
    ring

/-- the polynomial of variable `j` at the secret point: `L i` is the `i`-th Lagrange polynomial there -/
def col (mat : List (List (F × ℕ))) (L : ℕ → F) (n j : ℕ) : F := ∑ i ∈ range n, (mat[i]?).elim 0 (fun row => colc row j) * L i

theorem matval_col (mat : List (List (F × ℕ))) (z : List F) (m n : ℕ) (h : C18.InRange mat m) (L : ℕ → F) :
    ∑ i ∈ range n, C18.matval mat z i * L i = ∑ j ∈ range m, z.getD j 0 * col mat L n j := by
  have : ∀ i, C18.matval mat z i = ∑ j ∈ range m, z.getD j 0 * (mat[i]?).elim 0 (fun row => colc row j) := by
    intro i
    unfold C18.matval
    cases hh : mat[i]? with
    | none => simp
    | some row => exact rowval_colc row z m (h row (List.mem_of_getElem? hh))
  simp only [this, col, Finset.mul_sum, Finset.sum_mul]
  rw [Finset.sum_comm]
  refine Finset.sum_congr rfl (fun j _ => Finset.sum_congr rfl (fun i _ => by ring))

/-- polynomials of degree below the size of the domain are determined by their values on it -/
def Lag (D : Domain F) (τ : F) (L : ℕ → F) : Prop := ∀ p : F[X], p.degree < D.size → p.eval τ = ∑ i ∈ range D.size, p.eval (D.gen ^ i) * L i

theorem lag_exists (D : Domain F) (hg : IsPrimitiveRoot D.gen D.size) (τ : F) : Lag D τ (fun i => (Lagrange.basis (range D.size) (fun i => D.gen ^ i) i).eval τ) := by
  intro p hp
  have inj : Set.InjOn (fun i => D.gen ^ i) (range D.size : Set ℕ) := by
    intro a ha b hb hab
    exact hg.pow_inj (by simpa using ha) (by simpa using hb) hab
  conv_lhs => rw [Lagrange.eq_interpolate inj (f := p) (by simpa using hp)]
  simp [Lagrange.interpolate_apply, eval_finset_sum, eval_mul]

/-- the scalars of the set-up -/
structure Setup (F : Type) where
  τ : F
  α : F
  β : F
  γ : F
  δ : F
variable (X : Setup F) (L : ℕ → F) (D : Domain F) (M : ConstraintMatrices F) (m : ℕ)
def uu (j : ℕ) : F := col M.a L D.size j + if j < M.num_instance_variables then L (M.num_constraints + j) else 0
def vv (j : ℕ) : F := col M.b L D.size j
def ww (j : ℕ) : F := col M.c L D.size j
/-- a proving key that comes from a set-up for these matrices with `m` variables, up to the query of the quotient -/
structure KeyOk (g1 : G1) (g2 : G2) (pk : ProvingKey F G1 G2) : Prop where
  a1 : pk.vk.alpha_g1 = X.α • g1
  b1 : pk.beta_g1 = X.β • g1
  b2 : pk.vk.beta_g2 = X.β • g2
  c2 : pk.vk.gamma_g2 = X.γ • g2
  d1 : pk.delta_g1 = X.δ • g1
  d2 : pk.vk.delta_g2 = X.δ • g2
  aq : pk.a_query = (List.range m).map (fun j => uu L D M j • g1)
  bq : pk.b_g1_query = (List.range m).map (fun j => vv L D M j • g1)
  bq2 : pk.b_g2_query = (List.range m).map (fun j => vv L D M j • g2)
  lq : pk.l_query = (List.range (m - M.num_instance_variables)).map (fun j => ((X.β * uu L D M (M.num_instance_variables + j) + X.α * vv L D M (M.num_instance_variables + j) + ww L D M (M.num_instance_variables + j)) / X.δ) • g1)
  ic : pk.vk.gamma_abc_g1 = (List.range M.num_instance_variables).map (fun j => ((X.β * uu L D M j + X.α * vv L D M j + ww L D M j) / X.γ) • g1)
  hδ : X.δ ≠ 0
  hγ : X.γ ≠ 0

/-- the verifier's equation, written additively: e(A,B) = e(α,β) + e(Σ xᵢ·icᵢ, γ) + e(C, δ) -/
def Verifies (e : G1 →ₗ[F] G2 →ₗ[F] GT) (vk : VerifyingKey G1 G2) (pub : List F) (p : Proof G1 G2) : Prop :=
  e p.a p.b = e vk.alpha_g1 vk.beta_g2 + e (Rs.msm vk.gamma_abc_g1 pub) vk.gamma_g2 + e p.c vk.delta_g2

/-- values of the three polynomials of the assignment at the secret point -/
theorem at_tau (hL : Lag D X.τ L) (pub priv : List F) (hpub : pub.length = M.num_instance_variables) (hm : m = pub.length + priv.length)
    (hn : M.num_constraints + M.num_instance_variables ≤ D.size)
    (ha : C18.InRange M.a m) (hb : C18.InRange M.b m) (hc : C18.InRange M.c m) (la : M.a.length = M.num_constraints)
    (A B C' : F[X]) (dA : A.degree < D.size) (dB : B.degree < D.size) (dC : C'.degree < D.size)
    (vA : ∀ i < D.size, A.eval (D.gen ^ i) = if M.num_constraints ≤ i ∧ i < M.num_constraints + M.num_instance_variables then pub.getD (i - M.num_constraints) 0 else C18.matval M.a (pub ++ priv) i)
    (vB : ∀ i < D.size, B.eval (D.gen ^ i) = C18.matval M.b (pub ++ priv) i) (vC : ∀ i < D.size, C'.eval (D.gen ^ i) = C18.matval M.c (pub ++ priv) i) :
    ∑ j ∈ range m, (pub ++ priv).getD j 0 * uu L D M j = A.eval X.τ ∧ ∑ j ∈ range m, (pub ++ priv).getD j 0 * vv L D M j = B.eval X.τ ∧
    ∑ j ∈ range m, (pub ++ priv).getD j 0 * ww L D M j = C'.eval X.τ := by
  refine ⟨?_, ?_, ?_⟩
  · rw [hL A dA]
    simp only [uu, mul_add, Finset.sum_add_distrib]
    rw [← matval_col M.a (pub ++ priv) m D.size ha L]
    have e1 : ∑ j ∈ range m, (pub ++ priv).getD j 0 * (if j < M.num_instance_variables then L (M.num_constraints + j) else 0)
        = ∑ i ∈ range D.size, (if M.num_constraints ≤ i ∧ i < M.num_constraints + M.num_instance_variables then pub.getD (i - M.num_constraints) 0 else 0) * L i := by
      have l1 : ∑ j ∈ range m, (pub ++ priv).getD j 0 * (if j < M.num_instance_variables then L (M.num_constraints + j) else 0)
          = ∑ j ∈ range M.num_instance_variables, pub.getD j 0 * L (M.num_constraints + j) := by
        rw [← Finset.sum_subset (s₁ := range M.num_instance_variables) (by intro x; simp; omega)]
        · refine Finset.sum_congr rfl (fun j hj => ?_)
          have hj := Finset.mem_range.1 hj
          rw [if_pos hj]; congr 1
          simp [List.getD, List.getElem?_append_left (show j < pub.length by omega)]
        · intro j _ hj
          simp at hj
          rw [if_neg (by omega), mul_zero]
      have l2 : ∑ i ∈ range D.size, (if M.num_constraints ≤ i ∧ i < M.num_constraints + M.num_instance_variables then pub.getD (i - M.num_constraints) 0 else 0) * L i
          = ∑ i ∈ Finset.Ico M.num_constraints (M.num_constraints + M.num_instance_variables), pub.getD (i - M.num_constraints) 0 * L i := by
        rw [← Finset.sum_subset (s₁ := Finset.Ico M.num_constraints (M.num_constraints + M.num_instance_variables)) (by intro x; simp; omega)]
        · refine Finset.sum_congr rfl (fun j hj => ?_)
          rw [if_pos (by simpa using hj)]
        · intro j _ hj
          rw [if_neg (by simpa using hj), zero_mul]
      rw [l1, l2, Finset.sum_Ico_eq_sum_range]
      simp
    rw [e1, ← Finset.sum_add_distrib]
    refine Finset.sum_congr rfl (fun i hi => ?_)
    rw [vA i (Finset.mem_range.1 hi)]
    by_cases hh : M.num_constraints ≤ i ∧ i < M.num_constraints + M.num_instance_variables
    · rw [if_pos hh, if_pos hh]
      have : C18.matval M.a (pub ++ priv) i = 0 := by
        unfold C18.matval; rw [List.getElem?_eq_none (by omega)]; rfl
      rw [this]; ring
    · rw [if_neg hh, if_neg hh]; ring
  · rw [hL B dB]
    simp only [vv]
    rw [← matval_col M.b (pub ++ priv) m D.size hb L]
    exact Finset.sum_congr rfl (fun i hi => by rw [vB i (Finset.mem_range.1 hi)])
  · rw [hL C' dC]
    simp only [ww]
    rw [← matval_col M.c (pub ++ priv) m D.size hc L]
    exact Finset.sum_congr rfl (fun i hi => by rw [vC i (Finset.mem_range.1 hi)])

theorem coeff_key (init : G) (f : ℕ → F) (g : G) (x : F) (pub priv : List F) (hp : 1 ≤ pub.length) (h1 : pub.getD 0 0 = 1) (hm : m = pub.length + priv.length) :
    coeffVal init ((List.range m).map (fun j => f j • g)) (x • g) pub priv = init + (x + ∑ j ∈ range m, (pub ++ priv).getD j 0 * f j) • g := by
  rw [coeffVal_eq _ _ _ _ _ hp h1 (by simp; omega), msm_range, add_smul]; abel

theorem getD_left (a b : List F) (j : ℕ) (h : j < a.length) : (a ++ b).getD j 0 = a.getD j 0 := by simp [List.getD, List.getElem?_append_left h]
theorem getD_right (a b : List F) (j : ℕ) : (a ++ b).getD (a.length + j) 0 = b.getD j 0 := by simp [List.getD, List.getElem?_append_right (show a.length ≤ a.length + j by omega)]

/-- a proof of the prover's formula passes the verifier's equation whenever the quotient part is right -/
theorem verifies_of (g1 : G1) (g2 : G2) (pk : ProvingKey F G1 G2) (hk : KeyOk X L D M m g1 g2 pk) (pub priv h : List F) (r s : F) (a b c : F)
    (hpub : pub.length = M.num_instance_variables) (hp : 1 ≤ pub.length) (h1 : pub.getD 0 0 = 1) (hm : m = pub.length + priv.length)
    (ea : ∑ j ∈ range m, (pub ++ priv).getD j 0 * uu L D M j = a) (eb : ∑ j ∈ range m, (pub ++ priv).getD j 0 * vv L D M j = b)
    (ec : ∑ j ∈ range m, (pub ++ priv).getD j 0 * ww L D M j = c)
    (hh : Rs.msm pk.h_query h = ((a * b - c) / X.δ) • g1) (e : G1 →ₗ[F] G2 →ₗ[F] GT) : Verifies e pk.vk pub (proofOf pk r s h pub priv) := by
  have hδ := hk.hδ
  have hγ := hk.hγ
  have eA : (proofOf pk r s h pub priv).a = (X.α + a + r * X.δ) • g1 := by
    show coeffVal _ _ _ _ _ = _
    rw [hk.aq, hk.a1, hk.d1, coeff_key m _ _ _ _ _ _ hp h1 hm, ea, smul_smul, ← add_smul]; congr 1; ring
  have eB : (proofOf pk r s h pub priv).b = (X.β + b + s * X.δ) • g2 := by
    show coeffVal _ _ _ _ _ = _
    rw [hk.bq2, hk.b2, hk.d2, coeff_key m _ _ _ _ _ _ hp h1 hm, eb, smul_smul, ← add_smul]; congr 1; ring
  have eB1 : coeffVal (s • pk.delta_g1) pk.b_g1_query pk.beta_g1 pub priv = (X.β + b + s * X.δ) • g1 := by
    rw [hk.bq, hk.b1, hk.d1, coeff_key m _ _ _ _ _ _ hp h1 hm, eb, smul_smul, ← add_smul]; congr 1; ring
  set cf : ℕ → F := fun j => X.β * uu L D M j + X.α * vv L D M j + ww L D M j with hcf
  have tot : ∑ j ∈ range m, (pub ++ priv).getD j 0 * cf j = X.β * a + X.α * b + c := by
    rw [← ea, ← eb, ← ec, Finset.mul_sum, Finset.mul_sum, ← Finset.sum_add_distrib, ← Finset.sum_add_distrib]
    exact Finset.sum_congr rfl (fun j _ => by simp only [hcf]; ring)
  have split : ∑ j ∈ range m, (pub ++ priv).getD j 0 * cf j = ∑ j ∈ range M.num_instance_variables, pub.getD j 0 * cf j + ∑ j ∈ range (m - M.num_instance_variables), priv.getD j 0 * cf (M.num_instance_variables + j) := by
    rw [show m = M.num_instance_variables + (m - M.num_instance_variables) by omega, Finset.sum_range_add]
    simp only [Nat.add_sub_cancel_left]
    congr 1
    · exact Finset.sum_congr rfl (fun j hj => by rw [getD_left _ _ _ (by have := Finset.mem_range.1 hj; omega)])
    · exact Finset.sum_congr rfl (fun j hj => by rw [← hpub, getD_right])
  have eI : Rs.msm pk.vk.gamma_abc_g1 pub = ((∑ j ∈ range M.num_instance_variables, pub.getD j 0 * cf j) / X.γ) • g1 := by
    rw [hk.ic, msm_range (fun j => (X.β * uu L D M j + X.α * vv L D M j + ww L D M j) / X.γ) g1]
    congr 1
    rw [Finset.sum_div]
    exact Finset.sum_congr rfl (fun j _ => by simp only [hcf]; ring)
  have eL : Rs.msm pk.l_query priv = ((∑ j ∈ range (m - M.num_instance_variables), priv.getD j 0 * cf (M.num_instance_variables + j)) / X.δ) • g1 := by
    rw [hk.lq, msm_range (fun j => (X.β * uu L D M (M.num_instance_variables + j) + X.α * vv L D M (M.num_instance_variables + j) + ww L D M (M.num_instance_variables + j)) / X.δ) g1]
    congr 1
    rw [Finset.sum_div]
    exact Finset.sum_congr rfl (fun j _ => by simp only [hcf]; ring)
  have eC : (proofOf pk r s h pub priv).c = (s * (X.α + a + r * X.δ) + r * (X.β + b + s * X.δ) - r * s * X.δ
      + (∑ j ∈ range (m - M.num_instance_variables), priv.getD j 0 * cf (M.num_instance_variables + j)) / X.δ + (a * b - c) / X.δ) • g1 := by
    show s • (proofOf pk r s h pub priv).a + r • coeffVal (s • pk.delta_g1) pk.b_g1_query pk.beta_g1 pub priv - (r * s) • pk.delta_g1 + Rs.msm pk.l_query priv + Rs.msm pk.h_query h = _
    rw [eA, eB1, eL, hh, hk.d1]
    simp only [smul_smul, ← add_smul, ← sub_smul]
  unfold Verifies
  rw [eA, eB, eC, eI, hk.a1, hk.b2, hk.c2, hk.d2]
  simp only [map_smul, LinearMap.smul_apply, smul_smul, ← add_smul]
  congr 1
  rw [split] at tot
  generalize hP : ∑ j ∈ range M.num_instance_variables, pub.getD j 0 * cf j = P at *
  generalize hQ : ∑ j ∈ range (m - M.num_instance_variables), priv.getD j 0 * cf (M.num_instance_variables + j) = Q at *
  have hc : c = P + Q - X.β * a - X.α * b := by rw [tot]; ring
  rw [hc]
  field_simp
  ring

/-- the assignment satisfies the constraint system -/
def Sat (z : List F) : Prop := ∀ i < M.num_constraints, C18.matval M.a z i * C18.matval M.b z i = C18.matval M.c z i

variable (hg : IsPrimitiveRoot D.gen D.size) (hn : (D.size : F) ≠ 0) (hL : Lag D X.τ L)
  (hsz : M.num_constraints + M.num_instance_variables ≤ D.size)
  (ha : C18.InRange M.a m) (hb : C18.InRange M.b m) (hc : C18.InRange M.c m)
  (la : M.a.length = M.num_constraints) (lb : M.b.length = M.num_constraints) (lc : M.c.length = M.num_constraints)

theorem matval_ge (mat : List (List (F × ℕ))) (z : List F) (i : ℕ) (h : mat.length ≤ i) : C18.matval mat z i = 0 := by
  unfold C18.matval; rw [List.getElem?_eq_none h]; rfl

include hg hn hL hsz ha hb hc la lb lc in
/-- with the quotient of the libsnark reduction (C18) and a key for it -/
theorem libsnark_verifies (σ : F) (hσ : σ ≠ 0) (hz : σ ^ D.size ≠ 1) (g1 : G1) (g2 : G2) (pk : ProvingKey F G1 G2) (hk : KeyOk X L D M m g1 g2 pk)
    (hq : pk.h_query = (List.range (D.size - 1)).map (fun j => (X.τ ^ j * (X.τ ^ D.size - 1) / X.δ) • g1))
    (pub priv : List F) (r s : F) (hpub : pub.length = M.num_instance_variables) (hp : 1 ≤ pub.length) (h1 : pub.getD 0 0 = 1) (hm : m = pub.length + priv.length)
    (sat : Sat M (pub ++ priv)) (e : G1 →ₗ[F] G2 →ₗ[F] GT) :
    Verifies e pk.vk pub (proofOf pk r s (C18.libsnarkVal D σ M pub (pub ++ priv)) pub priv) := by
  obtain ⟨A, B, C', H, dA, dB, dC, dH, vA, vB, vC, hl, hv, -, hmul⟩ := C18.libsnark_meaning D hg hn σ hσ hz M pub (pub ++ priv)
  have eq := hmul (by
    intro i hi
    rw [vA i hi, vB i hi, vC i hi]
    by_cases h : i < M.num_constraints
    · rw [if_neg (by omega)]; exact sat i h
    · rw [matval_ge M.b _ i (by omega), matval_ge M.c _ i (by omega), mul_zero])
  obtain ⟨ea, eb, ec⟩ := at_tau X L D M m hL pub priv hpub hm hsz ha hb hc la A B C' dA dB dC vA vB vC
  refine verifies_of X L D M m g1 g2 pk hk pub priv _ r s _ _ _ hpub hp h1 hm ea eb ec ?_ e
  have hD : 1 ≤ D.size := by omega
  rw [hq, msm_range (fun j => X.τ ^ j * (X.τ ^ D.size - 1) / X.δ) g1]
  congr 1
  have top : H.coeff (D.size - 1) = 0 := by
    by_contra hne
    have hH0 : H ≠ 0 := by rintro rfl; simp at hne
    have d1 : D.size - 1 ≤ H.natDegree := Polynomial.le_natDegree_of_ne_zero hne
    have hX : (Polynomial.X ^ D.size - 1 : F[X]).natDegree = D.size := by
      simpa using Polynomial.natDegree_X_pow_sub_C (n := D.size) (r := (1 : F))
    have hX0 : (Polynomial.X ^ D.size - 1 : F[X]) ≠ 0 := by
      intro h0; rw [h0] at hX; simp at hX; omega
    have d2 : (H * (Polynomial.X ^ D.size - 1)).natDegree = H.natDegree + D.size := by
      rw [Polynomial.natDegree_mul hH0 hX0, hX]
    have nA : A.natDegree ≤ D.size - 1 := by
      by_cases h0 : A = 0
      · simp [h0]
      · have := (Polynomial.natDegree_lt_iff_degree_lt h0).2 dA; omega
    have nB : B.natDegree ≤ D.size - 1 := by
      by_cases h0 : B = 0
      · simp [h0]
      · have := (Polynomial.natDegree_lt_iff_degree_lt h0).2 dB; omega
    have nC : C'.natDegree ≤ D.size - 1 := by
      by_cases h0 : C' = 0
      · simp [h0]
      · have := (Polynomial.natDegree_lt_iff_degree_lt h0).2 dC; omega
    have d3 : (A * B - C').natDegree ≤ (D.size - 1) + (D.size - 1) :=
      (Polynomial.natDegree_sub_le _ _).trans (max_le (Polynomial.natDegree_mul_le.trans (by omega)) (by omega))
    rw [← eq, d2] at d3
    omega
  have ev : H.eval X.τ = ∑ j ∈ range (D.size - 1), H.coeff j * X.τ ^ j := by
    have : H.natDegree < D.size := by
      by_cases h0 : H = 0
      · simp [h0]; omega
      · exact (Polynomial.natDegree_lt_iff_degree_lt h0).2 dH
    rw [Polynomial.eval_eq_sum_range' this]
    conv_lhs => rw [show D.size = (D.size - 1) + 1 by omega]
    rw [Finset.sum_range_succ, top]; simp
  have key : A.eval X.τ * B.eval X.τ - C'.eval X.τ = H.eval X.τ * (X.τ ^ D.size - 1) := by
    have := congrArg (Polynomial.eval X.τ) eq
    simp at this
    rw [this]
  rw [key, ev, Finset.sum_mul, Finset.sum_div]
  refine Finset.sum_congr rfl (fun j hj => ?_)
  rw [hv j (by have := Finset.mem_range.1 hj; omega)]
  ring

include hg hn hL hsz ha hb hc la lb lc in
/-- with the vector of the Circom reduction (C18) and a key for it: the query holds the odd Lagrange polynomials of the domain of twice the size -/
theorem circom_verifies (σ : F) (hσ : σ * σ = D.gen) (L2 : ℕ → F) (hL2 : Lag ⟨2 * D.size, σ⟩ X.τ L2) (g1 : G1) (g2 : G2) (pk : ProvingKey F G1 G2) (hk : KeyOk X L D M m g1 g2 pk)
    (hq : pk.h_query = (List.range D.size).map (fun i => (L2 (2 * i + 1) / X.δ) • g1))
    (pub priv : List F) (r s : F) (hpub : pub.length = M.num_instance_variables) (hp : 1 ≤ pub.length) (h1 : pub.getD 0 0 = 1) (hm : m = pub.length + priv.length)
    (sat : Sat M (pub ++ priv)) (e : G1 →ₗ[F] G2 →ₗ[F] GT) :
    Verifies e pk.vk pub (proofOf pk r s (C18.circomVal D σ M pub (pub ++ priv)) pub priv) := by
  obtain ⟨A, B, C', dA, dB, dC, vA, vB, vC, hl, hv⟩ := C18.circom_meaning D hg hn σ M pub (pub ++ priv)
  have vC' : ∀ i < D.size, C'.eval (D.gen ^ i) = C18.matval M.c (pub ++ priv) i := by
    intro i hi
    rw [vC i hi, vA i hi, vB i hi]
    by_cases h : i < M.num_constraints
    · rw [if_neg (by omega)]; exact sat i h
    · rw [matval_ge M.b _ i (by omega), matval_ge M.c _ i (by omega), mul_zero]
  obtain ⟨ea, eb, ec⟩ := at_tau X L D M m hL pub priv hpub hm hsz ha hb hc la A B C' dA dB dC vA vB vC'
  refine verifies_of X L D M m g1 g2 pk hk pub priv _ r s _ _ _ hpub hp h1 hm ea eb ec ?_ e
  rw [hq, msm_range (fun i => L2 (2 * i + 1) / X.δ) g1]
  congr 1
  have hD : 1 ≤ D.size := by omega
  have deg : (A * B - C').degree < ((2 * D.size : ℕ) : WithBot ℕ) := by
    by_cases h0 : A * B - C' = 0
    · rw [h0, Polynomial.degree_zero]; exact WithBot.bot_lt_coe _
    have nA : A.natDegree ≤ D.size - 1 := by
      by_cases h0 : A = 0
      · simp [h0]
      · have := (Polynomial.natDegree_lt_iff_degree_lt h0).2 dA; omega
    have nB : B.natDegree ≤ D.size - 1 := by
      by_cases h0 : B = 0
      · simp [h0]
      · have := (Polynomial.natDegree_lt_iff_degree_lt h0).2 dB; omega
    have nC : C'.natDegree ≤ D.size - 1 := by
      by_cases h0 : C' = 0
      · simp [h0]
      · have := (Polynomial.natDegree_lt_iff_degree_lt h0).2 dC; omega
    have d3 : (A * B - C').natDegree ≤ (D.size - 1) + (D.size - 1) :=
      (Polynomial.natDegree_sub_le _ _).trans (max_le (Polynomial.natDegree_mul_le.trans (by omega)) (by omega))
    exact (Polynomial.natDegree_lt_iff_degree_lt h0).1 (by omega)
  have key := hL2 (A * B - C') deg
  have sq : ∀ i, σ ^ (2 * i) = D.gen ^ i := fun i => by rw [pow_mul, pow_two, hσ]
  have dbl : ∀ (f : ℕ → F) (n : ℕ), ∑ i ∈ range (2 * n), f i = ∑ i ∈ range n, (f (2 * i) + f (2 * i + 1)) := by
    intro f n
    induction n with
    | zero => simp
    | succ n ih => rw [show 2 * (n + 1) = 2 * n + 1 + 1 by ring, Finset.sum_range_succ, Finset.sum_range_succ, Finset.sum_range_succ, ih]; ring
  have key2 : A.eval X.τ * B.eval X.τ - C'.eval X.τ = ∑ i ∈ range D.size, (A * B - C').eval (σ * D.gen ^ i) * L2 (2 * i + 1) := by
    rw [Polynomial.eval_sub, Polynomial.eval_mul] at key
    rw [key]
    show ∑ i ∈ range (2 * D.size), (A * B - C').eval (σ ^ i) * L2 i = _
    rw [dbl]
    refine Finset.sum_congr rfl (fun i hi => ?_)
    have : (A * B - C').eval (σ ^ (2 * i)) = 0 := by
      rw [sq, Polynomial.eval_sub, Polynomial.eval_mul, vC i (Finset.mem_range.1 hi), sub_self]
    rw [this, show σ ^ (2 * i + 1) = σ * D.gen ^ i by rw [pow_succ, sq, mul_comm]]
    ring
  rw [key2, Finset.sum_div]
  refine Finset.sum_congr rfl (fun i hi => ?_)
  rw [hv i (Finset.mem_range.1 hi)]
  ring
end
end C19
