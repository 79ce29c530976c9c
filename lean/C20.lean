import PlonkDom
import PlonkChal
import GrothVerify
set_option linter.all false
set_option autoImplicit false
open Rs

/-! C20: the verifiers accept exactly when the verification equation holds.  Contracts of the extracted
`Plonk::verify` with all its parts, and of `Groth16::verify` over the arkworks verifier. -/
namespace Rs.Plonk
noncomputable section
variable {F G G2 GT B Sh St PG : Type} [Field F] [DecidableEq F] [Inhabited F] [AddCommGroup G] [Module F G] [DecidableEq GT] [AddCommGroup G2] [Module F G2] [Inhabited G] [Inhabited Sh] [K : Knobs F] [RF : Repr F] [RB : Repr B] [Coords G B] [PR : Pairing G G2 GT]

/-- the i-th Lagrange polynomial of the domain of size n generated by w, at x -/
def lag (n : ℕ) (w x : F) (i : ℕ) : F := (w ^ i * (x ^ n - 1)) / ((n : F) * (x - w ^ i))

theorem rdiv_ok (a b : F) (h : b ≠ 0) : rdiv a b = .ok (a / b) := by simp [rdiv, h]

theorem square_fold (x : F) (p : ℕ) : (List.range p).foldl (fun (s : F × ℕ) (_ : ℕ) => (s.1 * s.1, s.2 * 2)) (x, 1) = (x ^ 2 ^ p, 2 ^ p) := by
  induction p with
  | zero => simp
  | succ p ih =>
    rw [List.range_succ, List.foldl_append, ih]
    simp only [List.foldl_cons, List.foldl_nil, Prod.mk.injEq]
    exact ⟨by rw [← pow_add]; congr 1; rw [pow_succ]; ring, by rw [pow_succ]⟩

theorem lagrange_spec (power np : ℕ) (xi : F) (D : Domains F) (hn : ((2 ^ power : ℕ) : F) ≠ 0) (hx : ∀ i, i < max 1 np → xi ≠ D.root_of_unity_pow ^ i) :
    calculate_lagrange_evaluations power np xi D = .ok ((List.range (max 1 np)).map (lag (2 ^ power) D.root_of_unity_pow xi), xi ^ 2 ^ power) := by
  unfold calculate_lagrange_evaluations
  have hs := square_fold xi power
  simp only [hs, psub, rfrom]
  have key := foldlM_range_inv (max 1 np) (fun (s : List F × F) (_ : ℕ) => do
      let t__1 ← (rdiv (s.2 * (xi ^ 2 ^ power - 1)) (((2 ^ power : ℕ) : F) * (xi - s.2)))
      pure (s.1 ++ [t__1], s.2 * D.root_of_unity_pow)) ([], 1)
    (fun k s => s.1 = (List.range k).map (lag (2 ^ power) D.root_of_unity_pow xi) ∧ s.2 = D.root_of_unity_pow ^ k) (by simp) (by
      rintro i hi ⟨l, w⟩ ⟨h1, h2⟩
      dsimp only at h1 h2 ⊢
      subst h1; subst h2
      rw [rdiv_ok _ _ (mul_ne_zero hn (sub_ne_zero.2 (hx i hi))), ok_bind]
      exact Ens.ok ⟨by rw [List.range_succ, List.map_append]; simp [lag], by rw [pow_succ]⟩)
  obtain ⟨⟨l, w⟩, e, h1, h2⟩ := key
  dsimp only at h1 h2
  subst h1
  try simp only [psub, rfrom] at e ⊢
  first
    | rw [e]; rfl
    | (have e' := e; simp only [ok_bind, pure_eq] at e' ⊢; rw [e']; rfl)

/-- −Σ Lᵢ·xᵢ -/
def piOf (l pub : List F) : F := -((List.zipWith (· * ·) l pub).sum)
theorem pi_spec (pub l : List F) : calculate_pi pub l = piOf l pub := by
  unfold calculate_pi piOf
  suffices h : ∀ a : F, (List.zip pub l).foldl (fun pi (x : F × F) => psub pi (x.2 * x.1)) a = a + -((List.zipWith (· * ·) l pub).sum) by
    have := h 0; rw [zero_add] at this; exact this
  induction pub generalizing l with
  | nil => intro a; simp
  | cons x pub ih =>
    cases l with
    | nil => intro a; simp
    | cons y l => intro a; rw [List.zip_cons_cons, List.foldl_cons, ih, List.zipWith_cons_cons, List.sum_cons]; simp only [psub]; ring

variable (vk : VerificationKey F G G2) (proof : PlonkProof F G) (pub : List F)

/-- the verification equation of the protocol for challenges β γ α ξ v u and the domain generator w -/
def Equation (be ga al xi v u w : F) : Prop :=
  let n := 2 ^ vk.power
  let L0 := lag n w xi 0
  let PI := piOf ((List.range (max 1 vk.n_public)).map (lag n w xi)) pub
  let a := proof.eval_a; let b := proof.eval_b; let c := proof.eval_c
  let s1 := proof.eval_s1; let s2 := proof.eval_s2; let zw := proof.eval_zw
  let r0 := PI - L0 * al ^ 2 - al * (a + be * s1 + ga) * (b + be * s2 + ga) * (c + ga) * zw
  let D : G := (a * b) • vk.qm + a • vk.ql + b • vk.qr + c • vk.qo + vk.qc
    + (al * (a + be * xi + ga) * (b + be * vk.k1 * xi + ga) * (c + be * vk.k2 * xi + ga) + L0 * al ^ 2 + u) • proof.z
    - (al * be * zw * (a + be * s1 + ga) * (b + be * s2 + ga)) • vk.s3
    - (xi ^ n - 1) • (proof.t1 + xi ^ n • proof.t2 + (xi ^ n) ^ 2 • proof.t3)
  let Fp : G := D + v • proof.a + v ^ 2 • proof.b + v ^ 3 • proof.c + v ^ 4 • vk.s1 + v ^ 5 • vk.s2
  let E : G := (v * a + v ^ 2 * b + v ^ 3 * c + v ^ 4 * s1 + v ^ 5 * s2 + u * zw - r0) • (PR.g1)
  PR.pairing (proof.wxi + u • proof.wxiw) vk.x2 = PR.pairing (xi • proof.wxi + (u * xi * w) • proof.wxiw + Fp - E) (PR.g2)

theorem r0_d_spec (ch : VerifierChallenges F) (pi l0 xin : F) :
    calculate_r0_d vk proof ch pi l0 xin =
      (pi - l0 * ch.alpha ^ 2 - ch.alpha * (proof.eval_a + ch.beta * proof.eval_s1 + ch.gamma) * (proof.eval_b + ch.beta * proof.eval_s2 + ch.gamma) * (proof.eval_c + ch.gamma) * proof.eval_zw,
       (proof.eval_a * proof.eval_b) • vk.qm + proof.eval_a • vk.ql + proof.eval_b • vk.qr + proof.eval_c • vk.qo + vk.qc
        + (ch.alpha * (proof.eval_a + ch.beta * ch.xi + ch.gamma) * (proof.eval_b + ch.beta * vk.k1 * ch.xi + ch.gamma) * (proof.eval_c + ch.beta * vk.k2 * ch.xi + ch.gamma) + l0 * ch.alpha ^ 2 + ch.u) • proof.z
        - (ch.alpha * ch.beta * proof.eval_zw * (proof.eval_a + ch.beta * proof.eval_s1 + ch.gamma) * (proof.eval_b + ch.beta * proof.eval_s2 + ch.gamma)) • vk.s3
        - (xin - 1) • (proof.t1 + xin • proof.t2 + xin ^ 2 • proof.t3)) := by
  unfold calculate_r0_d
  simp only [psub, point_mul, Prod.mk.injEq]
  exact ⟨by ring, by module⟩

theorem idx5 (c0 c1 c2 c3 c4 : F) : idx [c0, c1, c2, c3, c4] 0 = .ok c0 ∧ idx [c0, c1, c2, c3, c4] 1 = .ok c1 ∧ idx [c0, c1, c2, c3, c4] 2 = .ok c2 ∧ idx [c0, c1, c2, c3, c4] 3 = .ok c3 ∧ idx [c0, c1, c2, c3, c4] 4 = .ok c4 := by
  simp [idx]

theorem e_spec (ch : VerifierChallenges F) (r0 v : F) (hv : ch.v = [v, v ^ 2, v ^ 3, v ^ 4, v ^ 5]) :
    calculate_e (G2 := G2) proof ch r0 = .ok ((v * proof.eval_a + v ^ 2 * proof.eval_b + v ^ 3 * proof.eval_c + v ^ 4 * proof.eval_s1 + v ^ 5 * proof.eval_s2 + ch.u * proof.eval_zw - r0) • (PR.g1)) := by
  unfold calculate_e
  obtain ⟨h0, h1, h2, h3, h4⟩ := idx5 v (v ^ 2) (v ^ 3) (v ^ 4) (v ^ 5)
  simp only [hv, h0, h1, h2, h3, h4, ok_bind, pure_eq, psub, point_mul]

theorem f_spec (ch : VerifierChallenges F) (d : G) (v : F) (hv : ch.v = [v, v ^ 2, v ^ 3, v ^ 4, v ^ 5]) :
    calculate_f vk proof ch d = .ok (d + v • proof.a + v ^ 2 • proof.b + v ^ 3 • proof.c + v ^ 4 • vk.s1 + v ^ 5 • vk.s2) := by
  unfold calculate_f
  obtain ⟨h0, h1, h2, h3, h4⟩ := idx5 v (v ^ 2) (v ^ 3) (v ^ 4) (v ^ 5)
  simp only [hv, h0, h1, h2, h3, h4, ok_bind, pure_eq, point_mul]

theorem pairing_spec (ch : VerifierChallenges F) (e f : G) (D : Domains F) :
    valid_pairing vk proof ch e f D = true ↔
      PR.pairing (proof.wxi + ch.u • proof.wxiw) vk.x2 = PR.pairing (ch.xi • proof.wxi + (ch.u * ch.xi * D.root_of_unity_pow) • proof.wxiw + f - e) (PR.g2) := by
  unfold valid_pairing
  simp only [psub, point_mul, beq_iff_eq]
  rw [show ∀ x y : G, x - e + f = x + f - e from fun x _ => by abel]
  exact 0

theorem wrong_count (h : vk.n_public ≠ pub.length) : verify vk proof pub = .error .err := by
  unfold verify
  rw [if_pos (by simpa using h)]
  rfl

/-- a domain too large for the field is an error -/
theorem too_large (ch : VerifierChallenges F) (hc : vk.n_public = pub.length) (hch : verifier_challenges vk proof pub = .ok ch) (hk : K.twoAdicity < vk.power + 2) : verify vk proof pub = .error .err := by
  unfold verify
  rw [if_neg (by simpa using hc), hch, ok_bind, Nat.one_shiftLeft]
  have : domains_new (F := F) (2 ^ vk.power) = .error .err := by
    unfold domains_new
    rw [rsub_nat Nat.one_le_two_pow, ok_bind, if_neg (by simp [pow_and_pred])]
    have e4 : R2Domain.new K (2 ^ vk.power * 4) = none := by
      unfold R2Domain.new
      rw [show 2 ^ vk.power * 4 = 2 ^ (vk.power + 2) by rw [pow_add]; rfl, nextPow2_pow]
      simp only [Nat.log2_two_pow, if_neg (show ¬ vk.power + 2 ≤ K.twoAdicity by omega)]
    rw [e4]
    cases R2Domain.new K (2 ^ vk.power) <;> simp [okOr] <;> rfl
  rw [this]; rfl

open Classical in
/-- with the right number of public inputs the verifier answers, and accepts exactly when the equation holds; the only
exception is an evaluation challenge that is a point of the domain -/
theorem verify_spec (H : FieldOk (F := F)) (ch : VerifierChallenges F) (v : F) (hc : vk.n_public = pub.length) (hch : verifier_challenges vk proof pub = .ok ch)
    (hv : ch.v = [v, v ^ 2, v ^ 3, v ^ 4, v ^ 5]) (hk : vk.power + 2 ≤ K.twoAdicity) (hx : ch.xi ^ 2 ^ vk.power ≠ 1) :
    ∃ w : F, IsPrimitiveRoot w (2 ^ vk.power) ∧
      verify vk proof pub = if Equation vk proof pub ch.beta ch.gamma ch.alpha ch.xi v ch.u w then .ok () else .error .err := by
  obtain ⟨D, eD, hD⟩ := domains_new_spec H vk.power hk
  have hw : IsPrimitiveRoot D.root_of_unity_pow (2 ^ vk.power) := by rw [hD.pow]; exact hD.prim
  refine ⟨D.root_of_unity_pow, hw, ?_⟩
  have hn : ((2 ^ vk.power : ℕ) : F) ≠ 0 := by
    push_cast
    refine pow_ne_zero _ (fun h => H.neg ?_)
    have : (1 : F) + 1 = 0 := by rw [one_add_one_eq_two]; exact h
    exact (eq_neg_of_add_eq_zero_left this).symm
  have hl := lagrange_spec vk.power vk.n_public ch.xi D hn (fun i hi e => hx (by rw [e, ← pow_mul, mul_comm, pow_mul, hw.pow_eq_one, one_pow]))
  unfold verify
  rw [if_neg (by simpa using hc), hch, ok_bind, Nat.one_shiftLeft, eD, ok_bind]
  dsimp only
  rw [hl, ok_bind]
  have h0 : idx ((List.range (max 1 vk.n_public)).map (lag (2 ^ vk.power) D.root_of_unity_pow ch.xi)) 0 = .ok (lag (2 ^ vk.power) D.root_of_unity_pow ch.xi 0) := by
    refine idx_eq_ok ?_
    rw [List.getElem?_map, List.getElem?_range (by omega)]; rfl
  dsimp only
  rw [h0, ok_bind, pi_spec, r0_d_spec]
  dsimp only
  rw [e_spec (G2 := G2) proof ch _ v hv, ok_bind, f_spec vk proof ch _ v hv, ok_bind]
  have hp := fun e f => pairing_spec vk proof ch e f D
  have hE : ∀ e f : G, (PR.pairing (proof.wxi + ch.u • proof.wxiw) vk.x2 = PR.pairing (ch.xi • proof.wxi + (ch.u * ch.xi * D.root_of_unity_pow) • proof.wxiw + f - e) (PR.g2)) = (valid_pairing vk proof ch e f D = true) := fun e f => (propext (hp e f)).symm
  unfold Equation
  dsimp only
  rw [hE]
  generalize valid_pairing vk proof ch _ _ D = b
  cases b <;> simp <;> rfl
open Classical in
/-- the contract of `Plonk::verify`: an error for a wrong number of public inputs or a domain beyond the field, otherwise
acceptance exactly when the equation holds under the challenges of the transcript -/
theorem plonk_verify_spec (hw : Width B) (H : FieldOk (F := F)) (hx : (challengesOf vk proof pub).xi ^ 2 ^ vk.power ≠ 1) :
    ∃ w : F, (vk.power + 2 ≤ K.twoAdicity → IsPrimitiveRoot w (2 ^ vk.power)) ∧
      verify vk proof pub =
        if vk.n_public = pub.length ∧ vk.power + 2 ≤ K.twoAdicity ∧
          (let ch := challengesOf vk proof pub; Equation vk proof pub ch.beta ch.gamma ch.alpha ch.xi (ch.v.headD 0) ch.u w) then .ok () else .error .err := by
  have hch := verifier_challenges_spec vk proof pub hw
  by_cases hc : vk.n_public = pub.length
  · by_cases hk : vk.power + 2 ≤ K.twoAdicity
    · obtain ⟨w, h1, h2⟩ := verify_spec vk proof pub H _ ((challengesOf vk proof pub).v.headD 0) hc hch rfl hk hx
      refine ⟨w, fun _ => h1, h2.trans ?_⟩
      simp only [hc, hk, true_and]
    · refine ⟨1, fun h => absurd h hk, ?_⟩
      rw [too_large vk proof pub _ hc hch (by omega), if_neg (fun h => hk h.2.1)]
  · by_cases hk : vk.power + 2 ≤ K.twoAdicity
    · obtain ⟨D, -, hD⟩ := domains_new_spec H vk.power hk
      exact ⟨_, fun _ => hD.prim, by rw [wrong_count vk proof pub hc, if_neg (fun h => hc h.1)]⟩
    · exact ⟨1, fun h => absurd h hk, by rw [wrong_count vk proof pub hc, if_neg (fun h => hc h.1)]⟩
end
end Rs.Plonk

namespace Rs.Prove
noncomputable section
variable {F G1 G2 GT : Type} [Field F] [DecidableEq F] [Inhabited F] [AddCommGroup G1] [Module F G1] [AddCommGroup G2] [AddCommGroup GT] [DecidableEq GT] [Inhabited G1] [P : PairingMap G1 G2 GT]

theorem groth_wrong_count (vk : VerifyingKey G1 G2) (proof : Proof G1 G2) (pub : List F) (h : pub.length + 1 ≠ vk.gamma_abc_g1.length) : groth_verify vk proof pub = .error .err := by
  unfold groth_verify
  rw [if_pos (by simpa using h)]
  rfl

/-- Σ xᵢ·ICᵢ₊₁ + IC₀ -/
def inputPoint (vk : VerifyingKey G1 G2) (pub : List F) : G1 := vk.gamma_abc_g1.headD 0 + ((pub.zip vk.gamma_abc_g1.tail).map (fun x => x.1 • x.2)).sum

theorem prepare_spec (vk : VerifyingKey G1 G2) (pub : List F) (h : pub.length + 1 = vk.gamma_abc_g1.length) : prepareInputs vk pub = .ok (inputPoint vk pub) := by
  unfold prepareInputs inputPoint
  cases e : vk.gamma_abc_g1 with
  | nil => rw [e] at h; simp at h
  | cons g rest =>
    simp only [List.headD_cons, List.tail_cons]
    congr 1
    clear h e
    generalize pub.zip rest = l
    induction l generalizing g with
    | nil => simp
    | cons x l ih => rw [List.foldl_cons, ih, List.map_cons, List.sum_cons, add_assoc]

open Classical in
/-- with the right number of public inputs: accepted exactly when e(A,B) = e(α,β) + e(IC,γ) + e(C,δ) -/
theorem groth_verify_spec (hneg : ∀ (a : G1) (b : G2), P.e a (-b) = -P.e a b) (vk : VerifyingKey G1 G2) (proof : Proof G1 G2) (pub : List F) (h : pub.length + 1 = vk.gamma_abc_g1.length) :
    groth_verify vk proof pub = if P.e proof.a proof.b = P.e vk.alpha_g1 vk.beta_g2 + P.e (inputPoint vk pub) vk.gamma_g2 + P.e proof.c vk.delta_g2 then .ok () else .error .err := by
  unfold groth_verify
  rw [if_neg (by simpa using h)]
  dsimp only
  unfold arkVerify prepareVk
  dsimp only
  rw [prepare_spec vk pub h, ok_bind, pure_eq, ok_bind]
  have e : (P.e proof.a proof.b + P.e (inputPoint vk pub) (-vk.gamma_g2) + P.e proof.c (-vk.delta_g2) = P.e vk.alpha_g1 vk.beta_g2) = (P.e proof.a proof.b = P.e vk.alpha_g1 vk.beta_g2 + P.e (inputPoint vk pub) vk.gamma_g2 + P.e proof.c vk.delta_g2) := by
    rw [hneg, hneg]
    refine propext ⟨fun h => ?_, fun h => ?_⟩
    · rw [← h]; abel
    · rw [h]; abel
  by_cases hc : P.e proof.a proof.b = P.e vk.alpha_g1 vk.beta_g2 + P.e (inputPoint vk pub) vk.gamma_g2 + P.e proof.c vk.delta_g2
  · rw [if_pos hc, if_pos (by rw [decide_eq_true_eq, e]; exact hc)]; rfl
  · rw [if_neg hc, if_neg (by rw [decide_eq_true_eq, e]; exact hc)]; rfl
end
end Rs.Prove
