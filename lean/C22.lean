import PlonkChal
import PlonkRounds
set_option linter.all false
set_option autoImplicit false
open Rs

/-! C22: the PLONK transcript.  Contracts of the extracted `Transcript`, `VerifierChallenges::new` and the five
rounds of the prover: which bytes are hashed, and that the prover's and the verifier's challenges are the same. -/
namespace Rs.Plonk
noncomputable section
variable {F G G2 GT B Sh St PG : Type} [Field F] [DecidableEq F] [Inhabited F] [AddCommGroup G] [Module F G] [DecidableEq GT] [AddCommGroup G2] [Module F G2] [Inhabited G] [Inhabited Sh] [K : Knobs F] [RF : Repr F] [RB : Repr B] [Coords G B] [PR : Pairing G G2 GT]

variable (vk : VerificationKey F G G2) (proof : PlonkProof F G) (pub : List F)

/-! ### The prover's challenges -/
section
variable [T : Driver F Sh St G PG]

theorem bind_ok_iff {α β : Type} {x : M α} {f : α → M β} {r : β} : (x >>= f) = .ok r ↔ ∃ a, x = .ok a ∧ f a = .ok r := by
  cases x with
  | error e => simp only [err_bind]; constructor
               · intro h; cases h
               · rintro ⟨a, h, _⟩; cases h
  | ok a => simp only [ok_bind]; constructor
            · intro h; exact ⟨a, rfl, h⟩
            · rintro ⟨b, h, hb⟩; cases h; exact hb
theorem conv_point (p : G) : conv p = .ok p := rfl

/-- the challenges a prover derives on its way: what each round adds -/
structure Same (vk : VerificationKey F G G2) (k : ZkVk F G G2) : Prop where
  qm : vk.qm = k.qm
  ql : vk.ql = k.ql
  qr : vk.qr = k.qr
  qo : vk.qo = k.qo
  qc : vk.qc = k.qc
  s1 : vk.s1 = k.s1
  s2 : vk.s2 = k.s2
  s3 : vk.s3 = k.s3

theorem round1_keeps (s : Round1 F G G2 Sh St) (r : Round2 F G G2 Sh St) (h : round1 (F := F) s = .ok r) :
    r.data.zkey = s.data.zkey ∧ r.data.witness.public_inputs = s.data.witness.public_inputs.drop 1 := by
  unfold round1 at h
  revert h
  simp only [bind_ok_iff, forall_exists_index, and_imp, Except.ok.injEq, pure_eq, conv, plonk_data_from, slice]
  intros
  rename_i hs _ _
  split at hs
  · cases hs
    subst_vars
    simp
  · cases hs

theorem round2_challenges (hw : Width B) (s : Round2 F G G2 Sh St) (r : Round3 F G G2 Sh St) (h : round2 (F := F) s = .ok r) :
    let k := s.data.zkey.verifying_key
    r.challenges.beta = chal (bytes2 k.qm k.ql k.qr k.qo k.qc k.s1 k.s2 k.s3 s.data.witness.public_inputs s.proof.commit_a s.proof.commit_b s.proof.commit_c) ∧
    r.challenges.gamma = chal (scBytes r.challenges.beta) ∧ r.data = s.data ∧
    r.proof.commit_a = s.proof.commit_a ∧ r.proof.commit_b = s.proof.commit_b ∧ r.proof.commit_c = s.proof.commit_c := by
  unfold round2 at h
  have hf := fun t => fold_scalars s.data.witness.public_inputs t
  simp only [add_scalar_spec, add_point_spec hw, ok_bind, pure_eq, conv_point, get_challenge_spec] at hf h
  simp only [hf, ok_bind, add_point_spec hw, add_scalar_spec, pure_eq] at h
  revert h
  simp only [bind_ok_iff, forall_exists_index, and_imp, Except.ok.injEq]
  intros
  subst_vars
  simp only [round2_challenges_new, round2_proof_new, bytes2, List.nil_append, List.append_assoc, and_self, true_and]

theorem round3_challenges (hw : Width B) (s : Round3 F G G2 Sh St) (r : Round4 F G G2 Sh St) (h : round3 (F := F) s = .ok r) :
    r.challenges.alpha = chal (scBytes s.challenges.beta ++ scBytes s.challenges.gamma ++ ptBytes s.proof.commit_z) ∧ r.challenges.alpha2 = r.challenges.alpha ^ 2 ∧
    r.challenges.beta = s.challenges.beta ∧ r.challenges.gamma = s.challenges.gamma ∧ r.data = s.data ∧
    r.proof.commit_a = s.proof.commit_a ∧ r.proof.commit_b = s.proof.commit_b ∧ r.proof.commit_c = s.proof.commit_c ∧ r.proof.commit_z = s.proof.commit_z := by
  unfold round3 at h
  simp only [add_scalar_spec, add_point_spec hw, ok_bind, pure_eq, conv_point, get_challenge_spec] at h
  revert h
  simp only [bind_ok_iff, forall_exists_index, and_imp, Except.ok.injEq]
  intros
  subst_vars
  simp only [round3_challenges_new, round3_proof_new, List.nil_append, List.append_assoc, pow_two, and_self]

theorem round4_challenges (hw : Width B) (s : Round4 F G G2 Sh St) (r : Round5 F G G2 Sh St) (h : round4 (F := F) s = .ok r) :
    r.challenges.xi = chal (scBytes s.challenges.alpha ++ ptBytes s.proof.commit_t1 ++ ptBytes s.proof.commit_t2 ++ ptBytes s.proof.commit_t3) ∧
    r.challenges.alpha = s.challenges.alpha ∧ r.challenges.beta = s.challenges.beta ∧ r.challenges.gamma = s.challenges.gamma ∧ r.data = s.data ∧
    r.proof.commit_a = s.proof.commit_a ∧ r.proof.commit_b = s.proof.commit_b ∧ r.proof.commit_c = s.proof.commit_c ∧ r.proof.commit_z = s.proof.commit_z ∧
    r.proof.commit_t1 = s.proof.commit_t1 ∧ r.proof.commit_t2 = s.proof.commit_t2 ∧ r.proof.commit_t3 = s.proof.commit_t3 := by
  unfold round4 at h
  simp only [add_scalar_spec, add_point_spec hw, ok_bind, pure_eq, conv_point, get_challenge_spec] at h
  revert h
  simp only [bind_ok_iff, forall_exists_index, and_imp, Except.ok.injEq]
  intros
  subst_vars
  simp only [round4_challenges_new, round4_proof_new, List.nil_append, List.append_assoc, and_self]

/-- what the last round computes with, and what it hands out -/
theorem round5_challenges (hw : Width B) (s : Round5 F G G2 Sh St) (p : PlonkProof F G) (h : round5 (F := F) s = .ok p) :
    (let v : F := chal (scBytes s.challenges.xi ++ (scBytes s.proof.eval_a ++ (scBytes s.proof.eval_b ++ (scBytes s.proof.eval_c ++ (scBytes s.proof.eval_s1 ++ (scBytes s.proof.eval_s2 ++ scBytes s.proof.eval_zw))))))
     let ch : Round5Challenges F := { beta := s.challenges.beta, gamma := s.challenges.gamma, alpha := s.challenges.alpha, xi := s.challenges.xi, v := [v, v ^ 2, v ^ 3, v ^ 4, v ^ 5] }
     ∃ i r wxi wxiw, compute_r i s.domains s.proof ch s.data s.polys = .ok r ∧ compute_wxi i s.proof ch s.data s.polys r = .ok wxi ∧ compute_wxiw i s.domains s.proof ch s.polys = .ok wxiw) ∧
    p.a = s.proof.commit_a ∧ p.b = s.proof.commit_b ∧ p.c = s.proof.commit_c ∧ p.z = s.proof.commit_z ∧ p.t1 = s.proof.commit_t1 ∧ p.t2 = s.proof.commit_t2 ∧ p.t3 = s.proof.commit_t3 ∧
    p.eval_a = s.proof.eval_a ∧ p.eval_b = s.proof.eval_b ∧ p.eval_c = s.proof.eval_c ∧ p.eval_s1 = s.proof.eval_s1 ∧ p.eval_s2 = s.proof.eval_s2 ∧ p.eval_zw = s.proof.eval_zw := by
  unfold round5 at h
  have hp := powers_fold (F := F) 1
  simp only [add_scalar_spec, ok_bind, pure_eq, conv_point, get_challenge_spec, into_final_proof] at hp h
  simp only [← bind_assoc] at hp h
  rw [hp] at h
  simp only [ok_bind] at h
  revert h
  simp only [bind_assoc, bind_ok_iff, forall_exists_index, and_imp, Except.ok.injEq, List.nil_append, List.append_assoc, round5_challenges_new]
  intros
  subst_vars
  refine ⟨⟨?i, ?r, ?w1, ?w2, ?h1, ?h2, ?h3⟩, rfl, rfl, rfl, rfl, rfl, rfl, rfl, rfl, rfl, rfl, rfl, rfl, rfl⟩
  case h1 => assumption
  case h2 => assumption
  case h3 => assumption

/-- the first public input is the constant wire; the others are kept while the derived values are computed -/
theorem witness_keeps (w : SharedWitness F Sh) (n : ℕ) (r : PlonkWitness F Sh) (h : plonk_witness_new (F := F) w n = .ok r) :
    r.public_inputs.drop 1 = w.public_inputs.drop 1 := by
  unfold plonk_witness_new at h
  revert h
  simp only [bind_ok_iff, forall_exists_index, and_imp, Except.ok.injEq, pure_eq]
  intros
  subst_vars
  rename_i hs
  unfold rset at hs
  split at hs
  · cases hs
    cases hp : w.public_inputs with
    | nil => simp [hp]
    | cons x l => simp [hp]
  · cases hs
theorem additions_keep (i : ℕ) (w : SharedWitness F Sh) (k : Zkey F G G2) (r : PlonkWitness F Sh) (h : calculate_additions (F := F) i w k = .ok r) :
    r.public_inputs.drop 1 = w.public_inputs.drop 1 := by
  unfold calculate_additions at h
  obtain ⟨w0, h0, h1⟩ := bind_ok_iff.1 h
  have hk := witness_keeps _ _ _ h0
  have h2 := h1
  rw [← hk]
  clear h h0 h1 hk
  revert w0
  generalize k.additions = l
  intro w0 h2
  induction l generalizing w0 with
  | nil => cases h2; rfl
  | cons a l ih =>
    simp only [List.foldlM_cons] at h2
    obtain ⟨w2, h4, h5⟩ := bind_ok_iff.1 h2
    rw [ih _ h5]
    revert h4
    simp only [bind_ok_iff, forall_exists_index, and_imp, Except.ok.injEq, pure_eq]
    intros
    subst_vars
    rfl
theorem init_keeps (nets : List Unit) (st : St) (k : Zkey F G G2) (w : SharedWitness F Sh) (r : Round1 F G G2 Sh St × St) (h : init_round (F := F) nets st k w = .ok r) :
    r.1.data.zkey = k ∧ r.1.data.witness.public_inputs.drop 1 = w.public_inputs.drop 1 := by
  unfold init_round at h
  revert h
  simp only [bind_ok_iff, forall_exists_index, and_imp, Except.ok.injEq, pure_eq]
  intros
  subst_vars
  rename_i hk _ _ _ _
  exact ⟨rfl, additions_keep (F := F) (G2 := G2) _ _ _ _ (by assumption)⟩

/-- every challenge the prover computes with is the one the verifier derives from the finished proof -/
theorem prover_challenges (hw : Width B) (nets : List Unit) (st : St) (k : Zkey F G G2) (w : SharedWitness F Sh) (p : PlonkProof F G) (vk : VerificationKey F G G2)
    (hs : Same vk k.verifying_key) (h : prove_inner (F := F) nets st k w = .ok p) :
    ∃ s : Round5 F G G2 Sh St, round5 (F := F) s = .ok p ∧
      (let c := challengesOf vk p (w.public_inputs.drop 1)
       s.challenges.beta = c.beta ∧ s.challenges.gamma = c.gamma ∧ s.challenges.alpha = c.alpha ∧ s.challenges.xi = c.xi ∧
       (∃ i r wxi wxiw, compute_r i s.domains s.proof ⟨c.beta, c.gamma, c.alpha, c.xi, c.v⟩ s.data s.polys = .ok r ∧
          compute_wxi i s.proof ⟨c.beta, c.gamma, c.alpha, c.xi, c.v⟩ s.data s.polys r = .ok wxi ∧ compute_wxiw i s.domains s.proof ⟨c.beta, c.gamma, c.alpha, c.xi, c.v⟩ s.polys = .ok wxiw)) ∧
      verifier_challenges vk p (w.public_inputs.drop 1) = .ok (challengesOf vk p (w.public_inputs.drop 1)) := by
  unfold prove_inner at h
  simp only [bind_ok_iff, pure_eq] at h
  obtain ⟨s1, h1, s2, h2, s3, h3, s4, h4, s5, h5, q, h6, hq⟩ := h
  cases hq
  obtain ⟨k1, p1⟩ := init_keeps _ _ _ _ _ h1
  obtain ⟨k2, p2⟩ := round1_keeps _ _ h2
  have r2 := round2_challenges hw _ _ h3
  have r3 := round3_challenges hw _ _ h4
  have r4 := round4_challenges hw _ _ h5
  have r5 := round5_challenges hw _ _ h6
  refine ⟨s5, h6, ?_, verifier_challenges_spec _ _ _ hw⟩
  obtain ⟨b2, g2, d2, a2, bb2, c2⟩ := r2
  obtain ⟨al3, _, b3, g3, d3, a3, bb3, c3, z3⟩ := r3
  obtain ⟨x4, al4, b4, g4, d4, a4, bb4, c4, z4, t14, t24, t34⟩ := r4
  obtain ⟨e5, a5, bb5, c5, z5, t15, t25, t35, ea, eb, ec, e1, e2, ez⟩ := r5
  have hb : s5.challenges.beta = (challengesOf vk p (w.public_inputs.drop 1)).beta := by
    rw [b4, b3, b2]
    simp only [challengesOf, hs.qm, hs.ql, hs.qr, hs.qo, hs.qc, hs.s1, hs.s2, hs.s3, k2, k1, p2, p1, a5, a4, a3, a2, bb5, bb4, bb3, bb2, c5, c4, c3, c2]
  have hg : s5.challenges.gamma = (challengesOf vk p (w.public_inputs.drop 1)).gamma := by
    rw [g4, g3, g2, ← b3, ← b4, hb]; simp only [challengesOf]
  have ha : s5.challenges.alpha = (challengesOf vk p (w.public_inputs.drop 1)).alpha := by
    rw [al4, al3, ← b3, ← b4, ← g3, ← g4, hb, hg]; simp only [challengesOf, z5, z4, z3]
  have hx : s5.challenges.xi = (challengesOf vk p (w.public_inputs.drop 1)).xi := by
    rw [x4, ← al4, ha]; simp only [challengesOf, t15, t14, t25, t24, t35, t34]
  have hv : (challengesOf vk p (w.public_inputs.drop 1)).v = _ := rfl
  refine ⟨hb, hg, ha, hx, ?_⟩
  rw [hb, hg, ha, hx] at e5
  simp only [challengesOf, List.append_assoc, ea, eb, ec, e1, e2, ez] at e5 ⊢
  exact e5
end
end
end Rs.Plonk
