import Lib
import PlonkTypes
set_option linter.all false
set_option autoImplicit false
open Rs

/-! Contracts of `Domains::new`: which roots of unity the PLONK prover and verifier use. -/
namespace Rs.Plonk
noncomputable section
variable {F : Type} [Field F] [DecidableEq F] [Inhabited F] [K : Knobs F]

/-- facts of the field: its two-adicity is positive, a non-residue's power is −1, and there is a non-residue among 1, 2, … -/
structure FieldOk : Prop where
  pos : 0 < K.twoAdicity
  neg : (-1 : F) ≠ 1
  nonres : ∀ x : F, K.isNonResidue x = true → x ^ (K.trace * 2 ^ (K.twoAdicity - 1)) = -1
  ex : ∃ k : ℕ, K.isNonResidue (1 + (k : F)) = true

theorem roots_of_unity_spec (H : FieldOk (F := F)) : Ens (roots_of_unity (F := F)) (fun r =>
    K.isNonResidue r.1 = true ∧ r.2.length = K.twoAdicity + 1 ∧ ∀ i, i ≤ K.twoAdicity → r.2[i]? = some ((r.1 ^ K.trace) ^ 2 ^ (K.twoAdicity - i))) := by
  classical
  unfold roots_of_unity
  simp only [unwrap_some, ok_bind, pure_eq]
  have hex := H.ex
  refine Ens.bind (p := fun q : F => K.isNonResidue q = true) ?_ (fun q hq => ?_)
  · let P : ℕ → Prop := fun k => K.isNonResidue (1 + (k : F)) = true
    let m : F → ℕ := fun q => if h : ∃ i, i ≤ Nat.find hex ∧ q = 1 + (i : F) then Nat.find hex - Nat.find h else 0
    -- the number of the round is part of the state of the argument
    suffices Hs : ∀ d i : ℕ, i + d = Nat.find hex → ∃ n, whileFuel (fun q : F => (Except.ok (!((K.isNonResidue q) == true)) : M Bool)) (fun q => Except.ok (q + 1)) n (1 + (i : F)) = some (.ok (1 + ((Nat.find hex : ℕ) : F))) by
      obtain ⟨n, hn⟩ := Hs (Nat.find hex) 0 (by omega)
      refine ⟨_, whileM_of (n := n) (r := .ok _) (by simpa using hn), Nat.find_spec hex⟩
    intro d
    induction d with
    | zero =>
      intro i hi
      refine ⟨1, ?_⟩
      have : i = Nat.find hex := by omega
      subst this
      simp [whileFuel, Nat.find_spec hex]
    | succ d ih =>
      intro i hi
      obtain ⟨n, hn⟩ := ih (i + 1) (by omega)
      refine ⟨n + 1, ?_⟩
      have hx : K.isNonResidue (1 + (i : F)) = false := by
        have := Nat.find_min hex (show i < Nat.find hex by omega)
        simpa using this
      simp only [whileFuel, hx]
      rw [← hn]; push_cast; simp [add_assoc]
  · have hl : (List.replicate (K.twoAdicity + 1) (0 : F)).length = K.twoAdicity + 1 := by simp
    rw [rset_of_lt (by simp), ok_bind]
    refine Ens.bind (p := fun l : List F => l.length = K.twoAdicity + 1 ∧ ∀ i, i ≤ K.twoAdicity → l[i]? = some ((q ^ K.trace) ^ 2 ^ i)) ?_ ?_
    · have := foldlM_rrange_inv 1 (K.twoAdicity + 1) (by omega) (fun (roots : List F) i => do
          let t__3 ← (rsub i 1)
          let t__4 ← (idx roots t__3)
          let t__5 ← (rset roots i (t__4 * t__4))
          let roots := t__5
          pure roots) ((List.replicate (K.twoAdicity + 1) (0 : F)).set 0 (q ^ K.trace))
        (fun n l => l.length = K.twoAdicity + 1 ∧ ∀ i, i < n → l[i]? = some ((q ^ K.trace) ^ 2 ^ i)) ⟨by simp, fun i hi => (by have e : i = 0 := (by omega); subst e; simp)⟩ (by
          rintro i h1 h2 l ⟨hl, hv⟩
          rw [rsub_nat h1, ok_bind, idx_eq_ok (hv (i - 1) (by omega)), ok_bind, rset_of_lt (by omega), ok_bind]
          refine Ens.ok ⟨by simpa using hl, fun j hj => ?_⟩
          by_cases hji : j = i
          · subst hji
            simp only [List.getElem?_set_self (show j < l.length by omega)]
            rw [← pow_add, ← two_mul, ← pow_succ']; congr 2; congr 1; omega
          · rw [List.getElem?_set_ne (Ne.symm hji)]; exact hv j (by omega))
      simp only [List.length_set, hl]
      exact this.mono (fun l h => ⟨h.1, fun i hi => h.2 i (by omega)⟩)
    · rintro l ⟨hl', hv⟩
      refine Ens.ok ⟨hq, by simpa using hl', fun i hi => ?_⟩
      dsimp only
      rw [List.getElem?_reverse (by omega), hl', show K.twoAdicity + 1 - 1 - i = K.twoAdicity - i by omega]
      exact hv _ (by omega)

/-- the two domains: primitive roots of orders n and 4n, the fourth power of the latter being the former, with their inverses -/
structure DomainsOk (D : Domains F) (k : ℕ) : Prop where
  size : D.domain.size = 2 ^ k
  size4 : D.extended_domain.size = 2 ^ (k + 2)
  prim : IsPrimitiveRoot D.domain.group_gen (2 ^ k)
  prim4 : IsPrimitiveRoot D.extended_domain.group_gen (2 ^ (k + 2))
  four : D.extended_domain.group_gen ^ 4 = D.domain.group_gen
  inv : D.domain.group_gen_inv = D.domain.group_gen⁻¹
  inv4 : D.extended_domain.group_gen_inv = D.extended_domain.group_gen⁻¹
  pow : D.root_of_unity_pow = D.domain.group_gen
  pow2 : D.root_of_unity_pow_2 = D.extended_domain.group_gen
  two : IsPrimitiveRoot D.root_of_unity_2 4
  /-- the quarter turn is the n-th power of the generator of the large domain -/
  turn : D.extended_domain.group_gen ^ 2 ^ k = D.root_of_unity_2

theorem nextPow2_pow (k : ℕ) : Rs.Groth.nextPow2 (2 ^ k) = 2 ^ k := by
  unfold Rs.Groth.nextPow2; rw [Nat.clog_pow 2 k (by omega)]

theorem r2domain_new (k : ℕ) (h : k ≤ K.twoAdicity) : ∃ d, R2Domain.new K (2 ^ k) = some d ∧ d.size = 2 ^ k := by
  unfold R2Domain.new
  simp only [nextPow2_pow, Nat.log2_two_pow, if_pos h]
  exact ⟨_, rfl, rfl⟩

theorem pow_and_pred (k : ℕ) : (2 ^ k) &&& (2 ^ k - 1) = 0 := by
  rw [Nat.and_two_pow_sub_one_eq_mod]; simp

theorem domains_new_spec (H : FieldOk (F := F)) (k : ℕ) (h : k + 2 ≤ K.twoAdicity) : Ens (domains_new (F := F) (2 ^ k)) (fun D => DomainsOk D k) := by
  unfold domains_new
  have hpos : 1 ≤ 2 ^ k := Nat.one_le_two_pow
  rw [rsub_nat hpos, ok_bind, if_neg (by simp [pow_and_pred])]
  obtain ⟨d, e, hs⟩ := r2domain_new (F := F) k (by omega)
  obtain ⟨d4, e4, hs4⟩ := r2domain_new (F := F) (k + 2) h
  rw [e, okOr_some, ok_bind, show 2 ^ k * 4 = 2 ^ (k + 2) by rw [pow_add]; rfl, e4, okOr_some, ok_bind]
  refine Ens.bind (roots_of_unity_spec H) ?_
  rintro ⟨q, roots⟩ ⟨hq, hl, hv⟩
  dsimp only at hq hl hv ⊢
  have hneg := H.nonres q hq
  rw [pow_mul] at hneg
  have hone : (q ^ K.trace) ^ 2 ^ K.twoAdicity = 1 := by
    obtain ⟨k, hk⟩ : ∃ k, K.twoAdicity = k + 1 := ⟨K.twoAdicity - 1, by have := H.pos; omega⟩
    rw [hk] at hneg ⊢
    rw [pow_succ, pow_mul]; simp only [Nat.add_sub_cancel] at hneg; rw [hneg]; simp
  have prim : IsPrimitiveRoot (q ^ K.trace) (2 ^ K.twoAdicity) := by
    have : orderOf (q ^ K.trace) = 2 ^ K.twoAdicity := by
      obtain ⟨k, hk⟩ : ∃ k, K.twoAdicity = k + 1 := ⟨K.twoAdicity - 1, by omega⟩
      rw [hk] at hneg hone ⊢
      simp only [Nat.add_sub_cancel] at hneg
      exact orderOf_eq_prime_pow (by rw [hneg]; exact H.neg) hone
    rw [← this]; exact IsPrimitiveRoot.orderOf _
  have hgen : ∀ j, j ≤ K.twoAdicity → IsPrimitiveRoot ((q ^ K.trace) ^ 2 ^ (K.twoAdicity - j)) (2 ^ j) := fun j hj =>
    prim.pow (by positivity) (by rw [← pow_add]; congr 1; omega)
  have hnz : ∀ j, j ≤ K.twoAdicity → (q ^ K.trace) ^ 2 ^ (K.twoAdicity - j) ≠ 0 := fun j hj => (hgen j hj).ne_zero (by positivity)
  have hinv : ∀ x : F, x ≠ 0 → inv? x = some x⁻¹ := fun x hx => by simp [inv?, hx]
  simp only [unwrap_some, ok_bind, Nat.log2_two_pow]
  rw [idx_eq_ok (hv k (by omega)), ok_bind]
  rw [hinv _ (hnz k (by omega)), unwrap_some, ok_bind]
  rw [idx_eq_ok (hv (k + 2) h), ok_bind]
  rw [hinv _ (hnz (k + 2) h), unwrap_some, ok_bind]
  rw [idx_eq_ok (hv 2 (by omega)), ok_bind]
  have e22 : (2 : ℕ) ^ 2 = 4 := rfl
  refine Ens.ok ⟨hs, hs4, hgen k (by omega), hgen (k + 2) h, ?_, rfl, rfl, rfl, rfl, ?_, ?_⟩
  · dsimp only; rw [← e22, ← pow_mul, ← pow_add]; congr 2; omega
  · have := hgen 2 (by omega); rwa [e22] at this
  · dsimp only; rw [← pow_mul, ← pow_add]; congr 2; omega

theorem domains_new_zero : domains_new (F := F) 0 = .error .panic := by
  unfold domains_new
  simp [rsub]
end
end Rs.Plonk
