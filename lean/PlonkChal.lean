import PlonkVerify
set_option linter.all false
set_option autoImplicit false
open Rs

/-! Contracts of the extracted `Transcript` and `VerifierChallenges::new`: which bytes are hashed. -/
namespace Rs.Plonk
noncomputable section
variable {F G G2 GT B Sh St PG : Type} [Field F] [DecidableEq F] [Inhabited F] [AddCommGroup G] [Module F G] [DecidableEq GT] [AddCommGroup G2] [Module F G2] [Inhabited G] [Inhabited Sh] [K : Knobs F] [RF : Repr F] [RB : Repr B] [Coords G B] [PR : Pairing G G2 GT]

/-! ### What is hashed -/

/-- a scalar: its canonical representative, big-endian, with the width of the field -/
def scBytes (s : F) : List ℕ := beBytes (Repr.bytes F) (Repr.val s)
/-- a point: both coordinates big-endian with the width of the base field, the point at infinity as zero bytes -/
def ptBytes (p : G) : List ℕ :=
  match Coords.xy p with
  | some (x, y) => beBytes (Repr.bytes B) (Repr.val x) ++ beBytes (Repr.bytes B) (Repr.val y)
  | none => List.replicate (2 * Repr.bytes B) 0
/-- a challenge: the digest of the bytes, read big-endian, in the field -/
def chal (bytes : List ℕ) : F := ((ofBeBytes (keccak bytes) : ℕ) : F)

/-- arkworks: as many bytes as the modulus has -/
def Width (B : Type) [Repr B] : Prop := Repr.bytes B = (Repr.bits B + 7) / 8

omit [Inhabited F] [DecidableEq F] [Field F] in
theorem add_scalar_spec (t : Transcript) (s : F) : add_scalar t s = .ok ⟨t.digest ++ scBytes s⟩ := by
  unfold add_scalar
  simp [serLe, scBytes]

omit [AddCommGroup G] [Inhabited G] in
theorem add_point_spec (hw : Width B) (t : Transcript) (p : G) : add_point t p = .ok ⟨t.digest ++ ptBytes p⟩ := by
  unfold add_point ptBytes
  have h8 : divCeil (Repr.bits B) 8 = .ok (Repr.bytes B) := by
    unfold divCeil; rw [if_neg (by decide)]; unfold Width at hw; rw [hw]; rfl
  rw [h8]
  rcases Coords.xy (B := B) p with _ | ⟨x, y⟩
  · simp [resize, Nat.mul_comm]
  · simp [serLe]

theorem get_challenge_spec (t : Transcript) : get_challenge (F := F) t = chal t.digest := rfl

omit [Inhabited F] [DecidableEq F] [Field F] in
theorem fold_scalars (l : List F) (t : Transcript) :
    l.foldlM (fun (transcript : Transcript) (v : F) => do
      let t ← add_scalar transcript v
      pure t : Transcript → F → M Transcript) t = .ok ⟨t.digest ++ l.flatMap scBytes⟩ := by
  induction l generalizing t with
  | nil => simp
  | cons a l ih => simp only [List.foldlM_cons, add_scalar_spec, ok_bind, pure_eq] at ih ⊢; rw [ih]; simp

/-! ### The encodings have fixed width and lose nothing -/
theorem beBytes_length (n v : ℕ) : (beBytes n v).length = n := by
  induction n generalizing v with
  | zero => rfl
  | succ n ih => simp [beBytes, ih]
theorem ofBe_append (l : List ℕ) (b : ℕ) : ofBeBytes (l ++ [b]) = 256 * ofBeBytes l + b := by simp [ofBeBytes, List.foldl_append]
theorem ofBe_beBytes (n v : ℕ) (h : v < 256 ^ n) : ofBeBytes (beBytes n v) = v := by
  induction n generalizing v with
  | zero => simp at h; subst h; rfl
  | succ n ih =>
    rw [beBytes, ofBe_append, ih _ (by rw [pow_succ] at h; omega)]
    omega
omit [Inhabited F] [DecidableEq F] [Field F] in
theorem scalar_width (s : F) : (scBytes s).length = Repr.bytes F := beBytes_length _ _
omit [AddCommGroup G] [Inhabited G] in
theorem point_width (p : G) : (ptBytes p).length = 2 * Repr.bytes B := by
  unfold ptBytes
  rcases Coords.xy (B := B) p with _ | ⟨x, y⟩
  · simp
  · simp [beBytes_length]; omega
/-- the representative determines the element and fits the width -/
def Canon (F : Type) [Repr F] : Prop := (∀ x y : F, Repr.val x = Repr.val y → x = y) ∧ ∀ x : F, Repr.val x < 256 ^ Repr.bytes F
omit [Inhabited F] [DecidableEq F] [Field F] in
theorem scalar_inj (hc : Canon F) (a b : F) (h : scBytes a = scBytes b) : a = b := by
  apply hc.1
  have := congrArg ofBeBytes h
  unfold scBytes at this
  rwa [ofBe_beBytes _ _ (hc.2 a), ofBe_beBytes _ _ (hc.2 b)] at this
omit [Inhabited F] [DecidableEq F] [Field F] in
theorem scalars_inj (hc : Canon F) (a b : List F) (hl : a.length = b.length) (h : a.flatMap scBytes = b.flatMap scBytes) : a = b := by
  induction a generalizing b with
  | nil => cases b with
    | nil => rfl
    | cons => simp at hl
  | cons x a ih => cases b with
    | nil => simp at hl
    | cons y b =>
      rw [List.flatMap_cons, List.flatMap_cons] at h
      obtain ⟨h1, h2⟩ := List.append_inj h (by rw [scalar_width, scalar_width])
      rw [scalar_inj hc x y h1, ih b (by simpa using hl) h2]
omit [AddCommGroup G] [Inhabited G] in
/-- two affine points with the same encoding have the same coordinates -/
theorem point_inj (hc : Canon B) (p q : G) (a b : B × B) (hp : Coords.xy p = some a) (hq : Coords.xy q = some b) (h : ptBytes p = ptBytes q) : a = b := by
  unfold ptBytes at h
  rw [hp, hq] at h
  simp only at h
  obtain ⟨h1, h2⟩ := List.append_inj h (by rw [beBytes_length, beBytes_length])
  have e1 := congrArg ofBeBytes h1
  have e2 := congrArg ofBeBytes h2
  rw [ofBe_beBytes _ _ (hc.2 _), ofBe_beBytes _ _ (hc.2 _)] at e1 e2
  exact Prod.ext (hc.1 _ _ e1) (hc.1 _ _ e2)

/-! ### The verifier's challenges -/
variable (vk : VerificationKey F G G2) (proof : PlonkProof F G) (pub : List F)

/-- the bytes behind the first challenge -/
def bytes2 (qm ql qr qo qc s1 s2 s3 : G) (pub : List F) (a b c : G) : List ℕ :=
  ptBytes qm ++ ptBytes ql ++ ptBytes qr ++ ptBytes qo ++ ptBytes qc ++ ptBytes s1 ++ ptBytes s2 ++ ptBytes s3 ++
    pub.flatMap scBytes ++ ptBytes a ++ ptBytes b ++ ptBytes c
/-- the challenges belonging to a key, public inputs and a proof -/
def challengesOf : VerifierChallenges F :=
  let beta : F := chal (bytes2 vk.qm vk.ql vk.qr vk.qo vk.qc vk.s1 vk.s2 vk.s3 pub proof.a proof.b proof.c)
  let gamma : F := chal (scBytes beta)
  let alpha : F := chal (scBytes beta ++ scBytes gamma ++ ptBytes proof.z)
  let xi : F := chal (scBytes alpha ++ ptBytes proof.t1 ++ ptBytes proof.t2 ++ ptBytes proof.t3)
  let v : F := chal (scBytes xi ++ scBytes proof.eval_a ++ scBytes proof.eval_b ++ scBytes proof.eval_c ++ scBytes proof.eval_s1 ++ scBytes proof.eval_s2 ++ scBytes proof.eval_zw)
  let u : F := chal (ptBytes proof.wxi ++ ptBytes proof.wxiw)
  { alpha := alpha, beta := beta, gamma := gamma, xi := xi, v := [v, v ^ 2, v ^ 3, v ^ 4, v ^ 5], u := u }

theorem powers_fold (z c : F) : (rset (List.replicate 5 z) 0 c >>= fun v => (rrange 1 5).foldlM (fun (v : List F) (i : ℕ) => do
      let t__9 ← (rsub i 1)
      let t__10 ← (idx v t__9)
      let t__11 ← (idx v 0)
      let t__12 ← (rset v i (t__10 * t__11))
      let v := t__12
      pure v : List F → ℕ → M (List F)) v) = .ok [c, c ^ 2, c ^ 3, c ^ 4, c ^ 5] := by
  simp [rset, rrange, List.range'_succ, idx, rsub, List.foldlM_cons, pow_succ]

theorem verifier_challenges_spec (hw : Width B) : verifier_challenges vk proof pub = .ok (challengesOf vk proof pub) := by
  unfold verifier_challenges
  have hp := powers_fold (F := F)
  simp only [add_point_spec hw, add_scalar_spec, ok_bind, pure_eq, fold_scalars, get_challenge_spec] at hp ⊢
  have hf := fun t => fold_scalars pub t
  simp only [add_scalar_spec, ok_bind, pure_eq] at hf
  simp only [hf, ok_bind]
  have hp' := fun c => hp 0 c
  simp only [← bind_assoc] at hp' ⊢
  rw [hp']
  simp only [ok_bind, challengesOf, bytes2, List.nil_append, List.append_assoc]

end
end Rs.Plonk
