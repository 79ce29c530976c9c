import C06
import Rep3Bin
set_option linter.all false
set_option autoImplicit false
open Rs Rs.Rep3Ops
namespace C07
variable {w : ℕ}

/-! Shares of `w`-bit integers, for every width `w`. -/
abbrev S (w : ℕ) := Rep3UintShare (BitVec w)
/-- equalities of bit vectors built from `^^^`, `&&&`, `|||` and shifts: bit by bit -/
local macro "bits" : tactic => `(tactic| first | rfl | (ext <;> simp; done) | (ext <;> (apply BitVec.eq_of_getLsbD_eq; intro i _; simp; try (generalize BitVec.getLsbD _ i = x; revert x; decide))))

section
variable (s t : S w) (k : BitVec w) (n : ℕ) (id : PartyID)
theorem rb_xor_spec : rb_bitxor s t = ⟨s.a ^^^ t.a, s.b ^^^ t.b⟩ := by unfold rb_bitxor; bits
theorem rb_xor_assign_spec : rb_bitxor_assign_vself s t = ⟨s.a ^^^ t.a, s.b ^^^ t.b⟩ := by unfold rb_bitxor_assign_vself; bits
theorem rb_xor_assign_r_spec : rb_bitxor_assign_rself s t = ⟨s.a ^^^ t.a, s.b ^^^ t.b⟩ := by unfold rb_bitxor_assign_rself; bits
theorem rb_and_spec : rb_bitand s t = s.a &&& t.a ^^^ s.a &&& t.b ^^^ s.b &&& t.a := by unfold rb_bitand; bits
theorem rb_shl_spec : rb_shl_vusize s n = ⟨s.a <<< n, s.b <<< n⟩ := by unfold rb_shl_vusize; bits
theorem rb_shl_assign_spec : rb_shl_assign_vusize s n = ⟨s.a <<< n, s.b <<< n⟩ := by unfold rb_shl_assign_vusize; bits
theorem rb_shr_spec : rb_shr_vusize s n = ⟨s.a >>> n, s.b >>> n⟩ := by unfold rb_shr_vusize; bits
theorem rb_new_spec (a b : BitVec w) : rb_new a b = ⟨a, b⟩ := by unfold rb_new; bits
theorem rb_zero_share_spec : (rb_zero_share : S w) = ⟨0, 0⟩ := by unfold rb_zero_share; bits
theorem rb_ab_spec : rb_ab s = (s.a, s.b) := by unfold rb_ab; bits
theorem rb_xor_mask_spec : rb_xor_mask s k = ⟨s.a ^^^ k, s.b ^^^ k⟩ := by unfold rb_xor_mask; bits
theorem rb_xor_mask_assign_spec : rb_xor_mask_assign s k = ⟨s.a ^^^ k, s.b ^^^ k⟩ := by unfold rb_xor_mask_assign; bits
theorem rb_and_mask_spec : rb_and_mask s k = ⟨s.a &&& k, s.b &&& k⟩ := by unfold rb_and_mask; bits
theorem rb_and_mask_assign_spec : rb_and_mask_assign s k = ⟨s.a &&& k, s.b &&& k⟩ := by unfold rb_and_mask_assign; bits
@[simp] theorem hxor : s ^^^ t = ⟨s.a ^^^ t.a, s.b ^^^ t.b⟩ := rb_xor_spec s t
@[simp] theorem hand : s &&& t = s.a &&& t.a ^^^ s.a &&& t.b ^^^ s.b &&& t.a := rb_and_spec s t
@[simp] theorem hshl : s <<< n = (⟨s.a <<< n, s.b <<< n⟩ : S w) := rb_shl_spec s n
@[simp] theorem hshr : s >>> n = (⟨s.a >>> n, s.b >>> n⟩ : S w) := rb_shr_spec s n
attribute [local simp] rb_new_spec rb_zero_share_spec rb_xor_mask_spec rb_and_mask_spec
theorem rb_xor_rr_spec : rb_bitxor_ref_rRep3UintShare s t = ⟨s.a ^^^ t.a, s.b ^^^ t.b⟩ := by unfold rb_bitxor_ref_rRep3UintShare; simp
theorem rb_and_rr_spec : rb_bitand_ref_rRep3UintShare s t = s.a &&& t.a ^^^ s.a &&& t.b ^^^ s.b &&& t.a := by unfold rb_bitand_ref_rRep3UintShare; simp
theorem rb_shl_ref_spec : rb_shl_ref_vusize s n = ⟨s.a <<< n, s.b <<< n⟩ := by unfold rb_shl_ref_vusize; simp
theorem rb_shr_ref_spec : rb_shr_ref_vusize s n = ⟨s.a >>> n, s.b >>> n⟩ := by unfold rb_shr_ref_vusize; simp
theorem xor_spec : rn_xor s t = ⟨s.a ^^^ t.a, s.b ^^^ t.b⟩ := by unfold rn_xor; simp
theorem xor_public_spec : rn_xor_public s k id = match id with
    | .ID0 => ⟨s.a ^^^ k, s.b⟩ | .ID1 => ⟨s.a, s.b ^^^ k⟩ | .ID2 => s := by unfold rn_xor_public; cases id <;> bits
theorem or_public_spec : rn_or_public s k id = rn_xor s (rn_xor_public ⟨s.a &&& k, s.b &&& k⟩ k id) := by
  unfold rn_or_public; simp only [xor_public_spec, xor_spec, rb_and_mask_spec]; cases id <;> simp <;> (try constructor) <;> (apply BitVec.eq_of_getLsbD_eq; intro i _; simp; try (generalize BitVec.getLsbD _ i = x; revert x; try decide)) <;> (try (generalize BitVec.getLsbD _ i = y; decide +revert))
theorem and_public_spec : rn_and_with_public s k = ⟨s.a &&& k, s.b &&& k⟩ := by unfold rn_and_with_public; simp
theorem promote_spec : rn_promote_to_trivial_share id k = match id with
    | .ID0 => ⟨k, 0⟩ | .ID1 => ⟨0, k⟩ | .ID2 => ⟨0, 0⟩ := by unfold rn_promote_to_trivial_share; cases id <;> simp
theorem xor_public_vec_spec (l : List (S w)) (ks : List (BitVec w)) : rn_xor_public_vec l ks id = List.zipWith (fun s k => rn_xor_public s k id) l ks := by
  unfold rn_xor_public_vec; simp only [xor_public_spec, List.zip, List.map_zipWith]; cases id <;> rfl
end

/-- the three parties' shares are consistent and XOR to `x` -/
structure Rb (x : BitVec w) (s : PartyID → S w) : Prop where
  con : ∀ i, (s (pid_next i)).b = (s i).a
  val : r3_combine_binary_element (s .ID0) (s .ID1) (s .ID2) = x
theorem combine_spec (s t u : S w) : r3_combine_binary_element s t u = s.a ^^^ t.a ^^^ u.a := by
  unfold r3_combine_binary_element; first | rfl | bits
theorem Rb.mk' {x : BitVec w} {s : PartyID → S w} (h0 : (s .ID1).b = (s .ID0).a) (h1 : (s .ID2).b = (s .ID1).a)
    (h2 : (s .ID0).b = (s .ID2).a) (h : (s .ID0).a ^^^ (s .ID1).a ^^^ (s .ID2).a = x) : Rb x s :=
  ⟨fun i => by cases i <;> simpa [C06.next_spec], by rw [combine_spec]; exact h⟩
theorem Rb.c0 {x : BitVec w} {s} (h : Rb x s) : (s .ID1).b = (s .ID0).a := by simpa [C06.next_spec] using h.con .ID0
theorem Rb.c1 {x : BitVec w} {s} (h : Rb x s) : (s .ID2).b = (s .ID1).a := by simpa [C06.next_spec] using h.con .ID1
theorem Rb.c2 {x : BitVec w} {s} (h : Rb x s) : (s .ID0).b = (s .ID2).a := by simpa [C06.next_spec] using h.con .ID2
theorem Rb.v {x : BitVec w} {s} (h : Rb x s) : (s .ID0).a ^^^ (s .ID1).a ^^^ (s .ID2).a = x := by rw [← combine_spec]; exact h.val

section
variable {x y : BitVec w} {s t : PartyID → S w} (k : BitVec w) (n : ℕ)
/-- two bit-vector terms agree when they agree at every bit, whatever the bits are -/
local macro "bv" : tactic => `(tactic| (apply BitVec.eq_of_getLsbD_eq; intro i _; simp only [BitVec.getLsbD_xor, BitVec.getLsbD_and, BitVec.getLsbD_or]))
set_option hygiene false in
local macro "gen" : tactic => `(tactic| (
  (try generalize (s .ID0).a.getLsbD _ = p0); (try generalize (s .ID1).a.getLsbD _ = p1); (try generalize (s .ID2).a.getLsbD _ = p2)
  (try generalize (t .ID0).a.getLsbD _ = q0); (try generalize (t .ID1).a.getLsbD _ = q1); (try generalize (t .ID2).a.getLsbD _ = q2)
  (try generalize k.getLsbD _ = r); decide +revert))

theorem xor (hs : Rb x s) (ht : Rb y t) : Rb (x ^^^ y) (fun i => rn_xor (s i) (t i)) := by
  refine .mk' ?_ ?_ ?_ ?_ <;> simp only [xor_spec, hs.c0, hs.c1, hs.c2, ht.c0, ht.c1, ht.c2]
  rw [← hs.v, ← ht.v]; bv; gen
theorem xor_public (hs : Rb x s) : Rb (x ^^^ k) (fun i => rn_xor_public (s i) k i) := by
  refine .mk' ?_ ?_ ?_ ?_ <;> simp only [xor_public_spec, hs.c0, hs.c1, hs.c2]
  rw [← hs.v]; bv; gen
theorem and_public (hs : Rb x s) : Rb (x &&& k) (fun i => rn_and_with_public (s i) k) := by
  refine .mk' ?_ ?_ ?_ ?_ <;> simp only [and_public_spec, hs.c0, hs.c1, hs.c2]
  rw [← hs.v]; bv; gen
theorem or_public (hs : Rb x s) : Rb (x ||| k) (fun i => rn_or_public (s i) k i) := by
  refine .mk' ?_ ?_ ?_ ?_ <;> simp only [or_public_spec, xor_spec, xor_public_spec, hs.c0, hs.c1, hs.c2]
  rw [← hs.v]; bv; gen
/-- masks are applied to every component; XOR-ing the same mask three times is XOR-ing it once -/
theorem xor_mask (hs : Rb x s) : Rb (x ^^^ k) (fun i => rb_xor_mask (s i) k) := by
  refine .mk' ?_ ?_ ?_ ?_ <;> simp only [rb_xor_mask_spec, hs.c0, hs.c1, hs.c2]
  rw [← hs.v]; bv; gen
theorem and_mask (hs : Rb x s) : Rb (x &&& k) (fun i => rb_and_mask (s i) k) := by
  simpa only [and_public_spec, rb_and_mask_spec] using and_public k hs
theorem shl (hs : Rb x s) : Rb (x <<< n) (fun i => s i <<< n) := by
  refine .mk' ?_ ?_ ?_ ?_ <;> simp only [hshl, hs.c0, hs.c1, hs.c2]
  rw [← hs.v, BitVec.shiftLeft_xor_distrib, BitVec.shiftLeft_xor_distrib]
theorem shr (hs : Rb x s) : Rb (x >>> n) (fun i => s i >>> n) := by
  refine .mk' ?_ ?_ ?_ ?_ <;> simp only [hshr, hs.c0, hs.c1, hs.c2]
  rw [← hs.v, BitVec.ushiftRight_xor_distrib, BitVec.ushiftRight_xor_distrib]
theorem promote : Rb k (fun i => rn_promote_to_trivial_share i k) := by
  refine .mk' ?_ ?_ ?_ ?_ <;> simp [promote_spec]
theorem zero : Rb (0 : BitVec w) (fun _ => rb_zero_share) := by
  refine .mk' ?_ ?_ ?_ ?_ <;> simp [rb_zero_share_spec]
/-- the parties' local AND terms XOR to the AND of the two secrets -/
theorem and_local (hs : Rb x s) (ht : Rb y t) : (s .ID0 &&& t .ID0) ^^^ (s .ID1 &&& t .ID1) ^^^ (s .ID2 &&& t .ID2) = x &&& y := by
  simp only [hand, hs.c0, hs.c1, hs.c2, ht.c0, ht.c1, ht.c2]
  rw [← hs.v, ← ht.v]; bv; gen
/-- shifting by a public value that fits a machine word -/
theorem shift_r_public (toUsize : BitVec w → Option ℕ) (hk : toUsize k = some n) (hs : Rb x s) :
    ∃ r, (∀ i, rn_shift_r_public toUsize (s i) k = .ok (r i)) ∧ Rb (x >>> n) r := by
  refine ⟨_, fun i => ?_, shr n hs⟩
  unfold rn_shift_r_public; simp [hk, rb_shr_ref_spec]
theorem shift_l_public (toUsize : BitVec w → Option ℕ) (bits : ℕ) (hk : toUsize k = some n) (hn : n < bits) (hs : Rb x s) :
    ∃ r, (∀ i, rn_shift_l_public toUsize bits (s i) k = .ok (r i)) ∧ Rb (x <<< n) r := by
  refine ⟨_, fun i => ?_, shl n hs⟩
  unfold rn_shift_l_public; simp [hk, hn, rb_shl_ref_spec]
theorem shift_l_public_too_far (toUsize : BitVec w → Option ℕ) (bits : ℕ) (hk : toUsize k = some n) (hn : bits ≤ n) (s : S w) :
    rn_shift_l_public toUsize bits s k = .error .panic := by
  unfold rn_shift_l_public; simp [hk, Nat.not_lt.mpr hn]
end
theorem combine_binary_elements (a b c : List (S w)) : r3_combine_binary_elements a b c =
    if a.length = b.length ∧ b.length = c.length then .ok (List.zipWith (· ^^^ ·) (List.zipWith (· ^^^ ·) (a.map (·.a)) (b.map (·.a))) (c.map (·.a))) else .error .panic := by
  unfold r3_combine_binary_elements multizip3
  by_cases h1 : a.length = b.length
  · by_cases h2 : b.length = c.length
    · simp only [h1, h2, beq_self_eq_true, Bool.not_true, if_false, Bool.false_eq_true, and_self, if_true, pure_eq]
      congr 1
      apply List.ext_getElem <;> simp [h1, h2]
    · simp [h1, h2]
  · simp [h1]
end C07
