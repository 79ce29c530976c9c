import Merkle
import C24
set_option linter.all false
set_option autoImplicit false
open Rs Rs.Poseidon2 Rs.Merkle
namespace C26
variable {F : Type} [Field F] [DecidableEq F]

/-- the permutation the tree hashes with: total on states of width `T` (C24 gives it for Poseidon2) -/
structure Perm (T D : ℕ) (pos : Poseidon2 F) (P : List F → List F) : Prop where
  run : ∀ x, x.length = T → permutation_in_place T D pos x = .ok (P x)
  len : ∀ x, x.length = T → (P x).length = T

def pad (T : ℕ) (row : List F) : List F := row ++ List.replicate (T - row.length) 0
/-- hash of one node; `ff` = compression mode -/
def H (ff : Bool) (T : ℕ) (P : List F → List F) (row : List F) : F :=
  (P (pad T row)).getD 0 0 + if ff then row.getD 0 0 else 0
def rowOf (w : MerkleWitnessElement F) (leaf : F) : List F := w.other.take w.position ++ leaf :: w.other.drop w.position
def Wf (a : ℕ) (w : MerkleWitnessElement F) : Prop := w.other.length + 1 = a ∧ w.position < a
instance (a : ℕ) (w : MerkleWitnessElement F) : Decidable (Wf a w) := by unfold Wf; infer_instance

theorem forIn_check {α σ : Type} (l : List α) (c : α → Bool) (step : σ → α → σ)
    (f : α → Option Bool × σ → M (ForInStep (Option Bool × σ))) (s : σ)
    (h : ∀ a ∈ l, ∀ s, f a (none, s) = .ok (if c a then .yield (none, step s a) else .done (some false, s))) :
    ∃ s', forIn l ((none, s) : Option Bool × σ) f = .ok (if l.all c then (none, l.foldl step s) else (some false, s')) := by
  induction l generalizing s with
  | nil => exact ⟨s, rfl⟩
  | cons a l ih =>
    rw [List.forIn_cons, h a (by simp) s]
    by_cases hc : c a
    · obtain ⟨s', e⟩ := ih (step s a) (fun b hb => h b (by simp [hb]))
      refine ⟨s', ?_⟩
      simp only [hc, if_true, ok_bind, e, List.all_cons, Bool.true_and, List.foldl_cons]
    · exact ⟨s, by simp [hc]⟩

theorem check_bind {α σ β : Type} (l : List α) (c : α → Bool) (step : σ → α → σ)
    (f : α → Option Bool × σ → M (ForInStep (Option Bool × σ))) (s : σ) (k : Option Bool × σ → M β) (r : M β)
    (h : ∀ a ∈ l, ∀ s, f a (none, s) = .ok (if c a then .yield (none, step s a) else .done (some false, s)))
    (hk : ∀ s', k (if l.all c then (none, l.foldl step s) else (some false, s')) = r) :
    (forIn l ((none, s) : Option Bool × σ) f >>= k) = r := by
  obtain ⟨s', e⟩ := forIn_check l c step f s h
  rw [e, ok_bind, hk]

theorem rowOf_length (w : MerkleWitnessElement F) (leaf : F) (a : ℕ) (h : Wf a w) : (rowOf w leaf).length = a := by
  obtain ⟨h1, h2⟩ := h
  simp [rowOf]; omega

theorem gather_eq (w : MerkleWitnessElement F) (leaf : F) (a T : ℕ) (h : Wf a w) (hT : a ≤ T)
    (f : ℕ × F → M F) (hf : ∀ i, i < a → f (i, (0 : F)) = .ok ((rowOf w leaf).getD i 0)) :
    (renum ((List.replicate T (0 : F)).take a)).mapM f = .ok (rowOf w leaf) := by
  have hl := rowOf_length w leaf a h
  rw [mapM_ok (g := fun p => (rowOf w leaf).getD p.1 0)]
  · congr 1
    apply List.ext_getElem?
    intro i
    by_cases hi : i < a
    · simp [renum, List.getElem?_map, List.getElem?_zipIdx, List.getElem?_take, hi, List.getElem?_replicate,
        show i < T by omega, List.getElem?_eq_getElem (show i < (rowOf w leaf).length by omega)]
    · rw [List.getElem?_eq_none (by simp [renum]; omega), List.getElem?_eq_none (by omega)]
  · rintro ⟨i, z⟩ hm
    simp only [renum, List.mem_map, List.take_replicate] at hm
    obtain ⟨⟨z', i'⟩, h1, h2⟩ := hm
    have := List.mem_zipIdx h1
    simp at h2 this
    obtain ⟨rfl, rfl⟩ := h2
    obtain ⟨h3, rfl⟩ := this
    exact hf _ (by omega)

theorem rowOf_get (w : MerkleWitnessElement F) (leaf : F) (a i : ℕ) (h : Wf a w) (hi : i < a) :
    (i < w.position → w.other[i]? = some ((rowOf w leaf).getD i 0)) ∧
    (i = w.position → leaf = (rowOf w leaf).getD i 0) ∧
    (w.position < i → 1 ≤ i ∧ w.other[i - 1]? = some ((rowOf w leaf).getD i 0)) := by
  obtain ⟨h1, h2⟩ := h
  refine ⟨fun hp => ?_, fun hp => ?_, fun hp => ⟨by omega, ?_⟩⟩
  · simp [rowOf, List.getD_eq_getElem?_getD, List.getElem?_append, List.getElem?_take, hp, show i < w.other.length by omega]
  · subst hp
    simp [rowOf, List.getD_eq_getElem?_getD, List.getElem?_append, show w.position ≤ w.other.length by omega]
  · obtain ⟨k, rfl⟩ : ∃ k, i = w.position + 1 + k := ⟨i - w.position - 1, by omega⟩
    have e : min w.position w.other.length = w.position := by omega
    simp [rowOf, List.getD_eq_getElem?_getD, List.getElem?_append, e, show ¬ (w.position + 1 + k < w.position) by omega,
      show w.position + 1 + k - w.position = k + 1 by omega, List.getElem?_drop, show w.position + 1 + k - 1 = w.position + k by omega,
      show w.position + k < w.other.length by omega]

/-- With an empty witness the leaf itself has to be the root. -/
theorem verify_empty (T D : ℕ) (pos : Poseidon2 F) (root leaf : F) :
    verify_merkle_path_compression T D pos root leaf [] = .ok (root == leaf) ∧ verify_merkle_path_sponge T D pos root leaf [] = .ok (root == leaf) := by
  constructor
  · unfold verify_merkle_path_compression; simp
  · unfold verify_merkle_path_sponge; simp

/-- Compression mode: for every width, permutation, root, leaf and non-empty witness of admissible arity the verification
accepts exactly when every layer is well formed and recomputing the path from the leaf gives the root. -/
theorem verify_compression (T D : ℕ) (self : Poseidon2 F) (P : List F → List F) (hP : Perm T D self P) (root leaf : F)
    (w0 : MerkleWitnessElement F) (ws : List (MerkleWitnessElement F)) (hT : w0.other.length + 1 ≤ T) :
    verify_merkle_path_compression T D self root leaf (w0 :: ws)
      = .ok ((w0 :: ws).all (fun w => decide (Wf (w0.other.length + 1) w)) && (root == (w0 :: ws).foldl (fun l w => H true T P (rowOf w l)) leaf)) := by
  unfold verify_merkle_path_compression
  simp only [idx, ok_bind, pure_eq, List.getElem?_cons_zero]
  rw [if_neg (by simp), if_neg (by simpa using hT)]
  generalize ha : w0.other.length + 1 = a at hT ⊢
  refine check_bind _ (fun w => decide (Wf a w)) (fun l w => H true T P (rowOf w l)) _ _ _ _ ?_ ?_
  · intro w hw l
    have h1 : rsub a 1 = .ok (a - 1) := by simp [rsub]; omega
    simp only [h1, ok_bind]
    by_cases hwf : Wf a w
    · have hwf' := hwf
      obtain ⟨q1, q2⟩ := hwf
      rw [if_neg (by simp; omega), if_neg (by simp; omega), if_pos (by simp [hwf'])]
      rw [gather_eq w l a T hwf' hT]
      · have hl := rowOf_length w l a hwf'
        have hov : overwrite (List.take a (List.replicate T (0 : F))) (rowOf w l) ++ List.drop a (List.replicate T 0) = pad T (rowOf w l) := by
          simp [overwrite, pad, hl, hT]
        have hpl : (pad T (rowOf w l)).length = T := by simp [pad, hl]; omega
        have hPl := hP.len _ hpl
        rw [ok_bind, hov, hP.run _ hpl]
        obtain ⟨z, zs, hz⟩ : ∃ z zs, P (pad T (rowOf w l)) = z :: zs := by
          cases hc : P (pad T (rowOf w l)) with
          | nil => rw [hc] at hPl; simp at hPl; omega
          | cons z zs => exact ⟨z, zs, rfl⟩
        obtain ⟨y, ys, hy⟩ : ∃ y ys, rowOf w l = y :: ys := by
          cases hc : rowOf w l with
          | nil => rw [hc] at hl; simp at hl; omega
          | cons z zs => exact ⟨z, zs, rfl⟩
        simp only [H, hz, ok_bind]
        simp [hy, pad]
      · intro i hi
        obtain ⟨r1, r2, r3⟩ := rowOf_get w l a i hwf' hi
        rcases lt_trichotomy i w.position with h | h | h
        · simp [compare_lt_iff_lt.2 h, r1 h]
        · simp only [h, compare_eq_iff_eq.2 rfl]
          rw [← h, ← r2 h]
        · obtain ⟨r4, r5⟩ := r3 h
          simp [compare_gt_iff_gt.2 h, rsub, r4, r5]
    · have e0 : ¬ (decide (Wf a w) = true) := by simp [hwf]
      by_cases q1 : w.other.length = a - 1
      · rw [if_neg (by simp [q1]), if_pos (by simp [Wf] at hwf ⊢; omega), if_neg e0]
      · rw [if_pos (by simp [q1]), if_neg e0]
  · intro s'
    by_cases hall : (w0 :: ws).all (fun w => decide (Wf a w))
    · simp only [hall, if_true, ok_bind, Bool.true_and]
    · simp only [hall, if_false, ok_bind, Bool.false_and, Bool.false_eq_true]
/-- Sponge mode: for every width, permutation, root, leaf and non-empty witness of admissible arity the verification
accepts exactly when every layer is well formed and recomputing the path from the leaf gives the root. -/
theorem verify_sponge (T D : ℕ) (self : Poseidon2 F) (P : List F → List F) (hP : Perm T D self P) (root leaf : F)
    (w0 : MerkleWitnessElement F) (ws : List (MerkleWitnessElement F)) (hT : w0.other.length + 1 < T) :
    verify_merkle_path_sponge T D self root leaf (w0 :: ws)
      = .ok ((w0 :: ws).all (fun w => decide (Wf (w0.other.length + 1) w)) && (root == (w0 :: ws).foldl (fun l w => H false T P (rowOf w l)) leaf)) := by
  unfold verify_merkle_path_sponge
  simp only [idx, ok_bind, pure_eq, List.getElem?_cons_zero]
  rw [if_neg (by simp), if_neg (by simpa using hT)]
  generalize ha : w0.other.length + 1 = a at hT ⊢
  refine check_bind _ (fun w => decide (Wf a w)) (fun l w => H false T P (rowOf w l)) _ _ _ _ ?_ ?_
  · intro w hw l
    have h1 : rsub a 1 = .ok (a - 1) := by simp [rsub]; omega
    simp only [h1, ok_bind]
    by_cases hwf : Wf a w
    · have hwf' := hwf
      obtain ⟨q1, q2⟩ := hwf
      rw [if_neg (by simp; omega), if_neg (by simp; omega), if_pos (by simp [hwf'])]
      rw [gather_eq w l a T hwf' hT.le]
      · have hl := rowOf_length w l a hwf'
        have hov : overwrite (List.take a (List.replicate T (0 : F))) (rowOf w l) ++ List.drop a (List.replicate T 0) = pad T (rowOf w l) := by
          simp [overwrite, pad, hl, hT.le]
        have hpl : (pad T (rowOf w l)).length = T := by simp [pad, hl]; omega
        have hPl := hP.len _ hpl
        rw [ok_bind, hov, hP.run _ hpl]
        obtain ⟨z, zs, hz⟩ : ∃ z zs, P (pad T (rowOf w l)) = z :: zs := by
          cases hc : P (pad T (rowOf w l)) with
          | nil => rw [hc] at hPl; simp at hPl; omega
          | cons z zs => exact ⟨z, zs, rfl⟩
        obtain ⟨y, ys, hy⟩ : ∃ y ys, rowOf w l = y :: ys := by
          cases hc : rowOf w l with
          | nil => rw [hc] at hl; simp at hl; omega
          | cons z zs => exact ⟨z, zs, rfl⟩
        simp only [H, hz, ok_bind]
        simp [hy, pad]
      · intro i hi
        obtain ⟨r1, r2, r3⟩ := rowOf_get w l a i hwf' hi
        rcases lt_trichotomy i w.position with h | h | h
        · simp [compare_lt_iff_lt.2 h, r1 h]
        · simp only [h, compare_eq_iff_eq.2 rfl]
          rw [← h, ← r2 h]
        · obtain ⟨r4, r5⟩ := r3 h
          simp [compare_gt_iff_gt.2 h, rsub, r4, r5]
    · have e0 : ¬ (decide (Wf a w) = true) := by simp [hwf]
      by_cases q1 : w.other.length = a - 1
      · rw [if_neg (by simp [q1]), if_pos (by simp [Wf] at hwf ⊢; omega), if_neg e0]
      · rw [if_pos (by simp [q1]), if_neg e0]
  · intro s'
    by_cases hall : (w0 :: ws).all (fun w => decide (Wf a w))
    · simp only [hall, if_true, ok_bind, Bool.true_and]
    · simp only [hall, if_false, ok_bind, Bool.false_and, Bool.false_eq_true]
theorem bind_ok_id {α : Type} (x : M α) : (x >>= fun r => (Except.ok r : M α)) = x := by cases x <;> rfl

/-- Poseidon2 itself is such a permutation, so the two theorems hold for it with `permSpec` of C24. -/
theorem poseidon2_perm (p : Poseidon2Params F) (T D : ℕ) (g : C24.Good p T) : Perm T D ⟨p⟩ (C24.permSpec p T D) := by
  constructor
  · intro x hx
    have := (C24.permutation_spec p T D x g hx).1
    unfold permutation at this
    simp only [pure_eq, bind_ok_id] at this
    exact this
  · intro x hx
    exact (C24.permutation_spec p T D x g hx).2
end C26
