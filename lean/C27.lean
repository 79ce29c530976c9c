import Lut
import Lib
set_option linter.all false
set_option autoImplicit false
namespace Rs.Lut
namespace C27
variable {F : Type} [Field F] [DecidableEq F] {G : Type} [DecidableEq G] [Limbs F]

theorem high_zero (l : List ℕ) (h : ∀ x ∈ l, x = 0) : l.foldr (fun l a => l + 2 ^ 64 * a) 0 = 0 := by
  induction l with
  | nil => rfl
  | cons a l ih => rw [List.foldr_cons, ih (fun x hx => h x (by simp [hx])), h a (by simp)]; rfl
theorem high_nonzero (l : List ℕ) (x : ℕ) (hx : x ∈ l) (h0 : x ≠ 0) : 1 ≤ l.foldr (fun l a => l + 2 ^ 64 * a) 0 := by
  induction l with
  | nil => simp at hx
  | cons a l ih =>
    rw [List.foldr_cons]
    rcases List.mem_cons.mp hx with rfl | hx
    · omega
    · have := ih hx; omega

/-- the conversion is the canonical integer when it fits a machine word, and nothing else -/
theorem field_to_usize_spec (x : F) : field_to_usize x = .ok (if Limbs.val x < 2 ^ 64 then some (Limbs.val x) else none) := by
  have hne := Limbs.ne x
  have hlt := Limbs.lt x
  have hv := Limbs.eq x
  unfold field_to_usize
  revert hne hlt hv
  generalize Limbs.limbs x = l
  cases l with
  | nil => intro h; exact absurd rfl h
  | cons a t =>
    intro _ hlt hv
    rw [List.foldr_cons] at hv
    have hs : slice (a :: t) 1 (a :: t).length = .ok t := by rw [slice_ok (by simp) (le_refl _)]; simp
    simp only [hs, ok_bind, pure_eq]
    have ha := hlt a (by simp)
    by_cases hz : ∀ y ∈ t, y = 0
    · rw [high_zero t hz] at hv
      have : t.any (fun l => !(l == 0)) = false := by simpa using hz
      simp only [this]
      have e : Limbs.val x = a := by omega
      simp [e, ha, idx, toUsize]
    · push Not at hz
      obtain ⟨y, hy, h0⟩ := hz
      have := high_nonzero t y hy h0
      have h' : t.any (fun l => !(l == 0)) = true := by simp; exact ⟨y, hy, h0⟩
      simp only [h', if_true]
      have : ¬ Limbs.val x < 2 ^ 64 := by omega
      rw [if_neg this]

section field
variable (p : Prov) (x : F) (s t : Unit)
/-- reading index `i` of the table gives entry `i` -/
theorem read_spec (lut : List F) (h : Limbs.val x < lut.length) (hl : lut.length < 2 ^ 64) :
    Ens (fld_get_from_lut p x lut s t) (fun r => r.1 = lut[Limbs.val x]) := by
  unfold fld_get_from_lut
  rw [field_to_usize_spec, if_pos (by omega)]
  simp [idx, h, Ens]
/-- an index outside the table is never answered with an entry -/
theorem read_outside (lut : List F) (h : lut.length ≤ Limbs.val x) : ∀ r, fld_get_from_lut p x lut s t ≠ .ok r := by
  unfold fld_get_from_lut
  rw [field_to_usize_spec]
  by_cases hh : Limbs.val x < 2 ^ 64
  · rw [if_pos hh]; simp [idx, h]
  · rw [if_neg hh]; simp
/-- writing index `i` changes entry `i` and no other -/
theorem write_spec (lut : List F) (v : F) (h : Limbs.val x < lut.length) (hl : lut.length < 2 ^ 64) :
    Ens (fld_write_to_lut p x v lut s t) (fun r => r.2.1 = lut.set (Limbs.val x) v) := by
  unfold fld_write_to_lut
  rw [field_to_usize_spec, if_pos (by omega)]
  simp [rset, h, Ens]
/-- a write outside the table changes nothing -/
theorem write_outside (lut : List F) (v : F) (h : lut.length ≤ Limbs.val x) : ∀ r, fld_write_to_lut p x v lut s t = .ok r → r.2.1 = lut := by
  unfold fld_write_to_lut
  rw [field_to_usize_spec]
  by_cases hh : Limbs.val x < 2 ^ 64
  · rw [if_pos hh]; simp [rset, Nat.not_lt.mpr h]
  · rw [if_neg hh]; simp
end field
section curve
variable (p : Prov) (x : F) (s t : Unit)
theorem point_read_spec (lut : List G) (h : Limbs.val x < lut.length) (hl : lut.length < 2 ^ 64) :
    Ens (crv_get_from_lut p x lut s t) (fun r => r.1 = lut[Limbs.val x]) := by
  unfold crv_get_from_lut
  rw [field_to_usize_spec, if_pos (by omega)]
  simp [idx, h, Ens]
theorem point_read_outside (lut : List G) (h : lut.length ≤ Limbs.val x) : ∀ r, crv_get_from_lut p x lut s t ≠ .ok r := by
  unfold crv_get_from_lut
  rw [field_to_usize_spec]
  by_cases hh : Limbs.val x < 2 ^ 64
  · rw [if_pos hh]; simp [idx, h]
  · rw [if_neg hh]; simp
theorem point_write_spec (lut : List G) (v : G) (h : Limbs.val x < lut.length) (hl : lut.length < 2 ^ 64) :
    Ens (crv_write_to_lut p x v lut s t) (fun r => r.2.1 = lut.set (Limbs.val x) v) := by
  unfold crv_write_to_lut
  rw [field_to_usize_spec, if_pos (by omega)]
  simp [rset, h, Ens]
theorem point_write_outside (lut : List G) (v : G) (h : lut.length ≤ Limbs.val x) : ∀ r, crv_write_to_lut p x v lut s t = .ok r → r.2.1 = lut := by
  unfold crv_write_to_lut
  rw [field_to_usize_spec]
  by_cases hh : Limbs.val x < 2 ^ 64
  · rw [if_pos hh]; simp [rset, Nat.not_lt.mpr h]
  · rw [if_neg hh]; simp
end curve

/-- tables hold exactly the values they were made from, private or public -/
theorem init_spec (p : Prov) (v : List F) : fld_init_private p v = v ∧ fld_init_public p v = v ∧ fld_get_lut_len v = v.length ∧ fld_get_public_lut v = .ok v := by
  unfold fld_init_private fld_init_public fld_get_lut_len fld_get_public_lut
  exact ⟨rfl, rfl, rfl, rfl⟩
theorem point_init_spec (p : Prov) (v : List G) : crv_init_private p v = v ∧ crv_init_public p v = v ∧ crv_get_lut_len v = v.length ∧ crv_get_public_lut v = .ok v := by
  unfold crv_init_private crv_init_public crv_get_lut_len crv_get_public_lut
  exact ⟨rfl, rfl, rfl, rfl⟩
end C27
end Rs.Lut
