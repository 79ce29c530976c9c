import FieldUint
set_option linter.all false
set_option autoImplicit false
open Rs Rs.FieldUint
namespace C11
variable {F : Type} [Field F] [DecidableEq F] {U : Type}

/-- the integer written by little-endian 64-bit limbs -/
def val : List ℕ → ℕ
  | [] => 0
  | l :: ls => l + 2 ^ 64 * val ls

/-- Converting an integer of any number of limbs gives its residue in the field. -/
theorem reduce_spec (asLimbs : U → List ℕ) (u : U) : (reduce_from_limbs asLimbs u : F) = ((val (asLimbs u) : ℕ) : F) := by
  have key : ∀ l : List ℕ, (l.reverse.foldl (fun (acc : F) (limb : ℕ) => acc * (2 ^ 64 : F) + (limb : F)) 0) = ((val l : ℕ) : F) := by
    intro l
    induction l with
    | nil => simp [val]
    | cons a l ih => simp [List.foldl_append, ih, val]; ring
  rw [← key]
  unfold reduce_from_limbs
  have h : ((18446744073709551615 : ℕ) : F) + 1 = 2 ^ 64 := by norm_num [← Nat.cast_succ]
  first
  | (simp only [rfrom_nat, h]; done)
  | (simp only [rfrom_nat, h]; apply List.foldl_ext; intros; ring)
  | (simp only [rfrom_nat, ← h]; apply List.foldl_ext; intros; push_cast; ring)

end C11
