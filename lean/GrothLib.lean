import RsPrelude
set_option linter.all false
set_option autoImplicit false

/-! The assumed contracts of the dependencies of the Groth16 witness map: the in-place Fourier transforms of
`taceo_ark_algebra` (over any module: field elements, shares, half shares), and what a driver provides. -/
namespace Rs.Groth

/-- Facts of the field and the machine: nothing is assumed of `threads` and `rev` here. -/
class Knobs (F : Type) where
  threads : ℕ
  /-- the bit-reversal permutation of positions of a table of that size -/
  rev : ℕ → ℕ → ℕ
  twoAdicity : ℕ
  trace : ℕ
  generator : F
  /-- the generator the library picks for a domain of that size -/
  root : ℕ → F
  isNonResidue : F → Bool

/-- a multiplicative subgroup with its generator -/
structure Domain (F : Type) where
  size : ℕ
  gen : F

/-- usize::next_power_of_two -/
def nextPow2 (n : ℕ) : ℕ := 2 ^ Nat.clog 2 n

variable {F : Type} [Field F] (K : Knobs F)

/-- Domain::new: the next power of two, if there is such a subgroup -/
def Domain.new (n : ℕ) : Option (Domain F) :=
  let size := nextPow2 n
  if Nat.log2 size ≤ K.twoAdicity then some ⟨size, K.root size⟩ else none
/-- Domain::with_group_gen -/
def Domain.with (n : ℕ) (g : F) : Option (Domain F) := if n = 2 ^ Nat.log2 n ∧ Nat.log2 n ≤ K.twoAdicity then some ⟨n, g⟩ else none

/-- bit_reverse -/
def brev {S : Type} [Inhabited S] (v : List S) : List S := (List.range v.length).map (fun i => v.getD (K.rev v.length i) default)

/-- the coefficients of the polynomial with the given values on the domain -/
def coeffs {S : Type} [AddCommGroup S] [Module F S] [Inhabited S] (D : Domain F) (v : List S) : List S :=
  (List.range D.size).map (fun j => (((D.size : ℕ) : F))⁻¹ • ∑ i ∈ Finset.range D.size, (D.gen⁻¹ ^ (i * j)) • v.getD i default)
/-- the values on the domain of the polynomial with the given coefficients -/
def values {S : Type} [AddCommGroup S] [Module F S] [Inhabited S] (D : Domain F) (c : List S) : List S :=
  (List.range D.size).map (fun i => ∑ j ∈ Finset.range D.size, (D.gen ^ (i * j)) • c.getD j default)

def ifftInToOut {S : Type} [AddCommGroup S] [Module F S] [Inhabited S] (D : Domain F) (v : List S) : List S := brev K (coeffs D v)
def fftOutToIn {S : Type} [AddCommGroup S] [Module F S] [Inhabited S] (D : Domain F) (v : List S) : List S := values D (brev K v)

/-- taceo_groth16::ConstraintMatrices, without the counts the prover does not read -/
structure ConstraintMatrices (F : Type) where
  num_instance_variables : ℕ
  num_witness_variables : ℕ
  num_constraints : ℕ
  a : List (List (F × ℕ))
  b : List (List (F × ℕ))
  c : List (List (F × ℕ))

/-- what the generic code asks of a secret-sharing back end -/
class Driver (F : Type) (Sh : Type) (Hs : outParam Type) where
  id : ℕ
  evalc : List (F × ℕ) → List F → List Sh → M Sh
  evalh : List (F × ℕ) → List F → List Sh → M Hs
  promote : List F → List Sh
  mulv : List Sh → List Sh → M (List Hs)
  distribute : List Sh → List F → M (List Sh)

end Rs.Groth
