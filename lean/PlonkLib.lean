import RsPrelude
import GrothLib
set_option linter.all false
set_option autoImplicit false

/-! What the PLONK prover and verifier take from their dependencies: the key and proof records of
`taceo-circom-types`, Keccak, the canonical byte encoding of arkworks, the radix-2 domains, the pairing, and what
a secret-sharing back end provides. -/
namespace Rs.Plonk
export Rs.Groth (Knobs)
open Rs.Groth (Knobs)

/-- the digest of a byte string: no property of it is used -/
opaque keccak (b : List ℕ) : List ℕ
/-- a prime field as arkworks serialises it: canonical representative, number of bytes -/
class Repr (F : Type) where
  bytes : ℕ
  val : F → ℕ
  bits : ℕ
/-- `serialize_uncompressed` of a prime field element: little-endian, appended -/
def serLe {F : Type} [R : Repr F] (x : F) (buf : List ℕ) : List ℕ := buf ++ (beBytes R.bytes (R.val x)).reverse
/-- affine coordinates, none for the point at infinity -/
class Coords (G : Type) (B : outParam Type) where
  xy : G → Option (B × B)

structure Transcript where
  digest : List ℕ

structure R2Domain (F : Type) where
  size : ℕ
  group_gen : F
  group_gen_inv : F
/-- Radix2EvaluationDomain::new: the next power of two, if the field has a root of unity of that order -/
def R2Domain.new {F : Type} [Field F] (K : Knobs F) (n : ℕ) : Option (R2Domain F) :=
  let size := Rs.Groth.nextPow2 n
  if Nat.log2 size ≤ K.twoAdicity then some ⟨size, K.root size, (K.root size)⁻¹⟩ else none
/-- values at the powers of the generator of the polynomial with those coefficients (Horner form is the same sum) -/
def fftOf {F S : Type} [Field F] [AddCommGroup S] [Module F S] [Inhabited S] (d : R2Domain F) (c : List S) : List S :=
  Rs.Groth.values ⟨d.size, d.group_gen⟩ c
/-- the inverse transform: uses the stored inverse generator -/
def ifftOf {F S : Type} [Field F] [AddCommGroup S] [Module F S] [Inhabited S] (d : R2Domain F) (v : List S) : List S :=
  (List.range d.size).map (fun j => (((d.size : ℕ) : F))⁻¹ • ∑ i ∈ Finset.range d.size, (d.group_gen_inv ^ (i * j)) • v.getD i default)

/-- a polynomial is its list of coefficients: `DensePolynomial` dereferences to it -/
abbrev _root_.List.coeffs {α : Type} (l : List α) : List α := l
/-- DensePolynomial::evaluate -/
def evalPoly {F S : Type} [Field F] [AddCommGroup S] [Module F S] (c : List S) (x : F) : S :=
  c.foldr (fun a acc => a + x • acc) 0
structure CircomPolynomial (F : Type) where
  coeffs : List F
  evaluations : List F
def CircomPolynomial.evaluate {F : Type} [Field F] (p : CircomPolynomial F) (x : F) : F := evalPoly p.coeffs x
/-- assignment to the coefficients of a dense polynomial -/
class SetCoeffs (α : Type) (β : outParam Type) where set : α → β → α
instance {F : Type} : SetCoeffs (List F) (List F) := ⟨fun _ v => v⟩
instance {F : Type} : SetCoeffs (CircomPolynomial F) (List F) := ⟨fun p v => { p with coeffs := v }⟩
/-- `into`: the identity on points -/
class Conv (α : Type) (β : outParam Type) where conv : α → M β
export Conv (conv)
instance (priority := low) {G : Type} [AddCommGroup G] : Conv G G := ⟨fun x => .ok x⟩

structure Additions (F : Type) where
  signal_id1 : ℕ
  signal_id2 : ℕ
  factor1 : F
  factor2 : F
structure ZkVk (F G1 G2 : Type) where
  k1 : F
  k2 : F
  qm : G1
  ql : G1
  qr : G1
  qo : G1
  qc : G1
  s1 : G1
  s2 : G1
  s3 : G1
  x_2 : G2
structure Zkey (F G1 G2 : Type) where
  n_vars : ℕ
  n_public : ℕ
  domain_size : ℕ
  pow : ℕ
  n_additions : ℕ
  n_constraints : ℕ
  verifying_key : ZkVk F G1 G2
  additions : List (Additions F)
  map_a : List ℕ
  map_b : List ℕ
  map_c : List ℕ
  qm_poly : CircomPolynomial F
  ql_poly : CircomPolynomial F
  qr_poly : CircomPolynomial F
  qo_poly : CircomPolynomial F
  qc_poly : CircomPolynomial F
  s1_poly : CircomPolynomial F
  s2_poly : CircomPolynomial F
  s3_poly : CircomPolynomial F
  lagrange : List (CircomPolynomial F)
  p_tau : List G1
structure VerificationKey (F G1 G2 : Type) where
  n_public : ℕ
  power : ℕ
  k1 : F
  k2 : F
  qm : G1
  ql : G1
  qr : G1
  qo : G1
  qc : G1
  s1 : G1
  s2 : G1
  s3 : G1
  x2 : G2
structure PlonkProof (F G1 : Type) where
  a : G1
  b : G1
  c : G1
  z : G1
  t1 : G1
  t2 : G1
  t3 : G1
  eval_a : F
  eval_b : F
  eval_c : F
  eval_s1 : F
  eval_s2 : F
  eval_zw : F
  wxi : G1
  wxiw : G1
  protocol : Str
  curve : Str
/-- the pairing and the fixed generators -/
class Pairing (G1 G2 : Type) (GT : outParam Type) where
  pairing : G1 → G2 → GT
  g1 : G1
  g2 : G2
  name : Str
structure SharedWitness (F Sh : Type) where
  public_inputs : List F
  witness : List Sh

/-- what the generic prover asks of a back end -/
class Driver (F : outParam Type) (Sh : Type) (St : outParam Type) (G : outParam Type) (PG : outParam Type) where
  id : St → ℕ
  fork : St → ℕ → M (St × St)
  rand : St → M (Sh × St)
  dflt : Sh
  add : Sh → Sh → Sh
  sub : Sh → Sh → Sh
  addp : ℕ → Sh → F → Sh
  mulp : Sh → F → Sh
  negv : List Sh → List Sh
  promote : ℕ → F → Sh
  fft : List Sh → R2Domain F → List Sh
  ifft : List Sh → R2Domain F → List Sh
  msm : List G → List Sh → M PG
  evalp : List Sh → F → Sh × List Sh
  mulv : List Sh → List Sh → St → M (List Sh × St)
  addmulv : List Sh → List Sh → List Sh → St → M (List Sh × St)
  openv : List Sh → St → M (List F × St)
  opnpt : PG → St → M (G × St)
  opnpts : List PG → St → M (List G × St)
  prodmul : Bool → List Sh → List Sh → List Sh → St → M (List Sh × St)
end Rs.Plonk
