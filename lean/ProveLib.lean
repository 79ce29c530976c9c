import RsPrelude
import GrothLib
set_option linter.all false
set_option autoImplicit false

/-! What the generic Groth16 prover asks of a back end: shares, half shares and half shares of points of both groups. -/
namespace Rs.Prove

class Driver (F : Type) (Sh : Type) (Hs : outParam Type) (St : outParam Type) where
  id : St → ℕ
  half : Sh → Hs
  mulv : List Sh → List Sh → St → M (List Hs × St)
  rand : St → M (Sh × St)
class PtDriver (F : outParam Type) (G : Type) (Hs : outParam Type) (P : outParam Type) where
  msm : List G → List Hs → P
  smul : G → Hs → P
  addp : ℕ → P → G → P
/-- what the back end does over the network: opening a point, multiplying a shared point by a share -/
class OpenDriver (St : Type) (P : Type) (G : outParam Type) where
  opn : P → St → M (G × St)
class SclDriver (St : Type) (Sh : Type) (P : Type) where
  scl : P → Sh → St → M (P × St)

export Rs.Groth (ConstraintMatrices)
structure SharedWitness (F Sh : Type) where
  public_inputs : List F
  witness : List Sh
/-- the witness map (C18) -/
class MapDriver (F : Type) (Sh : Type) (Hs : outParam Type) (St : outParam Type) where
  wmap : St → ConstraintMatrices F → List F → List Sh → M (List Hs × St)

structure VerifyingKey (G1 G2 : Type) where
  alpha_g1 : G1
  beta_g2 : G2
  gamma_g2 : G2
  delta_g2 : G2
  gamma_abc_g1 : List G1
structure ProvingKey (F G1 G2 : Type) where
  vk : VerifyingKey G1 G2
  beta_g1 : G1
  delta_g1 : G1
  a_query : List G1
  b_g1_query : List G1
  b_g2_query : List G2
  h_query : List G1
  l_query : List G1
structure Proof (G1 G2 : Type) where
  a : G1
  b : G2
  c : G1
end Rs.Prove
