import RsPrelude
import ProveLib
set_option linter.all false
set_option autoImplicit false

/-! What the Groth16 verifier takes from arkworks (ark-groth16 0.6.0 `prepare_verifying_key`, `verify_proof`):
the pairing check over the prepared inputs, which go on until the shorter of the two lists ends. -/
namespace Rs.Prove
class PairingMap (G1 G2 : Type) (GT : outParam Type) where
  e : G1 → G2 → GT

variable {F G1 G2 GT : Type} [Field F] [AddCommGroup G1] [Module F G1] [AddCommGroup G2] [AddCommGroup GT] [DecidableEq GT] [Inhabited G1] [P : PairingMap G1 G2 GT]
/-- a verifying key with its pairing computed -/
structure Pvk (G1 G2 : Type) (GT : Type) where
  vk : VerifyingKey G1 G2
  alpha_beta : GT
  gamma_neg : G2
  delta_neg : G2
def prepareVk (vk : VerifyingKey G1 G2) : Pvk G1 G2 GT := ⟨vk, P.e vk.alpha_g1 vk.beta_g2, -vk.gamma_g2, -vk.delta_g2⟩
def prepareInputs (vk : VerifyingKey G1 G2) (pub : List F) : M G1 :=
  match vk.gamma_abc_g1 with
  | [] => .error .panic
  | g :: rest => .ok ((pub.zip rest).foldl (fun acc (x, b) => acc + x • b) g)
def arkVerify (pvk : Pvk G1 G2 GT) (proof : Proof G1 G2) (pub : List F) : M Bool := do
  let ic ← prepareInputs pvk.vk pub
  pure (decide (P.e proof.a proof.b + P.e ic pvk.gamma_neg + P.e proof.c pvk.delta_neg = pvk.alpha_beta))
end Rs.Prove
