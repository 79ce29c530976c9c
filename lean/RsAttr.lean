import Lean
/-- helper functions pulled in by a call: proofs may unfold them -/
register_simp_attr rs_helper
