import Spec
set_option linter.all false
set_option autoImplicit false
/-! Sharings as values of a polynomial function of bounded degree, closed under the local operations. -/
namespace Rs
section
variable {F : Type} [Field F] {V : Type} [AddCommGroup V] [Module F V]

/-- `f` is `x ↦ c0 + c1 x + ... + ct x^t` with coefficients in the module `V` -/
def PolyFn (t : ℕ) (f : F → V) : Prop := ∃ (c : V) (p : List V), p.length = t ∧ ∀ x, f x = peval x (c :: p)

theorem PolyFn.const (t : ℕ) (c : V) : PolyFn t (fun _ : F => c) :=
  ⟨c, List.replicate t 0, by simp, fun x => by simp [peval_replicate_zero]⟩
theorem PolyFn.add {t : ℕ} {f g : F → V} (hf : PolyFn t f) (hg : PolyFn t g) : PolyFn t (fun x => f x + g x) := by
  obtain ⟨c, p, hp, hf⟩ := hf; obtain ⟨d, q, hq, hg⟩ := hg
  refine ⟨c + d, List.zipWith (· + ·) p q, by simp [hp, hq], fun x => ?_⟩
  beta_reduce; rw [hf, hg, ← peval_add x (c :: p) (d :: q) (by simp [hp, hq])]; rfl
theorem PolyFn.smul {t : ℕ} {f : F → V} (hf : PolyFn t f) (k : F) : PolyFn t (fun x => k • f x) := by
  obtain ⟨c, p, hp, hf⟩ := hf
  exact ⟨k • c, p.map (k • ·), by simp [hp], fun x => by beta_reduce; rw [hf, ← peval_smul]; rfl⟩
theorem PolyFn.mul_right {t : ℕ} {f : F → F} (hf : PolyFn t f) (k : F) : PolyFn t (fun x => f x * k) := by
  have := hf.smul k; simpa [mul_comm] using this
theorem PolyFn.smul_right {t : ℕ} {f : F → F} (hf : PolyFn t f) (v : V) : PolyFn t (fun x => f x • v) := by
  obtain ⟨c, p, hp, hf⟩ := hf
  refine ⟨c • v, p.map (· • v), by simp [hp], fun x => ?_⟩
  have := peval_map x ((LinearMap.id : F →ₗ[F] F).smulRight v) (c :: p)
  beta_reduce; rw [hf]; simpa using this.symm
theorem PolyFn.neg {t : ℕ} {f : F → V} (hf : PolyFn t f) : PolyFn t (fun x => -f x) := by
  have := hf.smul (-1); simpa using this
theorem PolyFn.sub {t : ℕ} {f g : F → V} (hf : PolyFn t f) (hg : PolyFn t g) : PolyFn t (fun x => f x - g x) := by
  simpa [sub_eq_add_neg] using hf.add hg.neg
theorem PolyFn.mono {t u : ℕ} {f : F → V} (hf : PolyFn t f) (h : t ≤ u) : PolyFn u f := by
  obtain ⟨c, p, hp, hf⟩ := hf
  refine ⟨c, p ++ List.replicate (u - t) 0, by simp [hp]; omega, fun x => ?_⟩
  rw [hf, ← List.cons_append, peval_append, peval_replicate_zero]; simp
theorem PolyFn.mulX {t : ℕ} {f : F → V} (hf : PolyFn t f) : PolyFn (t + 1) (fun x => x • f x) := by
  obtain ⟨c, p, hp, hf⟩ := hf
  exact ⟨0, c :: p, by simp [hp], fun x => by beta_reduce; rw [hf]; simp⟩
/-- the product of a degree-`t` and a degree-`u` sharing has degree `t + u` -/
theorem PolyFn.mul {t u : ℕ} {f : F → F} {g : F → V} (hf : PolyFn t f) (hg : PolyFn u g) : PolyFn (t + u) (fun x => f x • g x) := by
  obtain ⟨c, p, hp, hf⟩ := hf
  induction p generalizing c f t with
  | nil =>
    subst hp
    have := (hg.smul c).mono (Nat.le_add_left u 0)
    simpa [hf] using this
  | cons d p ih =>
    have hp' : p.length = t - 1 := by simp at hp; omega
    have ht : t - 1 + 1 = t := by simp at hp; omega
    have h1 := (ih (t := t - 1) (f := fun x => peval x (d :: p)) d hp' (fun x => rfl)).mulX
    have h2 := ((hg.smul c).mono (show u ≤ t - 1 + u + 1 by omega)).add h1
    have e : t - 1 + u + 1 = t + u := by omega
    rw [e] at h2
    refine Eq.mp (congrArg _ ?_) h2
    funext x
    rw [hf]; simp [add_smul, mul_smul]
theorem PolyFn.sum {t : ℕ} {ι : Type} (l : List ι) (f : ι → F → V) (h : ∀ i ∈ l, PolyFn t (f i)) : PolyFn t (fun x => (l.map (fun i => f i x)).sum) := by
  induction l with
  | nil => simpa using PolyFn.const (F := F) t (0 : V)
  | cons a l ih => simpa using (h a (by simp)).add (ih (fun i hi => h i (by simp [hi])))

/-- what every quorum reconstructs -/
theorem PolyFn.reconstruct {t : ℕ} {f : F → V} (hf : PolyFn t f) (pos : List ℕ) (hn : pos.Nodup) (hi : Inj F pos) (ht : t < pos.length) :
    (pos.map (fun i : ℕ => lw F pos i • f i)).sum = f 0 := by
  obtain ⟨c, p, hp, hf⟩ := hf
  rw [hf 0, peval_zero, ← lagrange_sum pos hn hi c p (by omega)]
  simp only [hf]
end
end Rs

namespace Rs
/-- a polynomial evaluated chunk by chunk, each chunk scaled by its offset -/
theorem chunks_peval {F : Type} [Field F] (x : F) (m : ℕ) (hm : 0 < m) (l : List F) (n : ℕ) (h : l.length ≤ n * m) :
    ((List.range n).map (fun i => peval x ((l.drop (i * m)).take m) * x ^ (i * m))).sum = peval x l := by
  induction n generalizing l with
  | zero => simp at h; subst h; simp
  | succ n ih =>
    rw [List.range_succ_eq_map, List.map_cons, List.sum_cons, List.map_map]
    have e : ((fun i => peval x ((l.drop (i * m)).take m) * x ^ (i * m)) ∘ Nat.succ) =
        fun i => (fun i => peval x (((l.drop m).drop (i * m)).take m) * x ^ (i * m)) i * x ^ m := by
      funext i
      simp only [Function.comp, List.drop_drop, Nat.succ_mul, pow_add, mul_assoc]; rw [Nat.add_comm m]
    rw [e, List.sum_map_mul_right, ih (l.drop m) (by simp [Nat.succ_mul] at h ⊢; omega)]
    have := peval_append x (l.take m) (l.drop m)
    rw [List.take_append_drop] at this
    rw [this]; simp only [Nat.zero_mul, List.drop_zero, pow_zero, mul_one, smul_eq_mul]
    by_cases hl : m ≤ l.length
    · rw [List.length_take, Nat.min_eq_left hl]; ring
    · rw [List.drop_eq_nil_of_le (by omega)]; simp
end Rs
