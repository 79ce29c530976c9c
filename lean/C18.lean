import Lib
import PolyFn
import GrothMap
import GrothPlain
import GrothShamir
set_option linter.all false
set_option autoImplicit false
open Rs Rs.Groth Rs.Groth.Map
noncomputable section
namespace C18
open Polynomial hiding coeffs
open Finset

/-! ## constraint rows and the vectors of the reductions -/
section
variable {F : Type} [Field F] [DecidableEq F] [Inhabited F]

/-- a row of a constraint matrix, applied to the full assignment -/
def rowval (row : List (F × ℕ)) (z : List F) : F := (row.map (fun e => e.1 * z.getD e.2 0)).sum
/-- value of row `i` of a matrix (0 beyond the last row) -/
def matval (mat : List (List (F × ℕ))) (z : List F) (i : ℕ) : F := (mat[i]?).elim 0 (fun r => rowval r z)
/-- the rows of a matrix on a domain of size `n` -/
def matvec (mat : List (List (F × ℕ))) (z : List F) (n : ℕ) : List F := (List.range n).map (matval mat z)
/-- the A vector of the reductions: the rows, with the public inputs after the constraints -/
def avec (mat : List (List (F × ℕ))) (pub z : List F) (nc ni n : ℕ) : List F :=
  (List.range n).map (fun i => if nc ≤ i ∧ i < nc + ni then pub.getD (i - nc) 0 else matval mat z i)

/-- the polynomial with the coefficients the inverse transform yields -/
def interp (D : Domain F) (v : List F) : F[X] := ∑ j ∈ range D.size, C ((coeffs D v).getD j 0) * X ^ j
/-- its values on the domain shifted by `s` -/
def shifted (D : Domain F) (s : F) (v : List F) : List F := (List.range D.size).map (fun k => (interp D v).eval (s * D.gen ^ k))
def powers (s : F) (n : ℕ) : List F := (List.range n).map (fun j => s ^ j)

@[simp] theorem coeffs_length {S : Type} [AddCommGroup S] [Module F S] [Inhabited S] (D : Domain F) (v : List S) : (coeffs D v).length = D.size := by simp [coeffs]
@[simp] theorem values_length {S : Type} [AddCommGroup S] [Module F S] [Inhabited S] (D : Domain F) (v : List S) : (values D v).length = D.size := by simp [values]
@[simp] theorem brev_length {S : Type} [Inhabited S] (K : Knobs F) (v : List S) : (brev K v).length = v.length := by simp [brev]
@[simp] theorem matvec_length (mat : List (List (F × ℕ))) (z : List F) (n : ℕ) : (matvec mat z n).length = n := by simp [matvec]
@[simp] theorem avec_length (mat : List (List (F × ℕ))) (pub z : List F) (nc ni n : ℕ) : (avec mat pub z nc ni n).length = n := by simp [avec]
@[simp] theorem shifted_length (D : Domain F) (s : F) (v : List F) : (shifted D s v).length = D.size := by simp [shifted]
@[simp] theorem powers_length (s : F) (n : ℕ) : (powers s n).length = n := by simp [powers]

theorem getD_map' {α β : Type} [Inhabited α] (f : α → β) (l : List α) (i : ℕ) (d : β) (h : i < l.length) : (l.map f).getD i d = f (l.getD i default) := by
  simp [List.getD, List.getElem?_map, List.getElem?_eq_getElem h]
theorem getD_range {β : Type} (f : ℕ → β) (n i : ℕ) (d : β) (h : i < n) : ((List.range n).map f).getD i d = f i := by
  simp [List.getD, List.getElem?_map, List.getElem?_range h]
theorem getD_irrel {β : Type} (l : List β) (i : ℕ) (d e : β) (h : i < l.length) : l.getD i d = l.getD i e := by
  simp [List.getD, List.getElem?_eq_getElem h]

/-- coefficients and values are maps of modules -/
theorem coeffs_map {S T : Type} [AddCommGroup S] [Module F S] [Inhabited S] [AddCommGroup T] [Module F T] [Inhabited T] (f : S →ₗ[F] T) (D : Domain F) (v : List S) (h : v.length = D.size) :
    (coeffs D v).map f = coeffs D (v.map f) := by
  simp only [coeffs, List.map_map]
  refine List.map_congr_left (fun j _ => ?_)
  simp only [Function.comp, map_smul, map_sum]
  congr 1
  refine Finset.sum_congr rfl (fun i hi => ?_)
  rw [getD_map' f v i default (by rw [h]; exact Finset.mem_range.1 hi)]
theorem values_map {S T : Type} [AddCommGroup S] [Module F S] [Inhabited S] [AddCommGroup T] [Module F T] [Inhabited T] (f : S →ₗ[F] T) (D : Domain F) (v : List S) (h : v.length = D.size) :
    (values D v).map f = values D (v.map f) := by
  simp only [values, List.map_map]
  refine List.map_congr_left (fun j _ => ?_)
  simp only [Function.comp, map_smul, map_sum]
  refine Finset.sum_congr rfl (fun i hi => ?_)
  rw [getD_map' f v i default (by rw [h]; exact Finset.mem_range.1 hi)]
variable (K : Knobs F)
/-- positions are permuted, and undone by the same permutation -/
structure RevOk : Prop where
  lt : ∀ n i, i < n → K.rev n i < n
  inv : ∀ n i, i < n → K.rev n (K.rev n i) = i
theorem brev_map (R : RevOk K) {S T : Type} [Inhabited S] [Inhabited T] (f : S → T) (v : List S) : (brev K v).map f = brev K (v.map f) := by
  simp only [brev, List.map_map, List.length_map]
  refine List.map_congr_left (fun i hi => ?_)
  simp only [Function.comp]
  rw [getD_map' f v _ default (R.lt _ _ (by simpa using hi))]
theorem brev_brev (R : RevOk K) {S : Type} [Inhabited S] (v : List S) : brev K (brev K v) = v := by
  apply List.ext_getElem (by simp)
  intro i h1 h2
  have hi : i < v.length := h2
  have hr := R.lt v.length i hi
  simp [brev, List.getD, List.getElem?_range hr, R.inv v.length i hi, List.getElem?_eq_getElem hi]
theorem brev_zip (R : RevOk K) {A B S : Type} [Inhabited A] [Inhabited B] [Inhabited S] (f : A → B → S) (a : List A) (b : List B) (h : a.length = b.length) :
    brev K (List.zipWith f (brev K a) (brev K b)) = List.zipWith f a b := by
  apply List.ext_getElem (by simp)
  intro i h1 h2
  have hi : i < a.length := by simp at h2; exact h2.1
  have hi' : i < b.length := h ▸ hi
  have hr := R.lt a.length i hi
  have hr' := R.lt b.length i hi'
  simp [brev, List.getD, List.getElem?_range, hr, hr', h ▸ hr', R.inv, hi, hi', List.getElem?_zipWith, ← h, List.getElem?_eq_getElem hi, List.getElem?_eq_getElem hi']

theorem eval_interp (D : Domain F) (v : List F) (x : F) : (interp D v).eval x = ∑ j ∈ range D.size, (coeffs D v).getD j 0 * x ^ j := by
  simp [interp, eval_finset_sum]

/-- the shifted transform, as the code performs it -/
theorem shift_eq (R : RevOk K) (D : Domain F) (s : F) (v : List F) :
    fftOutToIn K D (List.zipWith (· * ·) (ifftInToOut K D v) (brev K (powers s D.size))) = shifted D s v := by
  unfold fftOutToIn ifftInToOut
  rw [brev_zip K R _ _ _ (by simp)]
  simp only [values, shifted]
  refine List.map_congr_left (fun k _ => ?_)
  rw [eval_interp]
  refine Finset.sum_congr rfl (fun j hj => ?_)
  have hj' := Finset.mem_range.1 hj
  have : (List.zipWith (· * ·) (coeffs D v) (powers s D.size)).getD j default = (coeffs D v).getD j 0 * s ^ j := by
    simp [List.getD, List.getElem?_zipWith, powers, List.getElem?_range hj', List.getElem?_eq_getElem (show j < (coeffs D v).length by simpa using hj')]
  rw [this, mul_pow, ← pow_mul, smul_eq_mul]; ring

/-- the polynomial takes the given values on the domain -/
theorem interp_eval (D : Domain F) (hg : IsPrimitiveRoot D.gen D.size) (hn : (D.size : F) ≠ 0) (v : List F) (i : ℕ) (hi : i < D.size) :
    (interp D v).eval (D.gen ^ i) = v.getD i default := by
  have hs : D.size ≠ 0 := by rintro h; simp [h] at hn
  have hg0 : D.gen ≠ 0 := hg.ne_zero hs
  rw [eval_interp]
  have e1 : ∀ j ∈ range D.size, (coeffs D v).getD j 0 * (D.gen ^ i) ^ j = ∑ l ∈ range D.size, ((D.size : F))⁻¹ * v.getD l default * (D.gen⁻¹ ^ l * D.gen ^ i) ^ j := by
    intro j hj
    rw [coeffs, getD_range _ _ _ _ (Finset.mem_range.1 hj), smul_eq_mul, Finset.mul_sum, Finset.sum_mul]
    refine Finset.sum_congr rfl (fun l _ => ?_)
    rw [smul_eq_mul, mul_pow, ← pow_mul]; ring
  rw [Finset.sum_congr rfl e1, Finset.sum_comm]
  have e2 : ∀ l ∈ range D.size, (∑ j ∈ range D.size, ((D.size : F))⁻¹ * v.getD l default * (D.gen⁻¹ ^ l * D.gen ^ i) ^ j) = if l = i then v.getD i default else 0 := by
    intro l hl
    rw [← Finset.mul_sum]
    by_cases h : l = i
    · subst h
      rw [if_pos rfl, inv_pow, inv_mul_cancel₀ (pow_ne_zero _ hg0)]
      simp; field_simp
    · rw [if_neg h]
      have hx : D.gen⁻¹ ^ l * D.gen ^ i ≠ 1 := by
        intro hx
        rw [inv_pow, inv_mul_eq_one₀ (pow_ne_zero _ hg0)] at hx
        exact h (hg.pow_inj (Finset.mem_range.1 hl) hi hx)
      have hp : (D.gen⁻¹ ^ l * D.gen ^ i) ^ D.size = 1 := by
        rw [mul_pow, ← pow_mul, ← pow_mul, Nat.mul_comm l, Nat.mul_comm i, pow_mul, pow_mul, inv_pow, hg.pow_eq_one]; simp
      rw [geom_sum_eq hx, hp]; simp
  rw [Finset.sum_congr rfl e2, Finset.sum_ite_eq' (range D.size) i, if_pos (Finset.mem_range.2 hi)]
theorem interp_degree (D : Domain F) (v : List F) : (interp D v).degree < D.size := by
  unfold interp
  refine lt_of_le_of_lt (degree_sum_le _ _) ?_
  rw [Finset.sup_lt_iff (by exact_mod_cast WithBot.bot_lt_coe _)]
  intro j hj
  exact lt_of_le_of_lt (degree_C_mul_X_pow_le _ _) (by exact_mod_cast Finset.mem_range.1 hj)

/-! ## the table of powers -/
theorem chunks_flatten {α β : Type} (c : ℕ) (l : List α) (h : ℕ → β) (m : ℕ) :
    ((List.range m).map (fun i => (List.range ((l.drop (i * c)).take c).length).map (fun j => h (i * c + j)))).flatten = (List.range (min (m * c) l.length)).map h := by
  induction m with
  | zero => simp
  | succ m ih =>
    rw [List.range_succ, List.map_append, List.flatten_append, ih]
    simp only [List.map_cons, List.map_nil, List.flatten_cons, List.flatten_nil, List.append_nil, List.length_take, List.length_drop]
    by_cases hc : m * c ≤ l.length
    · rw [Nat.min_eq_left hc, show min ((m + 1) * c) l.length = m * c + min c (l.length - m * c) by rw [Nat.add_mul]; omega, List.range_add, List.map_append, List.map_map]
      rfl
    · rw [show min c (l.length - m * c) = 0 by omega, Nat.min_eq_right (by omega), Nat.min_eq_right (by rw [Nat.add_mul]; omega)]; simp
theorem ceil_mul (n c : ℕ) (hc : 0 < c) : n ≤ (n + c - 1) / c * c := by
  have := Nat.div_add_mod (n + c - 1) c
  have h2 := Nat.mod_lt (n + c - 1) hc
  have h3 := Nat.mul_comm c ((n + c - 1) / c)
  omega
theorem chunks_map {α β : Type} (c : ℕ) (hc : 0 < c) (l : List α) (f : ℕ × List α → List β) (h : ℕ → β)
    (hf : ∀ i vs, vs = (l.drop (i * c)).take c → f (i, vs) = (List.range vs.length).map (fun j => h (i * c + j))) :
    ((renum (toChunks c l)).map f).flatten = (List.range l.length).map h := by
  have e : (renum (toChunks c l)).map f = (List.range ((l.length + c - 1) / c)).map (fun i => (List.range ((l.drop (i * c)).take c).length).map (fun j => h (i * c + j))) := by
    apply List.ext_getElem (by simp [renum, toChunks, hc.ne'])
    intro i h1 h2
    simp only [renum, toChunks, hc.ne', if_false, List.getElem_map, List.getElem_zipIdx, List.getElem_range, Nat.zero_add]
    exact hf i _ rfl
  rw [e, chunks_flatten, Nat.min_eq_right (ceil_mul _ _ hc)]
theorem overwrite_len {α : Type} (l v : List α) (h : l.length = v.length) : overwrite l v = v := overwrite_eq (by omega)

/-- inner loop of the tables: current power, and what was written -/
theorem pow_loop {A : Type} (s c0 : F) (vs : List A) (f : F × List F → A → F × List F) (hf : ∀ c t a, f (c, t) a = (c * s, t ++ [c])) :
    vs.foldl f (c0, []) = (c0 * s ^ vs.length, (List.range vs.length).map (fun j => c0 * s ^ j)) := by
  have := foldl_inv vs f (c0, []) (fun pre st => st = (c0 * s ^ pre.length, (List.range pre.length).map (fun j => c0 * s ^ j))) (by simp) (by
    intro pre a st _ h
    subst h; rw [hf]
    simp [List.range_succ, pow_succ, mul_assoc])
  exact this
theorem coset_table_spec [K : Knobs F] (R : RevOk K) (ht : 0 < K.threads) (s : F) (n : ℕ) : coset_table s n = .ok (brev K (powers s n)) := by
  unfold coset_table
  simp only [divCeil, ht.ne', if_false, ok_bind, pure_eq]
  generalize hc : max ((n + K.threads - 1) / K.threads) 1 = c
  have hc0 : 0 < c := by omega
  have key := chunks_map c hc0 (List.replicate n (1 : F)) (fun (chunk_index, values) =>
        let current := (s ^ (chunk_index * c))
        let t__3 := []
        let (current, t__3) := foldl% (fun (current, t__3) value =>
            let value := current
            let current := (current * s)
            let t__3 := (t__3 ++ [value])
            (current, t__3)
          ) (current, t__3) values
        let t__2 := t__3
        let values := (overwrite values t__2)
        values) (fun j => s ^ j) (by
      intro i vs hv
      dsimp only
      rw [pow_loop s _ vs _ (by intro c t a; rfl)]
      dsimp only
      rw [overwrite_len _ _ (by simp)]
      refine List.map_congr_left (fun j _ => ?_)
      rw [pow_add])
  rw [List.length_replicate] at key
  rw [overwrite_len _ _ (by simp [renum])]
  exact congrArg (fun x => Except.ok (brev K x)) key
end

/-! ## what a back end must do, and the witness maps over such a back end -/
section
variable {F Sh Hs : Type} [Field F] [DecidableEq F] [Inhabited F] [AddCommGroup Sh] [Module F Sh] [Inhabited Sh] [AddCommGroup Hs] [Module F Hs] [Inhabited Hs] [K : Knobs F]

/-- a back end computes, at each party, with the values its shares hold -/
structure Law (T : Driver F Sh Hs) (val : Sh →ₗ[F] F) (hval : Hs →ₗ[F] F) : Prop where
  evalc : ∀ row pub priv, (∀ e ∈ row, e.2 < pub.length + priv.length) → Ens (T.evalc row pub priv) (fun r => val r = rowval row (pub ++ priv.map val))
  evalh : ∀ row pub priv, (∀ e ∈ row, e.2 < pub.length + priv.length) → Ens (T.evalh row pub priv) (fun r => hval r = rowval row (pub ++ priv.map val))
  promote : ∀ pub, (T.promote pub).map val = pub
  mulv : ∀ a b, a.length = b.length → Ens (T.mulv a b) (fun r => r.map hval = List.zipWith (· * ·) (a.map val) (b.map val))
  distribute : ∀ c r, c.length = r.length → Ens (T.distribute c r) (fun x => x.map val = List.zipWith (· * ·) (c.map val) r)

def InRange (mat : List (List (F × ℕ))) (n : ℕ) : Prop := ∀ row ∈ mat, ∀ e ∈ row, e.2 < n

variable {T : Driver F Sh Hs} {val : Sh →ₗ[F] F} {hval : Hs →ₗ[F] F}

theorem resize_spec {S : Type} [AddCommGroup S] [Module F S] (f : S →ₗ[F] F) (mat : List (List (F × ℕ))) (z : List F) (n : ℕ) (r : List S)
    (h : List.Forall₂ (fun row v => f v = rowval row z) mat r) : (resize r n 0).map f = matvec mat z n := by
  have hl := h.length_eq
  apply List.ext_getElem (by simp [resize]; omega)
  intro i h1 h2
  have hi : i < n := by simpa using h2
  have hz : f 0 = 0 := map_zero f
  by_cases hm : i < mat.length
  · have hr : i < r.length := by omega
    have hg := (List.forall₂_iff_get.1 h).2 i hm hr
    simp only [List.get_eq_getElem] at hg
    have hx : (resize r n 0)[i]'(by simpa using h1) = r[i] := by
      unfold resize; rw [List.getElem_append_left (by simp; omega)]; simp
    simp only [List.getElem_map, hx, hg, matvec, List.getElem_range, matval, List.getElem?_eq_getElem hm]; rfl
  · have hx : (resize r n 0)[i]'(by simpa using h1) = 0 := by
      unfold resize; rw [List.getElem_append_right (by simp; omega)]; simp
    simp only [List.getElem_map, hx, hz, matvec, List.getElem_range, matval, List.getElem?_eq_none (show mat.length ≤ i by omega)]; rfl

theorem eval_matrix_spec (L : Law T val hval) (id n : ℕ) (mat : List (List (F × ℕ))) (pub : List F) (priv : List Sh) (hr : InRange mat (pub.length + priv.length)) :
    Ens (eval_matrix (T := T) id n mat pub priv) (fun r => r.map val = matvec mat (pub ++ priv.map val) n) := by
  unfold eval_matrix
  refine Ens.bind (mapM_ens mat _ (fun row v => val v = rowval row (pub ++ priv.map val)) ?_) (fun r h => Ens.ok (resize_spec val mat _ n r h))
  intro row hrow
  simpa using L.evalc row pub priv (hr row hrow)
theorem eval_matrix_half_spec (L : Law T val hval) (id n : ℕ) (mat : List (List (F × ℕ))) (pub : List F) (priv : List Sh) (hr : InRange mat (pub.length + priv.length)) :
    Ens (eval_matrix_half (T := T) id n mat pub priv) (fun r => r.map hval = matvec mat (pub ++ priv.map val) n) := by
  unfold eval_matrix_half
  refine Ens.bind (mapM_ens mat _ (fun row v => hval v = rowval row (pub ++ priv.map val)) ?_) (fun r h => Ens.ok (resize_spec hval mat _ n r h))
  intro row hrow
  simpa using L.evalh row pub priv (hr row hrow)

/-- the public inputs written after the constraints -/
theorem put_inputs (f : Sh →ₗ[F] F) (mat : List (List (F × ℕ))) (pub z : List F) (nc ni n : ℕ) (r pr : List Sh) (hr : r.map f = matvec mat z n) (hp : pr.map f = pub) (h1 : nc + ni ≤ n) (h2 : ni ≤ pub.length) :
    ∃ t5 t6 t7 x, slice pr 0 ni = .ok t5 ∧ slice r nc (nc + ni) = .ok t6 ∧ copyFrom t6 t5 = .ok t7 ∧ rsetSlice r nc (nc + ni) t7 = .ok x ∧ x.map f = avec mat pub z nc ni n := by
  have hrl : r.length = n := by simpa using congrArg List.length hr
  have hpl : pr.length = pub.length := by simpa using congrArg List.length hp
  refine ⟨_, _, _, _, slice_zero (by omega), slice_ok (by omega) (by omega), (by rw [copyFrom, if_pos (by simp; omega)]), (by rw [rsetSlice, if_pos ⟨by omega, by omega, by simp; omega⟩]), ?_⟩
  rw [List.map_append, List.map_append, List.map_take, List.map_take, List.map_drop, hr, hp]
  apply List.ext_getElem (by simp; omega)
  intro i i1 i2
  have hi : i < n := by simpa using i2
  by_cases c1 : i < nc
  · rw [List.getElem_append_left (by simp; omega), List.getElem_append_left (by simp; omega)]
    simp [matvec, avec, show ¬ nc ≤ i by omega]
  · by_cases c2 : i < nc + ni
    · rw [List.getElem_append_left (by simp; omega), List.getElem_append_right (by simp; omega)]
      simp [matvec, avec, show nc ≤ i by omega, c2, Nat.min_eq_left (show nc ≤ n by omega), List.getD, List.getElem?_eq_getElem (show i - nc < pub.length by omega)]
    · rw [List.getElem_append_right (by simp; omega)]
      simp [matvec, avec, c2, Nat.min_eq_left (show nc ≤ n by omega), Nat.min_eq_left (show ni ≤ pub.length by omega)]
      congr 1; omega

theorem map_linear {S : Type} [AddCommGroup S] [Module F S] [Inhabited S] (R : RevOk K) (f : S →ₗ[F] F) (D : Domain F) (v : List S) (h : v.length = D.size) :
    (ifftInToOut K D v).map f = ifftInToOut K D (v.map f) := by
  unfold ifftInToOut; rw [brev_map K R, coeffs_map f D v h]
theorem map_linear' {S : Type} [AddCommGroup S] [Module F S] [Inhabited S] (R : RevOk K) (f : S →ₗ[F] F) (D : Domain F) (v : List S) (h : v.length = D.size) :
    (fftOutToIn K D v).map f = fftOutToIn K D (v.map f) := by
  unfold fftOutToIn; rw [values_map f D _ (by simpa using h), brev_map K R]

/-- transform, shift, transform back: through the back end -/
theorem shift_driver (L : Law T val hval) (R : RevOk K) (D : Domain F) (s : F) (v : List Sh) (h : v.length = D.size) :
    Ens (T.distribute (ifftInToOut K D v) (brev K (powers s D.size))) (fun x => (fftOutToIn K D x).map val = shifted D s (v.map val)) := by
  refine (L.distribute _ _ (by simp [ifftInToOut])).mono (fun x hx => ?_)
  have hl : x.length = D.size := by simpa [ifftInToOut] using congrArg List.length hx
  rw [map_linear' R val D x hl, hx, map_linear R val D v h, shift_eq K R]
/-- the same on half shares -/
theorem shift_half (R : RevOk K) (f : Hs →ₗ[F] F) (D : Domain F) (s : F) (v : List Hs) (h : v.length = D.size) (g : Hs × F → Hs) (hg : ∀ a p, f (g (a, p)) = f a * p) :
    (fftOutToIn K D (overwrite (ifftInToOut K D v) ((List.zip (ifftInToOut K D v) (brev K (powers s D.size))).map g))).map f = shifted D s (v.map f) := by
  rw [overwrite_len _ _ (by simp [ifftInToOut]), map_linear' R f D _ (by simp [ifftInToOut]), List.map_map]
  have : (List.zip (ifftInToOut K D v) (brev K (powers s D.size))).map (f ∘ g) = List.zipWith (· * ·) (ifftInToOut K D (v.map f)) (brev K (powers s D.size)) := by
    rw [← map_linear R f D v h]
    apply List.ext_getElem (by simp [ifftInToOut])
    intro i h1 h2
    simp [hg]
  rw [this, shift_eq K R]

/-- the Circom reduction: evaluations of A·B − C' on the shifted domain, with C' the polynomial through the products of the rows -/
def circomVal (D : Domain F) (s : F) (M : ConstraintMatrices F) (pub z : List F) : List F :=
  let a := avec M.a pub z M.num_constraints M.num_instance_variables D.size
  let b := matvec M.b z D.size
  List.zipWith (· - ·) (List.zipWith (· * ·) (shifted D s a) (shifted D s b)) (shifted D s (List.zipWith (· * ·) a b))

theorem le_nextPow2 (n : ℕ) : n ≤ nextPow2 n := Nat.le_pow_clog (by norm_num) n
theorem log2_nextPow2 (n : ℕ) : Nat.log2 (nextPow2 n) = Nat.clog 2 n := by unfold nextPow2; simp [Nat.log2_two_pow]

theorem circom_map_spec (L : Law T val hval) (R : RevOk K) (ht : 0 < K.threads) (M : ConstraintMatrices F) (pub : List F) (priv : List Sh)
    (hpub : M.num_instance_variables ≤ pub.length) (ha : InRange M.a (pub.length + priv.length)) (hb : InRange M.b (pub.length + priv.length))
    (g s : F) (hroots : groth16_roots_of_unity (F := F) (Nat.clog 2 (M.num_constraints + M.num_instance_variables)) = .ok (g, s))
    (hadic : Nat.clog 2 (M.num_constraints + M.num_instance_variables) ≤ K.twoAdicity) :
    Ens (circom_map (T := T) () M pub priv) (fun r => r.1.map hval = circomVal ⟨nextPow2 (M.num_constraints + M.num_instance_variables), g⟩ s M pub (pub ++ priv.map val)) := by
  have hle := le_nextPow2 (M.num_constraints + M.num_instance_variables)
  have hlog := log2_nextPow2 (M.num_constraints + M.num_instance_variables)
  unfold circom_map
  dsimp only
  rw [hlog]
  have hn2 : nextPow2 (M.num_constraints + M.num_instance_variables) = 2 ^ Nat.log2 (nextPow2 (M.num_constraints + M.num_instance_variables)) := by rw [hlog]; rfl
  generalize hn : nextPow2 (M.num_constraints + M.num_instance_variables) = n at *
  rw [if_neg (by simpa using hadic), hroots, ok_bind]
  dsimp only
  rw [Domain.with, if_pos ⟨hn2, by omega⟩, okOr_some, ok_bind, coset_table_spec R ht, ok_bind]
  refine Ens.bind (eval_matrix_spec L _ n M.a pub priv ha) (fun ra hra => ?_)
  have hput := put_inputs val M.a pub (pub ++ priv.map val) M.num_constraints M.num_instance_variables n ra (T.promote pub) hra (L.promote pub) (by omega) hpub
  obtain ⟨t5, t6, t7, a, e5, e6, e7, ea, hva⟩ := hput
  rw [e5, ok_bind, e6, ok_bind, e7, ok_bind, ea, ok_bind]
  refine Ens.bind (eval_matrix_spec L _ n M.b pub priv hb) (fun b hvb => ?_)
  have hal : a.length = n := by simpa using congrArg List.length hva
  have hbl : b.length = n := by simpa using congrArg List.length hvb
  refine Ens.bind (shift_driver L R ⟨n, g⟩ s a hal) (fun a' ha' => ?_)
  refine Ens.bind (shift_driver L R ⟨n, g⟩ s b hbl) (fun b' hb' => ?_)
  refine Ens.bind (L.mulv a b (by omega)) (fun ab hab => ?_)
  have habl : ab.length = n := by simpa [hal, hbl] using congrArg List.length hab
  have hsh := shift_half R hval ⟨n, g⟩ s ab habl (fun (share, pow) =>
        let share := (share * pow)
        share) (by intro a p; simp [point_mul, mul_comm])
  have hal' : (fftOutToIn K ⟨n, g⟩ a').length = n := by simpa using congrArg List.length ha'
  have hbl' : (fftOutToIn K ⟨n, g⟩ b').length = n := by simpa using congrArg List.length hb'
  have hcl : (fftOutToIn K ⟨n, g⟩ (overwrite (ifftInToOut K ⟨n, g⟩ ab) ((List.zip (ifftInToOut K ⟨n, g⟩ ab) (brev K (powers s n))).map (fun (share, pow) =>
        let share := (share * pow)
        share)))).length = n := by simpa using congrArg List.length hsh
  rw [if_neg (by simp [ifftInToOut])]
  refine Ens.bind (L.mulv _ _ (hal'.trans hbl'.symm)) (fun ab' hab' => ?_)
  have habl' : ab'.length = n := by simpa [hal', hbl'] using congrArg List.length hab'
  rw [if_neg (by simp only [habl']; simpa using hcl.symm)]
  refine Ens.ok ?_
  rw [overwrite_len _ _ (by rw [List.length_map, List.length_zip, habl', hcl, Nat.min_self])]
  unfold circomVal
  dsimp only
  rw [← hva, ← hvb, ← hab, ← hsh, ← ha', ← hb', ← hab', List.map_map]
  apply List.ext_getElem (by simp [habl'])
  intro i i1 i2
  simp

theorem mul_loop (s c0 : F) (vs : List Hs) (f : F × List Hs → Hs → F × List Hs) (hf : ∀ c t a, f (c, t) a = (c * s, t ++ [a * c])) :
    vs.foldl f (c0, []) = (c0 * s ^ vs.length, (List.range vs.length).map (fun j => vs.getD j 0 * (c0 * s ^ j))) := by
  have := foldl_inv vs f (c0, []) (fun pre st => st = (c0 * s ^ pre.length, (List.range pre.length).map (fun j => vs.getD j 0 * (c0 * s ^ j)))) (by simp) (by
    intro pre a st hp h
    subst h; rw [hf]
    have hx : vs.getD pre.length 0 = a := by simp [List.getD, prefix_getElem hp]
    simp only [List.length_append, List.length_singleton, List.range_succ, List.map_append, List.map_cons, List.map_nil, hx, pow_succ, mul_assoc])
  exact this

/-- a system too large for the field is refused -/
theorem circom_too_large (M : ConstraintMatrices F) (pub : List F) (priv : List Sh) (h : K.twoAdicity < Nat.clog 2 (M.num_constraints + M.num_instance_variables)) :
    circom_map (T := T) () M pub priv = .error .err := by
  have hlog := log2_nextPow2 (M.num_constraints + M.num_instance_variables)
  unfold circom_map
  dsimp only
  rw [hlog, if_pos (by simpa using h)]; rfl

/-- the other reduction: coefficients of the polynomial that is (A·B − C)/Z on the shifted domain -/
def libsnarkVal (D : Domain F) (s : F) (M : ConstraintMatrices F) (pub z : List F) : List F :=
  let a := avec M.a pub z M.num_constraints M.num_instance_variables D.size
  let b := matvec M.b z D.size
  let c := matvec M.c z D.size
  let q := (List.zipWith (· - ·) (List.zipWith (· * ·) (shifted D s a) (shifted D s b)) (shifted D s c)).map (· * (s ^ D.size - 1)⁻¹)
  (List.range D.size).map (fun j => (coeffs D q).getD j 0 * s⁻¹ ^ j)

theorem libsnark_map_spec (L : Law T val hval) (R : RevOk K) (ht : 0 < K.threads) (M : ConstraintMatrices F) (pub : List F) (priv : List Sh)
    (hpub : M.num_instance_variables ≤ pub.length) (ha : InRange M.a (pub.length + priv.length)) (hb : InRange M.b (pub.length + priv.length)) (hc : InRange M.c (pub.length + priv.length))
    (D : Domain F) (hD : Domain.new K (M.num_constraints + M.num_instance_variables) = some D) (hg : K.generator ≠ 0) (hz : K.generator ^ D.size ≠ 1) :
    Ens (libsnark_map (T := T) () M pub priv) (fun r => r.1.map hval = libsnarkVal D K.generator M pub (pub ++ priv.map val)) := by
  have hle : M.num_constraints + M.num_instance_variables ≤ D.size := by
    have := le_nextPow2 (M.num_constraints + M.num_instance_variables)
    unfold Domain.new at hD
    dsimp only at hD
    split_ifs at hD
    have h := Option.some.inj hD
    rw [← h]; exact this
  unfold libsnark_map
  dsimp only
  rw [hD, okOr_some, ok_bind, coset_table_spec R ht, ok_bind]
  refine Ens.bind (eval_matrix_spec L _ D.size M.a pub priv ha) (fun ra hra => ?_)
  obtain ⟨t5, t6, t7, a, e5, e6, e7, ea, hva⟩ := put_inputs val M.a pub (pub ++ priv.map val) M.num_constraints M.num_instance_variables D.size ra (T.promote pub) hra (L.promote pub) hle hpub
  rw [e5, ok_bind, e6, ok_bind, e7, ok_bind, ea, ok_bind]
  have hal : a.length = D.size := by simpa using congrArg List.length hva
  refine Ens.bind (shift_driver L R D K.generator a hal) (fun a' ha' => ?_)
  refine Ens.bind (eval_matrix_spec L _ D.size M.b pub priv hb) (fun b hvb => ?_)
  have hbl : b.length = D.size := by simpa using congrArg List.length hvb
  refine Ens.bind (shift_driver L R D K.generator b hbl) (fun b' hb' => ?_)
  have hal' : (fftOutToIn K D a').length = D.size := by simpa using congrArg List.length ha'
  have hbl' : (fftOutToIn K D b').length = D.size := by simpa using congrArg List.length hb'
  refine Ens.bind (L.mulv _ _ (hal'.trans hbl'.symm)) (fun ab hab => ?_)
  have habl : ab.length = D.size := by simpa [hal', hbl'] using congrArg List.length hab
  refine Ens.bind (eval_matrix_half_spec L _ D.size M.c pub priv hc) (fun c hvc => ?_)
  have hcl : c.length = D.size := by simpa using congrArg List.length hvc
  rw [if_neg (by simp [ifftInToOut])]
  have hsh := shift_half R hval D K.generator c hcl (fun (share, pow) =>
        let share := (share * pow)
        share) (by intro a p; simp [point_mul, mul_comm])
  have hcl' : (fftOutToIn K D (overwrite (ifftInToOut K D c) ((List.zip (ifftInToOut K D c) (brev K (powers K.generator D.size))).map (fun (share, pow) =>
        let share := (share * pow)
        share)))).length = D.size := by simpa using congrArg List.length hsh
  rw [psub_group, inv?_of_ne (sub_ne_zero.2 hz), unwrap_some, ok_bind, inv?_of_ne hg, unwrap_some, ok_bind]
  simp only [divCeil, ht.ne', if_false, ok_bind, pure_eq]
  generalize hch : max ((D.size + K.threads - 1) / K.threads) 1 = ch
  have hc0 : 0 < ch := by omega
  refine Ens.ok ?_
  rw [overwrite_len ab _ (by rw [List.length_map, List.length_zip, habl, hcl', Nat.min_self])]
  generalize hq : (List.zip ab (fftOutToIn K D (overwrite (ifftInToOut K D c) ((List.zip (ifftInToOut K D c) (brev K (powers K.generator D.size))).map (fun (share, pow) =>
        let share := (share * pow)
        share))))).map (fun (ab_i, c_i) =>
        let ab_i := (psub ab_i c_i)
        let ab_i := (ab_i * (K.generator ^ D.size - 1)⁻¹)
        ab_i) = q
  have hql : q.length = D.size := by rw [← hq, List.length_map, List.length_zip, habl, hcl', Nat.min_self]
  have hqv : q.map hval = (List.zipWith (· - ·) (List.zipWith (· * ·) (shifted D K.generator (a.map val)) (shifted D K.generator (b.map val))) (shifted D K.generator (c.map hval))).map (· * (K.generator ^ D.size - 1)⁻¹) := by
    rw [← hq, ← hsh, ← ha', ← hb', ← hab, List.map_map]
    apply List.ext_getElem (by simp only [List.length_map, List.length_zip, List.length_zipWith])
    intro i i1 i2
    simp [point_mul, mul_comm]
  have e : brev K (ifftInToOut K D q) = coeffs D q := brev_brev K R _
  rw [e]
  have key := chunks_map ch hc0 (coeffs D q) (fun (chunk_index, values) =>
        let current := ((K.generator)⁻¹ ^ (chunk_index * ch))
        let t__29 := []
        let (current, t__29) := foldl% (fun (current, t__29) value =>
            let value := (value * current)
            let current := (current * (K.generator)⁻¹)
            let t__29 := (t__29 ++ [value])
            (current, t__29)
          ) (current, t__29) values
        let t__28 := t__29
        let values := (overwrite values t__28)
        values) (fun j => (coeffs D q).getD j 0 * (K.generator)⁻¹ ^ j) (by
      intro i vs hv
      dsimp only
      rw [mul_loop (K.generator)⁻¹ _ vs _ (by intro c t a; rfl)]
      dsimp only
      rw [overwrite_len _ _ (by simp)]
      refine List.map_congr_left (fun j hj => ?_)
      have hj' : j < vs.length := by simpa using hj
      rw [pow_add]
      congr 1
      subst hv
      simp only [List.getD]
      rw [List.getElem?_take, List.getElem?_drop]
      simp at hj'
      rw [if_pos hj'.1])
  rw [overwrite_len _ _ (by simp [renum])]
  refine (congrArg (List.map hval) key).trans ?_
  unfold libsnarkVal
  dsimp only
  rw [← hva, ← hvb, ← hvc, ← hqv, ← coeffs_map hval D q hql, List.map_map, coeffs_length]
  refine List.map_congr_left (fun j hj => ?_)
  have hj' : j < (coeffs D q).length := by simpa using hj
  simp only [Function.comp, point_mul, map_smul, smul_eq_mul]
  rw [getD_map' hval (coeffs D q) j 0 hj', mul_comm, getD_irrel _ _ 0 default hj']
end

/-! ## the back ends obey the law -/
section
variable {F : Type} [Field F] [DecidableEq F] [Inhabited F]
open Rs.Groth.Plain Rs.Groth.Shamir Rs.ShamirOps

theorem rowval_snoc (row : List (F × ℕ)) (e : F × ℕ) (z : List F) : rowval (row ++ [e]) z = rowval row z + e.1 * z.getD e.2 0 := by simp [rowval]

theorem mem_of_prefix {α : Type} {pre l : List α} {a : α} (h : (pre ++ [a]) <+: l) : a ∈ l := h.subset (by simp)

theorem plain_eval_spec (id : ℕ) (row : List (F × ℕ)) (pub priv : List F) (h : ∀ e ∈ row, e.2 < pub.length + priv.length) :
    Ens (plain_eval id row pub priv) (fun r => r = rowval row (pub ++ priv)) := by
  unfold plain_eval
  simp only [pure_eq, ok_bind, bind_pure]
  refine foldlM_inv row _ _ (fun pre acc => acc = rowval pre (pub ++ priv)) (by simp [rowval]) ?_
  rintro pre ⟨c, i⟩ acc hp rfl
  have hi := h _ (mem_of_prefix hp)
  dsimp only at hi ⊢
  by_cases hh : i < pub.length
  · simp only [hh, decide_true, if_true, idx_of_lt hh, ok_bind]
    exact Ens.ok (by rw [rowval_snoc]; simp [List.getD, List.getElem?_append_left hh, List.getElem?_eq_getElem hh])
  · have h2 : i - pub.length < priv.length := by omega
    simp only [hh, decide_false, Bool.false_eq_true, if_false, rsub_nat (show pub.length ≤ i by omega), ok_bind, idx_of_lt h2]
    exact Ens.ok (by rw [rowval_snoc]; simp [List.getD, List.getElem?_append_right (show pub.length ≤ i by omega), List.getElem?_eq_getElem h2])
theorem plain_eval_half_spec (id : ℕ) (row : List (F × ℕ)) (pub priv : List F) (h : ∀ e ∈ row, e.2 < pub.length + priv.length) :
    Ens (plain_eval_half id row pub priv) (fun r => r = rowval row (pub ++ priv)) := by
  unfold plain_eval_half
  simp only [pure_eq, ok_bind, bind_pure]
  refine foldlM_inv row _ _ (fun pre acc => acc = rowval pre (pub ++ priv)) (by simp [rowval]) ?_
  rintro pre ⟨c, i⟩ acc hp rfl
  have hi := h _ (mem_of_prefix hp)
  dsimp only at hi ⊢
  by_cases hh : i < pub.length
  · simp only [hh, decide_true, if_true, idx_of_lt hh, ok_bind]
    exact Ens.ok (by rw [rowval_snoc]; simp [List.getD, List.getElem?_append_left hh, List.getElem?_eq_getElem hh])
  · have h2 : i - pub.length < priv.length := by omega
    simp only [hh, decide_false, Bool.false_eq_true, if_false, rsub_nat (show pub.length ≤ i by omega), ok_bind, idx_of_lt h2]
    exact Ens.ok (by rw [rowval_snoc]; simp [List.getD, List.getElem?_append_right (show pub.length ≤ i by omega), List.getElem?_eq_getElem h2])

/-- the prover in the clear -/
@[reducible] def plainDriver (F : Type) [Field F] [DecidableEq F] [Inhabited F] : Driver F F F where
  id := 0
  evalc := plain_eval 0
  evalh := plain_eval_half 0
  promote := plain_promote 0
  mulv a b := .ok (plain_mul a b ()).1
  distribute c r := .ok (plain_distribute c r)

theorem zip_zipWith {A B C : Type} (f : A × B → C) (g : A → B → C) (h : ∀ a b, f (a, b) = g a b) (a : List A) (b : List B) : (List.zip a b).map f = List.zipWith g a b := by
  rw [List.zip, List.map_zipWith]; simp only [h]

theorem plain_law : Law (plainDriver F) LinearMap.id LinearMap.id where
  evalc row pub priv h := (plain_eval_spec 0 row pub priv h).mono (fun r e => by simpa using e)
  evalh row pub priv h := (plain_eval_half_spec 0 row pub priv h).mono (fun r e => by simpa using e)
  promote pub := by show (plain_promote 0 pub).map _ = pub; simp [plain_promote]
  mulv a b h := Ens.ok (by
    simp only [plain_mul]
    rw [zip_zipWith _ (· * ·) (by intro a b; rfl)]; simp)
  distribute c r h := Ens.ok (by
    simp only [plain_distribute]
    rw [overwrite_len _ _ (by simp [h]), zip_zipWith _ (· * ·) (by intro a b; rfl)]; simp)

/-! shares of one Shamir party, as a module over the field -/
def shEquiv (F : Type) : ShamirPrimeFieldShare F ≃ F := ⟨fun s => s.a, fun a => ⟨a⟩, fun _ => rfl, fun _ => rfl⟩
instance (priority := low) shGroup : AddCommGroup (ShamirPrimeFieldShare F) := (shEquiv F).addCommGroup
instance (priority := low) shModule : Module F (ShamirPrimeFieldShare F) := (shEquiv F).module F
def shVal (F : Type) [Field F] [DecidableEq F] [Inhabited F] : ShamirPrimeFieldShare F →ₗ[F] F := ((shEquiv F).linearEquiv F).toLinearMap
@[simp] theorem shVal_eq (s : ShamirPrimeFieldShare F) : shVal F s = s.a := rfl

@[reducible] def shamirDriver (F : Type) [Field F] [DecidableEq F] [Inhabited F] (id : ℕ) : Driver F (ShamirPrimeFieldShare F) F where
  id := id
  evalc := shamir_eval id
  evalh := shamir_eval_half id
  promote := shamir_promote id
  mulv a b := do let r ← shamir_mul a b (); pure r.1
  distribute := shamir_distribute

theorem shamir_eval_spec (id : ℕ) (row : List (F × ℕ)) (pub : List F) (priv : List (ShamirPrimeFieldShare F)) (h : ∀ e ∈ row, e.2 < pub.length + priv.length) :
    Ens (shamir_eval id row pub priv) (fun r => r.a = rowval row (pub ++ priv.map (fun s => s.a))) := by
  unfold shamir_eval
  simp only [pure_eq, ok_bind, bind_pure]
  refine foldlM_inv row _ _ (fun pre (acc : ShamirPrimeFieldShare F) => acc.a = rowval pre (pub ++ priv.map (fun s => s.a))) (by simp [rowval]) ?_
  rintro pre ⟨c, i⟩ acc hp hacc
  have hi := h _ (mem_of_prefix hp)
  dsimp only at hi ⊢
  by_cases hh : i < pub.length
  · simp only [hh, decide_true, if_true, idx_of_lt hh, ok_bind]
    refine Ens.ok ?_
    rw [rowval_snoc, ← hacc, mul_comm c]; simp [List.getD, List.getElem?_append_left hh, List.getElem?_eq_getElem hh]; rfl
  · have h2 : i - pub.length < priv.length := by omega
    simp only [hh, decide_false, Bool.false_eq_true, if_false, rsub_nat (show pub.length ≤ i by omega), ok_bind, idx_of_lt h2]
    refine Ens.ok ?_
    rw [rowval_snoc, ← hacc, mul_comm c]; simp [List.getD, List.getElem?_append_right (show pub.length ≤ i by omega), List.getElem?_eq_getElem h2]; rfl
theorem shamir_eval_half_spec (id : ℕ) (row : List (F × ℕ)) (pub : List F) (priv : List (ShamirPrimeFieldShare F)) (h : ∀ e ∈ row, e.2 < pub.length + priv.length) :
    Ens (shamir_eval_half id row pub priv) (fun r => r = rowval row (pub ++ priv.map (fun s => s.a))) := by
  unfold shamir_eval_half
  simp only [pure_eq, ok_bind, bind_pure]
  refine foldlM_inv row _ _ (fun pre acc => acc = rowval pre (pub ++ priv.map (fun s => s.a))) (by simp [rowval]) ?_
  rintro pre ⟨c, i⟩ acc hp hacc
  have hi := h _ (mem_of_prefix hp)
  dsimp only at hi ⊢
  by_cases hh : i < pub.length
  · simp only [hh, decide_true, if_true, idx_of_lt hh, ok_bind]
    refine Ens.ok ?_
    rw [rowval_snoc, ← hacc, mul_comm c]; simp [List.getD, List.getElem?_append_left hh, List.getElem?_eq_getElem hh]
  · have h2 : i - pub.length < priv.length := by omega
    simp only [hh, decide_false, Bool.false_eq_true, if_false, rsub_nat (show pub.length ≤ i by omega), ok_bind, idx_of_lt h2]
    refine Ens.ok ?_
    rw [rowval_snoc, ← hacc, mul_comm c]; simp [List.getD, List.getElem?_append_right (show pub.length ≤ i by omega), List.getElem?_eq_getElem h2]

theorem shamir_law (id : ℕ) : Law (shamirDriver F id) (shVal F) LinearMap.id where
  evalc row pub priv h := shamir_eval_spec id row pub priv h
  evalh row pub priv h := shamir_eval_half_spec id row pub priv h
  promote pub := by
    show (shamir_promote id pub).map _ = pub
    apply List.ext_getElem (by simp [shamir_promote, ar_promote_to_trivial_shares])
    intro i h1 h2
    simp [shamir_promote, ar_promote_to_trivial_shares]
  mulv a b h := by
    show Ens (do let r ← shamir_mul a b (); pure r.1) _
    simp only [shamir_mul, ar_local_mul_vec, zipEq, h, if_true, ok_bind, pure_eq]
    refine Ens.ok ?_
    apply List.ext_getElem (by simp)
    intro i h1 h2
    simp
  distribute c r h := by
    show Ens (shamir_distribute c r) _
    simp only [shamir_distribute]
    rw [if_neg (by simp [h])]
    refine Ens.ok ?_
    rw [overwrite_len _ _ (by simp [h])]
    apply List.ext_getElem (by simp)
    intro i h1 h2
    simp; rfl

/-- the witness maps of the plain prover and of a Shamir party, from the source -/
theorem circom_plain [K : Knobs F] (R : RevOk K) (ht : 0 < K.threads) (M : ConstraintMatrices F) (pub priv : List F)
    (hpub : M.num_instance_variables ≤ pub.length) (ha : InRange M.a (pub.length + priv.length)) (hb : InRange M.b (pub.length + priv.length))
    (g s : F) (hroots : groth16_roots_of_unity (F := F) (Nat.clog 2 (M.num_constraints + M.num_instance_variables)) = .ok (g, s))
    (hadic : Nat.clog 2 (M.num_constraints + M.num_instance_variables) ≤ K.twoAdicity) :
    circom_map (T := plainDriver F) () M pub priv = .ok (circomVal ⟨nextPow2 (M.num_constraints + M.num_instance_variables), g⟩ s M pub (pub ++ priv), ()) := by
  obtain ⟨r, e, h⟩ := circom_map_spec plain_law R ht M pub priv hpub ha hb g s hroots hadic
  rw [e]; simp at h; rw [← h]
theorem circom_shamir [K : Knobs F] (R : RevOk K) (ht : 0 < K.threads) (id : ℕ) (M : ConstraintMatrices F) (pub : List F) (priv : List (ShamirPrimeFieldShare F))
    (hpub : M.num_instance_variables ≤ pub.length) (ha : InRange M.a (pub.length + priv.length)) (hb : InRange M.b (pub.length + priv.length))
    (g s : F) (hroots : groth16_roots_of_unity (F := F) (Nat.clog 2 (M.num_constraints + M.num_instance_variables)) = .ok (g, s))
    (hadic : Nat.clog 2 (M.num_constraints + M.num_instance_variables) ≤ K.twoAdicity) :
    circom_map (T := shamirDriver F id) () M pub priv = .ok (circomVal ⟨nextPow2 (M.num_constraints + M.num_instance_variables), g⟩ s M pub (pub ++ priv.map (fun x => x.a)), ()) := by
  obtain ⟨r, e, h⟩ := circom_map_spec (shamir_law id) R ht M pub priv hpub ha hb g s hroots hadic
  rw [e]; simp at h; exact congrArg (fun x => Except.ok (x, ())) h
theorem libsnark_plain [K : Knobs F] (R : RevOk K) (ht : 0 < K.threads) (M : ConstraintMatrices F) (pub priv : List F)
    (hpub : M.num_instance_variables ≤ pub.length) (ha : InRange M.a (pub.length + priv.length)) (hb : InRange M.b (pub.length + priv.length)) (hc : InRange M.c (pub.length + priv.length))
    (D : Domain F) (hD : Domain.new K (M.num_constraints + M.num_instance_variables) = some D) (hg : K.generator ≠ 0) (hz : K.generator ^ D.size ≠ 1) :
    libsnark_map (T := plainDriver F) () M pub priv = .ok (libsnarkVal D K.generator M pub (pub ++ priv), ()) := by
  obtain ⟨r, e, h⟩ := libsnark_map_spec plain_law R ht M pub priv hpub ha hb hc D hD hg hz
  rw [e]; simp at h; rw [← h]
theorem libsnark_shamir [K : Knobs F] (R : RevOk K) (ht : 0 < K.threads) (id : ℕ) (M : ConstraintMatrices F) (pub : List F) (priv : List (ShamirPrimeFieldShare F))
    (hpub : M.num_instance_variables ≤ pub.length) (ha : InRange M.a (pub.length + priv.length)) (hb : InRange M.b (pub.length + priv.length)) (hc : InRange M.c (pub.length + priv.length))
    (D : Domain F) (hD : Domain.new K (M.num_constraints + M.num_instance_variables) = some D) (hg : K.generator ≠ 0) (hz : K.generator ^ D.size ≠ 1) :
    libsnark_map (T := shamirDriver F id) () M pub priv = .ok (libsnarkVal D K.generator M pub (pub ++ priv.map (fun x => x.a)), ()) := by
  obtain ⟨r, e, h⟩ := libsnark_map_spec (shamir_law id) R ht M pub priv hpub ha hb hc D hD hg hz
  rw [e]; simp at h; exact congrArg (fun x => Except.ok (x, ())) h
end

/-! ## what these vectors are -/
section
variable {F : Type} [Field F] [DecidableEq F] [Inhabited F]

theorem getD_zipWith {A B C : Type} (f : A → B → C) (a : List A) (b : List B) (i : ℕ) (x : A) (y : B) (z : C) (h1 : i < a.length) (h2 : i < b.length) :
    (List.zipWith f a b).getD i z = f (a.getD i x) (b.getD i y) := by
  simp [List.getD, List.getElem?_zipWith, List.getElem?_eq_getElem h1, List.getElem?_eq_getElem h2]
theorem shifted_getD (D : Domain F) (s : F) (v : List F) (k : ℕ) (d : F) (hk : k < D.size) : (shifted D s v).getD k d = (interp D v).eval (s * D.gen ^ k) := getD_range _ _ _ _ hk

/-- entry `k` of the Circom vector is A·B − C' at the `k`-th point of the shifted domain; the polynomials A, B, C' of degree below the
domain size take on the domain the values of the rows, the public inputs, and the products -/
theorem circom_meaning (D : Domain F) (hg : IsPrimitiveRoot D.gen D.size) (hn : (D.size : F) ≠ 0) (s : F) (M : ConstraintMatrices F) (pub z : List F) :
    ∃ A B C' : F[X], A.degree < D.size ∧ B.degree < D.size ∧ C'.degree < D.size ∧
      (∀ i < D.size, A.eval (D.gen ^ i) = if M.num_constraints ≤ i ∧ i < M.num_constraints + M.num_instance_variables then pub.getD (i - M.num_constraints) 0 else matval M.a z i) ∧
      (∀ i < D.size, B.eval (D.gen ^ i) = matval M.b z i) ∧
      (∀ i < D.size, C'.eval (D.gen ^ i) = A.eval (D.gen ^ i) * B.eval (D.gen ^ i)) ∧
      (circomVal D s M pub z).length = D.size ∧ ∀ k < D.size, (circomVal D s M pub z).getD k 0 = (A * B - C').eval (s * D.gen ^ k) := by
  refine ⟨interp D (avec M.a pub z M.num_constraints M.num_instance_variables D.size), interp D (matvec M.b z D.size), interp D (List.zipWith (· * ·) (avec M.a pub z M.num_constraints M.num_instance_variables D.size) (matvec M.b z D.size)),
    interp_degree _ _, interp_degree _ _, interp_degree _ _, ?_, ?_, ?_, by simp [circomVal], ?_⟩
  · intro i hi; rw [interp_eval D hg hn _ i hi, avec, getD_range _ _ _ _ hi]
  · intro i hi; rw [interp_eval D hg hn _ i hi, matvec, getD_range _ _ _ _ hi]
  · intro i hi
    rw [interp_eval D hg hn _ i hi, interp_eval D hg hn _ i hi, interp_eval D hg hn _ i hi]
    exact getD_zipWith _ _ _ _ _ _ _ (by simpa using hi) (by simpa using hi)
  · intro k hk
    unfold circomVal
    dsimp only
    rw [getD_zipWith (· - ·) _ _ k 0 0 0 (by simpa using hk) (by simpa using hk), getD_zipWith (· * ·) _ _ k 0 0 0 (by simpa using hk) (by simpa using hk),
      shifted_getD _ _ _ _ _ hk, shifted_getD _ _ _ _ _ hk, shifted_getD _ _ _ _ _ hk, eval_sub, eval_mul]

theorem points_inj (D : Domain F) (hg : IsPrimitiveRoot D.gen D.size) (s : F) (hs : s ≠ 0) : ((Finset.range D.size).image (fun k => s * D.gen ^ k)).card = D.size := by
  rw [Finset.card_image_of_injOn, Finset.card_range]
  intro a ha b hb h
  simp at ha hb
  exact hg.pow_inj ha hb (mul_left_cancel₀ hs h)

/-- the coefficients of the other reduction: H of degree below the domain size with H·Z = A·B − C on the shifted domain, and H·Z = A·B − C
as polynomials when the assignment satisfies the constraints -/
theorem libsnark_meaning (D : Domain F) (hg : IsPrimitiveRoot D.gen D.size) (hn : (D.size : F) ≠ 0) (s : F) (hs : s ≠ 0) (hz : s ^ D.size ≠ 1) (M : ConstraintMatrices F) (pub z : List F) :
    ∃ A B C' H : F[X], A.degree < D.size ∧ B.degree < D.size ∧ C'.degree < D.size ∧ H.degree < D.size ∧
      (∀ i < D.size, A.eval (D.gen ^ i) = if M.num_constraints ≤ i ∧ i < M.num_constraints + M.num_instance_variables then pub.getD (i - M.num_constraints) 0 else matval M.a z i) ∧
      (∀ i < D.size, B.eval (D.gen ^ i) = matval M.b z i) ∧ (∀ i < D.size, C'.eval (D.gen ^ i) = matval M.c z i) ∧
      (libsnarkVal D s M pub z).length = D.size ∧ (∀ j < D.size, (libsnarkVal D s M pub z).getD j 0 = H.coeff j) ∧
      (∀ k < D.size, (H * (X ^ D.size - 1)).eval (s * D.gen ^ k) = (A * B - C').eval (s * D.gen ^ k)) ∧
      ((∀ i < D.size, A.eval (D.gen ^ i) * B.eval (D.gen ^ i) = C'.eval (D.gen ^ i)) → H * (X ^ D.size - 1) = A * B - C') := by
  have hD0 : D.size ≠ 0 := by rintro h; simp [h] at hn
  generalize hA : interp D (avec M.a pub z M.num_constraints M.num_instance_variables D.size) = A
  generalize hB : interp D (matvec M.b z D.size) = B
  generalize hC : interp D (matvec M.c z D.size) = C'
  set q := (List.zipWith (· - ·) (List.zipWith (· * ·) (shifted D s (avec M.a pub z M.num_constraints M.num_instance_variables D.size)) (shifted D s (matvec M.b z D.size))) (shifted D s (matvec M.c z D.size))).map (· * (s ^ D.size - 1)⁻¹) with hq
  have hv : libsnarkVal D s M pub z = (List.range D.size).map (fun j => (coeffs D q).getD j 0 * s⁻¹ ^ j) := rfl
  set H : F[X] := ∑ j ∈ Finset.range D.size, C ((coeffs D q).getD j 0 * s⁻¹ ^ j) * X ^ j with hH
  have hzz : s ^ D.size - 1 ≠ 0 := sub_ne_zero.2 hz
  have dA : A.degree < D.size := hA ▸ interp_degree _ _
  have dB : B.degree < D.size := hB ▸ interp_degree _ _
  have dC : C'.degree < D.size := hC ▸ interp_degree _ _
  have dH : H.degree < D.size := by
    refine lt_of_le_of_lt (degree_sum_le _ _) ?_
    rw [Finset.sup_lt_iff (by exact_mod_cast WithBot.bot_lt_coe _)]
    intro j hj
    exact lt_of_le_of_lt (degree_C_mul_X_pow_le _ _) (by exact_mod_cast Finset.mem_range.1 hj)
  have hql : q.length = D.size := by simp [hq]
  have hqk : ∀ k < D.size, q.getD k default = (A * B - C').eval (s * D.gen ^ k) * (s ^ D.size - 1)⁻¹ := by
    intro k hk
    rw [hq, getD_map' _ _ _ _ (by simpa using hk), getD_zipWith (· - ·) _ _ k 0 0 _ (by simpa using hk) (by simpa using hk), getD_zipWith (· * ·) _ _ k 0 0 0 (by simpa using hk) (by simpa using hk),
      shifted_getD _ _ _ _ _ hk, shifted_getD _ _ _ _ _ hk, shifted_getD _ _ _ _ _ hk, hA, hB, hC, eval_sub, eval_mul]
  have hHe : ∀ k < D.size, H.eval (s * D.gen ^ k) = (A * B - C').eval (s * D.gen ^ k) * (s ^ D.size - 1)⁻¹ := by
    intro k hk
    rw [← hqk k hk, ← interp_eval D hg hn q k hk, eval_interp, hH, eval_finset_sum]
    refine Finset.sum_congr rfl (fun j _ => ?_)
    simp only [eval_mul, eval_C, eval_pow, eval_X]
    rw [mul_pow, inv_pow]
    have := pow_ne_zero j hs
    field_simp
  have hZ : ∀ k, (X ^ D.size - 1 : F[X]).eval (s * D.gen ^ k) = s ^ D.size - 1 := by
    intro k
    simp only [eval_sub, eval_pow, eval_X, eval_one]
    rw [mul_pow, ← pow_mul, Nat.mul_comm, pow_mul, hg.pow_eq_one]; simp
  refine ⟨A, B, C', H, dA, dB, dC, dH, ?_, ?_, ?_, by simp [hv], ?_, ?_, ?_⟩
  · intro i hi; rw [← hA, interp_eval D hg hn _ i hi, avec, getD_range _ _ _ _ hi]
  · intro i hi; rw [← hB, interp_eval D hg hn _ i hi, matvec, getD_range _ _ _ _ hi]
  · intro i hi; rw [← hC, interp_eval D hg hn _ i hi, matvec, getD_range _ _ _ _ hi]
  · intro j hj
    rw [hv, getD_range _ _ _ _ hj, hH, finset_sum_coeff]
    simp only [coeff_C_mul_X_pow]
    rw [Finset.sum_ite_eq (Finset.range D.size) j, if_pos (Finset.mem_range.2 hj)]
  · intro k hk
    rw [eval_mul, hHe k hk, hZ]; field_simp
  · intro hsat
    have mon : (X ^ D.size - 1 : F[X]).Monic := by simpa using monic_X_pow_sub_C (1 : F) hD0
    have dZ : (X ^ D.size - 1 : F[X]).degree = D.size := by simpa using degree_X_pow_sub_C (Nat.pos_of_ne_zero hD0) (1 : F)
    have r0 : (A * B - C') %ₘ (X ^ D.size - 1) = 0 := by
      refine eq_of_degrees_lt_of_eval_finset_eq ((Finset.range D.size).image (fun k => 1 * D.gen ^ k)) ?_ ?_ ?_
      · rw [points_inj D hg 1 one_ne_zero, ← dZ]; exact degree_modByMonic_lt _ mon
      · rw [degree_zero]; exact WithBot.bot_lt_coe _
      · intro x hx
        obtain ⟨k, hk, rfl⟩ := Finset.mem_image.1 hx
        have e := congrArg (fun p => p.eval (1 * D.gen ^ k)) (modByMonic_add_div (A * B - C') (X ^ D.size - 1 : F[X]))
        simp only [eval_add, eval_mul] at e
        have hz1 : (X ^ D.size - 1 : F[X]).eval (1 * D.gen ^ k) = 0 := by
          simp only [eval_sub, eval_pow, eval_X, eval_one, one_mul]
          rw [← pow_mul, Nat.mul_comm, pow_mul, hg.pow_eq_one]; simp
        rw [hz1, zero_mul, add_zero] at e
        rw [e, eval_zero, eval_sub, eval_mul, one_mul, hsat k (Finset.mem_range.1 hk), sub_self]
    have hfac := modByMonic_add_div (A * B - C') (X ^ D.size - 1 : F[X])
    rw [r0, zero_add] at hfac
    rw [← hfac, mul_comm]
    congr 1
    refine eq_of_degrees_lt_of_eval_finset_eq ((Finset.range D.size).image (fun k => s * D.gen ^ k)) (by rw [points_inj D hg s hs]; exact dH) ?_ ?_
    · rw [points_inj D hg s hs]
      have dP : (A * B - C').degree < (D.size + D.size : ℕ) := by
        refine lt_of_le_of_lt (degree_sub_le _ _) (max_lt ?_ (lt_of_lt_of_le dC (by exact_mod_cast Nat.le_add_right _ _)))
        refine lt_of_le_of_lt (degree_mul_le _ _) ?_
        by_cases h0 : A = 0
        · rw [h0, degree_zero, WithBot.bot_add]; exact WithBot.bot_lt_coe _
        · by_cases h1 : B = 0
          · rw [h1, degree_zero, WithBot.add_bot]; exact WithBot.bot_lt_coe _
          · rw [degree_eq_natDegree h0, degree_eq_natDegree h1] at *
            norm_cast at *
            omega
      by_cases hP : (A * B - C') /ₘ (X ^ D.size - 1) = 0
      · rw [hP, degree_zero]; exact WithBot.bot_lt_coe _
      · by_contra hcon
        have h2 := degree_mul (p := (X ^ D.size - 1 : F[X])) (q := (A * B - C') /ₘ (X ^ D.size - 1))
        rw [hfac, dZ] at h2
        rw [h2, degree_eq_natDegree hP] at dP
        rw [degree_eq_natDegree hP] at hcon
        norm_cast at *
        omega
    · intro x hx
      obtain ⟨k, hk, rfl⟩ := Finset.mem_image.1 hx
      have e := congrArg (fun p => p.eval (s * D.gen ^ k)) hfac
      simp only [eval_mul] at e
      rw [hZ] at e
      rw [hHe k (Finset.mem_range.1 hk), eval_sub, eval_mul] 
      rw [eval_sub, eval_mul] at e
      rw [← e]; field_simp

/-! ## independence of the back end: the parties' results are sharings of the plain result -/
section
variable {t : ℕ}
/-- entry by entry a degree-`t` sharing: party `α` holds `w α`, the secret is `w 0` -/
def Sharing (t : ℕ) (n : ℕ) (w : F → List F) : Prop := (∀ α, (w α).length = n) ∧ ∀ i < n, PolyFn t (fun α => (w α).getD i 0)

theorem PolyFn.finsum {ι : Type} (t : ℕ) (s : Finset ι) (f : ι → F → F) (h : ∀ i ∈ s, PolyFn t (f i)) : PolyFn t (fun x => ∑ i ∈ s, f i x) := by
  have := PolyFn.sum (t := t) s.toList f (fun i hi => h i (by simpa using hi))
  simpa [Finset.sum_map_toList] using this

theorem sharing_matval (n : ℕ) (mat : List (List (F × ℕ))) (hm : InRange mat n) (w : F → List F) (h : Sharing t n w) (i : ℕ) : PolyFn t (fun α => matval mat (w α) i) := by
  unfold matval
  cases e : mat[i]? with
  | none => exact PolyFn.const t 0
  | some row =>
    simp only [Option.elim]
    unfold rowval
    refine PolyFn.sum row (fun e α => e.1 * (w α).getD e.2 0) (fun x hx => ?_)
    exact (h.2 x.2 (hm row (List.mem_of_getElem? e) x hx)).smul x.1
theorem sharing_shifted (D : Domain F) (s : F) (v : F → List F) (h : Sharing t D.size v) : Sharing t D.size (fun α => shifted D s (v α)) := by
  refine ⟨fun α => by simp, fun k hk => ?_⟩
  have e : (fun α => (shifted D s (v α)).getD k 0) = fun α => ∑ j ∈ Finset.range D.size, (∑ i ∈ Finset.range D.size, (((D.size : F))⁻¹ * D.gen⁻¹ ^ (i * j) * (s * D.gen ^ k) ^ j) * (v α).getD i 0) := by
    funext α
    rw [shifted_getD _ _ _ _ _ hk, eval_interp]
    refine Finset.sum_congr rfl (fun j hj => ?_)
    rw [coeffs, getD_range _ _ _ _ (Finset.mem_range.1 hj), smul_eq_mul, Finset.mul_sum, Finset.sum_mul]
    refine Finset.sum_congr rfl (fun i hi => ?_)
    rw [smul_eq_mul, getD_irrel _ i default 0 (by rw [h.1]; exact Finset.mem_range.1 hi)]; ring
  rw [e]
  exact PolyFn.finsum t _ _ (fun j _ => PolyFn.finsum t _ _ (fun i hi => (h.2 i (Finset.mem_range.1 hi)).smul _))
theorem sharing_zipWith_mul {n u : ℕ} (v w : F → List F) (hv : Sharing t n v) (hw : Sharing u n w) : Sharing (t + u) n (fun α => List.zipWith (· * ·) (v α) (w α)) := by
  refine ⟨fun α => by simp [hv.1, hw.1], fun i hi => ?_⟩
  have e : (fun α => (List.zipWith (· * ·) (v α) (w α)).getD i 0) = fun α => (v α).getD i 0 * (w α).getD i 0 := by
    funext α; exact getD_zipWith _ _ _ _ _ _ _ (by rw [hv.1]; exact hi) (by rw [hw.1]; exact hi)
  rw [e]; exact (hv.2 i hi).mul (hw.2 i hi)
theorem sharing_zipWith_sub {n : ℕ} (v w : F → List F) (hv : Sharing t n v) (hw : Sharing t n w) : Sharing t n (fun α => List.zipWith (· - ·) (v α) (w α)) := by
  refine ⟨fun α => by simp [hv.1, hw.1], fun i hi => ?_⟩
  have e : (fun α => (List.zipWith (· - ·) (v α) (w α)).getD i 0) = fun α => (v α).getD i 0 - (w α).getD i 0 := by
    funext α; exact getD_zipWith _ _ _ _ _ _ _ (by rw [hv.1]; exact hi) (by rw [hw.1]; exact hi)
  rw [e]; exact (hv.2 i hi).sub (hw.2 i hi)
theorem sharing_range {n : ℕ} (f : F → ℕ → F) (h : ∀ i < n, PolyFn t (fun α => f α i)) : Sharing t n (fun α => (List.range n).map (f α)) := by
  refine ⟨fun α => by simp, fun i hi => ?_⟩
  have e : (fun α => ((List.range n).map (f α)).getD i 0) = fun α => f α i := by funext α; exact getD_range _ _ _ _ hi
  rw [e]; exact h i hi
theorem sharing_full (pub : List F) (m : ℕ) (w : F → List F) (h : Sharing t m w) : Sharing t (pub.length + m) (fun α => pub ++ w α) := by
  refine ⟨fun α => by simp [h.1], fun i hi => ?_⟩
  by_cases c : i < pub.length
  · have e : (fun α => (pub ++ w α).getD i 0) = fun _ => pub.getD i 0 := by funext α; simp [List.getD, List.getElem?_append_left c]
    rw [e]; exact PolyFn.const t _
  · have e : (fun α => (pub ++ w α).getD i 0) = fun α => (w α).getD (i - pub.length) 0 := by funext α; simp [List.getD, List.getElem?_append_right (show pub.length ≤ i by omega)]
    rw [e]; exact h.2 _ (by omega)
theorem Sharing.mono {n u : ℕ} {w : F → List F} (h : Sharing t n w) (hu : t ≤ u) : Sharing u n w := ⟨h.1, fun i hi => (h.2 i hi).mono hu⟩

variable (M : ConstraintMatrices F) (pub : List F) (m : ℕ) (w : F → List F)
theorem sharing_avec (n : ℕ) (ha : InRange M.a (pub.length + m)) (h : Sharing t m w) : Sharing t n (fun α => avec M.a pub (pub ++ w α) M.num_constraints M.num_instance_variables n) := by
  refine sharing_range _ (fun i _ => ?_)
  split
  · exact PolyFn.const t _
  · exact sharing_matval _ _ ha _ (sharing_full pub m w h) i
theorem sharing_matvec (mat : List (List (F × ℕ))) (n : ℕ) (ha : InRange mat (pub.length + m)) (h : Sharing t m w) : Sharing t n (fun α => matvec mat (pub ++ w α) n) :=
  sharing_range _ (fun i _ => sharing_matval _ _ ha _ (sharing_full pub m w h) i)

/-- the Circom vectors of the parties are a degree-`2t` sharing of the plain vector (their value at 0) -/
theorem circom_sharing (D : Domain F) (s : F) (ha : InRange M.a (pub.length + m)) (hb : InRange M.b (pub.length + m)) (h : Sharing t m w) :
    Sharing (t + t) D.size (fun α => circomVal D s M pub (pub ++ w α)) := by
  have sa := sharing_avec M pub m w D.size ha h
  have sb := sharing_matvec pub m w M.b D.size hb h
  exact sharing_zipWith_sub _ _ (sharing_zipWith_mul _ _ (sharing_shifted D s _ sa) (sharing_shifted D s _ sb)) (sharing_shifted D s _ (sharing_zipWith_mul _ _ sa sb))
/-- and so are the coefficients of the other reduction -/
theorem libsnark_sharing (D : Domain F) (s : F) (ha : InRange M.a (pub.length + m)) (hb : InRange M.b (pub.length + m)) (hc : InRange M.c (pub.length + m)) (h : Sharing t m w) :
    Sharing (t + t) D.size (fun α => libsnarkVal D s M pub (pub ++ w α)) := by
  have sa := sharing_avec M pub m w D.size ha h
  have sb := sharing_matvec pub m w M.b D.size hb h
  have sc := (sharing_matvec pub m w M.c D.size hc h).mono (show t ≤ t + t by omega)
  have sq := sharing_zipWith_sub _ _ (sharing_zipWith_mul _ _ (sharing_shifted D s _ sa) (sharing_shifted D s _ sb)) (sharing_shifted D s _ sc)
  refine sharing_range _ (fun j hj => ?_)
  generalize hQ : (fun α => (List.zipWith (· - ·) (List.zipWith (· * ·) (shifted D s (avec M.a pub (pub ++ w α) M.num_constraints M.num_instance_variables D.size)) (shifted D s (matvec M.b (pub ++ w α) D.size))) (shifted D s (matvec M.c (pub ++ w α) D.size)))) = Q at sq
  have e : (fun α => (coeffs D ((Q α).map (· * (s ^ D.size - 1)⁻¹))).getD j 0 * s⁻¹ ^ j) = fun α => ∑ i ∈ Finset.range D.size, (((D.size : F))⁻¹ * D.gen⁻¹ ^ (i * j) * (s ^ D.size - 1)⁻¹ * s⁻¹ ^ j) * (Q α).getD i 0 := by
    funext α
    rw [coeffs, getD_range _ _ _ _ hj, smul_eq_mul, Finset.mul_sum, Finset.sum_mul]
    refine Finset.sum_congr rfl (fun i hi => ?_)
    have hi' : i < (Q α).length := by rw [sq.1]; exact Finset.mem_range.1 hi
    rw [getD_map' _ _ _ _ hi', smul_eq_mul, getD_irrel _ i default 0 hi']; ring
  have key : PolyFn (t + t) (fun α => ∑ i ∈ Finset.range D.size, (((D.size : F))⁻¹ * D.gen⁻¹ ^ (i * j) * (s ^ D.size - 1)⁻¹ * s⁻¹ ^ j) * (Q α).getD i 0) :=
    PolyFn.finsum _ _ _ (fun i hi => (sq.2 i (Finset.mem_range.1 hi)).smul _)
  rw [← e, ← hQ] at key
  exact key
end

/-! ## the domain of the Circom reduction -/
section
variable [K : Knobs F]
/-- facts of the field: its two-adicity is positive, and a non-residue's power is −1 -/
structure FieldOk : Prop where
  pos : 0 < K.twoAdicity
  neg : (-1 : F) ≠ 1
  nonres : ∀ x : F, K.isNonResidue x = true → x ^ (K.trace * 2 ^ (K.twoAdicity - 1)) = -1
  ex : ∃ k : ℕ, K.isNonResidue (1 + (k : F)) = true

theorem roots_of_unity_spec (H : FieldOk (F := F)) : Ens (roots_of_unity (F := F)) (fun r =>
    K.isNonResidue r.1 = true ∧ r.2.length = K.twoAdicity + 1 ∧ ∀ i, i ≤ K.twoAdicity → r.2[i]? = some ((r.1 ^ K.trace) ^ 2 ^ (K.twoAdicity - i))) := by
  classical
  unfold roots_of_unity
  simp only [unwrap_some, ok_bind, pure_eq]
  have hex := H.ex
  refine Ens.bind (p := fun q : F => K.isNonResidue q = true) ?_ (fun q hq => ?_)
  · let P : ℕ → Prop := fun k => K.isNonResidue (1 + (k : F)) = true
    let m : F → ℕ := fun q => if h : ∃ i, i ≤ Nat.find hex ∧ q = 1 + (i : F) then Nat.find hex - Nat.find h else 0
    -- the number of the round is part of the state of the argument
    suffices Hs : ∀ d i : ℕ, i + d = Nat.find hex → ∃ n, whileFuel (fun q : F => (Except.ok (!((K.isNonResidue q) == true)) : M Bool)) (fun q => Except.ok (q + 1)) n (1 + (i : F)) = some (.ok (1 + ((Nat.find hex : ℕ) : F))) by
      obtain ⟨n, hn⟩ := Hs (Nat.find hex) 0 (by omega)
      refine ⟨_, whileM_of (n := n) (r := .ok _) (by simpa using hn), Nat.find_spec hex⟩
    intro d
    induction d with
    | zero =>
      intro i hi
      refine ⟨1, ?_⟩
      have : i = Nat.find hex := by omega
      subst this
      simp [whileFuel, Nat.find_spec hex]
    | succ d ih =>
      intro i hi
      obtain ⟨n, hn⟩ := ih (i + 1) (by omega)
      refine ⟨n + 1, ?_⟩
      have hx : K.isNonResidue (1 + (i : F)) = false := by
        have := Nat.find_min hex (show i < Nat.find hex by omega)
        simpa using this
      simp only [whileFuel, hx]
      rw [← hn]; push_cast; simp [add_assoc]
  · have hl : (List.replicate (K.twoAdicity + 1) (0 : F)).length = K.twoAdicity + 1 := by simp
    rw [rset_of_lt (by simp), ok_bind]
    refine Ens.bind (p := fun l : List F => l.length = K.twoAdicity + 1 ∧ ∀ i, i ≤ K.twoAdicity → l[i]? = some ((q ^ K.trace) ^ 2 ^ i)) ?_ ?_
    · have := foldlM_rrange_inv 1 (K.twoAdicity + 1) (by omega) (fun (roots : List F) i => do
          let t__3 ← (rsub i 1)
          let t__4 ← (idx roots t__3)
          let t__5 ← (rset roots i (t__4 * t__4))
          let roots := t__5
          pure roots) ((List.replicate (K.twoAdicity + 1) (0 : F)).set 0 (q ^ K.trace))
        (fun n l => l.length = K.twoAdicity + 1 ∧ ∀ i, i < n → l[i]? = some ((q ^ K.trace) ^ 2 ^ i)) ⟨by simp, fun i hi => (by have e : i = 0 := (by omega); subst e; simp)⟩ (by
          rintro i h1 h2 l ⟨hl, hv⟩
          rw [rsub_nat h1, ok_bind, idx_eq_ok (hv (i - 1) (by omega)), ok_bind, rset_of_lt (by omega), ok_bind]
          refine Ens.ok ⟨by simpa using hl, fun j hj => ?_⟩
          by_cases hji : j = i
          · subst hji
            simp only [List.getElem?_set_self (show j < l.length by omega)]
            rw [← pow_add, ← two_mul, ← pow_succ']; congr 2; congr 1; omega
          · rw [List.getElem?_set_ne (Ne.symm hji)]; exact hv j (by omega))
      simp only [List.length_set, hl]
      exact this.mono (fun l h => ⟨h.1, fun i hi => h.2 i (by omega)⟩)
    · rintro l ⟨hl', hv⟩
      refine Ens.ok ⟨hq, by simpa using hl', fun i hi => ?_⟩
      dsimp only
      rw [List.getElem?_reverse (by omega), hl', show K.twoAdicity + 1 - 1 - i = K.twoAdicity - i by omega]
      exact hv _ (by omega)

/-- the generator is a primitive root of unity of the order of the domain; the shift squares to it (or, on the largest domain, is the square of a non-residue) -/
theorem groth16_roots_spec (H : FieldOk (F := F)) (pow : ℕ) (hp : pow ≤ K.twoAdicity) : Ens (groth16_roots_of_unity (F := F) pow) (fun r =>
    IsPrimitiveRoot r.1 (2 ^ pow) ∧ (pow < K.twoAdicity → r.2 ^ 2 = r.1 ∧ r.2 ^ 2 ^ pow = -1) ∧ (pow = K.twoAdicity → ∃ q, K.isNonResidue q = true ∧ r.2 = q * q)) := by
  unfold groth16_roots_of_unity
  refine Ens.bind (roots_of_unity_spec H) ?_
  rintro ⟨q, roots⟩ ⟨hq, hl, hv⟩
  dsimp only at hq hl hv ⊢
  have hneg := H.nonres q hq
  rw [pow_mul] at hneg
  have hpos := H.pos
  have hone : (q ^ K.trace) ^ 2 ^ K.twoAdicity = 1 := by
    obtain ⟨k, hk⟩ : ∃ k, K.twoAdicity = k + 1 := ⟨K.twoAdicity - 1, by omega⟩
    rw [hk] at hneg ⊢
    rw [pow_succ, pow_mul]; simp only [Nat.add_sub_cancel] at hneg; rw [hneg]; simp
  have prim : IsPrimitiveRoot (q ^ K.trace) (2 ^ K.twoAdicity) := by
    have : orderOf (q ^ K.trace) = 2 ^ K.twoAdicity := by
      obtain ⟨k, hk⟩ : ∃ k, K.twoAdicity = k + 1 := ⟨K.twoAdicity - 1, by omega⟩
      rw [hk] at hneg hone ⊢
      simp only [Nat.add_sub_cancel] at hneg
      exact orderOf_eq_prime_pow (by rw [hneg]; exact H.neg) hone
    rw [← this]; exact IsPrimitiveRoot.orderOf _
  have hgen : IsPrimitiveRoot ((q ^ K.trace) ^ 2 ^ (K.twoAdicity - pow)) (2 ^ pow) :=
    prim.pow (by positivity) (by rw [← pow_add]; congr 1; omega)
  rw [idx_eq_ok (hv pow hp), ok_bind, unwrap_some, ok_bind]
  by_cases h : pow = K.twoAdicity
  · rw [if_pos (by simp [h])]
    exact Ens.ok ⟨hgen, fun hlt => by omega, fun _ => ⟨q, hq, rfl⟩⟩
  · rw [if_neg (by simp; omega), idx_eq_ok (hv (pow + 1) (by omega)), ok_bind]
    refine Ens.ok ⟨hgen, fun hlt => ⟨?_, ?_⟩, fun he => absurd he h⟩
    · dsimp only; rw [← pow_mul, ← pow_succ]; congr 2; omega
    · dsimp only; rw [← pow_mul, ← pow_add, show K.twoAdicity - (pow + 1) + pow = K.twoAdicity - 1 by omega]; exact hneg
end
end
end C18
