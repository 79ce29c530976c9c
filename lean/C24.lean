import Poseidon2
import Lib
set_option linter.all false
set_option autoImplicit false
open Rs Rs.Poseidon2
namespace C24
variable {F : Type} [Field F] [DecidableEq F]

def dot (r v : List F) : F := (List.zipWith (· * ·) r v).sum
def matVec (m : List (List F)) (v : List F) : List F := m.map (fun r => dot r v)

def m4 : List (List F) := [[5, 7, 1, 3], [4, 6, 1, 1], [1, 3, 5, 7], [1, 1, 4, 6]]

theorem m4_spec (T D : ℕ) (a b c d : F) : matmul_m4 T D [a, b, c, d] = .ok (matVec m4 [a, b, c, d]) := by
  unfold matmul_m4
  simp only [idx, rset, matVec, m4, dot, List.zipWith, List.map, List.sum_cons, List.sum_nil, ok_bind, pure_eq]
  simp [idx, rset, matVec, m4, dot]
  refine ⟨?_, ?_, ?_, ?_⟩ <;> ring



/-! ## Wide states: blocks of four -/

/-- what the external layer of a wide state does to the blocks: block j becomes M4 xⱼ + Σ M4 xₖ,
that is multiplication by the block-circulant matrix circ(2 M4, M4, …, M4) -/
def colSum (ys : List (List F)) : List F := (List.range 4).map (fun l => (ys.map (fun y => y.getD l 0)).sum)
def blockLayer (xs : List (List F)) : List (List F) :=
  let ys := xs.map (matVec m4)
  ys.map (fun y => List.zipWith (· + ·) y (colSum ys))

section blocks
variable {α : Type}
theorem flatten_length {xs : List (List α)} (h : ∀ x ∈ xs, x.length = 4) : xs.flatten.length = 4 * xs.length := by
  induction xs with
  | nil => rfl
  | cons x xs ih =>
    have := ih (fun y hy => h y (by simp [hy]))
    simp only [List.flatten_cons, List.length_append, h x (by simp), List.length_cons]
    omega

theorem flatten_get {xs : List (List α)} (h : ∀ x ∈ xs, x.length = 4) (j l : ℕ) (hl : l < 4) : xs.flatten[4 * j + l]? = (xs[j]?).bind (fun x => x[l]?) := by
  induction xs generalizing j with
  | nil => simp
  | cons x xs ih =>
    have hx := h x (by simp)
    have ih := ih (fun y hy => h y (by simp [hy]))
    cases j with
    | zero => simp [List.getElem?_append_left, hx, hl]
    | succ j =>
      rw [List.flatten_cons, List.getElem?_append_right (by omega), show 4 * (j + 1) + l - x.length = 4 * j + l by omega, ih]
      simp

theorem chunks_flatten {xs : List (List α)} (h : ∀ x ∈ xs, x.length = 4) : toChunksExact 4 xs.flatten = xs := by
  unfold toChunksExact
  rw [if_neg (by decide), flatten_length h, show 4 * xs.length / 4 = xs.length by omega]
  apply List.ext_getElem?
  intro i
  rw [List.getElem?_map]
  by_cases hi : i < xs.length
  · rw [List.getElem?_range hi]
    simp only [Option.map_some]
    rw [List.getElem?_eq_getElem hi]
    congr 1
    have hx : xs[i].length = 4 := h _ (List.getElem_mem hi)
    apply List.ext_getElem?
    intro l
    by_cases hl : l < 4
    · rw [List.getElem?_take_of_lt hl, List.getElem?_drop, Nat.mul_comm i 4, flatten_get h i l hl, List.getElem?_eq_getElem hi]
      rfl
    · rw [List.getElem?_take_eq_none (by omega), List.getElem?_eq_none (by omega)]
  · rw [List.getElem?_eq_none (by simpa using hi), List.getElem?_eq_none (by omega)]; rfl
end blocks

theorem m4_len {x : List F} (hx : x.length = 4) (T D : ℕ) : matmul_m4 T D x = .ok (matVec m4 x) := by
  match x, hx with
  | [a, b, c, d], _ => exact m4_spec T D a b c d

theorem matVec_m4_length (x : List F) : (matVec m4 x).length = 4 := by simp [matVec, m4]


theorem external_blocks (D : ℕ) (xs : List (List F)) (h : ∀ x ∈ xs, x.length = 4) (hk : 2 ≤ xs.length ∧ xs.length ≤ 6) :
    matmul_external (4 * xs.length) D xs.flatten = .ok (blockLayer xs).flatten := by
  set ys := xs.map (matVec m4) with hys
  have hy : ∀ y ∈ ys, y.length = 4 := by
    intro y hy; obtain ⟨x, _, rfl⟩ := List.mem_map.mp hy; exact matVec_m4_length x
  have hyl : ys.length = xs.length := by simp [hys]
  have gy : ∀ j l, j < xs.length → l < 4 → ys.flatten[4 * j + l]? = some ((ys.getD j []).getD l 0) := by
    intro j l hj hl
    rw [flatten_get hy j l hl, List.getElem?_eq_getElem (by omega)]
    have : ys[j].length = 4 := hy _ (List.getElem_mem _)
    simp [List.getD_eq_getElem, hyl, hj, this, hl]
  have hcol : ∀ l, l < 4 → (colSum ys)[l]? = some ((ys.map (fun y => y.getD l 0)).sum) := by
    intro l hl; simp [colSum, hl]
  have hz : ∀ z ∈ blockLayer xs, z.length = 4 := by
    intro z hz
    obtain ⟨y, hy', rfl⟩ := List.mem_map.mp hz
    simp [hy y hy', colSum]
  have gz : ∀ j l, j < xs.length → l < 4 → (blockLayer xs).flatten[4 * j + l]? = some ((ys.getD j []).getD l 0 + (ys.map (fun y => y.getD l 0)).sum) := by
    intro j l hj hl
    rw [flatten_get hz j l hl]
    have : ys[j].length = 4 := hy _ (List.getElem_mem (by omega))
    have e : (blockLayer xs)[j]? = some (List.zipWith (· + ·) ys[j] (colSum ys)) := by
      simp only [blockLayer, ← hys]
      rw [List.getElem?_map, List.getElem?_eq_getElem (by omega : j < ys.length)]; rfl
    have ejl : (ys.getD j []).getD l 0 = ys[j][l] := by
      rw [List.getD_eq_getElem _ _ (by omega : j < ys.length), List.getD_eq_getElem _ _ (by omega)]
    rw [e, ejl]
    simp only [Option.bind_some]
    rw [List.getElem?_zipWith, hcol l hl, List.getElem?_eq_getElem (by omega : l < ys[j].length)]
  have main : Ens (matmul_external (4 * xs.length) D xs.flatten) (fun r => r.length = 4 * xs.length ∧
      ∀ m, m < 4 * xs.length → r[m]? = (blockLayer xs).flatten[m]?) := by
    have blocks : toChunksExact 4 xs.flatten = xs := chunks_flatten h
    have each : ∀ (f : List F → M (List F)), (∀ x, x.length = 4 → f x = .ok (matVec m4 x)) → List.mapM f xs = .ok ys := by
      intro f hf; rw [mapM_ok (g := matVec m4)]; intro a ha; exact hf a (h a ha)
    have ov : overwrite xs.flatten (overwrite xs ys).flatten = ys.flatten := by
      rw [overwrite_eq (l := xs) (v := ys) (by omega), overwrite_eq]
      rw [flatten_length hy, flatten_length h]; omega
    generalize hT : 4 * xs.length = T at *
    have hd : ∀ T', 4 * xs.length = T' → rdiv T' 4 = .ok xs.length := by
      intro T' e; simp only [rdiv, show ¬ (4 = 0) by decide, if_false, pure_eq]; congr 1; omega
    have hcase : T = 8 ∨ T = 12 ∨ T = 16 ∨ T = 20 ∨ T = 24 := by omega
    unfold matmul_external
    rcases hcase with e | e | e | e | e <;> subst e <;> simp only [blocks] <;>
    · rw [each _ (by intro x hx; simp [hx, m4_len hx])]
      simp only [ok_bind, ov]
      refine Ens.bind (p := fun st : List F => ∀ m, m < 4 → st[m]? = some ((ys.map (fun y => y.getD m 0)).sum)) ?_ ?_
      · refine Ens.mono (p := fun st : List F => st.length = 4 ∧ ∀ m, m < 4 → st[m]? = some ((ys.map (fun y => y.getD m 0)).sum)) (foldlM_range_inv 4 _ _ (fun l (st : List F) => st.length = 4 ∧ ∀ m, m < l → st[m]? = some ((ys.map (fun y => y.getD m 0)).sum)) (by simp) ?_) ?_
        · rintro l hl st ⟨hlen, hst⟩
          have g0 := gy 0 l (by omega) hl
          simp only [Nat.mul_zero, Nat.zero_add] at g0
          simp only [idx_eq_ok g0, ok_bind, rset_of_lt (show l < st.length by omega), hd _ hT]
          refine Ens.mono (p := fun st' : List F => st'.length = 4 ∧ st'[l]? = some (((ys.take xs.length).map (fun y => y.getD l 0)).sum) ∧ ∀ m, m ≠ l → st'[m]? = st[m]?) ?_ ?_
          · refine foldlM_rrange_inv 1 xs.length (by omega) _ _ (fun j (st' : List F) => st'.length = 4 ∧ st'[l]? = some (((ys.take j).map (fun y => y.getD l 0)).sum) ∧ ∀ m, m ≠ l → st'[m]? = st[m]?) ?_ ?_
            · refine ⟨by simp [hlen], ?_, ?_⟩
              · rw [List.getElem?_set_self (by omega)]
                match ys, hyl with
                | y :: t, _ => simp
                | [], e => simp at e; omega
              · intro m hm; rw [List.getElem?_set_ne (Ne.symm hm)]
            · rintro j hj1 hj2 st' ⟨h1, h2, h3⟩
              have gj := gy j l (by omega) hl
              simp only [idx_eq_ok gj, idx_eq_ok h2, ok_bind, rset_of_lt (show l < st'.length by omega), pure_eq]
              refine Ens.ok ⟨by simp [h1], ?_, ?_⟩
              · rw [List.getElem?_set_self (by omega), List.take_succ, List.getElem?_eq_getElem (by omega : j < ys.length)]
                rw [List.getD_eq_getElem _ _ (by omega : j < ys.length)]
                simp only [List.map_append, List.sum_append, Option.toList_some, List.map_cons, List.map_nil, List.sum_cons, List.sum_nil, add_zero]
              · intro m hm; rw [List.getElem?_set_ne (Ne.symm hm)]; exact h3 m hm
          · rintro st' ⟨h1, h2, h3⟩
            refine ⟨h1, ?_⟩
            intro m hm
            by_cases e : m = l
            · subst e; rw [h2, ← hyl, List.take_length]
            · rw [h3 m e]; exact hst m (by omega)
        · rintro st ⟨_, h2⟩; exact h2
      · intro st hst
        refine (foldlM_range_inv _ _ _ (fun i (r : List F) => r.length = 4 * xs.length ∧ (∀ m, m < i → r[m]? = (blockLayer xs).flatten[m]?) ∧ ∀ m, i ≤ m → r[m]? = ys.flatten[m]?) ?_ ?_).mono ?_
        · refine ⟨by rw [flatten_length hy, hyl], ?_, ?_⟩ <;> intros <;> first | omega | rfl
        · rintro i hi r ⟨h1, h2, h3⟩
          have e4 : i % 4 < 4 := Nat.mod_lt _ (by decide)
          have ej : i / 4 < xs.length := by omega
          have gi := gy (i / 4) (i % 4) ej e4
          have gzi := gz (i / 4) (i % 4) ej e4
          rw [Nat.div_add_mod] at gi gzi
          simp only [rmod, show ¬ (4 = 0) by decide, if_false, ok_bind, idx_eq_ok (hst _ e4), idx_eq_ok ((h3 i le_rfl).trans gi), rset_of_lt (show i < r.length by omega), pure_eq]
          refine Ens.ok ⟨by simp [h1], ?_, ?_⟩
          · intro m hm
            by_cases e : m = i
            · subst e; rw [gzi, List.getElem?_set_self (by omega)]
            · rw [List.getElem?_set_ne (Ne.symm e)]; exact h2 m (by omega)
          · intro m hm
            rw [List.getElem?_set_ne (by omega)]; exact h3 m (by omega)
        · rintro r ⟨h1, h2, _⟩; exact ⟨by rw [h1, hT], h2⟩
  obtain ⟨r, e, h1, h2⟩ := main
  rw [e]; congr 1
  apply List.ext_getElem?
  intro m
  by_cases hm : m < 4 * xs.length
  · exact h2 m hm
  · rw [List.getElem?_eq_none (by omega), List.getElem?_eq_none]
    rw [flatten_length hz]; simp [blockLayer]; omega

/-! ## The permutation as a whole -/

/-- the external linear layer of the Poseidon2 paper -/
def extSpec (T : ℕ) (x : List F) : List F :=
  if T = 2 then matVec [[2, 1], [1, 2]] x
  else if T = 3 then matVec [[2, 1, 1], [1, 2, 1], [1, 1, 2]] x
  else if T = 4 then matVec m4 x
  else (blockLayer (toChunksExact 4 x)).flatten

/-- J + diag(μ) -/
def intSpec (diag x : List F) : List F := List.zipWith (fun s d => d * s + x.sum) x diag

def extRound (p : Poseidon2Params F) (T D : ℕ) (x : List F) (r : ℕ) : List F :=
  extSpec T ((List.zipWith (· + ·) x (p.round_constants_external.getD r [])).map (· ^ D))
def intRound (p : Poseidon2Params F) (T D : ℕ) (x : List F) (r : ℕ) : List F :=
  intSpec p.mat_internal_diag_m_1 (x.set 0 ((x.getD 0 0 + p.round_constants_internal.getD r 0) ^ D))
def permSpec (p : Poseidon2Params F) (T D : ℕ) (x : List F) : List F :=
  let x := extSpec T x
  let x := (List.range p.rounds_f_beginning).foldl (extRound p T D) x
  let x := (List.range p.rounds_p).foldl (intRound p T D) x
  (List.range' p.rounds_f_beginning p.rounds_f_end).foldl (extRound p T D) x

/-- what `Poseidon2Params::new` asserts about the width, plus the shapes its types give -/
structure Good (p : Poseidon2Params F) (T : ℕ) : Prop where
  width : T = 2 ∨ T = 3 ∨ T = 4 ∨ T = 8 ∨ T = 12 ∨ T = 16 ∨ T = 20 ∨ T = 24
  ext : p.rounds_f_beginning + p.rounds_f_end ≤ p.round_constants_external.length
  extw : ∀ c ∈ p.round_constants_external, c.length = T
  int : p.rounds_p ≤ p.round_constants_internal.length
  diag : p.mat_internal_diag_m_1.length = T
  /-- the hand-written layers for small widths use these fixed diagonals -/
  diag2 : T = 2 → p.mat_internal_diag_m_1 = [1, 2]
  diag3 : T = 3 → p.mat_internal_diag_m_1 = [1, 1, 2]

theorem single_sbox_spec (T D : ℕ) (x : F) : single_sbox T D x = x ^ D := by
  unfold single_sbox
  split <;> simp <;> ring

theorem sbox_spec (T D : ℕ) (x : List F) : sbox T D x = x.map (· ^ D) := by
  unfold sbox
  simp only [single_sbox_spec]
  rw [overwrite_eq (by simp)]

theorem matVec_length (m : List (List F)) (x : List F) : (matVec m x).length = m.length := by simp [matVec]

theorem blockLayer_length (xs : List (List F)) : (blockLayer xs).flatten.length = 4 * xs.length := by
  rw [flatten_length]
  · simp [blockLayer]
  · intro z hz
    obtain ⟨y, hy', rfl⟩ := List.mem_map.mp hz
    obtain ⟨x, _, rfl⟩ := List.mem_map.mp hy'
    simp [matVec_m4_length, colSum]

theorem chunks_of (k : ℕ) (x : List F) (h : x.length = 4 * k) :
    (toChunksExact 4 x).flatten = x ∧ (toChunksExact 4 x).length = k ∧ ∀ c ∈ toChunksExact 4 x, c.length = 4 := by
  have hl : (toChunksExact 4 x).length = k := by
    unfold toChunksExact; rw [if_neg (by decide)]; simp; omega
  have hc : ∀ c ∈ toChunksExact 4 x, c.length = 4 := by
    intro c hc
    unfold toChunksExact at hc; rw [if_neg (by decide)] at hc
    obtain ⟨i, hi, rfl⟩ := List.mem_map.mp hc
    have : i < x.length / 4 := by simpa using hi
    simp; omega
  refine ⟨?_, hl, hc⟩
  apply List.ext_getElem?
  intro m
  by_cases hm : m < 4 * k
  · have := flatten_get hc (m / 4) (m % 4) (Nat.mod_lt _ (by decide))
    rw [Nat.div_add_mod] at this
    rw [this]
    have hk : m / 4 < x.length / 4 := by omega
    unfold toChunksExact
    rw [if_neg (by decide), List.getElem?_map, List.getElem?_range hk]
    simp only [Option.map_some, Option.bind_some]
    rw [List.getElem?_take_of_lt (by omega), List.getElem?_drop]
    congr 1; omega
  · rw [List.getElem?_eq_none (by rw [flatten_length hc]; omega), List.getElem?_eq_none (by omega)]

/-- the external layer is the published matrix, for every width -/
theorem external_spec (T D : ℕ) (x : List F) (hT : T = 2 ∨ T = 3 ∨ T = 4 ∨ T = 8 ∨ T = 12 ∨ T = 16 ∨ T = 20 ∨ T = 24) (hx : x.length = T) :
    matmul_external T D x = .ok (extSpec T x) ∧ (extSpec T x).length = T := by
  have wide : ∀ k, 2 ≤ k → k ≤ 6 → T = 4 * k → matmul_external T D x = .ok (extSpec T x) ∧ (extSpec T x).length = T := by
    intro k h2 h6 e
    obtain ⟨h1, h3, h4⟩ := chunks_of k x (by omega)
    have hb := external_blocks D (toChunksExact 4 x) h4 (by omega)
    have he : extSpec T x = (blockLayer (toChunksExact 4 x)).flatten := by
      unfold extSpec; rw [if_neg (by omega), if_neg (by omega), if_neg (by omega)]
    rw [h1, h3, ← e] at hb
    rw [he]
    refine ⟨hb, ?_⟩
    rw [blockLayer_length, h3, e]
  rcases hT with e | e | e | e | e | e | e | e
  · subst e
    match x, hx with
    | [a, b], _ =>
      refine ⟨?_, by simp [extSpec, matVec]⟩
      unfold matmul_external
      simp [idx, rset, extSpec, matVec, dot]
      refine ⟨?_, ?_⟩ <;> ring
  · subst e
    match x, hx with
    | [a, b, c], _ =>
      refine ⟨?_, by simp [extSpec, matVec]⟩
      unfold matmul_external
      simp [idx, rset, extSpec, matVec, dot]
      refine ⟨?_, ?_, ?_⟩ <;> ring
  · subst e
    refine ⟨?_, by simp [extSpec, matVec_m4_length]⟩
    unfold matmul_external
    simp [hx, m4_len hx, extSpec]
  · exact wide 2 (by omega) (by omega) e
  · exact wide 3 (by omega) (by omega) e
  · exact wide 4 (by omega) (by omega) e
  · exact wide 5 (by omega) (by omega) e
  · exact wide 6 (by omega) (by omega) e

/-- the internal layer is J + diag(μ) -/
theorem internal_spec (p : Poseidon2Params F) (T D : ℕ) (x : List F) (g : Good p T) (hx : x.length = T) :
    matmul_internal T D ⟨p⟩ x = .ok (intSpec p.mat_internal_diag_m_1 x) ∧ (intSpec p.mat_internal_diag_m_1 x).length = T := by
  refine ⟨?_, by simp [intSpec, hx, g.diag]⟩
  by_cases h2 : T = 2
  · rw [g.diag2 h2]; subst h2
    match x, hx with
    | [a, b], _ =>
      unfold matmul_internal
      simp [idx, rset, intSpec]
      first | (refine ⟨?_, ?_⟩ <;> ring; done) | (ring; done) | (ring_nf; simp; done)
  by_cases h3 : T = 3
  · rw [g.diag3 h3]; subst h3
    match x, hx with
    | [a, b, c], _ =>
      unfold matmul_internal
      simp [idx, rset, intSpec]
      first | (refine ⟨?_, ?_, ?_⟩ <;> ring; done) | (refine ⟨?_, ?_⟩ <;> ring; done) | (ring; done) | (ring_nf; simp; done)
  unfold matmul_internal
  split
  · exact absurd rfl h2
  · exact absurd rfl h3
  · simp only [pure_eq]
    rw [overwrite_eq (by simp [hx, g.diag])]
    congr 1
    simp only [intSpec, List.zip, List.map_zipWith, mul_comm]

theorem ext_round_spec (p : Poseidon2Params F) (T D : ℕ) (x : List F) (r : ℕ) (g : Good p T) (hx : x.length = T)
    (hr : r < p.rounds_f_beginning + p.rounds_f_end) :
    external_round T D ⟨p⟩ x r = .ok (extRound p T D x r) ∧ (extRound p T D x r).length = T := by
  have hlt : r < p.round_constants_external.length := by have := g.ext; omega
  have hc : (p.round_constants_external[r]).length = T := g.extw _ (List.getElem_mem _)
  have hl : ((List.zipWith (· + ·) x (p.round_constants_external.getD r [])).map (· ^ D)).length = T := by
    simp [hx, List.getD_eq_getElem, hlt, hc]
  obtain ⟨h1, h2⟩ := external_spec T D _ g.width hl
  refine ⟨?_, h2⟩
  unfold external_round add_rc_external
  rw [idx_of_lt hlt]
  simp only [ok_bind, pure_eq, sbox_spec]
  rw [overwrite_eq (by simp [hx, hc])]
  rw [List.getD_eq_getElem _ _ hlt] at h1
  have e : List.map (fun (x : F × F) => x.1 + x.2) (x.zip p.round_constants_external[r]) = List.zipWith (· + ·) x p.round_constants_external[r] := by
    simp only [List.zip, List.map_zipWith]
  first
  | (rw [e]; rw [h1]; simp only [ok_bind, pure_eq, extRound, List.getD_eq_getElem _ _ hlt])
  | (simp only [List.zip, List.map_zipWith]; rw [h1]; simp only [ok_bind, pure_eq, extRound, List.getD_eq_getElem _ _ hlt])

theorem int_round_spec (p : Poseidon2Params F) (T D : ℕ) (x : List F) (r : ℕ) (g : Good p T) (hx : x.length = T) (hr : r < p.rounds_p) :
    internal_round T D ⟨p⟩ x r = .ok (intRound p T D x r) ∧ (intRound p T D x r).length = T := by
  have hlt : r < p.round_constants_internal.length := by have := g.int; omega
  have h0 : 0 < x.length := by have := g.width; omega
  have hl : (x.set 0 ((x.getD 0 0 + p.round_constants_internal.getD r 0) ^ D)).length = T := by simp [hx]
  obtain ⟨h1, h2⟩ := internal_spec p T D _ g hl
  refine ⟨?_, h2⟩
  unfold internal_round add_rc_internal
  simp only [idx_of_lt hlt, idx_of_lt h0, rset_of_lt h0, ok_bind, pure_eq, single_sbox_spec]
  rw [idx_of_lt (by simpa using h0)]
  simp only [ok_bind, List.getElem_set_self, List.getElem_set]
  rw [rset_of_lt (by simpa using h0)]
  simp only [ok_bind, List.set_set]
  rw [List.getD_eq_getElem _ _ h0, List.getD_eq_getElem _ _ hlt] at h1
  rw [show matmul_internal T D ⟨p⟩ _ = _ from h1]
  simp only [ok_bind, pure_eq, intRound, List.getD_eq_getElem _ _ h0, List.getD_eq_getElem _ _ hlt]

/-- The permutation is the published one: for every width the type admits, every exponent, all
parameters of the right shape and every state, it applies the external layer, then the rounds in
order, each with its own constants, and returns exactly the specified state. -/
theorem permutation_spec (p : Poseidon2Params F) (T D : ℕ) (x : List F) (g : Good p T) (hx : x.length = T) :
    permutation T D ⟨p⟩ x = .ok (permSpec p T D x) ∧ (permSpec p T D x).length = T := by
  have loop : ∀ (l : List ℕ) (f : List F → ℕ → M (List F)) (h : List F → ℕ → List F) (y : List F), y.length = T →
      (∀ r ∈ l, ∀ z : List F, z.length = T → f z r = .ok (h z r) ∧ (h z r).length = T) →
      l.foldlM f y = .ok (l.foldl h y) ∧ (l.foldl h y).length = T := by
    intro l
    induction l with
    | nil => intro f h y hy _; exact ⟨rfl, hy⟩
    | cons a t ih =>
      intro f h y hy hf
      obtain ⟨h1, h2⟩ := hf a (by simp) y hy
      rw [List.foldlM_cons, h1, ok_bind, List.foldl_cons]
      exact ih f h _ h2 (fun r hr => hf r (by simp [hr]))
  obtain ⟨e0, l0⟩ := external_spec T D x g.width hx
  obtain ⟨e1, l1⟩ := loop (List.range p.rounds_f_beginning) (fun s r => external_round T D ⟨p⟩ s r) (extRound p T D) _ l0
    (fun r hr z hz => ext_round_spec p T D z r g hz (by have : r < p.rounds_f_beginning := by simpa using hr
                                                        omega))
  obtain ⟨e2, l2⟩ := loop (List.range p.rounds_p) (fun s r => internal_round T D ⟨p⟩ s r) (intRound p T D) _ l1
    (fun r hr z hz => int_round_spec p T D z r g hz (by simpa using hr))
  obtain ⟨e3, l3⟩ := loop (List.range' p.rounds_f_beginning p.rounds_f_end) (fun s r => external_round T D ⟨p⟩ s r) (extRound p T D) _ l2
    (fun r hr z hz => ext_round_spec p T D z r g hz (by have := (List.mem_range'_1.mp hr); omega))
  refine ⟨?_, l3⟩
  unfold permutation permutation_in_place
  have bind_ok : ∀ x : M (List F), (x >>= fun a => Except.ok a) = x := fun x => by cases x <;> rfl
  simp only [pure_eq, bind_ok, e0, ok_bind, rrange, Nat.add_sub_cancel_left]
  rw [show (List.foldlM (m := M) (fun state r => external_round T D ⟨p⟩ state r) _ _) = _ from e1]
  simp only [ok_bind]
  rw [show (List.foldlM (m := M) (fun state r => internal_round T D ⟨p⟩ state r) _ _) = _ from e2]
  simp only [ok_bind]
  exact e3

end C24
