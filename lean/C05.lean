import ShamirRngs
import C01
import PolyFn
import Lib
set_option linter.all false
set_option autoImplicit false
namespace Rs.ShamirRngs
namespace C05
variable {F : Type} [Field F] [DecidableEq F] [Ser (List F)] [Rds F]

/-- inner product, up to the shorter of the two -/
def dot (a b : List F) : F := (List.zipWith (· * ·) a b).sum

/-- the (t+1) × n Vandermonde matrix: entry (r, c) is (c+1)^r -/
theorem vandermonde_spec (n t : ℕ) : create_vandermonde_matrix (F := F) n t =
    (List.range (t + 1)).map (fun r => (List.range n).map (fun c => (((c + 1 : ℕ)) : F) ^ r)) := by
  have e : ∀ r, (rrange 1 (n + 1)).map (fun c => ((c : ℕ) : F) ^ r) = (List.range n).map (fun c => (((c + 1 : ℕ)) : F) ^ r) := by
    intro r; rw [rrange_eq]; simp [Nat.add_comm]
  unfold create_vandermonde_matrix
  simp only [rfrom_nat, e]
  rw [rrange_eq, List.range_succ_eq_map]
  simp [Nat.add_comm, List.eq_replicate_iff]

theorem matmul_spec (mat : List (List F)) (inp outp : List F) (h : outp.length = mat.length) :
    matmul mat inp outp = List.zipWith (fun o row => o + dot inp row) outp mat := by
  have e : ∀ (l : List (F × F)) (r : F), l.foldl (fun res (x : F × F) => res + x.1 * x.2) r = r + (l.map (fun x => x.1 * x.2)).sum := by
    intro l
    induction l with
    | nil => intro r; simp
    | cons a l ih => intro r; rw [List.foldl_cons, ih]; simp [add_assoc]
  unfold matmul
  simp only [e]
  rw [overwrite_eq (by simp [h])]
  unfold dot
  rw [List.zip_eq_zipWith, List.map_zipWith]
  congr 1; funext o row
  congr 2
  rw [List.zip_eq_zipWith, List.map_zipWith]

theorem chunks_replicate (size amount : ℕ) (h : 0 < size) (z : F) :
    toChunksExact size (List.replicate (amount * size) z) = List.replicate amount (List.replicate size z) := by
  unfold toChunksExact
  rw [if_neg (by omega), List.length_replicate, Nat.mul_div_cancel _ h]
  rw [List.eq_replicate_iff]
  refine ⟨by simp, ?_⟩
  intro b hb
  obtain ⟨i, hi, rfl⟩ := List.mem_map.mp hb
  simp at hi
  rw [List.drop_replicate, List.take_replicate]
  congr 1
  have : (i + 1) * size ≤ amount * size := Nat.mul_le_mul_right _ hi
  rw [Nat.add_mul] at this
  omega

theorem expand (mat : List (List F)) (src : List (List F)) :
    (overwrite (List.replicate (src.length * mat.length) (0 : F)) ((overwrite (List.replicate src.length (List.replicate mat.length (0 : F)))
      ((List.zip (List.replicate src.length (List.replicate mat.length (0 : F))) src).map (fun x => matmul mat x.2 x.1))).flatten)) =
      (src.map (fun s => mat.map (dot s))).flatten := by
  have e : (List.zip (List.replicate src.length (List.replicate mat.length (0 : F))) src).map (fun x => matmul mat x.2 x.1) = src.map (fun s => mat.map (dot s)) := by
    apply List.ext_getElem
    · simp
    · intro i h1 h2
      simp only [List.getElem_map, List.getElem_zip, List.getElem_replicate]
      rw [matmul_spec _ _ _ (by simp)]
      apply List.ext_getElem <;> simp
  rw [e, overwrite_eq (l := List.replicate src.length _) (by simp)]
  apply overwrite_eq
  rw [List.length_flatten, List.length_replicate, List.map_map]
  rw [show (List.length ∘ fun s => mat.map (dot s)) = (fun _ : List F => mat.length) by funext s; simp]
  simp

/-- one refill appends, for every dealt batch, the matrix times the dealt shares — the same matrix for both degrees -/
theorem buffer_triples_spec (s s' : ShamirRng F) (net net' : Net) (amount : ℕ) (R S : List (List F))
    (h : Rds.rds s amount net = .ok ((R, S), s', net')) (hR : R.length = amount) (hS : S.length = amount) (hm : 0 < s'.matrix.length) :
    buffer_triples s net amount = .ok ({ s' with
      r_t := s'.r_t ++ (R.map (fun x => s'.matrix.map (dot x))).flatten, r_2t := s'.r_2t ++ (S.map (fun x => s'.matrix.map (dot x))).flatten }, net') := by
  unfold buffer_triples
  rw [h]
  simp only [ok_bind, pure_eq, chunks_replicate _ _ hm]
  have e1 := expand s'.matrix R
  have e2 := expand s'.matrix S
  rw [hR] at e1; rw [hS] at e2
  rw [e1, e2]

/-! ### both expansions hide the same values -/
/-- the dealt batch: for each batch `a` and dealer `d`, polynomials of degree `t` and `2t` with one secret -/
structure Dealt (F : Type) [Field F] (t n amount : ℕ) where
  f : ℕ → ℕ → F → F
  g : ℕ → ℕ → F → F
  hf : ∀ a d, PolyFn t (f a d)
  hg : ∀ a d, PolyFn (2 * t) (g a d)
  same : ∀ a d, f a d 0 = g a d 0

/-- the rows party at point `x` holds -/
def rows (n amount : ℕ) (f : ℕ → ℕ → F → F) (x : F) : List (List F) := (List.range amount).map (fun a => (List.range n).map (fun d => f a d x))

theorem dot_rows (n : ℕ) (f : ℕ → F → F) (row : List F) (t : ℕ) (h : ∀ d, PolyFn t (f d)) :
    PolyFn t (fun x => dot ((List.range n).map (fun d => f d x)) row) := by
  have e : ∀ (l : List ℕ) (row : List F), PolyFn t (fun x => dot (l.map (fun d => f d x)) row) := by
    intro l
    induction l with
    | nil => intro row; simpa [dot] using PolyFn.const (F := F) t (0 : F)
    | cons d l ih =>
      intro row
      cases row with
      | nil => simpa [dot] using PolyFn.const (F := F) t (0 : F)
      | cons c row =>
        have := ((h d).mul_right c).add (ih row)
        simpa [dot] using this
  exact e _ row

/-- every pair appended by a refill is a degree-`t` and a degree-`2t` sharing of one value: entry `k` of what a party at point `x`
    appends is `P x` resp. `Q x` with `P 0 = Q 0` -/
theorem same_secret (t n amount : ℕ) (D : Dealt F t n amount) (mat : List (List F)) (a : ℕ) (ha : a < amount) (r : ℕ) (hr : r < mat.length) :
    ∃ P Q : F → F, PolyFn t P ∧ PolyFn (2 * t) Q ∧ P 0 = Q 0 ∧ ∀ x : F,
      (((rows n amount D.f x).map (fun s => mat.map (dot s)))[a]?.bind (·[r]?)) = some (P x) ∧
      (((rows n amount D.g x).map (fun s => mat.map (dot s)))[a]?.bind (·[r]?)) = some (Q x) := by
  refine ⟨fun x => dot ((List.range n).map (fun d => D.f a d x)) mat[r], fun x => dot ((List.range n).map (fun d => D.g a d x)) mat[r],
    dot_rows n (D.f a) mat[r] t (D.hf a), dot_rows n (D.g a) mat[r] (2 * t) (D.hg a), ?_, ?_⟩
  · simp [D.same]
  · intro x; simp [rows, ha, hr]

/-! ### pieces of the dealing round -/
theorem deal_points_spec (id n d : ℕ) (hn : 0 < n) :
    precompute_interpolation_polys (F := F) id d n = Shamir.precompute_interpolation_polys (0 :: (rrange 1 (d + 1)).map (fun i => (id + i) % n + 1)) := by
  unfold precompute_interpolation_polys
  rw [mapM_ok (g := fun i => (id + i) % n + 1)]
  · simp only [ok_bind, pure_eq]
    rfl
  · intro i _; simp [rmod, Nat.pos_iff_ne_zero.mp hn]

/-- a dealer keeps the value of each of its polynomials at its own point -/
theorem set_my_share_spec (s : ShamirRng F) (out polys : List (List F)) (hl : out.length = polys.length) (ho : ∀ r ∈ out, s.id_ < r.length) (hp : ∀ p ∈ polys, p ≠ []) :
    set_my_share s out polys = .ok (List.zipWith (fun r p => r.set s.id_ (peval (((s.id_ + 1 : ℕ)) : F) p)) out polys) := by
  unfold set_my_share
  simp only [rfrom_nat, pure_eq]
  rw [mapM_ok (g := fun x : List F × List F => x.1.set s.id_ (peval (((s.id_ + 1 : ℕ)) : F) x.2))]
  · simp only [ok_bind, pure_eq]
    rw [overwrite_eq (by simp [hl])]
    rw [List.zip_eq_zipWith, List.map_zipWith]
  · rintro ⟨r, p⟩ hx
    have h1 := List.of_mem_zip hx
    simp only [C01.evaluate_poly_spec p _ (hp _ h1.2), ok_bind, pure_eq]
    rw [rset_of_lt (ho _ h1.1)]; rfl

theorem send_many_spec (n : Net) (j : ℕ) (d : List F) : send_many n j d = .ok { n with out := n.out ++ [(j, Ser.ser d)] } := rfl

/-- a dealer sends every party past the seeded ones the values at that party's own point -/
theorem send_share_spec (s : ShamirRng F) (seeded : ℕ) (polys : List (List F)) (net : Net) (h : seeded + 1 ≤ s.num_parties) (hp : ∀ p ∈ polys, p ≠ []) :
    Ens (send_share_of_randomness s seeded polys net) (fun r => r.id_ = net.id_ ∧ r.inbox = net.inbox ∧ r.out = net.out ++
      (rrange 1 (s.num_parties - seeded)).map (fun i => ((s.id_ + i + seeded) % s.num_parties,
        Ser.ser (polys.map (fun p => peval (((((s.id_ + i + seeded) % s.num_parties) + 1 : ℕ)) : F) p))))) := by
  have hn : ¬ s.num_parties = 0 := by omega
  unfold send_share_of_randomness
  simp only [rsub_nat (show seeded ≤ s.num_parties by omega), rsub_nat (show 1 ≤ s.num_parties - seeded by omega), ok_bind, pure_eq, beq_iff_eq]
  split
  · rename_i h0
    refine ⟨_, rfl, rfl, rfl, ?_⟩
    have : s.num_parties - seeded = 1 := by omega
    rw [this]; simp [rrange_eq]
  · refine Ens.bind (p := fun (x : List F × Net) => x.2.id_ = net.id_ ∧ x.2.inbox = net.inbox ∧ x.2.out = net.out ++
      (rrange 1 (s.num_parties - seeded)).map (fun i => ((s.id_ + i + seeded) % s.num_parties,
        Ser.ser (polys.map (fun p => peval (((((s.id_ + i + seeded) % s.num_parties) + 1 : ℕ)) : F) p))))) ?_ (fun x hx => Ens.ok hx)
    have e : s.num_parties - seeded - 1 + 1 = s.num_parties - seeded := by omega
    rw [e]
    refine (foldlM_rrange_inv 1 (s.num_parties - seeded) (by omega) _ _ (fun j (x : List F × Net) => x.1.length = polys.length ∧ x.2.id_ = net.id_ ∧ x.2.inbox = net.inbox ∧ x.2.out = net.out ++
      (rrange 1 j).map (fun i => ((s.id_ + i + seeded) % s.num_parties,
        Ser.ser (polys.map (fun p => peval (((((s.id_ + i + seeded) % s.num_parties) + 1 : ℕ)) : F) p))))) ?_ ?_).mono (fun x hx => hx.2)
    · simp [rrange_eq]
    · rintro i hi hin ⟨buf, st⟩ ⟨hb, a, b, c⟩
      simp only at hb a b c
      simp only [rmod, hn, if_false, ok_bind, rfrom_nat]
      have M : ∀ (z : F), (List.zip buf polys).mapM (m := M) (fun (x : F × List F) => do
          let t ← Shamir.evaluate_poly x.2 z
          .ok t) = .ok (polys.map (fun p => peval z p)) := by
        intro z
        rw [mapM_ok (g := fun x : F × List F => peval z x.2)]
        · congr 1
          apply List.ext_getElem <;> simp [hb]
        · rintro ⟨x, p⟩ hx
          simp only [C01.evaluate_poly_spec p _ (hp _ (List.of_mem_zip hx).2), ok_bind]
      rw [M]
      simp only [ok_bind, send_many_spec]
      refine ⟨_, rfl, ?_, a, b, ?_⟩
      · rw [overwrite_eq (by simp [hb])]; simp
      · simp only [c]
        rw [overwrite_eq (by simp [hb]), rrange_eq, rrange_eq, show i + 1 - 1 = (i - 1) + 1 by omega, List.range_succ]
        have : 1 + (i - 1) = i := by omega
        simp [this]

/-- the next message from party `j` is `m` -/
def Waits (n : Net) (j : ℕ) (m : List ℕ) : Prop := ∃ r, n.inbox j = m :: r
def prev (id n r : ℕ) : ℕ := (id + n - r) % n
theorem prev_inj {id n r s : ℕ} (hi : id < n) (hr : r < n) (hs : s < n) (h : prev id n r = prev id n s) : r = s := by
  have e : ∀ {r}, r < n → prev id n r = if r ≤ id then id - r else id + n - r := by
    intro r hr
    unfold prev
    split
    · rw [show id + n - r = id - r + n by omega, Nat.add_mod_right, Nat.mod_eq_of_lt (by omega)]
    · rw [Nat.mod_eq_of_lt (by omega)]
  rw [e hr, e hs] at h
  split at h <;> split at h <;> omega

theorem recv_many_spec (n : Net) (j : ℕ) (d : List F) (h : Waits n j (Ser.ser d)) :
    Ens (recv_many (T := F) n j) (fun r => r.1 = d ∧ r.2.id_ = n.id_ ∧ r.2.out = n.out ∧ ∀ k, k ≠ j → r.2.inbox k = n.inbox k) := by
  obtain ⟨q, h⟩ := h
  unfold recv_many Net.recv
  rw [h]
  simp only [ok_bind, deser, Ser.rt]
  exact ⟨_, rfl, rfl, rfl, rfl, fun k hk => by simp [Function.update, hk]⟩

/-- columns `p 1, …, p (j-1)` of every row replaced by what those dealers sent -/
def cols (p : ℕ → ℕ) (v : ℕ → ℕ → F) (j : ℕ) (out : List (List F)) : List (List F) :=
  out.zipIdx.map (fun x => (rrange 1 j).foldl (fun row i => row.set (p i) (v (p i) x.2)) x.1)

/-- from every dealer past the seeded ones, the received shares land in that dealer's column -/
theorem receive_share_spec (s : ShamirRng F) (seeded : ℕ) (out : List (List F)) (net : Net) (v : ℕ → ℕ → F) (hid : s.id_ < s.num_parties)
    (h : seeded + 1 ≤ s.num_parties) (ho : ∀ r ∈ out, r.length = s.num_parties)
    (hw : ∀ i, 1 ≤ i → i < s.num_parties - seeded → Waits net (prev s.id_ s.num_parties (seeded + i)) (Ser.ser ((List.range out.length).map (v (prev s.id_ s.num_parties (seeded + i)))))) :
    Ens (receive_share_of_randomness s seeded out net) (fun r => r.1 = cols (fun i => prev s.id_ s.num_parties (seeded + i)) v (s.num_parties - seeded) out ∧ r.2.id_ = net.id_ ∧ r.2.out = net.out) := by
  have hn : ¬ s.num_parties = 0 := by omega
  have hplt : ∀ i, prev s.id_ s.num_parties i < s.num_parties := fun i => Nat.mod_lt _ (by omega)
  unfold receive_share_of_randomness
  simp only [rsub_nat (show seeded ≤ s.num_parties by omega), rsub_nat (show 1 ≤ s.num_parties - seeded by omega), ok_bind, pure_eq, beq_iff_eq]
  have c1 : ∀ q : ℕ → ℕ, cols q v 1 out = out := by
    intro q; unfold cols
    apply List.ext_getElem <;> simp [rrange_eq]
  split
  · have : s.num_parties - seeded = 1 := by omega
    refine ⟨_, rfl, ?_, rfl, rfl⟩
    rw [this, c1]
  · have e : s.num_parties - seeded - 1 + 1 = s.num_parties - seeded := by omega
    rw [e]
    refine Ens.bind (p := fun (x : Net × List (List F)) => x.2 = cols (fun i => prev s.id_ s.num_parties (seeded + i)) v (s.num_parties - seeded) out ∧ x.1.id_ = net.id_ ∧ x.1.out = net.out) ?_ (fun x hx => Ens.ok hx)
    refine (foldlM_rrange_inv 1 (s.num_parties - seeded) (by omega) _ _ (fun j (x : Net × List (List F)) => x.2 = cols (fun i => prev s.id_ s.num_parties (seeded + i)) v j out ∧ x.1.id_ = net.id_ ∧ x.1.out = net.out ∧
      ∀ i, j ≤ i → i < s.num_parties - seeded → x.1.inbox (prev s.id_ s.num_parties (seeded + i)) = net.inbox (prev s.id_ s.num_parties (seeded + i))) ?_ ?_).mono (fun x hx => ⟨hx.1, hx.2.1, hx.2.2.1⟩)
    · exact ⟨(c1 _).symm, rfl, rfl, fun _ _ _ => rfl⟩
    · rintro i hi hin ⟨st, res⟩ ⟨a, b, c, d⟩
      simp only at a b c d
      simp only [rsub_nat (show seeded ≤ s.id_ + s.num_parties by omega), rsub_nat (show i ≤ s.id_ + s.num_parties - seeded by omega), ok_bind, rmod, hn, if_false]
      have ep : (s.id_ + s.num_parties - seeded - i) % s.num_parties = prev s.id_ s.num_parties (seeded + i) := by unfold prev; congr 1; omega
      rw [ep]
      set P := fun i => prev s.id_ s.num_parties (seeded + i) with hP
      have w : Waits st (P i) (Ser.ser ((List.range out.length).map (v (P i)))) := by
        obtain ⟨q, hq⟩ := hw i hi hin
        exact ⟨q, by rw [d i (le_refl _) hin]; exact hq⟩
      obtain ⟨x, hx, x1, x2, x3, x4⟩ := recv_many_spec st (P i) _ w
      have hx' : recv_many (T := F) st (prev s.id_ s.num_parties (seeded + i)) = .ok x := hx
      rw [hx']; simp only [ok_bind, x1]
      have hlen : res.length = out.length := by rw [a]; simp [cols]
      have hrow : ∀ r ∈ res, r.length = s.num_parties := by
        intro r hr
        rw [a] at hr
        unfold cols at hr
        obtain ⟨⟨o, k⟩, hok, rfl⟩ := List.mem_map.mp hr
        have : o ∈ out := by
          have := List.mem_zipIdx' hok
          rw [this.2]; exact List.getElem_mem _
        have L : ∀ (l : List ℕ) (o : List F), (l.foldl (fun row i => row.set (P i) (v (P i) k)) o).length = o.length := by
          intro l; induction l with
          | nil => intro o; rfl
          | cons q l ih => intro o; rw [List.foldl_cons, ih]; simp
        simp only; rw [L]; exact ho _ this
      rw [mapM_ok (g := fun x : List F × F => x.1.set (P i) x.2)]
      · simp only [ok_bind]
        refine ⟨_, rfl, ?_, by simp [x2, b], by simp [x3, c], ?_⟩
        · simp only
          rw [overwrite_eq (by simp [hlen])]
          apply List.ext_getElem
          · simp [cols, hlen]
          · intro k h1 h2
            have hk : k < out.length := by simpa [cols] using h2
            have hsplit : rrange 1 (i + 1) = rrange 1 i ++ [i] := by
              rw [rrange_eq, rrange_eq, show i + 1 - 1 = (i - 1) + 1 by omega, List.range_succ]
              simp; omega
            simp only [List.getElem_map, List.getElem_zip, List.getElem_range, a, cols, List.getElem_zipIdx, hsplit, List.foldl_append, List.foldl_cons, List.foldl_nil, Nat.zero_add]
        · intro j hj hjn
          simp only
          rw [x4 _ (fun h => by have := prev_inj hid (by omega) (by omega) h; omega), d j (by omega) hjn]
      · rintro ⟨r, y⟩ hxy
        have hr := hrow r (List.of_mem_zip hxy).1
        simp only
        rw [rset_of_lt (by rw [hr]; exact hplt _)]
        rfl

/-! ### consuming pairs -/
/-- a pair is taken from the same end of both buffers, and both lose exactly it -/
theorem get_pair_spec (s : ShamirState F) (net : Net) (a b : F) (l m : List F) (h1 : s.rng_buffer.r_t = l ++ [a]) (h2 : s.rng_buffer.r_2t = m ++ [b]) :
    get_pair s net = .ok ((a, b), { s with rng_buffer := { s.rng_buffer with r_t := l, r_2t := m } }, net) := by
  unfold get_pair
  simp [h1, h2]

/-- an empty buffer is refilled with the configured amount, which doubles, before the pair is taken -/
theorem get_pair_refill (s : ShamirState F) (net net' : Net) (r : ShamirRng F) (a b : F) (l m : List F) (he : s.rng_buffer.r_t = [])
    (hr : buffer_triples s.rng_buffer net s.generation_amount = .ok (r, net')) (h1 : r.r_t = l ++ [a]) (h2 : r.r_2t = m ++ [b]) :
    get_pair s net = .ok ((a, b), { s with rng_buffer := { r with r_t := l, r_2t := m }, generation_amount := s.generation_amount * 2 }, net') := by
  unfold get_pair
  simp [he, hr, h1, h2]

/-- a fork takes the first `n` pairs of both buffers, the parent keeps exactly the rest; no pair is in both -/
theorem fork_spec (s : ShamirState F) (n : ℕ) (h : n ≤ s.rng_buffer.r_t.length) (h' : s.rng_buffer.r_2t.length = s.rng_buffer.r_t.length) :
    Ens (state_fork s n) (fun r =>
      r.1.rng_buffer.r_t ++ r.2.rng_buffer.r_t = s.rng_buffer.r_t ∧ r.1.rng_buffer.r_2t ++ r.2.rng_buffer.r_2t = s.rng_buffer.r_2t ∧
      r.1.rng_buffer.r_t.length = n ∧ r.1.rng_buffer.r_2t.length = n ∧
      r.1.rng_buffer.matrix = s.rng_buffer.matrix ∧ r.2.rng_buffer.matrix = s.rng_buffer.matrix ∧
      r.1.rng_buffer.id_ = s.rng_buffer.id_ ∧ r.1.rng_buffer.threshold = s.rng_buffer.threshold ∧ r.1.rng_buffer.num_parties = s.rng_buffer.num_parties ∧
      r.1.rng_buffer.shared_rngs.length = s.rng_buffer.shared_rngs.length ∧
      r.1.rng_buffer.precomputed_interpolation_r_t = s.rng_buffer.precomputed_interpolation_r_t ∧ r.1.rng_buffer.precomputed_interpolation_r_2t = s.rng_buffer.precomputed_interpolation_r_2t ∧
      r.1.id_ = s.id_ ∧ r.1.num_parties = s.num_parties ∧ r.1.threshold = s.threshold ∧ r.1.open_lagrange_t = s.open_lagrange_t ∧ r.1.open_lagrange_2t = s.open_lagrange_2t ∧
      r.1.mul_lagrange_2t = s.mul_lagrange_2t ∧ r.1.mul_reconstruct_with_zeros = s.mul_reconstruct_with_zeros) := by
  have L : ∀ (l : List Rng) (x : List Rng × List Rng), (l.foldl (fun (x : List Rng × List Rng) rng => (x.1 ++ [fromSeed (genSeed rng).1], x.2 ++ [(genSeed rng).2])) x).1.length = x.1.length + l.length := by
    intro l; induction l with
    | nil => intro x; rfl
    | cons a l ih => intro x; rw [List.foldl_cons, ih]; simp; omega
  have L' := L s.rng_buffer.shared_rngs ([], [])
  unfold state_fork fork_with_pairs
  simp only [decide_eq_true_eq]
  rw [if_neg (by omega)]
  simp only [drain, Nat.zero_le, true_and, h, h', if_true, ok_bind, pure_eq, List.drop_zero, List.take_zero, List.nil_append]
  refine ⟨_, rfl, by simp, by simp, by simp [h], by simp [h, h'], rfl, rfl, rfl, rfl, rfl, ?_, rfl, rfl, rfl, rfl, rfl, rfl, rfl, rfl, rfl⟩
  simpa using L'

/-- a fork that asks for more pairs than there are does not succeed -/
theorem fork_too_many (s : ShamirState F) (n : ℕ) (h : s.rng_buffer.r_t.length < n) : state_fork s n = .error .panic := by
  unfold state_fork fork_with_pairs
  simp only [decide_eq_true_eq]
  rw [if_pos h]; rfl

/-- after asking for `k` pairs there are at least `k`; nothing is generated when they are there already -/
theorem state_buffer_enough (s : ShamirState F) (net : Net) (k : ℕ) (h : k ≤ s.rng_buffer.r_t.length) : state_buffer_triples s net k = .ok (s, net) := by
  unfold state_buffer_triples; simp [h]
theorem state_buffer_spec (s : ShamirState F) (net net' : Net) (k : ℕ) (h : s.rng_buffer.r_t.length < k) (hm : 0 < s.rng_buffer.matrix.length)
    (r : ShamirRng F) (R S : List (List F)) (amount : ℕ) (ha : amount = (k - s.rng_buffer.r_t.length + s.rng_buffer.matrix.length - 1) / s.rng_buffer.matrix.length)
    (hd : Rds.rds s.rng_buffer amount net = .ok ((R, S), r, net')) (hR : R.length = amount) (hS : S.length = amount)
    (hr : r.matrix = s.rng_buffer.matrix ∧ r.r_t = s.rng_buffer.r_t ∧ r.r_2t = s.rng_buffer.r_2t) (h2 : s.rng_buffer.r_2t.length = s.rng_buffer.r_t.length) :
    Ens (state_buffer_triples s net k) (fun x => k ≤ x.1.rng_buffer.r_t.length ∧ x.1.rng_buffer.r_2t.length = x.1.rng_buffer.r_t.length ∧ s.rng_buffer.r_t <+: x.1.rng_buffer.r_t ∧ s.rng_buffer.r_2t <+: x.1.rng_buffer.r_2t) := by
  have hB := buffer_triples_spec s.rng_buffer r net net' amount R S hd hR hS (by rw [hr.1]; exact hm)
  have hl : ∀ T : List (List F), T.length = amount → ((T.map (fun x => r.matrix.map (dot x))).flatten).length = amount * s.rng_buffer.matrix.length := by
    intro T hT
    rw [List.length_flatten, List.map_map, show (List.length ∘ fun x => r.matrix.map (dot x)) = (fun _ : List F => r.matrix.length) by funext s; simp]
    simp [hT, hr.1]
  have hdc : divCeil (k - s.rng_buffer.r_t.length) (get_size_per_batch s.rng_buffer) = .ok amount := by
    unfold divCeil get_size_per_batch
    rw [if_neg (by omega), ha]
  unfold state_buffer_triples
  simp only [decide_eq_true_eq]
  rw [if_neg (by omega)]
  simp only [rsub_nat (show s.rng_buffer.r_t.length ≤ k by omega), ok_bind, hdc, hB, pure_eq]
  refine ⟨_, rfl, ?_, ?_, ?_, ?_⟩
  · simp only [List.length_append, hl R hR, hr.2.1]
    have hm' := Nat.div_add_mod (k - s.rng_buffer.r_t.length + s.rng_buffer.matrix.length - 1) s.rng_buffer.matrix.length
    rw [← ha] at hm'
    have := Nat.mod_lt (k - s.rng_buffer.r_t.length + s.rng_buffer.matrix.length - 1) hm
    rw [Nat.mul_comm] at hm'
    omega
  · simp only [List.length_append, hl R hR, hl S hS, hr.2.1, hr.2.2, h2]
  · simp [hr.2.1]
  · simp [hr.2.2]
end C05
end Rs.ShamirRngs
