import ShamirNet
import C01
import PolyFn
import Lib
set_option linter.all false
set_option autoImplicit false
namespace Rs.ShamirNet
namespace C04
open Rs.ShamirOps
variable {F : Type} [Field F] [DecidableEq F] {G : Type} [AddCommGroup G] [Module F G] [DecidableEq G]
variable {T : Type} [Ser T] [Ser (List T)] [Ser F] [Ser (List F)] [Ser G] [Ser (List G)] [Ser (G × F)] [Ser (List G × List F)] [Ser (List (G × F))] [Ser (List (List F))] [Ser (List (List G))] [Ser (List (List G × List F))] [Refill F] [Gen G]

/-! ### messages -/

/-- the next message from party `j` is `m` -/
def Waits (n : Net) (j : ℕ) (m : List ℕ) : Prop := ∃ r, n.inbox j = m :: r

theorem send_many_spec (n : Net) (j : ℕ) (d : List T) : send_many n j d = .ok { n with out := n.out ++ [(j, Ser.ser d)] } := by
  unfold send_many; simp [Net.send, serInto]
theorem send_to_spec (n : Net) (j : ℕ) (d : T) : send_to n j d = .ok { n with out := n.out ++ [(j, Ser.ser [d])] } := by
  unfold send_to; simp [send_many_spec]

theorem recv_raw (n : Net) (j : ℕ) (m : List ℕ) (h : Waits n j m) :
    Ens (Net.recv n j) (fun r => r.1 = m ∧ r.2.id_ = n.id_ ∧ r.2.out = n.out ∧ ∀ k, k ≠ j → r.2.inbox k = n.inbox k) := by
  obtain ⟨q, h⟩ := h
  unfold Net.recv; rw [h]
  exact ⟨_, rfl, rfl, rfl, rfl, fun k hk => by simp [Function.update, hk]⟩

theorem recv_many_spec (n : Net) (j : ℕ) (d : List T) (h : Waits n j (Ser.ser d)) :
    Ens (recv_many (T := T) n j) (fun r => r.1 = d ∧ r.2.id_ = n.id_ ∧ r.2.out = n.out ∧ ∀ k, k ≠ j → r.2.inbox k = n.inbox k) := by
  obtain ⟨r, hr, h1, h2⟩ := recv_raw n j _ h
  unfold recv_many
  rw [hr]; simp only [ok_bind, h1, deser, Ser.rt, pure_eq]
  exact ⟨_, rfl, rfl, h2⟩

theorem recv_from_spec (n : Net) (j : ℕ) (d : T) (h : Waits n j (Ser.ser [d])) :
    Ens (recv_from (T := T) n j) (fun r => r.1 = d ∧ r.2.id_ = n.id_ ∧ r.2.out = n.out ∧ ∀ k, k ≠ j → r.2.inbox k = n.inbox k) := by
  obtain ⟨r, hr, h1, h2⟩ := recv_many_spec n j _ h
  unfold recv_from
  rw [hr]; simp only [ok_bind, h1, pure_eq]
  simp
  exact ⟨_, rfl, rfl, h2⟩

/-- the party `r` places before party `id` -/
def prev (id n r : ℕ) : ℕ := (id + n - r) % n
theorem prev_eq {id n r : ℕ} (hi : id < n) (hr : r < n) : prev id n r = if r ≤ id then id - r else id + n - r := by
  unfold prev
  split
  · rw [show id + n - r = id - r + n by omega, Nat.add_mod_right, Nat.mod_eq_of_lt (by omega)]
  · rw [Nat.mod_eq_of_lt (by omega)]
theorem prev_inj {id n r s : ℕ} (hi : id < n) (hr : r < n) (hs : s < n) (h : prev id n r = prev id n s) : r = s := by
  rw [prev_eq hi hr, prev_eq hi hs] at h
  split at h <;> split at h <;> omega
theorem prev_lt {id n r : ℕ} (hi : id < n) : prev id n r < n := Nat.mod_lt _ (by omega)
theorem prev_zero {id n : ℕ} (hi : id < n) : prev id n 0 = id := by unfold prev; simp [Nat.mod_eq_of_lt hi]

theorem broadcast_next_spec (n : Net) (np num : ℕ) (d : T) (v : ℕ → T) (h1 : 1 ≤ num) (h2 : num ≤ np) (hid : n.id_ < np)
    (hv : v n.id_ = d) (hw : ∀ r, 1 ≤ r → r < num → Waits n (prev n.id_ np r) (Ser.ser (v (prev n.id_ np r)))) :
    Ens (broadcast_next n np num d) (fun r => r.1 = (List.range num).map (fun r => v (prev n.id_ np r)) ∧ r.2.id_ = n.id_ ∧
      r.2.out = n.out ++ (rrange 1 num).map (fun s => ((n.id_ + s) % np, Ser.ser d))) := by
  unfold broadcast_next
  simp only [serInto, List.nil_append, pure_eq]
  have hnp : np ≠ 0 := by omega
  have S : Ens ((rrange 1 num).foldlM (m := M) (fun (self : Net) s => do
      let t__2 ← (rmod (self.id_ + s) np)
      let t__3 ← (Net.send self t__2 (Ser.ser d))
      .ok t__3) n) (fun st => st.id_ = n.id_ ∧ st.inbox = n.inbox ∧ st.out = n.out ++ (rrange 1 num).map (fun s => ((n.id_ + s) % np, Ser.ser d))) := by
    refine foldlM_rrange_inv 1 num h1 _ _ (fun i (st : Net) => st.id_ = n.id_ ∧ st.inbox = n.inbox ∧ st.out = n.out ++ (rrange 1 i).map (fun s => ((n.id_ + s) % np, Ser.ser d))) ?_ ?_
    · simp [rrange]
    · rintro i hi _ st ⟨a, b, c⟩
      simp only [rmod, hnp, if_false, ok_bind, Net.send]
      refine ⟨_, rfl, a, b, ?_⟩
      simp only [c, a, rrange]
      rw [show i + 1 - 1 = (i - 1) + 1 by omega, List.range'_concat]
      simp [show 1 + (i - 1) = i by omega]
  obtain ⟨st, hS, s1, s2, s3⟩ := S
  rw [hS]; simp only [ok_bind]
  have R : Ens ((rrange 1 num).foldlM (m := M) (fun (x : Net × List T) r => do
      let t ← rsub (x.1.id_ + np) r
      let t__4 ← (rmod t np)
      let t__5 ← (Net.recv x.1 t__4)
      let t__6 ← (deser t__5.1)
      .ok (t__5.2, x.2 ++ [t__6])) (st, [d])) (fun x => x.1.id_ = n.id_ ∧ x.1.out = st.out ∧ x.2 = (List.range num).map (fun r => v (prev n.id_ np r)) ∧
        (∀ r, num ≤ r → r < num → x.1.inbox (prev n.id_ np r) = n.inbox (prev n.id_ np r))) := by
    refine foldlM_rrange_inv 1 num h1 _ _ (fun i (x : Net × List T) => x.1.id_ = n.id_ ∧ x.1.out = st.out ∧ x.2 = (List.range i).map (fun r => v (prev n.id_ np r)) ∧
        (∀ r, i ≤ r → r < num → x.1.inbox (prev n.id_ np r) = n.inbox (prev n.id_ np r))) ?_ ?_
    · refine ⟨s1, rfl, ?_, fun r _ _ => by rw [s2]⟩
      simp [List.range_succ, prev_zero hid, hv]
    · rintro i hi hin ⟨m, res⟩ ⟨a, b, c, e⟩
      have hs : i ≤ n.id_ + np := by omega
      simp only at a b c e
      simp only [a, rsub_nat hs, ok_bind, rmod, hnp, if_false]
      have w : Waits m (prev n.id_ np i) (Ser.ser (v (prev n.id_ np i))) := by
        obtain ⟨q, hq⟩ := hw i hi hin
        exact ⟨q, by rw [e i (le_refl _) hin]; exact hq⟩
      obtain ⟨x, hx, x1, x2, x3, x4⟩ := recv_raw m (prev n.id_ np i) _ w
      have hx' : Net.recv m ((n.id_ + np - i) % np) = .ok x := hx
      rw [hx']; simp only [ok_bind, x1, deser, Ser.rt]
      refine ⟨_, rfl, by simp [x2, a], by simp [x3, b], by simp [c, List.range_succ], ?_⟩
      intro r hr hrn
      simp only
      rw [x4 _ (fun h => by have := prev_inj hid (by omega) (by omega) h; omega), e r (by omega) hrn]
  obtain ⟨x, hR, r1, r2, r3, _⟩ := R
  refine ⟨(x.2, x.1), ?_, r3, r1, by rw [r2, s3]⟩
  rw [hR]; rfl

/-! ### the state -/
/-- positions that party `id` opens from -/
def openPos (id n m : ℕ) : List ℕ := (List.range m).map (fun i => prev id n i + 1)
theorem openPos_nodup {id n m : ℕ} (hi : id < n) (hm : m ≤ n) : (openPos id n m).Nodup := by
  unfold openPos
  refine List.Nodup.map_on ?_ List.nodup_range
  intro a ha b hb h
  simp at ha hb
  exact prev_inj hi (by omega) (by omega) (by omega)
theorem openPos_range {id n m : ℕ} (hi : id < n) : ∀ p ∈ openPos id n m, 1 ≤ p ∧ p ≤ n := by
  intro p hp
  unfold openPos at hp
  obtain ⟨i, _, rfl⟩ := List.mem_map.mp hp
  have := prev_lt (r := i) hi
  omega

/-- the polynomial of degree `t` with value 1 at 0 that vanishes at the positions of the last `t` parties -/
def zval (F : Type) [Field F] (n t : ℕ) (x : F) : F := ((rrange (n - t + 1) (n + 1)).map (fun z : ℕ => (x - z) / (0 - z))).prod

structure Ready (s : ShamirState F) (id n t : ℕ) : Prop where
  lt : id < n
  th : 2 * t + 1 ≤ n
  num : s.num_parties = n
  thr : s.threshold = t
  ot : s.open_lagrange_t = (openPos id n (t + 1)).map (lw F (openPos id n (t + 1)))
  o2 : s.open_lagrange_2t = (openPos id n (2 * t + 1)).map (lw F (openPos id n (2 * t + 1)))
  ml : s.mul_lagrange_2t = (List.range' 1 (2 * t + 1)).map (lw F (List.range' 1 (2 * t + 1)))
  zlen : s.mul_reconstruct_with_zeros.length = t + 1
  zv : ∀ x, peval x s.mul_reconstruct_with_zeros = zval F n t x
  z0 : peval (0 : F) s.mul_reconstruct_with_zeros = 1
  zz : ∀ p, n - t < p → p ≤ n → peval ((p : ℕ) : F) s.mul_reconstruct_with_zeros = 0

theorem state_from_spec (p : ShamirPreprocessing F) (id n t : ℕ) (hF : C01.Positions F n) (h1 : p.id_ = id) (h2 : p.num_parties = n) (h3 : p.threshold = t)
    (hid : id < n) (ht : 2 * t + 1 ≤ n) :
    Ens (state_from p) (fun s => Ready s id n t ∧ s.rng_buffer = p.rng_buffer) := by
  have P : ∀ m, m ≤ n → ((List.range m).mapM (m := M) (fun i => do
        let t ← rsub (id + n) i
        let t__1 ← (rmod t n)
        .ok (t__1 + 1))) = .ok (openPos id n m) := by
    intro m hm
    refine mapM_ok _ _ (fun i => prev id n i + 1) ?_
    intro i hi
    simp at hi
    have a : i ≤ id + n := by omega
    have b : n ≠ 0 := by omega
    simp [rsub_nat a, rmod, b, prev]
  have L : ∀ m, m ≤ n → Shamir.lagrange_from_coeff (F := F) (openPos id n m) = .ok ((openPos id n m).map (lw F (openPos id n m))) := fun m hm =>
    C01.lagrange_from_coeff_spec _ (hF.inj (openPos_range hid))
  have L2 : Shamir.lagrange_from_coeff (F := F) (rrange 1 ((2 * t) + 1 + 1)) = .ok ((List.range' 1 (2 * t + 1)).map (lw F (List.range' 1 (2 * t + 1)))) := by
    have e : rrange 1 (2 * t + 1 + 1) = List.range' 1 (2 * t + 1) := by unfold rrange; simp
    rw [e]
    refine C01.lagrange_from_coeff_spec _ (hF.inj ?_)
    intro q hq; simp [List.mem_range'] at hq; omega
  have hz : ∀ z ∈ rrange (n - t + 1) (n + 1), ((z : ℕ) : F) ≠ 0 := by
    intro z hz h0
    simp [rrange, List.mem_range'] at hz
    have := hF z 0 (by omega) (by omega) (by simpa using h0)
    omega
  obtain ⟨q, hq, q1, q2⟩ := C01.zero_points_spec (F := F) _ hz
  have e : rsub n t = .ok (n - t) := rsub_nat (by omega)
  unfold state_from
  simp only [h1, h2, h3, pure_eq]
  rw [P (t + 1) (by omega)]; simp only [ok_bind]
  rw [L (t + 1) (by omega)]; simp only [ok_bind]
  rw [P (2 * t + 1) ht]; simp only [ok_bind]
  rw [L (2 * t + 1) ht]; simp only [ok_bind]
  rw [L2]; simp only [ok_bind]
  rw [e]; simp only [ok_bind]
  rw [hq]; simp only [ok_bind]
  refine ⟨_, rfl, ⟨hid, ht, h2 ▸ rfl, h3 ▸ rfl, rfl, rfl, rfl, ?_, q2, ?_, ?_⟩, rfl⟩
  · simp [q1, rrange]; omega
  · simp only [q2]
    apply List.prod_eq_one
    intro x hx
    obtain ⟨z, hzm, rfl⟩ := List.mem_map.mp hx
    have := hz z hzm
    rw [div_self]; simpa using this
  · intro p hp1 hp2
    simp only [q2]
    apply List.prod_eq_zero
    refine List.mem_map.mpr ⟨p, ?_, by simp⟩
    simp [rrange, List.mem_range']
    exact ⟨p - (n - t + 1), by omega, by omega⟩

/-! ### opening -/
theorem sum_rec {V : Type} [AddCommGroup V] [Module F V] {f : F → V} {id n t m : ℕ} (hF : C01.Positions F n) (hi : id < n) (hm : m ≤ n) (ht : t < m) (hf : PolyFn t f) :
    (List.zipWith (fun (l : F) (s : V) => l • s) ((openPos id n m).map (lw F (openPos id n m))) ((List.range m).map (fun r => f (((prev id n r + 1 : ℕ) : F))))).sum = f 0 := by
  rw [← hf.reconstruct (openPos id n m) (openPos_nodup hi hm) (hF.inj (openPos_range hi)) (by simp [openPos]; omega)]
  congr 1
  have e : (List.range m).map (fun r => f (((prev id n r + 1 : ℕ) : F))) = (openPos id n m).map (fun p : ℕ => f (p : F)) := by
    simp [openPos]
  rw [e, List.zipWith_map, List.zipWith_self]

/-- a value shared by `f`, opened by party `id` -/
theorem open_spec (s : ShamirState F) (id n t : ℕ) (hF : C01.Positions F n) (hs : Ready s id n t) (net : Net) (hid : net.id_ = id)
    (f : F → F) (hf : PolyFn t f) (a : ShamirPrimeFieldShare F) (ha : a.a = f ((id + 1 : ℕ) : F))
    (hw : ∀ r, 1 ≤ r → r < t + 1 → Waits net (prev id n r) (Ser.ser (f ((prev id n r + 1 : ℕ) : F)))) :
    Ens (ar_open a net s) (fun r => r.1 = f 0 ∧ r.2.1.out = net.out ++ (rrange 1 (t + 1)).map (fun k => ((id + k) % n, Ser.ser a.a)) ∧ r.2.2 = s) := by
  subst hid
  obtain ⟨r, hr, r1, r2, r3⟩ := broadcast_next_spec (T := F) net n (t + 1) a.a (fun j => f ((j + 1 : ℕ) : F)) (by omega) (by have := hs.th; omega) hs.lt ha.symm hw
  unfold ar_open
  simp only [hs.num, hs.thr, pure_eq]
  rw [hr]; simp only [ok_bind, pure_eq]
  refine ⟨_, rfl, ?_, r3, rfl⟩
  simp only [r1, C01.reconstruct_spec, hs.ot]
  exact sum_rec hF hs.lt (by have := hs.th; omega) (by omega) hf

theorem mul_open_spec (s : ShamirState F) (id n t : ℕ) (hF : C01.Positions F n) (hs : Ready s id n t) (net : Net) (hid : net.id_ = id)
    (f g : F → F) (hf : PolyFn t f) (hg : PolyFn t g) (a b : ShamirPrimeFieldShare F) (ha : a.a = f ((id + 1 : ℕ) : F)) (hb : b.a = g ((id + 1 : ℕ) : F))
    (hw : ∀ r, 1 ≤ r → r < 2 * t + 1 → Waits net (prev id n r) (Ser.ser (f ((prev id n r + 1 : ℕ) : F) * g ((prev id n r + 1 : ℕ) : F)))) :
    Ens (ar_mul_open a b net s) (fun r => r.1 = f 0 * g 0 ∧ r.2.1.out = net.out ++ (rrange 1 (2 * t + 1)).map (fun k => ((id + k) % n, Ser.ser (a.a * b.a))) ∧ r.2.2 = s) := by
  subst hid
  have hm : (a * b).a = a.a * b.a := rfl
  obtain ⟨r, hr, r1, r2, r3⟩ := broadcast_next_spec (T := F) net n (2 * t + 1) (a.a * b.a) (fun j => f ((j + 1 : ℕ) : F) * g ((j + 1 : ℕ) : F)) (by omega) hs.th hs.lt (by rw [ha, hb]) hw
  unfold ar_mul_open
  simp only [hm]
  simp only [hs.num, hs.thr, pure_eq]
  rw [hr]; simp only [ok_bind, pure_eq]
  refine ⟨_, rfl, ?_, r3, rfl⟩
  simp only [r1, C01.reconstruct_spec, hs.o2]
  have := hf.mul hg
  rw [← two_mul] at this
  exact sum_rec (f := fun x => f x * g x) hF hs.lt hs.th (by omega) this

theorem open_point_spec (s : ShamirState F) (id n t : ℕ) (hF : C01.Positions F n) (hs : Ready s id n t) (net : Net) (hid : net.id_ = id)
    (f : F → G) (hf : PolyFn t f) (a : ShamirPointShare G) (ha : a.a = f ((id + 1 : ℕ) : F))
    (hw : ∀ r, 1 ≤ r → r < t + 1 → Waits net (prev id n r) (Ser.ser (f ((prev id n r + 1 : ℕ) : F)))) :
    Ens (pt_open_point a net s) (fun r => r.1 = f 0 ∧ r.2.1.out = net.out ++ (rrange 1 (t + 1)).map (fun k => ((id + k) % n, Ser.ser a.a)) ∧ r.2.2 = s) := by
  subst hid
  obtain ⟨r, hr, r1, r2, r3⟩ := broadcast_next_spec (T := G) net n (t + 1) a.a (fun j => f ((j + 1 : ℕ) : F)) (by omega) (by have := hs.th; omega) hs.lt ha.symm hw
  unfold pt_open_point
  simp only [hs.num, hs.thr, pure_eq]
  rw [hr]; simp only [ok_bind, pure_eq]
  refine ⟨_, rfl, ?_, r3, rfl⟩
  simp only [r1, C01.reconstruct_point_spec, hs.ot]
  exact sum_rec hF hs.lt (by have := hs.th; omega) (by omega) hf

theorem open_half_point_spec (s : ShamirState F) (id n t : ℕ) (hF : C01.Positions F n) (hs : Ready s id n t) (net : Net) (hid : net.id_ = id)
    (f : F → G) (hf : PolyFn (2 * t) f) (a : G) (ha : a = f ((id + 1 : ℕ) : F))
    (hw : ∀ r, 1 ≤ r → r < 2 * t + 1 → Waits net (prev id n r) (Ser.ser (f ((prev id n r + 1 : ℕ) : F)))) :
    Ens (pt_open_half_point a net s) (fun r => r.1 = f 0 ∧ r.2.1.out = net.out ++ (rrange 1 (2 * t + 1)).map (fun k => ((id + k) % n, Ser.ser a)) ∧ r.2.2 = s) := by
  subst hid
  obtain ⟨r, hr, r1, r2, r3⟩ := broadcast_next_spec (T := G) net n (2 * t + 1) a (fun j => f ((j + 1 : ℕ) : F)) (by omega) hs.th hs.lt ha.symm hw
  unfold pt_open_half_point
  rw [hs.num, hs.thr, show t * 2 + 1 = 2 * t + 1 by omega, hr]; simp only [ok_bind, pure_eq]
  refine ⟨_, rfl, ?_, r3, rfl⟩
  simp only [r1, C01.reconstruct_point_spec, hs.o2]
  exact sum_rec hF hs.lt hs.th (by omega) hf

theorem open_point_and_field_spec (s : ShamirState F) (id n t : ℕ) (hF : C01.Positions F n) (hs : Ready s id n t) (net : Net) (hid : net.id_ = id)
    (f : F → G) (hf : PolyFn t f) (g : F → F) (hg : PolyFn t g) (a : ShamirPointShare G) (ha : a.a = f ((id + 1 : ℕ) : F))
    (b : ShamirPrimeFieldShare F) (hb : b.a = g ((id + 1 : ℕ) : F))
    (hw : ∀ r, 1 ≤ r → r < t + 1 → Waits net (prev id n r) (Ser.ser (f ((prev id n r + 1 : ℕ) : F), g ((prev id n r + 1 : ℕ) : F)))) :
    Ens (pt_open_point_and_field a b net s) (fun r => r.1 = (f 0, g 0) ∧ r.2.1.out = net.out ++ (rrange 1 (t + 1)).map (fun k => ((id + k) % n, Ser.ser (a.a, b.a))) ∧ r.2.2 = s) := by
  subst hid
  obtain ⟨r, hr, r1, r2, r3⟩ := broadcast_next_spec (T := G × F) net n (t + 1) (a.a, b.a) (fun j => (f ((j + 1 : ℕ) : F), g ((j + 1 : ℕ) : F))) (by omega) (by have := hs.th; omega) hs.lt (by rw [ha, hb]) hw
  unfold pt_open_point_and_field
  simp only [hs.num, hs.thr, pure_eq]
  rw [hr]; simp only [ok_bind, pure_eq]
  refine ⟨_, rfl, ?_, r3, rfl⟩
  simp only [r1, List.unzip_eq_map, List.map_map, C01.reconstruct_spec, C01.reconstruct_point_spec, hs.ot, Function.comp_def]
  rw [sum_rec hF hs.lt (by have := hs.th; omega) (by omega) hf, sum_rec hF hs.lt (by have := hs.th; omega) (by omega) hg]

/-! ### vectors: the transposition loop -/
section
variable {V : Type}
/-- `transposed[i][j] = rcv[j][i]` for every received vector -/
def tr (k m : ℕ) (v : ℕ → ℕ → V) : List (List V) := (List.range k).map (fun i => (List.range m).map (fun j => v j i))

theorem renum_map_range (m : ℕ) (v : ℕ → V) : renum ((List.range m).map v) = (List.range m).map (fun i => (i, v i)) := by
  unfold renum
  apply List.ext_getElem <;> simp

/-- entry (i, j) after the first `J` columns, and the first `I` entries of column `J`, are written -/
def part (k m : ℕ) (z : V) (v : ℕ → ℕ → V) (J I : ℕ) : List (List V) :=
  (List.range k).map (fun i => (List.range m).map (fun j => if j < J ∨ (j = J ∧ i < I) then v j i else z))

theorem part_step (k m : ℕ) (z : V) (v : ℕ → ℕ → V) (J I : ℕ) (hJ : J < m) (hI : I < k) :
    (do let a ← idx (part k m z v J I) I
        let b ← rset a J (v J I)
        let c ← rset (part k m z v J I) I b
        .ok c : M (List (List V))) = .ok (part k m z v J (I + 1)) := by
  have h : I < (part k m z v J I).length := by simp [part, hI]
  rw [idx_of_lt h]; simp only [ok_bind]
  rw [rset_of_lt (by simp [part, hJ])]; simp only [ok_bind]
  rw [rset_of_lt h]; simp only [ok_bind]
  congr 1
  apply List.ext_getElem (by simp [part])
  intro i h1 h2
  have hi : i < k := by simpa [part] using h2
  by_cases e : I = i
  · subst e
    simp only [List.getElem_set_self]
    apply List.ext_getElem (by simp [part])
    intro j h3 h4
    have hj : j < m := by simpa [part] using h4
    by_cases e : J = j
    · subst e; simp [part]
    · simp only [List.getElem_set_ne e]
      simp only [part, List.getElem_map, List.getElem_range]
      congr 1; simp; omega
  · rw [List.getElem_set_ne e]
    simp only [part, List.getElem_map, List.getElem_range]
    apply List.map_congr_left
    intro j hj
    congr 1; simp; omega

theorem part_end (k m : ℕ) (z : V) (v : ℕ → ℕ → V) (J : ℕ) : part k m z v J k = part k m z v (J + 1) 0 := by
  unfold part
  apply List.map_congr_left; intro i hi; apply List.map_congr_left; intro j hj
  simp at hi
  congr 1; simp; omega

theorem col_loop (k m : ℕ) (z : V) (v : ℕ → ℕ → V) (J : ℕ) (hJ : J < m) :
    Ens ((renum ((List.range k).map (v J))).foldlM (m := M) (fun tr (x : ℕ × V) => do
      let a ← idx tr x.1
      let b ← rset a J x.2
      let c ← rset tr x.1 b
      .ok c) (part k m z v J 0)) (· = part k m z v (J + 1) 0) := by
  rw [renum_map_range, List.foldlM_map, ← part_end]
  refine foldlM_range_inv k _ _ (fun i st => st = part k m z v J i) rfl ?_
  rintro i hi st rfl
  exact ⟨_, part_step k m z v J i hJ hi, rfl⟩

theorem tr_loop (k m : ℕ) (z : V) (v : ℕ → ℕ → V) :
    ((renum ((List.range m).map (fun j => (List.range k).map (v j)))).foldlM (m := M) (fun tr (y : ℕ × List V) =>
      (renum y.2).foldlM (m := M) (fun tr (x : ℕ × V) => do
        let a ← idx tr x.1
        let b ← rset a y.1 x.2
        let c ← rset tr x.1 b
        .ok c) tr) (List.replicate k (List.replicate m z))) = .ok (tr k m v) := by
  apply Ens.eq
  rw [renum_map_range, List.foldlM_map]
  have e0 : List.replicate k (List.replicate m z) = part k m z v 0 0 := by
    unfold part; apply List.ext_getElem <;> simp
  have e1 : tr k m v = part k m z v m 0 := by
    unfold part tr; apply List.map_congr_left; intro i hi; apply List.map_congr_left; intro j hj
    simp at hj; simp [hj]
  rw [e0, e1]
  refine foldlM_range_inv m _ _ (fun j st => st = part k m z v j 0) rfl ?_
  rintro j hj st rfl
  exact col_loop k m z v j hj
end

theorem bind_ok_id {α : Type} (x : M α) : (x >>= fun r => (Except.ok r : M α)) = x := by cases x <;> rfl
theorem tr_loop' {V : Type} (k m : ℕ) (z : V) (v : ℕ → ℕ → V) :
    ((renum ((List.range m).map (fun j => (List.range k).map (v j)))).foldlM (m := M) (fun tr (y : ℕ × List V) =>
      (renum y.2).foldlM (m := M) (fun tr (x : ℕ × V) => do
        let a ← idx tr x.1
        let b ← rset a y.1 x.2
        rset tr x.1 b) tr) (List.replicate k (List.replicate m z))) = .ok (tr k m v) := by
  have h := tr_loop k m z v
  simp only [bind_ok_id] at h
  exact h

section
variable (s : ShamirState F) (id n t : ℕ) (hF : C01.Positions F n) (hs : Ready s id n t) (net : Net) (hid : net.id_ = id)
include hF hs hid

theorem open_vec_spec (k : ℕ) (f : ℕ → F → F) (hf : ∀ i < k, PolyFn t (f i)) (a : List (ShamirPrimeFieldShare F))
    (ha : a.map (·.a) = (List.range k).map (fun i => f i ((id + 1 : ℕ) : F)))
    (hw : ∀ r, 1 ≤ r → r < t + 1 → Waits net (prev id n r) (Ser.ser ((List.range k).map (fun i => f i ((prev id n r + 1 : ℕ) : F))))) :
    Ens (ar_open_vec a net s) (fun r => r.1 = (List.range k).map (fun i => f i 0) ∧
      r.2.1.out = net.out ++ (rrange 1 (t + 1)).map (fun q => ((id + q) % n, Ser.ser (a.map (·.a)))) ∧ r.2.2 = s) := by
  subst hid
  obtain ⟨r, hr, r1, r2, r3⟩ := broadcast_next_spec (T := List F) net n (t + 1) (a.map (·.a)) (fun j => (List.range k).map (fun i => f i ((j + 1 : ℕ) : F)))
    (by omega) (by have := hs.th; omega) hs.lt ha.symm hw
  have hk : a.length = k := by have := congrArg List.length ha; simpa using this
  unfold ar_open_vec
  simp only [hs.num, hs.thr, pure_eq]
  rw [hr]; simp only [ok_bind, pure_eq, hk, r1, bind_ok_id]
  refine Ens.bind (p := (· = tr k (t + 1) (fun j i => f i ((prev net.id_ n j + 1 : ℕ) : F)))) ⟨_, tr_loop' k (t + 1) (0 : F) (fun j i => f i ((prev net.id_ n j + 1 : ℕ) : F)), rfl⟩ ?_
  rintro _ rfl
  refine ⟨_, rfl, ?_, r3, rfl⟩
  simp only [tr, List.map_map, Function.comp_def, C01.reconstruct_spec, hs.ot]
  apply List.map_congr_left
  intro i hi
  exact sum_rec hF hs.lt (by have := hs.th; omega) (by omega) (hf i (by simpa using hi))

theorem mul_open_vec_spec (k : ℕ) (f g : ℕ → F → F) (hf : ∀ i < k, PolyFn t (f i)) (hg : ∀ i < k, PolyFn t (g i)) (a b : List (ShamirPrimeFieldShare F))
    (ha : a.map (·.a) = (List.range k).map (fun i => f i ((id + 1 : ℕ) : F))) (hb : b.map (·.a) = (List.range k).map (fun i => g i ((id + 1 : ℕ) : F)))
    (hw : ∀ r, 1 ≤ r → r < 2 * t + 1 → Waits net (prev id n r) (Ser.ser ((List.range k).map (fun i => f i ((prev id n r + 1 : ℕ) : F) * g i ((prev id n r + 1 : ℕ) : F))))) :
    Ens (ar_mul_open_vec a b net s) (fun r => r.1 = (List.range k).map (fun i => f i 0 * g i 0) ∧
      r.2.1.out = net.out ++ (rrange 1 (2 * t + 1)).map (fun q => ((id + q) % n, Ser.ser (List.zipWith (· * ·) (a.map (·.a)) (b.map (·.a))))) ∧ r.2.2 = s) := by
  subst hid
  have hk : a.length = k := by have := congrArg List.length ha; simpa using this
  have hm : List.map ShamirPrimeFieldShare.a ((List.zip a b).map (fun x => match x with | (a, b) => (a * b : ShamirPrimeFieldShare F))) = List.zipWith (· * ·) (a.map (·.a)) (b.map (·.a)) := by
    rw [List.map_map, List.zipWith_map, List.zip, List.map_zipWith]
    rfl
  have hv : List.zipWith (· * ·) (a.map (·.a)) (b.map (·.a)) = (List.range k).map (fun i => f i ((net.id_ + 1 : ℕ) : F) * g i ((net.id_ + 1 : ℕ) : F)) := by
    rw [ha, hb, List.zipWith_map, List.zipWith_self]
  obtain ⟨r, hr, r1, r2, r3⟩ := broadcast_next_spec (T := List F) net n (2 * t + 1) (List.zipWith (· * ·) (a.map (·.a)) (b.map (·.a))) (fun j => (List.range k).map (fun i => f i ((j + 1 : ℕ) : F) * g i ((j + 1 : ℕ) : F)))
    (by omega) hs.th hs.lt hv.symm hw
  unfold ar_mul_open_vec
  simp only [hm]
  simp only [hs.num, hs.thr, pure_eq]
  rw [hr]; simp only [ok_bind, pure_eq, hk, r1, bind_ok_id]
  refine Ens.bind (p := (· = tr k (2 * t + 1) (fun j i => f i ((prev net.id_ n j + 1 : ℕ) : F) * g i ((prev net.id_ n j + 1 : ℕ) : F)))) ⟨_, tr_loop' k (2 * t + 1) (0 : F) (fun j i => f i ((prev net.id_ n j + 1 : ℕ) : F) * g i ((prev net.id_ n j + 1 : ℕ) : F)), rfl⟩ ?_
  rintro _ rfl
  refine ⟨_, rfl, ?_, r3, rfl⟩
  simp only [tr, List.map_map, Function.comp_def, C01.reconstruct_spec, hs.o2]
  apply List.map_congr_left
  intro i hi
  have h2 := (hf i (by simpa using hi)).mul (hg i (by simpa using hi))
  rw [← two_mul] at h2
  exact sum_rec (f := fun x => f i x * g i x) hF hs.lt hs.th (by omega) h2

theorem open_point_many_spec (k : ℕ) (f : ℕ → F → G) (hf : ∀ i < k, PolyFn t (f i)) (a : List (ShamirPointShare G))
    (ha : a.map (·.a) = (List.range k).map (fun i => f i ((id + 1 : ℕ) : F)))
    (hw : ∀ r, 1 ≤ r → r < t + 1 → Waits net (prev id n r) (Ser.ser ((List.range k).map (fun i => f i ((prev id n r + 1 : ℕ) : F))))) :
    Ens (pt_open_point_many a net s) (fun r => r.1 = (List.range k).map (fun i => f i 0) ∧
      r.2.1.out = net.out ++ (rrange 1 (t + 1)).map (fun q => ((id + q) % n, Ser.ser (a.map (·.a)))) ∧ r.2.2 = s) := by
  subst hid
  obtain ⟨r, hr, r1, r2, r3⟩ := broadcast_next_spec (T := List G) net n (t + 1) (a.map (·.a)) (fun j => (List.range k).map (fun i => f i ((j + 1 : ℕ) : F)))
    (by omega) (by have := hs.th; omega) hs.lt ha.symm hw
  have hk : a.length = k := by have := congrArg List.length ha; simpa using this
  unfold pt_open_point_many
  simp only [hs.num, hs.thr, pure_eq]
  rw [hr]; simp only [ok_bind, pure_eq, hk, r1, bind_ok_id]
  refine Ens.bind (p := (· = tr k (t + 1) (fun j i => f i ((prev net.id_ n j + 1 : ℕ) : F)))) ⟨_, tr_loop' k (t + 1) (0 : G) (fun j i => f i ((prev net.id_ n j + 1 : ℕ) : F)), rfl⟩ ?_
  rintro _ rfl
  refine ⟨_, rfl, ?_, r3, rfl⟩
  simp only [tr, List.map_map, Function.comp_def, C01.reconstruct_point_spec, hs.ot]
  apply List.map_congr_left
  intro i hi
  exact sum_rec hF hs.lt (by have := hs.th; omega) (by omega) (hf i (by simpa using hi))
end

/-! ### degree reduction -/

/-- the pairs that `k` calls of `get_pair` hand out (refilling when needed) -/
def draw : ℕ → ShamirState F → Net → M (List (F × F) × ShamirState F × Net)
  | 0, s, net => .ok ([], s, net)
  | k + 1, s, net => do
    let d ← draw k s net
    let p ← get_pair d.2.1 d.2.2
    .ok (d.1 ++ [p.1], p.2.1, p.2.2)

/-- what a party sends (or, the king, feeds into the interpolation): its inputs, masked -/
def masked (inputs : List F) (ps : List (F × F)) : List F := List.zipWith (· + ·) inputs (ps.map (·.2))

theorem draw_loop (inputs : List F) (s : ShamirState F) (net : Net) (ps : List (F × F)) (s' : ShamirState F) (net' : Net)
    (hd : draw inputs.length s net = .ok (ps, s', net')) :
    inputs.foldlM (m := M) (fun (x : ShamirState F × Net × List F × List F) inp => do
      let t ← get_pair x.1 x.2.1
      .ok (t.2.1, t.2.2, x.2.2.1 ++ [t.1.1], x.2.2.2 ++ [inp + t.1.2])) (s, net, [], []) = .ok (s', net', ps.map (·.1), masked inputs ps) := by
  have H : ∀ (l : List F) ps s' net', draw l.length s net = .ok (ps, s', net') → ps.length = l.length ∧
      l.foldlM (m := M) (fun (x : ShamirState F × Net × List F × List F) inp => do
      let t ← get_pair x.1 x.2.1
      .ok (t.2.1, t.2.2, x.2.2.1 ++ [t.1.1], x.2.2.2 ++ [inp + t.1.2])) (s, net, [], []) = .ok (s', net', ps.map (·.1), masked l ps) := by
    intro l
    induction l using List.reverseRecOn with
    | nil => intro ps s' net' h; simp [draw] at h; obtain ⟨rfl, rfl, rfl⟩ := h; exact ⟨rfl, rfl⟩
    | append_singleton l a ih =>
      intro ps s' net' h
      simp only [List.length_append, List.length_singleton, draw] at h
      cases hq : draw l.length s net with
      | error e => rw [hq] at h; simp at h
      | ok q =>
        rw [hq] at h; simp only [ok_bind] at h
        cases hp : get_pair q.2.1 q.2.2 with
        | error e => rw [hp] at h; simp at h
        | ok p =>
          rw [hp] at h; simp only [ok_bind, Except.ok.injEq, Prod.mk.injEq] at h
          obtain ⟨rfl, rfl, rfl⟩ := h
          obtain ⟨hl, hf⟩ := ih q.1 q.2.1 q.2.2 hq
          refine ⟨by simp [hl], ?_⟩
          rw [List.foldlM_append, hf]; simp only [ok_bind, List.foldlM_cons, List.foldlM_nil, hp, pure_eq]
          simp only [masked, List.map_append, List.map_cons, List.map_nil]
          rw [List.zipWith_append (by simpa using hl.symm)]
          rfl
  exact (H inputs ps s' net' hd).2


theorem get_pair_frame (s : ShamirState F) (net : Net) (r) (h : get_pair s net = .ok r) :
    r.2.1 = { s with rng_buffer := r.2.1.rng_buffer, generation_amount := r.2.1.generation_amount } := by
  unfold get_pair at h
  cases he : s.rng_buffer.r_t.isEmpty with
  | true =>
    simp only [he, if_true] at h
    cases hr : (Refill.refill s.rng_buffer net s.generation_amount) with
    | error e => rw [hr] at h; simp at h
    | ok q =>
      rw [hr] at h; simp only [ok_bind, pure_eq] at h
      cases h1 : q.1.r_t.getLast? with
      | none => simp only [h1, unwrap_none, err_bind] at h; simp at h
      | some a =>
        simp only [h1, unwrap_some, ok_bind] at h
        cases h2 : q.1.r_2t.getLast? with
        | none => simp only [h2, unwrap_none, err_bind] at h; simp at h
        | some b =>
          simp only [h2, unwrap_some, ok_bind, Except.ok.injEq] at h
          rw [← h]
  | false =>
    simp only [he, pure_eq, ok_bind, Bool.false_eq_true, if_false] at h
    cases h1 : s.rng_buffer.r_t.getLast? with
    | none => simp only [h1] at h; simp at h
    | some a =>
      cases h2 : s.rng_buffer.r_2t.getLast? with
      | none => simp only [h1, h2] at h; simp at h
      | some b =>
        simp only [h1, h2] at h
        simp at h
        rw [← h]

theorem Ready.frame {s s' : ShamirState F} {id n t : ℕ} (h : Ready s id n t)
    (e : s' = { s with rng_buffer := s'.rng_buffer, generation_amount := s'.generation_amount }) : Ready s' id n t := by
  rw [e]; exact ⟨h.lt, h.th, h.num, h.thr, h.ot, h.o2, h.ml, h.zlen, h.zv, h.z0, h.zz⟩

theorem draw_frame (k : ℕ) (s : ShamirState F) (net : Net) (r) (h : draw k s net = .ok r) :
    r.1.length = k ∧ r.2.1 = { s with rng_buffer := r.2.1.rng_buffer, generation_amount := r.2.1.generation_amount } := by
  induction k generalizing r with
  | zero => simp [draw] at h; subst h; exact ⟨rfl, rfl⟩
  | succ k ih =>
    simp only [draw] at h
    cases hq : draw k s net with
    | error e => rw [hq] at h; simp at h
    | ok q =>
      rw [hq] at h; simp only [ok_bind] at h
      cases hp : get_pair q.2.1 q.2.2 with
      | error e => rw [hp] at h; simp at h
      | ok p =>
        rw [hp] at h; simp only [ok_bind, Except.ok.injEq] at h
        subst h
        obtain ⟨h1, h2⟩ := ih q hq
        have h3 := get_pair_frame _ _ _ hp
        refine ⟨by simp [h1], ?_⟩
        simp only
        rw [h3, h2]

/-- the value party `j` gets for element `i` when the masked elements are shared by the polynomials `P` -/
def reduced (F : Type) [Field F] (n t : ℕ) (P : ℕ → F → F) (j i : ℕ) : F := P i 0 * zval F n t ((j + 1 : ℕ) : F)

theorem foldl_congr_ok {α β : Type} (l : List α) (f g : β → α → M β) (b : β) (h : ∀ s a, f s a = g s a) : l.foldlM f b = l.foldlM g b := by
  have : f = g := by funext s a; exact h s a
  rw [this]

section
variable (s : ShamirState F) (n t : ℕ) (hF : C01.Positions F n) (net : Net) 
include hF

/-- the king's contract -/
theorem degree_reduce_many_king (hs : Ready s 0 n t) (inputs : List F) (ps : List (F × F)) (s' : ShamirState F) (net' : Net) (hd : draw inputs.length s net = .ok (ps, s', net'))
    (hid : net'.id_ = 0) (k : ℕ) (P : ℕ → F → F) (hP : ∀ i < k, PolyFn (2 * t) (P i))
    (hm : masked inputs ps = (List.range k).map (fun i => P i ((0 + 1 : ℕ) : F)))
    (hw : ∀ j, 1 ≤ j → j < 2 * t + 1 → Waits net' j (Ser.ser ((List.range k).map (fun i => P i ((j + 1 : ℕ) : F))))) :
    Ens (degree_reduce_many net s inputs) (fun r => r.1.map (·.a) = List.zipWith (· - ·) ((List.range k).map (reduced F n t P 0)) (ps.map (·.1)) ∧
      r.2.1.out = net'.out ++ (rrange 1 (n - t)).map (fun j => (j, Ser.ser ((List.range k).map (reduced F n t P j)))) ∧ r.2.1.id_ = 0 ∧ r.2.2 = s') := by
  have hth := hs.th
  obtain ⟨hlen, hfr⟩ := draw_frame _ _ _ _ hd
  have hs' : Ready s' 0 n t := hs.frame hfr
  have hl : inputs.length = k := by
    have := congrArg List.length hm
    simpa [masked, hlen] using this
  have hsub : rsub s.num_parties s.threshold = .ok (n - t) := by rw [hs.num, hs.thr]; exact rsub_nat (by omega)
  unfold degree_reduce_many
  rw [hsub]; simp only [ok_bind, pure_eq]
  refine Ens.bind (p := (· = (s', net', ps.map (·.1), masked inputs ps))) ⟨_, draw_loop inputs s net ps s' net' hd, rfl⟩ ?_
  rintro _ rfl
  have ho : overwrite inputs (masked inputs ps) = masked inputs ps := overwrite_eq (by simp [masked, hlen])
  rw [hm] at ho
  simp only [hid, hm, ho, beq_self_eq_true, if_true, hl, hs'.ml]
  -- the accumulation
  have er : renum ((List.range' 1 (2 * t + 1)).map (lw F (List.range' 1 (2 * t + 1)))) = (List.range (2 * t + 1)).map (fun j => (j, lw F (List.range' 1 (2 * t + 1)) (j + 1))) := by
    rw [List.range'_eq_map_range, List.map_map, renum_map_range]
    apply List.map_congr_left; intro j _; simp [Nat.add_comm]
  rw [er, List.foldlM_map]
  refine Ens.bind (p := fun (x : Net × List F) => x.1.id_ = 0 ∧ x.2 = (List.range k).map (reduced F n t P 0) ∧ x.1.out = net'.out ++ (rrange 1 (n - t)).map (fun j => (j, Ser.ser ((List.range k).map (reduced F n t P j))))) ?_ ?_
  · refine Ens.bind (p := fun (x : List F × Net) => x.1 = (List.range k).map (fun i => P i 0) ∧ x.2.out = net'.out ∧ x.2.id_ = 0) ?_ ?_
    · refine (foldlM_range_inv (2 * t + 1) _ _ (fun J (x : List F × Net) =>
        x.1 = (List.range k).map (fun i => ((List.range J).map (fun j => P i ((j + 1 : ℕ) : F) * lw F (List.range' 1 (2 * t + 1)) (j + 1))).sum) ∧ x.2.out = net'.out ∧ x.2.id_ = 0 ∧
          ∀ j, J ≤ j → x.2.inbox j = net'.inbox j) ?_ ?_).mono ?_
      · refine ⟨?_, rfl, hid, fun _ _ => rfl⟩
        apply List.ext_getElem <;> simp
      · rintro J hJ ⟨acc, m⟩ ⟨h1, h2, h3, h4⟩
        simp only at h1 h2 h3 h4
        subst h1
        have step : ∀ (l : F), List.map (fun (x : F × F) => x.1 + x.2 * l)
            (List.zip ((List.range k).map (fun i => ((List.range J).map (fun j => P i ((j + 1 : ℕ) : F) * lw F (List.range' 1 (2 * t + 1)) (j + 1))).sum)) ((List.range k).map (fun i => P i ((J + 1 : ℕ) : F)))) =
            (List.range k).map (fun i => ((List.range J).map (fun j => P i ((j + 1 : ℕ) : F) * lw F (List.range' 1 (2 * t + 1)) (j + 1))).sum + P i ((J + 1 : ℕ) : F) * l) := by
          intro l
          rw [List.zip_map', List.map_map]; rfl
        have fin : (List.range k).map (fun i => ((List.range J).map (fun j => P i ((j + 1 : ℕ) : F) * lw F (List.range' 1 (2 * t + 1)) (j + 1))).sum + P i ((J + 1 : ℕ) : F) * lw F (List.range' 1 (2 * t + 1)) (J + 1)) =
            (List.range k).map (fun i => ((List.range (J + 1)).map (fun j => P i ((j + 1 : ℕ) : F) * lw F (List.range' 1 (2 * t + 1)) (j + 1))).sum) := by
          apply List.map_congr_left; intro i _
          rw [List.range_succ, List.map_append, List.sum_append]; simp
        by_cases h0 : J = 0
        · subst h0
          simp only [beq_self_eq_true, if_true, ok_bind]
          refine ⟨_, rfl, ?_, h2, h3, fun j hj => h4 j (by omega)⟩
          simp only
          rw [step, overwrite_eq (by simp), fin]
        · have hb : (J == 0) = false := by simp [h0]
          obtain ⟨q, hq⟩ := hw J (by omega) hJ
          obtain ⟨r, hr, r1, r2, r3, r4⟩ := recv_many_spec (T := F) m J _ ⟨q, by rw [h4 J (le_refl _)]; exact hq⟩
          simp only [hb]
          rw [hr]
          simp only [ok_bind, r1]
          simp only [List.length_map, List.length_range, beq_self_eq_true, Bool.not_true, ok_bind, if_false, Bool.false_eq_true]
          refine ⟨_, rfl, ?_, by rw [r3, h2], by rw [r2, h3], fun j hj => by rw [r4 j (by omega), h4 j (by omega)]⟩
          simp only
          rw [step, overwrite_eq (by simp), fin]
      · rintro ⟨acc, m⟩ ⟨h1, h2, h3, _⟩
        refine ⟨?_, h2, h3⟩
        rw [h1]
        apply List.map_congr_left; intro i hi
        have hp := (hP i (by simpa using hi)).reconstruct (List.range' 1 (2 * t + 1)) List.nodup_range' (hF.inj (by intro q hq; simp [List.mem_range'] at hq; omega)) (by simp)
        rw [← hp, List.range'_eq_map_range, List.map_map]
        congr 1
        apply List.map_congr_left; intro j _
        simp [Nat.add_comm, mul_comm]
    · rintro ⟨acc, m⟩ ⟨h1, h2, h3⟩
      simp only at h1 h2 h3
      subst h1
      have hv : ∀ j, List.mapM (m := M) (fun poly => Shamir.evaluate_poly poly (rfrom (j + 1) : F))
          (([] : List (List F)) ++ List.map (fun acc => Shamir.poly_with_zeros_from_precomputed acc s'.mul_reconstruct_with_zeros) ((List.range k).map (fun i => P i 0))) =
          .ok ((List.range k).map (reduced F n t P j)) := by
        intro j
        rw [List.nil_append, List.map_map]
        rw [mapM_ok _ _ (fun p => peval (rfrom (j + 1) : F) p)]
        · rw [List.map_map]
          congr 1
          apply List.map_congr_left; intro i _
          simp only [Function.comp, C01.with_zeros_spec, reduced, rfrom_nat, ← hs'.zv]
          have := peval_smul (((j + 1 : ℕ) : F)) (P i 0) s'.mul_reconstruct_with_zeros
          simpa using this
        · intro p hp
          obtain ⟨i, _, rfl⟩ := List.mem_map.mp hp
          rw [C01.evaluate_poly_spec]
          have := hs'.zlen
          simp only [Function.comp, C01.with_zeros_spec]
          intro h
          have := congrArg List.length h
          simp [hs'.zlen] at this
      refine Ens.bind (p := fun (x : List F × Net) => x.2.id_ = 0 ∧ x.1 = (List.range k).map (reduced F n t P 0) ∧ x.2.out = net'.out ++ (rrange 1 (n - t)).map (fun j => (j, Ser.ser ((List.range k).map (reduced F n t P j))))) ?_ ?_
      · refine (foldlM_range_inv (n - t) _ _ (fun J (x : List F × Net) => x.2.id_ = 0 ∧ (1 ≤ J → x.1 = (List.range k).map (reduced F n t P 0)) ∧
          x.2.out = net'.out ++ (rrange 1 J).map (fun j => (j, Ser.ser ((List.range k).map (reduced F n t P j))))) ?_ ?_).mono ?_
        · exact ⟨h3, by simp, by simp [rrange, h2]⟩
        · rintro J hJ ⟨sh, m2⟩ ⟨g1, g2, g3⟩
          simp only at g1 g2 g3
          simp only [bind_ok_id]
          rw [hv J]; simp only [ok_bind]
          by_cases h0 : J = 0
          · subst h0
            simp only [beq_self_eq_true, if_true, ok_bind]
            exact ⟨_, rfl, g1, fun _ => rfl, by simpa [rrange] using g3⟩
          · have hb : (J == 0) = false := by simp [h0]
            simp only [hb]
            rw [send_many_spec]; simp only [ok_bind]
            refine ⟨_, rfl, g1, fun _ => g2 (by omega), ?_⟩
            simp only [g3, rrange]
            rw [show J + 1 - 1 = (J - 1) + 1 by omega, List.range'_concat]
            simp [show 1 + (J - 1) = J by omega]
        · rintro ⟨sh, m2⟩ ⟨g1, g2, g3⟩
          exact ⟨g1, g2 (by omega), g3⟩
      · rintro ⟨sh, m2⟩ ⟨g1, g2, g3⟩
        exact ⟨_, rfl, g1, g2, g3⟩
  · rintro ⟨m, sh⟩ ⟨g1, g2, g3⟩
    simp only at g1 g2 g3
    subst g2
    rw [mapM_ok _ _ (fun x => x.1 - x.2)]
    · simp only [ok_bind]
      refine ⟨_, rfl, ?_, g3, g1, rfl⟩
      simp only
      rw [overwrite_eq (by simp [hlen, hl]), List.map_map]
      simp [Function.comp_def, List.zip, List.map_zipWith]
    · rintro ⟨a, b⟩ _; rfl

omit hF in
/-- the contract of every other party: what it sends to the king and what it does with the answer -/
theorem degree_reduce_many_other (id : ℕ) (h0 : id ≠ 0) (hs : Ready s id n t) (inputs : List F) (ps : List (F × F)) (s' : ShamirState F) (net' : Net) (hd : draw inputs.length s net = .ok (ps, s', net'))
    (hid : net'.id_ = id) (d : List F) (hl : d.length = inputs.length) (hz : n - t ≤ id → d = List.replicate inputs.length 0)
    (hw : id < n - t → Waits net' 0 (Ser.ser d)) :
    Ens (degree_reduce_many net s inputs) (fun r => r.1.map (·.a) = List.zipWith (· - ·) d (ps.map (·.1)) ∧
      r.2.1.out = net'.out ++ (if id ≤ 2 * t then [(0, Ser.ser (masked inputs ps))] else []) ∧ r.2.1.id_ = id ∧ r.2.2 = s') := by
  have hth := hs.th
  obtain ⟨hlen, hfr⟩ := draw_frame _ _ _ _ hd
  have hs' : Ready s' id n t := hs.frame hfr
  have hsub : rsub s.num_parties s.threshold = .ok (n - t) := by rw [hs.num, hs.thr]; exact rsub_nat (by omega)
  unfold degree_reduce_many
  rw [hsub]; simp only [ok_bind, pure_eq]
  refine Ens.bind (p := (· = (s', net', ps.map (·.1), masked inputs ps))) ⟨_, draw_loop inputs s net ps s' net' hd, rfl⟩ ?_
  rintro _ rfl
  have ho : overwrite inputs (masked inputs ps) = masked inputs ps := overwrite_eq (by simp [masked, hlen])
  have hb : (id == 0) = false := by simp [h0]
  simp only [hid, hb, ho, hs'.thr, Bool.false_eq_true, if_false]
  refine Ens.bind (p := fun (x : Net × List F) => x.2 = d ∧ x.1.out = net'.out ++ (if id ≤ 2 * t then [(0, Ser.ser (masked inputs ps))] else []) ∧ x.1.id_ = id) ?_ ?_
  · refine Ens.bind (p := fun (m : Net) => m.inbox = net'.inbox ∧ m.out = net'.out ++ (if id ≤ 2 * t then [(0, Ser.ser (masked inputs ps))] else []) ∧ m.id_ = id) ?_ ?_
    · by_cases h2 : id ≤ 2 * t
      · have h2' : id ≤ t * 2 := by omega
        simp only [h2, h2', decide_true, if_true, send_many_spec, ok_bind]
        exact ⟨_, rfl, rfl, rfl, hid⟩
      · have h2' : ¬ id ≤ t * 2 := by omega
        simp only [h2, h2', decide_false, Bool.false_eq_true, if_false, List.append_nil]
        exact ⟨_, rfl, rfl, rfl, hid⟩
    · rintro m ⟨m1, m2, m3⟩
      by_cases h3 : id < n - t
      · simp only [h3, decide_true, if_true]
        obtain ⟨q, hq⟩ := hw h3
        obtain ⟨r, hr, r1, r2, r3, _⟩ := recv_many_spec (T := F) m 0 d ⟨q, by rw [m1]; exact hq⟩
        rw [hr]
        simp only [ok_bind, r1, hl, beq_self_eq_true, Bool.not_true, Bool.false_eq_true, if_false]
        exact ⟨_, rfl, rfl, by rw [r3, m2], by rw [r2, m3]⟩
      · simp only [h3, decide_false, Bool.false_eq_true, if_false]
        exact ⟨_, rfl, (hz (by omega)).symm, m2, m3⟩
  · rintro ⟨m, sh⟩ ⟨g1, g2, g3⟩
    simp only at g1 g2 g3
    subst g1
    rw [mapM_ok _ _ (fun x => x.1 - x.2)]
    · simp only [ok_bind]
      refine ⟨_, rfl, ?_, g2, g3, rfl⟩
      simp only
      rw [overwrite_eq (by simp [hlen, hl]), List.map_map]
      simp [Function.comp_def, List.zip, List.map_zipWith]
    · rintro ⟨a, b⟩ _; rfl

theorem zval_last (id : ℕ) (h1 : n - t ≤ id) (h2 : id < n) : zval F n t ((id + 1 : ℕ) : F) = 0 := by
  unfold zval
  apply List.prod_eq_zero
  refine List.mem_map.mpr ⟨id + 1, ?_, by simp⟩
  simp [rrange, List.mem_range']
  exact ⟨id - (n - t), by omega, by omega⟩

/-- The contract of degree reduction, for every party.  The inputs are shared by the polynomials `A i` of degree 2t, the pairs drawn by
`R i` (degree t) and `S i` (degree 2t) with equal secrets; every message the party waits for is the one its peer's contract below sends.
Then the party's results lie on `x ↦ Z(x)·(A i 0 + S i 0) − R i x`. -/
theorem degree_reduce_many_spec (id : ℕ) (hs : Ready s id n t) (inputs : List F) (ps : List (F × F)) (s' : ShamirState F) (net' : Net) (k : ℕ) (hd : draw k s net = .ok (ps, s', net'))
    (hid : net'.id_ = id) (A R S : ℕ → F → F) (hA : ∀ i < k, PolyFn (2 * t) (A i)) (hS : ∀ i < k, PolyFn (2 * t) (S i))
    (hin : inputs = (List.range k).map (fun i => A i ((id + 1 : ℕ) : F)))
    (hps : ps = (List.range k).map (fun i => (R i ((id + 1 : ℕ) : F), S i ((id + 1 : ℕ) : F))))
    (hw : ∀ j, j < n → j ≠ id → (id = 0 ∧ j ≤ 2 * t ∨ j = 0 ∧ id < n - t) →
      Waits net' j (Ser.ser (if id = 0 then (List.range k).map (fun i => A i ((j + 1 : ℕ) : F) + S i ((j + 1 : ℕ) : F)) else (List.range k).map (reduced F n t (fun i x => A i x + S i x) id)))) :
    Ens (degree_reduce_many net s inputs) (fun r =>
      r.1.map (·.a) = (List.range k).map (fun i => zval F n t ((id + 1 : ℕ) : F) * (A i 0 + S i 0) - R i ((id + 1 : ℕ) : F)) ∧
      r.2.1.out = net'.out ++ (if id = 0 then (rrange 1 (n - t)).map (fun j => (j, Ser.ser ((List.range k).map (reduced F n t (fun i x => A i x + S i x) j))))
        else if id ≤ 2 * t then [(0, Ser.ser ((List.range k).map (fun i => A i ((id + 1 : ℕ) : F) + S i ((id + 1 : ℕ) : F))))] else []) ∧ r.2.1.id_ = id ∧ r.2.2 = s') := by
  have hth := hs.th
  have hlt := hs.lt
  have hl : inputs.length = k := by rw [hin]; simp
  have hd' := hd
  rw [← hl] at hd'
  have hm : masked inputs ps = (List.range k).map (fun i => A i ((id + 1 : ℕ) : F) + S i ((id + 1 : ℕ) : F)) := by
    unfold masked
    rw [hin, hps, List.map_map, List.zipWith_map, List.zipWith_self]
    rfl
  have res : ∀ j : ℕ, List.zipWith (· - ·) ((List.range k).map (reduced F n t (fun i x => A i x + S i x) id)) (ps.map (·.1)) = (List.range k).map (fun i => zval F n t ((id + 1 : ℕ) : F) * (A i 0 + S i 0) - R i ((id + 1 : ℕ) : F)) := by
    intro j
    rw [hps, List.map_map, List.zipWith_map, List.zipWith_self]
    apply List.map_congr_left; intro i _
    simp only [reduced, Function.comp]; ring
  by_cases h0 : id = 0
  · subst h0
    have := degree_reduce_many_king s n t hF net hs inputs ps s' net' hd' hid k (fun i x => A i x + S i x) (fun i hi => (hA i hi).add (hS i hi)) (by simpa using hm) (fun j h1 h2 => by
      have := hw j (by omega) (by omega) (Or.inl ⟨rfl, by omega⟩)
      simpa using this)
    refine this.mono ?_
    rintro r ⟨r1, r2, r3, r4⟩
    exact ⟨by rw [r1, res 0], by rw [r2]; simp, r3, r4⟩
  · have := degree_reduce_many_other s n t net id h0 hs inputs ps s' net' hd' hid ((List.range k).map (reduced F n t (fun i x => A i x + S i x) id)) (by simp [hl]) (fun h => by
        rw [hl]
        apply List.ext_getElem (by simp)
        intro i h1 h2
        simp [reduced]
        right
        have := zval_last (F := F) n t hF id h hlt
        simpa using this) (fun h => by
        have := hw 0 (by omega) (Ne.symm h0) (Or.inr ⟨rfl, h⟩)
        simpa [h0] using this)
    refine this.mono ?_
    rintro r ⟨r1, r2, r3, r4⟩
    exact ⟨by rw [r1, res 0], by rw [r2, hm]; simp [h0], r3, r4⟩

omit hF in
/-- the reduced sharing has degree t and the secret of the input -/
theorem reduced_sharing (ht : 2 * t + 1 ≤ n) (hF : C01.Positions F n) (A S R : F → F) (hR : PolyFn t R) (hRS : R 0 = S 0) :
    PolyFn t (fun x => zval F n t x * (A 0 + S 0) - R x) ∧ zval F n t 0 * (A 0 + S 0) - R 0 = A 0 := by
  have hz : ∀ z ∈ rrange (n - t + 1) (n + 1), ((z : ℕ) : F) ≠ 0 := by
    intro z hz h0
    simp [rrange, List.mem_range'] at hz
    have := hF z 0 (by omega) (by omega) (by simpa using h0)
    omega
  obtain ⟨q, _, q1, q2⟩ := C01.zero_points_spec (F := F) _ hz
  constructor
  · refine PolyFn.sub ?_ hR
    refine PolyFn.mul_right ?_ _
    cases q with
    | nil => simp at q1
    | cons c p => exact ⟨c, p, by simp [rrange] at q1; omega, fun x => by rw [q2]; rfl⟩
  · have : zval F n t 0 = 1 := by
      unfold zval
      apply List.prod_eq_one
      intro x hx
      obtain ⟨z, hzm, rfl⟩ := List.mem_map.mp hx
      have := hz z hzm
      rw [div_self]; simpa using this
    rw [this, hRS]; ring

/-- one multiplication's worth of waiting: the messages party `id` needs during a degree reduction -/
def RedWaits (n t id k : ℕ) (A S : ℕ → F → F) (net : Net) : Prop := ∀ j, j < n → j ≠ id → (id = 0 ∧ j ≤ 2 * t ∨ j = 0 ∧ id < n - t) →
      Waits net j (Ser.ser (if id = 0 then (List.range k).map (fun i => A i ((j + 1 : ℕ) : F) + S i ((j + 1 : ℕ) : F)) else (List.range k).map (reduced F n t (fun i x => A i x + S i x) id)))
/-- what party `id` sends during a degree reduction -/
def redOut (F : Type) [Field F] [Ser (List F)] (n t id k : ℕ) (A S : ℕ → F → F) : List (ℕ × List ℕ) :=
  if id = 0 then (rrange 1 (n - t)).map (fun j => (j, Ser.ser ((List.range k).map (reduced F n t (fun i x => A i x + S i x) j))))
        else if id ≤ 2 * t then [(0, Ser.ser ((List.range k).map (fun i => A i ((id + 1 : ℕ) : F) + S i ((id + 1 : ℕ) : F))))] else []

/-- the contracts match: the message party `b` waits for from `a` is the only one `a` sends to `b` -/
theorem red_match (k : ℕ) (A S : ℕ → F → F) (a b : ℕ) (ha : a < n) (hb : b < n) (hab : a ≠ b) (hw : b = 0 ∧ a ≤ 2 * t ∨ a = 0 ∧ b < n - t) :
    (redOut F n t a k A S).filter (fun m => m.1 = b) = [(b, Ser.ser (if b = 0 then (List.range k).map (fun i => A i ((a + 1 : ℕ) : F) + S i ((a + 1 : ℕ) : F)) else (List.range k).map (reduced F n t (fun i x => A i x + S i x) b)))] := by
  unfold redOut
  rcases hw with ⟨rfl, h⟩ | ⟨rfl, h⟩
  · simp [hab, h]
  · have hb0 : b ≠ 0 := Ne.symm hab
    simp only [if_true, hb0, if_false]
    rw [List.filter_map]
    have e : (rrange 1 (n - t)).filter (fun j => decide (j = b)) = [b] := by
      have nd : (rrange 1 (n - t)).Nodup := List.nodup_range'
      have hm : b ∈ rrange 1 (n - t) := by
        simp [rrange, List.mem_range']; exact ⟨b - 1, by omega, by omega⟩
      have hc := List.count_eq_one_of_mem nd hm
      have : (rrange 1 (n - t)).filter (fun j => decide (j = b)) = List.replicate ((rrange 1 (n - t)).count b) b := by
        rw [← List.filter_beq]
        congr 1
      rw [this, hc]; rfl
    have e2 : (fun (m : ℕ × List ℕ) => decide (m.1 = b)) ∘ (fun j => (j, Ser.ser ((List.range k).map (reduced F n t (fun i x => A i x + S i x) j)))) = fun j => decide (j = b) := rfl
    rw [e2, e]; rfl

theorem mul_vec_spec (id : ℕ) (hs : Ready s id n t) (a b : List (ShamirPrimeFieldShare F)) (ps : List (F × F)) (s' : ShamirState F) (net' : Net) (k : ℕ) (hd : draw k s net = .ok (ps, s', net'))
    (hid : net'.id_ = id) (f g R S : ℕ → F → F) (hf : ∀ i < k, PolyFn t (f i)) (hg : ∀ i < k, PolyFn t (g i)) (hS : ∀ i < k, PolyFn (2 * t) (S i))
    (ha : a.map (·.a) = (List.range k).map (fun i => f i ((id + 1 : ℕ) : F))) (hb : b.map (·.a) = (List.range k).map (fun i => g i ((id + 1 : ℕ) : F)))
    (hps : ps = (List.range k).map (fun i => (R i ((id + 1 : ℕ) : F), S i ((id + 1 : ℕ) : F))))
    (hw : RedWaits n t id k (fun i x => f i x * g i x) S net') :
    Ens (ar_mul_vec a b net s) (fun r =>
      r.1.map (·.a) = (List.range k).map (fun i => zval F n t ((id + 1 : ℕ) : F) * (f i 0 * g i 0 + S i 0) - R i ((id + 1 : ℕ) : F)) ∧
      r.2.1.out = net'.out ++ redOut F n t id k (fun i x => f i x * g i x) S ∧ r.2.1.id_ = id ∧ r.2.2 = s') := by
  have hv : (List.zip a b).map (fun x => match x with | (a, b) => (a.a * b.a : F)) = (List.range k).map (fun i => f i ((id + 1 : ℕ) : F) * g i ((id + 1 : ℕ) : F)) := by
    have : (List.zip a b).map (fun x => match x with | (a, b) => (a.a * b.a : F)) = List.zipWith (· * ·) (a.map (·.a)) (b.map (·.a)) := by
      rw [List.zipWith_map, List.zip, List.map_zipWith]
    rw [this, ha, hb, List.zipWith_map, List.zipWith_self]
  obtain ⟨r, hr, h⟩ := degree_reduce_many_spec s n t hF net id hs _ ps s' net' k hd hid (fun i x => f i x * g i x) R S (fun i hi => by
    have := (hf i hi).mul (hg i hi); rw [← two_mul] at this; exact this) hS hv hps hw
  unfold ar_mul_vec
  simp only [pure_eq]
  rw [hr]
  exact ⟨_, rfl, h⟩

theorem degree_reduce_spec (id : ℕ) (hs : Ready s id n t) (input : F) (p : F × F) (s' : ShamirState F) (net' : Net) (hd : get_pair s net = .ok (p, s', net'))
    (hid : net'.id_ = id) (A R S : F → F) (hA : PolyFn (2 * t) A) (hS : PolyFn (2 * t) S)
    (hin : input = A ((id + 1 : ℕ) : F)) (hps : p = (R ((id + 1 : ℕ) : F), S ((id + 1 : ℕ) : F)))
    (hw : RedWaits n t id 1 (fun _ => A) (fun _ => S) net') :
    Ens (degree_reduce net s input) (fun r =>
      r.1.a = zval F n t ((id + 1 : ℕ) : F) * (A 0 + S 0) - R ((id + 1 : ℕ) : F) ∧
      r.2.1.out = net'.out ++ redOut F n t id 1 (fun _ => A) (fun _ => S) ∧ r.2.1.id_ = id ∧ r.2.2 = s') := by
  have hd' : draw 1 s net = .ok ([p], s', net') := by
    simp [draw, hd]
  obtain ⟨r, hr, h1, h2⟩ := degree_reduce_many_spec s n t hF net id hs [input] [p] s' net' 1 hd' hid (fun _ => A) (fun _ => R) (fun _ => S) (fun _ _ => hA) (fun _ _ => hS)
    (by simp [hin]) (by simp [hps]) hw
  unfold degree_reduce
  simp only [pure_eq]
  rw [hr]
  simp only [ok_bind]
  have hl : r.1.length = 1 := by have := congrArg List.length h1; simpa using this
  obtain ⟨x, hx⟩ := List.length_eq_one_iff.mp hl
  simp only [hx] at h1 ⊢
  refine ⟨_, rfl, ?_, h2⟩
  simpa using h1

theorem mul_spec (id : ℕ) (hs : Ready s id n t) (a b : ShamirPrimeFieldShare F) (p : F × F) (s' : ShamirState F) (net' : Net) (hd : get_pair s net = .ok (p, s', net'))
    (hid : net'.id_ = id) (f g R S : F → F) (hf : PolyFn t f) (hg : PolyFn t g) (hS : PolyFn (2 * t) S)
    (ha : a.a = f ((id + 1 : ℕ) : F)) (hb : b.a = g ((id + 1 : ℕ) : F)) (hps : p = (R ((id + 1 : ℕ) : F), S ((id + 1 : ℕ) : F)))
    (hw : RedWaits n t id 1 (fun _ x => f x * g x) (fun _ => S) net') :
    Ens (ar_mul a b net s) (fun r =>
      r.1.a = zval F n t ((id + 1 : ℕ) : F) * (f 0 * g 0 + S 0) - R ((id + 1 : ℕ) : F) ∧
      r.2.1.out = net'.out ++ redOut F n t id 1 (fun _ x => f x * g x) (fun _ => S) ∧ r.2.1.id_ = id ∧ r.2.2 = s') := by
  obtain ⟨r, hr, h⟩ := degree_reduce_spec s n t hF net id hs (a.a * b.a) p s' net' hd hid (fun x => f x * g x) R S (by
    have := hf.mul hg; rw [← two_mul] at this; exact this) hS (by rw [ha, hb]) hps hw
  unfold ar_mul
  simp only [pure_eq]
  rw [hr]
  exact ⟨_, rfl, h⟩

/-- inversion: the result is shared by `R·y⁻¹`, where `y` is the opened product; a zero product is an error -/
theorem inv_spec (id : ℕ) (hs : Ready s id n t) (a : ShamirPrimeFieldShare F) (p : F × F) (s' : ShamirState F) (net' : Net) (hd : get_pair s net = .ok (p, s', net'))
    (hid : net'.id_ = id) (f R : F → F) (hf : PolyFn t f) (hR : PolyFn t R) 
    (ha : a.a = f ((id + 1 : ℕ) : F)) (hps : p.1 = R ((id + 1 : ℕ) : F))
    (hw : ∀ r, 1 ≤ r → r < 2 * t + 1 → Waits net' (prev id n r) (Ser.ser (f ((prev id n r + 1 : ℕ) : F) * R ((prev id n r + 1 : ℕ) : F)))) :
    (f 0 * R 0 = 0 → ar_inv a net s = .error .err) ∧ (f 0 * R 0 ≠ 0 → Ens (ar_inv a net s) (fun r => r.1.a = R ((id + 1 : ℕ) : F) * (f 0 * R 0)⁻¹ ∧
      r.2.1.out = net'.out ++ (rrange 1 (2 * t + 1)).map (fun k => ((id + k) % n, Ser.ser (a.a * p.1))) ∧ r.2.2 = s')) := by
  have hs' : Ready s' id n t := hs.frame (get_pair_frame _ _ _ hd)
  have hr : rand s net = .ok ((⟨p.1⟩ : ShamirPrimeFieldShare F), s', net') := by
    unfold rand
    rw [hd]; rfl
  obtain ⟨q, hq, q1, q2, q3⟩ := mul_open_spec s' id n t hF hs' net' hid f R hf hR a ⟨p.1⟩ ha hps hw
  have e : ar_inv a net s = (do
      if (q.1 == 0) then do
        throw Err.err
      else do
        let t__3 ← (unwrap (inv? q.1))
        pure (((⟨p.1⟩ : ShamirPrimeFieldShare F) * t__3 :), q.2.1, q.2.2)) := by
    unfold ar_inv
    rw [hr]; simp only [ok_bind]
    rw [hq]; rfl
  rw [e, q1]
  constructor
  · intro h; simp [h]
  · intro h
    have hb : (f 0 * R 0 == 0) = false := by simpa using h
    simp only [hb, Bool.false_eq_true, if_false, inv?_of_ne h, unwrap_some, ok_bind, pure_eq]
    refine ⟨_, rfl, ?_, q2, q3⟩
    rw [← hps]; rfl

omit hF in
theorem inv_sharing (f R : F → F) (hR : PolyFn t R) (h : f 0 * R 0 ≠ 0) : PolyFn t (fun x => R x * (f 0 * R 0)⁻¹) ∧ R 0 * (f 0 * R 0)⁻¹ = (f 0)⁻¹ := by
  refine ⟨hR.mul_right _, ?_⟩
  have h1 : f 0 ≠ 0 := left_ne_zero_of_mul h
  have h2 : R 0 ≠ 0 := right_ne_zero_of_mul h
  field_simp

/-! ### points -/
/-- the point party `j` gets when the masked point is shared by `P` -/
def reducedP (F : Type) [Field F] {G : Type} [AddCommGroup G] [Module F G] (n t : ℕ) (P : F → G) (j : ℕ) : G := zval F n t ((j + 1 : ℕ) : F) • P 0
omit hF in
theorem pmul_eq (p : G) (x : F) : pmul p x = x • p := rfl

theorem degree_reduce_point_king (hs : Ready s 0 n t) (input : G) (p : F × F) (s' : ShamirState F) (net' : Net) (hd : get_pair s net = .ok (p, s', net'))
    (hid : net'.id_ = 0) (P : F → G) (hP : PolyFn (2 * t) P) (hm : input + p.2 • Gen.gen (G := G) = P ((0 + 1 : ℕ) : F))
    (hw : ∀ j, 1 ≤ j → j < 2 * t + 1 → Waits net' j (Ser.ser ([P ((j + 1 : ℕ) : F)]))) :
    Ens (degree_reduce_point net s input) (fun r => r.1.a = reducedP F n t P 0 - p.1 • Gen.gen (G := G) ∧
      r.2.1.out = net'.out ++ (rrange 1 (n - t)).map (fun j => (j, Ser.ser [reducedP F n t P j])) ∧ r.2.1.id_ = 0 ∧ r.2.2 = s') := by
  have hth := hs.th
  have hfr := get_pair_frame _ _ _ hd
  have hs' : Ready s' 0 n t := hs.frame hfr
  have hsub : rsub s.num_parties s.threshold = .ok (n - t) := by rw [hs.num, hs.thr]; exact rsub_nat (by omega)
  unfold degree_reduce_point
  rw [hsub]; simp only [ok_bind, pure_eq]
  rw [hd]; simp only [ok_bind, pmul_eq, hid, hm, beq_self_eq_true, if_true, hs'.ml]
  have er : renum ((List.range' 1 (2 * t + 1)).map (lw F (List.range' 1 (2 * t + 1)))) = (List.range (2 * t + 1)).map (fun j => (j, lw F (List.range' 1 (2 * t + 1)) (j + 1))) := by
    rw [List.range'_eq_map_range, List.map_map, renum_map_range]
    apply List.map_congr_left; intro j _; simp [Nat.add_comm]
  rw [er, List.foldlM_map]
  refine Ens.bind (p := fun (x : Net × G) => x.1.id_ = 0 ∧ x.2 = reducedP F n t P 0 ∧ x.1.out = net'.out ++ (rrange 1 (n - t)).map (fun j => (j, Ser.ser [reducedP F n t P j]))) ?_ ?_
  · refine Ens.bind (p := fun (x : G × Net) => x.1 = P 0 ∧ x.2.out = net'.out ∧ x.2.id_ = 0) ?_ ?_
    · refine (foldlM_range_inv (2 * t + 1) _ _ (fun J (x : G × Net) =>
        x.1 = ((List.range J).map (fun j => lw F (List.range' 1 (2 * t + 1)) (j + 1) • P ((j + 1 : ℕ) : F))).sum ∧ x.2.out = net'.out ∧ x.2.id_ = 0 ∧
          ∀ j, J ≤ j → x.2.inbox j = net'.inbox j) ?_ ?_).mono ?_
      · exact ⟨rfl, rfl, hid, fun _ _ => rfl⟩
      · rintro J hJ ⟨acc, m⟩ ⟨h1, h2, h3, h4⟩
        simp only at h1 h2 h3 h4
        subst h1
        have fin : ((List.range J).map (fun j => lw F (List.range' 1 (2 * t + 1)) (j + 1) • P ((j + 1 : ℕ) : F))).sum + lw F (List.range' 1 (2 * t + 1)) (J + 1) • P ((J + 1 : ℕ) : F) = 
            ((List.range (J + 1)).map (fun j => lw F (List.range' 1 (2 * t + 1)) (j + 1) • P ((j + 1 : ℕ) : F))).sum := by
          rw [List.range_succ, List.map_append, List.sum_append]; simp
        by_cases h0 : J = 0
        · subst h0
          simp only [beq_self_eq_true, if_true, ok_bind]
          exact ⟨_, rfl, by rw [← fin]; rfl, h2, h3, fun j hj => h4 j (by omega)⟩
        · have hb : (J == 0) = false := by simp [h0]
          obtain ⟨q, hq⟩ := hw J (by omega) hJ
          obtain ⟨r, hr, r1, r2, r3, r4⟩ := recv_from_spec (T := G) m J _ ⟨q, by rw [h4 J (le_refl _)]; exact hq⟩
          simp only [hb]
          rw [hr]
          simp only [ok_bind, r1]
          exact ⟨_, rfl, by rw [← fin]; rfl, by rw [r3, h2], by rw [r2, h3], fun j hj => by rw [r4 j (by omega), h4 j (by omega)]⟩
      · rintro ⟨acc, m⟩ ⟨h1, h2, h3, _⟩
        refine ⟨?_, h2, h3⟩
        rw [h1]
        have hp := hP.reconstruct (List.range' 1 (2 * t + 1)) List.nodup_range' (hF.inj (by intro q hq; simp [List.mem_range'] at hq; omega)) (by simp)
        rw [← hp, List.range'_eq_map_range, List.map_map]
        congr 1
        apply List.map_congr_left; intro j _
        simp [Nat.add_comm]
    · rintro ⟨acc, m⟩ ⟨h1, h2, h3⟩
      simp only at h1 h2 h3
      subst h1
      have hv : ∀ j, Shamir.evaluate_poly_point (Shamir.poly_with_zeros_from_precomputed_point (P 0) s'.mul_reconstruct_with_zeros) (rfrom (j + 1) : F) = .ok (reducedP F n t P j) := by
        intro j
        rw [C01.with_zeros_point_spec, C01.evaluate_poly_point_spec]
        · congr 1
          have := peval_map (((j + 1 : ℕ) : F)) ((LinearMap.id : F →ₗ[F] F).smulRight (P 0)) s'.mul_reconstruct_with_zeros
          rw [reducedP, ← hs'.zv]
          simpa using this
        · intro h
          have := congrArg List.length h
          simp [hs'.zlen] at this
      refine Ens.bind (p := fun (x : G × Net) => x.2.id_ = 0 ∧ x.1 = reducedP F n t P 0 ∧ x.2.out = net'.out ++ (rrange 1 (n - t)).map (fun j => (j, Ser.ser [reducedP F n t P j]))) ?_ ?_
      · refine (foldlM_range_inv (n - t) _ _ (fun J (x : G × Net) => x.2.id_ = 0 ∧ (1 ≤ J → x.1 = reducedP F n t P 0) ∧
          x.2.out = net'.out ++ (rrange 1 J).map (fun j => (j, Ser.ser [reducedP F n t P j]))) ?_ ?_).mono ?_
        · exact ⟨h3, by simp, by simp [rrange, h2]⟩
        · rintro J hJ ⟨sh, m2⟩ ⟨g1, g2, g3⟩
          simp only at g1 g2 g3
          rw [hv J]; simp only [ok_bind]
          by_cases h0 : J = 0
          · subst h0
            simp only [beq_self_eq_true, if_true, ok_bind]
            exact ⟨_, rfl, g1, fun _ => rfl, by simpa [rrange] using g3⟩
          · have hb : (J == 0) = false := by simp [h0]
            simp only [hb]
            rw [send_to_spec]; simp only [ok_bind]
            refine ⟨_, rfl, g1, fun _ => g2 (by omega), ?_⟩
            simp only [g3, rrange]
            rw [show J + 1 - 1 = (J - 1) + 1 by omega, List.range'_concat]
            simp [show 1 + (J - 1) = J by omega]
        · rintro ⟨sh, m2⟩ ⟨g1, g2, g3⟩
          exact ⟨g1, g2 (by omega), g3⟩
      · rintro ⟨sh, m2⟩ ⟨g1, g2, g3⟩
        exact ⟨_, rfl, g1, g2, g3⟩
  · rintro ⟨m, sh⟩ ⟨g1, g2, g3⟩
    simp only at g1 g2 g3
    subst g2
    exact ⟨_, rfl, rfl, g3, g1, rfl⟩

omit hF in
theorem degree_reduce_point_other (id : ℕ) (h0 : id ≠ 0) (hs : Ready s id n t) (input : G) (p : F × F) (s' : ShamirState F) (net' : Net) (hd : get_pair s net = .ok (p, s', net'))
    (hid : net'.id_ = id) (d : G) (hz : n - t ≤ id → d = 0)
    (hw : id < n - t → Waits net' 0 (Ser.ser [d])) :
    Ens (degree_reduce_point net s input) (fun r => r.1.a = d - p.1 • Gen.gen (G := G) ∧
      r.2.1.out = net'.out ++ (if id ≤ 2 * t then [(0, Ser.ser [input + p.2 • Gen.gen (G := G)])] else []) ∧ r.2.1.id_ = id ∧ r.2.2 = s') := by
  have hth := hs.th
  have hfr := get_pair_frame _ _ _ hd
  have hs' : Ready s' id n t := hs.frame hfr
  have hsub : rsub s.num_parties s.threshold = .ok (n - t) := by rw [hs.num, hs.thr]; exact rsub_nat (by omega)
  unfold degree_reduce_point
  rw [hsub]; simp only [ok_bind, pure_eq]
  have hb : (id == 0) = false := by simp [h0]
  rw [hd]; simp only [ok_bind, pmul_eq, hid, hb, hs'.thr, Bool.false_eq_true, if_false]
  refine Ens.bind (p := fun (x : Net × G) => x.2 = d ∧ x.1.out = net'.out ++ (if id ≤ 2 * t then [(0, Ser.ser [input + p.2 • Gen.gen (G := G)])] else []) ∧ x.1.id_ = id) ?_ ?_
  · refine Ens.bind (p := fun (m : Net) => m.inbox = net'.inbox ∧ m.out = net'.out ++ (if id ≤ 2 * t then [(0, Ser.ser [input + p.2 • Gen.gen (G := G)])] else []) ∧ m.id_ = id) ?_ ?_
    · by_cases h2 : id ≤ 2 * t
      · have h2' : id ≤ t * 2 := by omega
        simp only [h2, h2', decide_true, if_true, send_to_spec, ok_bind]
        exact ⟨_, rfl, rfl, rfl, hid⟩
      · have h2' : ¬ id ≤ t * 2 := by omega
        simp only [h2, h2', decide_false, Bool.false_eq_true, if_false, List.append_nil]
        exact ⟨_, rfl, rfl, rfl, hid⟩
    · rintro m ⟨m1, m2, m3⟩
      by_cases h3 : id < n - t
      · simp only [h3, decide_true, if_true]
        obtain ⟨q, hq⟩ := hw h3
        obtain ⟨r, hr, r1, r2, r3, _⟩ := recv_from_spec (T := G) m 0 d ⟨q, by rw [m1]; exact hq⟩
        rw [hr]
        simp only [ok_bind, r1]
        exact ⟨_, rfl, rfl, by rw [r3, m2], by rw [r2, m3]⟩
      · simp only [h3, decide_false, Bool.false_eq_true, if_false]
        exact ⟨_, rfl, (hz (by omega)).symm, m2, m3⟩
  · rintro ⟨m, sh⟩ ⟨g1, g2, g3⟩
    simp only at g1 g2 g3
    subst g1
    exact ⟨_, rfl, rfl, g2, g3, rfl⟩

/-- scalar multiplication of a shared point by a shared scalar -/
theorem scalar_mul_spec (id : ℕ) (hs : Ready s id n t) (a : ShamirPointShare G) (b : ShamirPrimeFieldShare F) (p : F × F) (s' : ShamirState F) (net' : Net) (hd : get_pair s net = .ok (p, s', net'))
    (hid : net'.id_ = id) (f : F → G) (g R S : F → F) (hf : PolyFn t f) (hg : PolyFn t g) (hS : PolyFn (2 * t) S)
    (ha : a.a = f ((id + 1 : ℕ) : F)) (hb : b.a = g ((id + 1 : ℕ) : F)) (hps : p = (R ((id + 1 : ℕ) : F), S ((id + 1 : ℕ) : F)))
    (hw : ∀ j, j < n → j ≠ id → (id = 0 ∧ j ≤ 2 * t ∨ j = 0 ∧ id < n - t) →
      Waits net' j (Ser.ser (if id = 0 then [g ((j + 1 : ℕ) : F) • f ((j + 1 : ℕ) : F) + S ((j + 1 : ℕ) : F) • Gen.gen (G := G)] else [reducedP F n t (fun x => g x • f x + S x • Gen.gen (G := G)) id]))) :
    Ens (pt_scalar_mul a b net s) (fun r =>
      r.1.a = zval F n t ((id + 1 : ℕ) : F) • (g 0 • f 0 + S 0 • Gen.gen (G := G)) - R ((id + 1 : ℕ) : F) • Gen.gen (G := G) ∧
      r.2.1.out = net'.out ++ (if id = 0 then (rrange 1 (n - t)).map (fun j => (j, Ser.ser [reducedP F n t (fun x => g x • f x + S x • Gen.gen (G := G)) j]))
        else if id ≤ 2 * t then [(0, Ser.ser [g ((id + 1 : ℕ) : F) • f ((id + 1 : ℕ) : F) + S ((id + 1 : ℕ) : F) • Gen.gen (G := G)])] else []) ∧ r.2.1.id_ = id ∧ r.2.2 = s') := by
  have hlt := hs.lt
  have hth := hs.th
  have hmul : (b * a : ShamirPointShare G).a = g ((id + 1 : ℕ) : F) • f ((id + 1 : ℕ) : F) := by
    rw [← ha, ← hb]; rfl
  unfold pt_scalar_mul
  simp only [hmul, pure_eq]
  have hP : PolyFn (2 * t) (fun x => g x • f x + S x • Gen.gen (G := G)) := by
    have h1 := hg.mul hf; rw [← two_mul] at h1
    exact h1.add (hS.smul_right _)
  by_cases h0 : id = 0
  · subst h0
    obtain ⟨r, hr, h1, h2⟩ := degree_reduce_point_king s n t hF net hs (g ((0 + 1 : ℕ) : F) • f ((0 + 1 : ℕ) : F)) p s' net' hd hid _ hP (by rw [hps]) (fun j h1 h2 => by
      have := hw j (by omega) (by omega) (Or.inl ⟨rfl, by omega⟩)
      simpa using this)
    rw [hr]
    refine ⟨_, rfl, ?_, h2⟩
    simp only
    rw [h1, hps]; rfl
  · obtain ⟨r, hr, h1, h2⟩ := degree_reduce_point_other s n t net id h0 hs (g ((id + 1 : ℕ) : F) • f ((id + 1 : ℕ) : F)) p s' net' hd hid (reducedP F n t (fun x => g x • f x + S x • Gen.gen (G := G)) id) (fun h => by
        have := zval_last (F := F) n t hF id h hlt
        simp only [reducedP, this, zero_smul]) (fun h => by
        have := hw 0 (by omega) (Ne.symm h0) (Or.inr ⟨rfl, h⟩)
        simpa [h0] using this)
    rw [hr]
    refine ⟨_, rfl, ?_, ?_⟩
    · simp only
      rw [h1, hps]; rfl
    · simp only [h0, if_false]
      rw [hps] at h2
      exact h2

omit hF in
theorem reduced_point_sharing (ht : 2 * t + 1 ≤ n) (hF : C01.Positions F n) (f : F → G) (g R S : F → F) (hR : PolyFn t R) (hRS : R 0 = S 0) :
    PolyFn t (fun x => zval F n t x • (g 0 • f 0 + S 0 • Gen.gen (G := G)) - R x • Gen.gen (G := G)) ∧
    zval F n t 0 • (g 0 • f 0 + S 0 • Gen.gen (G := G)) - R 0 • Gen.gen (G := G) = g 0 • f 0 := by
  have h := reduced_sharing n t ht hF (fun _ => (1 : F)) (fun _ => 0) (fun _ => 0) (PolyFn.const t 0) rfl
  have hz : PolyFn t (zval F n t) := by simpa using h.1
  have hz0 : zval F n t 0 = 1 := by simpa using h.2
  refine ⟨(hz.smul_right _).sub (hR.smul_right _), ?_⟩
  rw [hz0, hRS]; simp

/-! ### vectors of inversions, opening points and scalars together -/
omit hF in
theorem rand_loop (k : ℕ) (r) (hd : draw k s net = .ok r) :
    (List.range k).foldlM (m := M) (fun (x : ShamirState F × Net × List (ShamirPrimeFieldShare F)) (_ : ℕ) => do
      let t ← rand x.1 x.2.1
      .ok (t.2.1, t.2.2, x.2.2 ++ [t.1])) (s, net, []) = .ok (r.2.1, r.2.2, r.1.map (fun p => ⟨p.1⟩)) := by
  induction k generalizing r with
  | zero => simp [draw] at hd; subst hd; rfl
  | succ k ih =>
    simp only [draw] at hd
    cases hq : draw k s net with
    | error e => rw [hq] at hd; simp at hd
    | ok q =>
      rw [hq] at hd; simp only [ok_bind] at hd
      cases hp : get_pair q.2.1 q.2.2 with
      | error e => rw [hp] at hd; simp at hd
      | ok p =>
        rw [hp] at hd; simp only [ok_bind, Except.ok.injEq] at hd
        subst hd
        rw [List.range_succ, List.foldlM_append, ih q hq]
        have hr : rand q.2.1 q.2.2 = .ok ((⟨p.1.1⟩ : ShamirPrimeFieldShare F), p.2.1, p.2.2) := by
          unfold rand
          rw [hp]; rfl
        simp only [ok_bind, List.foldlM_cons, List.foldlM_nil, hr, pure_eq, List.map_append, List.map_cons, List.map_nil]

theorem inv_vec_spec (id : ℕ) (hs : Ready s id n t) (a : List (ShamirPrimeFieldShare F)) (ps : List (F × F)) (s' : ShamirState F) (net' : Net) (k : ℕ) (hd : draw k s net = .ok (ps, s', net'))
    (hid : net'.id_ = id) (f R : ℕ → F → F) (hf : ∀ i < k, PolyFn t (f i)) (hR : ∀ i < k, PolyFn t (R i))
    (ha : a.map (·.a) = (List.range k).map (fun i => f i ((id + 1 : ℕ) : F))) (hps : ps.map (·.1) = (List.range k).map (fun i => R i ((id + 1 : ℕ) : F)))
    (hw : ∀ r, 1 ≤ r → r < 2 * t + 1 → Waits net' (prev id n r) (Ser.ser ((List.range k).map (fun i => f i ((prev id n r + 1 : ℕ) : F) * R i ((prev id n r + 1 : ℕ) : F))))) :
    ((∃ i < k, f i 0 * R i 0 = 0) → ar_inv_vec a net s = .error .err) ∧ ((∀ i < k, f i 0 * R i 0 ≠ 0) → Ens (ar_inv_vec a net s) (fun r =>
      r.1.map (·.a) = (List.range k).map (fun i => R i ((id + 1 : ℕ) : F) * (f i 0 * R i 0)⁻¹) ∧ r.2.2 = s')) := by
  have hs' : Ready s' id n t := hs.frame (draw_frame _ _ _ _ hd).2
  have hk : a.length = k := by have := congrArg List.length ha; simpa using this
  obtain ⟨q, hq, q1, q2, q3⟩ := mul_open_vec_spec s' id n t hF hs' net' hid k f R hf hR a (ps.map (fun p => ⟨p.1⟩)) ha (by rw [List.map_map]; exact hps) hw
  have e : ar_inv_vec a net s = (do
      if (q.1.any (fun y => (y == 0))) then do
        throw Err.err
      else do
        let t__6 ← ((List.zip (ps.map (fun p => (⟨p.1⟩ : ShamirPrimeFieldShare F))) q.1).mapM (fun (x : ShamirPrimeFieldShare F × F) => do
            let t__5 ← (unwrap (inv? x.2))
            pure (x.1 * t__5 :)))
        pure (t__6, q.2.1, q.2.2)) := by
    unfold ar_inv_vec
    simp only [hk, pure_eq]
    have := rand_loop s net k _ hd
    simp only [pure_eq] at this
    rw [this]; simp only [ok_bind]
    rw [hq]; rfl
  rw [e, q1]
  constructor
  · rintro ⟨i, hi, h⟩
    have : (List.map (fun i => f i 0 * R i 0) (List.range k)).any (fun y => y == 0) = true := by
      rw [List.any_eq_true]
      exact ⟨_, List.mem_map.mpr ⟨i, by simpa using hi, rfl⟩, by simp [h]⟩
    simp only [this, if_true, throw_eq]
  · intro h
    have : (List.map (fun i => f i 0 * R i 0) (List.range k)).any (fun y => y == 0) = false := by
      rw [List.any_eq_false]
      intro x hx
      obtain ⟨i, hi, rfl⟩ := List.mem_map.mp hx
      have := h i (by simpa using hi)
      simpa using this
    simp only [this, Bool.false_eq_true, if_false]
    have hz : List.zip (ps.map (fun p => (⟨p.1⟩ : ShamirPrimeFieldShare F))) ((List.range k).map (fun i => f i 0 * R i 0)) =
        (List.range k).map (fun i => ((⟨R i ((id + 1 : ℕ) : F)⟩ : ShamirPrimeFieldShare F), f i 0 * R i 0)) := by
      have : ps.map (fun p => (⟨p.1⟩ : ShamirPrimeFieldShare F)) = (List.range k).map (fun i => (⟨R i ((id + 1 : ℕ) : F)⟩ : ShamirPrimeFieldShare F)) := by
        have h2 := congrArg (List.map ShamirPrimeFieldShare.mk) hps
        rw [List.map_map, List.map_map] at h2
        exact h2
      rw [this, List.zip_map']
    rw [hz, mapM_ok _ _ (fun (x : ShamirPrimeFieldShare F × F) => (x.1 * x.2⁻¹ : ShamirPrimeFieldShare F))]
    · refine ⟨_, rfl, ?_, q3⟩
      simp only [List.map_map]
      rfl
    · intro x hx
      obtain ⟨i, hi, rfl⟩ := List.mem_map.mp hx
      have := h i (by simpa using hi)
      simp [inv?_of_ne this]

omit hF s net in
theorem tr_loop2 {V W : Type} (k1 k2 m : ℕ) (z : V) (y : W) (v : ℕ → ℕ → V) (w : ℕ → ℕ → W) :
    ((renum ((List.range m).map (fun j => ((List.range k1).map (v j), (List.range k2).map (w j))))).foldlM (m := M) (fun (st : List (List V) × List (List W)) (x : ℕ × List V × List W) => do
      let a ← (renum x.2.1).foldlM (m := M) (fun tr (e : ℕ × V) => do
        let a ← idx tr e.1
        let b ← rset a x.1 e.2
        rset tr e.1 b) st.1
      let b ← (renum x.2.2).foldlM (m := M) (fun tr (e : ℕ × W) => do
        let a ← idx tr e.1
        let b ← rset a x.1 e.2
        rset tr e.1 b) st.2
      .ok (a, b)) (List.replicate k1 (List.replicate m z), List.replicate k2 (List.replicate m y))) = .ok (tr k1 m v, tr k2 m w) := by
  apply Ens.eq
  rw [renum_map_range, List.foldlM_map]
  have e0 : ∀ {U : Type} (k : ℕ) (z : U) (v : ℕ → ℕ → U), List.replicate k (List.replicate m z) = part k m z v 0 0 := by
    intro U k z v
    unfold part; apply List.ext_getElem <;> simp
  have e1 : ∀ {U : Type} (k : ℕ) (z : U) (v : ℕ → ℕ → U), tr k m v = part k m z v m 0 := by
    intro U k z v
    unfold part tr; apply List.map_congr_left; intro i hi; apply List.map_congr_left; intro j hj
    simp at hj; simp [hj]
  rw [e0 k1 z v, e0 k2 y w, e1 k1 z v, e1 k2 y w]
  refine foldlM_range_inv m _ _ (fun j st => st = (part k1 m z v j 0, part k2 m y w j 0)) rfl ?_
  rintro j hj st rfl
  have c1 := Ens.eq (col_loop k1 m z v j hj)
  have c2 := Ens.eq (col_loop k2 m y w j hj)
  simp only [bind_ok_id] at c1 c2
  simp only [c1, c2, ok_bind]
  exact ⟨_, rfl, rfl⟩

theorem open_point_and_field_many_spec (id : ℕ) (hs : Ready s id n t) (hid : net.id_ = id) (k1 k2 : ℕ) (f : ℕ → F → G) (g : ℕ → F → F) (hf : ∀ i < k1, PolyFn t (f i)) (hg : ∀ i < k2, PolyFn t (g i))
    (a : List (ShamirPointShare G)) (b : List (ShamirPrimeFieldShare F))
    (ha : a.map (·.a) = (List.range k1).map (fun i => f i ((id + 1 : ℕ) : F))) (hb : b.map (·.a) = (List.range k2).map (fun i => g i ((id + 1 : ℕ) : F)))
    (hw : ∀ r, 1 ≤ r → r < t + 1 → Waits net (prev id n r) (Ser.ser ((List.range k1).map (fun i => f i ((prev id n r + 1 : ℕ) : F)), (List.range k2).map (fun i => g i ((prev id n r + 1 : ℕ) : F))))) :
    Ens (pt_open_point_and_field_many a b net s) (fun r => r.1 = ((List.range k1).map (fun i => f i 0), (List.range k2).map (fun i => g i 0)) ∧
      r.2.1.out = net.out ++ (rrange 1 (t + 1)).map (fun q => ((id + q) % n, Ser.ser (a.map (·.a), b.map (·.a)))) ∧ r.2.2 = s) := by
  subst hid
  obtain ⟨r, hr, r1, r2, r3⟩ := broadcast_next_spec (T := List G × List F) net n (t + 1) (a.map (·.a), b.map (·.a)) (fun j => ((List.range k1).map (fun i => f i ((j + 1 : ℕ) : F)), (List.range k2).map (fun i => g i ((j + 1 : ℕ) : F))))
    (by omega) (by have := hs.th; omega) hs.lt (by rw [ha, hb]) hw
  have hk1 : a.length = k1 := by have := congrArg List.length ha; simpa using this
  have hk2 : b.length = k2 := by have := congrArg List.length hb; simpa using this
  unfold pt_open_point_and_field_many
  simp only [hs.num, hs.thr, pure_eq]
  rw [hr]; simp only [ok_bind, pure_eq, hk1, hk2, r1, bind_ok_id]
  refine Ens.bind (p := (· = (tr k1 (t + 1) (fun j i => f i ((prev net.id_ n j + 1 : ℕ) : F)), tr k2 (t + 1) (fun j i => g i ((prev net.id_ n j + 1 : ℕ) : F)))))
    ⟨_, tr_loop2 k1 k2 (t + 1) (0 : G) (0 : F) (fun j i => f i ((prev net.id_ n j + 1 : ℕ) : F)) (fun j i => g i ((prev net.id_ n j + 1 : ℕ) : F)), rfl⟩ ?_
  rintro _ rfl
  refine ⟨_, rfl, ?_, r3, rfl⟩
  simp only [tr, List.map_map, Function.comp_def, C01.reconstruct_spec, C01.reconstruct_point_spec, hs.ot]
  congr 1
  · apply List.map_congr_left
    intro i hi
    exact sum_rec hF hs.lt (by have := hs.th; omega) (by omega) (hf i (by simpa using hi))
  · apply List.map_congr_left
    intro i hi
    exact sum_rec hF hs.lt (by have := hs.th; omega) (by omega) (hg i (by simpa using hi))
end

end C04
end Rs.ShamirNet
