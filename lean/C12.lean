import Framing
set_option linter.all false
set_option autoImplicit false
open Rs Rs.Framing
namespace C12

/-! ### loops that may end in an error -/
/-- `x` either reports an error or returns normally with `p` -/
def Out {α : Type} (x : M α) (p : α → Prop) : Prop := x = .error .err ∨ Ens x p
theorem out_bind {α β : Type} {x : M α} {f : α → M β} {p : α → Prop} {q : β → Prop} (hx : Out x p) (hf : ∀ a, p a → Out (f a) q) : Out (x >>= f) q := by
  rcases hx with rfl | ⟨r, rfl, hp⟩
  · exact Or.inl rfl
  · exact hf r hp
theorem whileM_out {σ : Type} (c : σ → M Bool) (b : σ → M σ) (m : σ → ℕ) (Inv : σ → Prop) (s : σ) (h0 : Inv s)
    (hc : ∀ s, Inv s → ∃ v, c s = .ok v) (hb : ∀ s, Inv s → c s = .ok true → Out (b s) (fun s' => Inv s' ∧ m s' < m s)) :
    Out (whileM c b s) (fun s' => Inv s' ∧ c s' = .ok false) := by
  suffices H : ∀ n s, Inv s → m s < n → ∃ r, whileFuel c b n s = some r ∧ Out r (fun s' => Inv s' ∧ c s' = .ok false) by
    obtain ⟨r, h1, h2⟩ := H (m s + 1) s h0 (by omega)
    rw [whileM_of h1]; exact h2
  intro n
  induction n with
  | zero => intro s _ h; omega
  | succ n ih =>
    intro s hi hm
    obtain ⟨v, hv⟩ := hc s hi
    unfold whileFuel
    rw [hv]
    cases v with
    | false => exact ⟨_, rfl, Or.inr ⟨s, rfl, hi, hv⟩⟩
    | true =>
      rcases hb s hi hv with he | ⟨s', hs', hi', hlt⟩
      · rw [he]; exact ⟨_, rfl, Or.inl rfl⟩
      · rw [hs']; exact ih s' hi' (by omega)

/-! ### the writing side -/
theorem advanceSlices_spec (bufs : List (List ℕ)) (n : ℕ) (h : n ≤ bufs.flatten.length) :
    ∃ b', advanceSlices bufs n = .ok b' ∧ b'.flatten = bufs.flatten.drop n ∧ (b' ≠ [] → b'.flatten ≠ []) := by
  induction bufs generalizing n with
  | nil => simp at h; subst h; exact ⟨[], rfl, rfl, by simp⟩
  | cons b bs ih =>
    unfold advanceSlices
    by_cases hb : b.length ≤ n
    · rw [if_pos hb]
      obtain ⟨b', h1, h2, h3⟩ := ih (n - b.length) (by simp at h ⊢; omega)
      exact ⟨b', h1, by rw [h2, List.flatten_cons, List.drop_append, List.drop_eq_nil_of_le hb, List.nil_append], h3⟩
    · rw [if_neg hb]
      refine ⟨_, rfl, ?_, ?_⟩
      · rw [List.flatten_cons, List.flatten_cons, List.drop_append, Nat.sub_eq_zero_of_le (by omega), List.drop_zero]
      · intro _ h0
        have := congrArg List.length h0
        simp at this; omega

/-- the transport never refuses for good -/
def Live (p : List WriteEv) : Prop := ∀ e ∈ p, e ≠ .take 0 ∧ e ≠ .fail .other

/-- one frame on the wire -/
def frame (p : List ℕ) : List ℕ := beBytes 8 p.length ++ p

def WInv (w0 : Sink) (data : List ℕ) (s : Sink × List (List ℕ)) : Prop :=
  s.1.out ++ s.2.flatten = w0.out ++ data ∧ s.1.plan <:+ w0.plan ∧ (s.2 ≠ [] → s.2.flatten ≠ [])

/-- one call of `write_vectored`, seen from the loop -/
theorem wv_spec (w0 : Sink) (data : List ℕ) (w : Sink) (bufs : List (List ℕ)) (hi : WInv w0 data (w, bufs)) (hne : bufs ≠ []) :
    (∃ e w', writeVectored w bufs = (.error e, w') ∧ w'.out = w.out ∧ .fail e :: w'.plan = w.plan) ∨
    (∃ w', writeVectored w bufs = (.ok 0, w') ∧ .take 0 ∈ w.plan) ∨
    (∃ n w' b', writeVectored w bufs = (.ok (n + 1), w') ∧ advanceSlices bufs (n + 1) = .ok b' ∧ WInv w0 data (w', b') ∧ b'.flatten.length < bufs.flatten.length ∧ w'.plan.length ≤ w.plan.length) := by
  obtain ⟨h1, h2, h3⟩ := hi
  have hf : bufs.flatten ≠ [] := h3 hne
  have hpos : 0 < bufs.flatten.length := List.length_pos_iff.2 hf
  have key : ∀ n w', 0 < n → n ≤ bufs.flatten.length → writeVectored w bufs = (.ok n, w') → w'.out = w.out ++ bufs.flatten.take n → w'.plan <:+ w.plan →
      (∃ n w' b', writeVectored w bufs = (.ok (n + 1), w') ∧ advanceSlices bufs (n + 1) = .ok b' ∧ WInv w0 data (w', b') ∧ b'.flatten.length < bufs.flatten.length ∧ w'.plan.length ≤ w.plan.length) := by
    intro n w' hn hle he ho hp
    obtain ⟨m, rfl⟩ : ∃ m, n = m + 1 := ⟨n - 1, by omega⟩
    obtain ⟨b', e1, e2, e3⟩ := advanceSlices_spec bufs (m + 1) hle
    refine ⟨m, w', b', he, e1, ⟨?_, hp.trans h2, e3⟩, ?_, hp.length_le⟩
    · show w'.out ++ b'.flatten = _
      rw [ho, e2, List.append_assoc, List.take_append_drop]; exact h1
    · rw [e2, List.length_drop]; omega
  unfold writeVectored
  cases hp : w.plan with
  | nil =>
    refine Or.inr (Or.inr ?_)
    have := key bufs.flatten.length { w with out := w.out ++ bufs.flatten } hpos (le_refl _) (by unfold writeVectored; rw [hp]) (by simp) (List.suffix_refl _)
    unfold writeVectored at this; rw [hp] at this; exact this
  | cons e p =>
    cases e with
    | fail e => exact Or.inl ⟨e, _, rfl, rfl, rfl⟩
    | take n =>
      by_cases hn : n = 0
      · subst hn
        exact Or.inr (Or.inl ⟨{ out := w.out ++ bufs.flatten.take 0, plan := p }, by simp, by simp⟩)
      · refine Or.inr (Or.inr ?_)
        have := key (min n bufs.flatten.length) { out := w.out ++ bufs.flatten.take n, plan := p } (by omega) (by omega)
          (by unfold writeVectored; rw [hp]) (by simp) (by rw [hp]; exact List.suffix_cons _ _)
        unfold writeVectored at this; rw [hp] at this; exact this

theorem write_all_spec (w : Sink) (bufs : List (List ℕ)) :
    Out (write_all_vectored w bufs) (fun r => r.1.out = w.out ++ bufs.flatten ∧ r.1.plan <:+ w.plan) ∧
    (Live w.plan → Ens (write_all_vectored w bufs) (fun r => r.1.out = w.out ++ bufs.flatten ∧ r.1.plan <:+ w.plan)) := by
  obtain ⟨b0, e1, e2, e3⟩ := advanceSlices_spec bufs 0 (by omega)
  unfold write_all_vectored
  simp only [e1, ok_bind, pure_eq]
  have hinit : WInv w bufs.flatten (w, b0) := ⟨by simp [e2], List.suffix_refl _, e3⟩
  have fin : ∀ s : Sink × List (List ℕ), WInv w bufs.flatten s ∧ (.ok (rnot s.2.isEmpty) : M Bool) = .ok false →
      s.1.out = w.out ++ bufs.flatten ∧ s.1.plan <:+ w.plan := by
    rintro ⟨w', b'⟩ ⟨⟨h1, h2, h3⟩, hc⟩
    have : b' = [] := by
      cases b' with
      | nil => rfl
      | cons x xs => simp [rnot] at hc
    subst this
    exact ⟨by simpa using h1, h2⟩
  constructor
  · refine out_bind (whileM_out _ _ (fun s => s.1.plan.length + s.2.flatten.length) (WInv w bufs.flatten) (w, b0) hinit (fun s _ => ⟨_, rfl⟩) ?_)
      (fun s hp => Or.inr ⟨s, rfl, fin s hp⟩)
    · rintro ⟨w', b'⟩ hi hc
      have hne : b' ≠ [] := by rintro rfl; simp [rnot] at hc
      rcases wv_spec w bufs.flatten w' b' hi hne with ⟨e, w2, h, ho, hpl⟩ | ⟨w2, h, hz⟩ | ⟨n, w2, b2, h, ha, hi2, hm1, hm2⟩
      · simp only [h]
        cases e with
        | eintr =>
          refine Or.inr ⟨(w2, b'), rfl, ⟨by simpa [ho] using hi.1, ?_, hi.2.2⟩, ?_⟩
          · exact (by rw [← hpl]; exact List.suffix_cons _ _ : w2.plan <:+ w'.plan).trans hi.2.1
          · simp only; rw [← hpl]; simp
        | other => exact Or.inl rfl
      · simp only [h]; exact Or.inl rfl
      · simp only [h, ha, ok_bind]
        exact Or.inr ⟨(w2, b2), rfl, hi2, by simp only; omega⟩
  · intro hl
    refine Ens.bind (p := fun s => WInv w bufs.flatten s ∧ (.ok (rnot s.2.isEmpty) : M Bool) = .ok false)
      (whileM_inv _ _ (fun s => s.1.plan.length + s.2.flatten.length) (WInv w bufs.flatten) (w, b0) hinit (fun s _ => ⟨_, rfl, trivial⟩) ?_)
      (fun s hp => ⟨s, rfl, fin s hp⟩)
    rintro ⟨w', b'⟩ hi hc
    have hne : b' ≠ [] := by rintro rfl; simp [rnot] at hc
    have hl' : Live w'.plan := fun e he => hl e (hi.2.1.subset he)
    rcases wv_spec w bufs.flatten w' b' hi hne with ⟨e, w2, h, ho, hpl⟩ | ⟨w2, h, hz⟩ | ⟨n, w2, b2, h, ha, hi2, hm1, hm2⟩
    · simp only [h]
      cases e with
      | eintr =>
        refine ⟨(w2, b'), rfl, ⟨by simpa [ho] using hi.1, ?_, hi.2.2⟩, ?_⟩
        · exact (by rw [← hpl]; exact List.suffix_cons _ _ : w2.plan <:+ w'.plan).trans hi.2.1
        · simp only; rw [← hpl]; simp
      | other => exact absurd rfl (hl' (.fail .other) (by rw [← hpl]; simp)).2
    · exact absurd rfl (hl' _ hz).1
    · simp only [h, ha, ok_bind]
      exact ⟨(w2, b2), rfl, hi2, by simp only; omega⟩

/-- `write_frame` reports an error or has put exactly the header and the payload on the wire -/
theorem write_frame_out (w : Sink) (p : List ℕ) : Out (write_frame w p) (fun w' => w'.out = w.out ++ frame p ∧ w'.plan <:+ w.plan) := by
  unfold write_frame
  rcases (write_all_spec w [beBytes 8 p.length, p]).1 with h | ⟨r, h, hp⟩
  · simp only [h]; exact Or.inl rfl
  · simp only [h, ok_bind]; exact Or.inr ⟨_, rfl, by simpa [frame] using hp⟩
/-- … and it succeeds however the transport splits the write, as long as the transport makes progress -/
theorem write_frame_live (w : Sink) (p : List ℕ) (hl : Live w.plan) : Ens (write_frame w p) (fun w' => w'.out = w.out ++ frame p ∧ Live w'.plan) := by
  unfold write_frame
  obtain ⟨r, h, hp⟩ := (write_all_spec w [beBytes 8 p.length, p]).2 hl
  simp only [h, ok_bind]
  exact ⟨_, rfl, by simpa [frame] using hp.1, fun e he => hl e (hp.2.subset he)⟩

/-! ### the reading side -/
/-- the bytes a source will deliver before its end or its first lasting failure -/
def bytes : Src → List ℕ
  | [] => []
  | .fail .eintr :: s => bytes s
  | .fail .other :: _ => []
  | .data b bs :: s => b :: bs ++ bytes s
def size : Src → ℕ
  | [] => 0
  | .fail _ :: s => 1 + size s
  | .data _ bs :: s => 2 + bs.length + size s

theorem fill_spec (r : FrameReader Src) :
    (fill r = .error .err ∧ bytes r.stream = []) ∨
    (∃ x s', fill r = .ok { stream := s', buf := r.buf ++ x, max_frame_length := r.max_frame_length } ∧ bytes r.stream = x ++ bytes s' ∧ size s' < size r.stream) := by
  obtain ⟨st, buf, mx⟩ := r
  unfold fill
  generalize hN : 64 * 1024 = N
  have hp : 0 < N := by omega
  clear hN
  have hsl : ∀ l : List ℕ, slice (resize l (l.length + N) 0) l.length (resize l (l.length + N) 0).length = .ok (List.replicate N 0) := by
    intro l; simp [slice, resize, List.take_of_length_le]
  have hrs : ∀ (l v : List ℕ), v.length = N → rsetSlice (resize l (l.length + N) 0) l.length (resize l (l.length + N) 0).length v = .ok (l ++ v) := by
    intro l v hv; simp [rsetSlice, resize, List.take_of_length_le, hv]
  simp only [hsl, ok_bind]
  cases st with
  | nil =>
    left
    simp only [readInto, hrs buf _ (List.length_replicate ..), ok_bind]
    exact ⟨rfl, rfl⟩
  | cons e s =>
    cases e with
    | fail e =>
      simp only [readInto, hrs buf _ (List.length_replicate ..), ok_bind]
      cases e with
      | eintr => right; exact ⟨[], s, by simp, by simp [bytes], by simp [size]⟩
      | other => left; exact ⟨rfl, rfl⟩
    | data b bs =>
      right
      by_cases hd : (b :: bs).length ≤ N
      · have e1 : readInto (.data b bs :: s) (List.replicate N 0) = (.ok (b :: bs).length, s, overwrite (List.replicate N 0) (b :: bs)) := by
          unfold readInto
          simp only [List.length_replicate, if_neg (Nat.pos_iff_ne_zero.1 hp), List.drop_eq_nil_of_le hd]
        have hv : (overwrite (List.replicate N 0) (b :: bs)).length = N := by simp [overwrite] at hd ⊢; omega
        simp only [e1, hrs buf _ hv, ok_bind]
        refine ⟨b :: bs, s, ?_, rfl, by simp only [size]; omega⟩
        simp [overwrite, List.take_append]
      · obtain ⟨c, cs, hcs⟩ : ∃ c cs, (b :: bs).drop N = c :: cs := by
          cases h : (b :: bs).drop N with
          | nil => exact absurd (List.drop_eq_nil_iff.1 h) hd
          | cons c cs => exact ⟨c, cs, rfl⟩
        have e1 : readInto (.data b bs :: s) (List.replicate N 0) = (.ok N, .data c cs :: s, (b :: bs).take N) := by
          unfold readInto
          simp only [List.length_replicate, if_neg (Nat.pos_iff_ne_zero.1 hp), hcs]
        have hv : ((b :: bs).take N).length = N := by rw [List.length_take]; omega
        simp only [e1, hrs buf _ hv, ok_bind]
        refine ⟨(b :: bs).take N, .data c cs :: s, ?_, ?_, ?_⟩
        · obtain ⟨k, rfl⟩ : ∃ k, N = k + 1 := ⟨N - 1, by omega⟩
          simp [List.take_of_length_le, hv, -List.take_succ_cons]
        · show b :: bs ++ bytes s = _
          simp only [bytes]
          rw [← hcs, ← List.append_assoc, List.take_append_drop]
        · have := congrArg List.length hcs
          simp [size] at this hd ⊢; omega

/-- what the byte string `T` says to a reader with limit `mx`: the next message and what follows it -/
def parse (mx : ℕ) (T : List ℕ) : Option (List ℕ × List ℕ) :=
  if 8 ≤ T.length ∧ ofBeBytes (T.take 8) ≤ mx ∧ 8 + ofBeBytes (T.take 8) ≤ T.length then
    some ((T.drop 8).take (ofBeBytes (T.take 8)), (T.drop 8).drop (ofBeBytes (T.take 8)))
  else none

/-- `next_frame` depends on the bytes of the stream only, not on how they arrive -/
def Post (r : FrameReader Src) (x : M (List ℕ × FrameReader Src)) : Prop :=
  match parse r.max_frame_length (r.buf ++ bytes r.stream) with
  | none => x = .error .err
  | some (p, rest) => ∃ r', x = .ok (p, r') ∧ r'.buf ++ bytes r'.stream = rest ∧ r'.max_frame_length = r.max_frame_length

theorem next_frame_spec (r : FrameReader Src) : Post r (next_frame r) := by
  unfold next_frame
  simp only [forIn_forever, pure_eq]
  suffices H : ∀ n (r : FrameReader Src), size r.stream < n → Post r (foreverM _ (none, r) >>= _) from H _ r (Nat.lt_succ_self _)
  intro n
  induction n with
  | zero => intro r h; omega
  | succ n ih =>
    intro r h
    have hT : (r.buf ++ bytes r.stream).length = r.buf.length + (bytes r.stream).length := List.length_append
    have ht : 8 ≤ r.buf.length → (r.buf ++ bytes r.stream).take 8 = r.buf.take 8 := fun h8 => List.take_append_of_le_length h8
    -- a round that reads more
    have hfill : ∀ x : M (List ℕ × FrameReader Src), (8 ≤ r.buf.length → ofBeBytes (r.buf.take 8) ≤ r.max_frame_length ∧ r.buf.length < 8 + ofBeBytes (r.buf.take 8)) →
        (fill r = .error .err → x = .error .err) → (∀ r', fill r = .ok r' → (size r'.stream < n → Post r' x)) → Post r x := by
      intro x hb he ho
      rcases fill_spec r with ⟨e, hz⟩ | ⟨y, s', e, hy, hs⟩
      · have : parse r.max_frame_length (r.buf ++ bytes r.stream) = none := by
          unfold parse
          rw [if_neg]
          rintro ⟨h1, h2, h3⟩
          rw [hz, List.append_nil] at h1 h2 h3
          have := hb h1
          omega
        unfold Post
        rw [this]
        exact he e
      · have hq := ho _ e (by simp only; omega)
        unfold Post at hq ⊢
        simp only at hq
        rwa [List.append_assoc, ← hy] at hq
    rw [foreverM_unfold]
    by_cases h8 : 8 ≤ r.buf.length
    · have e1 : slice r.buf 0 8 = .ok (r.buf.take 8) := by simp [slice, h8]
      have e2 : toArray 8 (r.buf.take 8) = some (r.buf.take 8) := by simp [toArray, h8]
      simp only [h8, decide_true, if_true, e1, e2, ok_bind, unwrap]
      by_cases hm : r.max_frame_length < ofBeBytes (r.buf.take 8)
      · have : parse r.max_frame_length (r.buf ++ bytes r.stream) = none := by
          unfold parse
          rw [if_neg]
          rintro ⟨h1, h2, h3⟩
          rw [ht h8] at h2
          omega
        unfold Post
        rw [this]
        simp [hm]
      · by_cases hl : 8 + ofBeBytes (r.buf.take 8) ≤ r.buf.length
        · have : parse r.max_frame_length (r.buf ++ bytes r.stream) = some ((r.buf.drop 8).take (ofBeBytes (r.buf.take 8)), (r.buf.drop 8).drop (ofBeBytes (r.buf.take 8)) ++ bytes r.stream) := by
            unfold parse
            rw [ht h8, if_pos ⟨by omega, by omega, by omega⟩, List.drop_append_of_le_length h8, List.take_append_of_le_length (by simp; omega),
              List.drop_append_of_le_length (by simp; omega)]
          have e3 : advance r.buf 8 = .ok (r.buf.drop 8) := by simp [advance, h8]
          have e4 : splitTo (r.buf.drop 8) (ofBeBytes (r.buf.take 8)) = .ok ((r.buf.drop 8).take (ofBeBytes (r.buf.take 8)), (r.buf.drop 8).drop (ofBeBytes (r.buf.take 8))) := by
            unfold splitTo; rw [if_pos (by simp; omega)]
          unfold Post
          rw [this]
          simp only [hm, hl, decide_true, decide_false, if_true, Bool.false_eq_true, if_false, e3, e4, ok_bind]
          exact ⟨_, rfl, rfl, rfl⟩
        · simp only [hm, hl, decide_false, Bool.false_eq_true, if_false]
          refine hfill _ (fun _ => ⟨by omega, by omega⟩) (fun e => by rw [e]; rfl) (fun r' e hs => ?_)
          simp only [e, ok_bind]
          exact ih r' hs
    · simp only [h8, decide_false, Bool.false_eq_true, if_false]
      refine hfill _ (fun h => absurd h h8) (fun e => by rw [e]; rfl) (fun r' e hs => ?_)
      simp only [e, ok_bind]
      exact ih r' hs

/-! ### from end to end -/
theorem beBytes_length (k v : ℕ) : (beBytes k v).length = k := by
  induction k generalizing v with
  | zero => rfl
  | succ k ih => simp [beBytes, ih]
theorem ofBeBytes_append (l : List ℕ) (b : ℕ) : ofBeBytes (l ++ [b]) = 256 * ofBeBytes l + b := by simp [ofBeBytes]
theorem ofBe_be (k v : ℕ) (h : v < 256 ^ k) : ofBeBytes (beBytes k v) = v := by
  induction k generalizing v with
  | zero => simp at h; subst h; rfl
  | succ k ih =>
    rw [beBytes, ofBeBytes_append, ih _ (by rw [Nat.div_lt_iff_lt_mul (by norm_num)]; rw [pow_succ] at h; omega)]
    omega
/-- lengths and limits fit into 64 bits; `8 + limit` does too -/
def Fits (mx : ℕ) : Prop := mx + 8 < 256 ^ 8
theorem parse_frame (mx : ℕ) (hmx : Fits mx) (p rest : List ℕ) (hp : p.length ≤ mx) : parse mx (frame p ++ rest) = some (p, rest) := by
  have hb : ofBeBytes (beBytes 8 p.length) = p.length := ofBe_be 8 _ (by unfold Fits at hmx; omega)
  have hl := beBytes_length 8 p.length
  have e1 : (frame p ++ rest).take 8 = beBytes 8 p.length := by
    rw [frame, List.append_assoc, ← hl, List.take_left']; simp [hl]
  have e2 : (frame p ++ rest).drop 8 = p ++ rest := by
    rw [frame, List.append_assoc]; exact List.drop_left' hl
  unfold parse
  rw [e1, e2, hb, if_pos ⟨by simp [frame, hl], hp, by simp [frame, hl]⟩]
  simp
/-- a stream that ends inside a frame -/
theorem parse_truncated (mx : ℕ) (hmx : Fits mx) (p : List ℕ) (hp : p.length ≤ mx) (k : ℕ) (hk : k < (frame p).length) : parse mx ((frame p).take k) = none := by
  have hl := beBytes_length 8 p.length
  have hf : (frame p).length = 8 + p.length := by simp [frame, hl]
  unfold parse
  rw [if_neg]
  rintro ⟨h1, h2, h3⟩
  rw [List.length_take, Nat.min_eq_left (by omega)] at h1 h3
  rw [List.take_take, Nat.min_eq_left h1, frame, List.take_left' hl, ofBe_be 8 _ (by unfold Fits at hmx; omega)] at h3
  omega
/-- a header above the limit -/
theorem parse_long (mx v : ℕ) (hv : v < 256 ^ 8) (h : mx < v) (rest : List ℕ) : parse mx (beBytes 8 v ++ rest) = none := by
  unfold parse
  rw [if_neg]
  rintro ⟨_, h2, _⟩
  rw [List.take_left' (beBytes_length 8 v), ofBe_be 8 v hv] at h2
  omega

noncomputable def recvN : ℕ → FrameReader Src → M (List (List ℕ) × FrameReader Src)
  | 0, r => .ok ([], r)
  | n + 1, r => do
    let t ← next_frame r
    let u ← recvN n t.2
    pure (t.1 :: u.1, u.2)
def wire (msgs : List (List ℕ)) : List ℕ := (msgs.map frame).flatten

theorem sent (msgs : List (List ℕ)) (w : Sink) (hl : Live w.plan) : Ens (msgs.foldlM write_frame w) (fun w' => w'.out = w.out ++ wire msgs) := by
  suffices H : ∀ (msgs : List (List ℕ)) (w : Sink), Live w.plan → Ens (msgs.foldlM write_frame w) (fun w' => w'.out = w.out ++ wire msgs) from H msgs w hl
  intro msgs
  induction msgs with
  | nil => intro w _; exact ⟨w, rfl, by simp [wire]⟩
  | cons p ps ih =>
    intro w hl
    rw [List.foldlM_cons]
    refine (write_frame_live w p hl).bind fun w' hw => ?_
    refine (ih w' hw.2).mono fun w'' h => ?_
    rw [h, hw.1]; simp [wire, List.append_assoc]

theorem received (msgs : List (List ℕ)) (r : FrameReader Src) (hf : Fits r.max_frame_length) (hm : ∀ p ∈ msgs, p.length ≤ r.max_frame_length) (rest : List ℕ)
    (h : r.buf ++ bytes r.stream = wire msgs ++ rest) :
    Ens (recvN msgs.length r) (fun o => o.1 = msgs ∧ o.2.buf ++ bytes o.2.stream = rest ∧ o.2.max_frame_length = r.max_frame_length) := by
  induction msgs generalizing r with
  | nil => exact ⟨([], r), rfl, rfl, by simpa [wire] using h, rfl⟩
  | cons p ps ih =>
    have hq := next_frame_spec r
    unfold Post at hq
    rw [h, show wire (p :: ps) ++ rest = frame p ++ (wire ps ++ rest) by simp [wire], parse_frame _ hf p _ (hm p (by simp))] at hq
    obtain ⟨r', e, h1, h2⟩ := hq
    show Ens (recvN (ps.length + 1) r) _
    unfold recvN
    simp only [e, ok_bind]
    refine (ih r' (h2 ▸ hf) (fun q hq => h2 ▸ hm q (by simp [hq])) h1).bind fun o ho => ?_
    exact ⟨_, rfl, by rw [ho.1], ho.2.1, by rw [ho.2.2, h2]⟩

/-- every message sent arrives, in order and unchanged, whatever the chunking on either side; after the last one the
reader reports an error, and a final partial frame is an error, never a message -/
theorem end_to_end (mx : ℕ) (hf : Fits mx) (msgs : List (List ℕ)) (hm : ∀ p ∈ msgs, p.length ≤ mx) (w : Sink) (hw : w.out = []) (hl : Live w.plan) :
    Ens (msgs.foldlM write_frame w) (fun w' => ∀ (src : Src) (p : List ℕ) (k : ℕ), p.length ≤ mx → k < (frame p).length →
      bytes src = w'.out ++ (frame p).take k →
      Ens (recvN msgs.length { stream := src, buf := [], max_frame_length := mx }) (fun o => o.1 = msgs ∧ next_frame o.2 = .error .err)) := by
  refine (sent msgs w hl).mono fun w' h => ?_
  intro src p k hp hk hs
  rw [hw, List.nil_append] at h
  refine (received msgs { stream := src, buf := [], max_frame_length := mx } hf hm ((frame p).take k) (by simpa [h] using hs)).mono fun o ho => ?_
  refine ⟨ho.1, ?_⟩
  have hq := next_frame_spec o.2
  unfold Post at hq
  rw [ho.2.1, ho.2.2, parse_truncated mx hf p hp k hk] at hq
  exact hq
/-- a header above the limit is an error -/
theorem long_header (r : FrameReader Src) (v : ℕ) (hv : v < 256 ^ 8) (h : r.max_frame_length < v) (rest : List ℕ)
    (hb : r.buf ++ bytes r.stream = beBytes 8 v ++ rest) : next_frame r = .error .err := by
  have hq := next_frame_spec r
  unfold Post at hq
  rwa [hb, parse_long _ v hv h] at hq
end C12
