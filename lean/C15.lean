import RsPrelude
import Chan
import ChanLib
import ChanStats
import ChanLocal
import ChanBlocking
import ChanAsync
set_option linter.all false
set_option autoImplicit false
open Rs

/-! C15: the statistics are the bytes that were sent and received. -/
namespace Rs.Chan.C15
open Rs.Chan.Stats Rs.Chan.Local Rs.Chan.Blocking Rs.Chan.Async

variable (O : Outside)

/-- what a send does: nothing but an error for a party without a queue; an error that leaves queues and counters as they
are when the queue does not take the message; the message in that party's queue and its bytes in that party's counter -/
noncomputable def sent (entry : Option (ℕ × ℕ)) (data : Bytes) (w : World) : Except Err Unit × World :=
  match entry with
  | none => (.error .err, w)
  | some (c, k) =>
    if O.ok w.clock then (.ok (), { w with put := upd w.put c (w.put c ++ [data]), counter := upd w.counter k (w.counter k + data.length), clock := w.clock + 1 })
    else (.error .err, { w with clock := w.clock + 1 })
noncomputable def received (entry : Option (ℕ × ℕ)) (w : World) : Except Err Bytes × World :=
  match entry with
  | none => (.error .err, w)
  | some (c, k) =>
    if O.ok w.clock then (.ok (O.yields w.clock), { w with got := upd w.got c (w.got c ++ [O.yields w.clock]), counter := upd w.counter k (w.counter k + (O.yields w.clock).length), clock := w.clock + 1 })
    else (.error .err, { w with clock := w.clock + 1 })

attribute [local simp] run_bind run_map run_pure run_throw run_lift run_lift' run_lift'' okOr unwrap fetchAdd sendQ recvQ load Payload.bytes

theorem local_send_spec (self : LocalNetwork) (to_ : ℕ) (data : Bytes) (w : World) :
    local_send O self to_ data w = sent O (PMap.get? self.send to_) data w := by
  unfold local_send sent
  cases h : PMap.get? self.send to_ with
  | none => simp
  | some e =>
    obtain ⟨c, k⟩ := e
    cases self.timeout <;> by_cases ho : O.ok w.clock <;> simp [ho, h]

theorem local_recv_spec (self : LocalNetwork) (from_ : ℕ) (w : World) :
    local_recv O self from_ w = received O (PMap.get? self.recv from_) w := by
  unfold local_recv received
  cases h : PMap.get? self.recv from_ with
  | none => simp
  | some e =>
    obtain ⟨c, k⟩ := e
    cases self.timeout <;> by_cases ho : O.ok w.clock <;> simp [ho, h]

theorem blocking_send_spec (self : BlockingChannels) (to_ : ℕ) (data : Bytes) (w : World) :
    blocking_send O self to_ data w = if self.max_frame_length < data.length then (.error .err, w) else sent O (PMap.get? self.send to_) data w := by
  unfold blocking_send sent
  by_cases hm : self.max_frame_length < data.length
  · simp [hm]
  · cases h : PMap.get? self.send to_ with
    | none => simp [hm]
    | some e =>
      obtain ⟨c, k⟩ := e
      by_cases ho : O.ok w.clock <;> simp [ho, h, hm]

theorem blocking_recv_spec (self : BlockingChannels) (from_ : ℕ) (w : World) :
    blocking_recv O self from_ w = received O (PMap.get? self.recv from_) w := by
  unfold blocking_recv received
  cases h : PMap.get? self.recv from_ with
  | none => simp
  | some e =>
    obtain ⟨c, k⟩ := e
    cases self.timeout <;> by_cases ho : O.ok w.clock <;> simp [ho, h]

theorem async_send_spec (self : AsyncChannels) (to_ : ℕ) (data : Bytes) (w : World) :
    async_send O self to_ data w = if self.max_frame_length < data.length then (.error .err, w) else sent O (PMap.get? self.send to_) data w := by
  unfold async_send sent
  by_cases hm : self.max_frame_length < data.length
  · simp [hm]
  · cases h : PMap.get? self.send to_ with
    | none => simp [hm]
    | some e =>
      obtain ⟨c, k⟩ := e
      by_cases ho : O.ok w.clock <;> simp [ho, h, hm]

/-- the statistics of a party: for every peer it has a queue to, the two counters; the world is left alone -/
def Snapshot (send recv : PMap (ℕ × ℕ)) (w : World) (s : PMap (ℕ × ℕ)) : Prop :=
  ∀ p, PMap.get? s p = (match PMap.get? send p, PMap.get? recv p with
    | some (_, k), some (_, r) => some (w.counter k, w.counter r)
    | _, _ => none)

/-- what the statistics loop collects -/
noncomputable def pick (recv : PMap (ℕ × ℕ)) (w : World) (p : ℕ) (v : ℕ × ℕ) : ℕ × ℕ :=
  (w.counter v.2, w.counter ((PMap.get? recv p).getD (0, 0)).2)
noncomputable def collected (send recv : PMap (ℕ × ℕ)) (w : World) : PMap (ℕ × ℕ) :=
  send.foldl (fun a e => PMap.insert a e.1 (pick recv w e.1 e.2)) []
theorem collected_spec (send recv : PMap (ℕ × ℕ)) (w : World) (hk : PMap.Keys send)
    (hr : ∀ p, (PMap.get? send p).isSome → (PMap.get? recv p).isSome) : Snapshot send recv w (collected send recv w) := by
  intro p
  unfold collected
  rw [PMap.get?_collect send (pick recv w) [] p hk]
  cases h : PMap.get? send p with
  | none => simp [PMap.get?_nil]
  | some v =>
    obtain ⟨x, hx⟩ := Option.isSome_iff_exists.1 (hr p (by rw [h]; rfl))
    simp [hx, pick]
theorem partner (send recv : PMap (ℕ × ℕ)) (hk : PMap.Keys send)
    (hr : ∀ p, (PMap.get? send p).isSome → (PMap.get? recv p).isSome) (e : ℕ × ℕ × ℕ) (he : e ∈ send) : ∃ x, PMap.get? recv e.1 = some x :=
  Option.isSome_iff_exists.1 (hr e.1 (by rw [PMap.get?_mem send e.1 e.2 hk (by simpa using he)]; rfl))

theorem local_stats_spec (self : LocalNetwork) (w : World) (hk : PMap.Keys self.send)
    (hr : ∀ p, (PMap.get? self.send p).isSome → (PMap.get? self.recv p).isSome) :
    ∃ s, local_stats self w = (.ok s, w) ∧ s.my_id = self.id_ ∧ Snapshot self.send self.recv w s.stats := by
  unfold local_stats
  refine ⟨⟨self.id_, collected self.send self.recv w⟩, ?_, rfl, collected_spec _ _ _ hk hr⟩
  try rw [run_bind]
  rw [foldlM_reads self.send _ (fun a e => PMap.insert a e.1 (pick self.recv w e.1 e.2)) w []]
  · first | rfl | simp [collected, stats_new]
  · intro s e he
    obtain ⟨x, hx⟩ := partner _ _ hk hr e he
    simp [hx, pick]

theorem blocking_stats_spec (self : BlockingChannels) (my_id : ℕ) (w : World) (hk : PMap.Keys self.send)
    (hr : ∀ p, (PMap.get? self.send p).isSome → (PMap.get? self.recv p).isSome) :
    ∃ s, blocking_stats self my_id w = (.ok s, w) ∧ s.my_id = my_id ∧ Snapshot self.send self.recv w s.stats := by
  unfold blocking_stats
  refine ⟨⟨my_id, collected self.send self.recv w⟩, ?_, rfl, collected_spec _ _ _ hk hr⟩
  try rw [run_bind]
  rw [foldlM_reads self.send _ (fun a e => PMap.insert a e.1 (pick self.recv w e.1 e.2)) w []]
  · first | rfl | simp [collected, stats_new]
  · intro s e he
    obtain ⟨x, hx⟩ := partner _ _ hk hr e he
    simp [hx, pick]

theorem async_stats_spec (self : AsyncChannels) (my_id : ℕ) (w : World) (hk : PMap.Keys self.send)
    (hr : ∀ p, (PMap.get? self.send p).isSome → (PMap.get? self.recv p).isSome) :
    ∃ s, async_stats self my_id w = (.ok s, w) ∧ s.my_id = my_id ∧ Snapshot self.send self.recv w s.stats := by
  unfold async_stats
  refine ⟨⟨my_id, collected self.send self.recv w⟩, ?_, rfl, collected_spec _ _ _ hk hr⟩
  try rw [run_bind]
  rw [foldlM_reads self.send _ (fun a e => PMap.insert a e.1 (pick self.recv w e.1 e.2)) w []]
  · first | rfl | simp [collected, stats_new]
  · intro s e he
    obtain ⟨x, hx⟩ := partner _ _ hk hr e he
    simp [hx, pick]

/-- looking a party up in a snapshot -/
theorem stats_get_spec (s : ConnectionStats) (p : ℕ) : stats_get s p = PMap.get? s.stats p := rfl

/-- the difference to an earlier snapshot, for every party of the later one -/
def lessBy (earlier : PMap (ℕ × ℕ)) (p : ℕ) (v : ℕ × ℕ) : ℕ × ℕ :=
  match PMap.get? earlier p with | none => v | some x => (v.1 - x.1, v.2 - x.2)
theorem get_diff_spec (later earlier : ConnectionStats) (w : World) (hk : PMap.Keys later.stats)
    (hm : ∀ p a b, PMap.get? later.stats p = some a → PMap.get? earlier.stats p = some b → b.1 ≤ a.1 ∧ b.2 ≤ a.2) :
    ∃ d, get_diff_to later earlier w = (.ok d, w) ∧ ∀ p, PMap.get? d p = (PMap.get? later.stats p).map (lessBy earlier.stats p) := by
  refine ⟨later.stats.foldl (fun a e => PMap.insert a e.1 (lessBy earlier.stats e.1 e.2)) [], ?_, ?_⟩
  · unfold get_diff_to
    try rw [run_bind]
    rw [foldlM_reads later.stats _ (fun a e => PMap.insert a e.1 (lessBy earlier.stats e.1 e.2)) w []]
    · intro s e he
      have hp := PMap.get?_mem later.stats e.1 e.2 hk (by simpa using he)
      cases h : PMap.get? earlier.stats e.1 with
      | none => simp [h, lessBy]
      | some x =>
        have := hm e.1 e.2 x hp h
        simp [h, rsub, PSub.psub, this.1, this.2, lessBy]
  · intro p
    rw [PMap.get?_collect later.stats (lessBy earlier.stats) [] p hk]
    cases h : PMap.get? later.stats p <;> simp [PMap.get?_nil]

/-! ### Any history of one party -/

/-- bytes in a queue's log -/
def bytes (l : List Bytes) : ℕ := (l.map List.length).sum

/-- the counters of one party agree with what went through its queues -/
structure Exact (send recv : PMap (ℕ × ℕ)) (w : World) : Prop where
  out : ∀ p c k, PMap.get? send p = some (c, k) → w.counter k = bytes (w.put c)
  inn : ∀ p c k, PMap.get? recv p = some (c, k) → w.counter k = bytes (w.got c)

/-- no counter serves two purposes, no queue two peers -/
structure Separate (send recv : PMap (ℕ × ℕ)) : Prop where
  ss : ∀ p q c k c' k', PMap.get? send p = some (c, k) → PMap.get? send q = some (c', k') → p ≠ q → c ≠ c' ∧ k ≠ k'
  rr : ∀ p q c k c' k', PMap.get? recv p = some (c, k) → PMap.get? recv q = some (c', k') → p ≠ q → c ≠ c' ∧ k ≠ k'
  sr : ∀ p q c k c' k', PMap.get? send p = some (c, k) → PMap.get? recv q = some (c', k') → k ≠ k'

theorem bytes_append (l : List Bytes) (b : Bytes) : bytes (l ++ [b]) = bytes l + b.length := by simp [bytes]

theorem sent_exact (send recv : PMap (ℕ × ℕ)) (hs : Separate send recv) (p : ℕ) (data : Bytes) (w : World) (h : Exact send recv w) :
    Exact send recv (sent O (PMap.get? send p) data w).2 := by
  unfold sent
  cases hp : PMap.get? send p with
  | none => exact h
  | some e =>
    obtain ⟨c, k⟩ := e
    by_cases ho : O.ok w.clock
    · simp only [ho, if_true]
      constructor
      · intro q c' k' hq
        by_cases e : q = p
        · subst e
          rw [hp] at hq
          obtain ⟨rfl, rfl⟩ : c = c' ∧ k = k' := by simpa using hq
          simp only [upd_same, bytes_append, h.out _ _ _ hp]
        · have := hs.ss q p c' k' c k hq hp e
          simp only [upd_ne _ _ _ _ this.1, upd_ne _ _ _ _ this.2]
          exact h.out _ _ _ hq
      · intro q c' k' hq
        have := hs.sr p q c k c' k' hp hq
        simp only [upd_ne _ _ _ _ (Ne.symm this)]
        exact h.inn _ _ _ hq
    · simp only [ho, if_false]
      exact ⟨h.out, h.inn⟩

theorem received_exact (send recv : PMap (ℕ × ℕ)) (hs : Separate send recv) (p : ℕ) (w : World) (h : Exact send recv w) :
    Exact send recv (received O (PMap.get? recv p) w).2 := by
  unfold received
  cases hp : PMap.get? recv p with
  | none => exact h
  | some e =>
    obtain ⟨c, k⟩ := e
    by_cases ho : O.ok w.clock
    · simp only [ho, if_true]
      constructor
      · intro q c' k' hq
        have := hs.sr q p c' k' c k hq hp
        simp only [upd_ne _ _ _ _ this]
        exact h.out _ _ _ hq
      · intro q c' k' hq
        by_cases e : q = p
        · subst e
          rw [hp] at hq
          obtain ⟨rfl, rfl⟩ : c = c' ∧ k = k' := by simpa using hq
          simp only [upd_same, bytes_append, h.inn _ _ _ hp]
        · have := hs.rr q p c' k' c k hq hp e
          simp only [upd_ne _ _ _ _ this.1, upd_ne _ _ _ _ this.2]
          exact h.inn _ _ _ hq
    · simp only [ho, if_false]
      exact ⟨h.out, h.inn⟩

inductive Op
  | send (to_ : ℕ) (data : Bytes)
  | recv (from_ : ℕ)

/-- one operation of a party; its outcome, good or bad, is the caller's business -/
noncomputable def localStep (self : LocalNetwork) (w : World) : Op → World
  | .send t d => (local_send O self t d w).2
  | .recv f => (local_recv O self f w).2
noncomputable def blockingStep (self : BlockingChannels) (w : World) : Op → World
  | .send t d => (blocking_send O self t d w).2
  | .recv f => (blocking_recv O self f w).2

/-- after any history the statistics are the bytes that went into and came out of the queues -/
theorem local_history (self : LocalNetwork) (hk : PMap.Keys self.send)
    (hr : ∀ p, (PMap.get? self.send p).isSome → (PMap.get? self.recv p).isSome) (hs : Separate self.send self.recv)
    (w : World) (h : Exact self.send self.recv w) (ops : List Op) :
    let w' := ops.foldl (localStep O self) w
    ∃ s, local_stats self w' = (.ok s, w') ∧ ∀ p c k c' r, PMap.get? self.send p = some (c, k) → PMap.get? self.recv p = some (c', r) →
      stats_get s p = some (bytes (w'.put c), bytes (w'.got c')) := by
  intro w'
  have h' : Exact self.send self.recv w' := by
    show Exact _ _ (ops.foldl (localStep O self) w)
    induction ops generalizing w with
    | nil => exact h
    | cons o ops ih =>
      refine ih (localStep O self w o) ?_
      cases o with
      | send t d => simp only [localStep, local_send_spec]; exact sent_exact O _ _ hs t d w h
      | recv f => simp only [localStep, local_recv_spec]; exact received_exact O _ _ hs f w h
  obtain ⟨s, e, _, hsn⟩ := local_stats_spec self w' hk hr
  refine ⟨s, e, ?_⟩
  intro p c k c' r h1 h2
  rw [stats_get_spec, hsn p, h1, h2]
  simp only [h'.out _ _ _ h1, h'.inn _ _ _ h2]

theorem blocking_history (self : BlockingChannels) (id_ : ℕ) (hk : PMap.Keys self.send)
    (hr : ∀ p, (PMap.get? self.send p).isSome → (PMap.get? self.recv p).isSome) (hs : Separate self.send self.recv)
    (w : World) (h : Exact self.send self.recv w) (ops : List Op) :
    let w' := ops.foldl (blockingStep O self) w
    ∃ s, blocking_stats self id_ w' = (.ok s, w') ∧ ∀ p c k c' r, PMap.get? self.send p = some (c, k) → PMap.get? self.recv p = some (c', r) →
      stats_get s p = some (bytes (w'.put c), bytes (w'.got c')) := by
  intro w'
  have h' : Exact self.send self.recv w' := by
    show Exact _ _ (ops.foldl (blockingStep O self) w)
    induction ops generalizing w with
    | nil => exact h
    | cons o ops ih =>
      refine ih (blockingStep O self w o) ?_
      cases o with
      | send t d =>
        simp only [blockingStep, blocking_send_spec]
        split
        · exact h
        · exact sent_exact O _ _ hs t d w h
      | recv f => simp only [blockingStep, blocking_recv_spec]; exact received_exact O _ _ hs f w h
  obtain ⟨s, e, _, hsn⟩ := blocking_stats_spec self id_ w' hk hr
  refine ⟨s, e, ?_⟩
  intro p c k c' r h1 h2
  rw [stats_get_spec, hsn p, h1, h2]
  simp only [h'.out _ _ _ h1, h'.inn _ _ _ h2]

end Rs.Chan.C15
