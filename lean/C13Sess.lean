import RsPrelude
import Sess
import SessMap
set_option linter.all false
set_option autoImplicit false
open Rs

/-! C13, the sessions' side: an accepted connection is handed to the session and party its header names. -/
namespace Rs.Sess.C13
open Rs.Sess.Map
variable (O : Outside)

theorem run_pure {α : Type} (a : α) (w : World) : (pure a : M α) w = (.ok a, w) := rfl
theorem run_throw {α : Type} (e : Err) (w : World) : (throw e : M α) w = (.error e, w) := rfl
theorem run_bind {α β : Type} (x : M α) (f : α → M β) (w : World) :
    (x >>= f) w = match x w with | (.ok a, w') => f a w' | (.error e, w') => (.error e, w') := by
  show (ExceptT.bind x f : M β) w = _
  simp only [ExceptT.bind, ExceptT.mk, bind, StateT.bind]
  cases h : x w with
  | mk r w' => cases r <;> simp_all [ExceptT.bindCont, pure, StateT.pure]
theorem run_map {α β : Type} (f : α → β) (x : M α) (w : World) :
    (f <$> x) w = match x w with | (.ok a, w') => (.ok (f a), w') | (.error e, w') => (.error e, w') := by
  rw [← bind_pure_comp, run_bind]; cases h : x w with
  | mk r w' => cases r <;> rfl
theorem run_lift {α : Type} (x : Except Err α) (w : World) : (liftM x : M α) w = (x, w) := rfl
theorem run_lift' {α : Type} (x : Except Err α) (w : World) : (MonadLiftT.monadLift x : M α) w = (x, w) := rfl
theorem run_lift'' {α : Type} (x : Except Err α) (w : World) : (MonadLift.monadLift x : M α) w = (x, w) := rfl

attribute [local simp] run_pure run_throw run_bind run_map run_lift run_lift' run_lift'' unwrap

/-- what the connecting party wrote first: session and party -/
def key (s : TcpStream) : Key :=
  ((s.pending.take 16).foldl (fun a b => 256 * a + b) 0, ((s.pending.drop 16).take 8).foldl (fun a b => 256 * a + b) 0)

/-- `own`: whom a waiter's queue is for; `hdr`: what a connection announced.  Everything in the map and in the queues is
where it was announced to. -/
structure Inv (own hdr : ℕ → Key) (w : World) : Prop where
  stored : ∀ k s t, w.map k = some (.TcpStream s, t) → hdr s.ident = k
  waits : ∀ k c t, w.map k = some (.Waiter c, t) → own c = k ∧ c < w.fresh
  queued : ∀ c, c < w.fresh → ∀ s ∈ w.queue c, hdr s.ident = own c

/-- a step that keeps the invariant and the meaning of the queues there are -/
def Keeps (own hdr : ℕ → Key) (w w' : World) : Prop :=
  ∃ own', Inv own' hdr w' ∧ w.fresh ≤ w'.fresh ∧ ∀ c < w.fresh, own' c = own c

theorem Keeps.refl {own hdr : ℕ → Key} {w : World} (h : Inv own hdr w) : Keeps own hdr w w := ⟨own, h, le_refl _, fun _ _ => rfl⟩

/-- taking an entry out, and putting one in that belongs there -/
theorem Inv.remove {own hdr : ℕ → Key} {w : World} (h : Inv own hdr w) (k : Key) : Inv own hdr { w with map := upd w.map k none } := by
  constructor
  · intro k' s t e
    by_cases hk : k' = k
    · simp [upd, hk] at e
    · simp only [upd, hk, if_false] at e; exact h.stored k' s t e
  · intro k' c t e
    by_cases hk : k' = k
    · simp [upd, hk] at e
    · simp only [upd, hk, if_false] at e; exact h.waits k' c t e
  · exact h.queued
theorem Inv.store {own hdr : ℕ → Key} {w : World} (h : Inv own hdr w) (k : Key) (s : TcpStream) (t : ℕ) (hs : hdr s.ident = k) :
    Inv own hdr { w with map := upd w.map k (some (.TcpStream s, t)) } := by
  constructor
  · intro k' s' t' e
    by_cases hk : k' = k
    · simp only [upd, hk, if_true, Option.some.injEq, Prod.mk.injEq, MaybeTcpStream.TcpStream.injEq] at e
      rw [← e.1, hk]; exact hs
    · simp only [upd, hk, if_false] at e; exact h.stored k' s' t' e
  · intro k' c t' e
    by_cases hk : k' = k
    · simp [upd, hk] at e
    · simp only [upd, hk, if_false] at e; exact h.waits k' c t' e
  · exact h.queued
theorem Inv.push {own hdr : ℕ → Key} {w : World} (h : Inv own hdr w) (c : ℕ) (s : TcpStream) (hs : hdr s.ident = own c) :
    Inv own hdr { w with queue := upd w.queue c (w.queue c ++ [s]) } := by
  refine ⟨h.stored, h.waits, ?_⟩
  intro c' hc' s' hm
  by_cases e : c' = c
  · subst e
    simp only [upd, if_true, List.mem_append, List.mem_singleton] at hm
    rcases hm with hm | hm
    · exact h.queued c' hc' s' hm
    · rw [hm]; exact hs
  · simp only [upd, e, if_false] at hm; exact h.queued c' hc' s' hm
theorem Inv.tick {own hdr : ℕ → Key} {w : World} (h : Inv own hdr w) (n : ℕ) : Inv own hdr { w with clock := n } := ⟨h.stored, h.waits, h.queued⟩

/-- the accept loop: whatever comes in, and however the socket fails, the connection ends up where it belongs or nowhere -/
theorem insert_spec (self : TcpStreams) (stream : TcpStream) (own hdr : ℕ → Key) (w : World) (h : Inv own hdr w)
    (hs : 24 ≤ stream.pending.length → hdr stream.ident = key stream) : Keeps own hdr w (streams_insert O self stream w).2 := by
  have opt : ∀ (s : TcpStream) (n : ℕ) (w : World), ∃ r, sockopt O s n w = (r, { w with clock := w.clock + 1 }) := by
    intro s n w; unfold sockopt; split <;> exact ⟨_, rfl⟩
  have keep : ∀ n, Keeps own hdr w { w with clock := n } := fun n => ⟨own, h.tick n, le_refl _, fun _ _ => rfl⟩
  unfold streams_insert
  simp only [run_bind]
  obtain ⟨r1, e1⟩ := opt stream 0 w
  rw [e1]; cases r1 with
  | error e => exact keep _
  | ok _ =>
  simp only []
  obtain ⟨r2, e2⟩ := opt stream 0 { w with clock := w.clock + 1 }
  rw [e2]; cases r2 with
  | error e => exact keep _
  | ok _ =>
  simp only []
  obtain ⟨r3, e3⟩ := opt stream 0 { w with clock := w.clock + 1 + 1 }
  rw [e3]; cases r3 with
  | error e => exact keep _
  | ok _ =>
  simp only [readBE]
  by_cases h1 : 16 ≤ stream.pending.length
  swap
  · rw [if_neg h1]; exact keep _
  rw [if_pos h1]
  simp only [List.length_drop]
  by_cases h2 : 8 ≤ stream.pending.length - 16
  swap
  · rw [if_neg h2]; exact keep _
  rw [if_pos h2]
  simp only []
  have hk := hs (by omega)
  set st : TcpStream := { ident := stream.ident, pending := List.drop 8 (List.drop 16 stream.pending) } with hst
  have hid : hdr st.ident = key stream := hk
  obtain ⟨r4, e4⟩ := opt st 0 { w with clock := w.clock + 1 + 1 + 1 }
  rw [e4]; cases r4 with
  | error e => exact keep _
  | ok _ =>
  simp only [unwrap, run_pure, run_lift, run_lift', run_lift'', mapRemove]
  have hw := (h.tick (w.clock + 1 + 1 + 1 + 1))
  have hrem := hw.remove (key stream)
  have store : Keeps own hdr w { w with clock := w.clock + 1 + 1 + 1 + 1, map := upd (upd w.map (key stream) none) (key stream) (some (.TcpStream st, 0)) } :=
    ⟨own, hrem.store (key stream) st 0 hid, le_refl _, fun _ _ => rfl⟩
  generalize hm : w.map _ = entry
  rcases entry with _ | ⟨⟨s'⟩ | ⟨tx⟩, t⟩
  · exact store
  · exact store
  · have hown := (h.waits _ _ _ hm).1
    have pushed : Keeps own hdr w { w with clock := w.clock + 1 + 1 + 1 + 1 + 1, map := upd w.map (key stream) none, queue := upd w.queue tx (w.queue tx ++ [st]) } :=
      ⟨own, (hrem.push tx st (by rw [hid, hown]; rfl)).tick _, le_refl _, fun _ _ => rfl⟩
    have dropped : Keeps own hdr w { w with clock := w.clock + 1 + 1 + 1 + 1 + 1, map := upd w.map (key stream) none } :=
      ⟨own, hrem.tick _, le_refl _, fun _ _ => rfl⟩
    have hsend : ∀ v : World, ∃ r, isErr (sendQ O tx st) v = (.ok r, { v with clock := v.clock + 1, queue := upd v.queue tx (v.queue tx ++ [st]) })
        ∨ isErr (sendQ O tx st) v = (.ok r, { v with clock := v.clock + 1 }) := by
      intro v
      by_cases hv : O.ok v.clock = true
      · exact ⟨false, Or.inl (by simp only [isErr, sendQ, if_pos hv])⟩
      · exact ⟨true, Or.inr (by simp only [isErr, sendQ, if_neg hv])⟩
    simp only [run_bind]
    obtain ⟨r, hr | hr⟩ := hsend _
    · rw [hr]; exact pushed
    · rw [hr]; exact dropped

/-- a session's side: whatever the outside does meanwhile within the rules, the connection handed out is the one announced for
this session and party (or an error), and everything stays where it belongs -/
theorem get_spec (self : TcpStreams) (session party : ℕ) (timeout : Option ℕ) (hdr : ℕ → Key)
    (hrely : ∀ own w, Inv own hdr w → Keeps own hdr w (O.env w)) (own : ℕ → Key) (w : World) (h : Inv own hdr w) :
    (∃ own', Inv own' hdr (streams_get O self session party timeout w).2) ∧
    ∀ s, (streams_get O self session party timeout w).1 = .ok s → hdr s.ident = (session, party) := by
  have wait : ∀ (own : ℕ → Key) (w : World), Inv own hdr w →
      let o := (do let t ← newChan 1
                   let _ ← mapInsert self.streams (session, party) (MaybeTcpStream.Waiter t.1, 0)
                   recvQ O t.2) w
      (∃ own', Inv own' hdr o.2) ∧ ∀ s, o.1 = .ok s → hdr s.ident = (session, party) := by
    intro own w h
    simp only [run_bind, newChan, mapInsert, recvQ]
    set v : World := { w with map := upd w.map (session, party) (some (.Waiter w.fresh, 0)), queue := upd w.queue w.fresh [], fresh := w.fresh + 1 } with hv
    have hinv : Inv (upd own w.fresh (session, party)) hdr v := by
      constructor
      · intro k s t e
        by_cases hk : k = (session, party)
        · simp [hv, upd, hk] at e
        · simp only [hv, upd, hk, if_false] at e; exact h.stored k s t e
      · intro k c t e
        by_cases hk : k = (session, party)
        · simp only [hv, upd, hk, if_true, Option.some.injEq, Prod.mk.injEq, MaybeTcpStream.Waiter.injEq] at e
          simp [hv, upd, ← e.1, hk]
        · simp only [hv, upd, hk, if_false] at e
          obtain ⟨a, b⟩ := h.waits k c t e
          have : c ≠ w.fresh := by omega
          simp only [upd, this, if_false, hv]; exact ⟨a, by omega⟩
      · intro c hc s hs
        by_cases e : c = w.fresh
        · simp [hv, upd, e] at hs
        · simp only [hv, upd, e, if_false] at hs ⊢
          exact h.queued c (by simp only [hv] at hc; omega) s hs
    obtain ⟨own', hi, hf, ho⟩ := hrely _ _ hinv
    have hlt : w.fresh < v.fresh := by simp [hv]
    have hown : own' w.fresh = (session, party) := by rw [ho _ hlt]; simp [upd]
    have hq := hi.queued w.fresh (by omega)
    cases hqq : (O.env v).queue w.fresh with
    | nil => exact ⟨⟨own', hi⟩, by intro s hs; simp at hs⟩
    | cons s q =>
      refine ⟨⟨own', hi.stored, hi.waits, ?_⟩, ?_⟩
      · intro c hc s' hs'
        by_cases e : c = w.fresh
        · subst e
          simp only [upd, if_true] at hs'
          exact hi.queued _ hc s' (by rw [hqq]; exact List.mem_cons_of_mem _ hs')
        · simp only [upd, e, if_false] at hs'; exact hi.queued c hc s' hs'
      · intro s' hs'
        injection hs' with hs'
        rw [← hs', hq s (by rw [hqq]; simp), hown]
  have hrem := h.remove (session, party)
  have hwait := wait own _ hrem
  unfold streams_get
  simp only [run_bind, unwrap, run_pure, run_lift, run_lift', run_lift'', mapRemove] at hwait ⊢
  generalize hm : w.map _ = entry
  rcases entry with _ | ⟨⟨s'⟩ | ⟨tx⟩, t⟩
  · cases timeout <;> simpa using hwait
  · refine ⟨⟨own, hrem⟩, ?_⟩
    intro s hs
    injection hs with hs
    rw [← hs]; exact h.stored _ _ _ hm
  · cases timeout <;> simpa using hwait

end Rs.Sess.C13
