import RsPrelude
import Chan
set_option linter.all false
set_option autoImplicit false
open Rs

/-! Reasoning about programs that act on the transports' world. -/
namespace Rs.Chan

/-- `x` run in `w` succeeds, with a value and a world in `Q` -/
def Ok {α : Type} (x : M α) (w : World) (Q : α → World → Prop) : Prop := ∃ a w', x w = (.ok a, w') ∧ Q a w'

theorem run_pure {α : Type} (a : α) (w : World) : (pure a : M α) w = (.ok a, w) := rfl
theorem run_throw {α : Type} (e : Err) (w : World) : (throw e : M α) w = (.error e, w) := rfl
theorem run_bind {α β : Type} (x : M α) (f : α → M β) (w : World) :
    (x >>= f) w = match x w with | (.ok a, w') => f a w' | (.error e, w') => (.error e, w') := by
  show (ExceptT.bind x f : M β) w = _
  simp only [ExceptT.bind, ExceptT.mk, bind, StateT.bind]
  cases h : x w with
  | mk r w' => cases r <;> simp_all [ExceptT.bindCont, pure, StateT.pure]
theorem run_map {α β : Type} (f : α → β) (x : M α) (w : World) :
    (f <$> x) w = match x w with | (.ok a, w') => (.ok (f a), w') | (.error e, w') => (.error e, w') := by
  rw [← bind_pure_comp, run_bind]; cases h : x w with
  | mk r w' => cases r <;> rfl
theorem run_lift {α : Type} (x : Except Err α) (w : World) : (liftM x : M α) w = (x, w) := rfl
theorem run_lift' {α : Type} (x : Except Err α) (w : World) : (MonadLiftT.monadLift x : M α) w = (x, w) := rfl
theorem run_lift'' {α : Type} (x : Except Err α) (w : World) : (MonadLift.monadLift x : M α) w = (x, w) := rfl

theorem Ok.bind {α β : Type} {x : M α} {f : α → M β} {w : World} {P : α → World → Prop} {Q : β → World → Prop}
    (h : Ok x w P) (k : ∀ a w', P a w' → Ok (f a) w' Q) : Ok (x >>= f) w Q := by
  obtain ⟨a, w', e, p⟩ := h
  obtain ⟨b, w'', e', q⟩ := k a w' p
  exact ⟨b, w'', by rw [run_bind, e]; exact e', q⟩
theorem Ok.pure {α : Type} {a : α} {w : World} {Q : α → World → Prop} (h : Q a w) : Ok (pure a : M α) w Q := ⟨a, w, rfl, h⟩
theorem Ok.mono {α : Type} {x : M α} {w : World} {P Q : α → World → Prop} (h : Ok x w P) (k : ∀ a w, P a w → Q a w) : Ok x w Q := by
  obtain ⟨a, w', e, p⟩ := h; exact ⟨a, w', e, k _ _ p⟩

/-- a loop over a range with an invariant -/
theorem Ok.range {σ : Type} (n : ℕ) (f : σ → ℕ → M σ) (I : ℕ → σ → World → Prop) (s : σ) (w : World) (h0 : I 0 s w)
    (step : ∀ i s w, i < n → I i s w → Ok (f s i) w (I (i + 1))) : Ok (List.foldlM f s (List.range n)) w (I n) := by
  have key : ∀ k, k ≤ n → ∀ s w, I (n - k) s w → Ok (List.foldlM f s (List.range' (n - k) k)) w (I n) := by
    intro k
    induction k with
    | zero => intro _ s w h; exact Ok.pure (by simpa using h)
    | succ k ih =>
      intro hk s w h
      rw [List.range'_succ, List.foldlM_cons]
      refine Ok.bind (step (n - (k + 1)) s w (by omega) h) ?_
      intro s' w' h'
      have e : n - (k + 1) + 1 = n - k := by omega
      rw [e] at h' ⊢
      exact ih (by omega) s' w' h'
  have := key n (le_refl n) s w (by simpa using h0)
  simpa [List.range_eq_range'] using this

/-- a loop that leaves the world alone and cannot fail computes what it computes without the world -/
theorem foldlM_reads {σ α : Type} (l : List α) (f : σ → α → M σ) (g : σ → α → σ) (w : World) (s : σ)
    (h : ∀ s, ∀ a ∈ l, f s a w = (.ok (g s a), w)) : (List.foldlM f s l : M σ) w = (.ok (l.foldl g s), w) := by
  induction l generalizing s with
  | nil => rfl
  | cons a l ih =>
    rw [List.foldlM_cons, run_bind, h s a (by simp)]
    exact ih (g s a) (fun s a m => h s a (by simp [m]))

theorem PMap.get?_insert {V : Type} (m : PMap V) (k k' : ℕ) (v : V) : PMap.get? (PMap.insert m k v) k' = if k = k' then some v else PMap.get? m k' := by
  by_cases h : k = k'
  · simp [PMap.get?, PMap.insert, h]
  · simp only [PMap.get?, PMap.insert, h, if_false]
    rw [List.find?_cons_of_neg (by simpa using h)]
    congr 1
    induction m with
    | nil => rfl
    | cons e m ih =>
      by_cases h1 : e.1 = k
      · rw [List.filter_cons_of_neg (by simpa using h1), ih, List.find?_cons_of_neg (by simp [h1, h])]
      · rw [List.filter_cons_of_pos (by simpa using h1)]
        by_cases h2 : e.1 = k'
        · rw [List.find?_cons_of_pos (by simpa using h2), List.find?_cons_of_pos (by simpa using h2)]
        · rw [List.find?_cons_of_neg (by simpa using h2), List.find?_cons_of_neg (by simpa using h2), ih]
theorem PMap.get?_nil {V : Type} (k : ℕ) : PMap.get? ([] : PMap V) k = none := rfl

/-- the keys of a map are distinct -/
def PMap.Keys {V : Type} (m : PMap V) : Prop := (m.map Prod.fst).Nodup
theorem PMap.keys_insert {V : Type} (m : PMap V) (k : ℕ) (v : V) (h : PMap.Keys m) : PMap.Keys (PMap.insert m k v) := by
  unfold PMap.Keys PMap.insert at *
  simp only [List.map_cons, List.nodup_cons]
  constructor
  · simp
  · exact h.sublist (List.Sublist.map _ List.filter_sublist)
theorem PMap.keys_nil {V : Type} : PMap.Keys ([] : PMap V) := List.nodup_nil
theorem PMap.get?_cons {V : Type} (e : ℕ × V) (m : PMap V) (k : ℕ) : PMap.get? (e :: m) k = if e.1 = k then some e.2 else PMap.get? m k := by
  by_cases h : e.1 = k
  · simp [PMap.get?, h]
  · simp [PMap.get?, h]
theorem PMap.get?_none {V : Type} (m : PMap V) (k : ℕ) : PMap.get? m k = none ↔ k ∉ m.map Prod.fst := by
  induction m with
  | nil => simp [PMap.get?]
  | cons e m ih =>
    rw [PMap.get?_cons]
    by_cases h : e.1 = k
    · simp [h]
    · rw [if_neg h, ih]; simp [Ne.symm h]
theorem PMap.get?_mem {V : Type} (m : PMap V) (k : ℕ) (v : V) (hk : PMap.Keys m) (h : (k, v) ∈ m) : PMap.get? m k = some v := by
  induction m with
  | nil => simp at h
  | cons e m ih =>
    rw [PMap.get?_cons]
    unfold PMap.Keys at hk
    simp only [List.map_cons, List.nodup_cons] at hk
    rcases List.mem_cons.1 h with h | h
    · subst h; simp
    · have : e.1 ≠ k := fun c => hk.1 (List.mem_map.2 ⟨(k, v), h, c.symm⟩)
      rw [if_neg this]; exact ih hk.2 h
/-- building a map by visiting another one's entries -/
theorem PMap.get?_collect {V W : Type} (m : PMap V) (g : ℕ → V → W) (acc : PMap W) (k : ℕ) (hk : PMap.Keys m) :
    PMap.get? (m.foldl (fun a e => PMap.insert a e.1 (g e.1 e.2)) acc) k = (match PMap.get? m k with | some v => some (g k v) | none => PMap.get? acc k) := by
  induction m generalizing acc with
  | nil => rfl
  | cons e m ih =>
    unfold PMap.Keys at hk
    simp only [List.map_cons, List.nodup_cons] at hk
    rw [List.foldl_cons, ih _ hk.2, PMap.get?_cons]
    by_cases h : e.1 = k
    · have : PMap.get? m k = none := (PMap.get?_none m k).2 (h ▸ hk.1)
      rw [this, if_pos h, PMap.get?_insert, if_pos h, ← h]
    · rw [if_neg h, PMap.get?_insert, if_neg h]

theorem upd_same {α : Type} (f : ℕ → α) (k : ℕ) (v : α) : upd f k v k = v := by simp [upd]
theorem upd_ne {α : Type} (f : ℕ → α) (k j : ℕ) (v : α) (h : j ≠ k) : upd f k v j = f j := by simp [upd, h]

end Rs.Chan
