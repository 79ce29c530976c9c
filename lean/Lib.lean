import RsPrelude
set_option linter.all false
set_option autoImplicit false
namespace Rs
variable {α β : Type}

/-- loop over `0..n` -/
theorem foldlM_range_inv (n : ℕ) (f : β → ℕ → M β) (b : β) (Inv : ℕ → β → Prop) (h0 : Inv 0 b)
    (hs : ∀ i, i < n → ∀ st, Inv i st → Ens (f st i) (Inv (i + 1))) : Ens ((List.range n).foldlM f b) (Inv n) := by
  have h := foldlM_inv (List.range n) f b (fun pre st => Inv pre.length st) h0 ?_
  · simpa using h
  · intro pre a st hp hi
    have ha : a = pre.length := by
      obtain ⟨t, e⟩ := hp
      have := congrArg (fun l => l[pre.length]?) e
      beta_reduce at this
      rw [List.getElem?_append_left (by simp), List.getElem?_append_right (by simp)] at this
      simp at this
      by_cases hh : pre.length < n
      · rw [List.getElem?_range hh] at this; exact Option.some.inj this
      · rw [List.getElem?_eq_none (by simpa using hh)] at this; simp at this
    have hlt : a < n := by
      have : a ∈ List.range n := hp.subset (by simp)
      simpa using this
    subst ha
    simpa using hs _ hlt st hi

theorem rrange_eq (a b : ℕ) : rrange a b = (List.range (b - a)).map (fun i => a + i) := by
  unfold rrange; rw [List.range'_eq_map_range]

/-- loop over `a..b` -/
theorem foldlM_rrange_inv (a b : ℕ) (hab : a ≤ b) (f : β → ℕ → M β) (s : β) (Inv : ℕ → β → Prop) (h0 : Inv a s)
    (hs : ∀ i, a ≤ i → i < b → ∀ st, Inv i st → Ens (f st i) (Inv (i + 1))) : Ens ((rrange a b).foldlM f s) (Inv b) := by
  rw [rrange_eq, List.foldlM_map]
  have := foldlM_range_inv (b - a) (fun st i => f st (a + i)) s (fun i st => Inv (a + i) st) h0 (fun i hi st h => hs (a + i) (by omega) (by omega) st h)
  simpa [Nat.add_sub_cancel' hab] using this

theorem idx_eq_ok {l : List α} {i : ℕ} {v : α} (h : l[i]? = some v) : idx l i = .ok v := by simp [idx, h]

theorem Ens.ok {a : α} {p : α → Prop} (h : p a) : Ens (.ok a : M α) p := ⟨a, rfl, h⟩
theorem Ens.eq {x : M α} {v : α} (h : Ens x (· = v)) : x = .ok v := by obtain ⟨r, e, rfl⟩ := h; exact e
end Rs
