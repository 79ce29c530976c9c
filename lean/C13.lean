import RsPrelude
import Chan
import ChanLib
import ChanStats
import ChanLocal
import ChanBlocking
import C15
set_option linter.all false
set_option autoImplicit false
open Rs

/-! C13: every message reaches the addressed party and session, and only it. -/
namespace Rs.Chan.C13
open Rs.Chan.Stats Rs.Chan.Local Rs.Chan.C15

/-- What the parties' queues must be like: from `a` to `b` runs one queue, whose two ends `a`'s map holds under `b` and
`b`'s map under `a`; there is none from a party to itself or to an unknown party; all queues and counters are different
(`role` says what a handle is for), and new. -/
structure Wired (n : ℕ) (s r : List (PMap (ℕ × ℕ))) (role : ℕ → ℕ × ℕ × ℕ) (done : ℕ → ℕ → Prop) (w : World) : Prop where
  ls : s.length = n
  lr : r.length = n
  keys : ∀ a (h : a < s.length), PMap.Keys s[a]
  keyr : ∀ a (h : a < r.length), PMap.Keys r[a]
  no : ∀ a (h : a < s.length) b, ¬ (a ≠ b ∧ b < n ∧ done a b) → PMap.get? s[a] b = none
  nor : ∀ a (h : a < r.length) b, ¬ (a ≠ b ∧ b < n ∧ done b a) → PMap.get? r[a] b = none
  yes : ∀ a b (ha : a < s.length) (hb : b < r.length), a ≠ b → done a b → ∃ c k k',
    PMap.get? s[a] b = some (c, k) ∧ PMap.get? r[b] a = some (c, k') ∧
    role c = (a, b, 0) ∧ role k = (a, b, 1) ∧ role k' = (a, b, 2) ∧ c < w.fresh ∧ k < w.fresh ∧ k' < w.fresh ∧
    w.counter k = 0 ∧ w.counter k' = 0 ∧ w.put c = [] ∧ w.got c = []

theorem idx_ok {α : Type} (l : List α) (i : ℕ) (h : i < l.length) : idx l i = .ok l[i] := by simp [idx, h]
theorem rset_ok {α : Type} (l : List α) (i : ℕ) (v : α) (h : i < l.length) : rset l i v = .ok (l.set i v) := by simp [rset, h]

/-- linking one pair: from the state before to the state after `i` is connected to `j` -/
theorem link (n : ℕ) (s r : List (PMap (ℕ × ℕ))) (role : ℕ → ℕ × ℕ × ℕ) (done done' : ℕ → ℕ → Prop) (w w' : World) (i j c k k' : ℕ)
    (h : Wired n s r role done w) (hi : i < s.length) (hj : j < r.length) (hij : i ≠ j) (hnd : ¬ done i j)
    (hd : ∀ a b, done' a b ↔ done a b ∨ (a = i ∧ b = j))
    (fr : w.fresh ≤ c ∧ w.fresh ≤ k ∧ w.fresh ≤ k' ∧ c < w'.fresh ∧ k < w'.fresh ∧ k' < w'.fresh ∧ c ≠ k ∧ c ≠ k' ∧ k ≠ k')
    (old : ∀ x, x < w.fresh → w'.counter x = w.counter x ∧ w'.put x = w.put x ∧ w'.got x = w.got x)
    (new : w'.counter k = 0 ∧ w'.counter k' = 0 ∧ w'.put c = [] ∧ w'.got c = []) :
    Wired n (s.set i (PMap.insert s[i] j (c, k))) (r.set j (PMap.insert r[j] i (c, k')))
      (fun x => if x = c then (i, j, 0) else if x = k then (i, j, 1) else if x = k' then (i, j, 2) else role x) done' w' := by
  obtain ⟨f1, f2, f3, f4, f5, f6, n1, n2, n3⟩ := fr
  have hff : w.fresh ≤ w'.fresh := by omega
  constructor
  · simp [h.ls]
  · simp [h.lr]
  · intro a ha
    rw [List.getElem_set]
    split
    · subst_vars; exact PMap.keys_insert _ _ _ (h.keys _ _)
    · exact h.keys _ _
  · intro a ha
    rw [List.getElem_set]
    split
    · subst_vars; exact PMap.keys_insert _ _ _ (h.keyr _ _)
    · exact h.keyr _ _
  · intro a ha b hn
    have ha' : a < s.length := by simpa using ha
    rw [List.getElem_set]
    have hn' : ¬ (a ≠ b ∧ b < n ∧ done a b) := fun x => hn ⟨x.1, x.2.1, (hd a b).2 (Or.inl x.2.2)⟩
    split
    · rename_i e
      subst e
      rw [PMap.get?_insert]
      split
      · rename_i e; subst e
        exact absurd ⟨hij, by have := h.lr; omega, (hd i j).2 (Or.inr ⟨rfl, rfl⟩)⟩ hn
      · exact h.no i ha' b hn'
    · exact h.no a ha' b hn'
  · intro a ha b hn
    have ha' : a < r.length := by simpa using ha
    rw [List.getElem_set]
    have hn' : ¬ (a ≠ b ∧ b < n ∧ done b a) := fun x => hn ⟨x.1, x.2.1, (hd b a).2 (Or.inl x.2.2)⟩
    split
    · rename_i e
      subst e
      rw [PMap.get?_insert]
      split
      · rename_i e; subst e
        exact absurd ⟨Ne.symm hij, by have := h.ls; omega, (hd i j).2 (Or.inr ⟨rfl, rfl⟩)⟩ hn
      · exact h.nor j ha' b hn'
    · exact h.nor a ha' b hn'
  · intro a b ha hb hab hdn
    have ha' : a < s.length := by simpa using ha
    have hb' : b < r.length := by simpa using hb
    by_cases e : a = i ∧ b = j
    · obtain ⟨rfl, rfl⟩ := e
      refine ⟨c, k, k', ?_, ?_, ?_, ?_, ?_, f4, f5, f6, new.1, new.2.1, new.2.2.1, new.2.2.2⟩
      · simp [PMap.get?_insert]
      · simp [PMap.get?_insert]
      · simp
      · simp [Ne.symm n1]
      · simp [Ne.symm n2, Ne.symm n3]
    · have hdo : done a b := by
        rcases (hd a b).1 hdn with x | x
        · exact x
        · exact absurd x e
      obtain ⟨c0, k0, k0', g1, g2, r1, r2, r3, l1, l2, l3, z1, z2, z3, z4⟩ := h.yes a b ha' hb' hab hdo
      refine ⟨c0, k0, k0', ?_, ?_, ?_, ?_, ?_, by omega, by omega, by omega, ?_, ?_, ?_, ?_⟩
      · rw [List.getElem_set]
        split
        · rename_i e1; subst e1
          rw [PMap.get?_insert, if_neg (fun x => e ⟨rfl, x.symm⟩)]; exact g1
        · exact g1
      · rw [List.getElem_set]
        split
        · rename_i e1; subst e1
          rw [PMap.get?_insert, if_neg (fun x => e ⟨x.symm, rfl⟩)]; exact g2
        · exact g2
      · simp only [r1]; rw [if_neg (by omega), if_neg (by omega), if_neg (by omega)]
      · simp only [r2]; rw [if_neg (by omega), if_neg (by omega), if_neg (by omega)]
      · simp only [r3]; rw [if_neg (by omega), if_neg (by omega), if_neg (by omega)]
      · rw [(old k0 l2).1]; exact z1
      · rw [(old k0' l3).1]; exact z2
      · rw [(old c0 l1).2.1]; exact z3
      · rw [(old c0 l1).2.2]; exact z4


theorem Wired.weaken (n : ℕ) (s r : List (PMap (ℕ × ℕ))) (role : ℕ → ℕ × ℕ × ℕ) (done done' : ℕ → ℕ → Prop) (w : World)
    (h : Wired n s r role done w) (hd : ∀ a b, a ≠ b → b < n → (done' a b ↔ done a b)) : Wired n s r role done' w := by
  refine ⟨h.ls, h.lr, h.keys, h.keyr, ?_, ?_, ?_⟩
  · intro a ha b hn
    refine h.no a ha b ?_
    rintro ⟨x, y, z⟩
    exact hn ⟨x, y, (hd a b x y).2 z⟩
  · intro a ha b hn
    refine h.nor a ha b ?_
    rintro ⟨x, y, z⟩
    have := h.lr
    exact hn ⟨x, y, (hd b a (Ne.symm x) (by omega)).2 z⟩
  · intro a b ha hb hab hdn
    have := h.lr
    exact h.yes a b ha hb hab ((hd a b hab (by omega)).1 hdn)

theorem renum_zip_len {α β : Type} (a : List α) (b : List β) (h : a.length = b.length) : (renum (List.zip a b)).length = a.length := by
  simp [renum, h]

theorem empties (n : ℕ) : List.foldl (fun (x : List (PMap (ℕ × ℕ)) × List (PMap (ℕ × ℕ))) (_ : ℕ) =>
    match x with | (senders, receivers) => (senders ++ [[]], receivers ++ [[]])) ([], []) (List.range n) =
    (List.replicate n [], List.replicate n []) := by
  induction n with
  | zero => rfl
  | succ n ih => rw [List.range_succ, List.foldl_append, ih]; simp [List.replicate_succ']

/-- the networks of `n` parties: party `i` is the `i`-th, and every pair is linked by its own two queues -/
theorem local_new_spec (n : ℕ) (t : Option ℕ) (w : World) : Ok (local_new n t) w (fun nets w' =>
    nets.length = n ∧ (∀ i (h : i < nets.length), nets[i].id_ = i ∧ nets[i].timeout = t) ∧
    ∃ role, Wired n (nets.map (·.send)) (nets.map (·.recv)) role (fun a _ => a < n) w') := by
  unfold local_new
  dsimp only
  rw [empties]
  refine Ok.bind (P := fun st w' => ∃ role, Wired n st.1 st.2 role (fun a _ => a < n) w') ?_ ?_
  · have := Ok.range n (I := fun i (st : List (PMap (ℕ × ℕ)) × List (PMap (ℕ × ℕ))) w' => ∃ role, Wired n st.1 st.2 role (fun a _ => a < i) w')
      (s := (List.replicate n [], List.replicate n [])) (w := w) (f := ?f) ?_ ?_
    · exact this
    · refine ⟨fun _ => (0, 0, 0), by simp, by simp, ?_, ?_, ?_, ?_, ?_⟩
      · intro a h; simp [PMap.keys_nil]
      · intro a h; simp [PMap.keys_nil]
      · intro a h b _; simp [PMap.get?_nil]
      · intro a h b _; simp [PMap.get?_nil]
      · intro a b _ _ _ h; exact absurd h (Nat.not_lt_zero _)
    · rintro i ⟨s, r⟩ w1 hi ⟨role, h⟩
      dsimp only
      refine Ok.bind (P := fun st w' => ∃ role, Wired n st.1 st.2 role (fun a _ => a < i + 1) w') ?_ ?_
      · refine Ok.mono (Ok.range n _ (fun j (st : List (PMap (ℕ × ℕ)) × List (PMap (ℕ × ℕ))) w' => ∃ role, Wired n st.1 st.2 role (fun a b => a < i ∨ (a = i ∧ b < j)) w')
          (s, r) w1 ?_ ?_) ?_
        · exact ⟨role, h.weaken _ _ _ _ _ _ _ (by intro a b _ hb; constructor <;> intro x <;> omega)⟩
        · rintro j ⟨s, r⟩ w2 hj ⟨role, h⟩
          have hi' : i < s.length := by rw [h.ls]; exact hi
          have hj' : j < r.length := by rw [h.lr]; exact hj
          by_cases hij : i = j
          · subst hij
            refine ⟨(s, r), w2, ?_, role, h.weaken _ _ _ _ _ _ _ (by intro a b hab hb; constructor <;> intro x <;> omega)⟩
            simp [run_bind, run_pure]
          · unfold Ok
            simp only [bne_iff_ne, ne_eq, hij, not_false_eq_true, beq_iff_eq, Bool.not_eq_true', beq_eq_false_iff_ne, if_true, run_bind, run_pure,
              run_lift, run_lift', run_lift'', newChan, newCounter, idx_ok _ _ hi', idx_ok _ _ hj', rset_ok _ _ _ hi', rset_ok _ _ _ hj']
            refine ⟨_, _, rfl, ?_⟩
            · refine ⟨_, link n s r role _ _ w2 _ i j _ _ _ h hi' hj' hij (by omega) (by intro a b; constructor <;> intro x <;> omega) ?_ ?_ ?_⟩
              · dsimp only; omega
              · intro x hx
                have a1 : x ≠ w2.fresh := by omega
                have a2 : x ≠ w2.fresh + 1 := by omega
                have a3 : x ≠ w2.fresh + 1 + 1 := by omega
                simp [upd, a1, a2, a3]
              · simp [upd]
        · rintro st w2 ⟨role, h⟩
          exact ⟨role, h.weaken _ _ _ _ _ _ _ (by intro a b _ hb; constructor <;> intro x <;> omega)⟩
      · rintro st w2 h
        exact Ok.pure h
  · rintro ⟨s, r⟩ w1 ⟨role, h⟩
    refine Ok.pure ?_
    have hl : (List.zip s r).length = n := by simp [h.ls, h.lr]
    have e1 : ∀ (f : ℕ × (PMap (ℕ × ℕ) × PMap (ℕ × ℕ)) → PMap (ℕ × ℕ)), (∀ i a, f (i, a) = a.1) → List.map f (renum (List.zip s r)) = s := by
      intro f hf
      apply List.ext_getElem
      · simp [renum, h.ls, h.lr]
      · intro i h1 h2; simp [renum, hf]
    have e2 : ∀ (f : ℕ × (PMap (ℕ × ℕ) × PMap (ℕ × ℕ)) → PMap (ℕ × ℕ)), (∀ i a, f (i, a) = a.2) → List.map f (renum (List.zip s r)) = r := by
      intro f hf
      apply List.ext_getElem
      · simp [renum, h.ls, h.lr]
      · intro i h1 h2; simp [renum, hf]
    refine ⟨?_, ?_, role, ?_⟩
    · simp [renum, h.ls, h.lr]
    · intro i hi; simp [renum]
    · simp only [List.nil_append, List.map_map]
      rw [e1 _ (fun _ _ => rfl), e2 _ (fun _ _ => rfl)]
      exact h

variable (O : Outside)

/-- A message from `a` to `b` goes into the queue of that pair and a receive by `b` from `a` takes from the same queue;
no other pair's queue has this role, whatever happened before. -/
theorem delivery (n : ℕ) (nets : List LocalNetwork) (role : ℕ → ℕ × ℕ × ℕ) (w : World)
    (h : Wired n (nets.map (·.send)) (nets.map (·.recv)) role (fun a _ => a < n) w) (a b : ℕ) (ha : a < nets.length) (hb : b < nets.length) (hab : a ≠ b) :
    ∃ c k k', role c = (a, b, 0) ∧ role k = (a, b, 1) ∧ role k' = (a, b, 2) ∧
      (∀ d w', local_send O nets[a] b d w' = sent O (some (c, k)) d w') ∧ (∀ w', local_recv O nets[b] a w' = received O (some (c, k')) w') := by
  obtain ⟨c, k, k', g1, g2, r1, r2, r3, _⟩ := h.yes a b (by simpa using ha) (by simpa using hb) hab (by have := h.ls; simp at this; omega)
  simp only [List.getElem_map] at g1 g2
  exact ⟨c, k, k', r1, r2, r3, fun d w' => by rw [local_send_spec, g1], fun w' => by rw [local_recv_spec, g2]⟩

/-- Addressing oneself or an unknown party is an error that changes nothing. -/
theorem stray (n : ℕ) (nets : List LocalNetwork) (role : ℕ → ℕ × ℕ × ℕ) (w : World)
    (h : Wired n (nets.map (·.send)) (nets.map (·.recv)) role (fun a _ => a < n) w) (a b : ℕ) (ha : a < nets.length) (hb : a = b ∨ n ≤ b) :
    (∀ d w', local_send O nets[a] b d w' = (.error .err, w')) ∧ (∀ w', local_recv O nets[a] b w' = (.error .err, w')) := by
  have g1 := h.no a (by simpa using ha) b (by omega)
  have g2 := h.nor a (by simpa using ha) b (by omega)
  simp only [List.getElem_map] at g1 g2
  exact ⟨fun d w' => by rw [local_send_spec, g1]; rfl, fun w' => by rw [local_recv_spec, g2]; rfl⟩

/-- the same for the transports over streams: no queue, no delivery -/
theorem blocking_stray (self : Rs.Chan.Blocking.BlockingChannels) (b : ℕ) (h1 : PMap.get? self.send b = none) (h2 : PMap.get? self.recv b = none) :
    (∀ d w', Rs.Chan.Blocking.blocking_send O self b d w' = (.error .err, w')) ∧ (∀ w', Rs.Chan.Blocking.blocking_recv O self b w' = (.error .err, w')) := by
  refine ⟨fun d w' => ?_, fun w' => by rw [blocking_recv_spec, h2]; rfl⟩
  rw [blocking_send_spec, h1]; split <;> rfl
theorem blocking_delivery (self : Rs.Chan.Blocking.BlockingChannels) (b c k : ℕ) (h1 : PMap.get? self.send b = some (c, k)) (d : Bytes) (hd : d.length ≤ self.max_frame_length) (w : World) :
    Rs.Chan.Blocking.blocking_send O self b d w = sent O (some (c, k)) d w := by
  rw [blocking_send_spec, h1, if_neg (by omega)]

end Rs.Chan.C13
