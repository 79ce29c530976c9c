import CircomTypes
import Lib
import C01
import C17
set_option linter.all false
set_option autoImplicit false
/-! C16: splitting of witnesses and inputs under contract. -/
open Rs Rs.CircomParse Rs.CircomTypes Rs.Shamir Rs.Rep3Share
namespace C16
variable {F : Type} [Field F] [DecidableEq F] {P S : Type} [Inhabited P] [Inhabited S]

/-! ### ordered maps -/
section bmap
variable {V W : Type}
theorem strLt_irrefl (a : Str) : strLt a a = false := by induction a with | nil => rfl | cons x a ih => simp [strLt, ih]
theorem strLt_trans (a b c : Str) (h1 : strLt a b = true) (h2 : strLt b c = true) : strLt a c = true := by
  induction a generalizing b c with
  | nil => cases c with
    | nil => cases b <;> simp [strLt] at h2
    | cons z c => rfl
  | cons x a ih =>
    cases b with
    | nil => simp [strLt] at h1
    | cons y b =>
      cases c with
      | nil => simp [strLt] at h2
      | cons z c =>
        unfold strLt at h1 h2 ⊢
        by_cases e1 : x = y
        · subst e1
          rw [if_pos rfl] at h1
          by_cases e2 : x = z
          · rw [if_pos e2] at h2 ⊢; exact ih b c h1 h2
          · rw [if_neg e2] at h2 ⊢; exact h2
        · rw [if_neg e1] at h1
          by_cases e2 : y = z
          · subst e2; rw [if_neg e1]; exact h1
          · rw [if_neg e2] at h2
            have l := lt_trans (of_decide_eq_true h1) (of_decide_eq_true h2)
            rw [if_neg l.ne]; exact decide_eq_true l
theorem strLt_total (a b : Str) (h : a ≠ b) (h1 : strLt a b = false) : strLt b a = true := by
  induction a generalizing b with
  | nil => cases b with
    | nil => exact absurd rfl h
    | cons y b => simp [strLt] at h1
  | cons x a ih =>
    cases b with
    | nil => rfl
    | cons y b =>
      unfold strLt at h1 ⊢
      by_cases e : x = y
      · subst e; rw [if_pos rfl] at h1 ⊢; exact ih b (fun e => h (by rw [e])) h1
      · rw [if_neg e] at h1; rw [if_neg (Ne.symm e)]
        exact decide_eq_true (lt_of_le_of_ne (not_lt.mp (of_decide_eq_false h1)) (Ne.symm e))

def Sorted (m : BMap V) : Prop := m.Pairwise (fun a b => strLt a.1 b.1 = true)
theorem mem_insert (m : BMap V) (k : Str) (v : V) (e : Str × V) (h : e ∈ BMap.insert m k v) : e = (k, v) ∨ e ∈ m := by
  induction m with
  | nil => left; simpa [BMap.insert] using h
  | cons x m ih =>
    unfold BMap.insert at h
    split at h
    · rcases List.mem_cons.mp h with h | h
      · exact .inl h
      · exact .inr (by simp [h])
    · split at h
      · rcases List.mem_cons.mp h with h | h
        · exact .inl h
        · exact .inr h
      · rcases List.mem_cons.mp h with h | h
        · exact .inr (by simp [h])
        · rcases ih h with h | h
          · exact .inl h
          · exact .inr (by simp [h])
theorem sorted_insert (m : BMap V) (k : Str) (v : V) (h : Sorted m) : Sorted (BMap.insert m k v) := by
  unfold Sorted at *
  induction m with
  | nil => simp [BMap.insert]
  | cons x m ih =>
    obtain ⟨h1, h2⟩ := List.pairwise_cons.mp h
    unfold BMap.insert
    split
    · next e => exact List.pairwise_cons.mpr ⟨fun b hb => by rw [← e]; exact h1 b hb, h2⟩
    · next ne =>
      split
      · next lt =>
        refine List.pairwise_cons.mpr ⟨fun b hb => ?_, h⟩
        rcases List.mem_cons.mp hb with rfl | hb
        · exact lt
        · exact strLt_trans _ _ _ lt (h1 b hb)
      · next nlt =>
        refine List.pairwise_cons.mpr ⟨fun b hb => ?_, ih h2⟩
        rcases mem_insert _ _ _ _ hb with rfl | hb
        · exact strLt_total _ _ (Ne.symm ne) (by simpa using nlt)
        · exact h1 b hb

/-- the value last given to a key -/
def lastOf (l : List (Str × V)) (k : Str) : Option V := l.foldl (fun a e => if e.1 = k then some e.2 else a) none
@[simp] theorem lastOf_nil (k : Str) : lastOf ([] : List (Str × V)) k = none := rfl
theorem lastOf_append (a b : List (Str × V)) (k : Str) : lastOf (a ++ b) k = (lastOf b k).or (lastOf a k) := by
  unfold lastOf
  rw [List.foldl_append]
  generalize a.foldl _ none = o
  induction b using List.reverseRecOn with
  | nil => simp
  | append_singleton b e ih => simp only [List.foldl_append, List.foldl_cons, List.foldl_nil]; split <;> simp [ih]
@[simp] theorem lastOf_single (e : Str × V) (k : Str) : lastOf [e] k = if e.1 = k then some e.2 else none := rfl
theorem lastOf_map (l : List (Str × V)) (f : V → W) (k : Str) : lastOf (l.map (fun e => (e.1, f e.2))) k = (lastOf l k).map f := by
  induction l using List.reverseRecOn with
  | nil => rfl
  | append_singleton l e ih =>
    rw [List.map_append, lastOf_append, lastOf_append, ih]
    by_cases h : e.1 = k <;> simp [h]
theorem get?_sorted (m : BMap V) (h : Sorted m) (k : Str) : lastOf m k = BMap.get? m k := by
  induction m with
  | nil => rfl
  | cons e m ih =>
    obtain ⟨h1, h2⟩ := List.pairwise_cons.mp h
    rw [show e :: m = [e] ++ m from rfl, lastOf_append, ih h2, lastOf_single]
    unfold BMap.get?
    by_cases he : e.1 = k
    · have : m.find? (fun e => decide (e.1 = k)) = none := by
        rw [List.find?_eq_none]
        intro x hx hk
        have := h1 x hx
        rw [he, of_decide_eq_true hk, strLt_irrefl] at this
        exact absurd this (by simp)
      simp [he, this]
    · simp [he]
theorem sorted_ofList (l : List (Str × V)) : Sorted (BMap.ofList l) := by
  unfold BMap.ofList
  exact Rs.foldl_inv l (fun m e => BMap.insert m e.1 e.2) [] (fun _ m => Sorted m) List.Pairwise.nil (fun _ e m _ h => sorted_insert m e.1 e.2 h)
theorem lastOf_ofList (l : List (Str × V)) (k : Str) : lastOf (BMap.ofList l) k = lastOf l k := by
  rw [get?_sorted _ (sorted_ofList l)]
  unfold BMap.ofList
  exact Rs.foldl_inv l (fun m e => BMap.insert m e.1 e.2) [] (fun pre m => BMap.get? m k = lastOf pre k) rfl (by
    intro pre e m _ h
    rw [BMap.get?_insert, lastOf_append, lastOf_single]
    by_cases he : e.1 = k <;> simp [he, h])
end bmap

/-! ### witnesses -/

/-- a loop that went through did each of its rounds -/
theorem foldlM_each {α β : Type} (l : List α) (f : β → α → M β) (s r : β) (h : l.foldlM f s = .ok r) : ∀ a ∈ l, ∃ s' s'', f s' a = .ok s'' := by
  induction l generalizing s with
  | nil => simp
  | cons a t ih =>
    rw [List.foldlM_cons] at h
    cases hf : f s a with
    | error e => rw [hf] at h; cases h
    | ok s1 =>
      rw [hf] at h
      intro b hb
      rcases List.mem_cons.mp hb with rfl | hb
      · exact ⟨s, s1, hf⟩
      · exact ih s1 h b hb

theorem bind_ok {α β : Type} {x : M α} {f : α → M β} {r : β} (h : x >>= f = .ok r) : ∃ a, x = .ok a ∧ f a = .ok r := by
  cases x with
  | error e => cases h
  | ok a => exact ⟨a, rfl, h⟩

theorem renum_prefix {α : Type} (l : List α) (pre : List (ℕ × α)) (e : ℕ × α) (h : (pre ++ [e]) <+: renum l) : e.1 = pre.length ∧ l[pre.length]? = some e.2 ∧ pre.length < l.length := by
  have h1 := prefix_getElem h
  unfold renum at h1
  rw [List.getElem?_map, List.getElem?_zipIdx] at h1
  cases hl : l[pre.length]? with
  | none => rw [hl] at h1; simp at h1
  | some v =>
    rw [hl] at h1; simp at h1
    refine ⟨by rw [← h1], by rw [← h1], ?_⟩
    by_contra hc
    rw [List.getElem?_eq_none (by omega)] at hl; cases hl

/-- one column is appended to the rows -/
theorem push_column {α : Type} [Inhabited α] (acc : List (List α)) (c : List α) (f : List (List α) → ℕ × α → M (List (List α)))
    (hf : ∀ st i v r, st[i]? = some r → f st (i, v) = .ok (st.set i (r ++ [v]))) (h : c.length = acc.length) :
    (renum c).foldlM f acc = .ok (List.zipWith (fun r v => r ++ [v]) acc c) := by
  apply Ens.eq
  refine Ens.mono (foldlM_inv _ _ _ (fun pre st => st.length = acc.length ∧ ∀ j, st[j]? = if j < pre.length then (List.zipWith (fun r v => r ++ [v]) acc c)[j]? else acc[j]?) ⟨rfl, by simp⟩ ?_) ?_
  · rintro pre ⟨i, v⟩ st hp ⟨hl, hi⟩
    obtain ⟨e1, e2, e3⟩ := renum_prefix c pre (i, v) hp
    simp only at e1 e2; subst e1
    obtain ⟨r, hr⟩ : ∃ r, acc[pre.length]? = some r := ⟨_, List.getElem?_eq_getElem (by omega)⟩
    have := hi pre.length
    rw [if_neg (by omega), hr] at this
    refine ⟨_, hf st _ v r this, by simpa using hl, ?_⟩
    intro j
    rw [List.getElem?_set, List.length_append, List.length_singleton]
    by_cases hj : pre.length = j
    · subst hj
      rw [if_pos rfl, if_pos (by omega), if_pos (by omega)]
      rw [List.getElem?_zipWith, hr, e2]
    · rw [if_neg hj, hi]
      by_cases h1 : j < pre.length
      · rw [if_pos h1, if_pos (by omega)]
      · rw [if_neg h1, if_neg (by omega)]
  · rintro st ⟨hl, hi⟩
    apply List.ext_getElem?
    intro j
    have hz : (renum c).length = c.length := by simp [renum]
    rw [hi, hz]
    by_cases hj : j < c.length
    · rw [if_pos hj]
    · rw [if_neg hj, List.getElem?_eq_none (by omega), List.getElem?_eq_none (by simp; omega)]

/-- the `i`-th entries of all columns -/
def row {α : Type} [Inhabited α] (cols : List (List α)) (i : ℕ) : List α := cols.map (fun c => c.getD i default)
theorem push_columns {α : Type} [Inhabited α] (cols : List (List α)) (b : ℕ) (f : List (List α) → List α → M (List (List α)))
    (hf : ∀ st c, c.length = b → st.length = b → f st c = .ok (List.zipWith (fun r v => r ++ [v]) st c)) (h : ∀ c ∈ cols, c.length = b) :
    cols.foldlM f (List.replicate b []) = .ok ((List.range b).map (row cols)) := by
  apply Ens.eq
  refine Ens.mono (foldlM_inv _ _ _ (fun pre st => st = (List.range b).map (row pre)) ?_ ?_) (fun _ h => h)
  · apply List.ext_getElem <;> simp [row]
  · rintro pre c st hp rfl
    have hc := h c (hp.subset (by simp))
    rw [hf _ c hc (by simp)]
    refine ⟨_, rfl, ?_⟩
    apply List.ext_getElem
    · simp [hc]
    · intro i h1 h2
      have hi : i < b := by simpa using h2
      have hi' : i < c.length := by omega
      simp [row, List.getElem?_eq_getElem hi']

/-- the elements of a batch, in order; nothing else than a full batch is accepted -/
theorem unbatch_spec (b : ℕ) (w : SharedWitness (List P) (List S)) (c0 : List P) (rest : List (List P)) (hw : w.public_inputs = c0 :: rest) (hb : c0.length = b)
    (hp : ∀ c ∈ w.public_inputs, c.length = b) (hs : ∀ c ∈ w.witness, c.length = b) :
    unbatch w = .ok ((List.range b).map (fun i => ⟨row w.public_inputs i, row w.witness i⟩)) := by
  unfold unbatch
  have hne : w.public_inputs.isEmpty = false := by rw [hw]; rfl
  have h0 : idx w.public_inputs 0 = .ok c0 := by rw [hw]; rfl
  simp only [hne, h0, hb, ok_bind, pure_eq, Bool.false_eq_true, if_false]
  rw [push_columns w.public_inputs b _ ?_ hp, ok_bind, push_columns w.witness b _ ?_ hs, ok_bind]
  · congr 1
    apply List.ext_getElem <;> simp
  all_goals
    intro st c hc hst
    simp only [hc, beq_self_eq_true, Bool.not_true, Bool.false_eq_true, if_false]
    rw [push_column st c _ ?_ (by omega)]
    intro st i v r hr
    have hi : i < st.length := by by_contra hc; rw [List.getElem?_eq_none (by omega)] at hr; cases hr
    simp only [idx_eq_ok hr, ok_bind, rset_of_lt hi]
theorem unbatch_refuses (w : SharedWitness (List P) (List S)) (r : List (SharedWitness P S)) (h : unbatch w = .ok r) :
    ∃ c0 rest, w.public_inputs = c0 :: rest ∧ (∀ c ∈ w.public_inputs, c.length = c0.length) ∧ (∀ c ∈ w.witness, c.length = c0.length) := by
  unfold unbatch at h
  cases hw : w.public_inputs with
  | nil => simp [hw] at h
  | cons c0 rest =>
    have h0 : idx (c0 :: rest) 0 = .ok c0 := rfl
    simp only [hw, List.isEmpty_cons, h0, ok_bind, pure_eq, Bool.false_eq_true, if_false] at h
    refine ⟨c0, rest, rfl, ?_⟩
    have key : ∀ {α : Type} (cols : List (List α)) (f : List (List α) → List α → M (List (List α))) (s r : List (List α)),
        (∀ st c, c.length ≠ c0.length → ∃ e, f st c = .error e) → cols.foldlM f s = .ok r → ∀ c ∈ cols, c.length = c0.length := by
      intro α cols f s r hf hr c hc
      by_contra hn
      obtain ⟨s', s'', e⟩ := foldlM_each cols f s r hr c hc
      obtain ⟨e', he⟩ := hf s' c hn
      rw [he] at e; cases e
    obtain ⟨p1, h1, h⟩ := bind_ok h
    obtain ⟨p2, h2, h⟩ := bind_ok h
    refine ⟨key _ _ _ _ ?_ h1, key _ _ _ _ ?_ h2⟩ <;>
    · intro st c hc
      have : (c.length == c0.length) = false := by simpa using hc
      simp [this]

theorem public_inputs_for_verify_spec (w : SharedWitness F S) : public_inputs_for_verify w = if w.public_inputs = [] then .error .panic else .ok w.public_inputs.tail := by
  unfold public_inputs_for_verify slice
  cases w.public_inputs with
  | nil => simp
  | cons a t => simp

/-- three replicated shares of a value -/
def Rep3Of (v : F) (s : List (Rep3PrimeFieldShare F)) : Prop :=
  ∃ a b c : F, s = [⟨a, c⟩, ⟨b, a⟩, ⟨c, b⟩] ∧ a + b + c = v
theorem Rep3Of.combine {v : F} {s1 s2 s3 : Rep3PrimeFieldShare F} (h : Rep3Of v [s1, s2, s3]) : rep3_combine s1 s2 s3 = v := by
  obtain ⟨a, b, c, e, hv⟩ := h
  simp only [List.cons.injEq] at e
  obtain ⟨rfl, rfl, rfl, _⟩ := e
  unfold rep3_combine; exact hv
theorem rep3_share_spec (v : F) (rng : Rng) : Rep3Of v (rep3_share v rng).1 := by
  unfold rep3_share rep3_new
  refine ⟨_, _, _, rfl, ?_⟩
  simp only [psub_group]; ring
theorem rep3_shares_spec (vals : List F) (rng : Rng) :
    Ens (rep3_shares vals rng) (fun r => ∃ s : List (List (Rep3PrimeFieldShare F)), List.Forall₂ Rep3Of vals s ∧
      r.1 = [s.map (fun x => x.getD 0 ⟨0, 0⟩), s.map (fun x => x.getD 1 ⟨0, 0⟩), s.map (fun x => x.getD 2 ⟨0, 0⟩)]) := by
  unfold rep3_shares
  refine Ens.bind (foldlM_inv _ _ _ (fun pre st => ∃ s : List (List (Rep3PrimeFieldShare F)), List.Forall₂ Rep3Of pre s ∧
      st.2.1 = s.map (fun x => x.getD 0 ⟨0, 0⟩) ∧ st.2.2.1 = s.map (fun x => x.getD 1 ⟨0, 0⟩) ∧ st.2.2.2 = s.map (fun x => x.getD 2 ⟨0, 0⟩)) ⟨[], .nil, rfl, rfl, rfl⟩ ?_) ?_
  · rintro pre v ⟨r, t1, t2, t3⟩ _ ⟨s, hs, e1, e2, e3⟩
    obtain ⟨a, b, c, e, hv⟩ := rep3_share_spec v r
    simp only at e1 e2 e3; subst e1 e2 e3
    simp only [e, pure_eq]
    refine ⟨_, rfl, s ++ [[⟨a, c⟩, ⟨b, a⟩, ⟨c, b⟩]], ?_, by simp, by simp, by simp⟩
    exact List.rel_append hs (.cons ⟨a, b, c, rfl, hv⟩ .nil)
  · rintro ⟨r, t1, t2, t3⟩ ⟨s, hs, e1, e2, e3⟩
    simp only at e1 e2 e3; subst e1 e2 e3
    exact ⟨_, rfl, s, hs, rfl⟩

/-- splitting a witness for three parties -/
theorem share_rep3_spec (w : Witness F) (k : ℕ) (rng : Rng) (hk : k ≤ w.values.length) :
    Ens (sw_share_rep3 w k rng) (fun r => ∃ s, List.Forall₂ Rep3Of (w.values.drop k) s ∧
      r.1 = (List.range 3).map (fun i => ⟨w.values.take k, s.map (fun x => x.getD i ⟨0, 0⟩)⟩)) := by
  unfold sw_share_rep3
  simp only [slice_ok (Nat.zero_le k) hk, slice_ok hk le_rfl, ok_bind, List.drop_zero, List.take_length]
  refine (rep3_shares_spec _ rng).bind ?_
  rintro ⟨r, rng'⟩ ⟨s, hs, e⟩
  simp only at e; subst e
  exact ⟨_, rfl, s, hs, rfl⟩
/-- splitting a witness for `n` parties: the public part is kept, every quorum recovers the rest -/
theorem share_shamir_spec (w : Witness F) (k n t : ℕ) (rng : Rng) (hk : k ≤ w.values.length) (hF : Rs.C01.Positions F n) :
    Ens (sw_share_shamir w k t n rng) (fun r => r.1.length = n ∧ (∀ s ∈ r.1, s.public_inputs = w.values.take k) ∧
      ∀ pos : List ℕ, pos.Nodup → (∀ p ∈ pos, 1 ≤ p ∧ p ≤ n) → t < pos.length →
        Shamir.combine_field_elements (Rs.C01.pick (r.1.map SharedWitness.witness) pos) pos t = .ok (w.values.drop k)) := by
  unfold sw_share_shamir
  simp only [slice_ok (Nat.zero_le k) hk, slice_ok hk le_rfl, ok_bind, List.drop_zero, List.take_length]
  obtain ⟨shs, rng', e, hl, hc⟩ := Rs.C01.field_elements (w.values.drop k) n t rng hF
  rw [e]
  refine ⟨_, rfl, by simpa using hl, ?_, ?_⟩
  · intro s hs
    obtain ⟨x, _, rfl⟩ := List.mem_map.mp hs; rfl
  · intro pos h1 h2 h3
    have : (shs.map (fun share => ({ public_inputs := w.values.take k, witness := share } : SharedWitness F (ShamirPrimeFieldShare F)))).map SharedWitness.witness = shs := by
      rw [List.map_map]; conv_rhs => rw [← List.map_id shs]
      rfl
    simp only [this]
    exact hc pos h1 h2 h3
/-- more public values than there are: no result -/
theorem share_refuses (w : Witness F) (k n t : ℕ) (rng : Rng) (hk : w.values.length < k) :
    sw_share_rep3 w k rng = .error .panic ∧ sw_share_shamir w k t n rng = .error .panic := by
  have : slice w.values 0 k = .error .panic := by unfold slice; rw [if_neg (by omega)]
  constructor
  · unfold sw_share_rep3; rw [this]; rfl
  · unfold sw_share_shamir; rw [this]; rfl

/-! ### inputs -/
section inputs
variable (Nums : Parsers F)

/-- the name of an array element -/
def elemName (name : Str) (i : ℕ) : Str := name ++ ['['] ++ Nat.toDigits 10 i ++ [']']
/-- the named values that one input contributes -/
noncomputable def entries (e : Str × Json) : M (List (Str × F)) :=
  match e.2 with
  | .arr l => (parseA Nums (.arr l)).map (fun fs => (renum fs).filterMap (fun x => x.2.map (fun v => (elemName e.1 x.1, v))))
  | .bool b => .ok [(e.1, if b then 1 else 0)]
  | v => (parse_field Nums v).map (fun x => [(e.1, x)])
/-- the named values of a list of inputs, marked whether their input is public -/
def tagged (pub : List Str) (es : List ((Str × Json) × List (Str × F))) : List (Str × (F × Bool)) :=
  es.flatMap (fun e => e.2.map (fun kv => (kv.1, (kv.2, pub.contains e.1.1))))

/-- what the `n` maps hold under one name: nothing, the public value, or shares of the secret value -/
def Holds {T : Type} (n : ℕ) (Pub : F → T) (Sharing : F → List T → Prop) (o : Option (F × Bool)) (col : List (Option T)) : Prop :=
  match o with
  | none => col = List.replicate n none
  | some (v, true) => col = List.replicate n (some (Pub v))
  | some (v, false) => ∃ ts, Sharing v ts ∧ col = ts.map some

/-- one name is given one value per party -/
theorem holds_insert {T : Type} (n : ℕ) (Pub : F → T) (Sharing : F → List T → Prop) (l : List (Str × (F × Bool))) (st : List (BMap T)) (k : Str) (v : F) (b : Bool) (ts : List T)
    (hn : st.length = n) (hts : ts.length = n) (h : ∀ k, Holds n Pub Sharing (lastOf l k) (st.map (fun m => BMap.get? m k)))
    (hb : if b then ts = List.replicate n (Pub v) else Sharing v ts) :
    ∀ k', Holds n Pub Sharing (lastOf (l ++ [(k, (v, b))]) k') ((List.zipWith (fun m x => BMap.insert m k x) st ts).map (fun m => BMap.get? m k')) := by
  intro k'
  rw [lastOf_append, lastOf_single]
  have e : (List.zipWith (fun m x => BMap.insert m k x) st ts).map (fun m => BMap.get? m k') = if k = k' then ts.map some else st.map (fun m => BMap.get? m k') := by
    by_cases hk : k = k'
    · rw [if_pos hk]
      apply List.ext_getElem
      · simp [hn, hts]
      · intro i h1 h2; simp [BMap.get?_insert, hk]
    · rw [if_neg hk]
      apply List.ext_getElem
      · simp [hn, hts]
      · intro i h1 h2; simp [BMap.get?_insert, hk]
  rw [e]
  by_cases hk : k = k'
  · simp only [hk, if_true, Option.some_or]
    cases b with
    | true => simp only [if_true] at hb; subst hb; simp [Holds]
    | false => exact ⟨ts, hb, rfl⟩
  · simp only [hk, if_false, Option.none_or]; exact h k'

/-- the loop over the values of one input -/
theorem holds_values {T σ : Type} (n : ℕ) (Pub : F → T) (Sharing : F → List T → Prop) (proj : σ → List (BMap T)) (b : Bool)
    (f : σ → Str × F → M σ) (l : List (Str × (F × Bool))) (st : σ) (vals : List (Str × F))
    (hf : ∀ st k v, (proj st).length = n → Ens (f st (k, v)) (fun st' => ∃ ts, ts.length = n ∧ (if b then ts = List.replicate n (Pub v) else Sharing v ts) ∧
      proj st' = List.zipWith (fun m x => BMap.insert m k x) (proj st) ts))
    (hn : (proj st).length = n) (h : ∀ k, Holds n Pub Sharing (lastOf l k) ((proj st).map (fun m => BMap.get? m k))) :
    Ens ((BMap.ofList vals).foldlM f st) (fun st' => (proj st').length = n ∧
      ∀ k, Holds n Pub Sharing (lastOf (l ++ vals.map (fun kv => (kv.1, (kv.2, b)))) k) ((proj st').map (fun m => BMap.get? m k))) := by
  refine Ens.mono (foldlM_inv _ _ _ (fun pre st => (proj st).length = n ∧ ∀ k, Holds n Pub Sharing (lastOf (l ++ pre.map (fun kv => (kv.1, (kv.2, b)))) k) ((proj st).map (fun m => BMap.get? m k))) ⟨hn, by simpa using h⟩ ?_) ?_
  · rintro pre ⟨k, v⟩ st _ ⟨h1, h2⟩
    refine (hf st k v h1).mono ?_
    rintro st' ⟨ts, ht, hb, e⟩
    refine ⟨by rw [e]; simp [h1, ht], ?_⟩
    rw [e, List.map_append, ← List.append_assoc]
    exact holds_insert n Pub Sharing _ (proj st) k v b ts h1 ht h2 hb
  · rintro st' ⟨h1, h2⟩
    refine ⟨h1, fun k => ?_⟩
    have := h2 k
    rw [lastOf_append, lastOf_map _ (fun v => (v, b)), lastOf_ofList, ← lastOf_map _ (fun v => (v, b)), ← lastOf_append] at this
    exact this

/-- the same for a loop that cannot fail -/
theorem holds_values_pure {T σ : Type} (n : ℕ) (Pub : F → T) (Sharing : F → List T → Prop) (proj : σ → List (BMap T)) (b : Bool)
    (f : σ → Str × F → σ) (l : List (Str × (F × Bool))) (st : σ) (vals : List (Str × F))
    (hf : ∀ st k v, (proj st).length = n → ∃ ts, ts.length = n ∧ (if b then ts = List.replicate n (Pub v) else Sharing v ts) ∧
      proj (f st (k, v)) = List.zipWith (fun m x => BMap.insert m k x) (proj st) ts)
    (hn : (proj st).length = n) (h : ∀ k, Holds n Pub Sharing (lastOf l k) ((proj st).map (fun m => BMap.get? m k))) :
    (proj ((BMap.ofList vals).foldl f st)).length = n ∧
      ∀ k, Holds n Pub Sharing (lastOf (l ++ vals.map (fun kv => (kv.1, (kv.2, b)))) k) ((proj ((BMap.ofList vals).foldl f st)).map (fun m => BMap.get? m k)) := by
  have := holds_values n Pub Sharing proj b (fun s a => .ok (f s a)) l st vals (fun st k v hn => ⟨_, rfl, hf st k v hn⟩) hn h
  rw [foldlM_ok _ _ f _ (fun _ _ _ => rfl)] at this
  obtain ⟨r, e, h⟩ := this
  cases e; exact h

/-- the loop over the inputs -/
theorem holds_inputs {T σ : Type} (n : ℕ) (Pub : F → T) (Sharing : F → List T → Prop) (proj : σ → List (BMap T)) (pub : List Str)
    (f : σ → Str × Json → M σ) (st : σ)
    (hf : ∀ st e vals l, entries Nums e = .ok vals → (proj st).length = n → (∀ k, Holds n Pub Sharing (lastOf l k) ((proj st).map (fun m => BMap.get? m k))) →
      Ens (f st e) (fun st' => (proj st').length = n ∧ ∀ k, Holds n Pub Sharing (lastOf (l ++ vals.map (fun kv => (kv.1, (kv.2, pub.contains e.1)))) k) ((proj st').map (fun m => BMap.get? m k))))
    (hn : proj st = List.replicate n []) (input : List (Str × Json)) (ess : List (List (Str × F))) (he : input.mapM (entries Nums) = .ok ess) :
    Ens (input.foldlM f st) (fun st' => (proj st').length = n ∧ ∀ k, Holds n Pub Sharing (lastOf (tagged pub (input.zip ess)) k) ((proj st').map (fun m => BMap.get? m k))) := by
  have main : ∀ (input : List (Str × Json)) (ess : List (List (Str × F))) (st : σ) (l : List (Str × (F × Bool))), input.mapM (entries Nums) = .ok ess → (proj st).length = n →
      (∀ k, Holds n Pub Sharing (lastOf l k) ((proj st).map (fun m => BMap.get? m k))) →
      Ens (input.foldlM f st) (fun st' => (proj st').length = n ∧ ∀ k, Holds n Pub Sharing (lastOf (l ++ tagged pub (input.zip ess)) k) ((proj st').map (fun m => BMap.get? m k))) := by
    intro input
    induction input with
    | nil =>
      intro ess st l he h1 h2
      exact ⟨st, rfl, h1, by simpa [tagged] using h2⟩
    | cons e t ih =>
      intro ess st l he h1 h2
      rw [List.mapM_cons] at he
      cases hv : entries Nums e with
      | error x => rw [hv] at he; cases he
      | ok vals =>
        rw [hv, ok_bind] at he
        cases ht : t.mapM (entries Nums) with
        | error x => rw [ht] at he; cases he
        | ok rest =>
          rw [ht] at he
          cases he
          rw [List.foldlM_cons]
          refine (hf st e vals l hv h1 h2).bind ?_
          rintro st' ⟨h3, h4⟩
          refine (ih rest st' _ ht h3 h4).mono ?_
          rintro st'' ⟨h5, h6⟩
          exact ⟨h5, by simpa [tagged] using h6⟩
  have := main input ess st [] he (by rw [hn]; simp) (by intro k; rw [hn]; simp [Holds, BMap.get?])
  simpa using this

theorem entries_arr (name : Str) (l : List Json) : entries Nums (name, .arr l) = (parseA Nums (.arr l)).map (fun fs => (renum fs).filterMap (fun x => x.2.map (fun v => (elemName name x.1, v)))) := rfl

/-- what is parsed for one input, in one step -/
theorem parsed_eq {β : Type} (name : Str) (val : Json) (g : BMap F → M β) (x : M β)
    (hx : x = ((if (Json.isArray val) then do
      let t__1 ← (parseA Nums val)
      pure (BMap.ofList ((renum t__1).filterMap (fun (idx_, field) =>
        (field.map (fun field => ((Disp.disp name ++ ("[" : String).toList ++ Disp.disp idx_ ++ ("]" : String).toList), field))))))
    else do
      if (Json.isBoolean val) then do
        let t__2 ← (parse_boolean (F := F) val)
        pure (BMap.ofList [(name, t__2)])
      else do
        let t__3 ← (parse_field Nums val)
        pure (BMap.ofList [(name, t__3)])) >>= g)) : x = entries Nums (name, val) >>= fun vals => g (BMap.ofList vals) := by
  subst hx
  cases val with
  | arr l =>
    rw [entries_arr]
    simp only [Json.isArray, if_true]
    cases parseA Nums (.arr l) with
    | error e => rfl
    | ok fs =>
      simp only [ok_bind, pure_eq, Except.map]
      rfl
  | bool b =>
    simp only [Json.isArray, Json.isBoolean, if_true, if_false, Bool.false_eq_true, C17.parse_boolean_spec, entries]
    cases b <;> rfl
  | _ =>
    simp only [Json.isArray, Json.isBoolean, if_false, Bool.false_eq_true, entries]
    cases parse_field Nums _ <;> rfl

/-- splitting inputs for three parties: under every name the value last given to it, public to all or shared -/
theorem split_input_spec (rng0 : Rng) (input : List (Str × Json)) (pub : List Str) (ess : List (List (Str × F))) (he : input.mapM (entries Nums) = .ok ess) :
    Ens (split_input Nums rng0 input pub) (fun r => r.length = 3 ∧
      ∀ k, Holds 3 Rep3InputType.Public (fun v ts => ∃ s, Rep3Of v s ∧ ts = s.map Rep3InputType.Shared) (lastOf (tagged pub (input.zip ess)) k) (r.map (fun m => BMap.get? m k))) := by
  unfold split_input
  refine Ens.bind (holds_inputs Nums 3 Rep3InputType.Public (fun v ts => ∃ s, Rep3Of v s ∧ ts = s.map Rep3InputType.Shared) (fun st : List (BMap (Rep3InputType F)) × Rng => st.1) pub _ _ ?_ rfl input ess he) ?_
  · rintro ⟨st, rng⟩ ⟨name, val⟩ vals l hv hn h
    simp only
    rw [parsed_eq Nums name val _ _ rfl, hv, ok_bind]
    simp only at hn h
    by_cases hp : pub.contains name = true
    · rw [if_pos hp]
      simp only [hp, bind_assoc, pure_eq, ok_bind]
      refine (holds_values 3 Rep3InputType.Public (fun v ts => ∃ s, Rep3Of v s ∧ ts = s.map Rep3InputType.Shared) (fun s : List (BMap (Rep3InputType F)) => s) true _ l st vals ?_ hn h).bind ?_
      · intro st k v hn
        obtain ⟨m0, m1, m2, rfl⟩ := List.length_eq_three.mp hn
        exact ⟨_, rfl, [_, _, _], rfl, rfl, rfl⟩
      · intro st' hst; exact ⟨_, rfl, hst⟩
    · rw [if_neg hp]
      have hp' : pub.contains name = false := by simpa using hp
      simp only [hp', bind_assoc, pure_eq, ok_bind]
      refine (holds_values 3 Rep3InputType.Public (fun v ts => ∃ s, Rep3Of v s ∧ ts = s.map Rep3InputType.Shared) (fun s : Rng × List (BMap (Rep3InputType F)) => s.2) false _ l (rng, st) vals ?_ hn h).bind ?_
      · rintro ⟨r, st⟩ k v hn
        simp only at hn
        obtain ⟨m0, m1, m2, rfl⟩ := List.length_eq_three.mp hn
        obtain ⟨a, b, c, e, hs⟩ := rep3_share_spec v r
        simp only [e]
        refine ⟨_, rfl, [_, _, _], rfl, ?_, rfl⟩
        exact ⟨_, ⟨a, b, c, rfl, hs⟩, rfl⟩
      · rintro ⟨r, st'⟩ hst; exact ⟨_, rfl, hst⟩
  · rintro ⟨st, r⟩ h; exact ⟨_, rfl, h⟩

/-- a vector of shares from which every quorum recovers the value -/
def ShamirOf (n t : ℕ) (v : F) (s : List (ShamirPrimeFieldShare F)) : Prop :=
  s.length = n ∧ ∀ pos : List ℕ, pos.Nodup → (∀ p ∈ pos, 1 ≤ p ∧ p ≤ n) → t < pos.length → Shamir.combine_field_element (Rs.C01.pick s pos) pos t = .ok v
theorem split_input_shamir_spec (rng0 : Rng) (input : List (Str × Json)) (pub : List Str) (n t : ℕ) (hF : Rs.C01.Positions F n) (ess : List (List (Str × F))) (he : input.mapM (entries Nums) = .ok ess) :
    Ens (split_input_shamir Nums rng0 input pub t n) (fun r => r.length = n ∧
      ∀ k, Holds n ShamirInputType.Public (fun v ts => ∃ s, ShamirOf n t v s ∧ ts = s.map ShamirInputType.Shared) (lastOf (tagged pub (input.zip ess)) k) (r.map (fun m => BMap.get? m k))) := by
  unfold split_input_shamir
  refine Ens.bind (holds_inputs Nums n ShamirInputType.Public (fun v ts => ∃ s, ShamirOf n t v s ∧ ts = s.map ShamirInputType.Shared) (fun st : List (BMap (ShamirInputType F)) × Rng => st.1) pub _ _ ?_ (by simp) input ess he) ?_
  · rintro ⟨st, rng⟩ ⟨name, val⟩ vals l hv hn h
    simp only
    rw [parsed_eq Nums name val _ _ rfl, hv, ok_bind]
    simp only at hn h
    by_cases hp : pub.contains name = true
    · rw [if_pos hp]
      simp only [hp, pure_eq, ok_bind]
      refine ⟨_, rfl, holds_values_pure n ShamirInputType.Public (fun v ts => ∃ s, ShamirOf n t v s ∧ ts = s.map ShamirInputType.Shared) (fun s : List (BMap (ShamirInputType F)) => s) true _ l st vals ?_ hn h⟩
      intro st k v hn
      refine ⟨List.replicate n (ShamirInputType.Public v), by simp, rfl, ?_⟩
      rw [overwrite_eq (by simp)]
      apply List.ext_getElem <;> simp [hn]
    · rw [if_neg hp]
      have hp' : pub.contains name = false := by simpa using hp
      simp only [hp', bind_assoc, pure_eq, ok_bind]
      refine (holds_values n ShamirInputType.Public (fun v ts => ∃ s, ShamirOf n t v s ∧ ts = s.map ShamirInputType.Shared) (fun s : Rng × List (BMap (ShamirInputType F)) => s.2) false _ l (rng, st) vals ?_ hn h).bind ?_
      · rintro ⟨r, st⟩ k v hn
        simp only at hn
        obtain ⟨shs, rng', e, hl, hc⟩ := Rs.C01.field_element v n t r hF
        simp only [e, ok_bind]
        refine ⟨_, rfl, shs.map ShamirInputType.Shared, by simpa using hl, ⟨shs, ⟨hl, hc⟩, rfl⟩, ?_⟩
        rw [overwrite_eq (by simp [hn, hl])]
        apply List.ext_getElem <;> simp [List.length_zip]
      · rintro ⟨r, st'⟩ hst; exact ⟨_, rfl, hst⟩
  · rintro ⟨st, r⟩ h; exact ⟨_, rfl, h⟩

/-- an input that does not parse is refused -/
theorem split_refuses (rng0 : Rng) (input : List (Str × Json)) (pub : List Str) (n t : ℕ) (e : Str × Json) (hm : e ∈ input) (x : Err) (hx : entries Nums e = .error x) :
    (∀ r, split_input Nums rng0 input pub ≠ .ok r) ∧ (∀ r, split_input_shamir Nums rng0 input pub t n ≠ .ok r) := by
  constructor
  · intro r h
    unfold split_input at h
    obtain ⟨st, h1, _⟩ := bind_ok h
    obtain ⟨⟨s1, r1⟩, s2, h2⟩ := foldlM_each _ _ _ _ h1 e hm
    simp only at h2
    rw [parsed_eq Nums e.1 e.2 _ _ rfl, show (e.1, e.2) = e from rfl, hx] at h2
    cases h2
  · intro r h
    unfold split_input_shamir at h
    obtain ⟨st, h1, _⟩ := bind_ok h
    obtain ⟨⟨s1, r1⟩, s2, h2⟩ := foldlM_each _ _ _ _ h1 e hm
    simp only at h2
    rw [parsed_eq Nums e.1 e.2 _ _ rfl, show (e.1, e.2) = e from rfl, hx] at h2
    cases h2
end inputs

/-- the name up to the first bracket -/
def baseName (k : Str) : Str := ((splitOn '[' k).head?).getD k
/-- every entry is new, or it is public and repeats what came before -/
def Mergeable {T : Type} (pub : List Str) : List (Str × T) → List (Str × T) → Prop
  | _, [] => True
  | pre, e :: t => (∀ v, lastOf pre e.1 = some v → pub.contains (baseName e.1) = true ∧ v = e.2) ∧ Mergeable pub (pre ++ [e]) t

theorem foldlM_flat {α β : Type} (f : β → α → M β) (ls : List (List α)) (s : β) : ls.foldlM (fun s l => l.foldlM f s) s = ls.flatten.foldlM f s := by
  induction ls generalizing s with
  | nil => rfl
  | cons l t ih =>
    rw [List.foldlM_cons, List.flatten_cons, List.foldlM_append]
    congr 1; funext s; exact ih s
/-- merging: all entries, or an error when a secret entry comes twice or a public one differs -/
theorem merge_spec (ms : List (BMap (Rep3InputType F))) (pub : List Str) :
    (Mergeable pub [] ms.flatten → Ens (merge_input_shares ms pub) (fun m => ∀ k, BMap.get? m k = lastOf ms.flatten k)) ∧
    (¬ Mergeable pub [] ms.flatten → merge_input_shares ms pub = .error .err) := by
  unfold merge_input_shares
  simp only [bind_pure]
  rw [foldlM_flat]
  generalize ms.flatten = l
  have main : ∀ (l pre : List (Str × Rep3InputType F)) (m : BMap (Rep3InputType F)) (f : BMap (Rep3InputType F) → Str × Rep3InputType F → M (BMap (Rep3InputType F))),
      (∀ m e, f m e = if (∀ v, BMap.get? m e.1 = some v → pub.contains (baseName e.1) = true ∧ v = e.2) then .ok (BMap.insert m e.1 e.2) else .error .err) →
      (∀ k, BMap.get? m k = lastOf pre k) →
      (Mergeable pub pre l → Ens (l.foldlM f m) (fun m => ∀ k, BMap.get? m k = lastOf (pre ++ l) k)) ∧ (¬ Mergeable pub pre l → l.foldlM f m = .error .err) := by
    intro l
    induction l with
    | nil => intro pre m f hf h; exact ⟨fun _ => ⟨m, rfl, by simpa using h⟩, fun hn => absurd trivial hn⟩
    | cons e t ih =>
      intro pre m f hf h
      rw [List.foldlM_cons, hf]
      unfold Mergeable
      rw [h]
      have hi : ∀ k, BMap.get? (BMap.insert m e.1 e.2) k = lastOf (pre ++ [e]) k := by
        intro k
        rw [BMap.get?_insert, h, lastOf_append, lastOf_single]
        by_cases hk : e.1 = k <;> simp [hk]
      obtain ⟨i1, i2⟩ := ih (pre ++ [e]) _ f hf hi
      by_cases hc : ∀ v, lastOf pre e.1 = some v → pub.contains (baseName e.1) = true ∧ v = e.2
      · rw [if_pos hc, ok_bind]
        constructor
        · rintro ⟨_, hm⟩; simpa using i1 hm
        · intro hn; exact i2 (fun hm => hn ⟨hc, hm⟩)
      · rw [if_neg hc]
        exact ⟨fun hm => absurd hm.1 hc, fun _ => rfl⟩
  have nil : l = [] ++ l := rfl
  have := fun f hf => main l [] [] f hf (fun k => rfl)
  rw [← nil] at this
  refine this _ ?_
  intro m e
  have e91 : Char.ofNat 91 = '[' := by decide
  simp only [e91, pure_eq, throw_eq]
  rw [show ((splitOn '[' e.1).head?).getD e.1 = baseName e.1 from rfl]
  rcases hg : BMap.get? m e.1 with _ | v
  · have hc : BMap.contains m e.1 = false := by simp [BMap.contains, hg]
    simp [hg, hc]
  · have hc : BMap.contains m e.1 = true := by simp [BMap.contains, hg]
    by_cases hp : pub.contains (baseName e.1) = true
    · by_cases hv : v = e.2
      · simp only [hp, hc, hv, Option.any_some, beq_self_eq_true]; simp
      · have hv' : (v == e.2) = false := by simpa using hv
        simp only [hp, hc, Option.any_some, hv', if_true, Bool.not_false, err_bind]
        simp [hv]
    · simp only [hp, hc, if_true, err_bind, if_false, Bool.false_eq_true]; simp
end C16
