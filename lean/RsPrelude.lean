import Mathlib
import RsAttr
set_option linter.all false
set_option autoImplicit false

/-! Semantics of the Rust fragment that `rsx extract` emits.  Hand written, part of the trusted base. -/


/-- `panic`: the Rust function panics; `err`: it returns `Err`. -/
inductive Err | panic | err
  deriving DecidableEq, Repr

abbrev M := Except Err

/-! `foldl%`, `map%`, ...: the `List` functions, elaborated with the state and the list before the loop body,
so that the types of the bound variables are known in the body. -/
section
open Lean Elab Term Meta
private def pre (e : Syntax) : TermElabM (Expr × Term) := do
  let x ← elabTerm e none
  synthesizeSyntheticMVars (postpone := .yes)
  let x ← instantiateMVars x
  let t ← instantiateMVars (← inferType x)
  return (x, ← exprToSyntax t)
private def preL (e : Syntax) : TermElabM (Expr × Term) := do
  let x ← elabTerm e none
  synthesizeSyntheticMVars (postpone := .yes)
  let x ← instantiateMVars x
  let t ← whnfR (← instantiateMVars (← inferType x))
  let mut x := x
  let mut t := t
  if t.getAppFn.isMVar then
    synthesizeSyntheticMVars (postpone := .no)
    x ← instantiateMVars x
    t ← whnfR (← instantiateMVars (← inferType x))
  let some a := t.app1? ``List | throwError "not a list: {x} : {t}"
  return (x, ← exprToSyntax a)
elab "foldl% " f:term:max i:term:max l:term:max : term => do
  let (i, ti) ← pre i; let (l, tl) ← preL l
  elabTerm (← `(List.foldl (α := $ti) (β := $tl) $f $(← exprToSyntax i) $(← exprToSyntax l))) none
elab "foldlM% " f:term:max i:term:max l:term:max : term => do
  let (i, ti) ← pre i; let (l, tl) ← preL l
  elabTerm (← `(List.foldlM (m := $(mkIdent `M)) (s := $ti) (α := $tl) $f $(← exprToSyntax i) $(← exprToSyntax l))) none
elab "map% " f:term:max l:term:max : term => do
  let (l, tl) ← preL l
  elabTerm (← `(List.map (α := $tl) $f $(← exprToSyntax l))) none
elab "mapM% " f:term:max l:term:max : term => do
  let (l, tl) ← preL l
  elabTerm (← `(List.mapM (m := $(mkIdent `M)) (α := $tl) $f $(← exprToSyntax l))) none
end

namespace Rs

section
variable {α β γ : Type}

def idx (l : List α) (i : ℕ) : M α := match l[i]? with | some v => .ok v | none => .error .panic
def rset (l : List α) (i : ℕ) (v : α) : M (List α) := if i < l.length then .ok (l.set i v) else .error .panic
def slice (l : List α) (a b : ℕ) : M (List α) := if a ≤ b ∧ b ≤ l.length then .ok ((l.take b).drop a) else .error .panic
def slice? (l : List α) (a b : ℕ) : Option (List α) := if a ≤ b ∧ b ≤ l.length then some ((l.take b).drop a) else none
def rsetSlice (l : List α) (a b : ℕ) (v : List α) : M (List α) :=
  if a ≤ b ∧ b ≤ l.length ∧ v.length = b - a then .ok (l.take a ++ v ++ l.drop b) else .error .panic
def unwrap (o : Option α) : M α := match o with | some v => .ok v | none => .error .panic
def okOr (o : Option α) : M α := match o with | some v => .ok v | none => .error .err
def zipEq (a : List α) (b : List β) : M (List (α × β)) := if a.length = b.length then .ok (a.zip b) else .error .panic
/-- `itertools::multizip` of three: the shortest ends it -/
def multizip3 {γ : Type} (t : List α × List β × List γ) : List (α × β × γ) := t.1.zip (t.2.1.zip t.2.2)
def renum (l : List α) : List (ℕ × α) := l.zipIdx.map (fun p => (p.2, p.1))
def rrange (a b : ℕ) : List ℕ := List.range' a (b - a)
def overwrite (l v : List α) : List α := v ++ l.drop v.length
def rinsert (l : List α) (i : ℕ) (v : α) : M (List α) := if i ≤ l.length then .ok (l.take i ++ v :: l.drop i) else .error .panic
def resize (l : List α) (n : ℕ) (v : α) : List α := l.take n ++ List.replicate (n - l.length) v
def rswap (l : List α) (i j : ℕ) : M (List α) :=
  match l[i]?, l[j]? with | some a, some b => .ok ((l.set i b).set j a) | _, _ => .error .panic
def rotateRight (l : List α) (n : ℕ) : M (List α) := if n ≤ l.length then .ok (l.drop (l.length - n) ++ l.take (l.length - n)) else .error .panic
def rotateLeft (l : List α) (n : ℕ) : M (List α) := if n ≤ l.length then .ok (l.drop n ++ l.take n) else .error .panic
def copyFrom (l v : List α) : M (List α) := if l.length = v.length then .ok v else .error .panic
def splitAt (l : List α) (n : ℕ) : M (List α × List α) := if n ≤ l.length then .ok (l.take n, l.drop n) else .error .panic
/-- drained part and remainder -/
def drain (l : List α) (a b : ℕ) : M (List α × List α) :=
  if a ≤ b ∧ b ≤ l.length then .ok ((l.take b).drop a, l.take a ++ l.drop b) else .error .panic
/-- every n-th element, from the first -/
def stepBy (n : ℕ) (l : List α) : List α := (l.zipIdx.filter (fun p => p.2 % n == 0)).map Prod.fst
/-- consecutive pieces of n elements, the last one possibly shorter (empty for n = 0, where Rust panics) -/
def toChunks (n : ℕ) (l : List α) : List (List α) := if n = 0 then [] else (List.range ((l.length + n - 1) / n)).map (fun i => (l.drop (i * n)).take n)
def toChunksExact (n : ℕ) (l : List α) : List (List α) := if n = 0 then [] else (List.range (l.length / n)).map (fun i => (l.drop (i * n)).take n)
def toWindows (n : ℕ) (l : List α) : List (List α) := (List.range (l.length + 1 - n)).map (fun i => (l.drop i).take n)

class RSub (α β : Type) (γ : outParam Type) where rsub : α → β → M γ
export RSub (rsub)
instance : RSub ℕ ℕ ℕ := ⟨fun a b => if b ≤ a then .ok (a - b) else .error .panic⟩
instance (priority := low) [AddGroup α] : RSub α α α := ⟨fun a b => .ok (a - b)⟩

/-- subtraction on types that have it; there is no instance for ℕ -/
class PSub (α β : Type) (γ : outParam Type) where psub : α → β → γ
export PSub (psub)
instance (priority := low) [AddGroup α] : PSub α α α := ⟨fun a b => a - b⟩

class RDiv (α β : Type) (γ : outParam Type) where rdiv : α → β → M γ
export RDiv (rdiv)
instance : RDiv ℕ ℕ ℕ := ⟨fun a b => if b = 0 then .error .panic else .ok (a / b)⟩
instance (priority := low) [Field α] [DecidableEq α] : RDiv α α α := ⟨fun a b => if b = 0 then .error .panic else .ok (a / b)⟩
def rmod (a b : ℕ) : M ℕ := if b = 0 then .error .panic else .ok (a % b)
def divCeil (a b : ℕ) : M ℕ := if b = 0 then .error .panic else .ok ((a + b - 1) / b)
def rnot (b : Bool) : Bool := !b

class RFrom (α β : Type) where rfrom : α → β
export RFrom (rfrom)
instance [NatCast β] : RFrom ℕ β := ⟨fun n => (n : β)⟩
instance [Zero β] [One β] : RFrom Bool β := ⟨fun b => if b then 1 else 0⟩

def inv? [Field α] [DecidableEq α] (x : α) : Option α := if x = 0 then none else some x⁻¹

/-- group element times scalar, in the order the code writes it -/
instance (priority := low) instHMulPointScalar {F G : Type} [Semiring F] [AddCommMonoid G] [Module F G] : HMul G F G := ⟨fun p s => s • p⟩
theorem point_mul {F G : Type} [Semiring F] [AddCommMonoid G] [Module F G] (p : G) (s : F) :
    @HMul.hMul G F G instHMulPointScalar p s = s • p := rfl

/-- multi-scalar multiplication (taceo-ark-algebra / arkworks): the shorter list ends it -/
def msm {F G : Type} [Semiring F] [AddCommMonoid G] [Module F G] (ps : List G) (ss : List F) : G :=
  (List.zipWith (fun p s => s • p) ps ss).sum

@[simp] theorem idx_of_lt {l : List α} {i : ℕ} (h : i < l.length) : idx l i = .ok l[i] := by simp [idx, h]
theorem idx_of_ge {l : List α} {i : ℕ} (h : l.length ≤ i) : idx l i = .error .panic := by simp [idx, h]
@[simp] theorem rset_of_lt {l : List α} {i : ℕ} {v : α} (h : i < l.length) : rset l i v = .ok (l.set i v) := by simp [rset, h]
theorem slice_ok {l : List α} {a b : ℕ} (h : a ≤ b) (h' : b ≤ l.length) : slice l a b = .ok ((l.take b).drop a) := by simp [slice, h, h']
@[simp] theorem slice_zero {l : List α} {b : ℕ} (h' : b ≤ l.length) : slice l 0 b = .ok (l.take b) := by simp [slice, h']
@[simp] theorem unwrap_some (a : α) : unwrap (some a) = .ok a := rfl
@[simp] theorem unwrap_none : unwrap (none : Option α) = .error .panic := rfl
@[simp] theorem okOr_some (a : α) : okOr (some a) = .ok a := rfl
@[simp] theorem okOr_none : okOr (none : Option α) = .error .err := rfl
@[simp] theorem rsub_group [AddGroup α] (a b : α) : rsub a b = .ok (a - b) := rfl
theorem rsub_nat {a b : ℕ} (h : b ≤ a) : rsub a b = .ok (a - b) := by simp [rsub, h]
@[simp] theorem psub_group [AddGroup α] (a b : α) : psub a b = a - b := rfl
@[simp] theorem rnot_eq (b : Bool) : rnot b = !b := rfl
@[simp] theorem rfrom_nat [NatCast β] (n : ℕ) : (rfrom n : β) = (n : β) := rfl
@[simp] theorem inv?_of_ne [Field α] [DecidableEq α] {x : α} (h : x ≠ 0) : inv? x = some x⁻¹ := by simp [inv?, h]
@[simp] theorem inv?_zero [Field α] [DecidableEq α] : inv? (0 : α) = none := by simp [inv?]
@[simp] theorem rinsert_zero (l : List α) (v : α) : rinsert l 0 v = .ok (v :: l) := by simp [rinsert]

theorem overwrite_eq {l v : List α} (h : l.length ≤ v.length) : overwrite l v = v := by simp [overwrite, List.drop_eq_nil_of_le h]
@[simp] theorem overwrite_map {l : List α} (f : α → α) : overwrite l (l.map f) = l.map f := overwrite_eq (by simp)

/-! Total-correctness contracts: `Ens x post` says that `x` returns normally and the result satisfies `post`. -/
def Ens (x : M α) (post : α → Prop) : Prop := ∃ r, x = .ok r ∧ post r

theorem Ens.bind {x : M α} {f : α → M β} {p : α → Prop} {q : β → Prop} (hx : Ens x p) (hf : ∀ a, p a → Ens (f a) q) : Ens (x >>= f) q := by
  obtain ⟨r, rfl, hp⟩ := hx; exact hf r hp

@[simp] theorem ok_bind (a : α) (f : α → M β) : ((Except.ok a : M α) >>= f) = f a := rfl
@[simp] theorem err_bind (e : Err) (f : α → M β) : ((Except.error e : M α) >>= f) = .error e := rfl
@[simp] theorem pure_eq (a : α) : (pure a : M α) = .ok a := rfl
@[simp] theorem throw_eq (e : Err) : (throw e : M α) = .error e := rfl

/-- `loop`: left by `break` or `return` only; never left counts as a failure -/
structure Forever
def foreverFuel {β : Type} (f : Unit → β → M (ForInStep β)) : ℕ → β → Option (M β)
  | 0, _ => none
  | n + 1, b => match f () b with
    | .error e => some (.error e)
    | .ok (.done b) => some (.ok b)
    | .ok (.yield b) => foreverFuel f n b
noncomputable def foreverM {β : Type} (f : Unit → β → M (ForInStep β)) (b : β) : M β :=
  open Classical in if h : ∃ n, (foreverFuel f n b).isSome then (foreverFuel f h.choose b).getD (.error .panic) else .error .panic
noncomputable instance : ForIn M Forever Unit where
  forIn _ b f := foreverM f b
theorem foreverFuel_mono {β : Type} (f : Unit → β → M (ForInStep β)) (n k : ℕ) (b : β) (r : M β) (h : foreverFuel f n b = some r) : foreverFuel f (n + k) b = some r := by
  induction n generalizing b with
  | zero => simp [foreverFuel] at h
  | succ n ih =>
    rw [show n + 1 + k = (n + k) + 1 by omega]
    unfold foreverFuel at h ⊢
    cases hf : f () b with
    | error e => rw [hf] at h; exact h
    | ok v =>
      rw [hf] at h
      cases v with
      | done b => exact h
      | yield b => exact ih b h
theorem foreverM_of {β : Type} {f : Unit → β → M (ForInStep β)} {n : ℕ} {b : β} {r : M β} (h : foreverFuel f n b = some r) : foreverM f b = r := by
  have hx : ∃ n, (foreverFuel f n b).isSome := ⟨n, by rw [h]; rfl⟩
  unfold foreverM
  rw [dif_pos hx]
  obtain ⟨r', hr'⟩ := Option.isSome_iff_exists.1 hx.choose_spec
  have e1 := foreverFuel_mono f _ n b r' hr'
  have e2 := foreverFuel_mono f _ hx.choose b r h
  rw [Nat.add_comm] at e2
  rw [hr', Option.getD_some]
  exact Option.some.inj (e1.symm.trans e2)
/-- one round of a `loop` -/
theorem foreverM_unfold {β : Type} (f : Unit → β → M (ForInStep β)) (b : β) :
    foreverM f b = (f () b >>= fun s => match s with | .done b => .ok b | .yield b => foreverM f b) := by
  cases hf : f () b with
  | error e => exact foreverM_of (n := 1) (by unfold foreverFuel; rw [hf]; rfl)
  | ok v =>
    cases v with
    | done b' => exact foreverM_of (n := 1) (by unfold foreverFuel; rw [hf]; rfl)
    | yield b' =>
      simp only [ok_bind]
      by_cases hx : ∃ n, (foreverFuel f n b').isSome
      · obtain ⟨n, hn⟩ := hx
        obtain ⟨r, hr⟩ := Option.isSome_iff_exists.1 hn
        rw [foreverM_of hr]
        exact foreverM_of (n := n + 1) (by unfold foreverFuel; rw [hf]; exact hr)
      · have hy : ¬ ∃ n, (foreverFuel f n b).isSome := by
          rintro ⟨n, hn⟩
          apply hx
          cases n with
          | zero => simp [foreverFuel] at hn
          | succ n => exact ⟨n, by unfold foreverFuel at hn; rw [hf] at hn; exact hn⟩
        unfold foreverM
        rw [dif_neg hx, dif_neg hy]
theorem forIn_forever {β : Type} (x : Forever) (f : Unit → β → M (ForInStep β)) (b : β) : forIn x b f = foreverM f b := rfl

/-! byte streams -/
inductive IoErr | eintr | other
  deriving DecidableEq, Repr, Inhabited
/-- what a blocking reader will still deliver: chunks of bytes and errors; the end of the list is end of file -/
inductive ReadEv | data (b : ℕ) (bs : List ℕ) | fail (e : IoErr)
  deriving DecidableEq, Repr, Inhabited
abbrev Src := List ReadEv
/-- `Read::read` into a buffer: a prefix of the next chunk, as long as the buffer admits -/
def readInto (s : Src) (buf : List ℕ) : Except IoErr ℕ × Src × List ℕ :=
  match s with
  | [] => (.ok 0, [], buf)
  | .fail e :: s => (.error e, s, buf)
  | .data b bs :: s =>
    if buf.length = 0 then (.ok 0, .data b bs :: s, buf)
    else match (b :: bs).drop buf.length with
      | [] => (.ok (b :: bs).length, s, overwrite buf (b :: bs))
      | c :: cs => (.ok buf.length, .data c cs :: s, (b :: bs).take buf.length)
/-- what a blocking writer will do: accept at most `n` bytes (0: none, the sink is full), or fail -/
inductive WriteEv | take (n : ℕ) | fail (e : IoErr)
  deriving DecidableEq, Repr, Inhabited
structure Sink where
  out : List ℕ
  plan : List WriteEv
  deriving Inhabited
/-- `Write::write_vectored`; with the plan exhausted the sink accepts everything -/
def writeVectored (w : Sink) (bufs : List (List ℕ)) : Except IoErr ℕ × Sink :=
  match w.plan with
  | [] => (.ok bufs.flatten.length, { w with out := w.out ++ bufs.flatten })
  | .take n :: p => (.ok (min n bufs.flatten.length), { out := w.out ++ bufs.flatten.take n, plan := p })
  | .fail e :: p => (.error e, { w with plan := p })
/-- `IoSlice::advance_slices`: drops the first `n` bytes and every slice that is used up, panics beyond the end -/
def advanceSlices : List (List ℕ) → ℕ → M (List (List ℕ))
  | [], n => if n = 0 then .ok [] else .error .panic
  | b :: bs, n => if b.length ≤ n then advanceSlices bs (n - b.length) else .ok (b.drop n :: bs)
/-- `Buf::advance`, `BytesMut::split_to` -/
def advance (b : List ℕ) (n : ℕ) : M (List ℕ) := if n ≤ b.length then .ok (b.drop n) else .error .panic
def splitTo (b : List ℕ) (n : ℕ) : M (List ℕ × List ℕ) := if n ≤ b.length then .ok (b.take n, b.drop n) else .error .panic
/-- slice to array -/
def toArray (n : ℕ) (l : List ℕ) : Option (List ℕ) := if l.length = n then some l else none
/-- big-endian bytes -/
def beBytes : ℕ → ℕ → List ℕ
  | 0, _ => []
  | k + 1, v => beBytes k (v / 256) ++ [v % 256]
def ofBeBytes (l : List ℕ) : ℕ := l.foldl (fun a b => 256 * a + b) 0

/-! strings -/
abbrev Str := List Char
/-- `Display` of strings and unsigned integers -/
class Disp (α : Type) where disp : α → Str
instance : Disp Str := ⟨fun s => s⟩
instance : Disp ℕ := ⟨fun n => Nat.toDigits 10 n⟩
/-- `str::split(char)` -/
def splitOn (c : Char) : Str → List Str
  | [] => [[]]
  | x :: xs => if x = c then [] :: splitOn c xs else match splitOn c xs with
    | [] => [[x]]
    | y :: ys => (x :: y) :: ys
def digits? : Str → ℕ → Option ℕ
  | [], a => some a
  | c :: cs, a => if c.isDigit then digits? cs (10 * a + (c.toNat - '0'.toNat)) else none
def stripPlus : Str → Str
  | '+' :: r => r
  | r => r
/-- `str::parse` for an unsigned integer type below `bound` -/
def parseUInt (bound : ℕ) (s : Str) : M ℕ :=
  if stripPlus s = [] then .error .err else match digits? (stripPlus s) 0 with
  | some v => if v < bound then .ok v else .error .err
  | none => .error .err

/-- `usize::ilog`: panics on 0 or a base below 2. -/
def ilog (a b : ℕ) : M ℕ := if a = 0 ∨ b < 2 then .error .panic else .ok (Nat.log b a)

/-- `while`: `n` rounds at most; `none` when the condition still holds after them -/
def whileFuel {σ : Type} (c : σ → M Bool) (b : σ → M σ) : ℕ → σ → Option (M σ)
  | 0, _ => none
  | n + 1, s => match c s with
    | .error e => some (.error e)
    | .ok false => some (.ok s)
    | .ok true => match b s with
      | .error e => some (.error e)
      | .ok s' => whileFuel c b n s'
/-- `while c { b }`; a loop that never ends counts as a failure -/
noncomputable def whileM {σ : Type} (c : σ → M Bool) (b : σ → M σ) (s : σ) : M σ :=
  open Classical in if h : ∃ n, (whileFuel c b n s).isSome then (whileFuel c b h.choose s).getD (.error .panic) else .error .panic
theorem whileFuel_mono {σ : Type} (c : σ → M Bool) (b : σ → M σ) (n k : ℕ) (s : σ) (r : M σ) (h : whileFuel c b n s = some r) : whileFuel c b (n + k) s = some r := by
  induction n generalizing s with
  | zero => simp [whileFuel] at h
  | succ n ih =>
    rw [show n + 1 + k = (n + k) + 1 by omega]
    unfold whileFuel at h ⊢
    cases hc : c s with
    | error e => rw [hc] at h; exact h
    | ok v =>
      rw [hc] at h
      cases v with
      | false => exact h
      | true =>
        simp only at h ⊢
        cases hb : b s with
        | error e => rw [hb] at h; exact h
        | ok s' => rw [hb] at h; exact ih s' h
theorem whileM_of {σ : Type} {c : σ → M Bool} {b : σ → M σ} {n : ℕ} {s : σ} {r : M σ} (h : whileFuel c b n s = some r) : whileM c b s = r := by
  have hex : ∃ n, (whileFuel c b n s).isSome := ⟨n, by simp [h]⟩
  unfold whileM
  rw [dif_pos hex]
  obtain ⟨r', hr'⟩ := Option.isSome_iff_exists.mp hex.choose_spec
  have a := whileFuel_mono c b n hex.choose s r h
  have b' := whileFuel_mono c b hex.choose n s r' hr'
  rw [Nat.add_comm] at b'
  rw [a] at b'
  rw [hr']; simp at b' ⊢; exact b'.symm
/-- a `while` loop with an invariant and a measure -/
theorem whileM_inv {σ : Type} (c : σ → M Bool) (b : σ → M σ) (m : σ → ℕ) (Inv : σ → Prop) (s : σ) (h0 : Inv s)
    (hc : ∀ s, Inv s → Ens (c s) (fun _ => True)) (hb : ∀ s, Inv s → c s = .ok true → Ens (b s) (fun s' => Inv s' ∧ m s' < m s)) :
    Ens (whileM c b s) (fun s' => Inv s' ∧ c s' = .ok false) := by
  suffices H : ∀ n s, Inv s → m s < n → ∃ s', whileFuel c b n s = some (.ok s') ∧ Inv s' ∧ c s' = .ok false by
    obtain ⟨s', h1, h2⟩ := H (m s + 1) s h0 (by omega)
    exact ⟨s', whileM_of h1, h2⟩
  intro n
  induction n with
  | zero => intro s _ h; omega
  | succ n ih =>
    intro s hi hm
    obtain ⟨v, hv, _⟩ := hc s hi
    unfold whileFuel
    rw [hv]
    cases v with
    | false => exact ⟨s, rfl, hi, hv⟩
    | true =>
      obtain ⟨s', hs', hi', hlt⟩ := hb s hi hv
      rw [hs']
      exact ih s' hi' (by omega)

/-- loop rule: `Inv` is indexed by the part of the list already processed -/
theorem foldlM_inv (l : List α) (f : β → α → M β) (b : β) (Inv : List α → β → Prop) (h0 : Inv [] b)
    (hs : ∀ pre a st, (pre ++ [a]) <+: l → Inv pre st → Ens (f st a) (Inv (pre ++ [a]))) : Ens (l.foldlM f b) (Inv l) := by
  suffices H : ∀ (suf pre : List α) (st : β), pre ++ suf = l → Inv pre st → Ens (suf.foldlM f st) (Inv l) from H l [] b rfl h0
  intro suf
  induction suf with
  | nil => intro pre st h hi; subst h; exact ⟨st, rfl, by simpa using hi⟩
  | cons a t ih =>
    intro pre st h hi
    rw [List.foldlM_cons]
    refine (hs pre a st ⟨t, by simpa using h⟩ hi).bind ?_
    intro st' hi'
    exact ih (pre ++ [a]) st' (by simpa using h) hi'

theorem foldl_inv (l : List α) (f : β → α → β) (b : β) (Inv : List α → β → Prop) (h0 : Inv [] b)
    (hs : ∀ pre a st, (pre ++ [a]) <+: l → Inv pre st → Inv (pre ++ [a]) (f st a)) : Inv l (l.foldl f b) := by
  suffices H : ∀ (suf pre : List α) (st : β), pre ++ suf = l → Inv pre st → Inv l (suf.foldl f st) from H l [] b rfl h0
  intro suf
  induction suf with
  | nil => intro pre st h hi; subst h; simpa using hi
  | cons a t ih =>
    intro pre st h hi
    exact ih (pre ++ [a]) _ (by simpa using h) (hs pre a st ⟨t, by simpa using h⟩ hi)

/-- a mapping loop whose body always returns normally is a `map` -/
theorem mapM_ok (l : List α) (f : α → M β) (g : α → β) (h : ∀ a ∈ l, f a = .ok (g a)) : l.mapM f = .ok (l.map g) := by
  induction l with
  | nil => rfl
  | cons a t ih =>
    rw [List.mapM_cons, h a (by simp), ok_bind, ih (fun b hb => h b (by simp [hb]))]; rfl

theorem foldlM_ok (l : List α) (f : β → α → M β) (g : β → α → β) (b : β) (h : ∀ s, ∀ a ∈ l, f s a = .ok (g s a)) : l.foldlM f b = .ok (l.foldl g b) := by
  induction l generalizing b with
  | nil => rfl
  | cons a t ih =>
    rw [List.foldlM_cons, h b a (by simp), ok_bind, ih _ (fun s x hx => h s x (by simp [hx]))]; rfl
theorem Ens.mono {x : M α} {p q : α → Prop} (hx : Ens x p) (h : ∀ a, p a → q a) : Ens x q := by
  obtain ⟨r, rfl, hp⟩ := hx; exact ⟨r, rfl, h r hp⟩
theorem prefix_getElem {pre l : List α} {a : α} (h : (pre ++ [a]) <+: l) : l[pre.length]? = some a := by
  obtain ⟨t, rfl⟩ := h; simp
theorem prefix_range' {pre : List ℕ} {i a n : ℕ} (h : (pre ++ [i]) <+: List.range' a n) : i = a + pre.length ∧ pre.length < n := by
  have := prefix_getElem h
  have hl : pre.length < n := by have := h.length_le; simp at this; omega
  rw [List.getElem?_range' hl] at this
  simp at this; exact ⟨by omega, hl⟩
theorem prefix_range {pre : List ℕ} {i n : ℕ} (h : (pre ++ [i]) <+: List.range n) : i = pre.length ∧ pre.length < n := by
  rw [List.range_eq_range'] at h; have := prefix_range' h; omega

/-- a loop that only checks each element -/
theorem foldlM_check (l : List α) (f : Unit → α → M Unit) (P : α → Prop) [DecidablePred P] (e : Err)
    (hf : ∀ u a, f u a = if P a then .ok () else .error e) : l.foldlM f () = if ∀ a ∈ l, P a then .ok () else .error e := by
  induction l with
  | nil => simp
  | cons a t ih =>
    rw [List.foldlM_cons, hf]
    by_cases h : P a <;> simp [h, ih]

/-- a mapping loop whose body always returns normally, with a contract per element -/
theorem mapM_ens (l : List α) (f : α → M β) (p : α → β → Prop) (h : ∀ a ∈ l, Ens (f a) (p a)) :
    Ens (l.mapM f) (fun r => List.Forall₂ p l r) := by
  induction l with
  | nil => exact ⟨[], rfl, .nil⟩
  | cons a t ih =>
    obtain ⟨b, hb, hp⟩ := h a (by simp)
    obtain ⟨r, hr, hq⟩ := ih (fun x hx => h x (by simp [hx]))
    exact ⟨b :: r, by rw [List.mapM_cons, hb, ok_bind, hr]; rfl, .cons hp hq⟩
end

/-! Randomness: an abstract stream that hands out field and group elements. -/
structure Rng where
  state : ℕ
instance : Inhabited Rng := ⟨⟨0⟩⟩
opaque drawImpl {F : Type} [Zero F] : {f : Rng → F × Rng // True} := ⟨fun r => (0, r), trivial⟩
def Rng.drawF {F : Type} [Zero F] (r : Rng) : F × Rng := drawImpl.1 r
abbrev Rng.drawG {G : Type} [Zero G] (r : Rng) : G × Rng := Rng.drawF r

/-- the first `n` field elements drawn, and the stream after them -/
def Rng.drawsF (F : Type) [Zero F] : ℕ → Rng → List F × Rng
  | 0, r => ([], r)
  | n + 1, r =>
    let p : F × Rng := Rng.drawF r
    let q := Rng.drawsF F n p.2
    (p.1 :: q.1, q.2)

@[simp] theorem Rng.drawsF_length (F : Type) [Zero F] (n : ℕ) (r : Rng) : (Rng.drawsF F n r).1.length = n := by
  induction n generalizing r with
  | zero => rfl
  | succ n ih => simp [Rng.drawsF, ih]

/-- a loop that pushes one fresh draw per round -/
theorem Rng.foldl_drawF {F : Type} [Zero F] {α : Type} (l : List α) (r : Rng) (c : List F)
    (f : Rng × List F → α → Rng × List F) (hf : ∀ r c a, f (r, c) a = ((Rng.drawF r : F × Rng).2, c ++ [(Rng.drawF r : F × Rng).1])) :
    List.foldl f (r, c) l = ((Rng.drawsF F l.length r).2, c ++ (Rng.drawsF F l.length r).1) := by
  induction l generalizing r c with
  | nil => simp [Rng.drawsF]
  | cons a t ih => simp [hf, ih, Rng.drawsF]

/-- rayon's thread count: any positive number -/
opaque numThreadsPos : {n : ℕ // 0 < n} := ⟨1, Nat.one_pos⟩
noncomputable def numThreads : ℕ := numThreadsPos.1
theorem numThreads_pos : 0 < numThreads := numThreadsPos.2

/-! ordered maps with string keys (`BTreeMap<String, V>`) -/
def strLt : Str → Str → Bool
  | [], [] => false
  | [], _ :: _ => true
  | _ :: _, [] => false
  | a :: as, b :: bs => if a = b then strLt as bs else decide (a < b)
abbrev BMap (V : Type) := List (Str × V)
def BMap.get? {V : Type} (m : BMap V) (k : Str) : Option V := (m.find? (fun e => e.1 = k)).map Prod.snd
def BMap.contains {V : Type} (m : BMap V) (k : Str) : Bool := (BMap.get? m k).isSome
def BMap.insert {V : Type} (m : BMap V) (k : Str) (v : V) : BMap V :=
  match m with
  | [] => [(k, v)]
  | e :: m => if e.1 = k then (k, v) :: m else if strLt k e.1 then (k, v) :: e :: m else e :: BMap.insert m k v
def BMap.ofList {V : Type} (l : List (Str × V)) : BMap V := l.foldl (fun m e => BMap.insert m e.1 e.2) []
theorem BMap.get?_insert {V : Type} (m : BMap V) (k k' : Str) (v : V) : BMap.get? (BMap.insert m k v) k' = if k = k' then some v else BMap.get? m k' := by
  induction m with
  | nil => by_cases h : k = k' <;> simp [BMap.insert, BMap.get?, h]
  | cons e m ih =>
    unfold BMap.insert
    by_cases h1 : e.1 = k
    · rw [if_pos h1]
      by_cases h : k = k'
      · simp [BMap.get?, h]
      · simp [BMap.get?, h, h1]
    · rw [if_neg h1]
      by_cases h2 : strLt k e.1
      · rw [if_pos h2]
        by_cases h : k = k' <;> simp [BMap.get?, h]
      · rw [if_neg h2]
        unfold BMap.get? at ih ⊢
        by_cases h3 : e.1 = k'
        · simp [h3, show k ≠ k' from fun h => h1 (h3.trans h.symm)]
        · simp only [List.find?_cons, h3, decide_false]; exact ih

end Rs
