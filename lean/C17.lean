import CircomTypes
import Lib
set_option linter.all false
set_option autoImplicit false
/-! C17: literals of the JSON input under contract. -/
open Rs Rs.CircomParse Rs.CircomTypes
namespace C17
variable {F : Type} [Field F] [DecidableEq F] (Nums : Parsers F)

theorem parse_boolean_spec (v : Json) : parse_boolean (F := F) v = match v with | .bool true => .ok 1 | .bool false => .ok 0 | _ => .error .err := by
  unfold parse_boolean
  cases v with
  | bool b => cases b <;> simp [Json.asBool]
  | _ => simp [Json.asBool]

/-- the rest after a prefix -/
def after (p s : Str) : Option Str := if p.isPrefixOf s then some (s.drop p.length) else none
/-- an unsigned literal: hexadecimal after `0x`, else decimal -/
def posOf (s : Str) : M F :=
  match after ['0', 'x'] s with
  | some r => (Nums.radix r 16).map (fun n => ((n : ℕ) : F))
  | none => Nums.dec s
/-- a literal: a leading minus negates -/
def litOf (s : Str) : M F :=
  match after ['-'] s with
  | some r => (posOf Nums r).map (fun x => -x)
  | none => posOf Nums s

/-- the residue of a natural number does not depend on a reduction by the modulus -/
theorem cast_rem (p n : ℕ) (hp : ((p : ℕ) : F) = 0) : ((n % p : ℕ) : F) = (n : F) := by
  conv_rhs => rw [← Nat.div_add_mod n p]
  push_cast
  rw [hp]; simp
/-- the reduction below the modulus, guarded or not -/
theorem reduce_cast (hp : 0 < Nums.modulus) (hm : ((Nums.modulus : ℕ) : F) = 0) (n : ℕ) :
    ((if Nums.modulus ≤ n then rmod n Nums.modulus else .ok n) >>= fun r => (.ok ((r : ℕ) : F) : M F)) = .ok (n : F) := by
  by_cases hn : Nums.modulus ≤ n
  · simp [hn, rmod, Nat.pos_iff_ne_zero.mp hp, cast_rem _ _ hm]
  · simp [hn]

/-- every literal is mapped to the element it denotes, everything that is no string is an error -/
theorem parse_field_spec (hp : 0 < Nums.modulus) (hm : ((Nums.modulus : ℕ) : F) = 0) (v : Json) :
    parse_field Nums v = match v with | .str s => litOf Nums s | _ => .error .err := by
  unfold parse_field
  cases v with
  | str s =>
    have e45 : Char.ofNat 45 = '-' := by decide
    have e0x : (("0x" : String).toList) = ['0', 'x'] := by decide
    have em : ∀ s : Str, stripPrefix s '-' = after ['-'] s := fun _ => rfl
    have ex : ∀ s : Str, stripPrefix s (['0', 'x'] : Str) = after ['0', 'x'] s := fun _ => rfl
    simp only [Json.asStr, okOr_some, ok_bind, e45, e0x, em, ex, unwrap_some, pure_eq, rfrom_nat, bind_assoc, decide_eq_true_eq]
    unfold litOf posOf
    cases after ['-'] s with
    | none =>
      simp only [Bool.false_eq_true, if_false]
      cases after ['0', 'x'] s with
      | none => simp only []; cases Nums.dec s <;> simp
      | some r =>
        simp only []
        cases Nums.radix r 16 with
        | error e => rfl
        | ok n =>
          have := reduce_cast Nums hp hm n
          by_cases hn : Nums.modulus ≤ n <;> simp [hn, Except.map, rmod, Nat.pos_iff_ne_zero.mp hp, cast_rem _ _ hm]
    | some t =>
      simp only [if_true]
      cases after ['0', 'x'] t with
      | none => simp only []; cases Nums.dec t <;> simp [Except.map]
      | some r =>
        simp only []
        cases Nums.radix r 16 with
        | error e => rfl
        | ok n =>
          by_cases hn : Nums.modulus ≤ n <;> simp [hn, Except.map, rmod, Nat.pos_iff_ne_zero.mp hp, cast_rem _ _ hm]
  | _ => simp [Json.asStr]

/-- what one element of an array contributes -/
def elemOf (rec : Json → M (List (Option F))) (e : Json) : M (List (Option F)) :=
  match e with
  | .arr l => rec (.arr l)
  | .bool true => .ok [some 1]
  | .bool false => .ok [some 0]
  | .str s => if s = ['?'] then .ok [none] else (litOf Nums s).map (fun x => [some x])
  | _ => .error .err

theorem bind_map {α β γ : Type} (x : M α) (f : α → β) (g : β → M γ) : (x.map f) >>= g = x >>= fun a => g (f a) := by cases x <;> rfl

theorem foldlM_append (rec : Json → M (List (Option F))) (f : List (Option F) → Json → M (List (Option F)))
    (hf : ∀ acc e, f acc e = elemOf Nums rec e >>= fun r => .ok (acc ++ r)) (l : List Json) (acc : List (Option F)) :
    l.foldlM f acc = (l.mapM (elemOf Nums rec)) >>= fun r => .ok (acc ++ r.flatten) := by
  induction l generalizing acc with
  | nil => simp
  | cons e t ih =>
    rw [List.foldlM_cons, List.mapM_cons, hf]
    cases elemOf Nums rec e with
    | error e => rfl
    | ok r =>
      simp only [ok_bind, pure_eq] at ih ⊢
      rw [ih]
      cases t.mapM (elemOf Nums rec) <;> simp

/-- an array is flattened in order, element by element -/
theorem parse_array_spec (hp : 0 < Nums.modulus) (hm : ((Nums.modulus : ℕ) : F) = 0) (rec : Json → M (List (Option F))) (l : List Json) :
    parse_array Nums rec (.arr l) = (l.mapM (elemOf Nums rec)).map List.flatten := by
  unfold parse_array
  simp only [Json.asArray, unwrap_some, okOr_some, ok_bind]
  rw [foldlM_append Nums rec]
  · cases l.mapM (elemOf Nums rec) <;> simp [Except.map]
  · intro acc ele
    have eq : (("?" : String).toList) = ['?'] := by decide
    simp only [parse_field_spec Nums hp hm, parse_boolean_spec, eq]
    cases ele with
    | arr l => simp [Json.isArray, elemOf]
    | bool b => cases b <;> simp [Json.isArray, Json.isBoolean, elemOf]
    | str s =>
      by_cases h : s = ['?']
      · subst h; simp [Json.isArray, Json.isBoolean, Json.asStr, elemOf]
      · simp only [Json.isArray, Json.isBoolean, Json.asStr, elemOf]
        cases litOf Nums s <;> simp [h, Except.map]
    | _ => simp [Json.isArray, Json.isBoolean, Json.asStr, elemOf]

/-- the recursion of `parse_array` is tied: deep enough nesting levels give the same result -/
theorem parse_array_fuel (hp : 0 < Nums.modulus) (hm : ((Nums.modulus : ℕ) : F) = 0) (n : ℕ) (l : List Json) (h : sizeOf (Json.arr l) ≤ n) :
    parseAn Nums n (.arr l) = parseA Nums (.arr l) := by
  suffices H : ∀ (k : ℕ) (l : List Json), sizeOf (Json.arr l) ≤ k → ∀ a b, sizeOf (Json.arr l) ≤ a → sizeOf (Json.arr l) ≤ b → parseAn Nums a (.arr l) = parseAn Nums b (.arr l) from
    H n l h n _ h le_rfl
  intro k
  induction k with
  | zero => intro l hl; simp at hl
  | succ k ih =>
    intro l hl a b ha hb
    have s1 : sizeOf (Json.arr l) = 1 + sizeOf l := by simp
    obtain ⟨a, rfl⟩ : ∃ a', a = a' + 1 := ⟨a - 1, by omega⟩
    obtain ⟨b, rfl⟩ : ∃ b', b = b' + 1 := ⟨b - 1, by omega⟩
    unfold parseAn
    rw [parse_array_spec Nums hp hm, parse_array_spec Nums hp hm]
    congr 1
    have : ∀ e ∈ l, elemOf Nums (parseAn Nums a) e = elemOf Nums (parseAn Nums b) e := by
      intro e he
      cases e with
      | arr l' =>
        have hs : sizeOf (Json.arr l') < sizeOf l := List.sizeOf_lt_of_mem he
        exact ih l' (by omega) a b (by omega) (by omega)
      | bool v => cases v <;> rfl
      | str s => unfold elemOf; rfl
      | _ => rfl
    clear hl ha hb s1
    induction l with
    | nil => rfl
    | cons e t iht =>
      rw [List.mapM_cons, List.mapM_cons, this e (by simp), iht (fun x hx => this x (by simp [hx]))]

/-- nested arrays: the elements in row-major order; unassigned placeholders stay unassigned; the first element that is no literal fails the whole array -/
theorem nested (hp : 0 < Nums.modulus) (hm : ((Nums.modulus : ℕ) : F) = 0) (l : List Json) :
    parseA Nums (.arr l) = (l.mapM (elemOf Nums (parseA Nums))).map List.flatten := by
  have s1 : sizeOf (Json.arr l) = sizeOf l + 1 := by simp; omega
  unfold parseA
  rw [s1]
  rw [show parseAn Nums (sizeOf l + 1) (.arr l) = parse_array Nums (parseAn Nums (sizeOf l)) (.arr l) from rfl]
  rw [parse_array_spec Nums hp hm]
  congr 1
  have : ∀ e ∈ l, elemOf Nums (parseAn Nums (sizeOf l)) e = elemOf Nums (fun j => parseAn Nums (sizeOf j) j) e := by
    intro e he
    cases e with
    | arr l' => exact parse_array_fuel Nums hp hm _ _ (List.sizeOf_lt_of_mem he).le
    | bool v => cases v <;> rfl
    | str s => unfold elemOf; rfl
    | _ => rfl
  generalize sizeOf l = n at this
  clear s1
  induction l with
  | nil => rfl
  | cons e t iht =>
    rw [List.mapM_cons, List.mapM_cons, this e (by simp), iht (fun x hx => this x (by simp [hx]))]
end C17
