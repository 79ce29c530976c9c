import RsPrelude
set_option linter.all false
set_option autoImplicit false

/-! The world the transport functions act on: counters (`AtomicUsize`) and queues, both named by handles.
Whether a queue operation succeeds (peer gone, time-out, queue full) is decided by an arbitrary oracle, step by step,
so a contract proved here holds for every schedule of failures.  An error keeps the world reached so far. -/
namespace Rs.Chan

abbrev Bytes := List ℕ
inductive WriteMsg
  | Frame (b : Bytes)

/-- what can travel through a queue, as the bytes of the frame it is -/
class Payload (T : Type) where bytes : T → Bytes
instance : Payload Bytes := ⟨id⟩
instance : Payload WriteMsg := ⟨fun | .Frame b => b⟩

structure World where
  counter : ℕ → ℕ
  /-- everything ever put into a queue / taken out of it, oldest first -/
  put : ℕ → List Bytes
  got : ℕ → List Bytes
  fresh : ℕ
  clock : ℕ

/-- the outside: `ok t` whether the queue operation at time `t` succeeds, `yields t` what a receive then returns -/
structure Outside where
  ok : ℕ → Bool
  yields : ℕ → Bytes

abbrev M := ExceptT Err (StateM World)

instance : MonadLift (Except Err) M := ⟨fun x => fun w => (x, w)⟩

variable (O : Outside)

def upd {α : Type} (f : ℕ → α) (k : ℕ) (v : α) : ℕ → α := fun j => if j = k then v else f j

def fetchAdd (c n : ℕ) : M ℕ := fun w => (.ok (w.counter c), { w with counter := upd w.counter c (w.counter c + n) })
def load (c : ℕ) : M ℕ := fun w => (.ok (w.counter c), w)
def newCounter : M ℕ := fun w => (.ok w.fresh, { w with counter := upd w.counter w.fresh 0, fresh := w.fresh + 1 })
/-- a bounded queue: its two ends are the same handle -/
def newChan (cap : ℕ) : M (ℕ × ℕ) :=
  fun w => (.ok (w.fresh, w.fresh), { w with put := upd w.put w.fresh [], got := upd w.got w.fresh [], fresh := w.fresh + 1 })
def sendQ {T : Type} [Payload T] (c : ℕ) (m : T) : M Unit := fun w =>
  if O.ok w.clock then (.ok (), { w with put := upd w.put c (w.put c ++ [Payload.bytes m]), clock := w.clock + 1 })
  else (.error .err, { w with clock := w.clock + 1 })
/-- a receive that succeeds takes the next frame; a receive can fail whatever is in the queue -/
def recvQ (c : ℕ) : M Bytes := fun w =>
  if O.ok w.clock then (.ok (O.yields w.clock), { w with got := upd w.got c (w.got c ++ [O.yields w.clock]), clock := w.clock + 1 })
  else (.error .err, { w with clock := w.clock + 1 })

/-- maps keyed by party -/
abbrev PMap (V : Type) := List (ℕ × V)
def PMap.get? {V : Type} (m : PMap V) (k : ℕ) : Option V := (m.find? (fun e => e.1 = k)).map Prod.snd
def PMap.insert {V : Type} (m : PMap V) (k : ℕ) (v : V) : PMap V := (k, v) :: m.filter (fun e => e.1 ≠ k)

end Rs.Chan
