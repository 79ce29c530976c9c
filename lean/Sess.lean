import RsPrelude
set_option linter.all false
set_option autoImplicit false

/-! The world of the session hand-over (`TcpStreams`): the map shared by the accept loop and the sessions, and the
one-shot queues of the waiters.  A wait gives way to the other threads: an arbitrary step `env` of the outside. -/
namespace Rs.Sess

structure TcpStream where
  ident : ℕ
  pending : List ℕ

inductive MaybeTcpStream
  | TcpStream (s : TcpStream)
  | Waiter (tx : ℕ)

abbrev Key := ℕ × ℕ
structure World where
  map : Key → Option (MaybeTcpStream × ℕ)
  queue : ℕ → List TcpStream
  fresh : ℕ
  clock : ℕ

structure Outside where
  ok : ℕ → Bool
  env : World → World

abbrev M := ExceptT Err (StateM World)
instance : MonadLift (Except Err) M := ⟨fun x => fun w => (x, w)⟩
variable (O : Outside)

def upd {κ α : Type} [DecidableEq κ] (f : κ → α) (k : κ) (v : α) : κ → α := fun j => if j = k then v else f j

/-- big-endian read of `n` bytes -/
def readBE (n : ℕ) (s : TcpStream) : M (ℕ × TcpStream) := fun w =>
  if n ≤ s.pending.length then (.ok ((s.pending.take n).foldl (fun a b => 256 * a + b) 0, { s with pending := s.pending.drop n }), w)
  else (.error .err, w)
def mapRemove (h : Unit) (k : Key) : M (Option (MaybeTcpStream × ℕ)) := fun w => (.ok (w.map k), { w with map := upd w.map k none })
def mapInsert (h : Unit) (k : Key) (v : MaybeTcpStream × ℕ) : M Unit := fun w =>
  (.ok (), { w with map := upd w.map k (some v) })
def newChan (cap : ℕ) : M (ℕ × ℕ) := fun w =>
  (.ok (w.fresh, w.fresh), { w with queue := upd w.queue w.fresh [], fresh := w.fresh + 1 })
def sendQ (c : ℕ) (s : TcpStream) : M Unit := fun w =>
  if O.ok w.clock then (.ok (), { w with queue := upd w.queue c (w.queue c ++ [s]), clock := w.clock + 1 })
  else (.error .err, { w with clock := w.clock + 1 })
def recvQ (c : ℕ) : M TcpStream := fun w =>
  let w' := O.env w
  match w'.queue c with
  | s :: q => (.ok s, { w' with queue := upd w'.queue c q })
  | [] => (.error .err, w')
/-- the outcome of a call as a value -/
def isErr {α : Type} (x : M α) : M Bool := fun w => match x w with | (.ok _, w) => (.ok false, w) | (.error _, w) => (.ok true, w)
/-- setting socket options can fail and touches nothing else -/
def sockopt {α : Type} (s : TcpStream) (x : α) : M Unit := fun w => if O.ok w.clock then (.ok (), { w with clock := w.clock + 1 }) else (.error .err, { w with clock := w.clock + 1 })

end Rs.Sess
