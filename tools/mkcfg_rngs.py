#!/usr/bin/env python3
"""writes lean/cfg/shamirrngs.json"""
import json,os
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
b="mpc-core/src/protocols/shamir"
items=[]
def it(fn,file,lean=None,impl=None): items.append({"fn":fn,"lean":lean or fn,"file":b+file,"module":"ShamirRngs","impl":impl})
for f in ["create_vandermonde_matrix","matmul","get_size_per_batch","precompute_interpolation_polys","set_my_share","send_share_of_randomness","receive_share_of_randomness","buffer_triples"]: it(f,"/rngs.rs",impl="ShamirRng")
it("fork_with_pairs","/rngs.rs",impl="ShamirRng")
it("buffer_triples",".rs","state_buffer_triples",impl="ShamirState")
it("fork",".rs","state_fork",impl="ShamirState")
it("get_pair",".rs",impl="ShamirState")
e={}
def ext(k,lean,**kw): e[k]=dict(lean=lean,**kw)
ext("RngType::from_seed","fromSeed",monadic=False)
ext(".gen","genSeed",monadic=False,muts=[0]); ext(".r#gen","genSeed",monadic=False,muts=[0])
ext(".random_double_share","Rds.rds",monadic=True,muts=[0,2])
ext("ShamirState::buffer_triples","state_buffer_triples",monadic=True,muts=[0,1],unit=True)
ext(".buffer_triples","buffer_triples",monadic=True,muts=[0,1],unit=True)
for f,m in [("evaluate_poly",1),("interpolate_poly_from_precomputed",0),("precompute_interpolation_polys",1)]:
    ext(f,"Shamir."+f,monadic=bool(m))
ext(".send_many","send_many",muts=[0],unit=True,monadic=True)
ext(".recv_many","recv_many",muts=[0],monadic=True)
pre='''
/-- what one party sees of the network: messages waiting per sender, messages sent so far -/
structure Net where
  id_ : ℕ
  inbox : ℕ → List (List ℕ)
  out : List (ℕ × List ℕ)

def Net.send (n : Net) (dst : ℕ) (m : List ℕ) : M Net := .ok { n with out := n.out ++ [(dst, m)] }
def Net.recv (n : Net) (frm : ℕ) : M (List ℕ × Net) :=
  match n.inbox frm with
  | [] => .error .err
  | m :: r => .ok (m, { n with inbox := Function.update n.inbox frm r })

/-- canonical serialization: decoding an encoded value gives it back (the codec itself is arkworks') -/
class Ser (T : Type) where
  ser : T → List ℕ
  deser : List ℕ → M T
  rt : ∀ x, deser (ser x) = .ok x
export Ser (deser)
def serInto {T : Type} [Ser T] (x : T) (b : List ℕ) : List ℕ := b ++ Ser.ser x
def send_many {T : Type} [Ser (List T)] (n : Net) (j : ℕ) (d : List T) : M Net := Net.send n j (Ser.ser d)
def recv_many {T : Type} [Ser (List T)] (n : Net) (j : ℕ) : M (List T × Net) := do let r ← Net.recv n j; let d ← deser r.1; .ok (d, r.2)
'''
pre2='''
opaque seedImpl : {f : Rng → ℕ × Rng // True} := ⟨fun r => (0, r), trivial⟩
def genSeed (r : Rng) : ℕ × Rng := seedImpl.1 r
opaque fromSeedImpl : {f : ℕ → Rng // True} := ⟨fun _ => default, trivial⟩
def fromSeed (s : ℕ) : Rng := fromSeedImpl.1 s
variable [Ser (List F)]
/-- what `random_double_share` returns (its own draws and messages are checked by the bounded harness) -/
class Rds (F : Type) where
  rds : ShamirRng F → ℕ → Net → M ((List (List F) × List (List F)) × ShamirRng F × Net)
variable [Rds F]
/-- the place that `get_rng_mut` hands out: reading it, writing through it -/
def rngAt.get (s : ShamirRng F) (o : ℕ) : M Rng := if o < s.id_ then idx s.shared_rngs o else if s.id_ < o then idx s.shared_rngs (o - 1) else .ok s.rng
def rngAt.set (s : ShamirRng F) (o : ℕ) (v : Rng) : M (ShamirRng F) :=
  if o < s.id_ then do let l ← rset s.shared_rngs o v; .ok { s with shared_rngs := l }
  else if s.id_ < o then do let l ← rset s.shared_rngs (o - 1) v; .ok { s with shared_rngs := l }
  else .ok { s with rng := v }
'''
cfg=dict(files=[b+".rs",b+"/rngs.rs"],items=items,structs=["ShamirRng","ShamirState"],
 modules=[{"name":"ShamirRngs","imports":["Shamir"],"ns":"Rs.ShamirRngs","structs":["ShamirRng","ShamirState"],
  "variables":"variable {F : Type} [Field F] [DecidableEq F]\n"+pre,"preamble":pre2}],
 externs=e,methods={},generics={},types={"Net":"Net","RngType":"Rng"},assoc={},consts={},
 noderive=["ShamirRng","ShamirState"],lens={"get_rng_mut":"rngAt"},thread_net=True,pure_sub=False,ascribe_mul=True)
json.dump(cfg,open(H+'/lean/cfg/shamirrngs.json','w'),indent=1)
