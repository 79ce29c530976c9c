import json
b="mpc-core/src/protocols/shamir"
files=[b+".rs"]+[b+x for x in ["/network.rs","/arithmetic.rs","/arithmetic/types.rs","/pointshare.rs","/pointshare/types.rs","/rngs.rs"]]
items=[]
def it(fn,file,lean=None,impl=None,trait=None,module="ShamirNet"):
    d={"fn":fn,"lean":lean or fn,"file":b+file,"module":module}
    if impl: d["impl"]=impl
    if trait: d["trait"]=trait
    items.append(d)
for f in ["send_many","send_to","recv_many","recv_from","broadcast_next"]: it(f,"/network.rs",impl="Self",trait="ShamirNetworkExt")
it("from",".rs","state_from",impl="ShamirState")
it("get_pair",".rs",impl="ShamirState"); it("rand",".rs",impl="ShamirState")
for f in ["degree_reduce_many","degree_reduce","degree_reduce_point"]: it(f,"/network.rs",impl="Self",trait="ShamirNetworkExt")
for f in ["mul","mul_vec","inv","inv_vec","div","div_public_by_shared","open","open_vec","mul_open","mul_open_vec"]: it(f,"/arithmetic.rs","ar_"+f)
for f in ["scalar_mul","open_half_point","open_point","open_point_many","open_point_and_field","open_point_and_field_many"]: it(f,"/pointshare.rs","pt_"+f)
old=json.load(open('/verif/lean/cfg/shamir.json'))
ext=dict(old["externs"])
def e(k,lean,**kw): ext[k]=dict(lean=lean,**kw)
for f,m in [("evaluate_poly",1),("evaluate_poly_point",1),("lagrange_from_coeff",1),("interpolation_poly_from_zero_points",1),("reconstruct",0),("reconstruct_point",0),("poly_with_zeros_from_precomputed",0),("poly_with_zeros_from_precomputed_point",0)]:
    for k in [f,"super::"+f]:
        e(k,"Shamir."+f,monadic=bool(m))
for f in ["lagrange_from_coeff"]: e(f,"Shamir."+f+" (F := F)",monadic=True)
e("interpolation_poly_from_zero_points","Shamir.interpolation_poly_from_zero_points (F := F)",monadic=True)
e(".serialized_size","(0 : ℕ)",drop=[0,1]); ext[".serialized_size"]["lean"]="0"
e(".serialize_uncompressed","serInto",muts=[1],unit=True,monadic=False)
e("Bytes::from","$0")
e("Vec::deserialize_uncompressed_unchecked","deser",monadic=True)
e("F::deserialize_uncompressed_unchecked","deser",monadic=True)
e(".send","Net.send",muts=[0],unit=True,monadic=True)
e(".recv","Net.recv",muts=[0],monadic=True)
e(".buffer_triples","Refill.refill",muts=[0,1],unit=True,monadic=True)
e(".mul","pmul")
e("C::generator","Gen.gen (G := G)",monadic=False)
pre='''
/-- what one party sees of the network: messages waiting per sender, messages sent so far -/
structure Net where
  id_ : ℕ
  inbox : ℕ → List (List ℕ)
  out : List (ℕ × List ℕ)

def Net.send (n : Net) (dst : ℕ) (m : List ℕ) : M Net := .ok { n with out := n.out ++ [(dst, m)] }
def Net.recv (n : Net) (frm : ℕ) : M (List ℕ × Net) :=
  match n.inbox frm with
  | [] => .error .err
  | m :: r => .ok (m, { n with inbox := Function.update n.inbox frm r })

/-- canonical serialization: decoding an encoded value gives it back (the codec itself is arkworks') -/
class Ser (T : Type) where
  ser : T → List ℕ
  deser : List ℕ → M T
  rt : ∀ x, deser (ser x) = .ok x
export Ser (deser)
def serInto {T : Type} [Ser T] (x : T) (b : List ℕ) : List ℕ := b ++ Ser.ser x
/-- point times scalar -/
def pmul (p : G) (s : F) : G := s • p
class Gen (G : Type) where gen : G
'''
pre2='''
/-- refilling the pair buffer (its contract is property C05) -/
class Refill (F : Type) where refill : ShamirRng F → Net → ℕ → M (ShamirRng F × Net)
variable {T : Type} [Ser T] [Ser (List T)] [Ser F] [Ser (List F)] [Ser G] [Ser (List G)] [Ser (G × F)] [Ser (List G × List F)] [Ser (List (G × F))] [Ser (List (List F))] [Ser (List (List G))] [Ser (List (List G × List F))] [Refill F] [Gen G]
'''
cfg=dict(files=files,items=items,structs=["ShamirRng","ShamirState","ShamirPreprocessing"],
 modules=[{"name":"ShamirNet","imports":["Shamir","ShamirArith"],"ns":"Rs.ShamirNet","structs":["ShamirRng","ShamirState","ShamirPreprocessing"],
  "variables":"open Rs.ShamirOps\nvariable {F : Type} [Field F] [DecidableEq F] {G : Type} [AddCommGroup G] [Module F G] [DecidableEq G]\n"+pre,"preamble":pre2}],
 externs=ext,methods={},generics={"CanonicalSerialize":"T","CanonicalDeserialize":"T"},
 types={"Net":"Net","RngType":"Unit","ShamirPrimeFieldShare":"(ShamirPrimeFieldShare $0)","ShamirPointShare":"(ShamirPointShare $0)"},assoc={},consts={},
 skip_fields={"ShamirRng":["rng","shared_rngs","precomputed_interpolation_r_t","precomputed_interpolation_r_2t"]},
 trait_self={"ShamirNetworkExt":"Net"},thread_net=True,pure_sub=False,ascribe_mul=True)
json.dump(cfg,open('/verif/lean/cfg/shamirnet.json','w'),indent=1)
