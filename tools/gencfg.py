#!/usr/bin/env python3
"""Writes lean/cfg/{shamirops,rep3ops}.json from the tree at hand (a development tool: the written files are committed,
and name the functions under contract; the checks read only those)."""
import json, os, re
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lean/cfg")
P = "mpc-core/src/protocols/"


def ops(rel, short, module):
    """one item per operator impl of an ops.rs file"""
    t = open(f"{REPO}/{rel}").read()
    out = []
    for m in re.finditer(r"^impl<[^{]*?>\s+([\w:]+(?:<.*?>)?) for (&(?:'_ )?)?(\w+)(?:<[^{]*>)? \{(.*?)^\}", t, flags=re.M | re.S):
        tr, selfref, st, body = m[1], bool(m[2]), m[3], m[4]
        last = re.sub(r"^.*?(\w+)(<.*)?$", r"\1\2", tr.split("<")[0].split("::")[-1] + (tr[tr.index("<"):] if "<" in tr else ""))
        arg = tr[tr.index("<") + 1:-1] if "<" in tr else ""
        base = last.split("<")[0]
        suf = ""
        if selfref:
            suf += "_ref"
        a = arg.replace(" ", "")
        if a:
            suf += "_r" if a.startswith("&") else "_v"
            a2 = a.lstrip("&")
            suf += {"usize": "usize", "Self": "self"}.get(a2, re.sub(r"\W+", "", a2.split("<")[0]))
        for f in re.findall(r"^    (?:pub )?fn (\w+)", body, flags=re.M):
            if f == "is_zero":
                continue
            out.append({"fn": f, "impl": st, "trait": last.replace(" ", ""), "selfref": selfref, "file": rel, "module": module,
                        "lean": f"{short}_{f}{suf}"})
    seen = {}
    for o in out:
        assert o["lean"] not in seen, (o, seen[o["lean"]])
        seen[o["lean"]] = o
    return out


def fns(rel, names, module, prefix="", impl=None):
    r = []
    for n in names.split():
        d = {"fn": n, "lean": prefix + n, "file": rel, "module": module}
        if impl:
            d["impl"] = impl
        r.append(d)
    return r


def write(name, cfg):
    for k in ("externs", "methods", "generics", "types", "assoc", "consts"):
        cfg.setdefault(k, {})
    json.dump(cfg, open(f"{OUT}/{name}.json", "w"), indent=1)


FG = "variable {F : Type} [Field F] [DecidableEq F] {G : Type} [AddCommGroup G] [Module F G] [DecidableEq G]"


def shamirops():
    A, PS = P + "shamir/arithmetic", P + "shamir/pointshare"
    items = ops(A + "/ops.rs", "fs", "ShamirOps") + ops(PS + "/ops.rs", "ps", "ShamirOps")
    # the point-share product on the field share
    items += fns(A + "/types.rs", "new zero_share inner", "ShamirOps", "fs_", "ShamirPrimeFieldShare")
    items += fns(PS + "/types.rs", "new inner", "ShamirOps", "ps_", "ShamirPointShare")
    items += fns(A + ".rs", "add add_assign sub sub_assign sub_vec_assign add_public add_assign_public add_vec_assign local_mul_vec mul_public mul_assign_public div_shared_by_public neg promote_to_trivial_share promote_to_trivial_shares", "ShamirArith", "ar_")
    items += fns(PS + ".rs", "add sub add_assign sub_assign add_assign_public sub_assign_public add_assign_public_affine sub_assign_public_affine scalar_mul_public_point scalar_mul_public_scalar scalar_mul_local promote_to_trivial_share msm_public_points", "ShamirArith", "pt_")
    items += fns(P + "shamir/poly.rs", "horner_evaluate eval_poly", "ShamirArith", "poly_")
    fs, ps = "ShamirPrimeFieldShare", "ShamirPointShare"
    pre = f"""
instance : HAdd ({fs} F) ({fs} F) ({fs} F) := ⟨fs_add⟩
instance : HAdd ({fs} F) F ({fs} F) := ⟨fs_add_vF⟩
instance : HSub ({fs} F) ({fs} F) ({fs} F) := ⟨fs_sub⟩
instance : PSub ({fs} F) ({fs} F) ({fs} F) := ⟨fs_sub⟩
instance : HMul ({fs} F) ({fs} F) ({fs} F) := ⟨fs_mul⟩
instance : HMul ({fs} F) F ({fs} F) := ⟨fs_mul_vF⟩
instance : Neg ({fs} F) := ⟨fs_neg⟩
instance : HAdd ({ps} G) ({ps} G) ({ps} G) := ⟨ps_add⟩
instance : HSub ({ps} G) ({ps} G) ({ps} G) := ⟨ps_sub⟩
instance : PSub ({ps} G) ({ps} G) ({ps} G) := ⟨ps_sub⟩
instance : HMul ({ps} G) F ({ps} G) := ⟨ps_mul_ref_rCScalarField⟩
instance : HMul ({fs} F) ({ps} G) ({ps} G) := ⟨ps_mul_rShamirPointShare⟩
"""
    ext = {}
    for s in (fs, ps):
        for n, f in (("convert_slice", "a"), ("convert_vec", "a"), ("convert_slice_rev", "mk"), ("convert_vec_rev", "mk")):
            ext[f"{s}::{n}"] = {"lean": f"List.map {s}.{f} $0"}
    ext["msm::msm_unchecked"] = {"lean": "msm"}
    write("shamirops", {
        "files": [P + x for x in ("shamir.rs", "shamir/arithmetic.rs", "shamir/arithmetic/ops.rs", "shamir/arithmetic/types.rs", "shamir/poly.rs", "shamir/pointshare.rs", "shamir/pointshare/ops.rs", "shamir/pointshare/types.rs")],
        "items": items, "structs": [fs, ps],
        "modules": [
            {"name": "ShamirOps", "imports": ["RsPrelude"], "ns": "Rs.ShamirOps", "structs": [fs, ps], "variables": FG},
            {"name": "ShamirArith", "imports": ["ShamirOps"], "ns": "Rs.ShamirOps", "structs": [], "preamble": pre, "variables": FG}],
        "externs": ext})


U = "variable {U : Type} [DecidableEq U] [XorOp U] [AndOp U] [OrOp U] [HShiftLeft U ℕ U] [HShiftRight U ℕ U] [NatCast U] [Zero U]\nvariable (toUsize : U → Option ℕ) (modulusBits : ℕ)"


def rep3ops():
    R = P + "rep3/"
    A, B, PS = R + "arithmetic", R + "binary", R + "pointshare"
    fs, us, ps = "Rep3PrimeFieldShare", "Rep3UintShare", "Rep3PointShare"
    items = fns(R + "id.rs", "next prev", "Rep3Ops", "pid_", "PartyID")
    items += ops(A + "/ops.rs", "rf", "Rep3Ops")
    items += fns(A + "/types.rs", "new zero_share ab double_in_place double promote_from_trivial_with_scalar promote_from_trivial", "Rep3Ops", "rf_", fs)
    items += fns(A + ".rs", "add add_assign add_public add_assign_public add_vec_assign sub sub_assign sub_vec_assign sub_shared_by_public sub_public_by_shared mul_public mul_assign_public div_shared_by_public neg add_mul_public promote_to_trivial_share", "Rep3Arith", "ra_")
    items += fns(P + "rep3.rs", "share_field_element share_field_elements combine_field_element combine_field_elements share_field_element_additive", "Rep3Arith", "r3_")
    items += fns(R + "poly.rs", "horner_evaluate eval_poly", "Rep3Arith", "rpoly_")
    items += ops(PS + "/ops.rs", "rp", "Rep3PtOps")
    items += fns(PS + "/types.rs", "new zero_share ab", "Rep3PtOps", "rp_", ps)
    items += fns(PS + ".rs", "add sub add_assign sub_assign add_assign_public sub_assign_public scalar_mul_public_point scalar_mul_public_scalar promote_to_trivial_share msm_public_points", "Rep3Pt", "rq_")
    items += fns(P + "rep3.rs", "share_curve_point share_curve_points combine_curve_point combine_curve_points", "Rep3Pt", "r3_")
    pf = f"""
instance : HAdd ({fs} F) ({fs} F) ({fs} F) := ⟨rf_add⟩
instance : HSub ({fs} F) ({fs} F) ({fs} F) := ⟨rf_sub⟩
instance : PSub ({fs} F) ({fs} F) ({fs} F) := ⟨rf_sub⟩
instance : HMul ({fs} F) ({fs} F) F := ⟨rf_mul⟩
instance : HMul ({fs} F) F ({fs} F) := ⟨rf_mul_vF⟩
instance : Neg ({fs} F) := ⟨rf_neg⟩
"""
    pp = f"""
instance : HAdd ({ps} G) ({ps} G) ({ps} G) := ⟨rp_add⟩
instance : HSub ({ps} G) ({ps} G) ({ps} G) := ⟨rp_sub⟩
instance : PSub ({ps} G) ({ps} G) ({ps} G) := ⟨rp_sub⟩
instance : HMul ({ps} G) F ({ps} G) := ⟨rp_mul_ref_vCScalarField⟩
instance : HMul ({fs} F) ({ps} G) G := ⟨rp_mul_rRep3PointShare⟩
instance : Neg ({ps} G) := ⟨rp_neg⟩
"""
    pb = f"""
instance : HXor ({us} U) ({us} U) ({us} U) := ⟨rb_bitxor⟩
instance : HAnd ({us} U) ({us} U) U := ⟨rb_bitand⟩
instance : HShiftLeft ({us} U) ℕ ({us} U) := ⟨rb_shl_vusize⟩
instance : HShiftRight ({us} U) ℕ ({us} U) := ⟨rb_shr_vusize⟩
"""
    FGg = FG + "\nvariable (generator : G)"
    ns = "Rs.Rep3Ops"
    ext = {"msm::msm_unchecked": {"lean": "msm"}, "msm::msm_bigint": {"lean": "msm"}, "itertools::multizip": {"lean": "multizip3"}}
    write("rep3ops", {
        "files": [P + "rep3.rs"] + [R + x for x in ("id.rs", "arithmetic.rs", "arithmetic/ops.rs", "arithmetic/types.rs", "poly.rs", "pointshare.rs", "pointshare/ops.rs", "pointshare/types.rs", "binary.rs", "binary/ops.rs", "binary/types.rs")],
        "items": items, "structs": ["PartyID", fs, ps],
        "modules": [
            {"name": "Rep3Ops", "imports": ["RsPrelude"], "ns": ns, "structs": ["PartyID", fs], "variables": FG},
            {"name": "Rep3Arith", "imports": ["Rep3Ops"], "ns": ns, "structs": [], "preamble": pf, "variables": FG},
            {"name": "Rep3PtOps", "imports": ["Rep3Ops"], "ns": ns, "structs": [ps], "variables": FG},
            {"name": "Rep3Pt", "imports": ["Rep3PtOps", "Rep3Arith"], "ns": ns, "structs": [], "preamble": pp, "variables": FGg},
            ],
        "externs": ext})
    items = ops(B + "/ops.rs", "rb", "Rep3BinOps")
    items += fns(B + "/types.rs", "new zero_share ab xor_mask xor_mask_assign and_mask and_mask_assign", "Rep3BinOps", "rb_", us)
    items += fns(B + ".rs", "xor xor_public xor_public_vec or_public and_with_public promote_to_trivial_share shift_r_public shift_l_public", "Rep3Bin", "rn_")
    items += fns(P + "rep3.rs", "combine_binary_element combine_binary_elements", "Rep3Bin", "r3_")
    for i in items:
        if i.get("selfref"):
            i["module"] = "Rep3Bin"
    write("rep3bin", {
        "files": [P + "rep3.rs"] + [R + x for x in ("id.rs", "binary.rs", "binary/ops.rs", "binary/types.rs")],
        "items": items, "structs": ["PartyID", us],
        "modules": [
            {"name": "Rep3BinOps", "imports": ["Rep3Ops"], "ns": ns, "structs": [us], "variables": U},
            {"name": "Rep3Bin", "imports": ["Rep3BinOps"], "ns": ns, "structs": [], "preamble": pb, "variables": U}],
        "generics": {"FieldUint": "U"}, "assoc": {"Uint": "U"}, "consts": {"F::MODULUS_BIT_SIZE": "modulusBits"},
        "externs": {"F::Uint::from": {"lean": "(rfrom $0 : U)"}, "F::Uint::zero": {"lean": "(0 : U)"}, "itertools::multizip": {"lean": "multizip3"},
                    ".to_uint": {"lean": "$0"}, ".try_to_usize": {"lean": "toUsize $0"}}})


if __name__ == "__main__":
    shamirops()
    rep3ops()
