#!/usr/bin/env python3
"""Lays out WORK/kani/ring: a crate made of the unmodified ring and uint sources of /repo plus the proof harnesses.

The copied files are byte for byte those of /repo (their #[cfg(test)] modules included, which Kani does not build);
nothing is dropped.  Visibility is not widened: the harnesses only use the public interface.
"""
import os, shutil
R, W = os.environ.get("VERIF_REPO", "/repo"), os.environ["VERIF_WORK"]
here = os.path.dirname(os.path.abspath(__file__))
out = os.path.join(W, "kani", "ring")
shutil.rmtree(out, ignore_errors=True)
src = os.path.join(out, "src")
def put(rel, dst):
    p = os.path.join(src, dst)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    shutil.copy(os.path.join(R, "mpc-core/src", rel), p)
for f in ["mod.rs", "field_uint.rs", "ruint_wrapper.rs"]:
    put("uint/" + f, "uint/" + f)
put("protocols/rep3_ring/ring.rs", "protocols/rep3_ring/ring.rs")
for f in ["bit.rs", "int_ring.rs", "ring_impl.rs"]:
    put("protocols/rep3_ring/ring/" + f, "protocols/rep3_ring/ring/" + f)
shutil.copy(os.path.join(here, "proofs.rs"), os.path.join(src, "proofs.rs"))
open(os.path.join(src, "lib.rs"), "w").write(
    "pub mod uint;\npub mod protocols { pub mod rep3_ring { pub mod ring; } }\n#[cfg(kani)]\nmod proofs;\n")
shutil.copy(os.path.join(here, "Cargo.toml.in"), os.path.join(out, "Cargo.toml"))
shutil.copy(os.path.join(here, "Cargo.lock.in"), os.path.join(out, "Cargo.lock"))
