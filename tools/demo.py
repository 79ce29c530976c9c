#!/usr/bin/env python3
"""Builds and runs main.rs (beside this file) against the repository's crates, in a scratch directory."""
import os, re, shutil, subprocess, sys, tempfile

here = os.path.dirname(os.path.abspath(__file__))
ws = "/opt/vp/ws"
subprocess.run([sys.executable, "/opt/vp/sync.py"], check=True, stdout=subprocess.DEVNULL)
DEPS = {
    "core": f'mpc-core = {{ path = "{ws}/mpc-core" }}',
    "net": f'mpc-net = {{ path = "{ws}/mpc-net", features = ["local", "tcp", "tls"] }}',
    "netall": f'mpc-net = {{ path = "{ws}/mpc-net", features = ["local", "tcp", "tls", "quic", "tcp-session", "tcp-session-blocking"] }}\ntokio = {{ version = "1", features = ["full"] }}',
    "blocking": 'crossbeam-channel = "0.5.15"\nintmap = "3.1"\ntracing = "0.1"',
    "types": f'co-circom-types = {{ path = "{ws}/co-circom/co-circom-types" }}',
    "groth16": f'co-groth16 = {{ path = "{ws}/co-circom/co-groth16", features = ["verifier"] }}\nark-groth16 = "0.6"\nark-relations = "0.6"',
    "plonk": f'co-plonk = {{ path = "{ws}/co-circom/co-plonk" }}',
    "circom": 'circom-types = { package = "taceo-circom-types", version = "0.3.1", features = ["bls12-381", "plonk", "zkey", "verification-key"] }',
}
src = open(os.path.join(here, "main.rs")).read()
want = re.match(r"// deps: (.*)", src)[1].split()
toml = """[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[profile.dev]
opt-level = 1
debug = false
incremental = false
overflow-checks = false
[dependencies]
ark-bn254 = "0.6"
ark-bls12-381 = "0.6"
ark-ec = { version = "0.6", default-features = false }
ark-ff = "0.6"
ark-poly = "0.6"
ark-serialize = "0.6"
bincode = "1.3"
bytes = "1.11"
eyre = "0.6"
num-bigint = "0.4"
rand = "0.8"
rand_chacha = "0.3"
serde_json = "1.0"
sha3 = "0.10"
""" + "\n".join(DEPS[w] for w in want) + "\n"
with tempfile.TemporaryDirectory() as d:
    os.makedirs(os.path.join(d, "src"))
    shutil.copy(os.path.join(here, "main.rs"), os.path.join(d, "src/main.rs"))
    shutil.copy(os.path.join(ws, "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    open(os.path.join(d, "Cargo.toml"), "w").write(toml)
    e = dict(os.environ, HOME="/root", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", CARGO_TARGET_DIR=os.path.join(d, "target"), RUSTFLAGS="-Awarnings")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    b = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=d, env=e)
    if b.returncode:
        sys.exit(3)
    try:
        r = subprocess.run([os.path.join(d, "target/debug/demo")], cwd=d, env=e, timeout=100).returncode
    except subprocess.TimeoutExpired:
        print("the demonstration did not finish")
        r = 1
sys.exit(1 if r else 0)
