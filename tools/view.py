#!/usr/bin/env python3
"""Writes WS (default /verif/.work/ws): a cargo workspace that is a view of /repo for the verification harness.

It is made anew from /repo's working tree on every run, by text filters only:
 * modules and items that need the two git dependencies that are not on this machine (fancy-garbling, scuttlebutt)
   are taken out (the same narrowing the project's build in this sandbox uses);
 * every visibility is widened to `pub` (tools/rsx widen), so that the harness can call private functions.
No function body is changed.
"""
import os, re, subprocess, sys

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
WORK = os.path.join(os.path.dirname(HERE), ".work")
MISSING_DEPS = {"fancy-garbling", "scuttlebutt"}


def drop_mods(*names):
    mod = re.compile(r"^\s*(?:pub(?:\([a-z]+\))?\s+)?mod (?:%s);\s*$" % "|".join(names))

    def f(text):
        out = []
        for line in text.splitlines(keepends=True):
            if mod.match(line):
                k = len(out)
                while k and out[k - 1].strip().startswith("#["):
                    k -= 1
                    out[k] = "\n"  # the attributes of that declaration
                line = "\n"
            out.append(line)
        return "".join(out)

    return f


def drop_rep3_items(text):
    """Takes out the top-level items that mention Rep3 (rustfmt ends an item with a closing line in column 0).

    From a use with a list only the names that mention it go. Nested modules (mod tests) are kept as they are.
    """
    rep3 = re.compile(r"rep3", re.I)
    out, item = [], []

    def flush():
        body = "".join(line for line in item if not line.lstrip().startswith("//"))
        if not rep3.search(body):
            out.extend(item)
        elif re.search(r"^(?:pub(?:\([a-z]+\))? )?use [^{}]*\{[^{}]*\};", body, flags=re.M):
            head, names, tail = re.match(r"(.*?\{)([^{}]*)(\};.*)", body, flags=re.S).groups()
            if not rep3.search(head):
                kept = [n.strip() for n in names.split(",") if n.strip() and not rep3.search(n)]
                new = head + ", ".join(kept) + tail
                out.append("\n" * (len(item) - new.count("\n")) + new)
            else:
                out.extend(["\n"] * len(item))
        else:
            out.extend(["\n"] * len(item))

    for line in text.splitlines(keepends=True):
        item.append(line)
        opener = line.startswith(("#", "/"))
        if not opener and (line.strip() == "" or re.match(r"\S.*;\s*$", line) or re.match(r"\}[;,]?\s*$", line)
                           or re.match(r"\S.*\}\s*$", line)):
            # A blank line ends an item only outside braces, and the body is indented: see whether one is open.
            text_ = "".join(l for l in item if not l.lstrip().startswith("//"))
            if line.strip() == "" and text_.strip() and not text_.strip().startswith("#!"):
                continue
            flush()
            item = []
    flush()
    return "".join(out)


def root_manifest(text):
    keep = '"co-circom/co-circom-types",\n "co-circom/co-groth16",\n "co-circom/co-plonk",\n "mpc-core",\n "mpc-net",\n'
    return re.sub(r"members\s*=\s*\[.*?\]", lambda _: "members = [\n %s]" % keep, text, count=1, flags=re.S)


def core_manifest(text):
    return "".join(
        line for line in text.splitlines(keepends=True)
        if re.split(r"[\s.=]", line, maxsplit=1)[0] not in MISSING_DEPS
    )


def protocols(text):
    """Of rep3 and rep3_ring only the submodules that reach no garbling code."""
    text = drop_mods("bridges")(text)
    text = re.sub(r"^pub mod rep3;$", " ".join(REP3.split()), text, flags=re.M)
    return re.sub(r"^pub mod rep3_ring;$", "pub mod rep3_ring { pub mod ring; }", text, flags=re.M)


REP3 = """pub mod rep3 {
    pub mod arithmetic { mod ops; pub(super) mod types; }
    pub mod binary { mod ops; pub(super) mod types; }
    pub mod id;
    pub mod network;
    pub mod pointshare { mod ops; pub(super) mod types; }
    pub mod yao { pub mod bristol_fashion; }
    pub use arithmetic::types::Rep3PrimeFieldShare;
    pub use binary::types::Rep3UintShare;
    pub use pointshare::types::Rep3PointShare;
}"""


def poseidon2(text):
    text = drop_mods("rep3", "poseidon2_circom_accelerator", "poseidon2_shamir_circom_accelerator")(text)
    return re.sub(r"^pub use poseidon2_(?:shamir_)?circom_accelerator::.*\n", "\n", text, flags=re.M)


def bristol(text):
    return re.sub(r"^impl From<CircuitExecutionError> for fancy_garbling::.*?^\}\n", lambda m: "\n" * m[0].count("\n"), text, flags=re.M | re.S)



FILTERS = {
    "Cargo.toml": root_manifest,
    "mpc-core/Cargo.toml": core_manifest,
    "mpc-core/src/protocols.rs": protocols,
    "mpc-core/src/gadgets/merkle_tree/mod.rs": drop_mods("rep3"),
    "mpc-core/src/gadgets/poseidon2/mod.rs": poseidon2,
    "mpc-core/src/protocols/rep3/yao/bristol_fashion/mod.rs": bristol,
    "co-circom/co-circom-types/src/lib.rs": drop_rep3_items,
    "co-circom/co-groth16/src/lib.rs": drop_rep3_items,
    "co-circom/co-groth16/src/groth16.rs": drop_rep3_items,
    "co-circom/co-groth16/src/mpc.rs": drop_rep3_items,
    "co-circom/co-plonk/src/lib.rs": drop_rep3_items,
    "co-circom/co-plonk/src/mpc.rs": drop_rep3_items,
}
TREES = ["co-circom/co-circom-types", "co-circom/co-groth16", "co-circom/co-plonk", "mpc-core", "mpc-net", "README.md", "Cargo.toml"]
SKIP = {"mpc-core/benches", "mpc-net/examples", "mpc-net/data"}


def main(ws, rsx):
    want = {}
    for tree in TREES:
        top = os.path.join(REPO, tree)
        if os.path.isfile(top):
            want[tree] = top
        for d, dirs, files in os.walk(top):
            rel = os.path.relpath(d, REPO)
            dirs[:] = [x for x in dirs if x not in ("target", "tests", "examples", "benches") and os.path.join(rel, x) not in SKIP]
            for n in files:
                want[os.path.join(rel, n)] = os.path.join(d, n)
    stage = ws + ".stage"
    benches = lambda t: re.sub(r"^\[\[(?:bench|example|test)\]\]\n(?:[^\[\n].*\n)*\n?", "", t, flags=re.M)
    pairs = []
    for rel, src in want.items():
        try:
            text = open(src, encoding="utf-8").read()
        except UnicodeDecodeError:
            continue
        if rel in FILTERS:
            text = FILTERS[rel](text)
        if rel.endswith("Cargo.toml"):
            text = benches(text)
        dst = os.path.join(ws, rel)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        if rel.endswith(".rs"):
            st = os.path.join(stage, rel)
            os.makedirs(os.path.dirname(st), exist_ok=True)
            with open(st, "w", encoding="utf-8") as f:
                f.write(text)
            pairs.append(st + "\t" + dst + "\n")
        else:
            same = False
            try:
                same = open(dst, encoding="utf-8").read() == text
            except FileNotFoundError:
                pass
            if not same:
                with open(dst, "w", encoding="utf-8") as f:
                    f.write(text)
    # files that are no longer in /repo
    for d, dirs, files in os.walk(ws):
        for n in files:
            rel = os.path.relpath(os.path.join(d, n), ws)
            if rel not in want and rel != "Cargo.lock":
                os.remove(os.path.join(d, n))
    if os.path.exists(os.path.join(REPO, "Cargo.lock")) and not os.path.exists(os.path.join(ws, "Cargo.lock")):
        with open(os.path.join(ws, "Cargo.lock"), "w") as f:
            f.write(open(os.path.join(REPO, "Cargo.lock")).read())
    subprocess.run([rsx, "widen"], input="".join(pairs), text=True, check=True)


if __name__ == "__main__":
    main(sys.argv[1] if len(sys.argv) > 1 else os.path.join(WORK, "ws"),
         sys.argv[2] if len(sys.argv) > 2 else os.path.join(WORK, "tools/release/rsx"))
