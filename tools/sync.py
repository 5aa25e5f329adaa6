#!/usr/bin/env python3
"""Makes /verif/build/ws: cargo workspaces that are views of /repo's working tree.

ws/base    as the project's own offline build sees it: symlinks into /repo, minus the modules that
           need git dependencies that are not here (fancy-garbling, scuttlebutt).
ws/sim     mpc-net alone, whose manifest maps `std`, crossbeam-channel, socket2, parking_lot and
           tokio to the simulated ones in /verif/harness (sources are symlinks, unchanged).
ws/core   as base, but with mpc-net as in ws/sim and with rand and rand_chacha mapped to the crates in
           /verif/harness that leave the choice of randomness to the checker.

Only manifests and module lists are rewritten. A file is written only when its content changes. For
every crate a hash of what it shows is kept; `changed` lists the crates whose hash moved since the
last build, so that a build never relies on file times alone.
"""
import hashlib, json, os, re, shutil, sys

REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WS = os.path.join(VERIF, "build", "ws")
H = os.path.join(VERIF, "harness")
MISSING_DEPS = {"fancy-garbling", "scuttlebutt"}


def drop_mods(*names):
    mod = re.compile(r"^\s*(?:pub(?:\([a-z]+\))?\s+)?mod (?:%s);\s*$" % "|".join(names))

    def f(text):
        out = []
        for line in text.splitlines(keepends=True):
            if mod.match(line):
                k = len(out)
                while k and out[k - 1].strip().startswith("#["):
                    k -= 1
                    out[k] = "\n"
                line = "\n"
            out.append(line)
        return "".join(out)

    return f


def drop_rep3_items(text):
    rep3 = re.compile(r"rep3", re.I)
    out, item = [], []

    def flush():
        body = "".join(line for line in item if not line.lstrip().startswith("//"))
        if not rep3.search(body):
            out.extend(item)
        elif re.search(r"^(?:pub(?:\([a-z]+\))? )?use [^{}]*\{[^{}]*\};", body, flags=re.M):
            head, names, tail = re.match(r"(.*?\{)([^{}]*)(\};.*)", body, flags=re.S).groups()
            if not rep3.search(head):
                kept = [n.strip() for n in names.split(",") if n.strip() and not rep3.search(n)]
                new = head + ", ".join(kept) + tail
                out.append("\n" * (len(item) - new.count("\n")) + new)
            else:
                out.extend(["\n"] * len(item))
        else:
            out.extend(["\n"] * len(item))

    for line in text.splitlines(keepends=True):
        item.append(line)
        opener = line.startswith(("#", "/"))
        if not opener and (line.strip() == "" or re.match(r"\S.*;\s*$", line) or re.match(r"\}[;,]?\s*$", line)
                           or re.match(r"\S.*\}\s*$", line)):
            text_ = "".join(l for l in item if not l.lstrip().startswith("//"))
            if line.strip() == "" and text_.strip() and not text_.strip().startswith("#!"):
                continue
            flush()
            item = []
    flush()
    return "".join(out)


def root_manifest(members):
    def f(text):
        return re.sub(r"members\s*=\s*\[.*?\]", lambda _: "members = [%s]" % ", ".join('"%s"' % m for m in members),
                      text, count=1, flags=re.S)
    return f


def core_manifest(text):
    text = "".join(
        line for line in text.splitlines(keepends=True)
        if re.split(r"[\s.=]", line, maxsplit=1)[0] not in MISSING_DEPS
    )
    return re.sub(r"^\[\[bench\]\]\n(?:[^\[\n].*\n)*\n?", "", text, flags=re.M)


def protocols(text):
    text = drop_mods("bridges")(text)
    text = re.sub(r"^pub mod rep3;$", " ".join(REP3.split()), text, flags=re.M)
    return re.sub(r"^pub mod rep3_ring;$", "pub mod rep3_ring { pub mod ring; }", text, flags=re.M)


REP3 = """pub mod rep3 {
    pub mod arithmetic { mod ops; pub(super) mod types; }
    pub mod binary { mod ops; pub(super) mod types; }
    pub mod id;
    pub mod network;
    pub mod pointshare { mod ops; pub(super) mod types; }
    pub mod yao { pub mod bristol_fashion; }
    pub use arithmetic::types::Rep3PrimeFieldShare;
    pub use binary::types::Rep3UintShare;
    pub use pointshare::types::Rep3PointShare;
}"""


def poseidon2(text):
    text = drop_mods("rep3", "poseidon2_circom_accelerator", "poseidon2_shamir_circom_accelerator")(text)
    return re.sub(r"^pub use poseidon2_(?:shamir_)?circom_accelerator::.*\n", "\n", text, flags=re.M)


def bristol(text):
    return re.sub(r"^impl From<CircuitExecutionError> for fancy_garbling::.*?^\}\n",
                  lambda m: "\n" * m[0].count("\n"), text, flags=re.M | re.S)


def sim_net_manifest(text):
    """Maps the dependencies that do I/O, threading or locking to the simulated ones."""
    path = lambda n: os.path.join(H, n)
    sub = {"crossbeam-channel": ("simcrossbeam", True), "socket2": ("simsocket2", True), "tokio": ("simtokio", True),
           "parking_lot": ("simparking", False)}
    gone = {"quinn"}
    out, section, skip = [], None, False
    for line in text.splitlines(keepends=True):
        if skip:
            if line.strip().startswith("]"):
                skip = False
            continue
        m = re.match(r"\[+([^\]]+)\]+", line)
        if m:
            section = m.group(1)
        key = re.split(r"[\s.=]", line, maxsplit=1)[0]
        if section == "dependencies" and key in sub and "=" in line:
            name, opt = sub[key]
            opt = opt and "optional" in text[text.index("\n" + key):][:400]
            out.append('%s = { package = "%s", path = "%s"%s }\n' % (key, name, path(name), ", optional = true" if opt else ""))
            skip = line.rstrip().endswith("[") or ("[" in line and "]" not in line)
            continue
        if section == "dependencies" and key in gone:
            continue
        if section in ("example", "dev-dependencies", "bench"):
            continue
        if section == "features":
            if line.startswith("quic"):
                continue
        out.append(line)
        if m and section == "dependencies":
            out.append('std = { package = "simstd", path = "%s" }\n' % path("simstd"))
    return "".join(out)


def sim_rand_manifest(text):
    sub = {"rand": "simrand", "rand_chacha": "simchacha"}
    out = []
    for line in text.splitlines(keepends=True):
        key = re.split(r"[\s.=]", line, maxsplit=1)[0]
        if key in sub and "=" in line:
            line = '%s = { package = "%s", path = "%s" }\n' % (key, sub[key], os.path.join(H, sub[key]))
        out.append(line)
    return "".join(out)


def sim_core_manifest(text):
    return sim_rand_manifest(core_manifest(text))


def full_core_manifest(text):
    """Nothing left out: the git dependencies are mapped to the stand-ins in /verif/harness."""
    out = []
    for line in text.splitlines(keepends=True):
        key = re.split(r"[\s.=]", line, maxsplit=1)[0]
        if key in MISSING_DEPS:
            line = '%s = { path = "%s" }\n' % (key, os.path.join(H, key))
        out.append(line)
    return sim_rand_manifest(re.sub(r"^\[\[bench\]\]\n(?:[^\[\n].*\n)*\n?", "", "".join(out), flags=re.M))


def full_core_lib(text):
    """Small fields need an impl of a trait of the crate itself."""
    h = lambda *a: os.path.join(H, *a)
    return (
        text
        + '\n#[path = "%s"]\npub mod tinyfields;\n' % h("h-core", "src", "fields.rs")
        + '#[path = "%s"]\nmod tinyuint;\n' % h("h-rep3", "view", "tinyuint.rs")
    )


BASE_FILTERS = {
    "mpc-core/Cargo.toml": core_manifest,
    "mpc-core/src/protocols.rs": protocols,
    "mpc-core/src/gadgets/merkle_tree/mod.rs": drop_mods("rep3"),
    "mpc-core/src/gadgets/poseidon2/mod.rs": poseidon2,
    "mpc-core/src/protocols/rep3/yao/bristol_fashion/mod.rs": bristol,
    "co-circom/co-circom-types/src/lib.rs": drop_rep3_items,
    "co-circom/co-groth16/src/lib.rs": drop_rep3_items,
    "co-circom/co-groth16/src/groth16.rs": drop_rep3_items,
    "co-circom/co-groth16/src/mpc.rs": drop_rep3_items,
    "co-circom/co-plonk/src/lib.rs": drop_rep3_items,
    "co-circom/co-plonk/src/mpc.rs": drop_rep3_items,
}
CORE_FILTERS = dict(
    BASE_FILTERS,
    **{
        "mpc-net/Cargo.toml": sim_net_manifest,
        "mpc-core/Cargo.toml": sim_core_manifest,
        "co-circom/co-circom-types/Cargo.toml": sim_rand_manifest,
        "co-circom/co-groth16/Cargo.toml": sim_rand_manifest,
        "co-circom/co-plonk/Cargo.toml": sim_rand_manifest,
    }
)
FULL_FILTERS = {
    "mpc-net/Cargo.toml": sim_net_manifest,
    "mpc-core/Cargo.toml": full_core_manifest,
    "mpc-core/src/lib.rs": full_core_lib,
    "co-circom/co-circom-types/Cargo.toml": sim_rand_manifest,
    "co-circom/co-groth16/Cargo.toml": sim_rand_manifest,
    "co-circom/co-plonk/Cargo.toml": sim_rand_manifest,
    "co-circom/circom-mpc-vm/Cargo.toml": sim_rand_manifest,
}
PROOF = ["co-circom/co-circom-types", "co-circom/co-groth16", "co-circom/co-plonk"]
VIEWS = {
    "base": (PROOF + ["mpc-core", "mpc-net"], BASE_FILTERS),
    "core": (PROOF + ["mpc-core", "mpc-net"], CORE_FILTERS),
    "full": (PROOF + ["co-circom/circom-mpc-vm", "mpc-core", "mpc-net"], FULL_FILTERS),
    "sim": (["mpc-net"], {"mpc-net/Cargo.toml": sim_net_manifest}),
}
#: Parts of the crates that no harness compiles.
SKIP_DIRS = {"target", "benches", "examples", "tests"}


def sync(view, trees, filters):
    root = os.path.join(WS, view)
    want = {"Cargo.toml": root_manifest(trees), "README.md": None}
    for tree in trees:
        for dirpath, dirs, files in os.walk(os.path.join(REPO, tree)):
            rel = os.path.relpath(dirpath, REPO)
            if rel == tree:
                dirs[:] = [d for d in dirs if d not in SKIP_DIRS]
            for name in files:
                want[os.path.join(rel, name)] = None
    for rel, fn in filters.items():
        if os.path.isfile(os.path.join(REPO, rel)):
            want[rel] = fn
    hashes = {}
    for rel, fn in want.items():
        src, dst = os.path.join(REPO, rel), os.path.join(root, rel)
        if not os.path.isfile(src):
            continue
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        data = open(src, "rb").read()
        if fn is None:
            if not (os.path.islink(dst) and os.readlink(dst) == src):
                if os.path.lexists(dst):
                    os.remove(dst)
                os.symlink(src, dst)
        else:
            data = fn(data.decode()).encode()
            if os.path.islink(dst):
                os.remove(dst)
            if not os.path.exists(dst) or open(dst, "rb").read() != data:
                open(dst, "wb").write(data)
        crate = next((t for t in trees if rel.startswith(t + "/")), "")
        h = hashes.setdefault(crate, hashlib.sha256())
        h.update(rel.encode() + b"\0" + hashlib.sha256(data).digest())
    for dirpath, dirs, files in os.walk(root, topdown=False):
        rel = os.path.relpath(dirpath, root)
        for name in files:
            r = os.path.normpath(os.path.join(rel, name))
            if r not in want and name != "Cargo.lock":
                os.remove(os.path.join(dirpath, name))
        if dirpath != root and not os.listdir(dirpath):
            os.rmdir(dirpath)
    return {c: h.hexdigest() for c, h in hashes.items()}


def main():
    cur = {}
    for view, (trees, filters) in VIEWS.items():
        for c, h in sync(view, trees, filters).items():
            cur["%s:%s" % (view, c)] = h
    return cur


if __name__ == "__main__":
    print(json.dumps(main(), indent=1))
