#!/usr/bin/env python3
"""Lays out a cargo workspace in /verif/.work/<group> over the crates of /repo a harness group needs.

No source of /repo is kept in /verif: crate `src` directories are symlinks into /repo (or directories of
symlinks whose crate root is /repo's root text plus one appended module declaration).  Manifests are /repo's
with the workspace dependencies resolved to what is available offline; crates that are absent from the cargo
cache are replaced by the stand-ins in /verif/shims (listed in DESIGN.md).
"""
import glob
import json
import os
import re
import shutil
import sys
import tarfile
import tempfile
import tomllib

REPO = os.environ.get("SYMX_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.environ.get("SYMX_WORK", f"{VERIF}/.work")

SHIMS = {n for n in os.listdir(f"{VERIF}/shims") if os.path.isdir(f"{VERIF}/shims/{n}")}
# crates that only the newer toolchain's cargo cache has: unpacked below .work and patched in (group "vendor")
VENDOR = {
    "crc32fast": "1.5.0", "memmap2": "0.9.8", "flate2": "1.1.1", "miniz_oxide": "0.8.9", "sha2": "0.10.9",
    "digest": "0.10.7", "block-buffer": "0.10.4", "crypto-common": "0.1.6", "generic-array": "0.14.7",
    "typenum": "1.18.0", "cpufeatures": "0.2.17", "version_check": "0.9.5", "futures": "0.3.34",
    "futures-channel": "0.3.34", "futures-core": "0.3.34", "futures-executor": "0.3.34", "futures-io": "0.3.34",
    "futures-macro": "0.3.34", "backoff": "0.4.0", "futures-sink": "0.3.34", "futures-task": "0.3.34", "futures-util": "0.3.34",
}
# crates whose exact minimum version is not cached: any cached compatible one
LOOSE = {"crc32fast": "1", "flate2": "1", "memmap2": "0.9", "sha2": "0.10", "futures": "0.3", "futures-core": "0.3", "futures-util": "0.3"}


def read(path):
    with open(path, encoding="utf-8") as f:
        return f.read()


def write(path, text):
    if os.path.exists(path) and not os.path.islink(path) and read(path) == text:
        return
    if os.path.islink(path):
        os.remove(path)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)


def link(target, path):
    if os.path.islink(path) and os.readlink(path) == target:
        return
    if os.path.lexists(path):
        if os.path.isdir(path) and not os.path.islink(path):
            shutil.rmtree(path)
        else:
            os.remove(path)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    os.symlink(target, path)


def toml(value):
    if isinstance(value, dict):
        return "{ " + ", ".join(f"{json.dumps(k)} = {toml(v)}" for k, v in value.items()) + " }"
    if isinstance(value, list):
        return "[" + ", ".join(toml(v) for v in value) + "]"
    return json.dumps(value)


def dump(tables):
    out = ""
    for name, table in tables.items():
        out += f"[{name}]\n"
        out += "".join(f"{json.dumps(k)} = {toml(v)}\n" for k, v in table.items())
        out += "\n"
    return out


def vendor(name):
    out = f"{WORK}/vendor/{name}"
    if os.path.exists(f"{out}/.done"):
        return out
    home = os.environ.get("CARGO_HOME", os.path.expanduser("~/.cargo"))
    found = glob.glob(f"{home}/registry/cache/*/{name}-{VENDOR[name]}.crate")
    if not found:
        sys.exit(f"{name} {VENDOR[name]} is not in the cargo cache")
    # several groups may be laid out at once: unpack aside, then move into place
    os.makedirs(f"{WORK}/vendor", exist_ok=True)
    tmp = tempfile.mkdtemp(prefix=f".{name}-", dir=f"{WORK}/vendor")
    with tarfile.open(found[0]) as t:
        for m in t.getmembers():
            m.name = "/".join(m.name.split("/")[1:])
            if m.name:
                t.extract(m, tmp, filter="data")
    # what it draws is the checker's choice, too
    t = read(f"{tmp}/Cargo.toml")
    write(f"{tmp}/Cargo.toml", re.sub(r'(\[dependencies\.rand\]\n)version = "0\.8"', rf'\1path = "{VERIF}/shims/rand"', t))
    write(f"{tmp}/.done", "")
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
        if not os.path.exists(f"{out}/.done"):
            raise
    return out


def layout(group):
    gdir = f"{VERIF}/harness/{group}"
    cfg = json.loads(read(f"{gdir}/group.json"))
    out = f"{WORK}/{group}"
    roots = cfg.get("roots", {})          # crate -> replacement root text (only whole-module selections)
    inject = cfg.get("inject", {})        # crate -> file in gdir appended as a module
    inject_files = cfg.get("inject_files", {})  # crate -> {file of src: file in gdir appended as its child module}
    subst = cfg.get("subst", {})          # crate -> [[text, replacement]] applied to its sources
    drop = set(cfg.get("drop", []))       # dependencies dropped
    shims = SHIMS & set(cfg.get("shims", []))
    cargs = cfg.get("crate_deps", {})     # crate -> explicit list of dependency names to keep
    features = cfg.get("features", {})    # workspace dep -> features override
    wsdeps = tomllib.loads(read(f"{REPO}/Cargo.toml"))["workspace"]["dependencies"]

    def resolve(name, spec):
        """spec: manifest value -> (value or None), and path crate name"""
        if name in drop:
            return None, None
        if isinstance(spec, dict) and spec.get("workspace"):
            base = wsdeps[name]
            base = dict(base) if isinstance(base, dict) else {"version": base}
            if "features" in spec:
                base["features"] = sorted(set(base.get("features", [])) | set(spec["features"]))
            if spec.get("optional"):
                base["optional"] = True
            if "default-features" in spec:
                base["default-features"] = spec["default-features"]
            spec = base
        elif not isinstance(spec, dict):
            spec = {"version": spec}
        spec = dict(spec)
        if "path" in spec and os.path.basename(spec["path"]).startswith("bd-"):
            c = os.path.basename(spec["path"])
            return {**{k: v for k, v in spec.items() if k != "path"}, "path": f"../{c}"}, c
        if name in shims:
            return {"path": f"{VERIF}/shims/{name}", **({"optional": True} if spec.get("optional") else {})}, None
        if name in LOOSE:
            spec["version"] = LOOSE[name]
        if name in features:
            spec["features"] = [f for f in features[name] if f != "!"]
            if "!" in features[name]:
                spec["default-features"] = False
        return spec, None

    members = []
    todo = [c for c in cfg["crates"]]
    seen = set(todo)
    while todo:
        c = todo.pop()
        members.append(c)
        m = tomllib.loads(read(f"{REPO}/{c}/Cargo.toml"))
        deps = {}
        for k, v in m.get("dependencies", {}).items():
            if c in cargs and k not in cargs[c]:
                continue
            r, pc = resolve(k, v)
            if r is None:
                continue
            deps[k] = r
            if pc and pc not in seen:
                seen.add(pc)
                todo.append(pc)
        tables = {
            "package": {k: v for k, v in m["package"].items() if k in ("edition", "name", "version")},
            "lib": {**m.get("lib", {}), "doctest": False, "test": False, "bench": False},
            "dependencies": deps,
        }
        tables["package"].update({"build": False, "autobins": False, "autotests": False, "autoexamples": False, "autobenches": False})
        if "features" in m and c not in cfg.get("no_features", []):
            tables["features"] = m["features"]
        for k, p in cfg.get("extra_deps", {}).get(c, {}).items():
            tables["dependencies"][k] = {"path": f"{VERIF}/{p}"}
        write(f"{out}/{c}/Cargo.toml", dump(tables))
        src = f"{REPO}/{c}/src"
        if not any(c in x for x in (roots, inject, inject_files, subst)):
            link(src, f"{out}/{c}/src")
            continue
        if os.path.islink(f"{out}/{c}/src"):
            os.remove(f"{out}/{c}/src")
        os.makedirs(f"{out}/{c}/src", exist_ok=True)
        names = {n for n in os.listdir(src) if n != "lib.rs"}
        for old in set(os.listdir(f"{out}/{c}/src")) - names - {"lib.rs"}:
            os.remove(f"{out}/{c}/src/{old}")
        into = inject_files.get(c, {})

        def edited(n):
            t = read(f"{src}/{n}")
            for a, b in subst.get(c, []):
                t = t.replace(a, b)
            if n in into:
                t += f'\n#[allow(warnings)]\n#[path = "{gdir}/{into[n]}"]\npub mod verif_inside;\n'
            return t

        def place(n):
            inside = any(k.startswith(f"{n}/") for k in into)
            if os.path.isdir(f"{src}/{n}") and (inside or c in subst):
                if os.path.islink(f"{out}/{c}/src/{n}"):
                    os.remove(f"{out}/{c}/src/{n}")
                os.makedirs(f"{out}/{c}/src/{n}", exist_ok=True)
                here = os.listdir(f"{src}/{n}")
                for old in set(os.listdir(f"{out}/{c}/src/{n}")) - set(here):
                    p = f"{out}/{c}/src/{n}/{old}"
                    shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.remove(p)
                for k in here:
                    place(f"{n}/{k}")
            elif n in into or (c in subst and n.endswith(".rs")):
                write(f"{out}/{c}/src/{n}", edited(n))
            else:
                link(f"{src}/{n}", f"{out}/{c}/src/{n}")

        for n in names:
            place(n)
        text = edited("lib.rs")
        if c in roots:
            r = roots[c]
            if isinstance(r, dict):  # {"empty": [mods]}
                for mod in r.get("empty", []):
                    text, n = re.subn(rf"^(pub )?mod {mod};", rf"\1mod {mod} {{}}", text, flags=re.M)
                    if n != 1:
                        sys.exit(f"{c}: no mod {mod}")
            else:
                text = "#![allow(dead_code, unused)]\n" + r
        if c in inject:
            text += f'\n#[allow(warnings)]\n#[path = "{gdir}/{inject[c]}"]\npub mod verif_inside;\n'
        write(f"{out}/{c}/src/lib.rs", text)

    # the harness crate itself
    h = tomllib.loads(read(f"{gdir}/Cargo.toml"))
    deps = {"vh": {"path": f"{VERIF}/harness/vh"}}
    for k, v in h.get("dependencies", {}).items():
        r, _ = resolve(k, v)
        deps[k] = r
    for k, p in cfg.get("extra_deps", {}).get("h", {}).items():
        deps[k] = {"path": f"{VERIF}/{p}"}
    write(
        f"{out}/h/Cargo.toml",
        dump(
            {
                "package": {"name": f"h_{group}", "version": "0.0.0", "edition": "2021"},
                "lib": {"crate-type": ["staticlib"], "doctest": False, "test": False},
                "dependencies": deps,
            }
        ),
    )
    link(f"{gdir}/src", f"{out}/h/src")
    write(
        f"{out}/Cargo.toml",
        dump(
            {
                "workspace": {"members": sorted(members) + ["h"], "resolver": "2"},
                "patch.crates-io": {n: {"path": vendor(n)} for n in cfg.get("vendor", [])},
                "profile.dev": {
                    "opt-level": cfg.get("opt", 1),
                    "panic": "abort",
                    "overflow-checks": True,
                    "debug-assertions": cfg.get("debug_assertions", True),
                    "lto": "fat",
                    "codegen-units": 1,
                    "debug": False,
                    "incremental": False,
                },
                'profile.dev.package."*"': {"codegen-units": 16},
            }
        ),
    )
    lock = f"{gdir}/Cargo.lock"
    src = lock if os.path.exists(lock) else f"{REPO}/Cargo.lock"
    if not os.path.exists(f"{out}/Cargo.lock"):
        t = read(src)
        if src != lock:
            # forget the versions that are not cached
            t = re.sub(r'\[\[package\]\]\nname = "(%s)"\n.*?\n\n' % "|".join(list(LOOSE) + sorted(SHIMS) + cfg.get("vendor", [])), "", t, flags=re.S)
        write(f"{out}/Cargo.lock", t)
    return out


if __name__ == "__main__":
    print(layout(sys.argv[1]))
