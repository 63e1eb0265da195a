#!/usr/bin/env python3
"""check.py PROPERTY [--thorough] [--only HARNESS] [--keep]

Decides one property of /repo: builds the harness crate against /repo's current working tree, lowers
it (with steit and the Rust standard library) to LLVM IR, executes every harness of the property
symbolically with engine/, replays each counterexample against the natively compiled code, and
writes evidence/<PROPERTY>.json.

Exit 0: held for every input within the stated bounds.  Exit 1 and a VIOLATION line: broken.
Exit 2: no verdict (build failure, bound not exhausted, counterexample that does not replay, ...).
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props  # noqa: E402

BUILD = os.path.join(HERE, "build")
REPO = "/repo"
CORES = 8
ENV = dict(os.environ)
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_INCREMENTAL",
          "CARGO_PROFILE_DEV_DEBUG"):
    ENV.pop(k, None)
ENV["PATH"] = ENV.get("PATH", "") + ":/root/.cargo/bin:/usr/local/bin"
ENV.update(CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings -Clink-arg=-Wl,-Bsymbolic", CARGO_TERM_COLOR="never", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")


class NoVerdict(Exception):
    pass


def log(*a):
    print("[%7.2fs]" % (time.time() - T0), *a, flush=True)


T0 = time.time()


def run(cmd, env=None, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env or ENV, **kw)
    if p.returncode != 0:
        raise NoVerdict("%s failed:\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def newer(target, sources):
    return os.path.exists(target) and all(os.path.getmtime(target) > os.path.getmtime(s) for s in sources)


def build_engine():
    srcs = glob.glob(os.path.join(HERE, "engine", "*"))
    exe = os.path.join(BUILD, "symx")
    if not newer(exe, srcs):
        tmp = exe + ".%d" % os.getpid()
        run(["g++", "-std=c++17", "-O2", "-o", tmp, os.path.join(HERE, "engine", "main.cpp"), "-lz3"])
        os.replace(tmp, exe)
    drv = os.path.join(BUILD, "driver")
    src = os.path.join(HERE, "replay", "driver.c")
    if not newer(drv, [src]):
        tmp = drv + ".%d" % os.getpid()
        run(["gcc", "-O1", "-rdynamic", "-fno-builtin", "-o", tmp, src, "-ldl"])
        os.replace(tmp, drv)
    return exe, drv


def stage():
    """A copy of the harness crate with /repo's lock file beside it, outside git's sight."""
    dst = os.path.join(BUILD, "hx")
    os.makedirs(os.path.join(dst, "src"), exist_ok=True)
    want = set()
    for f in ["Cargo.toml"] + ["src/" + os.path.basename(p) for p in glob.glob(os.path.join(HERE, "harness/src/*.rs"))]:
        s, d = os.path.join(HERE, "harness", f), os.path.join(dst, f)
        want.add(d)
        if not os.path.exists(d) or open(s).read() != open(d).read():
            shutil.copyfile(s, d)
    for p in glob.glob(os.path.join(dst, "src/*.rs")):
        if p not in want:
            os.unlink(p)
    lock = os.path.join(REPO, "Cargo.lock")
    if os.path.exists(lock):
        shutil.copyfile(lock, os.path.join(dst, "Cargo.lock"))
    stage_derive()
    return dst


DERIVE_MANIFEST = """[package]
name = "derive-lib"
version = "0.1.0"
edition = "2018"

[dependencies]
proc-macro2 = { version = "1.0", default-features = false }
quote = { version = "1.0", default-features = false }
syn = { version = "1.0", default-features = false, features = [%s] }
"""

# What the macro's entry point needs of proc_macro is taken from proc_macro2, which works outside the compiler.
DERIVE_GLUE = """

#[allow(unused)]
mod entry_glue {
    pub trait ParseInput: Sized {
        fn parse_input(tokens: proc_macro2::TokenStream) -> syn::Result<Self>;
    }
    impl ParseInput for syn::AttributeArgs {
        fn parse_input(tokens: proc_macro2::TokenStream) -> syn::Result<Self> {
            use syn::parse::Parser;
            let parser = syn::punctuated::Punctuated::<syn::NestedMeta, syn::Token![,]>::parse_terminated;
            Ok(parser.parse2(tokens)?.into_iter().collect())
        }
    }
    impl ParseInput for syn::DeriveInput {
        fn parse_input(tokens: proc_macro2::TokenStream) -> syn::Result<Self> {
            syn::parse2(tokens)
        }
    }
    #[macro_export]
    macro_rules! parse_input_glue {
        ($tokens:ident as $ty:ty) => {
            match <$ty as $crate::entry_glue::ParseInput>::parse_input($tokens) {
                Ok(data) => data,
                Err(error) => return error.to_compile_error(),
            }
        };
        ($tokens:ident) => {
            parse_input_glue!($tokens as _)
        };
    }
}
"""


def stage_derive():
    """steit-derive's sources as an ordinary library: only the entry point's use of `proc_macro` is replaced."""
    dst, src = os.path.join(BUILD, "derive-lib"), os.path.join(REPO, "steit-derive/src")
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(src, os.path.join(dst, "src"))
    for root, _, names in os.walk(dst):
        for name in names:
            path = os.path.join(root, name)
            s = open(path).read()
            s = re.sub(r"#\[proc_macro_attribute\]", "", s)
            s = re.sub(r"(?<!extern crate )\bproc_macro::", "proc_macro2::", s)
            s = re.sub(r"(?:\bsyn::)?\bparse_macro_input!", "crate::parse_input_glue!", s)
            if path == os.path.join(dst, "src/lib.rs"):
                s += DERIVE_GLUE
            open(path, "w").write(s)
    m = re.search(r'^syn *= *\{.*features *= *\[([^\]]*)\]', open(os.path.join(REPO, "steit-derive/Cargo.toml")).read(), re.M)
    more = m.group(1) + ", " if m and m.group(1).strip() else ""
    with open(os.path.join(dst, "Cargo.toml"), "w") as f:
        f.write(DERIVE_MANIFEST % (more + '"derive", "parsing", "printing", "clone-impls"'))


# Functions the executor models itself lose their bodies before optimization, so that no optimizer decision
# hides a call of them: the panic entry points, and the hash functions (see DESIGN.md).
MODELLED = re.compile(r"core::panicking::|^<?core::panicking|std::panicking::begin_panic|^__rustc::rust_begin_unwind|handle_alloc_error"
                      r"|^<std::hash::random::RandomState as core::hash::BuildHasher>::hash_one|^indexmap::map::hash_elem_using")
KEPT_WHOLE = re.compile(r"^alloc::fmt::format::format_inner")
ATTACHED = re.compile(r",? !(?:[a-zA-Z_.]+) !\d+")


def lower(src, dst):
    """Strips metadata, cuts off what is modelled, and records the readable names of functions."""
    names, out, pretty, skipping = [], [], None, False
    for ln in open(src, errors="surrogateescape"):
        ln = ln.rstrip("\n")
        c = ln[:1]
        if skipping:
            skipping = c != "}"
            continue
        if c == "!" or "metadata !" in ln:
            continue
        if c == ";":
            if not ln.startswith("; Function Attrs"):
                pretty = ln[2:]
            continue
        if "!" in ln:
            ln = ATTACHED.sub("", ln)
        if ln.startswith("define "):
            name = re.search(r'@("[^"]*"|[^ (]+)\(', ln).group(1)
            pretty = pretty or name
            names.append("%s\t%s\n" % (name.strip('"'), pretty))
            if MODELLED.search(pretty):
                head, attrs = ln[:ln.rindex(")") + 1], re.search(r" #\d+", ln[ln.rindex(")"):])
                head = re.sub(r"^define (internal |private |hidden |linkonce_odr |weak |dso_local )*", "declare ", head)
                ln, skipping = head + (attrs.group(0) if attrs else ""), True
            elif KEPT_WHOLE.search(pretty):
                ln = re.sub(r"( personality [^{]*)?\{$", lambda m: " noinline" + m.group(0), ln)
        if c != " ":
            pretty = None
        out.append(ln)
    with open(dst, "w", errors="surrogateescape") as f:
        f.write("\n".join(out) + "\n")
    with open(dst + ".names", "w") as f:
        f.write("".join(names))


def build_ir(feature):
    dst = stage()
    target = os.path.join(BUILD, "target-ir")
    env = dict(ENV, RUSTFLAGS=ENV["RUSTFLAGS"] + " -Cno-prepopulate-passes")
    for p in glob.glob(os.path.join(target, "debug/deps/harness*.ll")):
        os.unlink(p)
    # removing the fingerprint forces rustc to emit the module for this feature set
    for p in glob.glob(os.path.join(target, "debug/.fingerprint/harness-*")):
        shutil.rmtree(p)
    run(["cargo", "rustc", "--quiet", "--offline", "--lib", "--features", feature, "--target-dir", target, "--", "--emit=llvm-ir"],
        cwd=dst, env=env)
    lls = glob.glob(os.path.join(target, "debug/deps/harness*.ll"))
    if len(lls) != 1:
        raise NoVerdict("expected one LLVM module, found %r" % lls)
    out = os.path.join(BUILD, "ir-%s" % feature)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    lower(lls[0], out + "/raw.ll")
    sysroot = run(["rustc", "--print", "sysroot"]).strip()
    run([sysroot + "/lib/rustlib/x86_64-unknown-linux-gnu/bin/opt", "-passes=default<O1>", "-S", out + "/raw.ll", "-o", out + "/harness.ll"])
    os.unlink(out + "/raw.ll")
    os.rename(out + "/raw.ll.names", out + "/harness.ll.names")
    shutil.copyfile(os.path.join(target, "debug/libharness.so"), out + "/dev.so")
    return out


def build_release(feature, out):
    so = out + "/release.so"
    run(["cargo", "rustc", "--quiet", "--offline", "--release", "--lib", "--features", feature, "--target-dir",
         os.path.join(BUILD, "target")], cwd=os.path.join(BUILD, "hx"))
    shutil.copyfile(os.path.join(BUILD, "target/release/libharness.so"), so)
    return so


class Slots:
    def __init__(self, n):
        self.n, self.cv = n, threading.Condition()

    def take(self, k):
        with self.cv:
            self.cv.wait_for(lambda: self.n >= k)
            self.n -= k

    def give(self, k):
        with self.cv:
            self.n += k
            self.cv.notify_all()


def merge(parts):
    r = {k: sum(p[k] for p in parts) for k in
         ("paths", "assumed_away", "forks", "asserts", "instructions", "violating_paths", "symbolic_paths", "queries",
          "sat", "unsat", "unknown", "cache_hits", "model_hits", "solver_seconds")}
    r["max_path_instructions"] = max(p["max_path_instructions"] for p in parts)
    for k in ("incomplete", "covers", "functions"):
        d = {}
        for p in parts:
            for a, b in p[k].items():
                d[a] = d.get(a, 0) + b
        r[k] = d
    seen, r["violations"] = set(), []
    for p in parts:
        for v in p["violations"]:
            key = (v["kind"], v["msg"], v["loc"], v["code"])
            if key not in seen:
                seen.add(key)
                r["violations"].append(v)
    r["samples"] = [s for p in parts for s in p["samples"]]
    return r


def run_harness(exe, ir, h, slots, seed, tmp):
    slots.take(h.jobs)
    try:
        t = time.time()
        out = os.path.join(tmp, h.name + ".json")
        cmd = [exe, ir + "/harness.ll", h.name, out, "--jobs", str(h.jobs), "--time", str(h.time), "--max-instr",
               str(h.max_instr), "--seed", str(seed), "--format", "1" if h.format else "0", "--deep", ENV["SYMX_DEEP"]]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=ENV)
        if p.returncode != 0:
            return {"name": h.name, "error": "engine exit %d: %s" % (p.returncode, p.stdout[-1500:])}
        d = json.load(open(out))
        if "parts" in d:
            if d["bad"]:
                return {"name": h.name, "error": "an engine worker died: " + p.stdout[-1500:]}
            d = merge([json.load(open("%s.%d" % (out, i))) for i in range(d["parts"])])
        else:
            d = merge([d])
        d["name"], d["seconds"] = h.name, time.time() - t
        return d
    finally:
        slots.give(h.jobs)


def native(drv, so, name, inputs, tmp, timeout=20):
    fd, path = tempfile.mkstemp(dir=tmp)
    os.close(fd)
    try:
        p = subprocess.run([drv, so, name, path] + [str(i) for i in inputs], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace", env=ENV, timeout=timeout)
        rc, txt = p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        rc, txt = "timeout", ""
    obs = [ln.strip() for ln in open(path)]
    os.unlink(path)
    return rc, txt.strip()[-600:], obs


def reproduces(v, rc, txt):
    if v["kind"] == "assert":
        return rc == 3 and ("assertion %d failed" % v["code"]) in txt
    if v["kind"] == "alloc":
        return rc == 5 or rc == -6
    if v["kind"] in ("hang", "deadlock"):
        return rc == "timeout" or rc == -24 or rc == -9
    if v["kind"] in ("panic", "abort", "trap", "unreachable", "memory"):
        return rc not in (0, 2, 3, 4, 5, "timeout")
    return False


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p))["known"] if os.path.exists(p) else []


def matches(k, prop, name, v):
    return (k["property"] == prop and k["harness"] == name and k["kind"] == v["kind"] and k.get("code", 0) == v["code"]
            and k.get("site", "") in (v["loc"] + " " + v["msg"] + " " + v["stack"]))


def pretty(fn):
    return re.sub(r"::h[0-9a-f]{16}$", "", fn)


def main():
    a = sys.argv[1:]
    if a == ["--setup"]:
        os.makedirs(BUILD, exist_ok=True)
        build_engine()
        build_ir("c01")
        return 0
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in a:
        tier = "thorough"
    ENV["SYMX_DEEP"] = "1" if tier == "thorough" else "0"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = props.PROPS[prop]
    only = a[a.index("--only") + 1] if "--only" in a else None
    hs = [h for h in P.harnesses if (h.tier in ("both", tier)) and (only is None or re.fullmatch(only, h.name))]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    evp = os.path.join(HERE, "evidence", prop + ".json")
    if os.path.exists(evp):
        os.unlink(evp)
    tmp = tempfile.mkdtemp(prefix="run-", dir=BUILD)
    try:
        return decide(prop, P, tier, seed, hs, tmp, evp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(prop, P, tier, seed, hs, tmp, evp):
    feature = prop.lower()
    with cf.ThreadPoolExecutor(2) as ex:
        fe, fi = ex.submit(build_engine), ex.submit(build_ir, feature)
        exe, drv = fe.result()
        ir = fi.result()
    build_s = time.time() - T0
    log("%s: built %s" % (prop, feature))
    slots = Slots(CORES)
    with cf.ThreadPoolExecutor(CORES) as ex:
        # heavy harnesses first
        order = sorted(hs, key=lambda h: -h.weight)
        results = list(ex.map(lambda h: run_harness(exe, ir, h, slots, seed, tmp), order))
    by = {h.name: h for h in hs}
    problems, found = [], []
    for r in results:
        h = by[r["name"]]
        if "error" in r:
            problems.append("%s: %s" % (h.name, r["error"]))
            continue
        log("%-28s %7d paths %9d instr %7d queries %6.1fs solver %6.1fs%s" % (
            h.name, r["paths"], r["instructions"], r["queries"], r["solver_seconds"], r["seconds"],
            "  VIOLATIONS %d" % len(r["violations"]) if r["violations"] else ""))
        for why, n in r["incomplete"].items():
            problems.append("%s: not exhausted (%s, %d paths)" % (h.name, why, n))
        if r["unknown"]:
            problems.append("%s: %d queries undecided" % (h.name, r["unknown"]))
        if not r["violations"]:
            for c in h.covers:
                if not r["covers"].get(str(c)):
                    problems.append("%s: vacuous, witness %d never reached" % (h.name, c))
            if r["paths"] == 0 or r["asserts"] == 0:
                problems.append("%s: vacuous, no assertion reached" % h.name)
        for v in r["violations"]:
            found.append((h, v))

    # differential validation: paths sampled by the executor are run natively, observations compared
    jobs = [(r["name"], s) for r in results if "error" not in r for s in r["samples"][:by[r["name"]].samples]]

    def validate(job):
        name, s = job
        rc, txt, obs = native(drv, ir + "/dev.so", name, s["inputs"], tmp)
        got = [int(o) for o in obs if not o.startswith("cover")]
        ok = rc == 0 and (got == s["obs"] or not by[name].compare)
        return ok, name, s, rc, txt, got

    validated, samples = 0, []
    with cf.ThreadPoolExecutor(CORES) as ex:
        for ok, name, s, rc, txt, got in ex.map(validate, jobs):
            if ok:
                validated += 1
                if len(samples) < 12 and (not samples or samples[-1]["harness"] != name):
                    samples.append({"harness": name, "inputs": s["inputs"], "observed": s["obs"]})
            else:
                problems.append("%s: path model %s disagrees with the native run: exit %s %s, observed %s, executor %s"
                                % (name, s["inputs"], rc, txt, got[:8], s["obs"][:8]))

    # counterexamples
    violations, known, replays = [], [], []
    rel = None
    for h, v in found:
        rc, txt, _ = native(drv, ir + "/dev.so", h.name, v["inputs"], tmp)
        dev_ok = reproduces(v, rc, txt)
        try:
            rel = rel or build_release(feature, ir)
            rrc, rtxt, _ = native(drv, rel, h.name, v["inputs"], tmp)
        except NoVerdict as e:
            rrc, rtxt = "build", str(e)[-300:]
        if not dev_ok:
            problems.append("%s: counterexample %s (%s %s %s) did not replay natively: exit %s %s" %
                            (h.name, v["inputs"], v["kind"], v["msg"], v["loc"], rc, txt))
            continue
        desc = {"property": prop, "harness": h.name, "what": h.what, "kind": v["kind"], "message": v["msg"],
                "location": v["loc"], "assertion": v["code"], "stack": v["stack"], "inputs": v["inputs"],
                "widths": v["widths"], "native_dev": {"exit": rc, "output": txt},
                "native_release": {"exit": rrc, "output": rtxt}}
        k = next((k for k in known_findings() if matches(k, prop, h.name, v)), None)
        if k:
            known.append((k, desc))
            continue
        rd = os.path.join(HERE, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s-%s-%s.json" % (prop, h.name, hashlib.sha1(json.dumps(
            [v["kind"], v["msg"], v["loc"], v["code"]]).encode()).hexdigest()[:8]))
        desc["replay"] = ("SYMX_DEEP=1 " if tier == "thorough" else "") + "build/driver build/ir-%s/dev.so %s /dev/stdout %s" % (feature, h.name, " ".join(map(str, v["inputs"])))
        json.dump(desc, open(path, "w"), indent=1)
        violations.append((desc, path))

    tot = lambda k: sum(r[k] for r in results if "error" not in r)  # noqa: E731
    funcs = {}
    for r in results:
        if "error" not in r:
            for f, n in r["functions"].items():
                if "steit" in f or "harness" in f:
                    f = pretty(f)
                    funcs[f] = funcs.get(f, 0) + n
    allf = set()
    for r in results:
        if "error" not in r:
            allf.update(r["functions"])
    repo_funcs = sorted(f for f in funcs if "steit" in f and not f.startswith("harness::c"))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths") + tot("forks"),
            "transitions": tot("instructions"),
            "traces_validated_against_impl": validated,
            "samples": samples,
            "explanation": "states: completed symbolic paths plus branching states; transitions: LLVM instructions of the real "
                           "code executed symbolically; traces: path models re-run on the natively compiled library with equal "
                           "observations.",
            "bounds": P.bounds, "outside_the_claim": P.outside,
            "symbolic_paths": tot("symbolic_paths"), "paths": tot("paths"), "assumed_away": tot("assumed_away"),
            "assertions_reached": tot("asserts"),
            "queries": {"discharged": tot("queries"), "sat": tot("sat"), "unsat": tot("unsat"), "unknown": tot("unknown"),
                        "from_cache": tot("cache_hits"), "from_recent_model": tot("model_hits")},
            "solver_seconds": round(tot("solver_seconds"), 3),
            "functions_encoded": len(allf), "steit_functions_encoded": repo_funcs[:400],
            "harnesses": [{k: r.get(k) for k in ("name", "paths", "instructions", "queries", "solver_seconds", "seconds",
                                                 "asserts", "covers", "max_path_instructions", "error") if k in r}
                          | {"what": by[r["name"]].what} for r in results],
        },
        "assumptions": props.COMMON_ASSUMPTIONS + P.assumptions,
        "build_s": round(build_s, 2),
        "wall_s": round(time.time() - T0, 2),
        "violations": len(violations),
        "known_findings": [d["harness"] + ": " + k["what"] for k, d in known],
        "problems": problems,
    }
    json.dump(ev, open(evp, "w"), indent=1)
    for k in {k["id"]: k for k, _ in known}.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for d, path in violations:
        log("%s: %s %s at %s, inputs %s" % (d["harness"], d["kind"], d["message"], d["location"], d["inputs"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    for p in problems:
        print("PROBLEM:", p)
    log("%s: %d paths, %d queries, %.1fs solver, %d traces validated, %d violations, %d problems" %
        (prop, tot("paths"), tot("queries"), tot("solver_seconds"), validated, len(violations), len(problems)))
    return 1 if violations else 2 if problems else 0


if __name__ == "__main__":
    try:
        rc = main()
    except NoVerdict as e:
        print("NO VERDICT:", e)
        rc = 2
    sys.exit(rc)
