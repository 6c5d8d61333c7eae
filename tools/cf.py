"""Programs the compiler must refuse, each next to a control it must accept.

The monitored execution is the compiler running the real macros (and the real
types) on the program; the verdict is whether it was accepted."""
import concurrent.futures, json, os, random, subprocess, tempfile, time

M01_PRE = """#![allow(unused)]
use ragu_core::drivers::{Driver, DriverValue};
use ragu_core::gadgets::{Bound, Gadget, GadgetKind};
use ragu_primitives::consistent::Consistent;
use ragu_primitives::{Element, Boolean, io::Write};
use std::marker::PhantomData;
"""


def m01(rng, tier):
    out = []
    P = lambda *a: out.append((a[0], M01_PRE + a[1], M01_PRE + a[2]))
    for d in ("Gadget", "Write", "Consistent"):
        der = "#[derive(%s)]" % d
        base = "#[derive(Gadget)] " if d != "Gadget" else ""
        ok = "#[derive(Gadget%s)] struct S<'dr, D: Driver<'dr>> { #[ragu(gadget)] e: Element<'dr, D> }" % ("" if d == "Gadget" else ", " + d) if d != "Consistent" else \
            "#[derive(Gadget, Consistent)] struct S<'dr, D: Driver<'dr>> { #[ragu(phantom)] e: PhantomData<(&'dr (), D)> }"
        P("%s of an enum" % d, der + " enum S<'dr, D: Driver<'dr>> { A(Element<'dr, D>), B }", ok)
        P("%s of a union" % d, der + " union S<'dr, D: Driver<'dr>> { a: PhantomData<(&'dr (), D)> }", ok)
        P("%s of a tuple struct" % d, der + " struct S<'dr, D: Driver<'dr>>(Element<'dr, D>);", ok)
        P("%s of a unit struct" % d, der + " struct S;", ok)
        P("%s with a where clause" % d, der + " struct S<'dr, D: Driver<'dr>, T> where T: Send + Clone + 'static { #[ragu(phantom)] e: PhantomData<(&'dr (), D, T)> }", ok)
        for b in ("Driver", "Driver<'dr, 'static>", "Clone", "'dr"):
            P("%s with a driver bounded by %s" % (d, b), der + " struct S<'dr, #[ragu(driver)] X: %s> { #[ragu(phantom)] e: PhantomData<(&'dr (), X)> }" % b, ok)
        P("%s on a generic driver never named" % d, der + " struct S<'x, X: Driver<'x>> { #[ragu(phantom)] e: PhantomData<(&'x (), X)> }",
          ("#[derive(Gadget)] " + (der if d != "Gadget" else "") + " struct S<'x, #[ragu(driver)] X: Driver<'x>> { #[ragu(phantom)] e: PhantomData<(&'x (), X)> }"))
    an = {"wire": "D::Wire", "value": "DriverValue<D, u64>", "gadget": "Element<'dr, D>", "phantom": "PhantomData<u8>"}
    S = lambda f, d="Gadget": "#[derive(%s)] struct S<'dr, D: Driver<'dr>> { %s, #[ragu(phantom)] p: PhantomData<(&'dr (), D)> }" % (d, f)
    ks = list(an)
    for i, a in enumerate(ks):
        for b in ks:
            if a == b:
                continue
            for form in ("#[ragu(%s)] #[ragu(%s)]", "#[ragu(%s, %s)]"):
                P("field annotated both %s and %s" % (a, b), S(form % (a, b) + " f: " + an[a]), S("#[ragu(%s)] f: " % a + an[a]))
        P("all annotations at once", S("#[ragu(wire)] #[ragu(value)] #[ragu(gadget)] #[ragu(phantom)] f: " + an[a]), S("#[ragu(%s)] f: " % a + an[a]))
        # an annotation that does not fit the field's type
        for t in an:
            if t != a:
                P("%s field annotated %s" % (t, a), S("#[ragu(%s)] f: " % a + an[t]), S("#[ragu(%s)] f: " % t + an[t]))
    P("unannotated wire", S("f: D::Wire"), S("#[ragu(wire)] f: D::Wire"))
    P("unannotated value", S("f: DriverValue<D, u64>"), S("#[ragu(value)] f: DriverValue<D, u64>"))
    P("growable gadget list", S("f: Vec<Element<'dr, D>>"), S("f: [Element<'dr, D>; 3]"))
    P("optional gadget", S("f: Option<Element<'dr, D>>"), S("f: Box<Element<'dr, D>>"))
    P("skip does not excuse a non-gadget", S("#[ragu(skip)] f: u64"), S("#[ragu(skip)] f: Element<'dr, D>"))
    P("serialized wire", S("#[ragu(wire)] f: D::Wire", "Gadget, Write"), S("#[ragu(wire)] #[ragu(skip)] f: D::Wire", "Gadget, Write"))
    P("serialized value", S("#[ragu(value)] f: DriverValue<D, u64>", "Gadget, Write"), S("#[ragu(value, skip)] f: DriverValue<D, u64>", "Gadget, Write"))
    nw = "#[derive(Gadget)] struct Q<'dr, D: Driver<'dr>> { #[ragu(wire)] w: D::Wire } "
    P("serialized field without serialization", nw + S("f: Q<'dr, D>", "Gadget, Write"), nw + S("#[ragu(skip)] f: Q<'dr, D>", "Gadget, Write"))
    P("checked field without a check", nw + S("f: Q<'dr, D>", "Gadget, Consistent"), nw + "impl<'dr, D: Driver<'dr>> Consistent<'dr, D> for Q<'dr, D> { fn enforce_consistent(&self, _: &mut D) -> ragu_core::Result<()> { Ok(()) } } " + S("f: Q<'dr, D>", "Gadget, Consistent"))
    P("skip does not excuse a check", nw + S("#[ragu(skip)] f: Q<'dr, D>", "Gadget, Consistent"), nw + S("#[ragu(skip)] f: Q<'dr, D>", "Gadget"))
    return out


def a07(rng, tier):
    M = 2 ** 256
    out = []
    L = lambda l: "pub const X: [u64; 4] = ragu_macros::repr256!(%s);\n" % l
    bad = [M, M + 1, M * 2, M << 64, (M << 64) + 5, M << 128, M * M - 1, M * M, 2 ** 320 - 1, 2 ** 319, M | 1 << 255, 10 ** 80, 2 ** 1000, 3 * M - 1, (1 << 320) + (1 << 256)]
    bad += [M + rng.getrandbits(256) for _ in range(5)] + [rng.getrandbits(60 + rng.randint(0, 500)) | M << rng.randint(0, 200) for _ in range(5 if tier == "quick" else 50)]
    for v in bad:
        for f in ("0x%x", "%d", "0x000%x") if tier != "quick" or v in (M, M + 1) else (rng.choice(("0x%x", "%d")),):
            out.append(("literal %s" % (f % v), L(f % v), L(f % (v % M))))
    for l, ok in (("1.5", "15"), ('"12"', "12"), ("'1'", "1"), ("x", "0"), ("-1", "1"), ("", "0"), ("1 2", "12"), ("true", "1"), ("1 + 1", "2"), ("0x1, ", "0x1"), ("1e3", "1000"), ("0b12", "0b11"), ("0o8", "0o7"), ("0xg", "0xf"), ("b'a'", "97")):
        out.append(("literal `%s`" % l, L(l), L(ok)))
    out.append(("256-bit literal used as three limbs", L("1").replace("; 4]", "; 3]"), L("1")))
    return out


M02_PRE = """#![allow(unused)]
use ragu_core::drivers::{Driver, DriverValue};
use ragu_core::gadgets::{Bound, Gadget, GadgetKind, Kind};
use ragu_core::maybe::{Always, Empty, Maybe, MaybeCast};
use std::marker::PhantomData;
type F = vh::small::F97;
#[derive(Gadget)] struct L<'dr, D: Driver<'dr>> { #[ragu(wire)] w: D::Wire }
fn k<K: GadgetKind<F>>() {}
"""
MOCK = """pub trait MaybeCast<R, K> { type Output; fn empty() -> Self::Output; fn cast(self) -> Self::Output; }
pub trait MaybeKind { type Rebind<T: Send>; fn maybe_just<T: Send>(f: impl FnOnce() -> T) -> Self::Rebind<T>; fn empty<T: Send>() -> Self::Rebind<T>; }
pub type Perhaps<K, T> = <K as MaybeKind>::Rebind<T>;
fn c<T: MaybeCast<T, K>, K>() {}
"""


def m02(rng, tier):
    out = []
    P = lambda *a: out.append((a[0], M02_PRE + a[1], M02_PRE + a[2]))
    ok = "fn f() { k::<Kind![F; L<'_, _>]>() }"
    P("kind of a type that is no gadget", "fn f() { k::<Kind![F; Vec<u8>]>() }", ok)
    P("kind over the wrong field", "fn f() { k::<Kind![vh::small::F13; L<'_, _>]>() }", ok)
    P("kind without the field", "fn f() { k::<Kind![L<'_, _>]>() }", ok)
    P("kind without the type", "fn f() { k::<Kind![F;]>() }", ok)
    P("kind with a comma", "fn f() { k::<Kind![F, L<'_, _>]>() }", ok)
    P("kind without generics", "fn f() { k::<Kind![F; L]>() }", ok)
    P("kind with a missing parameter", "fn f() { k::<Kind![F; L<_>]>() }".replace("L<_>", "L<'_, _, _>"), ok)
    P("two markers", "fn f() { k::<Kind![F; @@L<'_, _>]>() }", "fn f() { k::<Kind![F; @L<'_, _>]>() }")
    P("kind over the driver", "fn f() { k::<Kind![F; L<'_, u8>]>() }", ok)
    M = lambda *a: out.append((a[0], MOCK + a[1], MOCK + a[2]))
    for l in ("1", "0", "", "x", "-3", "\"3\"", "2.0", "3, 4"):
        M("tuple generator called with `%s`" % l, "ragu_macros::impl_maybe_cast_tuple!(%s);" % l, "ragu_macros::impl_maybe_cast_tuple!(2);")
    for n in (2, 3, 4, 9) if tier == "quick" else range(2, 30):
        t = lambda k: "fn g<K: MaybeKind>() { c::<(%s,), K>() }" % ", ".join(["u8"] * k)
        M("tuple of %d from a generator up to %d" % (n + 1, n), "ragu_macros::impl_maybe_cast_tuple!(%d); %s" % (n, t(n + 1)), "ragu_macros::impl_maybe_cast_tuple!(%d); %s" % (n + 1, t(n + 1)))
    return out


C01_PRE = """#![allow(unused)]
use ragu_core::maybe::{Always, Empty, Maybe, MaybeKind, MaybeCast};
"""


def c01(rng, tier):
    out = []
    P = lambda *a: out.append((a[0], C01_PRE + a[1], C01_PRE + a[2]))
    g = "fn go<K: MaybeKind>() -> u64 { let x: <K as MaybeKind>::Rebind<u64> = K::maybe_just(|| 5u64); %s } pub fn main() { go::<%s>(); }"
    for n, b in (("take", "x.take()"), ("take after map", "x.map(|v| v + 1).take()"), ("take after and_then", "x.and_then(|v| K::maybe_just(|| v)).take()"), ("take by reference", "*x.as_ref().take()"), ("snag", "*x.snag()")):
        P("%s of an absent value" % n, g % (b, "Empty"), g % (b, "Always<()>"))
    P("pretending an absent value is present", "pub fn main() { let x = <Empty as Maybe<u64>>::just(|| 5u64); let _: u64 = Maybe::<u64>::take(x); }", "pub fn main() { let x = <Always<u64> as Maybe<u64>>::just(|| 5u64); let _: u64 = Maybe::<u64>::take(x); }")
    P("value that cannot be sent", "pub fn main() { let _ = <Always<std::rc::Rc<u8>> as Maybe<std::rc::Rc<u8>>>::just(|| std::rc::Rc::new(5u8)); }", "pub fn main() { let _ = <Always<std::sync::Arc<u8>> as Maybe<std::sync::Arc<u8>>>::just(|| std::sync::Arc::new(5u8)); }")
    return out


SETS = {"A07": a07, "M01": m01, "M02": m02, "C01": c01}


def artifacts(check, bname, pkg):
    env = check.build_env(bname)
    b = check.BUILDS[bname]
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "-p", pkg, "--message-format=json"], cwd=os.path.join(check.VERIF, "harness"),
                       env=dict(env, VERIF_GEN=check.gen_path(bname, pkg)), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    ex = {}
    for l in r.stdout.splitlines():
        m = json.loads(l)
        if m.get("reason") == "compiler-artifact" and set(m["target"]["kind"]) & {"lib", "proc-macro"}:
            for f in m["filenames"]:
                if f.endswith((".rlib", ".so")):
                    ex[m["target"]["name"]] = f
    return ex


def run(check, prop, tier, v, base):
    t0 = time.time()
    rng = random.Random("%s/%s" % (prop, base["seed"]))
    cases = SETS[prop](rng, tier)
    ex = artifacts(check, v["build"], v["pkg"])
    names = [n for n in v["externs"] if n in ex]
    if len(names) != len(v["externs"]):
        print("INCONCLUSIVE %s: artifacts missing, have %s" % (prop, names))
        return 2, None
    emit = v.get("emit", "metadata")
    with tempfile.TemporaryDirectory(prefix="verif_cf_") as d:
        def rustc(name, src, kind):
            p = os.path.join(d, name + ".rs")
            open(p, "w").write(src)
            cmd = ["rustc", "--edition=2024", "--crate-name", name, "--crate-type", kind, "--emit=" + emit, "--cap-lints=allow", "--cfg", "ragu_verif", "-o", os.path.join(d, name + ".out"), p]
            for n in names:
                cmd += ["--extern", "%s=%s" % (n, ex[n])]
            cmd += ["-L", "dependency=" + os.path.join(check.TARGET, v["build"], "debug", "deps")]
            env = dict(check.build_env(v["build"]), CARGO_MANIFEST_DIR=os.path.join(check.VERIF, "harness", v["pkg"]))
            env.pop("RUSTFLAGS", None)
            r = subprocess.run(cmd, cwd=os.path.join(check.VERIF, "harness"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            return r.returncode, r.stdout
        kind = "bin" if emit == "obj" else "lib"
        jobs = []
        uniq = {}
        with concurrent.futures.ThreadPoolExecutor(8) as pool:
            for i, (what, bad, ok) in enumerate(cases):
                if ok not in uniq:
                    uniq[ok] = pool.submit(rustc, "ok%d" % i, ok, kind)
                jobs.append((what, bad, ok, pool.submit(rustc, "bad%d" % i, bad, kind), uniq[ok]))
            rej = acc = 0
            errs, seen, fail = {}, set(), None
            for what, bad, ok, fb, fo in jobs:
                rc, out = fo.result()
                if rc == 101 or rc < 0:
                    return 2, None
                if rc != 0:
                    fail = fail or ("program that must compile is rejected (control for: %s): %s" % (what, next((l for l in out.splitlines() if l.startswith("error")), "")), ok, out)
                    continue
                acc += 1
                rc, out = fb.result()
                if rc == 0:
                    fail = fail or ("program that must be rejected compiles: %s" % what, bad, out)
                    continue
                rej += 1
                seen.add(bad)
                e = next((l for l in out.splitlines() if l.startswith("error")), "error")
                errs[e[:60]] = errs.get(e[:60], 0) + 1
    if fail:
        check.violation(prop, dict(base, case=fail[0], what=fail[0], program=fail[1], compiler=fail[2][-3000:]))
    print("%s: %d programs rejected, %d controls accepted" % (prop, rej, acc))
    cov = dict(evaluations=rej + acc, distinct_nontrivial=len(seen), rule="Programs that must not compile, each with a control that must; non-trivial when rejected and new.",
               samples=["rejected: " + w for w, _, _ in cases[:3]],
               observed_events={"programs rejected": rej, "controls accepted": acc}, counts={"kinds of compile error": len(errs)})
    return (1 if fail else 0), dict(coverage=cov, assumptions=[], wall_s=round(time.time() - t0, 3))
