"""Generates the Rust programs that exercise the procedural macros.

Every generated program carries its own expectations, computed here from the
abstract shape that was drawn, never from what the macros produced."""
import random

HEAD = "// generated by tools/gen_macros.py\n"


# ---------------------------------------------------------------- 256-bit literals
def lit(rng, v, style):
    def us(s):
        if rng.random() < 0.5:
            return s
        out = s[0]
        for ch in s[1:]:
            if rng.random() < 0.25:
                out += "_" * rng.choice([1, 1, 2])
            out += ch
        return out + ("_" if rng.random() < 0.2 else "")
    z = "0" * rng.choice([0, 0, 1, 5, 17, 70])
    if style == "hex":
        s = "".join(c.upper() if rng.random() < 0.5 else c for c in z + "%x" % v)
        return "0x" + rng.choice(["", "", "_"]) + us(s)
    if style == "bin":
        return "0b" + rng.choice(["", "_"]) + us(z + bin(v)[2:])
    if style == "oct":
        return "0o" + rng.choice(["", "_"]) + us(z + "%o" % v)
    return us(z + str(v))


def values(rng, n):
    out = [0, 1, 2, 2**64 - 1, 2**64, 2**64 + 1, 2**128 - 1, 2**128, 2**192 - 1, 2**192, 2**255, 2**256 - 1, 2**256 - 2**64, 2**63, 2**127,
           (2**64 - 1) << 64, (2**64 - 1) << 128, (2**64 - 1) << 192, 1 << 64 | 1 << 192, 1 << 128 | 1,
           0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001, 0x40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001]
    for k in range(4):  # each limb alone, each limb missing
        out += [rng.getrandbits(64) << (64 * k), (2**256 - 1) ^ ((2**64 - 1) << (64 * k))]
    while len(out) < n:
        b = rng.randint(1, 256)
        v = rng.getrandbits(b)
        if rng.random() < 0.3:  # limbs of zeros and ones between random limbs
            for k in range(4):
                r = rng.random()
                if r < 0.25:
                    v &= ~((2**64 - 1) << (64 * k))
                elif r < 0.4:
                    v |= (2**64 - 1) << (64 * k)
        out.append(v)
    return out


def gen_a07(rng, tier):
    n = 300 if tier == "quick" else 3000
    rows = []
    for i, v in enumerate(values(rng, n)):
        for st in (("hex", "dec", "oct", "bin") if i < 60 else (rng.choice(("hex", "hex", "dec", "oct", "bin")),)):
            l = lit(rng, v, st)
            limbs = [(v >> (64 * k)) & (2**64 - 1) for k in range(4)]
            rows.append('    (ragu_macros::repr256!(%s), [%s], "%s", "%s"),' % (l, ", ".join("0x%x" % x for x in limbs), l, st))
    return HEAD + "pub static ROWS: &[([u64; 4], [u64; 4], &str, &str)] = &[\n" + "\n".join(rows) + "\n];\n"


def gen_a07_fields(rng, tier):
    P = {"fp": 0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001, "fq": 0x40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001}
    rows = []
    for i, v in enumerate(values(rng, 60 if tier == "quick" else 600)):
        for m, p in P.items():
            for w in {v, v % p, (p - 1 - v) % p}:
                st = rng.choice(("hex", "hex", "dec"))
                l = lit(rng, w, st)
                c = w % p
                le = ", ".join(str(b) for b in c.to_bytes(32, "little"))
                rows.append('    (ragu_pasta::%s!(%s).to_repr(), [%s], "%s!(%s)"),' % (m, l, le, m, l))
    return HEAD + "pub fn rows() -> Vec<([u8; 32], [u8; 32], &'static str)> { vec![\n" + "\n".join(rows) + "\n] }\n"


# ---------------------------------------------------------------- type substitution
def gen_m02(rng, tier):
    n = 150 if tier == "quick" else 1200
    fields = [("F97", "F97"), ("(u8, F97)", "(u8, F97)"), ("Vec<F97>", "Vec<F97>"), ("<Cyc as Cy>::Fp", "F13"), ("F13", "F13"), ("vh::small::F97", "F97")]

    def ty(d, f):
        """(written with placeholders, spelled out), same type by construction"""
        r = rng.random()
        if d == 0 or r < 0.25:
            k = rng.random()
            if k < 0.45:
                return "_", "PhantomData<%s>" % f
            x = rng.choice(["u8", "String", "&'static str", "[u8; 4]", "()", "fn(u8) -> u8", "Box<str>", "bool", "F13", "Option<&'static u8>", "PhantomData<u8>"])
            return x, x
        if r < 0.45:
            k = rng.choice([1, 2, 2, 3, 4])
            xs = [ty(d - 1, f) for _ in range(k)]
            j = lambda i: "(" + ", ".join(x[i] for x in xs) + ("," if k == 1 else "") + ")"
            return j(0), j(1)
        if r < 0.6:
            c = rng.choice(["Vec", "Option", "Box", "PhantomData", "std::collections::VecDeque", "std::option::Option", "::core::marker::PhantomData"])
            a = ty(d - 1, f)
            return "%s<%s>" % (c, a[0]), "%s<%s>" % (c, a[1])
        if r < 0.7:
            a = ty(d - 1, f)
            return "<u8 as Proj<%s>>::Out" % a[0], "<u8 as Proj<%s>>::Out" % a[1]
        lt = [rng.choice(["'_", "'_", "'static"]) for _ in range(2)]
        a, b = ty(d - 1, f), ty(d - 1, f)
        c = rng.choice(["0", "5", "{ 2 + 1 }", "17"])
        m = rng.choice(["M", "mk::M2", "self::mk::M2", "crate::mk::M2"])
        if m == "M":
            g = lambda i: "M<%s, %s, %s, %s, %s>" % (lt[0] if i == 0 else "'static", lt[1] if i == 0 else "'static", a[i], b[i], c)
        else:
            g = lambda i: "%s<%s, %s, %s>" % (m if i == 0 else "mk::M2", lt[0] if i == 0 else "'static", a[i], c)
        return g(0), g(1)
    rows, seen = [], set()
    while len(rows) < n:
        fw, fs = rng.choice(fields)
        w, s = ty(rng.choice([1, 2, 3, 4]), fs)
        if "_" not in w or (fw, w) in seen or len(w) > 1500:
            continue
        seen.add((fw, w))
        sp = rng.choice(["; ", ";"])
        rows.append('    (TypeId::of::<Kind![%s%s@%s]>(), TypeId::of::<%s>(), type_name::<Kind![%s%s@%s]>(), "%s", "%s"),' % (fw, sp, w, s, fw, sp, w, (fw + "; @" + w).replace('"', "'"), s))
    # without the marker: the kind of the gadget so named, and back
    g = []
    L = [("L<'_, _>", "L<'static, {P}>", "L<'static, {D}>")]

    def gad(d):
        r = rng.random()
        if d == 0 or r < 0.3:
            return L[0]
        if r < 0.65:
            a, b = gad(d - 1), rng.choice(["u8", "String", "(u8, bool)"])
            k = rng.choice([0, 1, 3])
            # the nested gadget enters through its kind
            return ("G<'_, _, %s, %s, %d>" % (kd(a), b, k), "G<'static, {P}, %s, %s, %d>" % (kd(a), b, k), "G<'static, {D}, %s, %s, %d>" % (kd(a), b, k))
        if r < 0.8:
            b = rng.choice(["u8", "String"])
            return ("H<%s, '_, 2, _>" % b if False else "H<'_, %s, _, 2>" % b, "H<'static, %s, {P}, 2>" % b, "H<'static, %s, {D}, 2>" % b)
        a, b = gad(d - 1), gad(d - 1)
        return ("(%s, %s)" % (a[0], b[0]), "(PhantomData<%s>, PhantomData<%s>)" % (a[1], b[1]), "(%s, %s)" % (a[2], b[2]))

    def kd(a):
        return a[1].replace("{P}", "PhantomData<F97>")
    seen = set()
    for _ in range(n * 3):
        w, k, b = gad(3)
        if w in seen or len(seen) >= n // 2:
            continue
        seen.add(w)
        k, b = k.replace("{P}", "PhantomData<F97>"), b.replace("{D}", "Dr")
        g.append('    (TypeId::of::<Kind![F97; %s]>(), TypeId::of::<%s>(), type_name::<Kind![F97; %s]>(), "F97; %s", "%s"),' % (w, k, w, w, k))
        g.append('    (TypeId::of::<Bound<\'static, Dr, Kind![F97; %s]>>(), TypeId::of::<%s>(), type_name::<Bound<\'static, Dr, Kind![F97; %s]>>(), "rebinding F97; %s", "%s"),' % (w, b, w, w, b))
    src = HEAD + "pub fn rows() -> Vec<(TypeId, TypeId, &'static str, &'static str, &'static str)> { vec![\n" + "\n".join(rows + g) + "\n] }\n"
    # tuple generator
    sizes = [2, 3, 4, 7, 12, 26] if tier == "quick" else list(range(2, 41))
    src += "pub fn tuples() -> Vec<(usize, usize, Vec<u64>, Vec<u64>, bool)> { let mut out = vec![];\n"
    for N in sizes:
        src += "{ mod t%d { use crate::mock::*; ragu_macros::impl_maybe_cast_tuple!(%s); mock!(); }\n" % (N, rng.choice(["%d", "%dusize", "0x%x"]) % N)
        src += "use t%d::*;\n" % N
        for k in sorted({2, 3, N - 1, N} & set(range(2, N + 1))):
            vals = [rng.getrandbits(32) for _ in range(k)]
            args = ", ".join("%du64" % v if i % 2 == 0 else "Odd(%d)" % v for i, v in enumerate(vals))
            tys = ", ".join("u64" if i % 2 == 0 else "Odd" for i in range(k))
            get = ", ".join("o.%d.get()" % i for i in range(k))
            emp = " && ".join("e.%d.is_none()" % i for i in range(k))
            src += "  { let o = <(%s) as MaybeCast<(%s), Has>>::cast((%s)); let e = <(%s) as MaybeCast<(%s), Has>>::empty();\n" % (tys, tys, args, tys, tys)
            src += "    out.push((%d, %d, vec![%s], vec![%s], %s)); }\n" % (N, k, get, ", ".join(map(str, vals)), emp)
        src += "}\n"
    return src + "out }\n"


# ---------------------------------------------------------------- derives
FIELD_NAMES = ["this", "wm", "dr", "a", "b", "tmp", "buf", "x", "y", "r#type", "r#fn", "is_send", "just", "w", "value", "wire", "gadget", "skip", "phantom", "r#match",
               "dst", "D", "f", "id", "clone", "map", "write", "take", "z9", "_u", "kind", "r#dyn", "lc", "n", "this_", "_0", "driver", "enforce_equal", "maybe", "ragu_core"]
VALT = ["u64", "String", "(u64, bool)", "Vec<u64>", "Vec<String>"]


class Struct:
    pass


def gen_m01_core(rng, tier):
    return gen_m01(rng, tier, core=True)


def gen_m01(rng, tier, core=False):
    n = 90 if tier == "quick" else 400
    structs, out = [], []

    def attr(kind, skip, pos):
        """spellings of a field annotation"""
        toks = ([kind] if kind else []) + (["skip"] if skip else [])
        rng.shuffle(toks)
        if not toks:
            return ""
        if len(toks) == 2 and rng.random() < 0.4:
            a = "#[ragu(%s)]" % ", ".join(toks)
        else:
            a = " ".join("#[ragu(%s)]" % t for t in toks)
        if rng.random() < 0.15:
            a = rng.choice(["/// doc\n    ", "#[allow(dead_code)] ", "#[doc = \"ragu(phantom)\"] ", "#[doc = \"ragu(skip)\"] "]) + a
        if rng.random() < 0.1:
            a += rng.choice(["\n    /// #[ragu(value)]\n   ", " #[allow(non_snake_case)]"])
        return a

    for si in range(n):
        s = Struct()
        s.name = rng.choice(["S", "Foo", "Point", "Is", "Gadget_", "R"]) + str(si)
        style = rng.random()
        s.D = "D" if style < 0.35 else rng.choice(["D", "Dx", "MyD", "Drv", "T", "F_", "E"])
        s.lt = "'dr" if s.D == "D" and style < 0.35 else rng.choice(["'dr", "'a", "'my_dr", "'x", "'d"])
        explicit = not (s.D == "D" and s.lt == "'dr") or rng.random() < 0.5
        Dpath = rng.choice(["Driver", "ragu_core::drivers::Driver", "::ragu_core::drivers::Driver"])
        dparam = ("#[ragu(driver)] " if explicit else "") + "%s: %s%s<%s>" % (s.D, rng.choice(["", "", "Sized + "]) if explicit else "", Dpath, s.lt)
        s.derive = "G" if core else rng.choice(["G", "GW", "GW", "GWC", "GWC", "GC"])
        W, C = "W" in s.derive, "C" in s.derive
        # parameters besides the driver: (declaration, name, instance)
        ps, tparams, kparams, nparams = [], [], [], []
        for nm in rng.sample(["T1", "U", "Vv", "K", "Q", "Ty"], rng.choice([0, 0, 1, 1, 2, 3])):
            r = rng.random()
            if r < 0.5 or C:
                inst = rng.choice(VALT)
                base = rng.choice(["Send + Sync + Clone + 'static", "Clone + 'static + Send + Sync"])
                extra = rng.choice(["", "", " + Tr<{D}::F>", " + Tr<({D}::F, u8)>", " + Tr<(u8, ({D}::F, Vec<{D}::F>))>", " + Ta<Assoc = {D}::F>", " + Ta<Assoc: Tb<{D}::F>>", " + Tc<Vec<({D}::F,)>, 3>",
                                    " + Tr<Option<{D}::F>>", " + self::Tr<({D}::F, {D}::F)>", " + Td<Out = (u8, {D}::F)>"]).replace("{D}", s.D)
                ps.append(["%s: %s%s" % (nm, base, extra), nm, inst])
                tparams.append((nm, inst))
            else:
                prev = [t.K for t in structs if ("W" in t.derive or not W) and t.wires < 20][-6:]
                k = rng.choice(prev + ["LaK", "LbK", "()", "[PhantomData<LaK>; 2]", "(PhantomData<LbK>, PhantomData<LaK>)", "PhantomData<Box<LbK>>"])
                bd = ("Write<%s::F>" if W else "GadgetKind<%s::F>") % s.D
                ps.append(["%s: %s" % (nm, bd), nm, k])
                kparams.append((nm, k))
        for nm in rng.sample(["N", "M", "LEN"], rng.choice([0, 0, 1, 1, 2])):
            v = rng.choice([0, 1, 2, 3])
            ps.append(["const %s: usize" % nm, nm, str(v)])
            nparams.append((nm, v))
        # parameters the fields do not mention get a marker field
        s.params = ps
        order = ps[:]
        order.insert(rng.randint(0, len(order)) if rng.random() < 0.5 else 0, None)
        # trailing defaults
        decl, i = [], len(order) - 1
        dflt = rng.random() < 0.25
        for p in reversed(order):
            if p is None:
                decl.append(dparam)
                dflt = False
            elif dflt and not p[0].startswith("const") and any(p[1] == t[0] for t in tparams) and "Assoc" not in p[0] and rng.random() < 0.8:
                decl.append(p[0] + " = " + p[2])
            else:
                dflt = False
                decl.append(p[0])
        decl = decl[::-1]
        s.args = lambda lt, d, order=order: "<%s, %s>" % (lt, ", ".join(d if p is None else p[2] for p in order))
        gens = "<%s, %s>" % (s.lt, ", ".join(decl))

        s.nest = not kparams and not any("Assoc" in p[0] or "Out =" in p[0] for p in ps)
        names = rng.sample(FIELD_NAMES, rng.choice([0, 1, 2, 2, 3, 3, 4, 5, 6, 9, 14]))
        fields = []

        def gadget_ty(d, need_w, need_c):
            """(type in the struct, kind at the instance)"""
            r = rng.random()
            sub = lambda: gadget_ty(d - 1, need_w, need_c)
            if d > 0 and r < 0.18:
                a = sub()
                k = rng.choice(["0", "1", "2", "3"] + [x[0] for x in nparams] * 2)
                kv = dict(nparams).get(k, k)
                return "[%s; %s]" % (a[0], k), "[PhantomData<%s>; %s]" % (a[1], kv)
            if d > 0 and r < 0.32:
                a, b = sub(), sub()
                return "(%s, %s)" % (a[0], b[0]), "(PhantomData<%s>, PhantomData<%s>)" % (a[1], b[1])
            if d > 0 and r < 0.4:
                a = sub()
                return "Box<%s>" % a[0], "PhantomData<Box<%s>>" % a[1]
            if r < 0.55 and kparams:
                nm, k = rng.choice(kparams)
                return rng.choice(["Bound<%s, %s, %s>", "<%s as GadgetKind<%s::F>>::Rebind<%s, %s>"]) .__mod__((s.lt, s.D, nm)) if False else "Bound<%s, %s, %s>" % (s.lt, s.D, nm), k
            c = [t for t in structs if (not need_w or "W" in t.derive) and (not need_c or "C" in t.derive) and t.wires < 60 and t.nest]
            if r < 0.75 and c:
                t = rng.choice(c)
                return t.name + t.args(s.lt, s.D), t.name + t.args("'static", "PhantomData<F>")
            n_ = rng.choice(["La", "Lb"])
            return "%s<%s, %s>" % (n_, s.lt, s.D), n_ + "K"

        for nm in names:
            k = rng.choice(["wire", "wire", "value", "gadget", "gadget", "", "", "phantom"])
            skip = rng.random() < 0.25
            if k == "wire":
                t, kd = rng.choice(["%s::Wire" % s.D, "<%s as Driver<%s>>::Wire" % (s.D, s.lt), "<%s as DriverTypes>::ImplWire" % s.D if False else "%s::Wire" % s.D]), None
                skip = W or skip
            elif k == "value":
                vts = VALT + [s.D + "::F"] + [x[0] for x in tparams] * 3
                v = rng.choice(vts)
                t, kd = "DriverValue<%s, %s>" % (s.D, v), dict(tparams).get(v, "F" if v.endswith("::F") else v)
                skip = W or skip
            elif k == "phantom":
                t, kd = rng.choice(["PhantomData<()>", "::core::marker::PhantomData<&%s u8>" % s.lt, "PhantomData<(u8, %s)>" % s.D if False else "PhantomData<u8>"]), None
            else:
                t, kd = gadget_ty(2, W and not skip, C)
                if nm == "phantom" and rng.random() < 0:
                    pass
            fields.append((nm, k, skip, t, kd))
        # mention every parameter
        txt = " ".join(f[3] for f in fields)
        import re
        used = set(re.findall(r"\w+", txt))
        marks = []
        for p in ps:
            if p[1] not in used and not p[0].startswith("const"):
                marks.append(p[1])
        if s.D not in used:
            marks.append("fn() -> %s::F" % s.D)
        if s.lt[1:] not in re.findall(r"'(\w+)", txt):
            marks.append("&%s ()" % s.lt)
        for m in marks:
            fields.insert(rng.randint(0, len(fields)), ("mark%d" % len(fields), "phantom", rng.random() < 0.3, "PhantomData<%s>" % m, None))
        vis = lambda: rng.choice(["pub ", "pub ", "", "pub(crate) "])
        dl = {"G": ["Gadget"], "GW": ["Gadget", "Write"], "GWC": ["Gadget", "Write", "Consistent"], "GC": ["Gadget", "Consistent"]}[s.derive][:]
        rng.shuffle(dl)
        der = "#[derive(%s)]" % ", ".join(dl) if rng.random() < 0.7 else " ".join("#[derive(%s)]" % d for d in dl)
        body = "".join("    %s\n    %s%s: %s,\n" % (attr(k, skip, 0), vis(), nm, t) for nm, k, skip, t, kd in fields)
        out.append("%s\npub struct %s%s {\n%s}\n" % (der, s.name, gens, body))
        KS = s.name + s.args("'static", "PhantomData<F>")
        b, r, w_, c_ = [], [], [], []
        wires = []
        for nm, k, skip, t, kd in fields:
            if k == "wire":
                b.append("%s: f.w()" % nm); r.append("w.push(g.%s.clone());" % nm); wires.append("1")
            elif k == "value":
                b.append("%s: f.v::<%s>()" % (nm, kd)); r.append("v.push(bk::<D, %s>(&g.%s));" % (kd, nm))
            elif k == "phantom":
                b.append("%s: PhantomData" % nm)
            else:
                b.append("%s: <%s as Shape>::build::<D>(f)" % (nm, kd)); r.append("<%s as Shape>::read::<D>(&g.%s, w, v);" % (kd, nm)); wires.append("<%s as Shape>::wires()" % kd)
                if not skip:
                    w_.append("<%s as Written>::written::<D>(&g.%s, w);" % (kd, nm))
                c_.append("<%s as Checked>::checked::<D>(&g.%s, w);" % (kd, nm))
        s.wires = 1 + 2 * len(wires) * (1 + sum("[" in x for x in wires))
        sig = "<'dr, D: Driver<'dr, F = F>>(g: &Bound<'dr, D, Self>, w: &mut Vec<D::Wire>"
        out.append("impl Shape for %s {\n    fn wires() -> usize { %s }\n    fn build<'dr, D: Driver<'dr, F = F>>(f: &mut Feed<'_, 'dr, D>) -> Bound<'dr, D, Self> {\n        let _ = &f; %s { %s }\n    }\n    fn read%s, v: &mut Vec<DriverValue<D, u64>>) {\n        let _ = (g, &w, &v); %s\n    }\n}\n"
                   % (KS, " + ".join(wires) or "0", s.name, ", ".join(b), sig, "\n        ".join(r)))
        if W:
            out.append("impl Written for %s {\n    fn written%s) { let _ = (g, &w); %s }\n}\n" % (KS, sig, " ".join(w_)))
        if C:
            out.append("impl Checked for %s {\n    fn checked%s) { let _ = (g, &w); %s }\n}\n" % (KS, sig, " ".join(c_)))
        s.K = KS
        structs.append(s)
    run = []
    for s in structs:
        run.append('    ctx.cases("%s", n, |c| shape::<%s>(c, "%s"));' % (s.name, s.K, s.name))
        if "W" in s.derive:
            run.append('    ctx.cases("%s/write", n, |c| shape_write::<%s>(c, "%s"));' % (s.name, s.K, s.name))
        if "C" in s.derive:
            run.append('    ctx.cases("%s/consistent", n, |c| shape_consistent::<%s>(c, "%s"));' % (s.name, s.K, s.name))
    return HEAD + "\n".join(out) + "\npub fn all(ctx: &Ctx, n: usize) {\n" + "\n".join(run) + "\n}\n"


GENS = {"mac_a07": gen_a07, "mac_a07_fields": gen_a07_fields, "mac_m02": gen_m02, "mac_m01": gen_m01, "mac_m01_core": gen_m01_core}


def generate(pkg, seed, tier):
    return GENS[pkg](random.Random("%s/%d" % (pkg, seed)), tier)


if __name__ == "__main__":
    import sys
    print(generate(sys.argv[1], int(sys.argv[2]), sys.argv[3] if len(sys.argv) > 3 else "quick"))
