//! Header encodings against a model.
use crate::apps::*;
use pasta_curves::Fp;
use ragu_core::drivers::{Driver, emulator::Emulator};
use ragu_core::maybe::{Always, Maybe, MaybeKind};
use ragu_core::{Error, Result as Rr};
use ragu_pcd::header::{Header, Suffix};
use ragu_pcd::step::Encoded;
use ragu_pcd::verif;
use ragu_primitives::Element;
use rec::{Rec, System};
use vh::{Case, Ctx, Res, catch, ensure, ensure_eq};

fn values<'dr, D: Driver<'dr, F = Fp, MaybeKind = Always<()>>>(v: &[Element<'dr, D>]) -> Vec<Fp> {
    v.iter().map(|e| *e.value().take()).collect()
}
/// Every way a header can be turned into elements.
fn encodings<'dr, H: Header<Fp>, D: Driver<'dr, F = Fp, MaybeKind = Always<()>>, const HS: usize>(dr: &mut D, d: &H::Data) -> Vec<(&'static str, Rr<Vec<Element<'dr, D>>>)>
where
    H::Data: Clone,
{
    let j = || Always::<()>::maybe_just(|| d.clone());
    let a = Encoded::<D, H, HS>::new(dr, j()).and_then(|e| verif::write_encoded(dr, e));
    let b = H::encode(dr, j()).and_then(|g| verif::write_encoded(dr, Encoded::<D, H, HS>::from_gadget(g)));
    let c = verif::encode_uniform::<_, H, HS>(dr, j()).and_then(|e| verif::write_encoded(dr, e));
    let d_ = H::encode(dr, j()).and_then(|g| verif::padded_header::<_, H, HS>(dr, g));
    let e = Encoded::<D, H, HS>::new(dr, j()).and_then(|e| {
        let f = e.clone();
        verif::write_encoded(dr, f)
    });
    vec![("new", a), ("from_gadget", b), ("uniform", c), ("padded", d_), ("clone", e)]
}
fn one<H: Hv, const HS: usize>(c: &mut Case) -> Result<Option<(Val, Vec<Fp>)>, String> {
    let d = H::sample(&mut c.rng);
    let v = H::val(&d);
    let want = v.encoding(HS);
    let what = format!("{v:?} in {HS} elements");
    // plainly
    let dr = &mut Emulator::execute();
    for (how, got) in encodings::<H, _, HS>(dr, &d) {
        c.eval();
        match (&want, got) {
            (Some(w), Ok(g)) => ensure_eq!(&values(&g), w, "{what}: {how}"),
            (None, Err(Error::MalformedEncoding(_))) => c.event("too large", 1),
            (w, g) => return Err(format!("{what}: {how}: {:?}, wanted {w:?}", g.map(|g| values(&g)).map_err(|e| e.to_string()))),
        }
        c.event(how, 1);
    }
    // under a driver that records what the encoding is made of
    if let Some(w) = &want {
        let mut dr = Rec::<Fp, Always<()>>::new();
        let enc = encodings::<H, _, HS>(&mut dr, &d);
        ensure!(dr.violated().is_none(), "{what}: honest encoding violates {:?}", dr.violated());
        let sys = System::of(&dr);
        let n = v.elements().len();
        for (how, got) in enc {
            let got = got.map_err(|e| format!("{what}: {how}: {e:?}"))?;
            ensure_eq!(&values(&got), w, "{what}: {how} (recorded)");
            for (i, e) in got.iter().enumerate() {
                let known = sys.form(e.wire()).known();
                if how == "uniform" {
                    // the same circuit for every header: nothing is a constant
                    ensure!(known.is_none(), "{what}: element {i} of the uniform encoding is built in");
                } else if i >= n {
                    ensure_eq!(known, Some(w[i]), "{what}: {how}: padding and suffix must be constants (element {i})");
                } else {
                    ensure!(known.is_none(), "{what}: {how}: element {i} ignores the witness");
                }
                c.event("elements traced", 1);
            }
        }
        // the uniform encoding does not depend on the header type
        let mut dr = Rec::<Fp, Always<()>>::new();
        let u = verif::encode_uniform::<_, H, HS>(&mut dr, Always::<()>::maybe_just(|| d.clone())).and_then(|e| verif::write_encoded(&mut dr, e));
        let u = u.map_err(|e| format!("{what}: {e:?}"))?;
        let mut ref_ = Rec::<Fp, Always<()>>::new();
        let z = verif::encode_uniform::<_, (), HS>(&mut ref_, Always::<()>::maybe_just(|| ())).and_then(|e| verif::write_encoded(&mut ref_, e));
        let z = z.map_err(|e| format!("{what}: {e:?}"))?;
        ensure!(prog::same_events(&dr.ev, &ref_.ev, true).is_ok(), "{what}: the uniform encoding has its own circuit");
        let (u, z): (Vec<_>, Vec<_>) = (u.iter().map(|e| *e.wire()).collect(), z.iter().map(|e| *e.wire()).collect());
        ensure_eq!(u, z, "{what}: wires of the uniform encoding");
        c.event("uniform circuits compared", 1);
    }
    c.seen(&(HS, format!("{v:?}")));
    c.sample("encoding", || format!("{v:?} -> {want:?}"));
    Ok(want.map(|w| (v, w)))
}
fn universe<const HS: usize>(c: &mut Case) -> Res {
    let mut all: Vec<(Val, Vec<Fp>)> = vec![];
    macro_rules! go { ($($h:ty),* $(,)?) => { for _ in 0..3 { $(all.extend(one::<$h, HS>(c)?);)* } } }
    // one header per suffix, as in an application
    go!((), Num<0>, Two<1>, Flag<2>, Curve<3>, Empty<4>, Arr<5, 1>, Arr<6, 2>, Arr<7, 3>, Arr<8, 4>, Arr<9, 6>, Arr<10, 15>, Arr<11, 16>, Num<12>, Num<255>, Num<4294967295>, Empty<4294967296>, Num<9223372036854775807>);
    for (i, a) in all.iter().enumerate() {
        for b in &all[..i] {
            ensure_eq!(a.1 == b.1, a.0 == b.0, "{:?} and {:?} in {HS} elements: equal encodings", a.0, b.0);
            c.event("pairs", 1);
        }
    }
    Ok(())
}
fn suffixes(c: &mut Case) -> Res {
    let mut seen: Vec<(u64, String)> = vec![];
    for k in [verif::suffix_value(&<() as Header<Fp>>::SUFFIX)] {
        ensure_eq!(k, 1, "suffix of the trivial header");
        seen.push((k, "()".into()));
    }
    // proofs of internal circuits end in zero
    seen.push((0, "internal".into()));
    let mut vals: Vec<usize> = vec![0, 1, 2, 3, 254, 255, 256, 65535, u32::MAX as usize - 1, u32::MAX as usize, u32::MAX as usize + 1, usize::MAX >> 1];
    vals.extend((0..4).map(|k| usize::MAX - k));
    vals.extend((0..40).map(|_| (c.rng.u64() >> c.rng.below(64)) as usize));
    vals.sort();
    vals.dedup();
    for v in vals {
        c.eval();
        // refusing a suffix is fine, colliding is not
        let Ok(s) = catch(|| Suffix::new(v)) else {
            ensure!(v > usize::MAX - 8, "suffix {v} was refused");
            c.event("suffixes refused", 1);
            continue;
        };
        let k = catch(|| verif::suffix_value(&s)).map_err(|p| format!("suffix {v} was accepted but has no encoding: {p}"))?;
        if let Some((_, o)) = seen.iter().find(|s| s.0 == k) {
            return Err(format!("suffixes {o} and {v} both encode as {k}"));
        }
        seen.push((k, v.to_string()));
        c.seen(&v);
        c.event("suffixes", 1);
    }
    Ok(())
}
pub fn d05(x: &Ctx) {
    x.rule("Random values of 18 header types are encoded in 1 to 17 elements by every route the library has, plainly and under a recording driver: elements must be the header's own, zero padding, then the suffix; padding and suffix must be constants of the circuit; headers that do not fit must be refused; no two different headers of the universe may encode alike; the uniform encoding must be one circuit for all headers. Distinct: header size, value.");
    x.cases("suffixes", x.n(2, 50), suffixes);
    x.cases("encodings", x.n(56, 2000), |c| match c.idx % 7 {
        0 => universe::<1>(c),
        1 => universe::<2>(c),
        2 => universe::<3>(c),
        3 => universe::<4>(c),
        4 => universe::<5>(c),
        5 => universe::<7>(c),
        _ => universe::<17>(c),
    });
}
