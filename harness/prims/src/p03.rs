use ff::{Field, PrimeField, WithSmallOrderMulGroup};
use group::Curve;
use group::prime::PrimeCurveAffine;
use pasta_curves::arithmetic::CurveAffine;
use prog::{Budget, Expect, Feeder, Frag, Io, St, attack, conform};
use ragu_core::Result;
use ragu_core::drivers::{Driver, DriverValue};
use ragu_core::gadgets::Gadget;
use ragu_core::maybe::Maybe;
use ragu_primitives::consistent::Consistent;
use ragu_primitives::{Boolean, Element, GadgetExt, Point};
use vh::{Case, Ctx, Res};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op<C> {
    /// Next two witness values are the coordinates.
    Alloc,
    Const(C),
    Bit,
    Endo(usize),
    Neg(usize),
    CEndo(usize, usize),
    CNeg(usize, usize),
    Dbl(usize),
    Add(usize, usize),
    /// Addition accumulating its denominator.
    AddNz(usize, usize),
    /// Inverts the accumulator.
    Cert,
    DblAdd(usize, usize),
    Consist(usize),
    EnfEq(usize, usize),
    Rewire(usize),
}
use Op::*;

#[derive(Clone, Debug)]
pub struct PProg<C> {
    pub ops: Vec<Op<C>>,
}

fn xy<C: CurveAffine>(p: &C) -> (C::Base, C::Base) {
    let c = p.coordinates().unwrap();
    (*c.x(), *c.y())
}

fn out<'dr, D: Driver<'dr, F = C::Base>, C: CurveAffine>(dr: &mut D, io: &mut Io<'dr, D>, p: &Point<'dr, D, C>) -> Result<()> {
    // the coordinates as the gadget serializes them
    let mut v: Vec<Element<'dr, D>> = vec![];
    p.write(dr, &mut v)?;
    assert_eq!(v.len(), 2, "a point serializes as two elements");
    // the value accessor must agree with them (a value off the curve panics)
    let (x, y) = (v[0].value().map(|x| *x), v[1].value().map(|x| *x));
    let _ = p.value().map(|c| {
        assert!(xy(&c) == (x.take(), y.take()), "point value disagrees with its coordinates");
    });
    io.outs.extend(v);
    Ok(())
}

impl<C: CurveAffine> Frag<C::Base> for PProg<C> {
    fn run<'dr, D: Driver<'dr, F = C::Base>, I: Feeder<'dr, D>>(
        &self,
        dr: &mut D,
        _feed: &mut I,
        io: &mut Io<'dr, D>,
        w: DriverValue<D, Vec<C::Base>>,
    ) -> Result<()> {
        let mut ps: Vec<Point<'dr, D, C>> = vec![];
        let mut bs: Vec<Boolean<'dr, D>> = vec![];
        let mut acc = Element::one();
        let mut k = 0;
        for op in &self.ops {
            let n = ps.len().max(1);
            let m = bs.len().max(1);
            let new = match op {
                Alloc => {
                    let at = k;
                    k += 2;
                    let v = D::just(|| {
                        let w = w.as_ref().take();
                        C::from_xy(w[at], w[at + 1]).unwrap_or(C::identity())
                    });
                    let p = Point::alloc(dr, v)?;
                    let mut v: Vec<Element<'dr, D>> = vec![];
                    p.write(dr, &mut v)?;
                    io.ins.extend(v);
                    ps.push(p);
                    continue;
                }
                Bit => {
                    let at = k;
                    k += 1;
                    let b = Boolean::alloc(dr, D::just(|| w.as_ref().take()[at] == C::Base::ONE))?;
                    io.ins.push(b.element());
                    bs.push(b);
                    continue;
                }
                Cert => {
                    let e = acc.invert(dr)?;
                    io.outs.push(e);
                    continue;
                }
                Consist(i) => {
                    ps[i % n].enforce_consistent(dr)?;
                    continue;
                }
                EnfEq(i, j) => {
                    ps[i % n].enforce_equal(dr, &ps[j % n])?;
                    continue;
                }
                Const(p) => Point::constant(dr, *p)?,
                Endo(i) => ps[i % n].endo(dr),
                Neg(i) => ps[i % n].negate(dr),
                CEndo(b, i) => ps[i % n].conditional_endo(dr, &bs[b % m])?,
                CNeg(b, i) => ps[i % n].conditional_negate(dr, &bs[b % m])?,
                Dbl(i) => ps[i % n].double(dr)?,
                Add(i, j) => ps[i % n].add_incomplete(dr, &ps[j % n], None)?,
                AddNz(i, j) => ps[i % n].add_incomplete(dr, &ps[j % n], Some(&mut acc))?,
                DblAdd(i, j) => ps[i % n].double_and_add_incomplete(dr, &ps[j % n])?,
                Rewire(i) => ps[i % n].clone(),
            };
            out(dr, io, &new)?;
            ps.push(new);
        }
        Ok(())
    }
}

/// Plain group-law evaluation.
pub fn expect<C: CurveAffine>(p: &PProg<C>, w: &[C::Base]) -> Expect<C::Base> {
    let mut ps: Vec<C> = vec![];
    let mut bs: Vec<bool> = vec![];
    let mut acc = C::Base::ONE;
    let mut x = Expect { ins: vec![], outs: vec![], status: St::Ok };
    let mut k = 0;
    macro_rules! stop {
        ($s:expr) => {{
            x.status = $s;
            return x;
        }};
    }
    for op in &p.ops {
        let n = ps.len().max(1);
        let m = bs.len().max(1);
        let g = |i: &usize| ps[i % n];
        let new: C = match op {
            Alloc => {
                let (a, b) = (w[k], w[k + 1]);
                k += 2;
                let on = b * b == a * a * a + C::b();
                if !on {
                    // the honest prover has no such point (the identity stands in): refused with an error
                    x.ins.extend([a, b]);
                    stop!(St::Err);
                }
                x.ins.extend([a, b]);
                ps.push(C::from_xy(a, b).unwrap());
                continue;
            }
            Bit => {
                bs.push(w[k] == C::Base::ONE);
                x.ins.push(w[k]);
                k += 1;
                continue;
            }
            Cert => {
                match Option::<C::Base>::from(acc.invert()) {
                    Some(v) => x.outs.push(v),
                    None => stop!(St::Err),
                }
                continue;
            }
            Consist(_) => continue,
            EnfEq(i, j) => {
                if g(i) != g(j) {
                    stop!(St::Unsat);
                }
                continue;
            }
            Const(p) => {
                if bool::from(p.is_identity()) {
                    stop!(St::ErrOnly);
                }
                *p
            }
            Rewire(i) => g(i),
            Endo(i) => {
                // by definition (zeta x, y), which must be the scalar multiple
                let (a, b) = xy(&g(i));
                let e = C::from_xy(a * C::Base::ZETA, b).unwrap();
                let s: C = (g(i) * <C as CurveAffine>::ScalarExt::ZETA).into();
                assert!(e == s, "harness: endomorphism constants do not match");
                s
            }
            Neg(i) => (C::identity() - g(i)).into(),
            CEndo(b, i) => {
                if bs[b % m] {
                    (g(i) * <C as CurveAffine>::ScalarExt::ZETA).into()
                } else {
                    g(i)
                }
            }
            CNeg(b, i) => {
                if bs[b % m] {
                    (C::identity() - g(i)).into()
                } else {
                    g(i)
                }
            }
            Dbl(i) => (g(i) + g(i)).into(),
            Add(i, j) | AddNz(i, j) => {
                let (a, b) = (g(i), g(j));
                if matches!(op, AddNz(..)) {
                    acc *= xy(&b).0 - xy(&a).0;
                }
                if a == b {
                    stop!(St::ErrOnly);
                }
                if xy(&a).0 == xy(&b).0 {
                    stop!(St::Err);
                }
                (a + b).into()
            }
            DblAdd(i, j) => {
                let (a, b) = (g(i), g(j));
                if a == b {
                    stop!(St::ErrOnly);
                }
                if xy(&a).0 == xy(&b).0 {
                    stop!(St::Err);
                }
                let s: C = ((a + b).to_affine() + a).into();
                if bool::from(s.is_identity()) {
                    stop!(St::Err);
                }
                s
            }
        };
        let (a, b) = xy(&new);
        x.outs.extend([a, b]);
        ps.push(new);
    }
    x
}

/// Every pair of points under every operation.
fn pairs<C: CurveAffine>(ctx: &Ctx, name: &str, pts: Vec<C>, all: Vec<C::Base>, atk: bool)
where
    C::Base: std::hash::Hash,
{
    let ops: Vec<Vec<Op<C>>> = vec![
        vec![Endo(0)], vec![Neg(0)], vec![Dbl(0)], vec![Add(0, 1)], vec![AddNz(0, 1), Cert], vec![DblAdd(0, 1)], vec![DblAdd(1, 0)], vec![Consist(0)],
        vec![Bit, CEndo(0, 0)], vec![Bit, CNeg(0, 0)], vec![EnfEq(0, 1)], vec![Rewire(0)], vec![Add(0, 1), Dbl(2), Consist(3)], vec![AddNz(0, 1), AddNz(0, 1), Cert],
    ];
    let n = pts.len();
    let (ops, pts, all) = (&ops, &pts, &all);
    ctx.cases(&format!("every pair of points {name}"), ops.len() * n, move |c| {
        let o = &ops[c.idx / n];
        let p = pts[c.idx % n];
        for q in pts {
            for bit in [false, true] {
                let has_bit = o.contains(&Bit);
                if !has_bit && bit {
                    continue;
                }
                let g = PProg { ops: [Alloc, Alloc].into_iter().chain(o.iter().copied()).collect() };
                let (a, b) = (xy(&p), xy(q));
                let mut w = vec![a.0, a.1, b.0, b.1];
                if has_bit {
                    w.push(if bit { C::Base::ONE } else { C::Base::ZERO });
                }
                let x = expect(&g, &w);
                c.seen(&(name, format!("{o:?}"), w.clone()));
                c.event(&format!("pair status {:?}", x.status), 1);
                conform(c, &g, &w, &x).map_err(|e| format!("{o:?}: {e}"))?;
                if atk {
                    attack(c, &g, &x, &Some(all.clone()), Budget { leaves: 200, ..Default::default() }).map_err(|e| format!("{o:?}: {e}"))?;
                }
            }
        }
        Ok(())
    });
}

/// Coordinates off the curve (and the identity's stand-in) have no witness.
fn off_curve<C: CurveAffine>(ctx: &Ctx, name: &str, all: Vec<C::Base>) {
    let n = all.len();
    let all = &all;
    ctx.cases(&format!("every coordinate pair {name}"), n, move |c| {
        let a = all[c.idx];
        for &b in all {
            for ops in [vec![Alloc], vec![Alloc, Endo(0), Neg(0)]] {
                let g = PProg::<C> { ops };
                let x = expect(&g, &[a, b]);
                c.event(if x.status == St::Ok { "coordinates on curve" } else { "coordinates off curve" }, 1);
                c.seen(&(name, format!("{a:?}{b:?}"), g.ops.len()));
                conform_off(c, &g, &[a, b], &x)?;
                attack(c, &g, &x, &Some(all.clone()), Budget::default()).map_err(|e| format!("point ({a:?}, {b:?}): {e}"))?;
            }
        }
        Ok(())
    });
}
/// An honest prover asked for a point it does not have gets an error under every driver.
fn conform_off<C: CurveAffine>(c: &mut Case, g: &PProg<C>, w: &[C::Base], x: &Expect<C::Base>) -> Res {
    if x.status == St::Err {
        let y = Expect { ins: vec![], outs: vec![], status: St::Err };
        return conform(c, g, w, &y);
    }
    conform(c, g, w, x)
}

/// Random programs over points.
fn random<C: CurveAffine>(c: &mut Case, all: &Option<Vec<C::Base>>, pts: &dyn Fn(&mut Case) -> C, len: usize, atk: bool) -> Res {
    let mut g = PProg { ops: vec![Alloc, Alloc, Bit] };
    let mut w = vec![];
    for _ in 0..2 {
        let p = xy(&pts(c));
        w.extend([p.0, p.1]);
    }
    w.push(if c.rng.bool() { C::Base::ONE } else { C::Base::ZERO });
    let (mut n, mut m) = (2, 1);
    for _ in 0..c.rng.range(2, len) {
        let (i, j, b) = (c.rng.below(n), c.rng.below(n), c.rng.below(m));
        let op = match c.rng.below(14) {
            0 => Alloc,
            1 => Const(pts(c)),
            2 => Bit,
            3 => Endo(i),
            4 => Neg(i),
            5 => CEndo(b, i),
            6 => CNeg(b, i),
            7 => Dbl(i),
            8 | 9 => Add(i, j),
            10 => AddNz(i, j),
            11 | 12 => DblAdd(i, j),
            _ => Consist(i),
        };
        let mut w2 = w.clone();
        if op == Alloc {
            let p = xy(&pts(c));
            w2.extend([p.0, p.1]);
        }
        if op == Bit {
            w2.push(if c.rng.bool() { C::Base::ONE } else { C::Base::ZERO });
        }
        let mut h = g.clone();
        h.ops.push(op);
        let st = expect(&h, &w2).status;
        if st != St::Ok && c.rng.below(5) != 0 {
            continue;
        }
        (g, w) = (h, w2);
        if st != St::Ok {
            break;
        }
        match op {
            Bit => m += 1,
            Consist(_) => {}
            _ => n += 1,
        }
    }
    if c.rng.below(3) == 0 && expect(&g, &w).status == St::Ok {
        g.ops.push(Cert);
    }
    let x = expect(&g, &w);
    c.event(&format!("program status {:?}", x.status), 1);
    c.seen(&format!("{:?}{:?}", g.ops, w));
    c.sample("point program", || format!("{:?} on {w:?} -> {:?}", g.ops, x.status));
    conform(c, &g, &w, &x).map_err(|e| format!("{e}; {:?}", g.ops))?;
    if atk {
        attack(c, &g, &x, all, Budget { tries: 1, ..Default::default() }).map_err(|e| format!("{e}; {:?}", g.ops))?;
    }
    Ok(())
}

/// Adding a point to itself leaves the slope free, so a batch with such a pair
/// must not be certifiable.
fn certificate<C: CurveAffine>(c: &mut Case, pts: &[C], all: &Option<Vec<C::Base>>) -> Res {
    let (p, q) = (*c.pick(pts), *c.pick(pts));
    let bad = c.rng.below(3);
    let mut g: PProg<C> = PProg { ops: vec![Alloc, Alloc] };
    let (a, b) = (xy(&p), xy(&q));
    let w = vec![a.0, a.1, b.0, b.1];
    for k in 0..3 {
        let op = if k == bad { AddNz(0, 0) } else { AddNz(0, 1) };
        g.ops.push(op);
    }
    g.ops.push(Cert);
    let x = Expect { ins: w.clone(), outs: vec![], status: St::Unsat };
    c.seen(&format!("{w:?}{bad}"));
    attack(c, &g, &x, all, Budget::default()).map_err(|e| format!("certified an exceptional addition: {e}"))
}

fn rnd<C: CurveAffine>(c: &mut Case) -> C {
    let g = C::generator();
    match c.rng.below(4) {
        0 => (g * <C as CurveAffine>::ScalarExt::from(1 + c.rng.below(6) as u64)).into(),
        1 => (g * (-<C as CurveAffine>::ScalarExt::from(1 + c.rng.below(6) as u64))).into(),
        _ => (g * c.rng.nonzero::<<C as CurveAffine>::ScalarExt>()).into(),
    }
}

pub fn run(ctx: &Ctx) {
    ctx.rule("On four tiny prime-order curves every pair of points goes through every operation, and every coordinate pair through allocation; random point programs run there and on both Pasta curves. The oracle is the curve group; a hostile prover searches the recorded constraints for other results, for off-curve points and for certified exceptional additions.");
    ctx.assume("Adding a point to itself with the incomplete formula leaves the slope free (documented): only the honest error, and the certificate, are judged there.");
    use tiny::{t1, t2, t3, t4};
    pairs::<t1::A>(ctx, "T1 (F7)", t1::A::all(), crate::all(7).unwrap(), true);
    pairs::<t4::A>(ctx, "T4 (F13)", t4::A::all(), crate::all(13).unwrap(), true);
    pairs::<t2::A>(ctx, "T2 (F19)", t2::A::all(), crate::all(19).unwrap(), true);
    if ctx.quick() {
        let few: Vec<_> = t3::A::all().into_iter().step_by(4).collect();
        pairs::<t3::A>(ctx, "T3 (F97)", few, crate::all(97).unwrap(), false);
    } else {
        pairs::<t3::A>(ctx, "T3 (F97)", t3::A::all(), crate::all(97).unwrap(), true);
    }
    off_curve::<t1::A>(ctx, "T1", crate::all(7).unwrap());
    off_curve::<t4::A>(ctx, "T4", crate::all(13).unwrap());
    off_curve::<t3::A>(ctx, "T3", crate::all(97).unwrap());
    macro_rules! tiny {
        ($m:ident, $p:expr, $n:expr) => {{
            let pts = $m::A::all();
            let all = crate::all($p);
            ctx.cases(concat!("random programs ", stringify!($m)), $n, |c| random::<$m::A>(c, &all, &|c| *c.pick(&pts), 12, true));
            ctx.cases(concat!("certificates ", stringify!($m)), $n / 4, |c| certificate::<$m::A>(c, &pts, &all));
        }};
    }
    let n = ctx.n(1200, 48000);
    tiny!(t1, 7, n);
    tiny!(t2, 19, n);
    tiny!(t3, 97, n);
    tiny!(t4, 13, n);
    ctx.cases("random programs Pallas", ctx.n(600, 24000), |c| random::<pasta_curves::EpAffine>(c, &None, &rnd, 14, true));
    ctx.cases("random programs Vesta", ctx.n(600, 24000), |c| random::<pasta_curves::EqAffine>(c, &None, &rnd, 14, true));
    ctx.cases("identity", 4, |c| {
        let id = PProg::<pasta_curves::EpAffine> { ops: if c.idx < 2 { vec![Alloc] } else { vec![Const(pasta_curves::EpAffine::identity())] } };
        c.seen(&c.idx.clone());
        if c.idx < 2 {
            let w = vec![pasta_curves::Fp::ZERO; 2];
            let y = Expect { ins: vec![], outs: vec![], status: St::Err };
            conform(c, &id, &w, &y)?;
            let y = Expect { ins: w.clone(), outs: vec![], status: St::Err };
            attack(c, &id, &y, &None, Budget::default())
        } else {
            const_identity(&id)
        }
    });
}

/// A constant identity is refused by every driver, with or without witnesses.
fn const_identity(g: &PProg<pasta_curves::EpAffine>) -> Res {
    let s = prog::structure(g);
    vh::ensure!(s.err.is_some(), "the identity was accepted as a constant point");
    let s = prog::record(g, &[]);
    vh::ensure!(s.err.is_some(), "the identity was accepted as a constant point");
    Ok(())
}
