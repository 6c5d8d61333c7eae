//! Schedules, thread counts, delays and faults in parallel execution.
use circ::nets::{Gen, I, Mix, Net, NetBody, ORDER, OutKind, Sub, WATCH};
use circ::util::Fld;
use circ::with_outs;
use ff::{Field, PrimeField};
use group::Group;
use pasta_curves::arithmetic::CurveAffine;
use pasta_curves::{EpAffine, Fp, Fq};
use ragu_arithmetic::Domain;
use ragu_circuits::{Circuit, CircuitExt, verif};
use std::sync::Arc;
use std::sync::atomic::Ordering;
use vh::small::{F7681, F65537};
use vh::{Case, Ctx, Res, VRng, catch, ensure, ensure_eq};

#[cfg(feature = "multicore")]
const MC: bool = true;
#[cfg(not(feature = "multicore"))]
const MC: bool = false;

/// Runs `f` on a pool of `t` workers.
#[cfg(feature = "multicore")]
fn on<T: Send>(t: usize, f: impl FnOnce() -> T + Send) -> T {
    use std::collections::HashMap;
    use std::sync::Mutex;
    static POOLS: Mutex<Option<HashMap<usize, Arc<rayon::ThreadPool>>>> = Mutex::new(None);
    if t == 0 {
        return f();
    }
    let p = {
        let mut g = POOLS.lock().unwrap();
        g.get_or_insert_default()
            .entry(t)
            .or_insert_with(|| Arc::new(rayon::ThreadPoolBuilder::new().num_threads(t).stack_size(64 << 20).build().unwrap()))
            .clone()
    };
    p.install(f)
}
#[cfg(not(feature = "multicore"))]
fn on<T: Send>(_: usize, f: impl FnOnce() -> T + Send) -> T {
    f()
}
fn pools(x: &Ctx) -> &'static [usize] {
    if !MC {
        &[0]
    } else if lean() {
        &[2, 3]
    } else if x.quick() {
        &[0, 1, 2, 3, 8]
    } else {
        &[0, 1, 2, 3, 4, 5, 8, 16, 32]
    }
}
/// Instrumented builds run less, and without logs that would order threads.
fn lean() -> bool {
    std::env::var_os("VERIF_LEAN").is_some()
}

const MESSAGES: [&str; 4] = ["fault 0", "fault 1", "fault 2", "fault 3"];
const PANIC: &str = "!panic";

/// Places a fault somewhere below; deeper with preference.
fn plant<F: PrimeField>(r: &mut VRng, body: &[I<F>], msg: &'static str) -> Vec<I<F>> {
    let mut out = body.to_vec();
    let calls: Vec<usize> = (0..out.len()).filter(|i| matches!(out[*i], I::Call(..))).collect();
    if !calls.is_empty() && r.chance(5, 6) {
        let k = *r.pick(&calls);
        let I::Call(s, v) = &out[k] else { unreachable!() };
        let b = plant(r, &s.body, msg);
        out[k] = I::Call(Arc::new(Sub { shape: s.shape, pred: s.pred, body: b, outs: s.outs.clone(), delay: s.delay }), v.clone());
    } else {
        out.insert(r.below(out.len() + 1), I::Fail(msg));
    }
    out
}

type Rows<F> = Vec<[Vec<F>; 4]>;
#[derive(Clone, PartialEq, Debug)]
enum Out<F> {
    Trace(Rows<F>, F),
    Error(String),
    Panic,
}
/// Without the first gate, which is not part of the witness.
fn rows<F>(mut s: Rows<F>) -> Rows<F> {
    s[0].iter_mut().for_each(|v| drop(v.remove(0)));
    s
}
fn real<F: Fld, O: OutKind<F>>(n: &Net<F, O>, w: &[F]) -> Out<F> {
    match catch(|| n.trace(w.to_vec())) {
        Ok(Ok(t)) => {
            let (t, aux) = t.into_parts();
            Out::Trace(rows(verif::trace_segments(&t)), aux)
        }
        Ok(Err(e)) => Out::Error(e.to_string()),
        Err(_) => Out::Panic,
    }
}
/// What serial execution does, by an independent recorder.
fn expected<F: Fld, O: OutKind<F>>(n: &Net<F, O>, w: &[F]) -> Out<F> {
    match catch(|| circ::witnessed(n, w.to_vec())) {
        Ok(Ok(m)) => {
            let rows = m.segs.iter().enumerate().map(|(i, s)| {
                let mut r: [Vec<F>; 4] = Default::default();
                for v in s.vals.iter().skip((i == 0) as usize) {
                    for k in 0..4 {
                        r[k].push(v[k]);
                    }
                }
                r
            });
            Out::Trace(rows.collect(), F::ZERO)
        }
        Ok(Err(e)) => Out::Error(e.to_string()),
        Err(_) => Out::Panic,
    }
}
fn agree<F: Fld>(got: &Out<F>, want: &Out<F>, faults: usize, what: &dyn Fn() -> String) -> Res {
    match (got, want) {
        (Out::Trace(a, _), Out::Trace(b, _)) => {
            ensure_eq!(a.len(), b.len(), "{}: number of segments", what());
            for (i, (a, b)) in a.iter().zip(b).enumerate() {
                ensure!(a == b, "{}: segment {i} differs from serial execution", what());
            }
        }
        (Out::Error(a), Out::Error(b)) => {
            ensure!(MESSAGES.iter().any(|m| a.contains(m)), "{}: error {a:?} comes from nowhere", what());
            // serial builds meet faults in order; parallel ones report some fault
            if faults == 1 || !MC {
                ensure_eq!(a, b, "{}: error", what());
            }
        }
        (Out::Panic, Out::Panic) => {}
        _ => return Err(format!("{}: ended as {} where serial execution ends as {}", what(), brief(got), brief(want))),
    }
    Ok(())
}
fn brief<F: std::fmt::Debug>(o: &Out<F>) -> String {
    match o {
        Out::Trace(s, _) => format!("a trace of {} segments", s.len()),
        o => format!("{o:?}"),
    }
}

fn mix(r: &mut VRng, small: bool) -> Mix {
    let known = [100, 100, 80, 50][r.below(4)];
    let (len, depth, calls) = *r.pick(if small { &[(5, 1, 3), (5, 2, 4)] } else { &[(6, 1, 12), (10, 3, 6), (8, 5, 10), (30, 2, 16), (4, 1, 40)] });
    let delay = if small { 0 } else { *r.pick(&[0, 200, 5_000, 60_000]) };
    Mix { len, depth, calls, known, delay, ..Mix::default() }
}
fn calls<F>(b: &[I<F>]) -> usize {
    b.iter().map(|i| if let I::Call(s, _) = i { 1 + calls(&s.body) } else { 0 }).sum()
}

/// One circuit, on every pool, several times.
fn traces<F: Fld>(c: &mut Case, x: &Ctx, watch: bool, small: bool) -> Res {
    let r = &mut c.rng;
    let m = mix(r, small);
    let k = [0, 1, 2, 5][r.below(4)];
    let (p, w) = Gen::<F>::new(r, m).net(k);
    let (faults, panics) = match r.below(8) {
        0..=3 => (0, false),
        4 | 5 => (1, false),
        6 => (2 + r.below(3), false),
        _ => (0, true),
    };
    let mut ops = p.ops.clone();
    for msg in &MESSAGES[..faults] {
        ops = plant(r, &ops, msg);
    }
    if panics {
        ops = plant(r, &ops, PANIC);
    }
    let p = NetBody { ops, outs: p.outs };
    let size = calls(&p.ops);
    let reps = if small { 1 } else { 2 };
    with_outs!(k, p, |n| {
        let want = expected(&n, &w);
        let mut aux: Option<F> = None;
        for &t in pools(x) {
            for rep in 0..reps {
                if watch {
                    ORDER.lock().unwrap().clear();
                    WATCH.store(true, Ordering::SeqCst);
                }
                let got = on(t, || real(&n, &w));
                if watch {
                    WATCH.store(false, Ordering::SeqCst);
                    let mut ids = std::collections::HashMap::new();
                    let o: Vec<(usize, usize)> = ORDER
                        .lock()
                        .unwrap()
                        .drain(..)
                        .map(|(s, t)| {
                            let l = ids.len();
                            (s, *ids.entry(t).or_insert(l))
                        })
                        .collect();
                    c.event("routine executions observed", o.len() as u64);
                    if ids.len() > 1 {
                        c.event("executions spread over several threads", 1);
                    }
                    c.seen(&("schedule", o));
                }
                agree(&got, &want, faults, &|| format!("{t} workers, repetition {rep}, {size} routines, {faults} faults"))?;
                if let Out::Trace(_, a) = got {
                    ensure_eq!(*aux.get_or_insert(a), a, "{t} workers: auxiliary output");
                }
                c.eval();
                c.event(match want { Out::Trace(..) => "traces identical to serial execution", Out::Error(_) => "errors as in serial execution", Out::Panic => "panics propagated" }, 1);
            }
        }
        c.seen(&(size, faults, panics));
        Ok(())
    })
}

/// Several traces at once on one pool, from inside its own workers.
#[cfg(feature = "multicore")]
fn together<F: Fld>(c: &mut Case, x: &Ctx) -> Res {
    let r = &mut c.rng;
    let n = 2 + r.below(6);
    let nets: Vec<(Net<F, circ::nets::List<1>>, Vec<F>)> = (0..n)
        .map(|_| {
            let m = mix(r, lean());
            let (p, w) = Gen::<F>::new(r, m).net(1);
            let ops = if r.chance(1, 4) { plant(r, &p.ops, MESSAGES[0]) } else { p.ops };
            (Net::new(NetBody { ops, outs: p.outs }), w)
        })
        .collect();
    let want: Vec<_> = nets.iter().map(|(n, w)| expected(n, w)).collect();
    for &t in pools(x) {
        let got: Vec<Out<F>> = on(t, || {
            use rayon::prelude::*;
            nets.par_iter().map(|(n, w)| real(n, w)).collect()
        });
        for (i, (g, w)) in got.iter().zip(&want).enumerate() {
            agree(g, w, 1, &|| format!("circuit {i} of {n} traced at once on {t} workers"))?;
            c.eval();
        }
        c.event("traces running at once", n as u64);
    }
    c.seen(&n);
    Ok(())
}
#[cfg(not(feature = "multicore"))]
fn together<F: Fld>(c: &mut Case, _: &Ctx) -> Res {
    c.event("nothing runs at once in the serial build", 1);
    Ok(())
}

// ------------------------------------------------------- transforms and sums

fn transforms<F: Fld>(c: &mut Case, x: &Ctx, max: u32) -> Res {
    let r = &mut c.rng;
    let k = 1 + r.below(max as usize) as u32;
    let d = Domain::<F>::new(k);
    let v: Vec<F> = (0..1usize << k).map(|_| r.uniform()).collect();
    let mut first: Option<[Vec<F>; 2]> = None;
    for &t in pools(x) {
        let (a, b) = on(t, || {
            let (mut a, mut b) = (v.clone(), v.clone());
            d.fft(&mut a);
            d.ifft(&mut b);
            (a, b)
        });
        if first.is_none() {
            for _ in 0..3 {
                let i = c.rng.below(v.len());
                let p = d.omega().pow_vartime([i as u64]);
                ensure_eq!(a[i], circ::horner(&v, p), "entry {i} of a transform of size 2^{k} on {t} workers");
                ensure_eq!(circ::horner(&b, p), v[i], "entry {i} of an inverse transform of size 2^{k} on {t} workers");
            }
        }
        let f = first.get_or_insert([a.clone(), b.clone()]);
        ensure!(f[0] == a, "transform of size 2^{k} differs on {t} workers");
        ensure!(f[1] == b, "inverse transform of size 2^{k} differs on {t} workers");
        c.eval();
        c.event("transforms compared", 2);
    }
    c.seen(&("fft", k));
    Ok(())
}
fn sums(c: &mut Case, x: &Ctx, max: usize) -> Res {
    let r = &mut c.rng;
    let n = r.below(max);
    let g = pasta_curves::Ep::generator();
    let mut p = g * Fq::random(&mut *r);
    let step = g * Fq::from(r.below(3) as u64);
    let bases: Vec<EpAffine> = (0..n)
        .map(|_| {
            p += step + g;
            p.into()
        })
        .collect();
    let cs: Vec<Fq> = (0..n)
        .map(|_| match r.below(5) {
            0 => Fq::ZERO,
            1 => -Fq::ONE,
            2 => Fq::from(r.below(20) as u64),
            _ => r.uniform(),
        })
        .collect();
    let mut first = None;
    for &t in pools(x) {
        let s: pasta_curves::Ep = on(t, || ragu_arithmetic::mul(cs.iter(), bases.iter()));
        if first.is_none() && n < 64 {
            let want = cs.iter().zip(&bases).fold(pasta_curves::Ep::identity(), |a, (c, b)| a + <EpAffine as CurveAffine>::CurveExt::from(*b) * *c);
            ensure_eq!(s, want, "sum of {n} terms on {t} workers");
        }
        ensure_eq!(*first.get_or_insert(s), s, "sum of {n} terms on {t} workers");
        c.eval();
        c.event("sums compared", 1);
    }
    c.seen(&("msm", n));
    Ok(())
}

fn k11(x: &Ctx) {
    x.rule("The same circuits traced under different thread counts, delays and injected faults behave as in serial execution, segment by segment and error by error; transforms and sums give the same result on every pool.");
    if lean() {
        let n: usize = std::env::var("VERIF_LEAN").ok().and_then(|v| v.parse().ok()).unwrap_or(1);
        let tiny = n < 2;
        x.serial("traces", if tiny { 3 } else { x.n(3000, 60000) }, |c| traces::<F7681>(c, x, false, true));
        x.serial("traces at once", if tiny { 1 } else { x.n(600, 12000) }, |c| together::<F7681>(c, x));
        x.serial("transforms", if tiny { 1 } else { x.n(120, 1200) }, |c| transforms::<F7681>(c, x, if tiny { 4 } else { 9 }));
        if !tiny {
            x.serial("large transforms", x.n(6, 60), |c| transforms::<Fp>(c, x, 13));
            x.serial("sums", x.n(12, 120), |c| sums(c, x, 300));
        }
        return;
    }
    x.serial("schedules", x.n(4000, 60000), |c| traces::<F65537>(c, x, true, false));
    x.cases("contended", x.n(6000, 60000), |c| traces::<F7681>(c, x, false, false));
    x.cases("large field", x.n(600, 6000), |c| traces::<Fp>(c, x, false, false));
    x.cases("at once", x.n(1000, 10000), |c| together::<F65537>(c, x));
    x.cases("transforms", x.n(200, 2000), |c| transforms::<Fp>(c, x, 13));
    x.cases("sums", x.n(120, 1200), |c| sums(c, x, 700));
}

/// A deliberate race: the race detector must report it.
#[allow(unsafe_code)]
fn canary() {
    static mut CELL: u64 = 0;
    let go = |k: u64| {
        for i in 0..100_000 {
            let p = &raw mut CELL;
            unsafe { p.write_volatile(p.read_volatile() ^ (i * k)) };
        }
    };
    std::thread::scope(|s| {
        s.spawn(|| go(3));
        s.spawn(|| go(5));
    });
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("canary") {
        return canary();
    }
    vh::main(&[("K11", k11)]);
}
