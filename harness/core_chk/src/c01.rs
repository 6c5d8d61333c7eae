//! Witness containers: lock-step monitor of combinator histories against a
//! plain model, with closure-run, clone and drop accounting.
use ragu_core::maybe::{Always, Empty, Maybe, MaybeCast, MaybeKind, Perhaps};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::{Arc, Mutex};
use vh::*;

#[derive(Default)]
struct Ledger {
    live: AtomicI64,
    clones: AtomicI64,
    made: AtomicI64,
}
/// A value whose copies and drops are accounted for.
struct Tok {
    v: u64,
    l: Arc<Ledger>,
}
impl Tok {
    fn new(v: u64, l: &Arc<Ledger>) -> Self {
        l.live.fetch_add(1, Ordering::SeqCst);
        l.made.fetch_add(1, Ordering::SeqCst);
        Tok { v, l: l.clone() }
    }
}
impl Clone for Tok {
    fn clone(&self) -> Self {
        self.l.clones.fetch_add(1, Ordering::SeqCst);
        Tok::new(self.v, &self.l)
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        self.l.live.fetch_sub(1, Ordering::SeqCst);
    }
}
/// Conversion target for `into`.
struct Conv(Tok);
impl From<Tok> for Conv {
    fn from(t: Tok) -> Self {
        t.l.made.fetch_add(1000, Ordering::SeqCst);
        Conv(t)
    }
}

trait Look: MaybeKind + Sized + 'static {
    const PRESENT: bool;
    /// The held value's payload, when there is one.
    fn peek<'a>(m: &'a Perhaps<Self, Tok>) -> Option<u64>;
    fn peek64(m: &Perhaps<Self, u64>) -> Option<u64>;
    fn out(m: Perhaps<Self, Tok>) -> Option<Tok>;
}
impl Look for Always<()> {
    const PRESENT: bool = true;
    fn peek(m: &Always<Tok>) -> Option<u64> {
        Some(m.snag().v)
    }
    fn peek64(m: &Always<u64>) -> Option<u64> {
        Some(*m.snag())
    }
    fn out(m: Always<Tok>) -> Option<Tok> {
        Some(m.take())
    }
}
impl Look for Empty {
    const PRESENT: bool = false;
    fn peek(_: &Empty) -> Option<u64> {
        None
    }
    fn peek64(_: &Empty) -> Option<u64> {
        None
    }
    fn out(_: Empty) -> Option<Tok> {
        None
    }
}

fn history<K: Look>(c: &mut Case) -> Res {
    let l = Arc::new(Ledger::default());
    let len = c.rng.range(1, 40);
    let mut log: Vec<String> = vec![];
    {
        let runs = Cell::new(0u32);
        let hit = || runs.set(runs.get() + 1);
        let expect_runs = |n: u32, runs: &Cell<u32>, what: &str| -> Res {
            let e = if K::PRESENT { n } else { 0 };
            let g = runs.replace(0);
            ensure_eq!(g, e, "{what}: closure runs");
            Ok(())
        };
        let v0 = c.rng.u64();
        let mut model = v0;
        let mut m: Perhaps<K, Tok> = K::maybe_just(|| {
            hit();
            Tok::new(v0, &l)
        });
        expect_runs(1, &runs, "maybe_just")?;
        for _ in 0..len {
            let k = c.rng.u64();
            let op = c.rng.below(18);
            log.push(format!("{op}"));
            match op {
                0 => {
                    m = m.map(|mut t| {
                        hit();
                        t.v = t.v.wrapping_mul(3).wrapping_add(k);
                        t
                    });
                    model = model.wrapping_mul(3).wrapping_add(k);
                    expect_runs(1, &runs, "map")?;
                }
                1 => {
                    m = m.and_then(|t| {
                        hit();
                        K::maybe_just(|| {
                            hit();
                            Tok::new(t.v ^ k, &t.l)
                        })
                    });
                    model ^= k;
                    expect_runs(2, &runs, "and_then")?;
                }
                2 => {
                    let before = l.clones.load(Ordering::SeqCst);
                    let n = Maybe::clone(&m);
                    let d = l.clones.load(Ordering::SeqCst) - before;
                    ensure_eq!(d, K::PRESENT as i64, "clone: clones made");
                    if k & 1 == 0 {
                        m = n;
                    }
                }
                3 => {
                    let r = m.as_ref().map(|t| {
                        hit();
                        t.v
                    });
                    expect_runs(1, &runs, "as_ref.map")?;
                    ensure_eq!(K::peek64(&r), if K::PRESENT { Some(model) } else { None }, "as_ref.map value");
                }
                4 => {
                    m.as_mut().map(|t| {
                        hit();
                        t.v = t.v.rotate_left(7) ^ k;
                    });
                    model = model.rotate_left(7) ^ k;
                    expect_runs(1, &runs, "as_mut.map")?;
                }
                5 => {
                    let before = l.made.load(Ordering::SeqCst);
                    let n: Perhaps<K, Conv> = Maybe::into(m);
                    let d = l.made.load(Ordering::SeqCst) - before;
                    ensure_eq!(d, if K::PRESENT { 1000 } else { 0 }, "into: conversions made");
                    m = n.map(|c| c.0);
                }
                6 => {
                    let r: Result<Perhaps<K, Tok>, u64> = K::maybe_try_just(|| {
                        hit();
                        Err(k)
                    });
                    expect_runs(1, &runs, "maybe_try_just(Err)")?;
                    match r {
                        Ok(_) => ensure!(!K::PRESENT, "try_just turned an error into a value"),
                        Err(e) => {
                            ensure!(K::PRESENT, "absent try_just reported an error");
                            ensure_eq!(e, k, "try_just error value");
                        }
                    }
                }
                7 => {
                    let r: Result<Perhaps<K, Tok>, u64> = K::maybe_try_just(|| {
                        hit();
                        Ok(Tok::new(k, &l))
                    });
                    expect_runs(1, &runs, "maybe_try_just(Ok)")?;
                    m = r.map_err(|_| "try_just(Ok) failed".to_string())?;
                    model = k;
                }
                8 => {
                    // the same through the container's own associated functions
                    m = <Perhaps<K, u8> as Maybe<u8>>::just(|| {
                        hit();
                        Tok::new(k, &l)
                    });
                    model = k;
                    expect_runs(1, &runs, "just")?;
                }
                9 => {
                    let r: Result<Perhaps<K, Tok>, String> = <Perhaps<K, u8> as Maybe<u8>>::try_just(|| {
                        hit();
                        Err("e".to_string())
                    });
                    expect_runs(1, &runs, "try_just(Err)")?;
                    ensure_eq!(r.is_err(), K::PRESENT, "try_just(Err) outcome");
                }
                10 => {
                    let (a, b) = m
                        .map(|t| {
                            hit();
                            let u = Tok::new(t.v.wrapping_add(1), &t.l);
                            (t, u)
                        })
                        .cast();
                    expect_runs(1, &runs, "map before cast")?;
                    ensure_eq!(K::peek(&a), if K::PRESENT { Some(model) } else { None }, "cast.0");
                    ensure_eq!(K::peek(&b), if K::PRESENT { Some(model.wrapping_add(1)) } else { None }, "cast.1");
                    if k & 1 == 0 {
                        m = a;
                    } else {
                        m = b;
                        model = model.wrapping_add(1);
                    }
                }
                11 => {
                    // references into a pair
                    let pair = m.map(|t| {
                        let u = Tok::new(k, &t.l);
                        (t, u)
                    });
                    {
                        let (ra, rb) = pair.as_ref().map(|p| (&p.0, &p.1)).cast();
                        let s = ra.and_then(|a| rb.map(|b| a.v.wrapping_sub(b.v)));
                        ensure_eq!(K::peek64(&s), if K::PRESENT { Some(model.wrapping_sub(k)) } else { None }, "pair of references");
                    }
                    m = pair.map(|p| p.0);
                }
                12 => {
                    let mut o = K::maybe_just(|| Tok::new(k, &l));
                    // swap through mutable references
                    m.as_mut().and_then(|a| o.as_mut().map(|b| std::mem::swap(&mut a.v, &mut b.v)));
                    ensure_eq!(K::peek(&o), if K::PRESENT { Some(model) } else { None }, "swapped out");
                    model = k;
                }
                13 => {
                    // several containers, order of evaluation
                    let order = Mutex::new(vec![]);
                    let a = K::maybe_just(|| order.lock().unwrap().push(1u8));
                    let b = a.and_then(|_| {
                        order.lock().unwrap().push(2);
                        K::maybe_just(|| order.lock().unwrap().push(3))
                    });
                    let _ = b.map(|_| order.lock().unwrap().push(4));
                    let want: Vec<u8> = if K::PRESENT { vec![1, 2, 3, 4] } else { vec![] };
                    ensure_eq!(*order.lock().unwrap(), want, "evaluation order");
                }
                14 => {
                    // a panicking closure unwinds without losing or doubling values
                    let live = l.live.load(Ordering::SeqCst);
                    let n = Maybe::clone(&m);
                    let r = catch(|| {
                        let _ = n.map(|t| -> u64 {
                            let _keep = t;
                            panic!("probe")
                        });
                    });
                    ensure_eq!(r.is_err(), K::PRESENT, "panic propagation");
                    ensure_eq!(l.live.load(Ordering::SeqCst), live, "values alive after unwinding");
                }
                15 => {
                    let n = c.rng.range(1, 6) as u64;
                    let v: Perhaps<K, Vec<u64>> = m.as_ref().map(|t| (0..n).map(|i| t.v ^ i).collect());
                    let mut it = Maybe::clone(&v);
                    let s = it.as_mut().map(|v| v.iter_mut().fold(0u64, |a, x| a.wrapping_mul(31).wrapping_add(*x)));
                    let want = (0..n).map(|i| model ^ i).fold(0u64, |a, x| a.wrapping_mul(31).wrapping_add(x));
                    ensure_eq!(K::peek64(&s), if K::PRESENT { Some(want) } else { None }, "iterator fold");
                }
                16 => {
                    // result inside the container keeps its error
                    let r: Perhaps<K, Result<u64, u64>> = m.as_ref().map(|t| if k & 1 == 0 { Ok(t.v) } else { Err(k) });
                    let s = r.map(|r| r.unwrap_or_else(|e| !e));
                    ensure_eq!(K::peek64(&s), if K::PRESENT { Some(if k & 1 == 0 { model } else { !k }) } else { None }, "inner result");
                }
                _ => {
                    if let Some(t) = K::out(m) {
                        ensure_eq!(t.v, model, "take");
                        m = K::maybe_just(move || t);
                    } else {
                        m = K::maybe_just(|| Tok::new(model, &l));
                    }
                }
            }
            ensure_eq!(K::peek(&m), if K::PRESENT { Some(model) } else { None }, "value after {log:?}");
            let live = l.live.load(Ordering::SeqCst);
            ensure_eq!(live, K::PRESENT as i64, "values alive after {log:?}");
            c.event("combinator calls", 1);
        }
    }
    ensure_eq!(l.live.load(Ordering::SeqCst), 0, "values alive at the end");
    c.seen(&(K::PRESENT, log.join(",")));
    c.sample(if K::PRESENT { "present history" } else { "absent history" }, || log.join(","));
    Ok(())
}

fn empty_cast<T: Send + MaybeCast<T, Empty>>(f: impl FnOnce() -> T) -> T::Output {
    <Empty as Maybe<T>>::cast(Empty::maybe_just(f))
}
macro_rules! tuple_case {
    ($c:expr, $n:literal; $($i:tt),*) => {{
        // every position holds a distinguishable value of a distinguishable type
        let base = $c.rng.u64();
        let l = Arc::new(Ledger::default());
        {
            let t = ($(Tok::new(base.wrapping_add($i), &l),)*);
            let a = Always::<()>::just(|| t);
            let o = a.cast();
            $( ensure_eq!(Maybe::take(o.$i).v, base.wrapping_add($i), "tuple of {} element {}", $n, $i); )*
            // references
            let t2 = ($(Tok::new(base.wrapping_mul($i + 3), &l),)*);
            let r = Always::<()>::just(|| ($(&t2.$i,)*)).cast();
            $( ensure_eq!(Maybe::take(r.$i).v, base.wrapping_mul($i + 3), "tuple of {} references, element {}", $n, $i); )*
            // mixed types
            let m = Always::<()>::just(|| ($( [base ^ ($i as u64); $i + 1], )*)).cast();
            $( { let x: [u64; $i + 1] = Maybe::take(m.$i); ensure_eq!(x, [base ^ ($i as u64); $i + 1], "mixed tuple of {} element {}", $n, $i); } )*
            let e = empty_cast(|| ($(Tok::new($i, &l),)*));
            $( let _: Empty = e.$i; )*
        }
        ensure_eq!(l.live.load(Ordering::SeqCst), 0, "tuple of {}: values leaked or dropped twice", $n);
        $c.event("tuple casts", 4);
        $c.seen(&("tuple", $n, base));
    }};
}
fn array_case<const N: usize>(c: &mut Case) -> Res {
    let l = Arc::new(Ledger::default());
    let base = c.rng.u64();
    {
        let a = Always::<()>::just(|| std::array::from_fn::<Tok, N, _>(|i| Tok::new(base.wrapping_add(i as u64), &l)));
        let o: [Always<Tok>; N] = a.cast();
        for (i, x) in o.into_iter().enumerate() {
            ensure_eq!(x.take().v, base.wrapping_add(i as u64), "array of {N} element {i}");
        }
        let e: [Empty; N] = <Empty as Maybe<[Tok; N]>>::cast(Empty::maybe_just(|| std::array::from_fn::<Tok, N, _>(|i| Tok::new(i as u64, &l))));
        drop(e);
    }
    ensure_eq!(l.live.load(Ordering::SeqCst), 0, "array of {N}: values leaked or dropped twice");
    c.event("array casts", 2);
    c.seen(&("array", N, base));
    Ok(())
}

/// Uses the container only through a driver-like generic kind, as circuit code does.
fn generic_kind<K: Look>(c: &mut Case) -> Res {
    let x = c.rng.u64();
    let a = K::maybe_just(|| x);
    let b = K::maybe_just(|| x.rotate_left(9));
    let s = a.as_ref().and_then(|a| b.as_ref().map(|b| a ^ b));
    ensure_eq!(K::peek64(&s), if K::PRESENT { Some(x ^ x.rotate_left(9)) } else { None }, "generic combination");
    // errors from several fallible sources keep the first one
    let r: Result<Perhaps<K, u64>, String> = (|| {
        let p = K::maybe_try_just(|| if x & 1 == 0 { Ok(x) } else { Err(format!("first {x}")) })?;
        let q = K::maybe_try_just(|| if x & 2 == 0 { Ok(x) } else { Err(format!("second {x}")) })?;
        Ok(p.and_then(|p| q.map(|q| p.wrapping_add(q))))
    })();
    match r {
        Ok(v) => {
            ensure!(!K::PRESENT || x & 3 == 0, "error lost");
            ensure_eq!(K::peek64(&v), if K::PRESENT { Some(x.wrapping_add(x)) } else { None }, "fallible sum");
        }
        Err(e) => {
            ensure!(K::PRESENT, "absent container reported an error");
            ensure_eq!(e, if x & 1 == 1 { format!("first {x}") } else { format!("second {x}") }, "which error");
        }
    }
    c.seen(&("generic", K::PRESENT, x));
    Ok(())
}

pub fn run(ctx: &Ctx) {
    ctx.rule("Random histories of 1..40 combinator calls on a present and an absent container over a value type that accounts for every construction, clone and drop; a case is non-trivial when the operation sequence is new. All tuple sizes 2..=32 and array sizes are cast with distinguishable positions.");
    let n = ctx.n(16000, 200000);
    ctx.cases("always", n, history::<Always<()>>);
    ctx.cases("empty", n / 2, history::<Empty>);
    ctx.cases("generic-always", ctx.n(2000, 5000), generic_kind::<Always<()>>);
    ctx.cases("generic-empty", ctx.n(2000, 5000), generic_kind::<Empty>);
    ctx.cases("sizes", 1, |c| {
        ensure_eq!(std::mem::size_of::<Empty>(), 0, "absent container size");
        ensure_eq!(std::mem::size_of::<Always<[u64; 5]>>(), 40, "present container size");
        c.seen(&"sizes");
        Ok(())
    });
    ctx.cases("tuples", ctx.n(80, 300), |c| {
        tuple_case!(c, 2; 0, 1);
        tuple_case!(c, 3; 0, 1, 2);
        tuple_case!(c, 4; 0, 1, 2, 3);
        tuple_case!(c, 5; 0, 1, 2, 3, 4);
        tuple_case!(c, 6; 0, 1, 2, 3, 4, 5);
        tuple_case!(c, 7; 0, 1, 2, 3, 4, 5, 6);
        tuple_case!(c, 8; 0, 1, 2, 3, 4, 5, 6, 7);
        tuple_case!(c, 9; 0, 1, 2, 3, 4, 5, 6, 7, 8);
        tuple_case!(c, 10; 0, 1, 2, 3, 4, 5, 6, 7, 8, 9);
        tuple_case!(c, 11; 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10);
        tuple_case!(c, 12; 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11);
        tuple_case!(c, 13; 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12);
        tuple_case!(c, 14; 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13);
        tuple_case!(c, 15; 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14);
        tuple_case!(c, 16; 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15);
        tuple_case!(c, 17; 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16);
        Ok(())
    });
    ctx.cases("tuples-large", ctx.n(80, 300), |c| {
        tuple_case!(c, 18; 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17);
        tuple_case!(c, 19; 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18);
        tuple_case!(c, 20; 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19);
        tuple_case!(c, 21; 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20);
        tuple_case!(c, 22; 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21);
        tuple_case!(c, 23; 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22);
        tuple_case!(c, 24; 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23);
        tuple_case!(c, 25; 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24);
        tuple_case!(c, 26; 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25);
        tuple_case!(c, 27; 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26);
        tuple_case!(c, 28; 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27);
        tuple_case!(c, 29; 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28);
        tuple_case!(c, 30; 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29);
        tuple_case!(c, 31; 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30);
        tuple_case!(c, 32; 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31);
        Ok(())
    });
    ctx.cases("arrays", ctx.n(80, 300), |c| {
        array_case::<0>(c)?;
        array_case::<1>(c)?;
        array_case::<2>(c)?;
        array_case::<3>(c)?;
        array_case::<4>(c)?;
        array_case::<5>(c)?;
        array_case::<7>(c)?;
        array_case::<8>(c)?;
        array_case::<16>(c)?;
        array_case::<31>(c)?;
        array_case::<32>(c)?;
        array_case::<33>(c)?;
        array_case::<64>(c)?;
        array_case::<200>(c)
    });
}
