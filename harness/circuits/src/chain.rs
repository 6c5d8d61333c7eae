//! Long chains of linear combinations, run in a child process so that a crash
//! (a stack overflow, an abort) is observed rather than suffered.
use ff::Field;
use ragu_arithmetic::Coeff;
use ragu_circuits::{
    Circuit, WithAux,
    polynomials::R,
    verif::Object,
};
use ragu_core::{
    Result,
    drivers::{Driver, DriverValue, LinearExpression},
    gadgets::Bound,
    maybe::Maybe,
};
use vh::{Ctx, VRng, ensure, ensure_eq, small::F65537 as F};

const ENV: &str = "VERIF_CHAIN";

#[derive(Clone)]
struct Chain {
    len: usize,
    /// 0: each sum replaces the previous one; 1: all are kept to the end;
    /// 2: as 1, dropped in reverse; 3: a sum of the two previous ones;
    /// 4: a constraint on every hundredth sum; 5: never constrained.
    how: usize,
    seed: u64,
}
type El<'dr, D> = ragu_primitives::Element<'dr, D>;
impl Circuit<F> for Chain {
    type Instance<'s> = F;
    type Witness<'s> = F;
    type Output = ragu_core::gadgets::Kind![F; El<'_, _>];
    type Aux<'s> = ();
    fn instance<'dr, 's: 'dr, D: Driver<'dr, F = F>>(&self, dr: &mut D, i: DriverValue<D, F>) -> Result<Bound<'dr, D, Self::Output>>
    where
        Self: 'dr,
    {
        El::alloc(dr, i)
    }
    fn witness<'dr, 's: 'dr, D: Driver<'dr, F = F>>(&self, dr: &mut D, w: DriverValue<D, F>) -> Result<WithAux<Bound<'dr, D, Self::Output>, DriverValue<D, ()>>>
    where
        Self: 'dr,
    {
        let mut r = VRng::new(self.seed);
        let a = dr.alloc(|| Ok(Coeff::Arbitrary(*w.snag())))?;
        let mut keep = vec![];
        let mut prev = a.clone();
        let mut cur = a.clone();
        for i in 0..self.len {
            let (k, m) = (F::from(r.below(5) as u64), F::from(1 + r.below(3) as u64));
            let next = match self.how {
                3 => dr.add(|lc| lc.add(&cur).add_term(&prev, Coeff::Arbitrary(m)).add_term(&D::ONE, Coeff::Arbitrary(k))),
                _ => dr.add(|lc| lc.add_term(&cur, Coeff::Arbitrary(m)).add_term(&D::ONE, Coeff::Arbitrary(k))),
            };
            if matches!(self.how, 1 | 2 | 5) {
                keep.push(next.clone());
            }
            prev = core::mem::replace(&mut cur, next);
            if self.how == 4 && i % 100 == 99 {
                dr.enforce_zero(|lc| lc.add(&cur))?;
            }
        }
        if self.how != 5 {
            dr.enforce_zero(|lc| lc.add(&cur))?;
        }
        if self.how == 2 {
            while keep.pop().is_some() {}
        }
        drop(keep);
        let o = El::promote(a, w);
        Ok(WithAux::new(o, D::just(|| ())))
    }
}

/// `(coefficient of the allocation, of ONE)` of every constraint, in order.
fn model(c: &Chain) -> Vec<(F, F)> {
    let mut r = VRng::new(c.seed);
    let (mut p, mut x, mut out) = ((F::ONE, F::ZERO), (F::ONE, F::ZERO), vec![]);
    for i in 0..c.len {
        let (k, m) = (F::from(r.below(5) as u64), F::from(1 + r.below(3) as u64));
        let n = match c.how {
            3 => (x.0 + p.0 * m, x.1 + p.1 * m + k),
            _ => (x.0 * m, x.1 * m + k),
        };
        p = core::mem::replace(&mut x, n);
        if c.how == 4 && i % 100 == 99 {
            out.push(x);
        }
    }
    if c.how != 5 {
        out.push(x);
    }
    out.push((F::ONE, F::ZERO)); // the output
    out.push((F::ZERO, F::ONE)); // the constant
    out
}

fn one(c: Chain) -> vh::Res {
    let cons = model(&c);
    let (n, q) = (1 << 11, cons.len());
    let o = Object::<F, R<13>>::new(c.clone()).map_err(|e| e.to_string())?;
    let plan = o.plan();
    let mut r = VRng::new(c.seed ^ 77);
    for _ in 0..2 {
        let (x, y): (F, F) = (r.field(), r.field());
        // gate 0 carries ONE on b, gate 1 the allocation on b
        let (one, a) = (x.pow_vartime([2 * n as u64]), x.pow_vartime([2 * n as u64 + 1]));
        let want = cons.iter().enumerate().fold(F::ZERO, |s, (j, (ka, k1))| s + (*ka * a + *k1 * one) * y.pow_vartime([(q - 1 - j) as u64]));
        ensure_eq!(o.sxy(x, y, &plan), want, "s(x, y) of a chain of {} sums", c.len);
        ensure_eq!(o.sy(y, &plan).eval(x), want, "s(X, y) of a chain of {} sums", c.len);
        ensure_eq!(o.sx(x, &plan).eval(y), want, "s(x, Y) of a chain of {} sums", c.len);
    }
    Ok(())
}

/// Runs one chain if this process was started for that.
pub fn child() {
    let Ok(v) = std::env::var(ENV) else { return };
    let v: Vec<u64> = v.split(',').map(|x| x.parse().unwrap()).collect();
    let c = Chain { len: v[0] as usize, how: v[1] as usize, seed: v[2] };
    // the default stack of a spawned thread
    let r = std::thread::spawn(move || one(c)).join();
    match r {
        Ok(Ok(())) => std::process::exit(0),
        Ok(Err(e)) => println!("{e}"),
        Err(_) => println!("panicked"),
    }
    std::process::exit(9)
}

pub fn run(x: &Ctx) {
    let top = if x.quick() { 400_000 } else { 4_000_000 };
    x.cases("long chains", x.n(12, 48), |c| {
        let how = c.idx % 6;
        let len = if c.idx < 6 { top } else { 1 + c.rng.below(top / 2) };
        let seed = c.rng.u64();
        let out = std::process::Command::new(std::env::current_exe().map_err(|e| e.to_string())?)
            .env(ENV, format!("{len},{how},{seed}"))
            .env("RUST_MIN_STACK", "2097152")
            .output()
            .map_err(|e| e.to_string())?;
        ensure!(
            out.status.success(),
            "a circuit with a chain of {len} linear combinations (pattern {how}): {:?} {} {}",
            out.status,
            String::from_utf8_lossy(&out.stdout).trim(),
            String::from_utf8_lossy(&out.stderr).lines().filter(|l| l.contains("overflow")).collect::<String>()
        );
        c.eval();
        c.seen(&(how, len));
        c.event("chained linear combinations", len as u64);
        Ok(())
    });
}
