//! Hostile-prover engine: searches for assignments of a recorded constraint
//! system that satisfy every gate and constraint with chosen inputs fixed.
//!
//! Equations are propagated (linear elimination, gates whose factors become
//! known, quadratics in one unknown); case splits cover `c*d = 0` and zero
//! products; what stays free is filled by enumeration (tiny fields) or
//! random/special values. Anything it reports is a concrete assignment that is
//! re-checked against the original system, so reports are never spurious.
use ff::{Field, PrimeField};
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Debug, PartialEq)]
pub struct Aff<F> {
    pub t: BTreeMap<u32, F>,
    pub c: F,
}
impl<F: Field> Aff<F> {
    pub fn zero() -> Self {
        Aff { t: BTreeMap::new(), c: F::ZERO }
    }
    pub fn constant(c: F) -> Self {
        Aff { t: BTreeMap::new(), c }
    }
    pub fn var(v: u32) -> Self {
        let mut t = BTreeMap::new();
        t.insert(v, F::ONE);
        Aff { t, c: F::ZERO }
    }
    pub fn add_scaled(&mut self, o: &Aff<F>, k: F) {
        self.c += o.c * k;
        for (v, c) in &o.t {
            let e = self.t.entry(*v).or_insert(F::ZERO);
            *e += *c * k;
            if e.is_zero_vartime() {
                self.t.remove(v);
            }
        }
    }
    pub fn known(&self) -> Option<F> {
        if self.t.is_empty() { Some(self.c) } else { None }
    }
    pub fn eval(&self, x: &[F]) -> F {
        self.t.iter().fold(self.c, |a, (v, c)| a + *c * x[*v as usize])
    }
}

pub struct Solver<'a, F: PrimeField> {
    sys: &'a crate::System<F>,
    piv: HashMap<u32, Aff<F>>,
    trail: Vec<u32>,
    rng: vh::VRng,
    /// All elements of the field, when it is small enough to enumerate.
    all: Option<Vec<F>>,
    pub leaves: usize,
    pub max_leaves: usize,
    pub steps: usize,
    pub max_steps: usize,
}

pub enum Flow {
    Continue,
    Stop,
}

impl<'a, F: PrimeField> Solver<'a, F> {
    pub fn new(sys: &'a crate::System<F>, rng: vh::VRng, all: Option<Vec<F>>) -> Self {
        Solver { sys, piv: HashMap::new(), trail: vec![], rng, all, leaves: 0, max_leaves: usize::MAX, steps: 0, max_steps: usize::MAX }
    }
    fn reduce(&self, a: &Aff<F>) -> Aff<F> {
        let mut cur = a.clone();
        loop {
            let Some((v, c)) = cur.t.iter().rev().find(|(v, _)| self.piv.contains_key(v)).map(|(v, c)| (*v, *c)) else {
                return cur;
            };
            cur.t.remove(&v);
            let p = &self.piv[&v];
            cur.add_scaled(p, c);
        }
    }
    /// Adds `a = 0`; false on contradiction.
    fn assume(&mut self, a: &Aff<F>) -> bool {
        let r = self.reduce(a);
        let Some((&v, &c)) = r.t.iter().next_back() else {
            return r.c.is_zero_vartime();
        };
        // v = -(rest)/c
        let mut e = r.clone();
        e.t.remove(&v);
        let k = -c.invert().unwrap();
        let mut p = Aff::zero();
        p.add_scaled(&e, k);
        self.piv.insert(v, p);
        self.trail.push(v);
        true
    }
    fn undo(&mut self, n: usize) {
        while self.trail.len() > n {
            let v = self.trail.pop().unwrap();
            self.piv.remove(&v);
        }
    }
    fn w(&self, g: usize, k: u32) -> Aff<F> {
        self.reduce(&Aff::var(4 * g as u32 + k))
    }
    /// Propagates to a fixpoint; `None` on contradiction, otherwise gates still open.
    fn propagate(&mut self, mut open: Vec<usize>) -> Option<Vec<usize>> {
        loop {
            let mut progress = false;
            let mut next = vec![];
            for &g in &open {
                self.steps += 1;
                let (a, b, c) = (self.w(g, 0), self.w(g, 1), self.w(g, 2));
                let mut done_mul = false;
                let lin = match (a.known(), b.known()) {
                    (Some(x), _) => Some((b.clone(), x)),
                    (_, Some(y)) => Some((a.clone(), y)),
                    _ => None,
                };
                if let Some((other, k)) = lin {
                    let mut e = c.clone();
                    e.add_scaled(&other, -k);
                    if !e.t.is_empty() {
                        progress = true;
                    }
                    if !self.assume(&e) {
                        return None;
                    }
                    done_mul = true;
                }
                let (c, d) = (self.w(g, 2), self.w(g, 3));
                let mut done_d = false;
                if let Some(x) = c.known() {
                    if x.is_zero_vartime() {
                        done_d = true;
                    } else {
                        if d.known().is_none() {
                            progress = true;
                        }
                        if !self.assume(&d) {
                            return None;
                        }
                        done_d = true;
                    }
                } else if let Some(y) = d.known() {
                    if !y.is_zero_vartime() {
                        progress = true;
                        if !self.assume(&c) {
                            return None;
                        }
                    }
                    done_d = true;
                }
                if !(done_mul && done_d) {
                    next.push(g);
                }
            }
            open = next;
            if !progress {
                return Some(open);
            }
        }
    }
    /// Finds satisfying assignments with the given equations added, calling
    /// `f` with each complete assignment.
    pub fn run(&mut self, fixed: &[Aff<F>], f: &mut dyn FnMut(&[F]) -> Flow) {
        for z in &self.sys.zeros {
            if !self.assume(z) {
                return;
            }
        }
        for z in fixed {
            if !self.assume(z) {
                return;
            }
        }
        let open = (0..self.sys.n_gates).collect();
        self.go(open, f, 0);
    }
    fn try_branch(&mut self, eqs: &[Aff<F>], open: &[usize], f: &mut dyn FnMut(&[F]) -> Flow, depth: usize) -> bool {
        let n = self.trail.len();
        let ok = eqs.iter().all(|e| self.assume(e));
        let stop = if ok { self.go(open.to_vec(), f, depth + 1) } else { false };
        self.undo(n);
        stop
    }
    /// True when the search should stop.
    fn go(&mut self, open: Vec<usize>, f: &mut dyn FnMut(&[F]) -> Flow, depth: usize) -> bool {
        if self.leaves >= self.max_leaves || self.steps >= self.max_steps {
            return true;
        }
        let n0 = self.trail.len();
        let Some(open) = self.propagate(open) else {
            self.undo(n0);
            return false;
        };
        let r = self.branch(&open, f, depth);
        self.undo(n0);
        r
    }
    fn branch(&mut self, open: &[usize], f: &mut dyn FnMut(&[F]) -> Flow, depth: usize) -> bool {
        // quadratics in one unknown, and zero products
        for &g in open {
            let (a, b, c) = (self.w(g, 0), self.w(g, 1), self.w(g, 2));
            if a.known().is_some() || b.known().is_some() {
                continue;
            }
            let mut vars: Vec<u32> = a.t.keys().chain(b.t.keys()).chain(c.t.keys()).copied().collect();
            vars.sort();
            vars.dedup();
            if vars.len() == 1 {
                let v = vars[0];
                let g1 = |x: &Aff<F>| x.t.get(&v).copied().unwrap_or(F::ZERO);
                // (a1 v + a0)(b1 v + b0) - c1 v - c0 = 0
                let q2 = g1(&a) * g1(&b);
                let q1 = g1(&a) * b.c + g1(&b) * a.c - g1(&c);
                let q0 = a.c * b.c - c.c;
                if (q2, q1, q0) == (F::ZERO, F::ZERO, F::ZERO) {
                    continue;
                }
                for r in roots(q2, q1, q0) {
                    let mut e = Aff::var(v);
                    e.c = -r;
                    if self.try_branch(&[e], open, f, depth) {
                        return true;
                    }
                }
                return false;
            }
            if c.known().is_some_and(|x| x.is_zero_vartime()) {
                if self.try_branch(&[a], open, f, depth) {
                    return true;
                }
                return self.try_branch(&[b], open, f, depth);
            }
            // a = k b with c known: k b^2 = c
            if let Some(cv) = c.known() {
                if let (Some((v, av)), Some(bv)) = (a.t.iter().next_back(), a.t.iter().next_back().and_then(|(v, _)| b.t.get(v))) {
                    let _ = v;
                    let k = *av * bv.invert().unwrap();
                    let mut diff = a.clone();
                    diff.add_scaled(&b, -k);
                    if let Some(off) = diff.known() {
                        debug_assert!(!k.is_zero_vartime());
                        // (k b + off) b = c
                        for r in roots(k, off, -cv) {
                            let mut e = b.clone();
                            e.c -= r;
                            if self.try_branch(&[e], open, f, depth) {
                                return true;
                            }
                        }
                        return false;
                    }
                }
            }
        }
        // c * d = 0 with both unknown
        for &g in open {
            let (c, d) = (self.w(g, 2), self.w(g, 3));
            if c.known().is_none() && d.known().is_none() {
                if self.try_branch(&[d], open, f, depth) {
                    return true;
                }
                return self.try_branch(&[c], open, f, depth);
            }
        }
        // a free variable in an open gate, then any free variable
        let mut free = None;
        for &g in open {
            for k in 0..2 {
                if let Some((v, _)) = self.w(g, k).t.iter().next() {
                    free = Some(*v);
                    break;
                }
            }
            if free.is_some() {
                break;
            }
        }
        if free.is_none() {
            let nv = 4 * self.sys.n_gates + self.sys.n_ext;
            if open.is_empty() && self.all.is_none() {
                // everything left is free: one random completion decides
                let x = self.complete(nv);
                self.leaves += 1;
                return matches!(f(&x), Flow::Stop);
            }
            for v in 0..nv as u32 {
                if let Some((u, _)) = self.reduce(&Aff::var(v)).t.iter().next() {
                    free = Some(*u);
                    break;
                }
            }
            if free.is_none() {
                let x: Vec<F> = (0..nv as u32).map(|v| self.reduce(&Aff::var(v)).c).collect();
                self.leaves += 1;
                return matches!(f(&x), Flow::Stop);
            }
        }
        let v = free.unwrap();
        let vals: Vec<F> = match &self.all {
            Some(a) => a.clone(),
            None => {
                let mut z = vec![F::ZERO, F::ONE, -F::ONE];
                let k = if depth > 40 { 0 } else { 2 };
                for _ in 0..k {
                    z.push(F::random(&mut self.rng));
                }
                let i = self.rng.below(z.len());
                z.rotate_left(i);
                z
            }
        };
        for x in vals {
            let mut e = Aff::var(v);
            e.c = -x;
            if self.try_branch(&[e], open, f, depth) {
                return true;
            }
        }
        false
    }
    fn complete(&mut self, nv: usize) -> Vec<F> {
        let n = self.trail.len();
        for v in 0..nv as u32 {
            if !self.piv.contains_key(&v) {
                let mut e = Aff::var(v);
                e.c = if self.rng.bool() { -F::random(&mut self.rng) } else { F::ZERO };
                self.assume(&e);
            }
        }
        let x = (0..nv as u32).map(|v| self.reduce(&Aff::var(v)).c).collect();
        self.undo(n);
        x
    }
}

/// Roots of q2 x^2 + q1 x + q0, which must not be identically zero.
pub fn roots<F: PrimeField>(q2: F, q1: F, q0: F) -> Vec<F> {
    if q2.is_zero_vartime() {
        if q1.is_zero_vartime() {
            return vec![];
        }
        return vec![-q0 * q1.invert().unwrap()];
    }
    let disc = q1.square() - q2 * q0 * F::from(4);
    let s: Option<F> = disc.sqrt().into();
    match s {
        None => vec![],
        Some(s) => {
            let i = (q2 + q2).invert().unwrap();
            let (x, y) = ((s - q1) * i, (-s - q1) * i);
            if x == y { vec![x] } else { vec![x, y] }
        }
    }
}

/// Checks a full assignment against the original system.
pub fn check<F: Field>(sys: &crate::System<F>, x: &[F]) -> bool {
    for g in 0..sys.n_gates {
        if x[4 * g] * x[4 * g + 1] != x[4 * g + 2] || x[4 * g + 2] * x[4 * g + 3] != F::ZERO {
            return false;
        }
    }
    sys.zeros.iter().all(|z| z.eval(x).is_zero_vartime())
}
