//! Proofs are the same whatever runs them: thread counts, builds, repetitions.
use crate::world::*;
use std::io::Read as _;
use vh::{Case, Ctx, Res, VRng, ensure, ensure_eq};

pub const MC: bool = cfg!(feature = "multicore");
type Report = Vec<(String, u64)>;

/// Everything observable about a short history grown from one seed.
fn report<const HS: usize>(w: &World<HS>, seed: u64, ops: usize) -> Result<Report, String> {
    let mut r = VRng::new(seed);
    let mut nodes: Vec<Node> = vec![];
    let mut used = vec![0; w.acts.len()];
    let mut out = vec![];
    for k in 0..8 * ops {
        if nodes.len() == ops {
            break;
        }
        let (a, i, j) = w.choose(&mut r, &nodes, &mut used, nodes.len() < 2);
        let s = r.u64();
        let at = |i: usize| if i < nodes.len() { &nodes[i] } else { &w.unit };
        let d = (w.acts[a].go)(&w.app, &mut Odd::Good(VRng::new(s)), &mut r, at(i), at(j), false);
        match d.got {
            Ok((n, _)) => {
                out.extend(prints(&n.proof).into_iter().map(|(f, h)| (format!("fuse {k} {f}"), h)));
                out.push((format!("value {k}"), vh::hash64(&format!("{:?}", n.val))));
                out.push((format!("verdict {k}"), vh::hash64(&format!("{:?}", w.verify(&n.proof, &n.val, VRng::new(s))))));
                nodes.push(n);
            }
            Err(e) => out.push((format!("error {k}"), vh::hash64(&format!("{e:?}")))),
        }
    }
    if let Some(n) = nodes.last() {
        match (w.act_for(&n.val).rerand)(&w.app, &mut Odd::Good(VRng::new(seed ^ 1)), n) {
            Ok(m) => out.extend(prints(&m.proof).into_iter().map(|(f, h)| (format!("rerandomized {f}"), h))),
            Err(e) => out.push(("rerandomize error".into(), vh::hash64(&format!("{e:?}")))),
        }
    }
    Ok(out)
}
fn scenario(which: usize, seed: u64) -> Result<Report, String> {
    let bad = |e: ragu_core::Error| format!("application: {e:?}");
    match which {
        0 => report(&two::<4>().map_err(bad)?, seed, 2),
        _ => report(&rich::<4>().map_err(bad)?, seed, 4),
    }
}
#[cfg(feature = "multicore")]
fn on<T: Send>(t: usize, f: impl FnOnce() -> T + Send) -> T {
    if t == 0 {
        return f();
    }
    rayon::ThreadPoolBuilder::new().num_threads(t).stack_size(64 << 20).build().unwrap().install(f)
}
#[cfg(not(feature = "multicore"))]
fn on<T: Send>(_: usize, f: impl FnOnce() -> T + Send) -> T {
    f()
}
fn same(what: &str, a: &Report, b: &Report) -> Res {
    for (x, y) in a.iter().zip(b) {
        ensure!(x == y, "{what}: {} differs (or appears at another step: {})", x.0, y.0);
    }
    ensure_eq!(a.len(), b.len(), "{what}: observations");
    Ok(())
}
/// The serial binary's report, when this is the parallel one.
fn peer(which: usize, seed: u64) -> Option<std::process::Child> {
    if !MC {
        return None;
    }
    let exe = std::path::Path::new(&std::env::var_os("VERIF_TARGET")?).join("serial/debug/pcd");
    std::process::Command::new(exe).arg("--report").env("K11_CHILD", format!("{which} {seed}")).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().ok()
}
/// Child mode: print the report and leave.
pub fn child() {
    let Ok(s) = std::env::var("K11_CHILD") else { return };
    let v: Vec<u64> = s.split(' ').map(|x| x.parse().unwrap()).collect();
    match scenario(v[0] as usize, v[1]) {
        Ok(r) => r.iter().for_each(|(n, h)| println!("{h} {n}")),
        Err(e) => println!("0 !{e}"),
    }
    std::process::exit(0);
}
fn run(c: &mut Case, which: usize, pools: &[usize]) -> Res {
    let seed = c.rng.u64();
    let kid = peer(which, seed);
    let base = scenario(which, seed);
    let base = base?;
    ensure!(base.iter().filter(|x| x.0.starts_with("fuse")).count() > 50, "nothing was grown");
    for &t in pools {
        c.eval();
        c.event("proof histories repeated", 1);
        let r = on(t, move || scenario(which, seed))?;
        same(&format!("history {which} with {t} threads, against the default pool"), &r, &base)?;
    }
    c.event("observations compared", (base.len() * pools.len()) as u64);
    if let Some(mut k) = kid {
        c.eval();
        let mut s = String::new();
        k.stdout.take().unwrap().read_to_string(&mut s).map_err(|e| e.to_string())?;
        let st = k.wait().map_err(|e| e.to_string())?;
        ensure!(st.success(), "the serial build ended with {st} where the parallel one succeeded");
        let r: Report = s.lines().filter_map(|l| l.split_once(' ').map(|(h, n)| (n.to_string(), h.parse().unwrap_or(0)))).collect();
        same(&format!("history {which}, serial build against the parallel one"), &r, &base)?;
        c.event("observations compared across builds", base.len() as u64);
    }
    c.seen(&(which, seed));
    Ok(())
}
pub fn k11(x: &Ctx) {
    x.rule("a proof history distinct in world or seed");
    let (full, deep): (&[usize], &[usize]) = match (MC, x.quick()) {
        (true, true) => (&[1, 2, 5], &[3]),
        (true, false) => (&[1, 2, 3, 5, 8, 16], &[1, 2, 8]),
        (false, _) => (&[0], &[0]),
    };
    x.serial("proofs two", x.n(1, 6), |c| run(c, 0, full));
    if MC || !x.quick() {
        x.serial("proofs rich", x.n(1, 4), |c| run(c, 1, deep));
    }
}
