//! Errors: rendered text, identity and causes under generated payloads.
use ragu_core::Error;
use std::error::Error as StdError;
use std::fmt;
use vh::*;

#[derive(Debug)]
struct Cause {
    id: u64,
    text: String,
    inner: Option<Box<dyn StdError + Send + Sync>>,
}
impl fmt::Display for Cause {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.text)
    }
}
impl StdError for Cause {
    fn source(&self) -> Option<&(dyn StdError + 'static)> {
        self.inner.as_deref().map(|e| e as &(dyn StdError + 'static))
    }
}

fn number(c: &mut Case) -> usize {
    match c.rng.below(6) {
        0 => 0,
        1 => usize::MAX,
        2 => 1usize << c.rng.below(64),
        3 => (1usize << c.rng.below(63)).wrapping_sub(1),
        4 => c.rng.below(1000),
        _ => c.rng.u64() as usize,
    }
}
fn text(c: &mut Case) -> String {
    let n = *c.pick(&[0usize, 1, 3, 20, 200, 3000]);
    let alphabet: Vec<char> = "abcXYZ 019(){}%\\\"'\n\t:;é漢🦀{0}".chars().collect();
    (0..n).map(|_| alphabet[c.rng.below(alphabet.len())]).collect()
}
/// Maximal digit runs of a message.
fn runs(s: &str) -> Vec<String> {
    s.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()
}
fn name(e: &Error) -> &'static str {
    match e {
        Error::GateBoundExceeded { .. } => "gates",
        Error::ConstraintBoundExceeded { .. } => "constraints",
        Error::CircuitBoundExceeded { .. } => "circuits",
        Error::DegreeBoundExceeded { .. } => "degree",
        Error::InvalidWitness(_) => "witness",
        Error::MalformedEncoding(_) => "encoding",
        Error::VectorLengthMismatch { .. } => "length",
        Error::Initialization(_) => "initialization",
        _ => "other",
    }
}

fn quantities(c: &mut Case) -> Res {
    let limit = number(c);
    let es = [
        (Error::GateBoundExceeded { limit }, "gate"),
        (Error::ConstraintBoundExceeded { limit }, "constraint"),
        (Error::CircuitBoundExceeded { limit }, "circuit"),
        (Error::DegreeBoundExceeded { limit }, "degree"),
    ];
    let mut texts = vec![];
    for (e, word) in &es {
        let s = e.to_string();
        ensure_eq!(runs(&s), vec![limit.to_string()], "numbers in {s:?}");
        ensure!(s.contains(word), "{s:?} does not name the limited quantity ({word})");
        ensure!(e.source().is_none(), "{s:?} reports a cause");
        ensure!(format!("{e:?}").contains(&limit.to_string()), "debug text of {e:?} loses the limit");
        texts.push(s);
        c.event("messages", 1);
    }
    for i in 0..4 {
        for j in 0..i {
            ensure!(texts[i] != texts[j], "two kinds render the same text {:?}", texts[i]);
        }
    }
    let (expected, actual) = (number(c), number(c));
    let e = Error::VectorLengthMismatch { expected, actual };
    let s = e.to_string();
    let pos = |w: &str| s.find(w).ok_or(format!("{s:?} does not say {w}"));
    let after = |w: &str| -> Result<String, String> {
        let p = pos(w)?;
        // the label's own number is the first one following its last occurrence
        let p = s.rfind(w).unwrap_or(p);
        Ok(runs(&s[p..]).first().cloned().unwrap_or_default())
    };
    ensure_eq!(after("expected")?, expected.to_string(), "number labelled expected in {s:?}");
    ensure_eq!(after("actual")?, actual.to_string(), "number labelled actual in {s:?}");
    ensure!(e.source().is_none(), "{s:?} reports a cause");
    c.seen(&(limit, expected, actual));
    c.sample("message", || s.clone());
    Ok(())
}

fn wrapping(c: &mut Case) -> Res {
    let depth = c.rng.below(5);
    let mut ids = vec![];
    let mut texts = vec![];
    let mut inner: Option<Box<dyn StdError + Send + Sync>> = None;
    for _ in 0..=depth {
        let id = c.rng.u64();
        let t = text(c);
        ids.push(id);
        texts.push(t.clone());
        inner = Some(Box::new(Cause { id, text: t, inner }));
    }
    let kind = c.rng.below(3);
    let cause = inner.unwrap();
    let wrap = |k: usize, b: Box<dyn StdError + Send + Sync>| match k {
        0 => Error::InvalidWitness(b),
        1 => Error::MalformedEncoding(b),
        _ => Error::Initialization(b),
    };
    let want = ["witness", "encoding", "initialization"][kind];
    let word = ["witness", "encoding", "initialization"][kind];
    let e = wrap(kind, cause);
    ensure_eq!(name(&e), want, "kind");
    let s = e.to_string();
    ensure!(s.contains(texts.last().unwrap().as_str()), "{s:?} loses the cause's text");
    ensure!(s.ends_with(texts.last().unwrap().as_str()), "{s:?} alters the cause's text");
    ensure!(s.contains(word), "{s:?} does not say what failed");
    // walk the chain
    let mut cur: Option<&(dyn StdError + 'static)> = e.source();
    for k in (0..=depth).rev() {
        let x = cur.ok_or(format!("cause chain ends {k} early"))?;
        let t = x.downcast_ref::<Cause>().ok_or("cause changed its type")?;
        ensure_eq!(t.id, ids[k], "identity of cause {k}");
        ensure_eq!(x.to_string(), texts[k], "text of cause {k}");
        cur = x.source();
        c.event("causes", 1);
    }
    ensure!(cur.is_none(), "cause chain is longer than what was wrapped");
    // wrapping the library's own error again
    let k2 = c.rng.below(3);
    let e2 = wrap(k2, Box::new(e));
    let src = e2.source().ok_or("no cause")?.downcast_ref::<Error>().ok_or("library error lost as a cause")?;
    ensure_eq!(name(src), want, "kind of the wrapped error");
    ensure_eq!(src.to_string(), s, "text of the wrapped error");
    ensure!(e2.to_string().ends_with(&s), "outer text alters the wrapped error's text");
    // text-only causes
    let t = text(c);
    let e3 = wrap(kind, t.clone().into());
    ensure!(e3.to_string().ends_with(&t), "text cause altered");
    ensure_eq!(e3.source().map(|s| s.to_string()), Some(t.clone()), "text cause");
    // through results and other boxes
    let r: ragu_core::Result<()> = Err(e2);
    let b: Box<dyn StdError + Send + Sync> = Box::new(r.unwrap_err());
    let back = *b.downcast::<Error>().map_err(|_| "error lost its type in a box")?;
    ensure_eq!(name(&back), ["witness", "encoding", "initialization"][k2], "kind after boxing");
    c.seen(&(kind, k2, depth, ids, texts));
    Ok(())
}

/// Crossing threads must not change anything.
fn threads(c: &mut Case) -> Res {
    let n = number(c);
    let e = Error::DegreeBoundExceeded { limit: n };
    let s = e.to_string();
    let (t, k) = std::thread::spawn(move || (e.to_string(), name(&e))).join().map_err(|_| "thread")?;
    ensure_eq!((t, k), (s, "degree"), "error after crossing threads");
    c.seen(&("thread", n));
    Ok(())
}

pub fn run(ctx: &Ctx) {
    ctx.rule("Every error kind with random and extreme quantities, arbitrary explanatory texts and cause chains up to five deep, nested wrapping included; non-trivial when the payload is new.");
    ctx.cases("quantities", ctx.n(18000, 100000), quantities);
    ctx.cases("wrapping", ctx.n(18000, 100000), wrapping);
    ctx.cases("threads", ctx.n(300, 500), threads);
}
