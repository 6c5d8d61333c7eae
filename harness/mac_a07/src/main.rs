//! 256-bit literals in many spellings against big-integer arithmetic.
use vh::*;
mod generated {
    include!(env!("VERIF_GEN"));
}
fn run(ctx: &Ctx) {
    ctx.rule("Literals drawn by a generator (all four radixes, digit separators, leading zeros, every limb pattern) and expanded by the real macro; non-trivial when the spelling is new. Oracle: limbs computed with big integers when the literal was generated.");
    let rows = generated::ROWS;
    ctx.cases("literals", rows.len(), |c| {
        let (got, want, lit, style) = rows[c.idx];
        ensure_eq!(got, want, "repr256!({lit})");
        c.seen(&lit);
        c.event(style, 1);
        c.sample("literal", || lit.to_string());
        Ok(())
    });
}
fn main() {
    vh::main(&[("A07", run)])
}
