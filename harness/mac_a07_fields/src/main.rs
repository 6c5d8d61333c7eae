//! Field literals against big-integer reduction.
use vh::*;
mod generated {
    use ff::PrimeField;
    include!(env!("VERIF_GEN"));
}
fn run(ctx: &Ctx) {
    ctx.rule("Field literals drawn by a generator (canonical values, values at and above the modulus) expanded by the real macros; non-trivial when the literal is new. Oracle: big-integer reduction.");
    let rows = generated::rows();
    ctx.cases("field literals", rows.len(), |c| {
        let (got, want, lit) = rows[c.idx];
        ensure_eq!(got, want, "{lit}");
        c.seen(&lit);
        c.event(&lit[..2], 1);
        c.sample("literal", || lit.to_string());
        Ok(())
    });
}
fn main() {
    vh::main(&[("A07", run)])
}
