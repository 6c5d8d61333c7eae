mod chain;
mod k01;
mod k04;

fn main() {
    chain::child();
    vh::main(&[("K01", k01::run), ("K02", k01::run_k02), ("K03", k01::run_k03), ("K04", k04::run), ("K12", k01::run_k12)]);
}
