mod k06;
mod k07;

fn main() {
    vh::main(&[("K06", k06::run), ("K07", k07::run)]);
}
