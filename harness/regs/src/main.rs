mod k05;
mod k10;
#[path = "../../stages/src/stages.rs"]
#[allow(dead_code)]
mod stages;

fn main() {
    vh::main(&[("K05", k05::run), ("K10", k10::run)]);
}
