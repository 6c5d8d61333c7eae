mod c04;
mod p01;
mod p02;
mod p03;
mod p04;
mod p07;

fn main() {
    vh::main(&[("P01", p01::run), ("P02", p02::run), ("P03", p03::run), ("P04", p04::run), ("P07", p07::run), ("C04", c04::run)]);
}

/// All elements of a tiny field.
pub fn all<F: ff::PrimeField>(p: u64) -> Option<Vec<F>> {
    Some((0..p).map(F::from).collect())
}
