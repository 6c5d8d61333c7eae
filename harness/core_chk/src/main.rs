mod c01;
mod c02;
mod c03;
mod c05;

fn main() {
    vh::main(&[("C01", c01::run), ("C02", c02::run), ("C03", c03::run), ("C05", c05::run)]);
}
