//! Proof-carrying data: histories, corruptions, registration, transcripts.
mod apps;
mod corrupt;
mod d01;
mod d02;
mod d04;
mod d05;
mod d06;
mod d07;
mod d08;
mod d09;
mod k11;
mod poseidon;
mod world;

fn main() {
    k11::child();
    vh::main(&[("D01", d01::d01), ("D02", d02::d02), ("D03", d07::d03), ("D04", d04::d04), ("D05", d05::d05), ("D06", d06::d06), ("D07", d07::d07), ("D08", d08::d08), ("D09", d09::d09), ("K11", k11::k11)]);
}
