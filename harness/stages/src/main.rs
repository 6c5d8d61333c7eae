mod stages;

fn main() {
    vh::main(&[("K08", stages::run_k08), ("K09", stages::run_k09)]);
}
