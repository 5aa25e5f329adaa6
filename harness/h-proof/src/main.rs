//! Checks of the circom provers on enumerated circuits, witnesses, randomness and schedules.
#[allow(dead_code)]
#[path = "../../h-core/src/fields.rs"]
mod fields;
#[path = "../../h-core/src/net.rs"]
mod net;
#[path = "../../h-core/src/prelude.rs"]
mod prelude;
mod pairing;
mod k01;
mod k02;
mod k03;
mod k05;
mod k04;
mod plonk;
mod r1cs;
mod z01;

fn main() {
    let p = std::env::args().nth(1).unwrap_or_default();
    match p.as_str() {
        "K01" => k01::main(),
        "K02" => k02::main(),
        "K03" => k03::main(),
        "K04" => k04::main(),
        "K05" => k05::main(),
        "Z01" => z01::main(),
        _ => {
            eprintln!("unknown property {p:?}");
            std::process::exit(3)
        }
    }
}
