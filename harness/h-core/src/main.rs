//! Checks of mpc-core on enumerated inputs, randomness and schedules.
mod b;
#[allow(dead_code, unfulfilled_lint_expectations, unused)]
#[path = "../../../build/ws/core/mpc-core/src/protocols/rep3/yao/bristol_fashion/mod.rs"]
mod bristol_fashion;
mod fields;
mod g;
mod l;
mod net;
mod pdef;
mod prelude;
mod proto;
mod protocols;
mod r;
mod s01;
mod s04;
mod s05;
mod s06;
mod s07;
mod s08;
mod s09;
mod u;

fn main() {
    let p = std::env::args().nth(1).unwrap_or_default();
    match p.as_str() {
        "S01" => s01::main(),
        "S02" => s01::main_s02(),
        "S03" => proto::s03(),
        "S04" => s04::main(),
        "S05" => s05::main(),
        "S06" => s06::main(),
        "S07" => s07::main(),
        "S08" => s08::main(),
        "S09" => s09::main(),
        "B01" => b::main(),
        "G01" => g::main(),
        "G02" => g::main_g02(),
        "L01" => l::main(),
        "R01" => r::main(),
        "R02" => r::main_r02(),
        "U01" => u::main(),
        "U02" => u::main_u02(),
        _ => {
            eprintln!("unknown property {p:?}");
            std::process::exit(3)
        }
    }
}
