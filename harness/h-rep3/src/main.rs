//! Checks of the three-party replicated protocols and of what is built on them.
mod fields;
#[path = "../../h-core/src/net.rs"]
mod net;
mod ops;
#[path = "../../h-core/src/pdef.rs"]
mod pdef;
#[path = "../../h-core/src/prelude.rs"]
mod prelude;
mod r03;
mod r04;
mod r05;
mod r06;
mod r07;
mod r09;
mod r10;
mod v;
mod vm;

fn main() {
    let p = std::env::args().nth(1).unwrap_or_default();
    match p.as_str() {
        "R03" => r03::main(),
        "R04" => r04::main(),
        "R05" => r05::main(),
        "R06" => r06::main(),
        "R07" => r07::main(),
        "R09" => r09::main(),
        "R10" => r10::main(),
        "V01" => v::v01(),
        "V02" => v::v02(),
        _ => {
            eprintln!("unknown property {p:?}");
            std::process::exit(3)
        }
    }
}
