//! Checks of the network configuration on enumerated texts, configurations and builder call sequences.
mod n10;

fn main() {
    let p = std::env::args().nth(1).unwrap_or_default();
    match p.as_str() {
        "N10" => n10::main(),
        _ => {
            eprintln!("unknown property {p:?}");
            std::process::exit(3)
        }
    }
}
