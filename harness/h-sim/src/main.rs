//! Checks of the transports of mpc-net on simulated threads, sockets and time.
mod n01;
mod n02;
mod n03;
mod n04;
mod n05;
mod n06;
mod n07;
mod n08;
mod n09;
mod net;
mod prelude;

#[global_allocator]
static ALLOC: prelude::Watched = prelude::Watched;

fn main() {
    let p = std::env::args().nth(1).unwrap_or_default();
    net::init();
    match p.as_str() {
        "N01" => n01::main(),
        "N02" => n02::main(),
        "N03" => n03::main(),
        "N04" => n04::main(),
        "N05" => n05::main(),
        "N06" => n06::main(),
        "N07" => n07::main(),
        "N08" => n08::main(),
        "N09" => n09::main(),
        _ => {
            eprintln!("unknown property {p:?}");
            std::process::exit(3)
        }
    }
}
