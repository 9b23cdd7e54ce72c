//! `scen run <ID>` explores one property; `scen --replay <file>` repeats one run.
#[cfg(feature = "chain")]
mod chain;
mod codec;
mod driver;
mod dsl;
mod fast;
mod fold;
mod forge;
mod gadget;
mod groth;
mod ivc;
mod mirror;
mod rand;
mod rngs;
mod stepc;
mod stepfn;
mod wire;

fn main() {
    driver::no_aslr();
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => driver::run(a.get(2).expect("property id")),
        Some("--replay") => driver::replay(a.get(2).expect("replay file")),
        Some("one") => driver::one(&a[2], a[3].parse().unwrap()),
        Some("build") => println!("ok"),
        Some("timing") => ivc::timing(),
        _ => {
            eprintln!("usage: scen run <ID> | scen --replay <file> | scen one <ID> <run>");
            std::process::exit(2);
        }
    }
}
