//! Explores the JIT runtime of /repo: all call sequences up to a depth against a reference model, and all schedules of
//! small concurrent scenarios.
mod asm;
mod conc;
mod embed;
mod plain;
mod runner;
mod seq;
mod suites;
mod tx;
mod world;

fn main() {
    if std::env::args().any(|a| a == "-o") {
        // Stands in for the C compiler as linker: the object already is the library.
        let a: Vec<String> = std::env::args().skip(1).collect();
        let o = a.iter().position(|x| x == "-o").map(|i| a[i + 1].clone());
        let obj = a.iter().find(|x| x.ends_with(".o"));
        match (o, obj) {
            (Some(o), Some(obj)) => std::process::exit(std::fs::copy(obj, o).is_err() as i32),
            _ => std::process::exit(1),
        }
    }
    std::process::exit(runner::main());
}
