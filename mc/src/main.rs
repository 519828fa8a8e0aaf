//! Bounded exhaustive exploration of cafebabe against a reference model. See ../DESIGN.md.
mod alloc;
mod asm;
mod check;
mod dump;
mod engine;
mod gen;
mod history;
mod props;
mod refmodel;
mod spaces;
mod spaces2;
mod spaces3;
mod spaces4;
mod spaces5;
mod spaces6;
mod spaces7;
mod spaces8;
mod spaces9;
mod spaces10;
mod spaces11;
mod supervise;
mod view;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let s: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
    let code = match s.get(1).copied() {
        Some("run") if s.len() == 4 => supervise::run(s[2], s[3]),
        Some("worker") => supervise::worker(&s[2..]),
        Some("single") => supervise::single(&s[2..]),
        Some("replay") if s.len() == 3 => supervise::replay(s[2]),
        Some("conform") => supervise::conform(&s[2..]),
        Some("dump") if s.len() == 3 => {
            for (n, b) in [("everything", gen::everything(61)), ("module", gen::everything_module(55))] {
                std::fs::write(format!("{}/{}.class", s[2], n), b).unwrap();
            }
            0
        }
        Some("seeds") if s.len() == 3 => {
            for (n, b, _) in spaces::all_seeds().into_iter().chain(spaces::whole_seeds()) {
                std::fs::write(format!("{}/{}.class", s[2], n.replace('/', " in ")), b).unwrap();
            }
            0
        }
        _ => {
            eprintln!("usage: mc run <property> quick|thorough; mc replay <file>; mc conform <file or directory>...");
            2
        }
    };
    std::process::exit(code);
}
