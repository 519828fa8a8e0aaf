//! C21: every schedule, up to a bound on preemptions, of threads using the thread-safe build.
#[allow(dead_code)]
#[path = "../../mc/src/asm.rs"]
mod asm;
mod explore;
mod files;
mod report;
mod scenario;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("run") if a.len() == 3 => explore::run(&a[2]),
        Some("replay") if a.len() == 3 => explore::replay(&a[2]),
        Some("list") => {
            for s in scenario::all(a.get(2).map_or(false, |t| t == "thorough")) {
                println!("{} (up to {} preemptions)", s.name(), s.bound);
            }
            0
        }
        Some("files") => {
            files::prepare(files::depths());
            for f in files::all() {
                match cafebabe_ts::parse_class(&f.bytes) {
                    Ok(_) => println!("accepted  {}", f.name),
                    Err(e) => println!("refused   {}: {e}", f.name),
                }
            }
            0
        }
        _ => {
            eprintln!("usage: sched run quick|thorough; sched replay <file>; sched list; sched files");
            2
        }
    };
    std::process::exit(code);
}
