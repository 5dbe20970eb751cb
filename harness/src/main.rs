//! Conformance harness: replays model-generated behaviours into the real EndBASIC code.
mod console;
mod dev;
mod lang;
mod shell;
mod util;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    match cmd {
        "dev" => util::serve(dev::run_job),
        "console" => util::serve(console::run_job),
        "lang" => util::serve(lang::run_job),
        "shell" => util::serve(shell::run_job),
        _ => {
            eprintln!("unknown subcommand {cmd:?}");
            std::process::exit(2);
        }
    }
}
