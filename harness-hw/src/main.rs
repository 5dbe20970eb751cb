//! Conformance harness for consoles on hardware: the ST7735S LCD and the terminal.
mod lcd;
mod term;
mod util;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()).unwrap_or("") {
        "fonts" => lcd::fonts(),
        "lcd" => util::serve(lcd::run_job),
        "term" => term::main(&args[2]),
        cmd => {
            eprintln!("unknown subcommand {cmd:?}");
            std::process::exit(2);
        }
    }
}
