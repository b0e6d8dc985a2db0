//! `vh`: decides the properties of /verif/properties.jsonl by generated-input search.
#[macro_use]
mod engine;
mod gen;
mod oracle;
mod props;
mod runner;

/// Formats every record: the arguments of log messages are code of the solver too.
struct Sink;

impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, record: &log::Record) {
        std::hint::black_box(record.args().to_string().len());
    }
    fn flush(&self) {}
}

#[global_allocator]
static ALLOCATOR: engine::Counting = engine::Counting;

fn main() {
    let _ = log::set_logger(&Sink);
    log::set_max_level(log::LevelFilter::Info);
    let args: Vec<String> = std::env::args().collect();
    std::process::exit(runner::main(&args));
}
