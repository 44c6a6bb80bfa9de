mod gen;
mod gen2;
mod heap;
mod kern;
mod mitm;
mod gen3;
mod gen4;
mod gen5;
mod oracle;
mod oracle2;
mod peers;
mod raw;
mod run;
mod scen;
mod shim;
mod util;

mod driver;

#[global_allocator]
static HEAP: heap::Counting = heap::Counting;

fn main() {
    let args: Vec<String> = std::env::args().filter(|a| a != "_").collect();
    std::process::exit(driver::main(args));
}
