use mon::{cli, ctx};

#[global_allocator]
static ALLOC: mon::alloc::Counting = mon::alloc::Counting;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    ctx::install_hook();
    if args[0] == "T18" {
        let n = |i: usize| args[i].parse::<u64>().unwrap();
        mon::threads::child(n(1), n(2) as usize, n(3) as usize, n(4) as usize);
        return;
    }
    let cli::Cli { ctx: mut c, out, stack, hang } = cli::parse(&args);
    cli::watchdog(out.clone(), hang);
    let c = std::thread::Builder::new()
        .stack_size(stack)
        .spawn(move || {
            mon::run(&mut c);
            c
        })
        .unwrap()
        .join()
        .unwrap();
    cli::finish(&c, &out);
}
