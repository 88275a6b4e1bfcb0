fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        println!("SX-PANIC {i}");
        std::process::exit(101);
    }));
    harness::load(&a[2]);
    harness::run(&a[1]);
    println!("SX-DONE");
}
