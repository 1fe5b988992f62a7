use std::io::Write;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let verbose = a.get(2).is_some_and(|x| x == "-v");
    let b = std::fs::read(&a[1]).expect("cases");
    simcore::seam::install_panic_hook();
    println!("S");
    platlib::cases(&b, 0, verbose, &mut |l| {
        println!("{l}");
        let _ = std::io::stdout().flush();
    });
}
