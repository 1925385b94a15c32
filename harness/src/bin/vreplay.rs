fn main() {
    let n = std::env::args().nth(1).expect("harness");
    if !vh::run(&n) {
        eprintln!("no such harness");
        std::process::exit(4);
    }
    let (f, _) = verif_rt::result();
    println!("REPLAY-DONE failed={}", f);
    std::process::exit(if f > 0 { 1 } else { 0 });
}
