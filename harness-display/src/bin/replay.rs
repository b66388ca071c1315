//! replay HARNESS < lines of comma separated bytes, one line per input word
#[cfg(kani)]
fn main() {}

#[cfg(not(kani))]
fn main() {
    use std::io::BufRead;
    let name = std::env::args().nth(1).expect("harness name");
    let mut vals = Vec::new();
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let l = l.trim();
        if l.is_empty() || l.starts_with('#') {
            continue;
        }
        vals.push(l.split(',').map(|b| b.trim().parse::<u8>().unwrap()).collect());
    }
    let mut s = display_harness::Src::from_vals(vals);
    if !display_harness::run(&name, &mut s) {
        eprintln!("no harness {}", name);
        std::process::exit(5);
    }
    println!("REPLAY-OK: the property held");
}
