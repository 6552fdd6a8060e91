//! same CASES ANSWERS SCRATCH: answers every line "op hex hex ..." of one file with a line of the other.
use std::io::Write;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let dir = std::path::Path::new(&a[3]);
    let mut out = std::fs::File::create(&a[2]).unwrap();
    writeln!(out, "{}", same::about()).unwrap();
    for l in std::fs::read_to_string(&a[1]).unwrap().lines() {
        let mut w = l.split(' ');
        let op = w.next().unwrap();
        let args: Vec<Vec<u8>> = w.map(same::unhex).collect();
        writeln!(out, "{}", same::run(op, &args, dir)).unwrap();
    }
}
