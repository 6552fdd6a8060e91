//! The JavaScript bindings' encapsulation and decapsulation as a command, for the JavaScript monitors.
//! kem encap R1CS WTNS OUT-CT OUT-KEY | kem decap R1CS WTNS CT OUT-KEY. Exit 3: refused, the text on stderr.
use wasm_bindgen::Text;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let f = |i: usize| std::fs::read(&a[i]).expect("input");
    let r = match a[1].as_str() {
        "encap" => zkenc_js::wasm_encap(&f(2), &f(3)).map(|r| {
            std::fs::write(&a[4], r.ciphertext()).unwrap();
            std::fs::write(&a[5], r.key()).unwrap();
        }),
        _ => zkenc_js::wasm_decap(&f(2), &f(3), &f(4)).map(|k| std::fs::write(&a[5], k).unwrap()),
    };
    if let Err(e) = r {
        eprintln!("{}", e.text());
        std::process::exit(3);
    }
}
