//! The bindings as a WebAssembly module, with the calling convention of wasm-bindgen in short: arguments are copied in,
//! results are copied out, an error is a string.
#![allow(static_mut_refs, clippy::missing_safety_doc)]
static mut OUT: Vec<Vec<u8>> = Vec::new();
#[no_mangle]
pub extern "C" fn give(n: usize) -> *mut u8 {
    let mut v = Vec::<u8>::with_capacity(n.max(1));
    let p = v.as_mut_ptr();
    std::mem::forget(v);
    p
}
#[no_mangle]
pub unsafe extern "C" fn out_len(i: usize) -> usize {
    OUT[i].len()
}
#[no_mangle]
pub unsafe extern "C" fn out_ptr(i: usize) -> *const u8 {
    OUT[i].as_ptr()
}
#[no_mangle]
pub unsafe extern "C" fn out_drop() {
    OUT = Vec::new();
}
unsafe fn taken(p: *mut u8, n: usize) -> Vec<u8> {
    Vec::from_raw_parts(p, n, n.max(1))
}
#[no_mangle]
pub extern "C" fn start() {
    #[cfg(target_arch = "wasm32")]
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string();
        unsafe { told(s.as_ptr(), s.len()) }
    }));
    zkenc_js::init();
}
#[cfg(target_arch = "wasm32")]
#[link(wasm_import_module = "env")]
extern "C" {
    fn told(p: *const u8, n: usize);
}
#[no_mangle]
pub unsafe extern "C" fn encap(r: *mut u8, rn: usize, w: *mut u8, wn: usize) -> u32 {
    use wasm_bindgen::Text;
    let (r, w) = (taken(r, rn), taken(w, wn));
    match zkenc_js::wasm_encap(&r, &w) {
        Ok(x) => {
            OUT = vec![x.ciphertext(), x.key()];
            0
        }
        Err(x) => {
            OUT = vec![x.text().into_bytes()];
            1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn decap(r: *mut u8, rn: usize, w: *mut u8, wn: usize, c: *mut u8, cn: usize) -> u32 {
    use wasm_bindgen::Text;
    let (r, w, c) = (taken(r, rn), taken(w, wn), taken(c, cn));
    match zkenc_js::wasm_decap(&r, &w, &c) {
        Ok(x) => {
            OUT = vec![x];
            0
        }
        Err(x) => {
            OUT = vec![x.text().into_bytes()];
            1
        }
    }
}
