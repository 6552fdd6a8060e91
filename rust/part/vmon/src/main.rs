mod cost;
mod m_cost;
mod m_crypto;
mod m_inputs;
mod m_io;
mod m_r1cs;
mod m_repeat;
mod m_serial;
mod m_threads;
mod refaes;
mod soak;
mod storm;
mod util;
use util::Ctx;

#[global_allocator]
static A: util::Alloc = util::Alloc;

fn main() {
    if std::env::args().nth(1).as_deref() == Some("nonce-child") {
        return m_crypto::nonce_child();
    }
    util::install();
    let mut x = Ctx::from_args();
    let p = x.prop.clone();
    match p.as_str() {
        "C01" => m_crypto::c01(&mut x),
        "C02" => m_crypto::c02(&mut x),
        "C03" => m_crypto::c03(&mut x),
        "C04" => m_crypto::c04(&mut x),
        "C05" => m_crypto::c05(&mut x),
        "C06" => m_crypto::c06(&mut x),
        "C07" => m_r1cs::c07(&mut x),
        "C08" => m_r1cs::c08(&mut x),
        "C09" => m_r1cs::c09(&mut x),
        "C10" => m_r1cs::c10(&mut x),
        "C11" => m_serial::c11(&mut x),
        "C12" => m_serial::c12(&mut x),
        "C13" => m_serial::c13(&mut x),
        "C14" => m_inputs::c14(&mut x),
        "C15" => m_inputs::c15(&mut x),
        "C16" => m_inputs::c16(&mut x),
        "C17" => m_inputs::c17_emit(&mut x),
        "C44" => m_threads::c44(&mut x),
        "C45" => m_repeat::c45(&mut x),
        "C46" => m_cost::c46(&mut x),
        "C39" => m_io::c39(&mut x),
        o => panic!("no monitor for {}", o),
    }
    x.finish();
}
