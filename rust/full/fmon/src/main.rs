mod circ;
#[path = "../../../part/vmon/src/cost.rs"]
mod cost;
mod kemlib;
mod m_cli;
mod m_cost;
mod m_files;
mod m_kem;
#[path = "../../../part/vmon/src/m_r1cs.rs"]
#[allow(dead_code)]
mod m_r1cs;
mod m_repeat;
mod m_same;
mod m_scheme;
mod m_threads;
mod m_world;
mod m_wtns;
#[path = "../../../part/vmon/src/soak.rs"]
mod soak;
#[path = "../../../part/vmon/src/storm.rs"]
mod storm;
#[path = "../../../part/vmon/src/util.rs"]
#[allow(dead_code)]
mod util;
use util::Ctx;

#[global_allocator]
static A: util::Alloc = util::Alloc;

fn main() {
    let mut a = std::env::args_os().skip(1);
    if a.next().is_some_and(|a| a == "calls") {
        let a: Vec<_> = a.map(std::path::PathBuf::from).collect();
        return m_world::calls(&a[0], &a[1]);
    }
    util::install();
    let mut x = Ctx::from_args();
    let p = x.prop.clone();
    if x.args.get("part").map(String::as_str) == Some("cli") {
        match p.as_str() {
            "C28" => m_cli::c28(&mut x),
            "C29" => m_cli::c29(&mut x),
            "C30" => m_cli::c30(&mut x),
            "C31" => m_cli::c31(&mut x),
            "C32" => m_cli::c32(&mut x),
            "C33" => m_cli::c33(&mut x),
            "C36" => m_cli::c36(&mut x),
            "C38" => m_cli::c38(&mut x),
            "C41" => m_files::c41(&mut x),
            "C42" => m_files::c42(&mut x),
            "C43" => m_files::c43(&mut x),
            "C47" => m_world::c47(&mut x),
            o => panic!("no monitor for {}", o),
        }
        x.finish();
        return;
    }
    match p.as_str() {
        "C19" => m_wtns::c19(&mut x),
        "C20" => m_wtns::c20(&mut x),
        "C28" => m_kem::c28(&mut x),
        "C29" => m_kem::c29(&mut x),
        "C30" => m_kem::c30(&mut x),
        "C31" => m_kem::c31(&mut x),
        "C32" => m_kem::c32(&mut x),
        "C33" => m_kem::c33(&mut x),
        "C34" => m_kem::c34(&mut x),
        "C38" => m_kem::c38(&mut x),
        "C44" => m_threads::c44(&mut x),
        "C45" => m_repeat::c45(&mut x),
        "C46" => m_cost::c46(&mut x),
        "C40" => m_scheme::c40(&mut x),
        "C49" => m_same::c49(&mut x),
        o => panic!("no monitor for {}", o),
    }
    x.finish();
}
