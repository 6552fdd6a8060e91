//! Encapsulation and decapsulation through each of the tools that can run in this process.
use crate::circ::*;
use crate::m_r1cs::Model;
use crate::util::guard;
use ark_bn254::{Bn254, Fr};
use ark_ff::PrimeField;
use ark_relations::gr1cs::{ConstraintSynthesizer, ConstraintSystemRef, LinearCombination, SynthesisError, Variable, R1CS_PREDICATE_LABEL};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use std::path::{Path, PathBuf};
use std::sync::Arc;
use wasm_bindgen::Text;
use zkenc_cli::circuit::CircomCircuit;

pub type Ct = zkenc_core::Ciphertext<Bn254>;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Tool {
    /// The core library with a circuit of the monitor's own.
    Core,
    /// The core library with the CLI's circuit.
    Cli,
    /// The JavaScript bindings.
    Js,
}
pub const TOOLS: [Tool; 3] = [Tool::Core, Tool::Cli, Tool::Js];

type Lc = Vec<(u32, Fr)>;
/// A circuit for the core library that allocates its variables in wire order, like the circuits of the tools.
#[derive(Clone)]
pub struct Own {
    pub n_pub: usize,
    pub n_wires: usize,
    pub cons: Arc<Vec<[Lc; 3]>>,
    pub w: Vec<Option<Fr>>,
    /// Allocate this private wire before the public ones.
    pub early: Option<usize>,
}
impl ConstraintSynthesizer<Fr> for Own {
    fn generate_constraints(self, cs: ConstraintSystemRef<Fr>) -> Result<(), SynthesisError> {
        let mut v = vec![Variable::One; self.n_wires];
        if let Some(e) = self.early {
            v[e] = cs.new_witness_variable(|| self.w[e].ok_or(SynthesisError::AssignmentMissing))?;
        }
        for i in 1..=self.n_pub {
            v[i] = cs.new_input_variable(|| self.w[i].ok_or(SynthesisError::AssignmentMissing))?;
        }
        for i in self.n_pub + 1..self.n_wires {
            if Some(i) != self.early {
                v[i] = cs.new_witness_variable(|| self.w[i].ok_or(SynthesisError::AssignmentMissing))?;
            }
        }
        for k in self.cons.iter() {
            let lcs: Vec<Box<dyn FnOnce() -> LinearCombination<Fr>>> = k
                .iter()
                .map(|l| {
                    let lc = l.iter().fold(LinearCombination::<Fr>::zero(), |s, (i, c)| s + (*c, v[*i as usize]));
                    Box::new(move || lc) as Box<dyn FnOnce() -> LinearCombination<Fr>>
                })
                .collect();
            cs.enforce_constraint(R1CS_PREDICATE_LABEL, lcs)?;
        }
        Ok(())
    }
}

/// A circuit made ready for every tool.
pub struct Setup {
    pub m: Model,
    pub bytes: Vec<u8>,
    pub path: PathBuf,
    pub cons: Arc<Vec<[Lc; 3]>>,
}
impl Setup {
    pub fn new(m: &Model, dir: &Path) -> Setup {
        Setup::from_bytes(m, file(m), dir)
    }
    pub fn from_bytes(m: &Model, bytes: Vec<u8>, dir: &Path) -> Setup {
        let path = dir.join(format!("c{:?}.r1cs", std::thread::current().id()).replace(['(', ')'], ""));
        std::fs::write(&path, &bytes).unwrap();
        let cons = m.cons.iter().map(|k| [0, 1, 2].map(|i: usize| k[i].iter().map(|(w, c)| (*w, Fr::from_le_bytes_mod_order(c))).collect())).collect();
        Setup { m: m.clone(), bytes, path, cons: Arc::new(cons) }
    }
    pub fn n_pub(&self) -> usize {
        (self.m.n_pub_out + self.m.n_pub_in) as usize
    }
    pub fn own(&self, w: &[Option<Fr>]) -> Own {
        let mut w = w.to_vec();
        w.resize(self.m.n_wires as usize, None);
        Own { n_pub: self.n_pub(), n_wires: self.m.n_wires as usize, cons: self.cons.clone(), w, early: None }
    }
    pub fn cli(&self, w: &[Option<Fr>]) -> Result<CircomCircuit, String> {
        let mut c = CircomCircuit::from_r1cs(&self.path).map_err(|e| e.to_string())?;
        c.set_witness(w.iter().enumerate().filter_map(|(i, v)| v.map(|v| (i as u32, v))).collect());
        Ok(c)
    }
    /// Encapsulate to the public values w[1..=n_pub] of the witness `w`, with the operating system's random numbers.
    pub fn encap(&self, t: Tool, w: &[Fr]) -> Result<(Vec<u8>, Vec<u8>), String> {
        self.encap_with(t, w, &mut ark_std::rand::rngs::OsRng)
    }
    /// The same with this generator where the tool takes one.
    pub fn encap_with<R: ark_std::rand::RngCore>(&self, t: Tool, w: &[Fr], rng: &mut R) -> Result<(Vec<u8>, Vec<u8>), String> {
        let public: Vec<Option<Fr>> = w[..=self.n_pub()].iter().copied().map(Some).collect();
        let r = match t {
            Tool::Core => zkenc_core::encap::<Bn254, _, _>(self.own(&public), rng),
            Tool::Cli => zkenc_core::encap::<Bn254, _, _>(self.cli(&public)?, rng),
            Tool::Js => {
                let r = zkenc_js::wasm_encap(&self.bytes, &wtns(&w[..=self.n_pub()])).map_err(|e| e.text())?;
                return Ok((r.ciphertext(), r.key()));
            }
        };
        let (ct, key) = r.map_err(|e| e.to_string())?;
        Ok((bytes(&ct), key.as_bytes().to_vec()))
    }
    pub fn decap(&self, t: Tool, w: &[Option<Fr>], ct: &[u8]) -> Result<Vec<u8>, String> {
        let c = |b| Ct::deserialize_compressed(b).map_err(|e| format!("ciphertext: {:?}", e));
        let r = match t {
            Tool::Core => zkenc_core::decap::<Bn254, _>(self.own(w), &c(ct)?),
            Tool::Cli => zkenc_core::decap::<Bn254, _>(self.cli(w)?, &c(ct)?),
            Tool::Js => {
                let w: Vec<Fr> = w.iter().map(|x| x.expect("the bindings take no partial witness")).collect();
                return zkenc_js::wasm_decap(&self.bytes, &wtns(&w), ct).map_err(|e| e.text());
            }
        };
        r.map(|k| k.as_bytes().to_vec()).map_err(|e| e.to_string())
    }
    pub fn decap_all(&self, t: Tool, w: &[Fr], ct: &[u8]) -> Result<Vec<u8>, String> {
        self.decap(t, &w.iter().copied().map(Some).collect::<Vec<_>>(), ct)
    }
    /// Decapsulation where a panic is told apart from a refusal.
    pub fn decap_guarded(&self, t: Tool, w: &[Option<Fr>], ct: &[u8]) -> Result<Result<Vec<u8>, String>, String> {
        guard(|| self.decap(t, w, ct))
    }
}
pub fn bytes<T: CanonicalSerialize>(x: &T) -> Vec<u8> {
    let mut b = vec![];
    x.serialize_compressed(&mut b).unwrap();
    b
}
pub fn some(w: &[Fr]) -> Vec<Option<Fr>> {
    w.iter().copied().map(Some).collect()
}
/// Values near `x` that a careless comparison or evaluation might take for it.
pub fn near(r: &mut crate::util::Rng, x: Fr) -> Fr {
    use ark_ff::Field;
    let y = match r.below(10) {
        0 => x + Fr::from(1u64),
        1 => x - Fr::from(1u64),
        2 => x + Fr::from(2u64).pow([64 * r.below(4)]),
        3 => x - Fr::from(2u64).pow([64 * r.below(4)]),
        4 => x + Fr::from(2u64).pow([r.below(254)]),
        5 => x - Fr::from(2u64).pow([r.below(254)]),
        6 => -x,
        7 => Fr::from(0u64),
        8 => Fr::from(1u64),
        _ => fr(r),
    };
    if y == x {
        x + Fr::from(1u64)
    } else {
        y
    }
}
