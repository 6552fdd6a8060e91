use crate::bn254::*;
use crate::ec::pairing::*;
use crate::ec::*;
use crate::ff::*;
use crate::poly::*;
use crate::ser::*;
use rand::{rngs::StdRng, SeedableRng};
use std::str::FromStr;
#[test]
fn fields() {
    let mut r = StdRng::seed_from_u64(1);
    assert_eq!(format!("{}", -Fr::from(1u64)), "21888242871839275222246405745257275088548364400416034343698204186575808495616");
    assert_eq!(format!("{}", -Fq::from(1u64)), "21888242871839275222246405745257275088696311157297823662689037894645226208582");
    assert_eq!(Fr::from_str("21888242871839275222246405745257275088548364400416034343698204186575808495618"), Ok(Fr::from(1u64)));
    assert_eq!(Fr::from_str("-3"), Ok(-Fr::from(3u64)));
    assert_eq!(Fr::from(-3i64), -Fr::from(3u64));
    for _ in 0..200 {
        let (a, b, c) = (Fr::rand(&mut r), Fr::rand(&mut r), Fr::rand(&mut r));
        assert_eq!(a * (b + c), a * b + a * c);
        assert_eq!(a * a.inverse().unwrap(), Fr::one());
        assert_eq!(a.square().sqrt().unwrap().square(), a.square());
        assert_eq!(Fr::from_str(&format!("{}", a)), Ok(a));
        let a = Fq2::rand(&mut r);
        assert_eq!(a.square().sqrt().unwrap().square(), a.square());
        assert_eq!(a.square(), a * a);
        assert_eq!(a * a.inverse().unwrap(), Fq2::one());
    }
    // (p-1)^2 = 1 with the carry-heavy operands
    let m = -Fq::one();
    assert_eq!(m * m, Fq::one());
    let mut b = vec![];
    Fr::from(0x0102u64).serialize_compressed(&mut b).unwrap();
    assert_eq!(b[..3], [2, 1, 0]);
}
#[test]
fn groups_and_pairing() {
    let mut r = StdRng::seed_from_u64(2);
    let (g, h) = (G1Projective::generator(), G2Projective::generator());
    assert!(g.into_affine().is_on_curve() && h.into_affine().is_on_curve());
    assert!(g.mul_bigint(Fr::MODULUS) == G1Projective::zero() && h.mul_bigint(Fr::MODULUS) == G2Projective::zero());
    let e = Bn254::pairing(g, h);
    assert!(!e.is_zero() && e.mul_bigint(Fr::MODULUS).is_zero());
    for _ in 0..5 {
        let (a, b) = (Fr::rand(&mut r), Fr::rand(&mut r));
        assert_eq!(g * a + g * b, g * (a + b));
        assert_eq!(h * a - h * b, h * (a - b));
        assert_eq!(Bn254::pairing(g * a, h * b), e * (a * b));
        assert_eq!(Bn254::pairing(g * a, h) + Bn254::pairing(g, h * b), e * (a + b));
        for c in [Compress::Yes, Compress::No] {
            let (p, q) = ((g * a).into_affine(), (h * b).into_affine());
            let mut v = vec![];
            p.serialize_with_mode(&mut v, c).unwrap();
            q.serialize_with_mode(&mut v, c).unwrap();
            assert_eq!(v.len(), p.serialized_size(c) + q.serialized_size(c));
            let mut s = &v[..];
            assert_eq!(G1Affine::deserialize_with_mode(&mut s, c, Validate::Yes).unwrap(), p);
            assert_eq!(G2Affine::deserialize_with_mode(&mut s, c, Validate::Yes).unwrap(), q);
        }
    }
    assert!(Bn254::pairing(G1Projective::zero(), h).is_zero());
    // Known: the generator compresses to 1, and 2G1 is the published point.
    let d = (g + g).into_affine();
    assert_eq!(format!("{}", d.x), "1368015179489954701390400359078579693043519447331113978918064868415326638035");
    assert_eq!(format!("{}", d.y), "9918110051302171585080402603319702774565515993150576347155970296011118125764");
}
#[test]
fn domains() {
    let mut r = StdRng::seed_from_u64(3);
    let d = GeneralEvaluationDomain::<Fr>::new(11).unwrap();
    assert_eq!(d.size(), 16);
    let c: Vec<Fr> = (0..16).map(|_| Fr::rand(&mut r)).collect();
    let e = d.fft(&c);
    assert_eq!(d.ifft(&e), c);
    let x = Fr::rand(&mut r);
    let l = d.evaluate_all_lagrange_coefficients(x);
    assert_eq!(l.iter().zip(&e).map(|(a, b)| *a * *b).sum::<Fr>(), c.iter().rev().fold(Fr::zero(), |a, k| a * x + k));
    let l = d.evaluate_all_lagrange_coefficients(d.element(5));
    assert!(l.iter().enumerate().all(|(i, v)| *v == if i == 5 { Fr::one() } else { Fr::zero() }));
}
#[test]
fn blake3_vectors() {
    let t: Vec<u8> = (0..102400).map(|i| (i % 251) as u8).collect();
    for (n, h) in [(0, "af1349b9f5f9a1a6a0404dea36dcc9499bcb25c9adc112b7cc9a93cae41f3262"), (1, "2d3adedff11b61f14c886e35afa036736dcd87a74d27b5c1510225d0f592e213")] {
        assert_eq!(crate::blake::hash(&t[..n]).to_hex(), h);
    }
    // Streaming and length edges agree with the one-shot hash.
    for n in [63, 64, 65, 1023, 1024, 1025, 2048, 2049, 3073, 31744, 102400] {
        let mut s = crate::blake::Hasher::new();
        s.update(&t[..n / 2]).update(&t[n / 2..n]);
        assert_eq!(s.finalize(), crate::blake::hash(&t[..n]));
    }
    assert_eq!(crate::blake::hash(&t[..1024]).to_hex(), "42214739f095a406f3fc83deb889744ac00df831c10daa55189b5d121c855af7");
    assert_eq!(crate::blake::hash(&t[..1025]).to_hex(), "d00278ae47eb27b34faecf67b4fe263f82d5412916c1ffd97c8cb7fb814b8444");
}
#[test]
fn pairing_exponent() {
    // The result is the plain reduced pairing to the power 2x(6x^2 + 3x + 1), as in arkworks.
    let (g, h) = (G1Projective::generator(), G2Projective::generator());
    let m = Bn254::miller_loop(g, h);
    let x = Fr::from(4965661367192848881u64);
    let k = x.double() * (Fr::from(6u64) * x.square() + Fr::from(3u64) * x + Fr::one());
    assert_eq!(Bn254::pairing(g, h), PairingOutput::<Bn254>(plain_final(m.0)) * k);
}
