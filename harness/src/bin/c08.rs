//! C08: local operations on replicated group shares commute with reconstruction.
use ark_ec::CurveGroup;
use ark_ff::{PrimeField, UniformRand};
use harness::{H, R, ensure_eq, fields::*};
use mpc_core::protocols::rep3::{Rep3PointShare as P, Rep3PrimeFieldShare as S};
use rand::Rng;
use rand_chacha::ChaCha12Rng;

fn pick<C: CurveGroup>(k: usize, rng: &mut ChaCha12Rng) -> C {
    match k {
        0 => C::zero(),
        1 => C::generator(),
        2 => -C::generator(),
        3 => C::generator().double(),
        _ => C::generator() * C::ScalarField::rand(rng),
    }
}
fn share<C: CurveGroup>(x: C, k: usize, rng: &mut ChaCha12Rng) -> [P<C>; 3] {
    let (p, q): (C, C) = (pick(k % 6, rng), pick(k / 3 % 7, rng));
    let v = [p, q, x - p - q];
    [0, 1, 2].map(|i| P::new(v[i], v[(i + 2) % 3]))
}
fn sharef<F: PrimeField>(x: F, rng: &mut ChaCha12Rng) -> [S<F>; 3] {
    let k = rng.gen_range(0..12);
    let (p, q): (F, F) = (value(k, rng), F::rand(rng));
    let v = [p, q, x - p - q];
    [0, 1, 2].map(|i| S { a: v[i], b: v[(i + 2) % 3] })
}
fn open<C: CurveGroup>(s: &[P<C>; 3], what: &str) -> Result<C, String> {
    for i in 0..3 {
        ensure_eq!(s[(i + 1) % 3].b, s[i].a, "{what}: party {}'s second component", (i + 1) % 3);
    }
    Ok(s[0].a + s[1].a + s[2].a)
}

fn ops<C: CurveGroup>(k: usize, rng: &mut ChaCha12Rng) -> R {
    let (x, y): (C, C) = (pick(k % 9, rng), pick(k / 3 % 9, rng));
    let (u, s): (C::ScalarField, C::ScalarField) = (value(k % 12, rng), value(k / 2 % 12, rng));
    let (a, b, f) = (share(x, k, rng), share(y, k + 1, rng), sharef(s, rng));
    macro_rules! two {
        ($name:literal, $want:expr, |$p:pat_param, $q:pat_param| $e:expr) => {{
            let r: [P<C>; 3] = [0, 1, 2].map(|i| { let ($p, $q) = (a[i], b[i]); $e });
            ensure_eq!(open(&r, $name)?, $want, $name);
        }};
    }
    two!("point + point", x + y, |p, q| p + q);
    two!("point + &point", x + y, |p, q| p + &q);
    two!("&point + &point", x + y, |p, q| &p + &q);
    two!("point += &point", x + y, |mut p, q| { p += &q; p });
    two!("point - point", x - y, |p, q| p - q);
    two!("point - &point", x - y, |p, q| p - &q);
    two!("&point - &point", x - y, |p, q| &p - &q);
    two!("point -= &point", x - y, |mut p, q| { p -= &q; p });
    two!("-point", -x, |p, _| -p);
    two!("&point * scalar", x * u, |p, _| &p * u);
    two!("new of ab", x, |p, _| { let (u, v) = p.ab(); P::new(u, v) });
    two!("default", C::zero(), |_, _| P::default());
    two!("zero_share", C::zero(), |_, _| P::zero_share());
    let m: C = (0..3).map(|i| f[i] * &a[i]).sum();
    ensure_eq!(m, x * s, "sum of the local products of a shared scalar and a shared point");
    Ok(())
}

fn main() {
    let mut h = H::new("C08");
    for k in 0..h.by(150, 1500) {
        h.case("BN254 G1", &format!("k={k}"), move |r| ops::<ark_bn254::G1Projective>(k, r));
        h.case("BN254 G2", &format!("k={k}"), move |r| ops::<ark_bn254::G2Projective>(k, r));
        h.case("BLS12-381 G1", &format!("k={k}"), move |r| ops::<ark_bls12_381::G1Projective>(k, r));
        h.case("Grumpkin", &format!("k={k}"), move |r| ops::<ark_grumpkin::Projective>(k, r));
    }
    h.finish()
}
