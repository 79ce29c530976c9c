//! C24: the Poseidon2 permutation against a matrix-vector reference.
use ark_ff::{One, PrimeField, Zero};
use harness::{H, R, ensure, ensure_eq, fields::*};
use mpc_core::gadgets::poseidon2::*;
use num_bigint::BigUint;
use rand::Rng;
use rand_chacha::ChaCha12Rng;

type Mat<F> = Vec<Vec<F>>;

fn ext_matrix<F: PrimeField>(t: usize) -> Mat<F> {
    let f = |x: u64| F::from(x);
    let m4: [[u64; 4]; 4] = [[5, 7, 1, 3], [4, 6, 1, 1], [1, 3, 5, 7], [1, 1, 4, 6]];
    match t {
        2 | 3 => (0..t).map(|i| (0..t).map(|j| if i == j { f(2) } else { f(1) }).collect()).collect(),
        4 => m4.iter().map(|r| r.iter().map(|x| f(*x)).collect()).collect(),
        _ => (0..t).map(|i| (0..t).map(|j| f(m4[i % 4][j % 4] * if i / 4 == j / 4 { 2 } else { 1 })).collect()).collect(),
    }
}
fn int_matrix<F: PrimeField>(d: &[F]) -> Mat<F> {
    (0..d.len()).map(|i| (0..d.len()).map(|j| if i == j { d[i] + F::one() } else { F::one() }).collect()).collect()
}
fn mul<F: PrimeField>(m: &Mat<F>, x: &[F]) -> Vec<F> {
    m.iter().map(|r| r.iter().zip(x).map(|(a, b)| *a * b).sum()).collect()
}
fn pow<F: PrimeField>(x: F, d: u64) -> F {
    let mut r = F::one();
    for _ in 0..d {
        r *= x;
    }
    r
}
struct Pm<F> {
    fb: usize,
    fe: usize,
    p: usize,
    diag: Vec<F>,
    ext: Vec<Vec<F>>,
    int: Vec<F>,
}
fn reference<F: PrimeField>(p: &Pm<F>, d: u64, x: &[F]) -> Vec<F> {
    let (me, mi) = (ext_matrix::<F>(x.len()), int_matrix(&p.diag));
    let mut s = mul(&me, x);
    let ext = |s: Vec<F>, r: usize| mul(&me, &s.iter().zip(&p.ext[r]).map(|(a, c)| pow(*a + c, d)).collect::<Vec<_>>());
    for r in 0..p.fb {
        s = ext(s, r);
    }
    for r in 0..p.p {
        s[0] = pow(s[0] + p.int[r], d);
        s = mul(&mi, &s);
    }
    for r in p.fb..p.fb + p.fe {
        s = ext(s, r);
    }
    s
}

/// random parameters; the diagonals of the two smallest widths are fixed by the hand-written layers
fn params<F: PrimeField, const T: usize, const D: u64>(k: usize, rng: &mut ChaCha12Rng) -> (Pm<F>, &'static Poseidon2Params<F, T, D>) {
    let (fb, fe, p) = match k % 5 {
        0 => (4, 4, 5),
        1 => (1, 1, 1),
        2 => (0, 0, rng.gen_range(0..4)),
        3 => (2, 2, 0),
        _ => (rng.gen_range(0..3), rng.gen_range(0..3), rng.gen_range(0..8)),
    };
    let diag: [F; T] = core::array::from_fn(|i| match T {
        2 => F::from([1u64, 2][i]),
        3 => F::from([1u64, 1, 2][i]),
        _ => value(rng.gen_range(0..12), rng),
    });
    let ext: Vec<[F; T]> = (0..fb + fe).map(|_| core::array::from_fn(|_| value(rng.gen_range(0..9), rng))).collect();
    let int: Vec<F> = (0..p).map(|_| value(rng.gen_range(0..9), rng)).collect();
    let pm = Pm { fb, fe, p, diag: diag.to_vec(), ext: ext.iter().map(|x| x.to_vec()).collect(), int: int.clone() };
    let pr = Poseidon2Params {
        rounds_f_beginning: fb,
        rounds_f_end: fe,
        rounds_p: p,
        mat_internal_diag_m_1: Box::leak(Box::new(diag)),
        round_constants_external: Box::leak(Box::new(ext)),
        round_constants_internal: Box::leak(Box::new(int)),
    };
    (pm, Box::leak(Box::new(pr)))
}
fn state<F: PrimeField, const T: usize>(k: usize, rng: &mut ChaCha12Rng) -> [F; T] {
    core::array::from_fn(|i| match k {
        0 => F::zero(),
        1 => -F::one(),
        2 => F::from(i as u64),
        k if k < 3 + T => if i == k - 3 { F::one() } else { F::zero() },
        _ => value(rng.gen_range(0..12), rng),
    })
}

fn one<F: PrimeField, const T: usize, const D: u64>(k: usize, rng: &mut ChaCha12Rng) -> R {
    let (pm, pr) = params::<F, T, D>(k, rng);
    let h = Poseidon2::<F, T, D>::new(pr);
    ensure_eq!(h.num_sbox(), (pm.fb + pm.fe) * T + pm.p, "num_sbox");
    for j in 0..8 {
        let x: [F; T] = state(if j == 0 { k } else { usize::MAX }, rng);
        let want = reference(&pm, D, &x);
        ensure_eq!(h.permutation(&x).to_vec(), want.clone(), "permutation of {x:?}");
        let mut s = x;
        h.permutation_in_place(&mut s);
        ensure_eq!(s.to_vec(), want, "permutation_in_place of {x:?}");
    }
    Ok(())
}

#[cfg(feature = "internals")]
fn layers<F: PrimeField, const T: usize, const D: u64>(k: usize, rng: &mut ChaCha12Rng) -> R {
    let (pm, pr) = params::<F, T, D>(k, rng);
    let h = Poseidon2::<F, T, D>::new(pr);
    let x: [F; T] = state(k, rng);
    let mut s = x;
    Poseidon2::<F, T, D>::matmul_external(&mut s);
    ensure_eq!(s.to_vec(), mul(&ext_matrix(T), &x), "external layer of {x:?}");
    let mut s = x;
    h.matmul_internal(&mut s);
    ensure_eq!(s.to_vec(), mul(&int_matrix(&pm.diag), &x), "internal layer of {x:?}");
    Ok(())
}
#[cfg(not(feature = "internals"))]
fn layers<F: PrimeField, const T: usize, const D: u64>(_: usize, _: &mut ChaCha12Rng) -> R {
    Ok(())
}

/// The published parameter generation (Grain LFSR of the Poseidon2 reference script)
fn grain(t: usize, rf: usize, rp: usize) -> Vec<BigUint> {
    let n = 254usize;
    let mut st: Vec<bool> = vec![];
    let mut push = |v: usize, bits: usize| {
        for i in (0..bits).rev() {
            st.push(v >> i & 1 == 1);
        }
    };
    push(1, 2);
    push(0, 4);
    push(n, 12);
    push(t, 12);
    push(rf, 10);
    push(rp, 10);
    push((1 << 30) - 1, 30);
    let mut next = move || {
        let b = st[62] ^ st[51] ^ st[38] ^ st[23] ^ st[13] ^ st[0];
        st.remove(0);
        st.push(b);
        b
    };
    for _ in 0..160 {
        next();
    }
    let p: BigUint = ark_bn254::Fr::MODULUS.into();
    let mut out = vec![];
    while out.len() < rf * t + rp {
        let mut v = BigUint::zero();
        for _ in 0..n {
            while !next() {
                next();
            }
            v = v * 2u32 + next() as u32;
        }
        if v < p {
            out.push(v);
        }
    }
    out
}

fn table<const T: usize>(pr: &Poseidon2Params<ark_bn254::Fr, T, 5>, rp: usize) -> R {
    type Fr = ark_bn254::Fr;
    ensure_eq!((pr.rounds_f_beginning, pr.rounds_f_end, pr.rounds_p), (4, 4, rp), "round numbers");
    let g: Vec<Fr> = grain(T, 8, rp).into_iter().map(Fr::from).collect();
    let ext: Vec<Fr> = pr.round_constants_external.iter().flatten().copied().collect();
    ensure_eq!(ext[..4 * T].to_vec(), g[..4 * T].to_vec(), "first external constants");
    ensure_eq!(pr.round_constants_internal.to_vec(), g[4 * T..4 * T + rp].to_vec(), "internal constants");
    ensure_eq!(ext[4 * T..].to_vec(), g[4 * T + rp..].to_vec(), "last external constants");
    match T {
        2 => ensure_eq!(pr.mat_internal_diag_m_1.to_vec(), [1u64, 2].map(Fr::from).to_vec(), "diagonal"),
        3 => ensure_eq!(pr.mat_internal_diag_m_1.to_vec(), [1u64, 1, 2].map(Fr::from).to_vec(), "diagonal"),
        _ => {
            use sha3::{Digest, Sha3_256};
            let s: String = pr.mat_internal_diag_m_1.iter().map(|x| format!("{x},")).collect();
            let h = format!("{:x}", Sha3_256::digest(s.as_bytes()));
            ensure_eq!(&h[..32], if T == 4 { DIAG4 } else { DIAG16 }, "digest of the diagonal");
        }
    }
    Ok(())
}
const DIAG4: &str = "90ff47b2a5e323220a82ddc4c1ed7b61";
const DIAG16: &str = "3d14fc73d740769ecd84ba690e29ca30";

fn known<const T: usize>(pr: &'static Poseidon2Params<ark_bn254::Fr, T, 5>, k: usize, rng: &mut ChaCha12Rng) -> R {
    let pm = Pm {
        fb: pr.rounds_f_beginning,
        fe: pr.rounds_f_end,
        p: pr.rounds_p,
        diag: pr.mat_internal_diag_m_1.to_vec(),
        ext: pr.round_constants_external.iter().map(|x| x.to_vec()).collect(),
        int: pr.round_constants_internal.to_vec(),
    };
    for h in [Poseidon2::<ark_bn254::Fr, T, 5>::default(), Poseidon2::new(pr)] {
        let x: [ark_bn254::Fr; T] = state(k, rng);
        ensure_eq!(h.permutation(&x).to_vec(), reference(&pm, 5, &x), "BN254 permutation of width {T}");
    }
    Ok(())
}

fn main() {
    let mut h = H::new("C24");
    let runs = h.by(30, 120);
    macro_rules! run {
        ($($f:ident $t:literal $d:literal),*) => {$(
            for k in 0..runs {
                h.case("permutation against the reference", &format!("{} T={} D={} {k}", stringify!($f), $t, $d), move |r| one::<$f, $t, $d>(k, r));
            }
            for k in 0..$t + 6 {
                h.case("linear layers", &format!("{} T={} D={} {k}", stringify!($f), $t, $d), move |r| layers::<$f, $t, $d>(k, r));
            }
        )*};
    }
    run!(Bn 2 5, Bn 3 5, Bn 4 5, Bn 8 5, Bn 12 5, Bn 16 5, Bn 20 5, Bn 24 5,
         Bn 2 3, Bn 3 7, Bn 4 3, Bn 4 7, Bn 4 9, Bn 8 3, Bn 8 11, Bn 12 7, Bn 16 9, Bn 3 1, Bn 4 13, Bn 2 15, Bn 24 17,
         Bls 3 5, Bls 4 5, Bls 4 7, F97 2 5, F97 3 7, F97 4 5, F97 24 3, F12289 4 5, F12289 8 7, F12289 16 11);
    macro_rules! tab {
        ($($t:literal $p:expr, $rp:literal);*) => {$(
            h.case("parameter tables", &format!("T={}", $t), |_| table::<$t>(&$p, $rp));
            for k in 0..runs {
                h.case("BN254 instances", &format!("T={} {k}", $t), move |r| known::<$t>(&$p, k, r));
            }
        )*};
    }
    tab!(2 POSEIDON2_BN254_T2_PARAMS, 56; 3 POSEIDON2_BN254_T3_PARAMS, 56; 4 POSEIDON2_BN254_T4_PARAMS, 56; 16 POSEIDON2_BN254_T16_PARAMS, 57);
    h.case("refused fields", "bls", |_| {
        ensure!(harness::caught(|| Poseidon2::<Bls, 3, 5>::default()).is_err(), "default parameters for a field without them");
        Ok(())
    });
    h.finish()
}
