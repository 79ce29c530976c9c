//! C07: local bit operations on replicated binary shares commute with reconstruction.
use harness::{H, R, ensure_eq, fields::*};
use mpc_core::{protocols::rep3::Rep3UintShare as S, uint::{FieldUint, UintBackend}};
use rand::Rng;
use rand_chacha::ChaCha12Rng;

fn pick<U: UintBackend>(k: usize, rng: &mut ChaCha12Rng) -> U {
    match k {
        0 => U::zero(),
        1 => U::one(),
        2 => !U::zero(),
        3 => U::mask(U::BITS - 1),
        4 => U::one() << (U::BITS - 1),
        5 => U::mask(64),
        6 => !U::mask(64),
        7 => U::one() << 64,
        _ => {
            let n = rng.gen_range(0..=U::BITS);
            let x = U::random_bits(rng, U::BITS);
            if n % 2 == 0 { x } else { x >> n.min(U::BITS - 1) }
        }
    }
}
fn share<F: FieldUint>(x: F::Uint, k: usize, rng: &mut ChaCha12Rng) -> [S<F>; 3] {
    let (p, q): (F::Uint, F::Uint) = (pick(k % 11, rng), pick(k / 3 % 13, rng));
    let v = [p, q, x ^ p ^ q];
    [0, 1, 2].map(|i| S::new(v[i], v[(i + 2) % 3]))
}
fn open<F: FieldUint>(s: &[S<F>; 3], what: &str) -> Result<F::Uint, String> {
    for i in 0..3 {
        ensure_eq!(s[(i + 1) % 3].b, s[i].a, "{what}: party {}'s second component", (i + 1) % 3);
    }
    Ok(s[0].a ^ s[1].a ^ s[2].a)
}
fn bits<U: UintBackend>(x: &U) -> Vec<bool> {
    let l = x.as_limbs();
    (0..U::BITS).map(|i| l[i / 64] >> (i % 64) & 1 == 1).collect()
}

fn ops<F: FieldUint>(k: usize, rng: &mut ChaCha12Rng) -> R {
    let (x, y, c): (F::Uint, F::Uint, F::Uint) = (pick(k % 20, rng), pick(k / 3 % 20, rng), pick((k / 2 + 1) % 20, rng));
    let (a, b) = (share::<F>(x, k, rng), share::<F>(y, k + 1, rng));
    let n = F::Uint::BITS;
    let (bx, by, bc) = (bits(&x), bits(&y), bits(&c));
    macro_rules! two {
        ($name:expr, $want:expr, |$p:pat_param, $q:pat_param| $e:expr) => {{
            let r: [S<F>; 3] = [0, 1, 2].map(|i| { let ($p, $q) = (a[i], b[i]); $e });
            let want: Vec<bool> = (0..n).map($want).collect();
            ensure_eq!(bits(&open(&r, &$name)?), want, "{}", $name);
        }};
    }
    two!("share ^ share", |i| bx[i] ^ by[i], |p, q| p ^ q);
    two!("&share ^ &share", |i| bx[i] ^ by[i], |p, q| &p ^ &q);
    two!("share ^= share", |i| bx[i] ^ by[i], |mut p, q| { p ^= q; p });
    two!("share ^= &share", |i| bx[i] ^ by[i], |mut p, q| { p ^= &q; p });
    two!("and_mask", |i| bx[i] & bc[i], |p, _| p.and_mask(&c));
    two!("and_mask_assign", |i| bx[i] & bc[i], |mut p, _| { p.and_mask_assign(&c); p });
    two!("xor_mask", |i| bx[i] ^ bc[i], |p, _| p.xor_mask(&c));
    two!("xor_mask_assign", |i| bx[i] ^ bc[i], |mut p, _| { p.xor_mask_assign(&c); p });
    two!("new of ab", |i| bx[i], |p, _| { let (u, v) = p.ab(); S::new(u, v) });
    two!("default", |_| false, |_, _| S::default());
    two!("zero_share", |_| false, |_, _| S::zero_share());
    let mut shifts = vec![0, 1, 2, 31, 32, 63, 64, 65, 127, 128, n / 2, n - 2, n - 1, n, n + 1, 2 * n, usize::MAX];
    shifts.push(rng.gen_range(0..n));
    shifts.push(rng.gen_range(0..n));
    for s in shifts {
        two!(format!("share << {s}"), |i| i >= s && bx[i - s], |p, _| p << s);
        two!(format!("&share << {s}"), |i| i >= s && bx[i - s], |p, _| &p << s);
        two!(format!("share <<= {s}"), |i| i >= s && bx[i - s], |mut p, _| { p <<= s; p });
        two!(format!("share >> {s}"), |i| s < n && i + s < n && bx[i + s], |p, _| p >> s);
        two!(format!("&share >> {s}"), |i| s < n && i + s < n && bx[i + s], |p, _| &p >> s);
        // one bit of the secret
        two!(format!("bit {s}"), |i| i == 0 && s < n && bx[s], |p, _| (p >> s).and_mask(&F::Uint::from(1u64)));
    }
    // the parties' local conjunctions XOR to the conjunction
    let m = (a[0] & b[0]) ^ (a[1] & b[1]) ^ (a[2] & b[2]);
    ensure_eq!(bits(&m), (0..n).map(|i| bx[i] & by[i]).collect::<Vec<_>>(), "local conjunctions");
    let m = (&a[0] & &b[0]) ^ (&a[1] & &b[1]) ^ (&a[2] & &b[2]);
    ensure_eq!(bits(&m), (0..n).map(|i| bx[i] & by[i]).collect::<Vec<_>>(), "local conjunctions by reference");
    Ok(())
}

fn main() {
    let mut h = H::new("C07");
    for k in 0..h.by(260, 3000) {
        h.case("BN254 uints", &format!("k={k}"), move |r| ops::<Bn>(k, r));
        h.case("BN254 base uints", &format!("k={k}"), move |r| ops::<ark_bn254::Fq>(k, r));
        h.case("BLS12-381 uints", &format!("k={k}"), move |r| ops::<Bls>(k, r));
    }
    h.finish()
}
