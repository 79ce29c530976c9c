//! C06: local operations on replicated field shares commute with reconstruction.
use ark_ff::{PrimeField, UniformRand, Zero};
use harness::{H, R, caught, ensure, ensure_eq, fields::*};
use mpc_core::protocols::rep3::{Rep3PrimeFieldShare as S, id::PartyID};
use rand_chacha::ChaCha12Rng;

const IDS: [PartyID; 3] = [PartyID::ID0, PartyID::ID1, PartyID::ID2];

fn share<F: PrimeField>(x: F, k: usize, rng: &mut ChaCha12Rng) -> [S<F>; 3] {
    let (p, q): (F, F) = if k % 3 == 0 { (value(k / 3, rng), value(k / 7, rng)) } else { (F::rand(rng), F::rand(rng)) };
    let v = [p, q, x - p - q];
    [0, 1, 2].map(|i| S { a: v[i], b: v[(i + 2) % 3] })
}
fn open<F: PrimeField>(s: &[S<F>; 3], what: &str) -> Result<F, String> {
    for i in 0..3 {
        ensure_eq!(s[(i + 1) % 3].b, s[i].a, "{what}: party {}'s second component", (i + 1) % 3);
    }
    Ok(s[0].a + s[1].a + s[2].a)
}

fn field<F: PrimeField>(k: usize, rng: &mut ChaCha12Rng) -> R {
    let (x, y, c): (F, F, F) = (value(k % 20, rng), value(k / 3 % 20, rng), value((k / 2 + 1) % 20, rng));
    let (a, b) = (share(x, k, rng), share(y, k + 1, rng));
    macro_rules! two {
        ($name:literal, $want:expr, |$p:pat_param, $q:pat_param| $e:expr) => {{
            let r: [S<F>; 3] = [0, 1, 2].map(|i| { let ($p, $q) = (a[i], b[i]); $e });
            ensure_eq!(open(&r, $name)?, $want, $name);
        }};
    }
    two!("share + share", x + y, |p, q| p + q);
    two!("&share + &share", x + y, |p, q| &p + &q);
    two!("share += share", x + y, |mut p, q| { p += q; p });
    two!("share += &share", x + y, |mut p, q| { p += &q; p });
    two!("share - share", x - y, |p, q| p - q);
    two!("&share - &share", x - y, |p, q| &p - &q);
    two!("share -= share", x - y, |mut p, q| { p -= q; p });
    two!("share * public", x * c, |p, _| p * c);
    two!("&share * public", x * c, |p, _| &p * c);
    two!("share *= public", x * c, |mut p, _| { p *= c; p });
    two!("-share", -x, |p, _| -p);
    two!("double", x + x, |p, _| p.double());
    two!("double_in_place", x + x, |mut p, _| { p.double_in_place(); p });
    two!("new of ab", x, |p, _| { let (u, v) = p.ab(); S::new(u, v) });
    two!("default", F::zero(), |_, _| S::default());
    two!("zero_share", F::zero(), |_, _| S::zero_share());
    two!("Zero::zero", F::zero(), |_, _| <S<F> as Zero>::zero());
    // the parties' local products add up to the product
    let m: F = (0..3).map(|i| a[i] * b[i]).sum();
    ensure_eq!(m, x * y, "sum of local products");
    let m: F = (0..3).map(|i| &a[i] * &b[i]).sum();
    ensure_eq!(m, x * y, "sum of local products by reference");
    let m: F = (0..3).map(|i| a[i] * a[i]).sum();
    ensure_eq!(m, x * x, "sum of local squares");
    let r = IDS.map(|id| S::promote_from_trivial(&c, id));
    ensure_eq!(open(&r, "promote_from_trivial")?, c, "promote_from_trivial");
    let r = IDS.map(|id| S::promote_from_trivial_with_scalar(&c, &y, id));
    ensure_eq!(open(&r, "promote_from_trivial_with_scalar")?, c, "promote_from_trivial_with_scalar");
    ensure_eq!(a[1].ab(), (a[1].a, a[1].b), "ab");
    Ok(())
}

fn ids() -> R {
    for (i, id) in IDS.iter().enumerate() {
        ensure_eq!(id.next(), IDS[(i + 1) % 3], "next of {i}");
        ensure_eq!(id.prev(), IDS[(i + 2) % 3], "prev of {i}");
        ensure_eq!(usize::from(*id), i, "number of {i}");
        ensure_eq!(format!("{id}"), i.to_string(), "printed {i}");
    }
    for n in (0..=600usize).chain([1 << 16, (1 << 32) + 1, usize::MAX, usize::MAX - 1]) {
        let got = PartyID::try_from(n).ok();
        ensure_eq!(got, IDS.get(n).copied(), "id from usize {n}");
    }
    for n in 0..=255u8 {
        let got = PartyID::try_from(n).ok();
        ensure_eq!(got, IDS.get(n as usize).copied(), "id from u8 {n}");
    }
    Ok(())
}

fn main() {
    let mut h = H::new("C06");
    h.case("party ids", "all", |_| ids());
    h.case("zero test", "refused", |_| {
        ensure!(caught(|| S::<Bn>::zero_share().is_zero()).is_err(), "is_zero of a share gave a value");
        Ok(())
    });
    for k in 0..h.by(600, 6000) {
        h.case("F97", &format!("k={k}"), move |r| field::<F97>(k, r));
        h.case("Bn254", &format!("k={k}"), move |r| field::<Bn>(k, r));
        h.case("BLS12-381", &format!("k={k}"), move |r| field::<Bls>(k, r));
    }
    // exhaustive over a small field: both operands, the constant and the sharing of each
    for x in 0..5u64 {
        for y in 0..5u64 {
            h.case("F5 exhaustive", &format!("x={x} y={y}"), move |_| {
                for p in 0..125u64 {
                    let mk = |x: u64, p: u64| {
                        let v = [F5::from(p % 5), F5::from(p / 5), F5::from(x) - F5::from(p % 5) - F5::from(p / 5)];
                        [0, 1, 2].map(|i| S { a: v[i], b: v[(i + 2) % 3] })
                    };
                    let (a, b) = (mk(x, p % 25), mk(y, (p * 7 + p / 25) % 25));
                    let (fx, fy) = (F5::from(x), F5::from(y));
                    ensure_eq!(open(&[0, 1, 2].map(|i| a[i] + b[i]), "+")?, fx + fy, "+ with sharing {p}");
                    ensure_eq!(open(&[0, 1, 2].map(|i| a[i] - b[i]), "-")?, fx - fy, "- with sharing {p}");
                    ensure_eq!(open(&[0, 1, 2].map(|i| a[i] * fy), "*")?, fx * fy, "* with sharing {p}");
                    ensure_eq!((0..3).map(|i| a[i] * b[i]).sum::<F5>(), fx * fy, "local products with sharing {p}");
                }
                Ok(())
            });
        }
    }
    h.finish()
}
