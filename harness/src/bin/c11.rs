//! C11: wide unsigned integers and field-integer conversion.
use ark_ff::{BigInteger, PrimeField, UniformRand};
use harness::{H, R, caught, ensure, ensure_eq, fields::value};
use mpc_core::uint::{FieldUint, RUint, U256, U320, U384, U512, U1024, UintBackend};
use num_bigint::BigUint;
use num_traits::{AsPrimitive, One, WrappingAdd, WrappingMul, WrappingNeg, WrappingSub, Zero};
use rand::Rng;
use rand_chacha::ChaCha12Rng;

fn big<U: UintBackend>(u: &U) -> BigUint {
    BigUint::from_slice(&u.as_limbs().iter().flat_map(|l| [*l as u32, (*l >> 32) as u32]).collect::<Vec<_>>())
}
fn rnd(k: usize, i: usize, rng: &mut ChaCha12Rng) -> BigUint {
    let one = BigUint::one();
    match i {
        0 => BigUint::zero(),
        1 => one,
        2 => (&one << k) - 1u32,
        3 => &one << (k - 1),
        4 => (&one << (k - 1)) - 1u32,
        5 => &one << 64,
        6 => (&one << 64) - 1u32,
        7 => (&one << k) - (&one << 64),
        8 => BigUint::from(2u32),
        9 => (&one << 128) - 1u32,
        _ => {
            let n = rng.gen_range(1..=k);
            BigUint::from_bytes_le(&(0..k / 8).map(|_| rng.r#gen()).collect::<Vec<u8>>()) >> (k - n)
        }
    }
}

fn ops<const B: usize, const L: usize>(i: usize, j: usize, rng: &mut ChaCha12Rng) -> R {
    type U<const B: usize, const L: usize> = RUint<B, L>;
    let (x, y) = (rnd(B, i, rng), rnd(B, j, rng));
    let m = BigUint::one() << B;
    let of = |b: &BigUint| U::<B, L>::from_limbs_truncating(&b.to_u64_digits());
    let (a, b) = (of(&x), of(&y));
    macro_rules! is {
        ($n:expr, $e:expr, $w:expr) => {{ let g: U<B, L> = $e; ensure_eq!(big(&g), $w, "{} on {x}, {y} in {B} bits", $n); }};
    }
    macro_rules! asg {
        ($op:tt, $r:expr) => {{ let mut z = a; z $op $r; z }};
    }
    is!("value", a, x.clone());
    is!("&", a & b, &x & &y);
    is!("&=", asg!(&=, b), &x & &y);
    is!("|", a | b, &x | &y);
    is!("|=", asg!(|=, b), &x | &y);
    is!("^", a ^ b, &x ^ &y);
    is!("^=", asg!(^=, b), &x ^ &y);
    is!("!", !a, &m - 1u32 - &x);
    is!("+", a + b, (&x + &y) % &m);
    is!("+=", asg!(+=, b), (&x + &y) % &m);
    is!("wrapping_add", WrappingAdd::wrapping_add(&a, &b), (&x + &y) % &m);
    is!("-", a - b, (&x + &m - &y) % &m);
    is!("-=", asg!(-=, b), (&x + &m - &y) % &m);
    is!("wrapping_sub", WrappingSub::wrapping_sub(&a, &b), (&x + &m - &y) % &m);
    is!("*", a * b, (&x * &y) % &m);
    is!("wrapping_mul", WrappingMul::wrapping_mul(&a, &b), (&x * &y) % &m);
    is!("neg", -a, (&m - &x) % &m);
    is!("wrapping_neg", WrappingNeg::wrapping_neg(&a), (&m - &x) % &m);
    if !y.is_zero() {
        is!("/", a / b, &x / &y);
        is!("/=", asg!(/=, b), &x / &y);
        is!("%", a % b, &x % &y);
        is!("%=", asg!(%=, b), &x % &y);
    } else {
        ensure!(caught(|| a / b).is_err() && caught(|| a % b).is_err(), "division by zero gave a value");
    }
    let mut shifts = vec![0, 1, 2, 31, 32, 63, 64, 65, 127, 128, B / 2, B - 65, B - 64, B - 1, B, B + 1, 2 * B, usize::MAX];
    shifts.push(rng.gen_range(0..B));
    for s in shifts {
        let (l, r) = if s >= B { (BigUint::zero(), BigUint::zero()) } else { ((&x << s) % &m, &x >> s) };
        is!(format!("<< {s}"), a << s, l.clone());
        is!(format!(">> {s}"), a >> s, r.clone());
        is!(format!("<<= {s}"), asg!(<<=, s), l);
        is!(format!(">>= {s}"), asg!(>>=, s), r);
        if s < B {
            ensure_eq!(a.bit(s), x.bit(s as u64), "bit {s} of {x}");
            for v in [false, true] {
                let mut z = a;
                z.set_bit(s, v);
                let mut w = x.clone();
                w.set_bit(s as u64, v);
                ensure_eq!(big(&z), w, "bit {s} of {x} set to {v}");
            }
        }
        if s <= B {
            is!(format!("mask {s}"), U::<B, L>::mask(s), (BigUint::one() << s) - 1u32);
            let u = U::<B, L>::random_bits(rng, s);
            ensure!(big(&u).bits() as usize <= s, "random_bits({s}) gave {u}");
        } else {
            ensure!(caught(|| U::<B, L>::mask(s)).is_err(), "a mask of {s} bits in {B}");
        }
    }
    ensure_eq!(a.bit_len() as u64, x.bits(), "bit_len of {x}");
    ensure_eq!(a.cmp(&b), x.cmp(&y), "comparing {x} and {y}");
    ensure_eq!(a == b, x == y, "comparing {x} and {y}");
    ensure_eq!(a.is_zero(), x.is_zero(), "is_zero");
    ensure!(Zero::is_zero(&<U<B, L> as Zero>::zero()) && U::<B, L>::zero() == <U<B, L> as Default>::default() && big(&U::<B, L>::one()).is_one(), "zero and one");
    ensure_eq!(BigUint::from(a), x, "to a big integer");
    ensure_eq!(BigUint::from(&a), x, "to a big integer by reference");
    ensure_eq!(U::<B, L>::try_from(&x).ok(), Some(a), "from a big integer");
    for over in [&x + &m, (&m << 64) + &x, m.clone()] {
        ensure!(U::<B, L>::try_from(&over).is_err(), "{over} fitted {B} bits");
    }
    ensure_eq!(a.try_to_usize(), usize::try_from(&x).ok(), "to usize");
    ensure_eq!(usize::try_from(a).ok(), usize::try_from(&x).ok(), "TryFrom to usize");
    ensure_eq!(a.to_u64_truncating(), a.as_limbs()[0], "low word");
    let v: u128 = a.as_();
    ensure_eq!(BigUint::from(v), &x % (BigUint::one() << 128), "low 128 bits");
    is!("from u64", U::<B, L>::from(a.as_limbs()[0]), BigUint::from(a.as_limbs()[0]));
    is!("from u128", U::<B, L>::from(v), BigUint::from(v));
    is!("from bool", U::<B, L>::from(i % 2 == 0), BigUint::from((i % 2 == 0) as u8));
    let mut hex = x.to_str_radix(16);
    hex = "0".repeat(B / 4 - hex.len()) + &hex;
    ensure_eq!(a.to_string(), format!("0x{hex}"), "printed");
    ensure_eq!(a.as_limbs().len(), L, "limb count");
    for n in 0..L + 3 {
        let l: Vec<u64> = (0..n).map(|_| rng.r#gen()).collect();
        let mut want = l.clone();
        want.resize(L, 0);
        let w = U::<B, L>::from_limbs_truncating(&l);
        ensure_eq!(w.as_limbs(), &want[..], "from {n} limbs");
    }
    let mut out = vec![0; L * 8];
    a.to_le_bytes_into(&mut out);
    let mut want = x.to_bytes_le();
    want.resize(L * 8, 0);
    ensure_eq!(out, want, "little-endian bytes");
    ensure_eq!(U::<B, L>::from_le_bytes(&out), a, "from little-endian bytes");
    let bi: ark_ff::BigInt<L> = a.into();
    ensure_eq!(&bi.0[..], a.as_limbs(), "to a field big integer");
    ensure_eq!(U::<B, L>::from(bi), a, "from a field big integer");
    Ok(())
}

fn field<F: FieldUint>(k: usize, rng: &mut ChaCha12Rng) -> R {
    let x: F = value(k, rng);
    let u = x.to_uint();
    let n: BigUint = x.into_bigint().into();
    let p: BigUint = F::MODULUS.into();
    ensure_eq!(big(&u), n, "integer of {x}");
    ensure_eq!(F::from_uint_unchecked(&u), x, "{x} back from its integer");
    ensure_eq!(F::from_uint_reduced(&u), x, "{x} back from its integer, reducing");
    ensure_eq!(big(&F::modulus_uint()), p, "modulus");
    let bits = F::Uint::BITS;
    let mut all = vec![p.clone(), &p - 1u32, &p + 1u32, &p * 2u32, &p * 2u32 - 1u32, (BigUint::one() << bits) - 1u32, BigUint::one() << (bits - 1), BigUint::one() << 64];
    for _ in 0..6 {
        let s = rng.gen_range(0..bits);
        all.push(big(&(F::Uint::random_bits(rng, bits) >> s)));
    }
    all.push(big(&F::Uint::from(F::rand(rng).into_bigint().to_bits_le()[0])));
    for v in all {
        if v.bits() as usize > bits {
            continue;
        }
        let w = F::Uint::from_limbs_truncating(&v.to_u64_digits());
        ensure_eq!(F::from_uint_reduced(&w), F::from(v.clone()), "{v} reduced");
        if v < p {
            ensure_eq!(F::from_uint_unchecked(&w), F::from(v.clone()), "{v} converted");
            ensure_eq!(big(&F::from_uint_unchecked(&w).to_uint()), v, "{v} converted and back");
        } else if v.bits() as usize <= F::BigInt::NUM_LIMBS * 64 {
            ensure!(caught(|| F::from_uint_unchecked(&w)).is_err(), "{v} is not below the modulus but converted");
        }
    }
    ensure!(F::Uint::BITS >= F::MODULUS_BIT_SIZE as usize + 2, "width contract");
    Ok(())
}
fn main() {
    let mut h = H::new("C11");
    for i in 0..h.by(22, 120) {
        for j in 0..h.by(14, 60) {
            h.case("256", &format!("i={i} j={j}"), move |r| ops::<256, 4>(i, j, r));
            h.case("320", &format!("i={i} j={j}"), move |r| ops::<320, 5>(i, j, r));
            h.case("384", &format!("i={i} j={j}"), move |r| ops::<384, 6>(i, j, r));
            h.case("512", &format!("i={i} j={j}"), move |r| ops::<512, 8>(i, j, r));
            h.case("1024", &format!("i={i} j={j}"), move |r| ops::<1024, 16>(i, j, r));
        }
    }
    for k in 0..h.by(40, 600) {
        h.case("bn254 Fr", &format!("k={k}"), move |r| field::<ark_bn254::Fr>(k, r));
        h.case("bn254 Fq", &format!("k={k}"), move |r| field::<ark_bn254::Fq>(k, r));
        h.case("bls12-381 Fr", &format!("k={k}"), move |r| field::<ark_bls12_381::Fr>(k, r));
        h.case("bls12-381 Fq", &format!("k={k}"), move |r| field::<ark_bls12_381::Fq>(k, r));
        h.case("bls12-377 Fr", &format!("k={k}"), move |r| field::<ark_bls12_377::Fr>(k, r));
        h.case("bls12-377 Fq", &format!("k={k}"), move |r| field::<ark_bls12_377::Fq>(k, r));
    }
    let _ = (U256::BITS, U320::BITS, U384::BITS, U512::BITS, U1024::BITS);
    h.finish()
}
