//! C09: ring elements compute exactly modulo 2^k.
use harness::{H, R, ensure, ensure_eq};
use mpc_core::protocols::rep3_ring::ring::{bit::Bit, int_ring::{IntRing2k, U512, U1024}, ring_impl::RingElement as E};
use mpc_core::uint::UintBackend;
use num_bigint::BigUint;
use num_traits::{One, WrappingAdd, WrappingMul, WrappingNeg, WrappingSub, Zero};
use rand::Rng;
use rand_chacha::ChaCha12Rng;

trait Ring: IntRing2k + Ord {
    fn big(self) -> BigUint;
    fn of(b: &BigUint) -> Self;
}
impl Ring for Bit {
    fn big(self) -> BigUint { BigUint::from(self.convert() as u8) }
    fn of(b: &BigUint) -> Self { Bit::new(b.bit(0)) }
}
macro_rules! ring {
    ($($t:ty),*) => {$(impl Ring for $t {
        fn big(self) -> BigUint { BigUint::from(self) }
        fn of(b: &BigUint) -> Self { (b % (BigUint::one() << <$t>::BITS)).try_into().unwrap() }
    })*};
}
ring!(u8, u16, u32, u64, u128);
macro_rules! wide {
    ($($t:ty),*) => {$(impl Ring for $t {
        fn big(self) -> BigUint { BigUint::from_slice(&self.as_limbs().iter().flat_map(|l| [*l as u32, (*l >> 32) as u32]).collect::<Vec<_>>()) }
        fn of(b: &BigUint) -> Self { <$t>::from_limbs_truncating(&b.to_u64_digits()) }
    })*};
}
wide!(U512, U1024);

fn pair<T: Ring>(x: &BigUint, y: &BigUint, shifts: &[usize]) -> R {
    let k = T::K;
    let m = BigUint::one() << k;
    let (x, y) = (x % &m, y % &m);
    let (a, b) = (T::of(&x), T::of(&y));
    let (p, q) = (E(a), E(b));
    macro_rules! is {
        ($want:expr, $($name:literal, $e:expr);* $(;)?) => {{
            let want: BigUint = $want;
            $(let got: E<T> = $e; ensure_eq!(got.0.big(), want, "{} on {x}, {y} mod 2^{k}", $name);)*
        }};
    }
    macro_rules! asg {
        ($op:tt, $r:expr) => {{ let mut z = p; z $op $r; z }};
    }
    is!((&x + &y) % &m, "+", p + q; "+&", p + &q; "+=", asg!(+=, q); "+=&", asg!(+=, &q);
        "wrapping_add", E(WrappingAdd::wrapping_add(&a, &b)); "wrapping_add_assign", { let mut z = a; z.wrapping_add_assign(&b); E(z) });
    is!((&x + &m - &y) % &m, "-", p - q; "-&", p - &q; "-=", asg!(-=, q); "-=&", asg!(-=, &q);
        "wrapping_sub", E(WrappingSub::wrapping_sub(&a, &b)); "wrapping_sub_assign", { let mut z = a; z.wrapping_sub_assign(&b); E(z) });
    is!((&x * &y) % &m, "*", p * q; "*&", p * &q; "*=", asg!(*=, q); "*=&", asg!(*=, &q); "*T", p * b; "*&T", p * &b; "*=T", asg!(*=, b); "*=&T", asg!(*=, &b);
        "wrapping_mul", E(WrappingMul::wrapping_mul(&a, &b)); "wrapping_mul_assign", { let mut z = a; z.wrapping_mul_assign(&b); E(z) });
    is!(&x & &y, "&", p & q; "&&", p & &q; "&=", asg!(&=, q); "&=&", asg!(&=, &q));
    is!(&x | &y, "|", p | q; "|&", p | &q; "|=", asg!(|=, q); "|=&", asg!(|=, &q));
    is!(&x ^ &y, "^", p ^ q; "^&", p ^ &q; "^=", asg!(^=, q); "^=&", asg!(^=, &q));
    is!((&m - &x) % &m, "neg", -p; "wrapping_neg", E(WrappingNeg::wrapping_neg(&a)); "wrapping_neg_inplace", { let mut z = a; z.wrapping_neg_inplace(); E(z) });
    is!(&m - BigUint::one() - &x, "!", !p; "!&", !&p);
    is!(x.clone(), "from", E::from(a); "convert", E(p.convert()); "* one", p * E::one(); "+ zero", p + E::zero());
    for &s in shifts {
        let l = if s >= k { BigUint::zero() } else { (&x << s) % &m };
        let r = if s >= k { BigUint::zero() } else { &x >> s };
        ensure_eq!((p << s).0.big(), l, "{x} << {s} mod 2^{k}");
        ensure_eq!((p >> s).0.big(), r, "{x} >> {s} mod 2^{k}");
        ensure_eq!(asg!(<<=, s).0.big(), l, "{x} <<= {s} mod 2^{k}");
        ensure_eq!(asg!(>>=, s).0.big(), r, "{x} >>= {s} mod 2^{k}");
        if s < k {
            ensure_eq!(p.get_bit(s).0.big(), BigUint::from(x.bit(s as u64) as u8), "bit {s} of {x}");
        }
    }
    ensure_eq!(p.cmp(&q), x.cmp(&y), "comparing {x} and {y}");
    ensure_eq!(p.partial_cmp(&q), Some(x.cmp(&y)), "partially comparing {x} and {y}");
    ensure!((p == q) == (x == y) && (p != q) == (x != y) && (p < q) == (x < y) && (p <= q) == (x <= y) && (p > q) == (x > y) && (p >= q) == (x >= y), "comparing {x} and {y}");
    ensure_eq!(p.is_zero(), x.is_zero(), "is_zero of {x}");
    ensure_eq!(p.bits() as u64, x.bits(), "bits of {x}");
    ensure_eq!(a.bits() as u64, x.bits(), "bits of {x}");
    ensure_eq!(format!("{p}"), format!("{a}"), "printing");
    if k <= 128 {
        ensure_eq!(format!("{p}"), x.to_string(), "printing {x}");
    }
    Ok(())
}

fn edge(k: usize, i: usize, rng: &mut ChaCha12Rng) -> BigUint {
    let one = BigUint::one();
    match i {
        0 => BigUint::zero(),
        1 => one,
        2 => (&one << k) - 1u32,
        3 => &one << (k - 1),
        4 => (&one << (k - 1)) - 1u32,
        5 => &one << (k / 2),
        6 => (&one << (k / 2)) - 1u32,
        7 => (&one << k) - (&one << (k / 2)),
        8 => BigUint::from(2u32),
        9 => BigUint::from(3u32),
        10 => (&one << k) - 2u32 * (k > 1) as u32,
        _ => {
            let n = rng.gen_range(1..=k);
            BigUint::from_bytes_le(&(0..k.div_ceil(8)).map(|_| rng.r#gen()).collect::<Vec<u8>>()) >> (k.div_ceil(8) * 8 - n)
        }
    }
}
fn many<T: Ring>(i: usize, n: usize, rng: &mut ChaCha12Rng) -> R {
    let k = T::K;
    let mut shifts = vec![0, 1, k / 2, k - 1, k, k + 1, 2 * k, 7, 8, 9, 31, 32, 33, 63, 64, 65, 127, 128, 129, usize::MAX];
    shifts.push(rng.gen_range(0..2 * k));
    for j in 0..n {
        pair::<T>(&edge(k, i, rng), &edge(k, j, rng), &shifts)?;
    }
    Ok(())
}

fn main() {
    let mut h = H::new("C09");
    h.case("bit", "all", |_| {
        for x in 0..2u32 {
            for y in 0..2u32 {
                pair::<Bit>(&x.into(), &y.into(), &[0, 1, 2, 3, 64, usize::MAX])?;
                let (p, q) = (x == 1, y == 1);
                let (a, b) = (Bit::new(p), Bit::new(q));
                for (n, g, w) in [("+", a + b, p ^ q), ("+&", a + &b, p ^ q), ("-", a - b, p ^ q), ("-&", a - &b, p ^ q), ("*", a * b, p & q), ("*&", a * &b, p & q),
                    ("^", a ^ b, p ^ q), ("^&", a ^ &b, p ^ q), ("&", a & b, p & q), ("&&", a & &b, p & q), ("|", a | b, p | q), ("|&", a | &b, p | q), ("!", !a, !p), ("-", -a, p)] {
                    ensure_eq!(g.convert(), w, "bit {n} on {p}, {q}");
                }
                let (mut c, mut d, mut e) = (a, a, a);
                c ^= &b; d &= &b; e |= &b;
                ensure_eq!((c.convert(), d.convert(), e.convert()), (p ^ q, p & q, p | q), "bit assign forms");
                let (mut c, mut d, mut e) = (a, a, a);
                c ^= b; d &= b; e |= b;
                ensure_eq!((c.convert(), d.convert(), e.convert()), (p ^ q, p & q, p | q), "bit assign forms");
            }
        }
        Ok(())
    });
    for x in 0..256u32 {
        h.case("u8 exhaustive", &format!("x={x}"), move |_| {
            for y in 0..256u32 {
                pair::<u8>(&x.into(), &y.into(), &[y as usize % 18, usize::MAX - y as usize])?;
            }
            Ok(())
        });
    }
    for i in 0..h.by(60, 2000) {
        h.case("u16", &format!("i={i}"), move |r| many::<u16>(i, 60, r));
        h.case("u32", &format!("i={i}"), move |r| many::<u32>(i, 60, r));
        h.case("u64", &format!("i={i}"), move |r| many::<u64>(i, 60, r));
        h.case("u128", &format!("i={i}"), move |r| many::<u128>(i, 60, r));
        h.case("u512", &format!("i={i}"), move |r| many::<U512>(i, 20, r));
        h.case("u1024", &format!("i={i}"), move |r| many::<U1024>(i, 20, r));
    }
    h.finish()
}
