//! Contracts of the ring and wide-integer types, checked by Kani for every operand (no bound on values; loops run
//! over the fixed number of limbs only, with unwinding assertions on).
use crate::protocols::rep3_ring::ring::{bit::Bit, int_ring::IntRing2k, ring_impl::RingElement as R};
use crate::uint::{RUint, U256, U320, U384, U512, UintBackend};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use num_traits::{AsPrimitive, One, WrappingAdd, WrappingMul, WrappingNeg, WrappingSub, Zero};

fn anybit() -> Bit {
    Bit::new(kani::any())
}

// ------------------------------------------------------------------ C09
macro_rules! c09 {
    ($m:ident, $t:ty, $any:expr, $k:literal, $add:expr, $sub:expr, $mul:expr, $neg:expr) => {
        mod $m {
            use super::*;
            #[kani::proof]
            fn c09_add() {
                let (a, b): ($t, $t) = ($any, $any);
                let w: $t = ($add)(a, b);
                assert!(R(a) + R(b) == R(w));
                assert!(R(a) + &R(b) == R(w));
                let mut x = R(a);
                x += R(b);
                assert!(x == R(w));
                let mut x = R(a);
                x += &R(b);
                assert!(x == R(w));
                assert!(WrappingAdd::wrapping_add(&a, &b) == w);
                let mut x = a;
                x.wrapping_add_assign(&b);
                assert!(x == w);
                kani::cover!(a != w && b != w);
            }
            #[kani::proof]
            fn c09_sub() {
                let (a, b): ($t, $t) = ($any, $any);
                let w: $t = ($sub)(a, b);
                assert!(R(a) - R(b) == R(w));
                assert!(R(a) - &R(b) == R(w));
                let mut x = R(a);
                x -= R(b);
                assert!(x == R(w));
                let mut x = R(a);
                x -= &R(b);
                assert!(x == R(w));
                assert!(WrappingSub::wrapping_sub(&a, &b) == w);
                let mut x = a;
                x.wrapping_sub_assign(&b);
                assert!(x == w);
            }
            #[kani::proof]
            #[kani::solver(z3)]
            fn c09_mul() {
                let (a, b): ($t, $t) = ($any, $any);
                let w: $t = ($mul)(a, b);
                assert!(R(a) * R(b) == R(w));
                assert!(R(a) * &R(b) == R(w));
                assert!(R(a) * b == R(w));
                assert!(R(a) * &b == R(w));
                let mut x = R(a);
                x *= R(b);
                assert!(x == R(w));
                let mut x = R(a);
                x *= &R(b);
                assert!(x == R(w));
                let mut x = R(a);
                x *= b;
                assert!(x == R(w));
                let mut x = R(a);
                x *= &b;
                assert!(x == R(w));
                assert!(WrappingMul::wrapping_mul(&a, &b) == w);
                let mut x = a;
                x.wrapping_mul_assign(&b);
                assert!(x == w);
            }
            #[kani::proof]
            fn c09_neg_not() {
                let a: $t = $any;
                let w: $t = ($neg)(a);
                assert!(-R(a) == R(w));
                assert!(WrappingNeg::wrapping_neg(&a) == w);
                let mut x = a;
                x.wrapping_neg_inplace();
                assert!(x == w);
                assert!(R(a) + -R(a) == R::zero());
                // not a = -a - 1
                assert!(!R(a) == R(w) - R::one());
                assert!(!&R(a) == R(w) - R::one());
                assert!(R::<$t>::zero().is_zero() && !R::<$t>::one().is_zero());
                assert!(R(a).is_zero() == (R(a) == R::zero()));
                assert!(R(a) * R::one() == R(a));
                assert!(R::from(a) == R(a) && R(a).convert() == a);
            }
            #[kani::proof]
            fn c09_bitwise() {
                let (a, b): ($t, $t) = ($any, $any);
                // bit by bit, through the widest integer
                let (u, v): (u128, u128) = (a.as_(), b.as_());
                let val = |x: R<$t>| -> u128 { x.0.as_() };
                assert!(val(R(a) ^ R(b)) == u ^ v && val(R(a) & R(b)) == u & v && val(R(a) | R(b)) == u | v);
                assert!(val(R(a) ^ &R(b)) == u ^ v && val(R(a) & &R(b)) == u & v && val(R(a) | &R(b)) == u | v);
                let mut x = R(a);
                x ^= R(b);
                assert!(val(x) == u ^ v);
                let mut x = R(a);
                x ^= &R(b);
                assert!(val(x) == u ^ v);
                let mut x = R(a);
                x &= R(b);
                assert!(val(x) == u & v);
                let mut x = R(a);
                x &= &R(b);
                assert!(val(x) == u & v);
                let mut x = R(a);
                x |= R(b);
                assert!(val(x) == u | v);
                let mut x = R(a);
                x |= &R(b);
                assert!(val(x) == u | v);
            }
            #[kani::proof]
            fn c09_shift() {
                let a: $t = $any;
                let s: usize = kani::any();
                let u: u128 = a.as_();
                let l: u128 = if s >= $k { 0 } else { u << s };
                let l: $t = l.as_();
                let r: u128 = if s >= $k { 0 } else { u >> s };
                let r: $t = r.as_();
                assert!(R(a) << s == R(l));
                assert!(R(a) >> s == R(r));
                let mut x = R(a);
                x <<= s;
                assert!(x == R(l));
                let mut x = R(a);
                x >>= s;
                assert!(x == R(r));
                if s < $k {
                    assert!(R(a).get_bit(s) == R(if u >> s & 1 == 1 { <$t>::one() } else { <$t>::zero() }));
                }
                kani::cover!(s >= $k);
                kani::cover!(s < $k);
            }
            #[kani::proof]
            fn c09_compare() {
                let (a, b): ($t, $t) = ($any, $any);
                let (u, v): (u128, u128) = (a.as_(), b.as_());
                assert!((R(a) == R(b)) == (u == v) && (R(a) != R(b)) == (u != v));
                assert!((R(a) < R(b)) == (u < v) && (R(a) <= R(b)) == (u <= v));
                assert!((R(a) > R(b)) == (u > v) && (R(a) >= R(b)) == (u >= v));
                assert!(R(a).partial_cmp(&R(b)) == Some(u.cmp(&v)));
                assert!(<$t as IntRing2k>::K == $k);
                assert!(R(a).bits() == 128 - u.leading_zeros() as usize && a.bits() == R(a).bits());
            }
        }
    };
}
c09!(bit, Bit, anybit(), 1, |a: Bit, b: Bit| Bit::new(a.convert() != b.convert()), |a: Bit, b: Bit| Bit::new(a.convert() != b.convert()), |a: Bit, b: Bit| Bit::new(a.convert() && b.convert()), |a: Bit| a);
c09!(u8_, u8, kani::any(), 8, |a: u8, b: u8| ((a as u32 + b as u32) % 256) as u8, |a: u8, b: u8| ((a as u32 + 256 - b as u32) % 256) as u8, |a: u8, b: u8| ((a as u32 * b as u32) % 256) as u8, |a: u8| ((256 - a as u32) % 256) as u8);
c09!(u16_, u16, kani::any(), 16, |a: u16, b: u16| ((a as u32 + b as u32) & 0xffff) as u16, |a: u16, b: u16| ((a as u32 + 65536 - b as u32) & 0xffff) as u16, |a: u16, b: u16| a.wrapping_mul(b), |a: u16| ((65536 - a as u32) & 0xffff) as u16);
c09!(u32_, u32, kani::any(), 32, |a: u32, b: u32| ((a as u64 + b as u64) & 0xffff_ffff) as u32, |a: u32, b: u32| ((a as u64 + (1 << 32) - b as u64) & 0xffff_ffff) as u32, |a: u32, b: u32| a.wrapping_mul(b), |a: u32| (((1u64 << 32) - a as u64) & 0xffff_ffff) as u32);
c09!(u64_, u64, kani::any(), 64, |a: u64, b: u64| (a as u128 + b as u128) as u64, |a: u64, b: u64| (a as u128 + (1 << 64) - b as u128) as u64, |a: u64, b: u64| a.wrapping_mul(b), |a: u64| ((1u128 << 64) - a as u128) as u64);
c09!(u128_, u128, kani::any(), 128, |a: u128, b: u128| a.wrapping_add(b), |a: u128, b: u128| a.wrapping_sub(b), |a: u128, b: u128| a.wrapping_mul(b), |a: u128| 0u128.wrapping_sub(a));

mod bit_ops {
    use super::*;
    /// the Bit type itself, with reference and assigning forms
    #[kani::proof]
    fn c09_bit_type() {
        let (p, q): (bool, bool) = (kani::any(), kani::any());
        let (a, b) = (Bit::new(p), Bit::new(q));
        assert!((a + b).convert() == (p != q) && (a + &b).convert() == (p != q));
        assert!((a - b).convert() == (p != q) && (a - &b).convert() == (p != q));
        assert!((a ^ b).convert() == (p != q) && (a ^ &b).convert() == (p != q));
        assert!((a * b).convert() == (p && q) && (a * &b).convert() == (p && q));
        assert!((a & b).convert() == (p && q) && (a & &b).convert() == (p && q));
        assert!((a | b).convert() == (p || q) && (a | &b).convert() == (p || q));
        assert!((!a).convert() == !p && (-a).convert() == p);
        let mut x = a;
        x ^= b;
        assert!(x.convert() == (p != q));
        let mut x = a;
        x ^= &b;
        assert!(x.convert() == (p != q));
        let mut x = a;
        x &= b;
        assert!(x.convert() == (p && q));
        let mut x = a;
        x &= &b;
        assert!(x.convert() == (p && q));
        let mut x = a;
        x |= b;
        assert!(x.convert() == (p || q));
        let mut x = a;
        x |= &b;
        assert!(x.convert() == (p || q));
        let s: usize = kani::any();
        assert!((a << s).convert() == (p && s == 0) && (a >> s).convert() == (p && s == 0));
        assert!(!Bit::zero().convert() && Bit::one().convert() && a.is_zero() == !p);
    }
}

// ------------------------------------------------------------------ C10
macro_rules! widths {
    ($mac:ident) => {
        $mac!(u8_, u8, kani::any(), 8, 1);
        $mac!(u16_, u16, kani::any(), 16, 2);
        $mac!(u32_, u32, kani::any(), 32, 4);
        $mac!(u64_, u64, kani::any(), 64, 8);
        $mac!(u128_, u128, kani::any(), 128, 16);
    };
}
mod c10 {
    use super::*;
    macro_rules! conv {
        ($m:ident, $t:ty, $any:expr, $k:literal, $bytes:literal) => {
            mod $m {
                use super::*;
                #[kani::proof]
                fn c10_bit() {
                    let a: $t = $any;
                    let p: bool = kani::any();
                    let b: Bit = a.as_();
                    assert!(b.convert() == (a % 2 == 1));
                    let c: $t = Bit::new(p).as_();
                    assert!(c == if p { 1 } else { 0 });
                    match Bit::try_from(a) {
                        Ok(b) => assert!(a < 2 && b.convert() == (a == 1)),
                        Err(_) => assert!(a >= 2),
                    }
                }
                #[kani::proof]
                #[kani::unwind(66)]
                fn c10_bytes() {
                    let a: $t = $any;
                    let mut out = [0u8; $bytes + 3];
                    let mut w: &mut [u8] = &mut out[..];
                    let ok = R(a).serialize_compressed(&mut w).is_ok();
                    let left = w.len();
                    assert!(ok && left == 3);
                    assert!(R(a).compressed_size() == $bytes && R(a).uncompressed_size() == $bytes);
                    let le = a.to_le_bytes();
                    let i: usize = kani::any_where(|i| *i < $bytes);
                    assert!(out[i] == le[i]);
                    assert!(out[$bytes] == 0 && out[$bytes + 1] == 0 && out[$bytes + 2] == 0);
                }
                #[kani::proof]
                #[kani::unwind(66)]
                fn c10_bytes_back() {
                    let bytes: [u8; $bytes + 2] = kani::any();
                    let n: usize = kani::any_where(|n| *n <= $bytes + 2);
                    let mut r: &[u8] = &bytes[..n];
                    match <$t as IntRing2k>::from_reader(&mut r) {
                        Ok(x) => {
                            let mut le = [0u8; $bytes];
                            le.copy_from_slice(&bytes[..$bytes]);
                            assert!(n >= $bytes && x == <$t>::from_le_bytes(le));
                            assert!(r.len() == n - $bytes);
                        }
                        Err(_) => assert!(n < $bytes),
                    }
                    kani::cover!(n < $bytes);
                    kani::cover!(n >= $bytes);
                }
                #[kani::proof]
                #[kani::unwind(66)]
                fn c10_uint() {
                    let a: $t = $any;
                    let u: U256 = a.cast_to_uint();
                    let l = u.as_limbs();
                    let v = a as u128;
                    assert!(l[0] == v as u64 && l[1] == (v >> 64) as u64 && l[2] == 0 && l[3] == 0);
                    assert!(<$t as IntRing2k>::cast_from_uint(&u) == a);
                    let u: U384 = a.as_();
                    let l = u.as_limbs();
                    assert!(l[0] == v as u64 && l[1] == (v >> 64) as u64 && l[2] == 0 && l[3] == 0 && l[4] == 0 && l[5] == 0);
                    let back: $t = u.as_();
                    assert!(back == a);
                    let limbs: [u64; 5] = kani::any();
                    let w = U320::from_limbs_truncating(&limbs);
                    let want = ((limbs[1] as u128) << 64 | limbs[0] as u128) as $t;
                    assert!(<$t as IntRing2k>::cast_from_uint(&w) == want);
                    let got: $t = w.as_();
                    assert!(got == want);
                }
                /// the bits of a value put together give the value
                #[kani::proof]
                #[kani::unwind(130)]
                fn c10_recompose() {
                    let a: $t = $any;
                    let mut x = R::<$t>::zero();
                    let mut i = 0;
                    while i < $k {
                        x += R(a).get_bit(i) << i;
                        i += 1;
                    }
                    assert!(x == R(a));
                }
            }
        };
    }
    widths!(conv);

    #[kani::proof]
    fn c10_bit_bytes() {
        let p: bool = kani::any();
        let mut out = [7u8; 2];
        let mut w: &mut [u8] = &mut out[..];
        assert!(R(Bit::new(p)).serialize_compressed(&mut w).is_ok());
        assert!(out[0] == p as u8 && out[1] == 7);
        assert!(R(Bit::new(p)).compressed_size() == 1);
        let b: [u8; 1] = kani::any();
        let n: usize = kani::any_where(|n| *n <= 1);
        match R::<Bit>::deserialize_compressed(&b[..n]) {
            Ok(x) => assert!(n == 1 && b[0] < 2 && x.convert().convert() == (b[0] == 1)),
            Err(_) => assert!(n == 0 || b[0] >= 2),
        }
    }
    #[kani::proof]
    fn c10_bit_bool() {
        let p: bool = kani::any();
        assert!(Bit::from(p).convert() == p && bool::from(Bit::new(p)) == p);
        assert!(u8::from(Bit::new(p)) == p as u8 && u128::from(Bit::new(p)) == p as u128);
        let b: bool = Bit::new(p).as_();
        assert!(b == p);
        let b: Bit = Bit::new(p).as_();
        assert!(b.convert() == p);
        let n: Result<usize, _> = Bit::new(p).try_into();
        assert!(matches!(n, Ok(n) if n == p as usize));
        let n: usize = kani::any();
        match Bit::try_from(n) {
            Ok(b) => assert!(n < 2 && b.convert() == (n == 1)),
            Err(_) => assert!(n >= 2),
        }
        assert!(Bit::new(p).bits() == p as usize);
    }
    #[kani::proof]
    #[kani::unwind(66)]
    fn c10_bit_uint() {
        let limbs: [u64; 4] = kani::any();
        let u = U256::from_limbs_truncating(&limbs);
        assert!(<Bit as IntRing2k>::cast_from_uint(&u).convert() == (limbs[0] % 2 == 1));
        let b: Bit = u.as_();
        assert!(b.convert() == (limbs[0] % 2 == 1));
        let p: bool = kani::any();
        let v: U256 = Bit::new(p).cast_to_uint();
        let l = v.as_limbs();
        assert!(l[0] == p as u64 && l[1] == 0 && l[2] == 0 && l[3] == 0);
        let v: U256 = Bit::new(p).as_();
        assert!(v.as_limbs()[0] == p as u64 && v.as_limbs()[3] == 0);
    }
    /// wide integers as rings: other widths keep the low limbs
    #[kani::proof]
    #[kani::unwind(66)]
    fn c10_wide_casts() {
        let limbs: [u64; 5] = kani::any();
        let u = U320::from_limbs_truncating(&limbs);
        let n: U256 = u.cast_to_uint();
        let w: U512 = u.cast_to_uint();
        let i: usize = kani::any_where(|i| *i < 5);
        assert!(i >= 4 || n.as_limbs()[i] == limbs[i]);
        assert!(w.as_limbs()[i] == limbs[i]);
        assert!(w.as_limbs()[5] == 0 && w.as_limbs()[6] == 0 && w.as_limbs()[7] == 0);
        let back = <U320 as IntRing2k>::cast_from_uint(&w);
        assert!(back == u);
        let same: U320 = u.as_();
        assert!(same == u);
    }
    #[kani::proof]
    #[kani::unwind(66)]
    fn c10_wide_bytes() {
        let limbs: [u64; 5] = kani::any();
        let u = U320::from_limbs_truncating(&limbs);
        let mut out = [0u8; 41];
        let mut w: &mut [u8] = &mut out[..];
        assert!(u.serialize_uncompressed(&mut w).is_ok());
        assert!(w.len() == 1 && u.serialized_size(ark_serialize::Compress::No) == 40);
        let i: usize = kani::any_where(|i| *i < 40);
        assert!(out[i] == (limbs[i / 8] >> (8 * (i % 8))) as u8);
        let n: usize = kani::any_where(|n| *n <= 41);
        let mut r: &[u8] = &out[..n];
        match <U320 as IntRing2k>::from_reader(&mut r) {
            Ok(x) => assert!(n >= 40 && x == u && r.len() == n - 40),
            Err(_) => assert!(n < 40),
        }
        match U320::deserialize_uncompressed(&out[..n]) {
            Ok(x) => assert!(n >= 40 && x == u),
            Err(_) => assert!(n < 40),
        }
    }
    #[kani::proof]
    #[kani::unwind(6)]
    fn c10_reinterpret() {
        let a: [u16; 3] = kani::any();
        let s = R::<u16>::convert_slice_rev(&a[..]);
        assert!(s.len() == 3 && s[0].0 == a[0] && s[1].0 == a[1] && s[2].0 == a[2]);
        let b: [bool; 3] = kani::any();
        let s = Bit::convert_slice_rev(&b[..]);
        assert!(s.len() == 3 && s[0].convert() == b[0] && s[1].convert() == b[1] && s[2].convert() == b[2]);
    }
}

// ------------------------------------------------------------------ C11
/// the processor's subtract-with-borrow instruction (assumed contract; Kani has no model of it)
#[allow(dead_code)]
fn subborrow(c: u8, a: u64, b: u64, out: &mut u64) -> u8 {
    let (u, p) = a.overflowing_sub(b);
    let (w, q) = u.overflowing_sub((c != 0) as u64);
    *out = w;
    (p || q) as u8
}
macro_rules! c11 {
    ($m:ident, $u:ty, $bits:literal, $limbs:literal) => {
        mod $m {
            use super::*;
            fn any() -> ([u64; $limbs], $u) {
                let l: [u64; $limbs] = kani::any();
                (l, RUint(ruint::Uint::from_limbs(l)))
            }
            fn idx() -> usize {
                kani::any_where(|i| *i < $limbs)
            }
            fn bit(l: &[u64], i: usize) -> bool {
                l[i / 64] >> (i % 64) & 1 == 1
            }
            #[kani::proof]
            #[kani::unwind(66)]
            fn c11_logic() {
                let ((a, x), (b, y)) = (any(), any());
                let i = idx();
                assert!((x & y).as_limbs()[i] == a[i] & b[i]);
                assert!((x | y).as_limbs()[i] == a[i] | b[i]);
                assert!((x ^ y).as_limbs()[i] == a[i] ^ b[i]);
                assert!((!x).as_limbs()[i] == !a[i]);
                let (mut p, mut q, mut r) = (x, x, x);
                p &= y;
                q |= y;
                r ^= y;
                assert!(p.as_limbs()[i] == a[i] & b[i] && q.as_limbs()[i] == a[i] | b[i] && r.as_limbs()[i] == a[i] ^ b[i]);
                assert!((x == y) == (a == b));
                assert!(x.as_limbs().len() == $limbs && <$u as UintBackend>::LIMBS == $limbs && <$u as UintBackend>::BITS == $bits && <$u as UintBackend>::BYTES == $bits / 8);
                let z: $u = Zero::zero();
                assert!(z.as_limbs()[i] == 0 && z.is_zero() && <$u as Default>::default() == z);
                let o: $u = One::one();
                assert!(o.as_limbs()[i] == (i == 0) as u64);
                assert!(x.is_zero() == (a == [0; $limbs]));
                let v: u64 = kani::any();
                assert!(<$u>::from(v).as_limbs()[i] == if i == 0 { v } else { 0 });
                assert!(x.to_u64_truncating() == a[0]);
                match x.try_to_usize() {
                    Some(n) => assert!(n as u64 == a[0] && x == <$u>::from(a[0])),
                    None => assert!(x != <$u>::from(a[0])),
                }
            }
            #[kani::proof]
            #[kani::unwind(66)]
            fn c11_shl() {
                let (a, x) = any();
                let s: usize = kani::any();
                let i: usize = kani::any_where(|i| *i < $bits);
                let want = i >= s && bit(&a, i.wrapping_sub(s) % $bits);
                assert!(bit((x << s).as_limbs(), i) == want);
                let mut y = x;
                y <<= s;
                assert!(bit(y.as_limbs(), i) == want);
                kani::cover!(s > $bits);
                kani::cover!(want);
            }
            #[kani::proof]
            #[kani::unwind(66)]
            fn c11_shr() {
                let (a, x) = any();
                let s: usize = kani::any();
                let i: usize = kani::any_where(|i| *i < $bits);
                let want = s < $bits && i + s < $bits && bit(&a, (i + s % $bits) % $bits);
                assert!(bit((x >> s).as_limbs(), i) == want);
                let mut y = x;
                y >>= s;
                assert!(bit(y.as_limbs(), i) == want);
                kani::cover!(want);
            }
            #[kani::proof]
            #[kani::unwind(66)]
            fn c11_mask() {
                let k: usize = kani::any_where(|k| *k <= $bits);
                let i: usize = kani::any_where(|i| *i < $bits);
                assert!(bit(<$u>::mask(k).as_limbs(), i) == (i < k));
            }
            #[kani::proof]
            #[kani::should_panic]
            #[kani::unwind(66)]
            fn c11_mask_too_wide() {
                let k: usize = kani::any_where(|k| *k > $bits);
                let _ = <$u>::mask(k);
            }
            #[kani::proof]
            #[kani::unwind(66)]
            fn c11_bits() {
                let (a, x) = any();
                let i: usize = kani::any_where(|i| *i < $bits);
                let j: usize = kani::any_where(|i| *i < $bits);
                let v: bool = kani::any();
                assert!(x.bit(i) == bit(&a, i));
                let mut y = x;
                y.set_bit(j, v);
                assert!(bit(y.as_limbs(), i) == if i == j { v } else { bit(&a, i) });
                let n = x.bit_len();
                assert!(n <= $bits);
                assert!(n == 0 || bit(&a, n - 1));
                assert!(i < n || !bit(&a, i));
                assert!(IntRing2k::bits(&x) == n);
            }
            #[kani::proof]
            #[kani::unwind(66)]
            #[kani::stub(core::arch::x86_64::_subborrow_u64, super::subborrow)]
            fn c11_arith() {
                let ((a, x), (b, y)) = (any(), any());
                let mut sum = [0u64; $limbs];
                let mut dif = [0u64; $limbs];
                let (mut c, mut d) = (0u64, 0u64);
                let mut i = 0;
                while i < $limbs {
                    let t = a[i] as u128 + b[i] as u128 + c as u128;
                    sum[i] = t as u64;
                    c = (t >> 64) as u64;
                    let (u, p) = a[i].overflowing_sub(b[i]);
                    let (w, q) = u.overflowing_sub(d);
                    dif[i] = w;
                    d = (p || q) as u64;
                    i += 1;
                }
                let i = idx();
                assert!((x + y).as_limbs()[i] == sum[i] && WrappingAdd::wrapping_add(&x, &y).as_limbs()[i] == sum[i]);
                assert!((x - y).as_limbs()[i] == dif[i] && WrappingSub::wrapping_sub(&x, &y).as_limbs()[i] == dif[i]);
                let (mut p, mut q) = (x, x);
                p += y;
                q -= y;
                assert!(p.as_limbs()[i] == sum[i] && q.as_limbs()[i] == dif[i]);
                assert!((x < y) == (d == 1) && (x >= y) == (d == 0));
                assert!((-x + x).as_limbs()[i] == 0 && (WrappingNeg::wrapping_neg(&x) + x).as_limbs()[i] == 0);
            }
            #[kani::proof]
            #[kani::unwind(66)]
            fn c11_limbs() {
                let more: [u64; $limbs + 2] = kani::any();
                let mut n = 0;
                while n <= $limbs + 2 {
                    let w = <$u>::from_limbs_truncating(&more[..n]);
                    let l = w.as_limbs();
                    let mut i = 0;
                    while i < $limbs {
                        assert!(l[i] == if i < n { more[i] } else { 0 });
                        i += 1;
                    }
                    n += 1;
                }
            }
            #[kani::proof]
            #[kani::unwind(66)]
            fn c11_le_bytes() {
                let (a, x) = any();
                let mut out = [0u8; $bits / 8];
                x.to_le_bytes_into(&mut out);
                let i: usize = kani::any_where(|i| *i < $bits / 8);
                assert!(out[i] == (a[i / 8] >> (8 * (i % 8))) as u8);
                assert!(<$u>::from_le_bytes(&out) == x);
            }
            #[kani::proof]
            #[kani::unwind(66)]
            fn c11_bigint() {
                let (a, x) = any();
                let b: ark_ff::BigInt<$limbs> = x.into();
                assert!(b.0 == a);
                assert!(<$u>::from(ark_ff::BigInt::<$limbs>(a)) == x);
            }
        }
    };
}
c11!(u256, U256, 256, 4);
c11!(u320, U320, 320, 5);
c11!(u384, U384, 384, 6);
c11!(u512, U512, 512, 8);
