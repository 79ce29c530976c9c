//! C10: ring and bit conversions, bit decomposition and byte encoding.
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress, Validate};
use harness::{H, R, caught, ensure, ensure_eq};
use mpc_core::protocols::rep3_ring::ring::{bit::Bit, int_ring::IntRing2k, ring_impl::RingElement as E};
use mpc_core::uint::{U256, U320, U384, U512, U1024, UintBackend};
use num_bigint::BigUint;
use num_traits::{AsPrimitive, One, Zero};
use rand::Rng;
use rand_chacha::ChaCha12Rng;

fn big<U: UintBackend>(u: &U) -> BigUint {
    BigUint::from_slice(&u.as_limbs().iter().flat_map(|l| [*l as u32, (*l >> 32) as u32]).collect::<Vec<_>>())
}
fn low(b: &BigUint, k: usize) -> BigUint {
    b % (BigUint::one() << k)
}
fn rnd(k: usize, i: usize, rng: &mut ChaCha12Rng) -> BigUint {
    let one = BigUint::one();
    match i {
        0 => BigUint::zero(),
        1 => one,
        2 => (&one << k) - 1u32,
        3 => &one << (k - 1),
        4 => (&one << (k - 1)) - 1u32,
        5 => &one << (k / 2),
        6 => (&one << (k / 2)) - 1u32,
        7 => BigUint::from(2u32),
        _ => {
            let n = rng.gen_range(1..=k);
            BigUint::from_bytes_le(&(0..k.div_ceil(8)).map(|_| rng.r#gen()).collect::<Vec<u8>>()) >> (k.div_ceil(8) * 8 - n)
        }
    }
}

/// a ring of machine width
fn narrow<T: IntRing2k>(x: &BigUint, of: fn(&BigUint) -> T, to: fn(T) -> BigUint, rng: &mut ChaCha12Rng) -> R {
    let k = T::K;
    let x = low(x, k);
    let a = of(&x);
    macro_rules! uint {
        ($u:ty) => {{
            let u: $u = a.cast_to_uint();
            ensure_eq!(big(&u), low(&x, <$u>::BITS), "casting {x} of {k} bits to {} bits", <$u>::BITS);
            for i in 0..10 {
                let w = rnd(<$u>::BITS, i, rng);
                let v = <$u>::from_limbs_truncating(&w.to_u64_digits());
                ensure_eq!(to(T::cast_from_uint(&v)), low(&w, k), "casting {w} to {k} bits");
            }
        }};
    }
    uint!(U256);
    uint!(U320);
    uint!(U384);
    uint!(U512);
    uint!(U1024);
    // bits put together
    let mut y = E::<T>::zero();
    for i in 0..k {
        let b = E(a).get_bit(i);
        ensure_eq!(to(b.0), BigUint::from(x.bit(i as u64) as u8), "bit {i} of {x}");
        y += b << i;
    }
    ensure_eq!(to(y.0), x, "recomposed bits");
    // bytes
    let n = T::BYTES;
    let mut want = x.to_bytes_le();
    want.resize(n, 0);
    for c in [Compress::Yes, Compress::No] {
        let mut out = vec![];
        E(a).serialize_with_mode(&mut out, c).map_err(|e| e.to_string())?;
        ensure_eq!(out, want, "bytes of {x} in {k} bits");
        ensure_eq!(E(a).serialized_size(c), n, "byte count of {k} bits");
        for v in [Validate::Yes, Validate::No] {
            let mut more = out.clone();
            more.extend([17, 3]);
            let mut r = &more[..];
            let z = E::<T>::deserialize_with_mode(&mut r, c, v).map_err(|e| e.to_string())?;
            ensure_eq!(to(z.0), x, "bytes read back");
            ensure_eq!(r.len(), 2, "bytes left");
            for cut in 0..n {
                ensure!(E::<T>::deserialize_with_mode(&out[..cut], c, v).is_err(), "{cut} of {n} bytes were accepted");
            }
        }
        let all: Vec<E<T>> = vec![E(a), E(of(&rnd(k, 9, rng))), E(of(&rnd(k, 2, rng)))];
        let mut out = vec![];
        all.serialize_with_mode(&mut out, c).map_err(|e| e.to_string())?;
        ensure_eq!(Vec::<E<T>>::deserialize_with_mode(&out[..], c, Validate::Yes).map_err(|e| e.to_string())?, all, "vector read back");
    }
    let mut out = vec![];
    IntRing2k::write(&a, &mut out).map_err(|e| e.to_string())?;
    ensure_eq!(out, want, "write");
    let mut r = &out[..];
    ensure_eq!(to(T::from_reader(&mut r).map_err(|e| e.to_string())?), x, "from_reader");
    let s = bincode::serialize(&E(a)).map_err(|e| e.to_string())?;
    ensure_eq!(to(bincode::deserialize::<E<T>>(&s).map_err(|e| e.to_string())?.0), x, "serde");
    // reader and writer that move one byte at a time
    struct Slow(Vec<u8>);
    impl std::io::Write for Slow {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { if b.is_empty() { Ok(0) } else { self.0.push(b[0]); Ok(1) } }
        fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
    }
    struct SlowR<'a>(&'a [u8]);
    impl std::io::Read for SlowR<'_> {
        fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
            if b.is_empty() || self.0.is_empty() { return Ok(0); }
            b[0] = self.0[0];
            self.0 = &self.0[1..];
            Ok(1)
        }
    }
    let mut w = Slow(vec![]);
    E(a).serialize_compressed(&mut w).map_err(|e| e.to_string())?;
    ensure_eq!(w.0, want, "bytes through a slow writer");
    ensure_eq!(to(E::<T>::deserialize_compressed(SlowR(&want)).map_err(|e| e.to_string())?.0), x, "bytes through a slow reader");
    // reinterpretation
    let v: Vec<T> = (0..7).map(|i| of(&rnd(k, i + 3, rng))).collect();
    let mut cap = Vec::with_capacity(40);
    cap.extend_from_slice(&v);
    ensure!(E::convert_slice_rev(&v).iter().zip(&v).all(|(p, q)| p.0 == *q) && E::convert_slice_rev(&v).len() == 7, "convert_slice_rev");
    let c = E::convert_vec_rev(cap);
    ensure!(c.len() == 7 && c.iter().zip(&v).all(|(p, q)| p.0 == *q), "convert_vec_rev");
    Ok(())
}

macro_rules! prim {
    ($h:ident, $t:ty, $n:expr) => {{
        fn of(b: &BigUint) -> $t { low(b, <$t>::BITS as usize).try_into().unwrap() }
        fn to(x: $t) -> BigUint { x.into() }
        for i in 0..$n {
            $h.case(stringify!($t), &format!("i={i}"), move |r| {
                let x = rnd(<$t>::BITS as usize, i, r);
                let a = of(&x);
                let b: Bit = a.as_();
                ensure_eq!(b.convert(), x.bit(0), "{x} as a bit");
                match Bit::try_from(a) {
                    Ok(b) => ensure!(x < BigUint::from(2u32) && b.convert() == x.is_one(), "{x} turned into a bit"),
                    Err(_) => ensure!(x >= BigUint::from(2u32), "{x} is a bit"),
                }
                for p in [false, true] {
                    let c: $t = Bit::new(p).as_();
                    ensure_eq!(c, p as $t, "a bit as a number");
                }
                macro_rules! as_wide {
                    ($u:ty) => {{
                        let u: $u = a.as_();
                        ensure_eq!(big(&u), x, "as a wide integer");
                        let back: $t = u.as_();
                        ensure_eq!(back, a, "and back");
                        let w = rnd(<$u>::BITS, i, r);
                        let t: $t = <$u>::from_limbs_truncating(&w.to_u64_digits()).as_();
                        ensure_eq!(to(t), low(&w, <$t>::BITS as usize), "{w} truncated");
                    }};
                }
                as_wide!(U256); as_wide!(U320); as_wide!(U384); as_wide!(U512); as_wide!(U1024);
                narrow::<$t>(&x, of, to, r)
            });
        }
    }};
}

fn main() {
    let mut h = H::new("C10");
    let n = h.by(80, 1500);
    prim!(h, u8, n);
    prim!(h, u16, n);
    prim!(h, u32, n);
    prim!(h, u64, n);
    prim!(h, u128, n);
    macro_rules! wide {
        ($u:ty) => {
            for i in 0..h.by(20, 300) {
                h.case(stringify!($u), &format!("i={i}"), move |r| {
                    let x = rnd(<$u>::BITS, i, r);
                    let b: Bit = <$u>::from_limbs_truncating(&x.to_u64_digits()).as_();
                    ensure_eq!(b.convert(), x.bit(0), "{x} as a bit");
                    ensure_eq!(Bit::cast_from_uint(&<$u>::from_limbs_truncating(&x.to_u64_digits())).convert(), x.bit(0), "{x} cast to a bit");
                    let same: $u = <$u>::from_limbs_truncating(&x.to_u64_digits()).as_();
                    ensure_eq!(big(&same), x, "as itself");
                    for p in [false, true] {
                        let c: $u = Bit::new(p).as_();
                        ensure_eq!(big(&c), BigUint::from(p as u8), "a bit as a wide integer");
                        let c: $u = Bit::new(p).cast_to_uint();
                        ensure_eq!(big(&c), BigUint::from(p as u8), "a bit cast to a wide integer");
                    }
                    narrow::<$u>(&x, |b| <$u>::from_limbs_truncating(&b.to_u64_digits()), |u| big(&u), r)
                });
            }
        };
    }
    wide!(U256);
    wide!(U320);
    wide!(U512);
    h.case("bit", "all", |r| {
        for p in [false, true] {
            narrow::<Bit>(&BigUint::from(p as u8), |b| Bit::new(b.bit(0)), |b| BigUint::from(b.convert() as u8), r)?;
            ensure_eq!(bool::from(Bit::from(p)), p, "bool");
            ensure_eq!(u8::from(Bit::from(p)), p as u8, "u8");
            ensure_eq!(u128::from(Bit::from(p)), p as u128, "u128");
            let b: bool = Bit::new(p).as_();
            ensure_eq!(b, p, "as bool");
            let n: usize = TryInto::<usize>::try_into(Bit::new(p)).unwrap();
            ensure_eq!(n, p as usize, "usize");
            ensure_eq!(format!("{}", Bit::new(p)), (p as u8).to_string(), "printed");
            ensure_eq!(Bit::new(p).as_ref().convert(), p, "as_ref");
        }
        for b in 0..=255u8 {
            let got = E::<Bit>::deserialize_compressed(&[b][..]);
            match got {
                Ok(x) => ensure!(b < 2 && x.0.convert() == (b == 1), "byte {b} read as bit {x}"),
                Err(_) => ensure!(b >= 2, "byte {b} refused"),
            }
            ensure_eq!(Bit::from_reader(&[b][..]).is_ok(), b < 2, "byte {b}");
            ensure_eq!(Bit::try_from(b).is_ok(), b < 2, "u8 {b}");
            ensure_eq!(Bit::try_from(b as usize).is_ok(), b < 2, "usize {b}");
            ensure_eq!(Bit::try_from(b as usize * 256).is_ok(), b == 0, "usize {}", b as usize * 256);
        }
        let v = [true, false, true, true];
        ensure_eq!(Bit::convert_slice_rev(&v).iter().map(|b| b.convert()).collect::<Vec<_>>(), v, "slice");
        ensure_eq!(Bit::convert_vec_rev(v.to_vec()).iter().map(|b| b.convert()).collect::<Vec<_>>(), v, "vec");
        Ok(())
    });
    h.case("le bytes", "wrong lengths", |_| {
        for n in 0..80usize {
            let r = caught(|| U256::from_le_bytes(&vec![1u8; n]));
            ensure_eq!(r.is_ok(), n == 32, "{n} bytes as a 256-bit integer");
            let r = caught(|| U256::from(5u64).to_le_bytes_into(&mut vec![1u8; n]));
            ensure_eq!(r.is_ok(), n == 32, "a 256-bit integer into {n} bytes");
        }
        Ok(())
    });
    h.finish()
}
