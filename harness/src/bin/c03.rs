//! C03: local operations on Shamir shares commute with reconstruction.
use ark_ec::{CurveGroup, PrimeGroup};
use ark_ff::{Field, PrimeField, UniformRand, Zero};
use harness::{H, R, ensure, ensure_eq, fields::*};
use mpc_core::protocols::shamir::{ShamirPointShare as P, ShamirPrimeFieldShare as S, *};
use rand::Rng;
use rand_chacha::ChaCha12Rng;

type Sh<F> = Vec<S<F>>;

/// the positions that reconstruct, a random choice of them
fn open<F: PrimeField>(s: &[S<F>], d: usize, rng: &mut ChaCha12Rng) -> F {
    let mut pos: Vec<usize> = (1..=s.len()).collect();
    for i in (1..pos.len()).rev() {
        pos.swap(i, rng.gen_range(0..=i));
    }
    pos.truncate(d + 1);
    let sel: Vec<_> = pos.iter().map(|p| s[p - 1]).collect();
    combine_field_element(&sel, &pos, d).unwrap()
}
fn openg<C: CurveGroup>(s: &[P<C>], d: usize, rng: &mut ChaCha12Rng) -> C {
    let mut pos: Vec<usize> = (1..=s.len()).collect();
    for i in (1..pos.len()).rev() {
        pos.swap(i, rng.gen_range(0..=i));
    }
    pos.truncate(d + 1);
    let sel: Vec<_> = pos.iter().map(|p| s[p - 1]).collect();
    combine_curve_point(&sel, &pos, d).unwrap()
}

fn each<F: PrimeField>(a: &Sh<F>, b: &Sh<F>, f: impl Fn(S<F>, S<F>) -> S<F>) -> Sh<F> {
    a.iter().zip(b).map(|(x, y)| f(*x, *y)).collect()
}

fn field<F: PrimeField>(n: usize, t: usize, k: usize, rng: &mut ChaCha12Rng) -> R {
    let (x, y, c): (F, F, F) = (value(k, rng), value(k / 3, rng), value(k / 2 + 1, rng));
    let (a, b) = (share_field_element(x, t, n, rng), share_field_element(y, t, n, rng));
    macro_rules! two {
        ($name:literal, $deg:expr, $want:expr, $f:expr) => {
            ensure_eq!(open(&each(&a, &b, $f), $deg, rng), $want, $name);
        };
    }
    macro_rules! asg {
        ($op:tt, $rhs:expr) => { |mut p: S<F>, q: S<F>| { let _ = &q; p $op $rhs(&q); p } };
    }
    two!("share + share", t, x + y, |p, q| p + q);
    two!("share + &share", t, x + y, |p, q| p + &q);
    two!("&share + &share", t, x + y, |p, q| &p + &q);
    two!("share += share", t, x + y, asg!(+=, |q: &S<F>| *q));
    two!("share += &share", t, x + y, |mut p, q| { p += &q; p });
    two!("arithmetic::add", t, x + y, arithmetic::add);
    two!("arithmetic::add_assign", t, x + y, |mut p, q| { arithmetic::add_assign(&mut p, q); p });
    two!("share - share", t, x - y, |p, q| p - q);
    two!("share - &share", t, x - y, |p, q| p - &q);
    two!("&share - &share", t, x - y, |p, q| &p - &q);
    two!("share -= share", t, x - y, |mut p, q| { p -= q; p });
    two!("arithmetic::sub", t, x - y, arithmetic::sub);
    two!("arithmetic::sub_assign", t, x - y, |mut p, q| { arithmetic::sub_assign(&mut p, q); p });
    two!("&share + &public", t, x + c, |p, _| &p + &c);
    two!("share + public", t, x + c, |p, _| p + c);
    two!("share += public", t, x + c, |mut p, _| { p += c; p });
    two!("add_public", t, x + c, |p, _| arithmetic::add_public(p, c));
    two!("add_assign_public", t, x + c, |mut p, _| { arithmetic::add_assign_public(&mut p, c); p });
    two!("&share * &public", t, x * c, |p, _| &p * &c);
    two!("share * public", t, x * c, |p, _| p * c);
    two!("share *= public", t, x * c, |mut p, _| { p *= c; p });
    two!("mul_public", t, x * c, |p, _| arithmetic::mul_public(p, c));
    two!("mul_assign_public", t, x * c, |mut p, _| { arithmetic::mul_assign_public(&mut p, c); p });
    two!("-share", t, -x, |p, _| -p);
    two!("-&share", t, -x, |p, _| -&p);
    two!("neg", t, -x, |p, _| arithmetic::neg(p));
    two!("promote_to_trivial_share", t, c, |_, _| arithmetic::promote_to_trivial_share(c));
    two!("new", t, c, |_, _| S::new(c));
    two!("zero_share", t, F::zero(), |_, _| S::zero_share());
    two!("Zero::zero", t, F::zero(), |_, _| <S<F> as Zero>::zero());
    two!("default", t, F::zero(), |_, _| S::default());
    if n > 2 * t {
        two!("share * share", 2 * t, x * y, |p, q| p * q);
        two!("share * &share", 2 * t, x * y, |p, q| p * &q);
        two!("&share * &share", 2 * t, x * y, |p, q| &p * &q);
    }
    for (p, _) in a.iter().zip(&b) {
        match (c.is_zero(), arithmetic::div_shared_by_public(*p, c)) {
            (true, r) => ensure!(r.is_err(), "division of a share by public zero gave a value"),
            (false, Ok(_)) => {}
            (false, Err(e)) => return Err(format!("div_shared_by_public: {e}")),
        }
    }
    if !c.is_zero() {
        two!("div_shared_by_public", t, x * c.inverse().unwrap(), |p, _| arithmetic::div_shared_by_public(p, c).unwrap());
    }
    ensure_eq!(a[0].inner(), a[0].convert(), "inner and convert");
    Ok(())
}

fn vectors<F: PrimeField>(n: usize, t: usize, len: usize, rng: &mut ChaCha12Rng) -> R {
    let x: Vec<F> = (0..len).map(|i| value(i % 40, rng)).collect();
    let y: Vec<F> = (0..len).map(|i| value((i / 5) % 40, rng)).collect();
    let (a, b) = (share_field_elements(&x, t, n, rng), share_field_elements(&y, t, n, rng));
    let all: Vec<usize> = (1..=n).collect();
    let rec = |s: &[Sh<F>], d: usize| combine_field_elements(s, &all, d).unwrap();
    let map = |f: &dyn Fn(&Sh<F>, &Sh<F>) -> Sh<F>| a.iter().zip(&b).map(|(p, q)| f(p, q)).collect::<Vec<_>>();
    let zipw = |f: fn(F, F) -> F| x.iter().zip(&y).map(|(p, q)| f(*p, *q)).collect::<Vec<F>>();
    ensure_eq!(rec(&map(&|p, q| { let mut p = p.clone(); arithmetic::add_vec_assign(&mut p, q); p }), t), zipw(|p, q| p + q), "add_vec_assign");
    ensure_eq!(rec(&map(&|p, q| { let mut p = p.clone(); arithmetic::sub_vec_assign(&mut p, q); p }), t), zipw(|p, q| p - q), "sub_vec_assign");
    ensure_eq!(rec(&map(&|_, _| arithmetic::promote_to_trivial_shares(&x)), t), x, "promote_to_trivial_shares");
    if n > 2 * t {
        ensure_eq!(rec(&map(&|p, q| arithmetic::local_mul_vec(p, q).into_iter().map(S::new).collect()), 2 * t), zipw(|p, q| p * q), "local_mul_vec");
    }
    // reinterpretations keep every element
    for s in &a {
        let raw: Vec<F> = s.iter().map(|p| p.inner()).collect();
        ensure_eq!(S::convert_slice(s), &raw[..], "convert_slice");
        ensure_eq!(S::convert_vec(s.clone()), raw, "convert_vec");
        ensure_eq!(S::convert_slice_rev(&raw), &s[..], "convert_slice_rev");
        ensure_eq!(S::convert_vec_rev(raw.clone()), *s, "convert_vec_rev");
        let mut cap = Vec::with_capacity(len + 17);
        cap.extend_from_slice(s);
        ensure_eq!(S::convert_vec(cap), raw, "convert_vec with spare capacity");
    }
    Ok(())
}

fn poly<F: PrimeField>(n: usize, t: usize, len: usize, k: usize, threads: usize, rng: &mut ChaCha12Rng) -> R {
    let x: Vec<F> = (0..len).map(|i| value((i + k) % 40, rng)).collect();
    let pt: F = value(k, rng);
    let a = share_field_elements(&x, t, n, rng);
    let mut want = F::zero();
    let mut pw = F::one();
    for c in &x {
        want += *c * pw;
        pw *= pt;
    }
    let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap();
    let r: Sh<F> = pool.install(|| a.iter().map(|s| mpc_core::protocols::shamir::poly::eval_poly(s, pt)).collect());
    ensure_eq!(open(&r, t, rng), want, "eval_poly of {len} coefficients at {pt:?} with {threads} threads");
    Ok(())
}

fn group<C: CurveGroup>(n: usize, t: usize, k: usize, rng: &mut ChaCha12Rng) -> R
where
    C::ScalarField: PrimeField,
{
    let pick = |k: usize, rng: &mut ChaCha12Rng| match k % 4 {
        0 => C::zero(),
        1 => C::generator(),
        2 => -C::generator(),
        _ => C::generator() * C::ScalarField::rand(rng),
    };
    let (x, y, c) = (pick(k, rng), pick(k / 4, rng), pick(k / 2 + 1, rng));
    let (u, s): (C::ScalarField, C::ScalarField) = (value(k, rng), value(k / 3, rng));
    let (a, b) = (share_curve_point(x, t, n, rng), share_curve_point(y, t, n, rng));
    let f = share_field_element(s, t, n, rng);
    macro_rules! two {
        ($name:literal, $deg:expr, $want:expr, |$p:pat_param, $q:pat_param, $f:pat_param| $e:expr) => {{
            let r: Vec<P<C>> = (0..n).map(|i| { let ($p, $q, $f) = (a[i], b[i], f[i]); $e }).collect();
            ensure_eq!(openg(&r, $deg, rng), $want, $name);
        }};
    }
    two!("point + point", t, x + y, |p, q, _| p + q);
    two!("point + &point", t, x + y, |p, q, _| p + &q);
    two!("&point + &point", t, x + y, |p, q, _| &p + &q);
    two!("point += &point", t, x + y, |mut p, q, _| { p += &q; p });
    two!("pointshare::add", t, x + y, |p, q, _| pointshare::add(&p, &q));
    two!("pointshare::add_assign", t, x + y, |mut p, q, _| { pointshare::add_assign(&mut p, &q); p });
    two!("point - point", t, x - y, |p, q, _| p - q);
    two!("point - &point", t, x - y, |p, q, _| p - &q);
    two!("&point - &point", t, x - y, |p, q, _| &p - &q);
    two!("point -= &point", t, x - y, |mut p, q, _| { p -= &q; p });
    two!("pointshare::sub", t, x - y, |p, q, _| pointshare::sub(&p, &q));
    two!("pointshare::sub_assign", t, x - y, |mut p, q, _| { pointshare::sub_assign(&mut p, &q); p });
    two!("add_assign_public", t, x + c, |mut p, _, _| { pointshare::add_assign_public(&mut p, &c); p });
    two!("sub_assign_public", t, x - c, |mut p, _, _| { pointshare::sub_assign_public(&mut p, &c); p });
    two!("add_assign_public_affine", t, x + c, |mut p, _, _| { pointshare::add_assign_public_affine(&mut p, &c.into_affine()); p });
    two!("sub_assign_public_affine", t, x - c, |mut p, _, _| { pointshare::sub_assign_public_affine(&mut p, &c.into_affine()); p });
    two!("&point * &scalar", t, x * u, |p, _, _| &p * &u);
    two!("scalar_mul_public_scalar", t, x * u, |p, _, _| pointshare::scalar_mul_public_scalar(&p, &u));
    two!("scalar_mul_public_point", t, c * s, |_, _, f| pointshare::scalar_mul_public_point(f, &c));
    two!("promote_to_trivial_share", t, c, |_, _, _| pointshare::promote_to_trivial_share(&c));
    if n > 2 * t {
        two!("share * &point", 2 * t, x * s, |p, _, f| f * &p);
        two!("scalar_mul_local", 2 * t, x * s, |p, _, f| P::new(pointshare::scalar_mul_local(&p, f)));
    }
    Ok(())
}

fn msm(n: usize, t: usize, len: usize, rng: &mut ChaCha12Rng) -> R {
    type C = ark_bn254::G1Projective;
    let g: Vec<C> = (0..len).map(|i| if i % 7 == 3 { C::zero() } else { C::generator() * Bn::rand(rng) }).collect();
    let ga: Vec<_> = g.iter().map(|p| p.into_affine()).collect();
    let s: Vec<Bn> = (0..len).map(|i| value(i % 40, rng)).collect();
    let a = share_field_elements(&s, t, n, rng);
    let r: Vec<P<C>> = a.iter().map(|s| pointshare::msm_public_points(&ga, s)).collect();
    let want: C = g.iter().zip(&s).map(|(g, s)| *g * s).sum();
    ensure_eq!(openg(&r, t, rng), want, "msm_public_points of {len}");
    // affine and projective reinterpretations of point shares
    let raw: Vec<C> = g.clone();
    let ps: Vec<P<C>> = raw.iter().map(|p| P::new(*p)).collect();
    ensure_eq!(P::convert_slice(&ps), &raw[..], "point convert_slice");
    ensure_eq!(P::convert_vec(ps.clone()), raw, "point convert_vec");
    ensure_eq!(P::convert_slice_rev(&raw), &ps[..], "point convert_slice_rev");
    ensure_eq!(P::convert_vec_rev(raw.clone()), ps, "point convert_vec_rev");
    Ok(())
}

fn main() {
    let mut h = H::new("C03");
    for n in 1..=h.by(5, 9) {
        for t in 0..n {
            for k in 0..h.by(14, 60) {
                h.case("field operators F97", &format!("n={n} t={t} k={k}"), move |r| field::<F97>(n, t, k, r));
                h.case("field operators Bn254", &format!("n={n} t={t} k={k}"), move |r| field::<Bn>(n, t, k, r));
                h.case("field operators BLS12-381", &format!("n={n} t={t} k={k}"), move |r| field::<Bls>(n, t, k, r));
            }
        }
    }
    for (n, t) in [(1, 0), (3, 1), (5, 2), (4, 3)] {
        for k in 0..h.by(8, 32) {
            h.case("group operators G1", &format!("n={n} t={t} k={k}"), move |r| group::<ark_bn254::G1Projective>(n, t, k, r));
            h.case("group operators G2", &format!("n={n} t={t} k={k}"), move |r| group::<ark_bn254::G2Projective>(n, t, k, r));
            h.case("group operators BLS G1", &format!("n={n} t={t} k={k}"), move |r| group::<ark_bls12_381::G1Projective>(n, t, k, r));
        }
        for len in [0, 1, 2, 3, 7, 63, 64, 65, 1023, 1024, 1025, 2047, 2048, 2049, 4097, 9001] {
            h.case("vectors", &format!("F97 n={n} t={t} len={len}"), move |r| vectors::<F97>(n, t, len, r));
            h.case("vectors", &format!("Bn n={n} t={t} len={len}"), move |r| vectors::<Bn>(n, t, len, r));
        }
        for len in [0, 1, 2, 31, 33, 300] {
            h.case("msm", &format!("n={n} t={t} len={len}"), move |r| msm(n, t, len, r));
        }
    }
    let mut lens: Vec<usize> = (0..=h.by(70, 300)).collect();
    lens.extend([127, 128, 129, 130, 255, 256, 257, 511, 512, 513, 1000, 1024, 4099]);
    for len in lens {
        for threads in [1, 2, 3, 4, 8, 16] {
            for k in [0, 1, 2, 3, 7, 9] {
                h.case("eval_poly", &format!("Bn n=2 t=1 len={len} k={k} threads={threads}"), move |r| poly::<Bn>(2, 1, len, k, threads, r));
            }
            h.case("eval_poly", &format!("F12289 n=5 t=2 len={len} threads={threads}"), move |r| poly::<F12289>(5, 2, len, len + threads, threads, r));
        }
    }
    h.finish()
}
