use ark_ec::{CurveGroup, PrimeGroup};
use ark_ff::{PrimeField, Zero};
use harness::{H, R, ensure, ensure_eq, fields::*};
use mpc_core::protocols::shamir::*;
use rand::{Rng, seq::SliceRandom};
use rand_chacha::ChaCha12Rng;

/// A choice of m positions out of 1..=n in random order.
fn choose(n: usize, m: usize, rng: &mut impl Rng) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=n).collect();
    v.shuffle(rng);
    v.truncate(m);
    v
}

fn eval<F: PrimeField>(p: &[F], x: F) -> F {
    let (mut r, mut pw) = (F::zero(), F::one());
    for c in p {
        r += *c * pw;
        pw *= x;
    }
    r
}

fn field<F: PrimeField>(n: usize, t: usize, k: usize, rng: &mut ChaCha12Rng) -> R {
    let s: F = value(k, rng);
    let sh = share_field_element(s, t, n, rng);
    ensure_eq!(sh.len(), n, "number of shares");
    for m in (t + 1)..=n {
        let pos = choose(n, m, rng);
        let sel: Vec<_> = pos.iter().map(|p| sh[p - 1]).collect();
        ensure_eq!(combine_field_element(&sel, &pos, t).ok(), Some(s), "combine_field_element positions {pos:?}");
    }
    // the first t+1 and the last t+1
    for pos in [(1..=t + 1).collect::<Vec<_>>(), (n - t..=n).collect(), (n - t..=n).rev().collect()] {
        let sel: Vec<_> = pos.iter().map(|p| sh[p - 1]).collect();
        ensure_eq!(combine_field_element(&sel, &pos, t).ok(), Some(s), "combine_field_element positions {pos:?}");
    }
    // all shares lie on one polynomial of degree at most t
    if n > t + 1 {
        let base: Vec<usize> = (1..=t + 1).collect();
        let vals: Vec<F> = sh[..t + 1].iter().map(|x| x.inner()).collect();
        for i in t + 2..=n {
            let mut want = F::zero();
            for (a, v) in base.iter().zip(&vals) {
                let (mut nu, mut de) = (F::one(), F::one());
                for b in &base {
                    if a != b {
                        nu *= F::from(i as u64) - F::from(*b as u64);
                        de *= F::from(*a as u64) - F::from(*b as u64);
                    }
                }
                want += *v * nu / de;
            }
            ensure_eq!(sh[i - 1].inner(), want, "share {i} off the polynomial");
        }
    }
    for bad in 0..=t {
        let pos = choose(n, bad, rng);
        let sel: Vec<_> = pos.iter().map(|p| sh[p - 1]).collect();
        ensure!(combine_field_element(&sel, &pos, t).is_err(), "{bad} shares accepted for degree {t}");
    }
    let pos = choose(n, n, rng);
    let sel: Vec<_> = pos.iter().map(|p| sh[p - 1]).collect();
    ensure!(combine_field_element(&sel, &pos[..n - 1], t).is_err(), "shares without position accepted");
    ensure!(combine_field_element(&sel[..n - 1], &pos, t).is_err(), "positions without share accepted");
    Ok(())
}

fn vector<F: PrimeField>(n: usize, t: usize, len: usize, rng: &mut ChaCha12Rng) -> R {
    let s: Vec<F> = (0..len).map(|i| value(if len < 12 { i } else { i % 40 }, rng)).collect();
    let sh = share_field_elements(&s, t, n, rng);
    ensure_eq!(sh.len(), n, "number of parties");
    for m in [t + 1, n] {
        let pos = choose(n, m, rng);
        let sel: Vec<_> = pos.iter().map(|p| sh[p - 1].clone()).collect();
        ensure_eq!(combine_field_elements(&sel, &pos, t).ok(), Some(s.clone()), "combine_field_elements positions {pos:?}");
        ensure!(combine_field_elements(&sel[..t], &pos[..t], t).is_err(), "{t} shares accepted for degree {t}");
        ensure!(combine_field_elements(&sel, &pos[1..], t).is_err(), "positions missing accepted");
        for j in 0..m.min(4) {
            if m > 1 && len > 0 {
                let mut bad = sel.clone();
                bad[j].pop();
                ensure!(!matches!(harness::caught(|| combine_field_elements(&bad, &pos, t)), Ok(Ok(_)) | Err(_)), "vectors of different lengths accepted (party {j})");
                let mut bad = sel.clone();
                let x = bad[j][0];
                bad[j].push(x);
                ensure!(!matches!(harness::caught(|| combine_field_elements(&bad, &pos, t)), Ok(Ok(_)) | Err(_)), "vectors of different lengths accepted (party {j})");
            }
        }
        if m > t + 1 && len > 0 {
            let mut bad = sel.clone();
            bad[m - 1].pop();
            ensure!(combine_field_elements(&bad, &pos, t).is_err(), "vectors of different lengths accepted (last party)");
        }
    }
    Ok(())
}

fn point<C: CurveGroup>(n: usize, t: usize, k: usize, rng: &mut ChaCha12Rng) -> R {
    let s = C::generator() * value::<C::ScalarField>(k, rng);
    let sh = share_curve_point(s, t, n, rng);
    ensure_eq!(sh.len(), n, "number of shares");
    for m in (t + 1)..=n {
        let pos = choose(n, m, rng);
        let sel: Vec<_> = pos.iter().map(|p| sh[p - 1]).collect();
        ensure_eq!(combine_curve_point(&sel, &pos, t).ok(), Some(s), "combine_curve_point positions {pos:?}");
    }
    for bad in 0..=t {
        let pos = choose(n, bad, rng);
        let sel: Vec<_> = pos.iter().map(|p| sh[p - 1]).collect();
        ensure!(combine_curve_point(&sel, &pos, t).is_err(), "{bad} shares accepted for degree {t}");
    }
    let pos = choose(n, n, rng);
    let sel: Vec<_> = pos.iter().map(|p| sh[p - 1]).collect();
    ensure!(combine_curve_point(&sel, &pos[..n - 1], t).is_err(), "shares without position accepted");
    Ok(())
}

#[cfg(feature = "internals")]
fn helpers<F: PrimeField>(n: usize, k: usize, rng: &mut ChaCha12Rng) -> R {
    // interpolation through n random points
    let pos = choose(n + 4, n, rng);
    let vals: Vec<F> = (0..n).map(|i| value(if k == 0 { i } else { 99 }, rng)).collect();
    let pre = precompute_interpolation_polys::<F>(&pos);
    let p = interpolate_poly_from_precomputed(&vals, &pre);
    ensure_eq!(p.len(), n, "interpolation polynomial length");
    for (a, v) in pos.iter().zip(&vals) {
        ensure_eq!(eval(&p, F::from(*a as u64)), *v, "interpolation at {a}");
        ensure_eq!(evaluate_poly(&p, F::from(*a as u64)), *v, "evaluate_poly at {a}");
    }
    // prescribed zeros
    let s: F = value(k, rng);
    let pre = interpolation_poly_from_zero_points::<F>(&pos);
    ensure_eq!(pre.len(), n + 1, "zero polynomial length");
    let p = poly_with_zeros_from_precomputed(&s, pre.clone());
    let q = interpolate_poly_from_secret_and_zeros(&s, &pos);
    ensure_eq!(p, q, "poly_with_zeros_from_precomputed against interpolate_poly_from_secret_and_zeros");
    ensure_eq!(eval(&p, F::zero()), s, "value at 0");
    for a in &pos {
        ensure_eq!(eval(&p, F::from(*a as u64)), F::zero(), "zero at {a}");
    }
    let at = choose(n + 6, 3.min(n), rng);
    let sh = share_with_zeros(&s, &pos, &at);
    for (a, v) in at.iter().zip(&sh) {
        ensure_eq!(*v, eval(&p, F::from(*a as u64)), "share_with_zeros at {a}");
    }
    Ok(())
}

#[cfg(feature = "internals")]
fn helpers_point(n: usize, k: usize, rng: &mut ChaCha12Rng) -> R {
    type C = ark_bn254::G1Projective;
    type F = ark_bn254::Fr;
    let g = C::generator();
    let pos = choose(n + 4, n, rng);
    let pre = interpolation_poly_from_zero_points::<F>(&pos);
    let s: F = value(k, rng);
    let p = poly_with_zeros_from_precomputed(&s, pre.clone());
    let pp = poly_with_zeros_from_precomputed_point(&(g * s), &pre);
    ensure_eq!(pp, p.iter().map(|c| g * c).collect::<Vec<_>>(), "group polynomial with zeros");
    for a in [0u64, 1, 5] {
        ensure_eq!(evaluate_poly_point(&pp, F::from(a)), g * eval(&p, F::from(a)), "evaluate_poly_point at {a}");
    }
    let pos = choose(n + 2, n, rng);
    let l = lagrange_from_coeff::<F>(&pos);
    let c: Vec<F> = (0..n).map(|i| value(if k == 0 { i } else { 99 }, rng)).collect();
    let v: Vec<F> = pos.iter().map(|a| eval(&c, F::from(*a as u64))).collect();
    ensure_eq!(reconstruct(&v, &l), c[0], "reconstruct");
    let vp: Vec<C> = v.iter().map(|x| g * x).collect();
    ensure_eq!(reconstruct_point(&vp, &l), g * c[0], "reconstruct_point");
    Ok(())
}

fn main() {
    let mut h = H::new("C01");
    let nmax = h.by(9, 14);
    for n in 1..=nmax {
        for t in 0..n {
            for k in 0..h.by(10, 30) {
                h.case("field/bn254", &format!("n={n} t={t} k={k}"), move |r| field::<Bn>(n, t, k, r));
            }
            for k in [0, 2, 9, 10, 11] {
                h.case("field/12289", &format!("n={n} t={t} k={k}"), move |r| field::<F12289>(n, t, k, r));
                h.case("field/bls12-381", &format!("n={n} t={t} k={k}"), move |r| field::<Bls>(n, t, k, r));
                h.case("field/17", &format!("n={n} t={t} k={k}"), move |r| field::<F17>(n, t, k, r));
            }
            for len in [0, 1, 2, 3, 7, 16, 33] {
                h.case("vector/bn254", &format!("n={n} t={t} len={len}"), move |r| vector::<Bn>(n, t, len, r));
            }
            for k in [0, 1, 2, 9] {
                h.case("point/bn254-g1", &format!("n={n} t={t} k={k}"), move |r| point::<ark_bn254::G1Projective>(n, t, k, r));
            }
            h.case("point/bls12-381-g2", &format!("n={n} t={t}"), move |r| point::<ark_bls12_381::G2Projective>(n, t, 9, r));
        }
    }
    for (n, t) in [(3, 1), (10, 6), (16, 15), (31, 10), (40, 19), (64, 31)] {
        h.case("field/bn254", &format!("n={n} t={t} k=12"), move |r| field::<Bn>(n, t, 12, r));
        h.case("vector/bn254", &format!("n={n} t={t} len=5"), move |r| vector::<Bn>(n, t, 5, r));
    }
    for len in [64, 100, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4097] {
        h.case("vector/bn254", &format!("n=5 t=2 len={len}"), move |r| vector::<Bn>(5, 2, len, r));
    }
    #[cfg(feature = "internals")]
    for n in 1..=h.by(12, 20) {
        for k in 0..10 {
            h.case("helpers/bn254", &format!("n={n} k={k}"), move |r| helpers::<Bn>(n, k, r));
            h.case("helpers/12289", &format!("n={n} k={k}"), move |r| helpers::<F12289>(n, k, r));
            h.case("helpers/point", &format!("n={n} k={k}"), move |r| helpers_point(n, k, r));
        }
    }
    let _ = eval::<Bn>(&[Bn::zero()], Bn::zero());
    h.finish()
}
