//! C04: Shamir multiplication, inversion and opening by all parties.
use ark_ec::{CurveGroup, PrimeGroup};
use ark_ff::{PrimeField, UniformRand, Zero};
use harness::{H, R, ensure, ensure_eq, fields::*, mpc::*};
use mpc_core::protocols::shamir::{ShamirPointShare as P, ShamirPrimeFieldShare as S, arithmetic as ar, network::ShamirNetworkExt, pointshare as ps, *};
use mpc_core::MpcState;
use rand::Rng;
use rand_chacha::ChaCha12Rng;

/// shares of `v` per party
fn deal<F: PrimeField>(v: &[F], n: usize, t: usize, rng: &mut ChaCha12Rng) -> Vec<Vec<S<F>>> {
    share_field_elements(v, t, n, rng)
}
fn vals<F: PrimeField>(len: usize, k: usize, rng: &mut ChaCha12Rng) -> Vec<F> {
    (0..len).map(|i| value(if k < 12 { k } else { rng.gen_range(0..16) } + i % 3, rng)).collect()
}
fn same<T: PartialEq + std::fmt::Debug>(r: Vec<T>, want: T, what: &str) -> R {
    for (i, x) in r.iter().enumerate() {
        ensure_eq!(x, &want, "{what}, party {i}");
    }
    Ok(())
}

fn mults<F: PrimeField>(n: usize, t: usize, len: usize, k: usize, amount: usize, rng: &mut ChaCha12Rng) -> R {
    let (x, y): (Vec<F>, Vec<F>) = (vals(len, k, rng), vals(len, k / 2 + 1, rng));
    let (a, b) = (deal(&x, n, t, rng), deal(&y, n, t, rng));
    let xy: Vec<F> = x.iter().zip(&y).map(|(p, q)| *p * q).collect();
    let r = all(n, |i, net| {
        let mut st = state::<F>(n, t, amount, net)?;
        let v = ar::mul_vec(&a[i], &b[i], net, &mut st)?;
        let one = (0..len.min(5)).map(|j| ar::mul(a[i][j], b[i][j], net, &mut st)).collect::<eyre::Result<Vec<_>>>()?;
        let loc = ar::local_mul_vec(&a[i], &b[i]);
        let red = net.degree_reduce_many(&mut st, loc.clone())?;
        let mo = ar::mul_open_vec(&a[i], &b[i], net, &mut st)?;
        let sq = ar::mul_vec(&v, &red, net, &mut st)?;
        let o = ar::open_vec(&sq, net, &mut st)?;
        let o1 = (0..len.min(5)).map(|j| ar::open(a[i][j], net, &mut st)).collect::<eyre::Result<Vec<_>>>()?;
        Ok((v, one, loc, red, mo, o, o1))
    })?;
    let pick = |f: fn(&(Vec<S<F>>, Vec<S<F>>, Vec<F>, Vec<S<F>>, Vec<F>, Vec<F>, Vec<F>)) -> Vec<S<F>>| -> Vec<Vec<S<F>>> { r.iter().map(f).collect() };
    ensure_eq!(open_vec(&pick(|r| r.0.clone()), t)?, xy.clone(), "mul_vec");
    ensure_eq!(open_vec(&pick(|r| r.1.clone()), t)?, xy[..len.min(5)].to_vec(), "mul");
    ensure_eq!(open_vec(&pick(|r| S::convert_vec_rev(r.2.clone())), 2 * t)?, xy.clone(), "local_mul_vec");
    ensure_eq!(open_vec(&pick(|r| r.3.clone()), t)?, xy.clone(), "degree_reduce_many");
    same(r.iter().map(|r| r.4.clone()).collect(), xy.clone(), "mul_open_vec")?;
    same(r.iter().map(|r| r.5.clone()).collect(), xy.iter().map(|x| x.square()).collect(), "open_vec of a product of products")?;
    same(r.iter().map(|r| r.6.clone()).collect(), x[..len.min(5)].to_vec(), "open")
}

fn inverses<F: PrimeField>(n: usize, t: usize, len: usize, zero: Option<usize>, rng: &mut ChaCha12Rng) -> R {
    let mut x: Vec<F> = (0..len).map(|i| value(i + 1, rng)).map(|v: F| if v.is_zero() { F::from(3u64) } else { v }).collect();
    if let Some(z) = zero {
        x[z] = F::zero();
    }
    let c = F::rand(rng);
    let a = deal(&x, n, t, rng);
    let r = parties(n, |i, net| {
        let mut st = state::<F>(n, t, 5 * len + 5, net)?;
        // every party runs both even when the first fails
        let v = ar::inv_vec(&a[i], net, &mut st).map_err(|e| e.to_string());
        let one = (0..len.min(4)).map(|j| ar::inv(a[i][j], net, &mut st).map_err(|e| e.to_string())).collect::<Vec<_>>();
        let div = (0..len.min(4)).map(|j| ar::div(a[i][0], a[i][j], net, &mut st).map_err(|e| e.to_string())).collect::<Vec<_>>();
        let dps = (0..len.min(4)).map(|j| ar::div_public_by_shared(c, a[i][j], net, &mut st).map_err(|e| e.to_string())).collect::<Vec<_>>();
        let dsp = (0..len.min(4)).map(|j| ar::div_shared_by_public(a[i][j], x[0]).map_err(|e| e.to_string())).collect::<Vec<_>>();
        Ok((v, one, div, dps, dsp))
    });
    let r: Vec<_> = r.into_iter().enumerate().map(|(i, r)| r.map_err(|e| format!("party {i}: {e}"))).collect::<Result<_, _>>()?;
    if zero.is_some() {
        ensure!(r.iter().all(|r| r.0.is_err()), "inv_vec with a zero is not an error for every party");
    } else if len > 0 {
        let v: Vec<Vec<S<F>>> = r.iter().map(|r| r.0.clone()).collect::<Result<_, _>>()?;
        ensure_eq!(open_vec(&v, t)?, x.iter().map(|v| v.inverse().unwrap()).collect::<Vec<_>>(), "inv_vec");
    }
    let check = |get: &dyn Fn(usize, usize) -> Result<S<F>, String>, want: &dyn Fn(usize) -> Option<F>, name: &str| -> R {
        for j in 0..len.min(4) {
            match want(j) {
                None => ensure!((0..n).all(|i| get(i, j).is_err()), "{name} of zero is not an error for every party"),
                Some(w) => {
                    let v: Vec<S<F>> = (0..n).map(|i| get(i, j)).collect::<Result<_, _>>().map_err(|e| format!("{name}: {e}"))?;
                    ensure_eq!(open(&v, t)?, w, "{name}");
                }
            }
        }
        Ok(())
    };
    check(&|i, j| r[i].1[j].clone(), &|j| x[j].inverse(), "inv")?;
    check(&|i, j| r[i].2[j].clone(), &|j| x[j].inverse().map(|v| v * x[0]), "div")?;
    check(&|i, j| r[i].3[j].clone(), &|j| x[j].inverse().map(|v| v * c), "div_public_by_shared")?;
    check(&|i, j| r[i].4[j].clone(), &|j| x[0].inverse().map(|v| v * x[j]), "div_shared_by_public")
}

fn points<C: CurveGroup>(n: usize, t: usize, len: usize, k: usize, rng: &mut ChaCha12Rng) -> R {
    type Fr<C> = <C as PrimeGroup>::ScalarField;
    let s: Vec<Fr<C>> = vals(len, k, rng);
    let p: Vec<C> = (0..len).map(|i| match (k + i) % 4 { 0 => C::zero(), 1 => C::generator(), _ => C::rand(rng) }).collect();
    let a = deal(&s, n, t, rng);
    let mut b: Vec<Vec<P<C>>> = vec![vec![]; n];
    for q in &p {
        for (i, x) in share_curve_point(*q, t, n, rng).into_iter().enumerate() {
            b[i].push(x);
        }
    }
    let r = all(n, |i, net| {
        let mut st = state::<Fr<C>>(n, t, 2 * len, net)?;
        let m = (0..len).map(|j| ps::scalar_mul(&b[i][j], a[i][j], net, &mut st)).collect::<eyre::Result<Vec<_>>>()?;
        let half = (0..len).map(|j| ps::open_half_point(ps::scalar_mul_local(&b[i][j], a[i][j]), net, &mut st)).collect::<eyre::Result<Vec<_>>>()?;
        let o = (0..len).map(|j| ps::open_point(&m[j], net, &mut st)).collect::<eyre::Result<Vec<_>>>()?;
        let om = ps::open_point_many(&b[i], net, &mut st)?;
        let of = (0..len).map(|j| ps::open_point_and_field(&b[i][j], &a[i][j], net, &mut st)).collect::<eyre::Result<Vec<_>>>()?;
        let ofm = ps::open_point_and_field_many(&b[i], &a[i], net, &mut st)?;
        Ok((m, half, o, om, of, ofm))
    })?;
    for j in 0..len {
        let w = p[j] * s[j];
        ensure_eq!(open_point(&r.iter().map(|r| r.0[j]).collect::<Vec<_>>(), t)?, w, "scalar_mul");
        same(r.iter().map(|r| r.1[j]).collect(), w, "open_half_point")?;
        same(r.iter().map(|r| r.2[j]).collect(), w, "open_point")?;
        same(r.iter().map(|r| r.4[j]).collect(), (p[j], s[j]), "open_point_and_field")?;
    }
    same(r.iter().map(|r| r.3.clone()).collect(), p.clone(), "open_point_many")?;
    same(r.iter().map(|r| r.5.clone()).collect(), (p.clone(), s.clone()), "open_point_and_field_many")
}

/// interleaving of operations on one state, and on a fork of it
fn mixed<F: PrimeField>(n: usize, t: usize, steps: usize, k: usize, rng: &mut ChaCha12Rng) -> R {
    let x: Vec<F> = vals(4, k, rng);
    let a = deal(&x, n, t, rng);
    let plan: Vec<u8> = (0..steps).map(|_| rng.gen_range(0..5)).collect();
    let r = all(n, |i, net| {
        let mut st = state::<F>(n, t, 40, net)?;
        let mut fk = st.fork(10)?;
        let mut v = a[i].clone();
        let mut opened = vec![];
        for (q, p) in plan.iter().enumerate() {
            match p {
                0 => v[q % 4] = ar::mul(v[0], v[1], net, &mut st)?,
                1 => v = ar::mul_vec(&v, &a[i], net, &mut fk)?,
                2 => opened.push(ar::open(v[q % 4], net, &mut st)?),
                3 => opened.extend(ar::mul_open_vec(&v, &a[i], net, &mut fk)?),
                _ => v[q % 4] = ar::add_public(v[2], F::from(q as u64)),
            }
        }
        Ok((v, opened))
    })?;
    let (mut v, mut opened) = (x.clone(), vec![]);
    for (q, p) in plan.iter().enumerate() {
        match p {
            0 => v[q % 4] = v[0] * v[1],
            1 => v = v.iter().zip(&x).map(|(a, b)| *a * b).collect(),
            2 => opened.push(v[q % 4]),
            3 => opened.extend(v.iter().zip(&x).map(|(a, b)| *a * b)),
            _ => v[q % 4] = v[2] + F::from(q as u64),
        }
    }
    ensure_eq!(open_vec(&r.iter().map(|r| r.0.clone()).collect::<Vec<_>>(), t)?, v, "state after {plan:?}");
    same(r.iter().map(|r| r.1.clone()).collect(), opened, "values opened")
}

fn main() {
    let mut h = H::new("C04");
    let maxn = h.by(7, 9);
    for n in 2..=maxn {
        for t in 0..=(n - 1) / 2 {
            for (q, len) in [0usize, 1, 2, 3, 17].into_iter().enumerate() {
                for k in [q, q + 5, 20] {
                    h.case("multiplication", &format!("bn254 n={n} t={t} len={len} k={k}"), move |r| mults::<Bn>(n, t, len, k, 4 * len, r));
                }
                h.case("multiplication", &format!("f97 n={n} t={t} len={len}"), move |r| mults::<F97>(n, t, len, 20, len, r));
                h.case("points", &format!("bn254 n={n} t={t} len={len}"), move |r| points::<ark_bn254::G1Projective>(n, t, len.min(5), q, r));
            }
            h.case("multiplication", &format!("bls n={n} t={t}"), move |r| mults::<Bls>(n, t, 9, 20, 40, r));
            h.case("points", &format!("bls g2 n={n} t={t}"), move |r| points::<ark_bls12_381::G2Projective>(n, t, 3, 2, r));
            h.case("inversion", &format!("bn254 n={n} t={t}"), move |r| inverses::<Bn>(n, t, 6, None, r));
            h.case("inversion", &format!("bn254 n={n} t={t} len=1"), move |r| inverses::<Bn>(n, t, 1, None, r));
            for z in [0, 2, 5] {
                h.case("inversion of zero", &format!("bn254 n={n} t={t} zero at {z}"), move |r| inverses::<Bn>(n, t, 6, Some(z), r));
            }
            for k in 0..h.by(3, 20) {
                h.case("sequences", &format!("bn254 n={n} t={t} {k}"), move |r| mixed::<Bn>(n, t, 25, 20 + k, r));
            }
        }
    }
    for (n, t) in [(3usize, 1usize), (4, 1), (5, 2)] {
        h.case("long batches", &format!("bn254 n={n} t={t}"), move |r| mults::<Bn>(n, t, 2100, 20, 100, r));
        h.case("long batches", &format!("f12289 n={n} t={t}"), move |r| mults::<F12289>(n, t, 1025, 20, 1025, r));
    }
    h.finish()
}
