//! C18: constraint evaluation and the two witness maps, against the polynomials computed naively in the clear.
use ark_ec::pairing::Pairing;
use ark_ff::Zero;
use co_groth16::{CircomGroth16Prover, CircomReduction, LibSnarkReduction, PlainGroth16Driver, R1CSToQAP, ShamirGroth16Driver};
use harness::mpc::{all, open_vec, secret, state};
use harness::snark::{R1cs, bary, circom_domain, domain_values, eval, library_gen, log_size, circom_h, dot, libsnark_h, r1cs};
use harness::{H, R, caught, ensure, ensure_eq};
use mpc_core::protocols::shamir::ShamirPrimeFieldShare;
use rand::Rng;

type Bn = ark_bn254::Bn254;
type Bls = ark_bls12_381::Bls12_381;

fn plain<P: Pairing>(r: &R1cs<P::ScalarField>, circom: bool) -> Result<Vec<P::ScalarField>, String> {
    let f = || if circom {
        CircomReduction::witness_map_from_matrices::<P, PlainGroth16Driver>(&mut (), &r.m, &r.inst, &r.wit)
    } else {
        LibSnarkReduction::witness_map_from_matrices::<P, PlainGroth16Driver>(&mut (), &r.m, &r.inst, &r.wit)
    };
    caught(f)?.map_err(|e| format!("{e:#}"))
}
fn same<F: PartialEq>(got: &[F], want: &[F], what: &str) -> R {
    ensure_eq!(got.len(), want.len(), "{what}: length");
    for (i, (g, w)) in got.iter().zip(want).enumerate() { ensure!(g == w, "{what}: entry {i} differs"); }
    Ok(())
}
/// random shares of degree t at 1..=n
fn share<F: ark_ff::PrimeField>(v: &[F], n: usize, t: usize, rng: &mut impl Rng) -> Vec<Vec<ShamirPrimeFieldShare<F>>> {
    let mut out = vec![vec![]; n];
    for x in v {
        let c: Vec<F> = (0..t).map(|_| F::rand(rng)).collect();
        for (i, o) in out.iter_mut().enumerate() {
            let p = F::from(i as u64 + 1);
            o.push(ShamirPrimeFieldShare::new(*x + p * c.iter().rev().fold(F::zero(), |a, c| a * p + c)));
        }
    }
    out
}
fn shamir<P: Pairing>(r: &R1cs<P::ScalarField>, circom: bool, n: usize, t: usize, rng: &mut impl Rng) -> R {
    let want = if circom { circom_h(r) } else { libsnark_h(r) };
    let w = share(&r.wit, n, t, rng);
    let got = all(n, |i, net| {
        let mut st = state::<P::ScalarField>(n, t, 1, net)?;
        if circom {
            CircomReduction::witness_map_from_matrices::<P, ShamirGroth16Driver>(&mut st, &r.m, &r.inst, &w[i])
        } else {
            LibSnarkReduction::witness_map_from_matrices::<P, ShamirGroth16Driver>(&mut st, &r.m, &r.inst, &w[i])
        }
    })?;
    for g in &got { ensure_eq!(g.len(), want.len(), "length"); }
    for i in 0..want.len() {
        let s = secret(&got.iter().map(|g| g[i]).collect::<Vec<_>>(), 2 * t)?;
        ensure!(s == want[i], "entry {i} of the shared vector opens to another value");
    }
    Ok(())
}
fn rows<P: Pairing>(rng: &mut impl Rng, n: usize, t: usize) -> R {
    let (ni, nw) = (rng.gen_range(1..=4), rng.gen_range(0..=4));
    let r = r1cs::<P::ScalarField>(rng, 6, ni, nw, false);
    let z = r.full();
    let w = share(&r.wit, n, t, rng);
    for row in r.m.a.iter().chain(&r.m.b).chain(&r.m.c) {
        let want = dot(row, &z);
        type D = PlainGroth16Driver;
        ensure_eq!(<D as CircomGroth16Prover<P>>::evaluate_constraint(0, row, &r.inst, &r.wit), want, "row in the clear");
        ensure_eq!(<D as CircomGroth16Prover<P>>::evaluate_constraint_half_share(0, row, &r.inst, &r.wit), want, "row in the clear, half share");
        type S = ShamirGroth16Driver;
        let a: Vec<Vec<_>> = (0..n).map(|i| vec![<S as CircomGroth16Prover<P>>::evaluate_constraint(i, row, &r.inst, &w[i])]).collect();
        ensure_eq!(open_vec(&a, t)?, vec![want], "row on shares");
        let h: Vec<_> = (0..n).map(|i| <S as CircomGroth16Prover<P>>::evaluate_constraint_half_share(i, row, &r.inst, &w[i])).collect();
        ensure_eq!(secret(&h, 2 * t)?, want, "row on half shares");
    }
    // the pieces of the driver
    let v: Vec<P::ScalarField> = (0..5).map(|k| harness::fields::value(k, rng)).collect();
    let p: Vec<P::ScalarField> = (0..5).map(|k| harness::fields::value(k + 3, rng)).collect();
    let sv = share(&v, n, t, rng);
    let sp = share(&p, n, t, rng);
    type S = ShamirGroth16Driver;
    let prom: Vec<_> = (0..n).map(|i| <S as CircomGroth16Prover<P>>::promote_to_trivial_shares(i, &v)).collect();
    ensure_eq!(open_vec(&prom, 0)?, v, "promoted values");
    ensure_eq!(<PlainGroth16Driver as CircomGroth16Prover<P>>::promote_to_trivial_shares(0, &v), v, "promoted values in the clear");
    let want: Vec<_> = v.iter().zip(&p).map(|(a, b)| *a * b).collect();
    let mut d = sv.clone();
    for x in d.iter_mut() { <S as CircomGroth16Prover<P>>::distribute_powers_and_mul_by_const(x, &p); }
    ensure_eq!(open_vec(&d, t)?, want, "powers distributed on shares");
    let mut d = v.clone();
    <PlainGroth16Driver as CircomGroth16Prover<P>>::distribute_powers_and_mul_by_const(&mut d, &p);
    ensure_eq!(d, want, "powers distributed in the clear");
    let half: Vec<_> = (0..n).map(|i| <S as CircomGroth16Prover<P>>::to_half_share(sv[i][0])).collect();
    ensure_eq!(secret(&half, 2 * t)?, v[0], "half share");
    let want2 = want.clone();
    let (sv, sp) = (&sv, &sp);
    let prod = all(n, |i, net| {
        let mut st = state::<P::ScalarField>(n, t, 1, net)?;
        Ok(<S as CircomGroth16Prover<P>>::local_mul_vec(sv[i].clone(), sp[i].clone(), &mut st))
    })?;
    for k in 0..5 { ensure_eq!(secret(&prod.iter().map(|x| x[k]).collect::<Vec<_>>(), 2 * t)?, want2[k], "local product {k}"); }
    Ok(())
}
fn curve<P: Pairing>(h: &mut H, name: &'static str) {
    let sizes: Vec<(usize, usize, usize)> = vec![(0, 1, 0), (1, 1, 0), (1, 1, 1), (2, 2, 2), (3, 1, 2), (3, 2, 2), (7, 1, 4), (8, 1, 4), (5, 3, 6), (12, 4, 9), (15, 2, 3), (30, 2, 9)];
    for (j, (nc, ni, nw)) in sizes.into_iter().enumerate() {
        for circom in [true, false] {
            for sat in [true, false] {
                h.case(name, &format!("plain {j} {circom} {sat}"), move |rng| {
                    let r = r1cs::<P::ScalarField>(rng, nc, ni, nw, sat);
                    let got = plain::<P>(&r, circom)?;
                    same(&got, &if circom { circom_h(&r) } else { libsnark_h(&r) }, "witness map")?;
                    if sat && !circom { ensure!(got.last().unwrap().is_zero(), "the quotient has too high a degree"); }
                    Ok(())
                });
            }
        }
    }
    for i in 0..h.by(12, 150) {
        h.case(name, &format!("random {i}"), move |rng| {
            let (nc, ni, nw) = (rng.gen_range(0..40), rng.gen_range(1..9), rng.gen_range(0..20));
            let sat = rng.r#gen();
            let r = r1cs::<P::ScalarField>(rng, nc, ni, nw, sat);
            same(&plain::<P>(&r, true)?, &circom_h(&r), "circom")?;
            same(&plain::<P>(&r, false)?, &libsnark_h(&r), "libsnark")
        });
    }
    for threads in [1usize, 2, 3, 5, 7, 16, 33] {
        h.case(name, &format!("threads {threads}"), move |rng| {
            let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().map_err(|e| e.to_string())?;
            for (nc, ni) in [(3usize, 1usize), (9, 3), (29, 3), (60, 5)] {
                let r = r1cs::<P::ScalarField>(rng, nc, ni, 7, false);
                same(&pool.install(|| plain::<P>(&r, true))?, &circom_h(&r), "circom")?;
                same(&pool.install(|| plain::<P>(&r, false))?, &libsnark_h(&r), "libsnark")?;
            }
            Ok(())
        });
    }
    for (j, (nc, ni)) in [(300usize, 1usize), (700, 5)].into_iter().enumerate() {
        if j > 0 && h.level == 0 && name != "bn254" { continue; }
        h.case(name, &format!("large {j}"), move |rng| {
            let r = r1cs::<P::ScalarField>(rng, nc, ni, 20, false);
            same(&plain::<P>(&r, true)?, &circom_h(&r), "circom")?;
            same(&plain::<P>(&r, false)?, &libsnark_h(&r), "libsnark")
        });
    }
    for (n, t) in [(1usize, 0usize), (3, 1), (4, 1), (5, 2), (7, 3)] {
        if n == 1 { h.case(name, "rows plain", move |rng| rows_plain::<P>(rng)); continue; }
        h.case(name, &format!("rows {n} {t}"), move |rng| { for _ in 0..4 { rows::<P>(rng, n, t)?; } Ok(()) });
        for k in 0..h.by(2, 10) {
            h.case(name, &format!("shared {n} {t} {k}"), move |rng| {
                let (nc, ni) = (rng.gen_range(0..=14), rng.gen_range(1..=4));
                let r = r1cs::<P::ScalarField>(rng, nc, ni, 6, k % 2 == 0);
                shamir::<P>(&r, true, n, t, rng)?;
                shamir::<P>(&r, false, n, t, rng)
            });
        }
    }
    h.case(name, "shared large", move |rng| {
        let r = r1cs::<P::ScalarField>(rng, 530, 3, 40, false);
        shamir::<P>(&r, true, 3, 1, rng)?;
        shamir::<P>(&r, false, 3, 1, rng)
    });
}
/// a domain of more than 2^16 elements, checked at single points
fn huge<P: Pairing>(rng: &mut impl Rng) -> R {
    use ark_ff::{Field, One, PrimeField, UniformRand};
    let r = r1cs::<P::ScalarField>(rng, 66000, 3, 20, true);
    let n = 1usize << log_size(66003);
    let [a, b, ab, c] = domain_values(&r);
    let h = plain::<P>(&r, false)?;
    ensure_eq!(h.len(), n, "length");
    let x = P::ScalarField::rand(rng);
    let v = bary(&[&a, &b, &c], library_gen(log_size(n)), x);
    ensure!(eval(&h, x) * (x.pow([n as u64]) - P::ScalarField::one()) == v[0] * v[1] - v[2], "the quotient over a large domain");
    let h = plain::<P>(&r, true)?;
    ensure_eq!(h.len(), n, "length");
    let (g, s) = circom_domain::<P::ScalarField>(log_size(n));
    for i in [0, 1, 32768, 65535, 65536, 65537, n - 1, rng.gen_range(0..n)] {
        let v = bary(&[&a, &b, &ab], g, s * g.pow([i as u64]));
        ensure!(h[i] == v[0] * v[1] - v[2], "entry {i} over a large domain");
    }
    let _ = P::ScalarField::MODULUS;
    Ok(())
}
fn rows_plain<P: Pairing>(rng: &mut impl Rng) -> R {
    for _ in 0..20 {
        let (ni, nw) = (rng.gen_range(1..=4), rng.gen_range(0..=4));
    let r = r1cs::<P::ScalarField>(rng, 6, ni, nw, false);
        let z = r.full();
        for row in r.m.a.iter().chain(&r.m.b) {
            ensure_eq!(<PlainGroth16Driver as CircomGroth16Prover<P>>::evaluate_constraint(0, row, &r.inst, &r.wit), dot(row, &z), "row in the clear");
        }
    }
    Ok(())
}
fn main() {
    let mut h = H::new("C18");
    curve::<Bn>(&mut h, "bn254");
    curve::<Bls>(&mut h, "bls12-381");
    h.case("bn254", "huge", move |rng| huge::<Bn>(rng));
    h.finish();
}
