//! C21: the polynomials of the PLONK prover against the protocol's identities, its commitments at a known secret,
//! proofs of the plain and the Shamir prover against the verification equation, and the reading of witness signals.
use ark_ec::{AffineRepr, CurveGroup, pairing::Pairing, short_weierstrass::{Affine, Projective, SWCurveConfig}};
use ark_ff::{Field, One, PrimeField, UniformRand, Zero};
use circom_types::plonk::PlonkProof;
use circom_types::traits::CircomArkworksPairingBridge;
use co_circom_types::SharedWitness;
use co_plonk::{Plonk, ShamirCoPlonk};
use harness::mpc::all;
use harness::plonk::{Circuit, Shape, accepts, circuit, circom_json::G2, ifft};
use harness::snark::{eval, powers};
use harness::{H, R, caught, ensure, ensure_eq};
use mpc_core::protocols::shamir::ShamirPrimeFieldShare;
use mpc_net::local::LocalNetwork;
use rand::Rng;
use std::sync::{Arc, Mutex};

fn witness<P: Pairing + CircomArkworksPairingBridge>(c: &Circuit<P>) -> SharedWitness<P::ScalarField, P::ScalarField> {
    SharedWitness { public_inputs: c.public_file(), witness: c.private() }
}
fn prove<P, C>(c: &Circuit<P>, w: SharedWitness<P::ScalarField, P::ScalarField>) -> Result<Result<PlonkProof<P>, String>, String>
where P: Pairing<G1 = Projective<C>, G1Affine = Affine<C>> + CircomArkworksPairingBridge, C: SWCurveConfig<ScalarField = P::ScalarField, BaseField: PrimeField> {
    caught(|| Plonk::<P>::plain_prove(Arc::new(c.zkey.clone()), w).map_err(|e| format!("{e:#}")))
}
fn share<F: PrimeField>(v: &[F], n: usize, t: usize, rng: &mut impl Rng) -> Vec<Vec<ShamirPrimeFieldShare<F>>> {
    let mut out = vec![vec![]; n];
    for x in v {
        let c: Vec<F> = (0..t).map(|_| F::rand(rng)).collect();
        for (i, o) in out.iter_mut().enumerate() {
            let p = F::from(i as u64 + 1);
            o.push(ShamirPrimeFieldShare::new(*x + p * eval(&c, p)));
        }
    }
    out
}
fn honest<P, C>(c: &Circuit<P>, p: &PlonkProof<P>) -> R
where P: Pairing<G1 = Projective<C>, G1Affine = Affine<C>> + CircomArkworksPairingBridge, C: SWCurveConfig<ScalarField = P::ScalarField, BaseField: PrimeField> {
    ensure!(accepts(&c.vk, p, &c.public()), "the proof does not satisfy the verification equation");
    ensure!(caught(|| Plonk::<P>::verify(&c.vk, p, &c.public()))?.is_ok(), "the verifier refuses the proof");
    Ok(())
}
fn shamir<P, C>(c: &Circuit<P>, n: usize, t: usize, rng: &mut impl Rng) -> R
where P: Pairing<G1 = Projective<C>, G1Affine = Affine<C>> + CircomArkworksPairingBridge, C: SWCurveConfig<ScalarField = P::ScalarField, BaseField: PrimeField> {
    let nets: Vec<Vec<LocalNetwork>> = (0..8).map(|_| LocalNetwork::new(n)).collect();
    let mut per: Vec<Vec<LocalNetwork>> = (0..n).map(|_| vec![]).collect();
    for net in nets { for (i, x) in net.into_iter().enumerate() { per[i].push(x); } }
    let per: Vec<Mutex<Option<[LocalNetwork; 8]>>> = per.into_iter().map(|v| Mutex::new(Some(v.try_into().map_err(|_| ()).unwrap()))).collect();
    let shares = share(&c.private(), n, t, rng);
    let zkey = Arc::new(c.zkey.clone());
    let proofs = all(n, |i, _| {
        let nets = per[i].lock().unwrap().take().unwrap();
        let w = SharedWitness { public_inputs: c.public_file(), witness: shares[i].clone() };
        ShamirCoPlonk::<P>::prove(&nets, n, t, zkey.clone(), w)
    })?;
    for (i, p) in proofs.iter().enumerate() { ensure!(same(p, &proofs[0]), "parties 0 and {i} have different proofs"); }
    honest(c, &proofs[0])
}
fn same<P: Pairing>(p: &PlonkProof<P>, q: &PlonkProof<P>) -> bool
where P: CircomArkworksPairingBridge {
    let g = |p: &PlonkProof<P>| [p.a, p.b, p.c, p.z, p.t1, p.t2, p.t3, p.wxi, p.wxiw];
    let s = |p: &PlonkProof<P>| [p.eval_a, p.eval_b, p.eval_c, p.eval_s1, p.eval_s2, p.eval_zw];
    g(p) == g(q) && s(p) == s(q)
}
/// shapes: few and many public inputs, every row of the domain used, nothing private, chains of derived signals
fn shape(i: usize, rng: &mut impl Rng) -> Shape {
    let (public, private, derived, gates) = match i % 12 {
        0 => (0, 3, 0, 5), 1 => (0, 2, 4, 8), 2 => (1, 1, 0, 7), 3 => (3, 0, 2, 5), 4 => (8, 2, 1, 8), 5 => (1, 4, 12, 15),
        6 => (2, 3, 1, 1), 7 => (7, 0, 0, 1), 8 => (9, 1, 3, 4), 9 => (33, 5, 40, 31), 10 => (1, 0, 1, 0),
        _ => (rng.gen_range(0..6), rng.gen_range(0..6), rng.gen_range(0..6), rng.gen_range(1..30)),
    };
    Shape { public, private, derived, gates, sparse: i % 5 == 3 }
}
fn run<P, C>(h: &mut H, name: &'static str)
where P: Pairing<G1 = Projective<C>, G1Affine = Affine<C>, G2Affine: G2> + CircomArkworksPairingBridge, C: SWCurveConfig<ScalarField = P::ScalarField, BaseField: PrimeField> {
    for i in 0..h.by(12, 120) {
        h.case(name, &format!("plain {i}"), move |rng| {
            let s = shape(i, rng);
            let c = circuit::<P>(rng, s, true);
            let p = prove(&c, witness(&c)).and_then(|r| r).map_err(|e| format!("{s:?}: {e}"))?;
            honest(&c, &p).map_err(|e| format!("{s:?}: {e}"))
        });
        h.case(name, &format!("unsatisfied {i}"), move |rng| {
            let s = shape(i, rng);
            if s.gates == 0 { return Ok(()); }
            let c = circuit::<P>(rng, s, false);
            if let Ok(p) = prove(&c, witness(&c)).map_err(|e| format!("{s:?}: {e}"))? { ensure!(!accepts(&c.vk, &p, &c.public()), "{s:?}: a proof of a broken circuit holds"); }
            Ok(())
        });
    }
    for i in 0..h.by(6, 60) {
        h.case(name, &format!("shamir {i}"), move |rng| {
            let (n, t) = [(3, 1), (5, 2), (4, 1), (6, 2)][(i + i / 4) % 4];
            let s = shape([1, 3, 5, 0, 4, 11, 2, 7, 8][i % 9], rng);
            let c = circuit::<P>(rng, s, true);
            shamir(&c, n, t, rng).map_err(|e| format!("({n},{t}) {s:?}: {e}"))
        });
    }
    for i in 0..h.by(8, 60) {
        h.case(name, &format!("witness too short {i}"), move |rng| {
            let s = Shape { public: i % 3, private: 4, derived: i % 2, gates: 12, sparse: false };
            let c = circuit::<P>(rng, s, true);
            let used = |k: usize| c.zkey.map_a.iter().chain(&c.zkey.map_b).chain(&c.zkey.map_c).any(|j| *j == k) || c.zkey.additions.iter().any(|a| a.signal_id1 as usize == k || a.signal_id2 as usize == k);
            for keep in 0..4 {
                let missing = (keep..4).any(|k| used(1 + s.public + k));
                let mut w = witness(&c);
                w.witness.truncate(keep);
                let got = prove(&c, w).map_err(|e| format!("{s:?}, {keep} of 4 private values: {e}"))?;
                ensure!(got.is_err() || !missing, "{keep} of 4 private values are enough for a proof");
            }
            for keep in 1..=s.public {
                let mut w = witness(&c);
                w.public_inputs.truncate(keep);
                let got = prove(&c, w).map_err(|e| format!("{s:?}, {keep} of {} public values: {e}", s.public + 1))?;
                ensure!(got.is_err(), "{keep} of {} public values are enough for a proof", s.public + 1);
            }
            Ok(())
        });
        h.case(name, &format!("signal out of range {i}"), move |rng| {
            let s = Shape { public: i % 3, private: 2, derived: i % 4, gates: 6, sparse: false };
            let mut c = circuit::<P>(rng, s, true);
            let nv = c.zkey.n_vars;
            let k = [nv, nv + 1, nv + 100, usize::MAX][i % 4];
            match i % 3 { 0 => c.zkey.map_a[s.public] = k, 1 => c.zkey.map_b[s.public] = k, _ => c.zkey.map_c[s.public] = k }
            let got = prove(&c, witness(&c)).map_err(|e| format!("signal {k} of {nv}: {e}"))?;
            ensure!(got.is_err(), "signal {k} of {nv} is taken");
            Ok(())
        });
    }
    #[cfg(feature = "internals")]
    for i in 0..h.by(14, 150) {
        h.case(name, &format!("signals {i}"), move |rng| inner::signals::<P, C>(rng, i));
        h.case(name, &format!("polynomials {i}"), move |rng| {
            let s = shape(i, rng);
            let c = circuit::<P>(rng, s, true);
            caught(|| inner::rounds(&c, i, rng)).and_then(|r| r).map_err(|e| format!("{s:?}: {e}"))
        });
    }
}
#[cfg(feature = "internals")]
mod inner {
    use super::*;
    use co_plonk::{mpc::plain::PlainPlonkDriver, plonk_utils::get_witness, round1::Round1, types::PlonkWitness};
    use harness::plonk::fft;

    pub fn signals<P, C>(rng: &mut impl Rng, i: usize) -> R
    where P: Pairing<G1 = Projective<C>, G1Affine = Affine<C>, G2Affine: G2> + CircomArkworksPairingBridge, C: SWCurveConfig<ScalarField = P::ScalarField, BaseField: PrimeField> {
        let s = Shape { public: i % 5, private: i / 2 % 4, derived: i / 3 % 4, gates: 3, sparse: false };
        let c = circuit::<P>(rng, s, true);
        let nv = c.zkey.n_vars;
        let (pv, av) = (1 + s.public, nv - s.derived);
        let w = PlonkWitness::<P, PlainPlonkDriver> { public_inputs: c.values[..pv].to_vec(), witness: c.values[pv..av].to_vec(), addition_witness: c.values[av..].to_vec() };
        for k in 0..nv + 3 {
            let got = caught(|| get_witness::<P, PlainPlonkDriver>(0, &w, &c.zkey, k))?;
            match c.values.get(k) {
                Some(v) => ensure!(got.as_ref().ok() == Some(v), "signal {k} of {s:?}: {got:?} instead of {v}"),
                None => ensure!(got.is_err(), "signal {k} of {s:?}: {got:?} instead of an error"),
            }
        }
        Ok(())
    }
    fn blinders<F: PrimeField>(rng: &mut impl Rng, i: usize) -> [F; 11] {
        std::array::from_fn(|j| match i % 4 { 0 => F::rand(rng), 1 => F::zero(), 2 => if j % 3 == i / 4 % 3 { F::zero() } else { F::rand(rng) }, _ => if j == i / 4 % 11 { -F::one() } else { F::zero() } })
    }
    pub fn rounds<P, C>(c: &Circuit<P>, i: usize, rng: &mut impl Rng) -> R
    where P: Pairing<G1 = Projective<C>, G1Affine = Affine<C>> + CircomArkworksPairingBridge, C: SWCurveConfig<ScalarField = P::ScalarField, BaseField: PrimeField> {
        let e = |e: co_plonk::PlonkProofError| e.to_string();
        let (n, w) = (c.zkey.domain_size, c.gen_);
        let one = P::ScalarField::one();
        let commit = |p: &[P::ScalarField]| (P::G1Affine::generator() * eval(p, c.tau)).into_affine();
        let w4 = harness::snark::circom_domain::<P::ScalarField>((4 * n).trailing_zeros() as usize).0;
        let zh = |x: P::ScalarField| x.pow([n as u64]) - one;
        let nets = [(); 8];
        let mut st = ();
        let mut r1 = Round1::<P, PlainPlonkDriver, ()>::init_round(&nets, &mut st, &c.zkey, witness(c)).map_err(e)?;
        ensure_eq!(r1.data.witness.addition_witness, c.values[c.values.len() - c.zkey.n_additions..].to_vec(), "derived signals");
        let b = blinders::<P::ScalarField>(rng, i);
        r1.challenges.b = b;
        let r2 = r1.round1().map_err(e)?;
        // values on the domain plus low-degree multiples of the vanishing polynomial
        let blinded = |v: &[P::ScalarField], f: &[P::ScalarField]| { let mut p = ifft(v, w); p.resize(n + f.len(), P::ScalarField::zero()); for (j, x) in f.iter().enumerate() { p[j] -= x; p[n + j] += x; } p };
        let extended = |v: &[P::ScalarField]| { let mut p = ifft(v, w); p.resize(4 * n, P::ScalarField::zero()); fft(&p, w4) };
        let wires = c.wires();
        let want: Vec<_> = (0..3).map(|k| blinded(&wires[k], &[b[2 * k + 1], b[2 * k]])).collect();
        for (k, p) in [&r2.polys.a, &r2.polys.b, &r2.polys.c].into_iter().enumerate() {
            ensure!(p.poly == want[k], "wire polynomial {k}");
            ensure!(p.eval == extended(&wires[k]), "extended values of wire {k}");
        }
        for (k, p) in [r2.proof.commit_a, r2.proof.commit_b, r2.proof.commit_c].into_iter().enumerate() { ensure!(p.into_affine() == commit(&want[k]), "commitment to wire {k}"); }
        let r3 = r2.round2().map_err(e)?;
        let (be, ga) = (r3.challenges.beta, r3.challenges.gamma);
        let vk = &c.zkey.verifying_key;
        let (k1, k2) = (vk.k1, vk.k2);
        let mut z = vec![one];
        for j in 0..n {
            let x = w.pow([j as u64]);
            let num = (wires[0][j] + be * x + ga) * (wires[1][j] + be * k1 * x + ga) * (wires[2][j] + be * k2 * x + ga);
            let den = (wires[0][j] + be * c.sel[5][j] + ga) * (wires[1][j] + be * c.sel[6][j] + ga) * (wires[2][j] + be * c.sel[7][j] + ga);
            z.push(z[j] * num * den.inverse().ok_or("no inverse")?);
        }
        ensure!(z.pop() == Some(one), "the grand product is one");
        let zp = blinded(&z, &[b[8], b[7], b[6]]);
        ensure!(r3.polys.z.poly == zp, "permutation polynomial");
        ensure!(r3.polys.z.eval == extended(&z), "extended values of the permutation polynomial");
        ensure!(r3.proof.commit_z.into_affine() == commit(&zp), "commitment to the permutation polynomial");
        let r4 = r3.round3().map_err(e)?;
        let (al, al2) = (r4.challenges.alpha, r4.challenges.alpha2);
        ensure!(al2 == al * al, "square of alpha");
        let (t1, t2, t3) = (r4.polys.t1.clone(), r4.polys.t2.clone(), r4.polys.t3.clone());
        ensure_eq!((t1.len(), t2.len()), (n + 1, n + 1), "parts of the quotient");
        ensure!(t3.len() <= n + 6, "third part of the quotient");
        ensure_eq!((t1[n], t2[n]), (b[9], b[10]), "blinding of the quotient's parts");
        let sel: Vec<_> = c.sel.iter().map(|v| ifft(v, w)).collect();
        let lag: Vec<_> = (0..c.n_public.max(1)).map(|j| { let mut v = vec![P::ScalarField::zero(); n]; v[j] = one; ifft(&v, w) }).collect();
        let pi = |x| -c.public().iter().zip(&lag).map(|(v, l)| eval(l, x) * v).sum::<P::ScalarField>();
        for _ in 0..3 {
            let x = P::ScalarField::rand(rng);
            let [a, bb, cc] = [0, 1, 2].map(|k| eval(&want[k], x));
            let s: Vec<_> = sel.iter().map(|p| eval(p, x)).collect();
            let gate = s[0] * a * bb + s[1] * a + s[2] * bb + s[3] * cc + s[4] + pi(x);
            let p1 = (a + be * x + ga) * (bb + be * k1 * x + ga) * (cc + be * k2 * x + ga) * eval(&zp, x);
            let p2 = (a + be * s[5] + ga) * (bb + be * s[6] + ga) * (cc + be * s[7] + ga) * eval(&zp, x * w);
            let all = gate + al * (p1 - p2) + al2 * (eval(&zp, x) - one) * eval(&lag[0], x);
            let xn = x.pow([n as u64]);
            let t = eval(&t1, x) + xn * eval(&t2, x) + xn * xn * eval(&t3, x);
            ensure!(t * zh(x) == all, "quotient polynomial");
        }
        for (k, (p, t)) in [(r4.proof.commit_t1, &t1), (r4.proof.commit_t2, &t2), (r4.proof.commit_t3, &t3)].into_iter().enumerate() { ensure!(p.into_affine() == commit(t), "commitment to part {k} of the quotient"); }
        let r5 = r4.round4().map_err(e)?;
        let xi = r5.challenges.xi;
        let p = r5.round5().map_err(e)?;
        let ev = [eval(&want[0], xi), eval(&want[1], xi), eval(&want[2], xi), eval(&sel[5], xi), eval(&sel[6], xi), eval(&zp, xi * w)];
        ensure_eq!([p.eval_a, p.eval_b, p.eval_c, p.eval_s1, p.eval_s2, p.eval_zw], ev, "openings");
        // the linearisation and the two opening polynomials at the secret
        let x = c.tau;
        let [a, bb, cc, s1, s2, zw] = ev;
        let s: Vec<_> = sel.iter().map(|p| eval(p, x)).collect();
        let l0 = eval(&lag[0], xi);
        let xn = xi.pow([n as u64]);
        let perm = al * (a + be * s1 + ga) * (bb + be * s2 + ga) * zw;
        let r = a * bb * s[0] + a * s[1] + bb * s[2] + cc * s[3] + s[4] + pi(xi)
            + al * (a + be * xi + ga) * (bb + be * k1 * xi + ga) * (cc + be * k2 * xi + ga) * eval(&zp, x) - perm * (cc + be * s[7] + ga)
            + al2 * l0 * (eval(&zp, x) - one) - zh(xi) * (eval(&t1, x) + xn * eval(&t2, x) + xn * xn * eval(&t3, x));
        let v = powers(harness::plonk::challenges(&c.vk, &p, &c.public()).v, 6);
        let num = r + v[1] * (eval(&want[0], x) - a) + v[2] * (eval(&want[1], x) - bb) + v[3] * (eval(&want[2], x) - cc) + v[4] * (s[5] - s1) + v[5] * (s[6] - s2);
        let at = |num: P::ScalarField, y: P::ScalarField| (P::G1Affine::generator() * (num * (x - y).inverse().unwrap())).into_affine();
        ensure!(p.wxi == at(num, xi), "opening polynomial at xi");
        ensure!(p.wxiw == at(eval(&zp, x) - zw, xi * w), "opening polynomial at xi times omega");
        ensure!(p.protocol == "plonk" && p.curve == P::get_circom_name(), "names");
        ensure!(p.a == commit(&want[0]) && p.b == commit(&want[1]) && p.c == commit(&want[2]) && p.z == commit(&zp) && p.t1 == commit(&t1) && p.t2 == commit(&t2) && p.t3 == commit(&t3), "the commitments are the proof's");
        honest(c, &p)
    }
}
fn main() {
    let mut h = H::new("C21");
    run::<ark_bn254::Bn254, _>(&mut h, "bn254");
    run::<ark_bls12_381::Bls12_381, _>(&mut h, "bls12-381");
    h.finish();
}
#[allow(unused)]
fn keep() -> R { let _ = (ifft::<ark_bn254::Fr>, ark_bn254::Fr::rand(&mut rand::thread_rng()), powers::<ark_bn254::Fr>); let _ = ark_bn254::Fr::one().inverse(); Ok(()) }
