//! C19: Groth16 proofs of the plain and the Shamir prover, against the formula at the secrets of the set-up, and against the verifier.
use ark_ec::{AffineRepr, CurveGroup, pairing::Pairing, short_weierstrass::{Affine, Projective, SWCurveConfig}};
use ark_ff::{One, Zero};
use co_circom_types::SharedWitness;
use co_groth16::{CircomReduction, Groth16, LibSnarkReduction, Proof, ShamirCoGroth16};
use harness::mpc::all;
use harness::snark::{Key, R1cs, circom_h, groth16_key, libsnark_h, r1cs};
use harness::{H, R, caught, ensure, ensure_eq};
use mpc_core::MpcState;
use mpc_core::protocols::shamir::ShamirPrimeFieldShare;
use mpc_net::local::LocalNetwork;
use rand::Rng;

type Bn = ark_bn254::Bn254;
type Bls = ark_bls12_381::Bls12_381;

fn plain<P, C1, C2>(r: &R1cs<P::ScalarField>, k: &Key<P>, circom: bool) -> Result<Proof<P>, String>
where
    P: Pairing<G1 = Projective<C1>, G1Affine = Affine<C1>, G2 = Projective<C2>, G2Affine = Affine<C2>>,
    C1: SWCurveConfig<ScalarField = P::ScalarField>, C2: SWCurveConfig<ScalarField = P::ScalarField>,
{
    let w = SharedWitness { public_inputs: r.inst.clone(), witness: r.wit.clone() };
    caught(|| if circom { Groth16::<P>::plain_prove::<CircomReduction>(&k.pk, &r.m, w) } else { Groth16::<P>::plain_prove::<LibSnarkReduction>(&k.pk, &r.m, w) })?.map_err(|e| format!("{e:#}"))
}
fn share<F: ark_ff::PrimeField>(v: &[F], n: usize, t: usize, rng: &mut impl Rng) -> Vec<Vec<ShamirPrimeFieldShare<F>>> {
    let mut out = vec![vec![]; n];
    for x in v {
        let c: Vec<F> = (0..t).map(|_| F::rand(rng)).collect();
        for (i, o) in out.iter_mut().enumerate() {
            let p = F::from(i as u64 + 1);
            o.push(ShamirPrimeFieldShare::new(*x + p * c.iter().rev().fold(F::zero(), |a, c| a * p + c)));
        }
    }
    out
}
fn verify<P: Pairing>(k: &Key<P>, p: &Proof<P>, x: &[P::ScalarField]) -> bool { Groth16::<P>::verify(&k.pk.vk, p, x).is_ok() }
fn accepts<P: Pairing>(k: &Key<P>, p: &Proof<P>, r: &R1cs<P::ScalarField>, rng: &mut impl Rng) -> R {
    let x = &r.inst[1..];
    ensure!(verify(k, p, x), "the proof of a satisfied system is rejected");
    for i in 0..x.len() {
        let mut y = x.to_vec();
        y[i] += P::ScalarField::from(rng.gen_range(1u64..1000));
        ensure!(verify(k, p, &y) == (k.ic[i + 1].is_zero()), "the proof is accepted for another public input {i}");
    }
    ensure!(!verify(k, p, &r.inst) , "one public input too many is accepted");
    if !x.is_empty() { ensure!(!verify(k, p, &x[1..]), "one public input too few is accepted"); }
    let mut q = p.clone();
    q.c = (q.c + P::G1Affine::generator()).into();
    ensure!(!verify(k, &q, x), "a changed proof is accepted");
    Ok(())
}
fn h_of<F: ark_ff::PrimeField>(r: &R1cs<F>, circom: bool) -> Vec<F> { if circom { circom_h(r) } else { libsnark_h(r) } }

fn same<P: Pairing>(p: &Proof<P>, want: (P::ScalarField, P::ScalarField, P::ScalarField)) -> R {
    ensure!(p.a == (P::G1Affine::generator() * want.0).into_affine(), "A is not what the formula says");
    ensure!(p.b == (P::G2Affine::generator() * want.1).into_affine(), "B is not what the formula says");
    ensure!(p.c == (P::G1Affine::generator() * want.2).into_affine(), "C is not what the formula says");
    Ok(())
}

#[cfg(feature = "internals")]
fn formula_plain<P, C1, C2>(r: &R1cs<P::ScalarField>, k: &Key<P>, circom: bool, x: P::ScalarField, y: P::ScalarField) -> R
where
    P: Pairing<G1 = Projective<C1>, G1Affine = Affine<C1>, G2 = Projective<C2>, G2Affine = Affine<C2>>,
    C1: SWCurveConfig<ScalarField = P::ScalarField>, C2: SWCurveConfig<ScalarField = P::ScalarField>,
{
    let h = h_of(r, circom);
    let want = k.proof(&r.full(), r.inst.len(), &h, x, y);
    let p = caught(|| Groth16::<P>::create_proof_with_assignment(&(), &(), &mut (), &mut (), &k.pk, x, y, h, &r.inst, &r.wit))?.map_err(|e| format!("{e:#}"))?;
    same(&p, want)
}
#[cfg(feature = "internals")]
fn formula_shamir<P, C1, C2>(r: &R1cs<P::ScalarField>, k: &Key<P>, circom: bool, n: usize, t: usize, x: P::ScalarField, y: P::ScalarField, rng: &mut impl Rng) -> R
where
    P: Pairing<G1 = Projective<C1>, G1Affine = Affine<C1>, G2 = Projective<C2>, G2Affine = Affine<C2>>,
    C1: SWCurveConfig<ScalarField = P::ScalarField>, C2: SWCurveConfig<ScalarField = P::ScalarField>,
{
    let h = h_of(r, circom);
    let want = k.proof(&r.full(), r.inst.len(), &h, x, y);
    let sx = share(&[x, y], n, t, rng);
    let sh = share(&h, n, 2 * t, rng);
    let sw = share(&r.wit, n, t, rng);
    let net1 = LocalNetwork::new(n);
    let got = all(n, |i, net| {
        let mut s0 = mpc_core::protocols::shamir::ShamirState::from(mpc_core::protocols::shamir::ShamirPreprocessing::new(n, t, 3, net)?);
        let mut s1 = s0.fork(1)?;
        let h: Vec<_> = sh[i].iter().map(|s| s.inner()).collect();
        let w: Vec<_> = sw[i].iter().map(|s| s.inner()).collect();
        ShamirCoGroth16::<P>::create_proof_with_assignment(net, &net1[i], &mut s0, &mut s1, &k.pk, sx[i][0], sx[i][1], h, &r.inst, &w)
    })?;
    for p in &got { same(p, want)?; }
    Ok(())
}
fn run<P, C1, C2>(h: &mut H, name: &'static str)
where
    P: Pairing<G1 = Projective<C1>, G1Affine = Affine<C1>, G2 = Projective<C2>, G2Affine = Affine<C2>>,
    C1: SWCurveConfig<ScalarField = P::ScalarField>, C2: SWCurveConfig<ScalarField = P::ScalarField>,
{
    let sizes = [(0usize, 1usize, 0usize), (1, 1, 0), (1, 1, 1), (2, 2, 2), (3, 2, 0), (5, 3, 6), (12, 4, 9), (29, 2, 20)];
    for (j, (nc, ni, nw)) in sizes.into_iter().enumerate() {
        for circom in [true, false] {
            h.case(name, &format!("plain {j} {circom}"), move |rng| {
                let r = r1cs::<P::ScalarField>(rng, nc, ni, nw, true);
                let k = groth16_key::<P>(rng, &r, circom);
                let p = plain(&r, &k, circom)?;
                accepts(&k, &p, &r, rng)?;
                let q = plain(&r, &k, circom)?;
                ensure!(p != q, "two proofs of the same statement are equal");
                accepts(&k, &q, &r, rng)
            });
            h.case(name, &format!("unsatisfied {j} {circom}"), move |rng| {
                let r = r1cs::<P::ScalarField>(rng, nc, ni, nw, false);
                let z = r.full();
                let ok = (0..nc).all(|i| harness::snark::dot(&r.m.a[i], &z) * harness::snark::dot(&r.m.b[i], &z) == harness::snark::dot(&r.m.c[i], &z));
                let k = groth16_key::<P>(rng, &r, circom);
                let p = plain(&r, &k, circom)?;
                ensure_eq!(verify(&k, &p, &r.inst[1..]), ok, "verdict for an arbitrary system");
                Ok(())
            });
            h.case(name, &format!("sizes {j} {circom}"), move |rng| {
                let r = r1cs::<P::ScalarField>(rng, nc, ni, nw, true);
                let k = groth16_key::<P>(rng, &r, circom);
                let refused = |f: &dyn Fn(&mut R1cs<P::ScalarField>)| { let mut s = r.clone(); f(&mut s); plain(&s, &k, circom).is_err() };
                ensure!(refused(&|s| s.inst.push(P::ScalarField::one())), "a public value too many");
                ensure!(refused(&|s| { s.inst.pop(); }), "a public value too few");
                ensure!(refused(&|s| s.wit.push(P::ScalarField::zero())), "a private value too many");
                if nw > 0 {
                    ensure!(refused(&|s| { s.wit.pop(); }), "a private value too few");
                    ensure!(refused(&|s| { let x = s.wit.remove(0); s.inst.push(x); }), "a private value moved");
                }
                Ok(())
            });
            #[cfg(feature = "internals")]
            for (v, sat) in [(0, true), (1, false), (2, false), (3, true)] {
                h.case(name, &format!("formula {j} {circom} {v}"), move |rng| {
                    let r = r1cs::<P::ScalarField>(rng, nc, ni, nw, sat);
                    let k = groth16_key::<P>(rng, &r, circom);
                    let (x, y) = (harness::fields::value(v, rng), harness::fields::value(2 * v + 1, rng));
                    let x = if v == 2 { P::ScalarField::zero() } else { x };
                    formula_plain(&r, &k, circom, x, y)
                });
            }
        }
    }
    for (n, t) in [(3usize, 1usize), (4, 1), (5, 2), (7, 3)] {
        if n > 3 && name != "bn254" && h.level == 0 { continue; }
        for circom in [true, false] {
            for j in 0..h.by(2, 8) {
                h.case(name, &format!("shamir {n} {t} {circom} {j}"), move |rng| {
                    let (nc, ni, nw) = (rng.gen_range(0..12), rng.gen_range(1..4), rng.gen_range(0..6));
                    let r = r1cs::<P::ScalarField>(rng, nc, ni, nw, true);
                    let k = groth16_key::<P>(rng, &r, circom);
                    let w = share(&r.wit, n, t, rng);
                    let net1 = LocalNetwork::new(n);
                    let got = all(n, |i, net| {
                        let w = SharedWitness { public_inputs: r.inst.clone(), witness: w[i].clone() };
                        if circom { ShamirCoGroth16::<P>::prove::<_, CircomReduction>(net, &net1[i], n, t, &k.pk, &r.m, w) } else { ShamirCoGroth16::<P>::prove::<_, LibSnarkReduction>(net, &net1[i], n, t, &k.pk, &r.m, w) }
                    })?;
                    for p in &got { ensure!(*p == got[0], "the parties end with different proofs"); }
                    accepts(&k, &got[0], &r, rng)
                });
                #[cfg(feature = "internals")]
                h.case(name, &format!("shamir formula {n} {t} {circom} {j}"), move |rng| {
                    let (nc, ni, nw) = (rng.gen_range(0..12), rng.gen_range(1..4), rng.gen_range(0..6));
                    let r = r1cs::<P::ScalarField>(rng, nc, ni, nw, j % 2 == 1);
                    let k = groth16_key::<P>(rng, &r, circom);
                    let (x, y) = (harness::fields::value(j, rng), harness::fields::value(j + 2, rng));
                    formula_shamir(&r, &k, circom, n, t, x, y, rng)
                });
            }
        }
    }
    h.case(name, "shamir sizes", move |rng| {
        let r = r1cs::<P::ScalarField>(rng, 3, 2, 3, true);
        let k = groth16_key::<P>(rng, &r, true);
        let w = share(&r.wit, 3, 1, rng);
        for cut in [true, false] {
            let net1 = LocalNetwork::new(3);
            let got = harness::mpc::parties(3, |i, net| {
                let mut w = SharedWitness { public_inputs: r.inst.clone(), witness: w[i].clone() };
                if cut { w.witness.pop(); } else { w.public_inputs.pop(); }
                ShamirCoGroth16::<P>::prove::<_, CircomReduction>(net, &net1[i], 3, 1, &k.pk, &r.m, w)
            });
            ensure!(got.iter().all(|g| g.is_err()), "shares of the wrong length are accepted");
        }
        Ok(())
    });
    h.case(name, "large", move |rng| {
        let r = r1cs::<P::ScalarField>(rng, 300, 5, 280, true);
        for circom in [true, false] {
            let k = groth16_key::<P>(rng, &r, circom);
            let p = plain(&r, &k, circom)?;
            accepts(&k, &p, &r, rng)?;
            let w = share(&r.wit, 3, 1, rng);
            let net1 = LocalNetwork::new(3);
            let got = all(3, |i, net| {
                let w = SharedWitness { public_inputs: r.inst.clone(), witness: w[i].clone() };
                if circom { ShamirCoGroth16::<P>::prove::<_, CircomReduction>(net, &net1[i], 3, 1, &k.pk, &r.m, w) } else { ShamirCoGroth16::<P>::prove::<_, LibSnarkReduction>(net, &net1[i], 3, 1, &k.pk, &r.m, w) }
            })?;
            accepts(&k, &got[2], &r, rng)?;
        }
        Ok(())
    });
}
fn main() {
    let mut h = H::new("C19");
    run::<Bn, _, _>(&mut h, "bn254");
    run::<Bls, _, _>(&mut h, "bls12-381");
    h.finish();
}
