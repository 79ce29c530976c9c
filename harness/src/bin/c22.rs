//! C22: the transcript, the verifier's challenges and the prover's, against the hash computed here.
use ark_ec::{AffineRepr, CurveGroup, pairing::Pairing, short_weierstrass::{Affine, Projective, SWCurveConfig}};
use ark_ff::{One, PrimeField, UniformRand, Zero};
use circom_types::plonk::PlonkProof;
use circom_types::traits::CircomArkworksPairingBridge;
use co_circom_types::SharedWitness;
use co_plonk::Plonk;
use harness::plonk::{Circuit, Shape, accepts, be, challenges, circuit, circom_json::G2, hash, pt};
use harness::{H, R, caught, ensure, ensure_eq};
use rand::Rng;
use std::sync::Arc;

fn prove<P, C>(c: &Circuit<P>) -> Result<PlonkProof<P>, String>
where P: Pairing<G1 = Projective<C>, G1Affine = Affine<C>> + CircomArkworksPairingBridge, C: SWCurveConfig<ScalarField = P::ScalarField, BaseField: PrimeField> {
    let w = SharedWitness { public_inputs: c.public_file(), witness: c.private() };
    caught(|| Plonk::<P>::plain_prove(Arc::new(c.zkey.clone()), w))?.map_err(|e| format!("{e:#}"))
}
fn points<C: SWCurveConfig<BaseField: PrimeField>>(rng: &mut impl Rng, k: usize) -> Affine<C> {
    match k % 5 { 0 => Affine::zero(), 1 => Affine::generator(), 2 => -Affine::<C>::generator(), 3 => small_x(rng), _ => Projective::<C>::rand(rng).into_affine() }
}
/// a point whose coordinates begin with zero bytes (on the curve, not necessarily in the group)
fn small_x<C: SWCurveConfig<BaseField: PrimeField>>(rng: &mut impl Rng) -> Affine<C> {
    loop {
        let x = C::BaseField::from(rng.gen_range(0..1u64 << 40));
        if let Some(p) = Affine::<C>::get_point_from_x_unchecked(x, rng.r#gen()) { return p; }
    }
}
fn scalar<F: PrimeField>(rng: &mut impl Rng, k: usize) -> F {
    match k % 7 { 0 => F::zero(), 1 => F::one(), 2 => -F::one(), 3 => F::from(255u64), 4 => F::from(rng.r#gen::<u64>()), 5 => F::from_le_bytes_mod_order(&(0..30).map(|_| rng.r#gen()).collect::<Vec<u8>>()), _ => F::rand(rng) }
}
fn run<P, C>(h: &mut H, name: &'static str)
where P: Pairing<G1 = Projective<C>, G1Affine = Affine<C>, G2Affine: G2> + CircomArkworksPairingBridge, C: SWCurveConfig<ScalarField = P::ScalarField, BaseField: PrimeField> {
    #[cfg(feature = "internals")]
    for i in 0..h.by(60, 600) {
        h.case(name, &format!("transcript {i}"), move |rng| {
            let mut t = co_plonk::types::Keccak256Transcript::<P>::default();
            let mut parts = vec![];
            for j in 0..if i % 20 == 19 { 130 } else { i % 13 } {
                let k = if i < 40 { i + j } else { rng.r#gen::<u32>() as usize };
                if (i + j) % 2 == 0 { let s = scalar::<P::ScalarField>(rng, k); t.add_scalar(s); parts.push(be(s)); } else { let p = points::<C>(rng, k); t.add_point(p); parts.push(pt(&p)); }
            }
            ensure_eq!(t.get_challenge(), hash::<P::ScalarField>(&parts), "challenge after {} items", parts.len());
            Ok(())
        });
    }
    #[cfg(feature = "internals")]
    for i in 0..h.by(20, 200) {
        h.case(name, &format!("verifier {i}"), move |rng| {
            let c = circuit::<P>(rng, Shape { public: i % 4, private: 2, derived: 1, gates: 3, sparse: i % 3 == 0 }, true);
            let mut pts = (0..9).map(|j| points::<C>(rng, i + j));
            let mut scs = (0..6).map(|j| scalar::<P::ScalarField>(&mut harness::rng_of(&format!("{name}{i}")), 3 * i + j));
            let (mut g, mut s) = (|| pts.next().unwrap(), || scs.next().unwrap());
            let p = PlonkProof::<P> { a: g(), b: g(), c: g(), z: g(), t1: g(), t2: g(), t3: g(), wxi: g(), wxiw: g(), eval_a: s(), eval_b: s(), eval_c: s(), eval_s1: s(), eval_s2: s(), eval_zw: s(), protocol: "plonk".into(), curve: P::get_circom_name() };
            let x: Vec<_> = (0..if i % 4 == 3 { [3, 9, 17, 40, 70, 300][i / 4 % 6] } else { i % 4 }).map(|j| scalar(&mut harness::rng_of(&format!("x{name}{i}{j}")), i / 4 + j)).collect();
            let got = co_plonk::plonk::VerifierChallenges::<P>::new(&c.vk, &p, &x);
            let want = challenges(&c.vk, &p, &x);
            ensure_eq!((got.beta, got.gamma, got.alpha, got.xi, got.u), (want.beta, want.gamma, want.alpha, want.xi, want.u), "challenges");
            ensure!(got.v.iter().copied().eq(harness::snark::powers(want.v, 6)[1..].iter().copied()), "powers of v");
            Ok(())
        });
    }
    for i in 0..h.by(16, 100) {
        h.case(name, &format!("prover {i}"), move |rng| {
            let shape = Shape { public: if i % 4 == 3 { [9, 17, 33, 70][i / 4 % 4] } else { 1 + i % 4 }, private: rng.gen_range(1..5), derived: i % 3, gates: rng.gen_range(1..12), sparse: i % 4 == 0 };
            let c = circuit::<P>(rng, shape, true);
            let p = prove(&c)?;
            ensure!(accepts(&c.vk, &p, &c.public()), "the proof does not satisfy the equation under the challenges computed here: {shape:?}");
            ensure!(caught(|| Plonk::<P>::verify(&c.vk, &p, &c.public()))?.is_ok(), "the verifier refuses the proof: {shape:?}");
            Ok(())
        });
        #[cfg(feature = "internals")]
        h.case(name, &format!("rounds {i}"), move |rng| {
            let shape = Shape { public: if i % 4 == 3 { [9, 17, 33, 70][i / 4 % 4] } else { 1 + i % 4 }, private: rng.gen_range(1..5), derived: i % 3, gates: rng.gen_range(1..12), sparse: i % 4 == 0 };
            let c = circuit::<P>(rng, shape, true);
            rounds(&c)
        });
    }
}
#[cfg(feature = "internals")]
fn rounds<P, C>(c: &Circuit<P>) -> R
where P: Pairing<G1 = Projective<C>, G1Affine = Affine<C>> + CircomArkworksPairingBridge, C: SWCurveConfig<ScalarField = P::ScalarField, BaseField: PrimeField> {
    use co_plonk::{mpc::plain::PlainPlonkDriver, round1::Round1};
    let e = |e: co_plonk::PlonkProofError| e.to_string();
    let w = SharedWitness { public_inputs: c.public_file(), witness: c.private() };
    let nets = [(); 8];
    let mut st = ();
    let r1 = Round1::<P, PlainPlonkDriver, ()>::init_round(&nets, &mut st, &c.zkey, w).map_err(e)?;
    let r3 = r1.round1().map_err(e)?.round2().map_err(e)?;
    let (b, g) = (r3.challenges.beta, r3.challenges.gamma);
    let r4 = r3.round3().map_err(e)?;
    let a = r4.challenges.alpha;
    ensure!(r4.challenges.alpha2 == a * a, "square of alpha");
    ensure_eq!((r4.challenges.beta, r4.challenges.gamma), (b, g), "challenges are kept");
    let r5 = r4.round4().map_err(e)?;
    let ch = &r5.challenges;
    let got = (ch.beta, ch.gamma, ch.alpha, ch.xi);
    ensure_eq!((got.0, got.1, got.2), (b, g, a), "challenges are kept");
    let p = r5.round5().map_err(e)?;
    let want = challenges(&c.vk, &p, &c.public());
    ensure_eq!(got, (want.beta, want.gamma, want.alpha, want.xi), "the prover's challenges");
    Ok(())
}
fn main() {
    let mut h = H::new("C22");
    run::<ark_bn254::Bn254, _>(&mut h, "bn254");
    run::<ark_bls12_381::Bls12_381, _>(&mut h, "bls12-381");
    h.finish();
}
#[allow(unused)]
fn keep() -> R { let _ = be(ark_bn254::Fr::one()); let _: ark_bn254::Fr = hash(&[]); let _ = pt(&ark_bn254::G1Affine::zero()); Ok(()) }
