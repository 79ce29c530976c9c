//! C20: both verifiers against their equations: forged proofs from a known secret with arbitrary elements, every
//! element and input altered, wrong numbers of inputs.
use ark_ec::{AffineRepr, CurveGroup, pairing::Pairing, short_weierstrass::{Affine, Projective, SWCurveConfig}};
use ark_ff::{Field, One, PrimeField, UniformRand, Zero};
use ark_groth16::{Proof, VerifyingKey};
use circom_types::plonk::{PlonkProof, VerificationKey};
use circom_types::traits::CircomArkworksPairingBridge;
use co_circom_types::SharedWitness;
use co_groth16::Groth16;
use co_plonk::Plonk;
use harness::plonk::{Circuit, Shape, accepts, challenges, circuit, circom_json::G2};
use harness::snark::{circom_domain, g1, g2, powers};
use harness::{H, R, caught, ensure};
use rand::Rng;
use std::sync::Arc;

fn scalar<F: PrimeField>(rng: &mut impl Rng) -> F {
    match rng.gen_range(0..7) { 0 => F::zero(), 1 => F::one(), 2 => -F::one(), 3 => F::from(rng.gen_range(0..300u64)), _ => F::rand(rng) }
}
fn point<C: SWCurveConfig>(rng: &mut impl Rng) -> Affine<C> {
    match rng.gen_range(0..7) { 0 => Affine::zero(), 1 => Affine::generator(), 2 => -Affine::<C>::generator(), _ => Projective::<C>::rand(rng).into_affine() }
}
/// a proof with arbitrary elements that satisfies the equation, made with the secret
fn forge<P, C>(c: &Circuit<P>, x: &[P::ScalarField], rng: &mut impl Rng) -> PlonkProof<P>
where P: Pairing<G1 = Projective<C>, G1Affine = Affine<C>> + CircomArkworksPairingBridge, C: SWCurveConfig<ScalarField = P::ScalarField, BaseField: PrimeField> {
    let vk = &c.vk;
    let mut p = PlonkProof::<P> { a: point(rng), b: point(rng), c: point(rng), z: point(rng), t1: point(rng), t2: point(rng), t3: point(rng), wxi: point(rng), wxiw: point(rng),
        eval_a: scalar(rng), eval_b: scalar(rng), eval_c: scalar(rng), eval_s1: scalar(rng), eval_s2: scalar(rng), eval_zw: scalar(rng), protocol: "plonk".into(), curve: P::get_circom_name() };
    let ch = challenges(vk, &p, x);
    let n = 1u64 << vk.power;
    let (g, _) = circom_domain::<P::ScalarField>(vk.power);
    let gen1 = P::G1Affine::generator();
    p.wxiw = ((p.z.into_group() - gen1 * p.eval_zw) * (c.tau - ch.xi * g).inverse().unwrap()).into_affine();
    let one = P::ScalarField::one();
    let zh = ch.xi.pow([n]) - one;
    let lag = |i: usize| { let w = g.pow([i as u64]); w * zh / (P::ScalarField::from(n) * (ch.xi - w)) };
    let pi: P::ScalarField = -x.iter().enumerate().map(|(i, x)| lag(i) * x).sum::<P::ScalarField>();
    let s = |e: P::ScalarField, t: P::ScalarField| e + ch.beta * t + ch.gamma;
    let (ea, eb, ec) = (p.eval_a, p.eval_b, p.eval_c);
    let perm = ch.alpha * s(ea, p.eval_s1) * s(eb, p.eval_s2) * p.eval_zw;
    let l0 = ch.alpha * ch.alpha * lag(0);
    let r0 = pi - l0 - perm * (ec + ch.gamma);
    let d = vk.qm * (ea * eb) + vk.ql * ea + vk.qr * eb + vk.qo * ec + vk.qc.into_group()
        + p.z * (ch.alpha * s(ea, ch.xi) * s(eb, vk.k1 * ch.xi) * s(ec, vk.k2 * ch.xi) + l0) - vk.s3 * (perm * ch.beta)
        - (p.t1.into_group() + p.t2 * (zh + one) + p.t3 * ((zh + one) * (zh + one))) * zh;
    let v = powers(ch.v, 6);
    let f = d + p.a * v[1] + p.b * v[2] + p.c * v[3] + vk.s1 * v[4] + vk.s2 * v[5];
    let e = gen1 * (v[1] * ea + v[2] * eb + v[3] * ec + v[4] * p.eval_s1 + v[5] * p.eval_s2 - r0);
    p.wxi = ((f - e) * (c.tau - ch.xi).inverse().unwrap()).into_affine();
    p
}
type Alter<P> = (&'static str, fn(&mut PlonkProof<P>, <P as Pairing>::G1Affine, <P as Pairing>::ScalarField));
fn alterations<P: Pairing + CircomArkworksPairingBridge>() -> Vec<Alter<P>> {
    vec![
        ("a", |p, q, _| p.a = q), ("b", |p, q, _| p.b = q), ("c", |p, q, _| p.c = q), ("z", |p, q, _| p.z = q), ("t1", |p, q, _| p.t1 = q), ("t2", |p, q, _| p.t2 = q), ("t3", |p, q, _| p.t3 = q),
        ("wxi", |p, q, _| p.wxi = q), ("wxiw", |p, q, _| p.wxiw = q),
        ("eval_a", |p, _, s| p.eval_a = s), ("eval_b", |p, _, s| p.eval_b = s), ("eval_c", |p, _, s| p.eval_c = s), ("eval_s1", |p, _, s| p.eval_s1 = s), ("eval_s2", |p, _, s| p.eval_s2 = s), ("eval_zw", |p, _, s| p.eval_zw = s),
        ("-a", |p, _, _| p.a = (-p.a.into_group()).into_affine()), ("-wxi", |p, _, _| p.wxi = (-p.wxi.into_group()).into_affine()), ("-wxiw", |p, _, _| p.wxiw = (-p.wxiw.into_group()).into_affine()),
        ("a<>b", |p, _, _| std::mem::swap(&mut p.a, &mut p.b)), ("t1<>t2", |p, _, _| std::mem::swap(&mut p.t1, &mut p.t2)), ("t2<>t3", |p, _, _| std::mem::swap(&mut p.t2, &mut p.t3)), ("wxi<>wxiw", |p, _, _| std::mem::swap(&mut p.wxi, &mut p.wxiw)),
        ("eval_a<>eval_b", |p, _, _| std::mem::swap(&mut p.eval_a, &mut p.eval_b)), ("eval_s1<>eval_s2", |p, _, _| std::mem::swap(&mut p.eval_s1, &mut p.eval_s2)),
    ]
}
fn agree<P, C>(vk: &VerificationKey<P>, p: &PlonkProof<P>, x: &[P::ScalarField], what: &str) -> Result<bool, String>
where P: Pairing<G1 = Projective<C>, G1Affine = Affine<C>> + CircomArkworksPairingBridge, C: SWCurveConfig<ScalarField = P::ScalarField, BaseField: PrimeField> {
    let got = caught(|| Plonk::<P>::verify(vk, p, x)).map_err(|e| format!("{what}: {e}"))?.is_ok();
    let want = accepts(vk, p, x);
    ensure!(got == want, "{what}: the verifier says {got}, the equation {want}; {} public inputs", x.len());
    Ok(got)
}
fn ensure_some<T>(x: Option<T>) -> Result<T, String> { x.ok_or_else(|| "nothing".into()) }
fn plonk<P, C>(h: &mut H, name: &'static str)
where P: Pairing<G1 = Projective<C>, G1Affine = Affine<C>, G2Affine: G2> + CircomArkworksPairingBridge, C: SWCurveConfig<ScalarField = P::ScalarField, BaseField: PrimeField> {
    for i in 0..h.by(8, 120) {
        h.case(name, &format!("forged {i}"), move |rng| {
            let public = [0, 1, 2, 3, 5, 8, 9, 20][i % 8];
            let c = circuit::<P>(rng, Shape { public, private: 2, derived: 1, gates: [3, 9, 1][i % 3], sparse: i % 3 == 1 }, true);
            let x: Vec<_> = (0..public).map(|_| scalar(rng)).collect();
            let p = forge(&c, &x, rng);
            ensure!(agree(&c.vk, &p, &x, "forged")?, "a proof satisfying the equation is refused, {public} public inputs");
            for (what, f) in alterations::<P>() {
                let (q, s) = (point(rng), scalar(rng));
                let mut a = p.clone();
                f(&mut a, q, s);
                agree(&c.vk, &a, &x, what)?;
            }
            for j in (0..public).filter(|j| *j < 2 || *j == 8 || j + 1 == public) {
                let mut y = x.clone();
                y[j] += [P::ScalarField::one(), scalar(rng)][j % 2];
                agree(&c.vk, &p, &y, &format!("public input {j}"))?;
                y = x.clone();
                y.swap(j, (j + 1) % public);
                agree(&c.vk, &p, &y, &format!("public inputs {j} and {} swapped", (j + 1) % public))?;
                // a proof made for the altered inputs is accepted for them only
                let q = forge(&c, &y, rng);
                ensure!(agree(&c.vk, &q, &y, "forged for others")?, "refused");
                agree(&c.vk, &q, &x, "another's proof")?;
            }
            Ok(())
        });
        h.case(name, &format!("numbers of inputs {i}"), move |rng| {
            let public = i % 5;
            let c = circuit::<P>(rng, Shape { public, private: 2, derived: 1, gates: 3, sparse: false }, true);
            let x: Vec<P::ScalarField> = (0..public + 3).map(|_| if i % 2 == 0 { P::ScalarField::zero() } else { scalar(rng) }).collect();
            for m in 0..=public + 3 {
                let p = forge(&c, &x[..m], rng);
                let ok = agree(&c.vk, &p, &x[..m], "number of public inputs")?;
                ensure!(ok == (m == public), "{m} public inputs for a key with {public}: {ok}");
            }
            Ok(())
        });
        h.case(name, &format!("honest {i}"), move |rng| {
            let c = circuit::<P>(rng, Shape { public: 1 + i % 3, private: 3, derived: i % 2, gates: 6, sparse: false }, true);
            let w = SharedWitness { public_inputs: c.public_file(), witness: c.private() };
            let p = caught(|| Plonk::<P>::plain_prove(Arc::new(c.zkey.clone()), w))?.map_err(|e| format!("{e:#}"))?;
            ensure!(agree(&c.vk, &p, &c.public(), "honest")?, "an honest proof is refused");
            for (what, f) in alterations::<P>() {
                let mut a = p.clone();
                let (q, s) = (Projective::<C>::rand(rng).into_affine(), P::ScalarField::rand(rng));
                f(&mut a, q, s);
                ensure!(!agree(&c.vk, &a, &c.public(), what)?, "accepted with another {what}");
            }
            Ok(())
        });
    }
}
/// key and proof through their exponents
struct Ex<F> { alpha: F, beta: F, gamma: F, delta: F, ic: Vec<F> }
impl<F: PrimeField> Ex<F> {
    fn holds(&self, p: [F; 3], x: &[F]) -> bool {
        x.len() + 1 == self.ic.len() && p[0] * p[1] == self.alpha * self.beta + (self.ic[0] + x.iter().zip(&self.ic[1..]).map(|(x, i)| *x * i).sum::<F>()) * self.gamma + p[2] * self.delta
    }
}
fn groth<P: Pairing>(h: &mut H, name: &'static str) {
    for i in 0..h.by(25, 400) {
        h.case("groth16", &format!("{name} {i}"), move |rng| {
            let l = [0, 1, 2, 3, 7][i % 5];
            let nz = |rng: &mut _| P::ScalarField::rand(rng);
            let mut k = Ex { alpha: scalar(rng), beta: scalar(rng), gamma: nz(rng), delta: nz(rng), ic: (0..=l).map(|_| scalar(rng)).collect::<Vec<P::ScalarField>>() };
            if i % 4 == 3 { *k.ic.last_mut().unwrap() = P::ScalarField::zero(); }
            let mut g2s = g2::<P>(&[k.beta, k.gamma, k.delta]).into_iter();
            let mut g = || g2s.next();
            let vk = VerifyingKey::<P> { alpha_g1: g1::<P>(&[k.alpha])[0], beta_g2: ensure_some(g())?, gamma_g2: ensure_some(g())?, delta_g2: ensure_some(g())?, gamma_abc_g1: g1::<P>(&k.ic) };
            let x: Vec<P::ScalarField> = (0..l).map(|_| scalar(rng)).collect();
            let solve = |a: P::ScalarField, b: P::ScalarField, x: &[P::ScalarField]| (a * b - k.alpha * k.beta - (k.ic[0] + x.iter().zip(&k.ic[1..]).map(|(x, i)| *x * i).sum::<P::ScalarField>()) * k.gamma) / k.delta;
            let (a, b) = (scalar(rng), scalar(rng));
            let p = [a, b, solve(a, b, &x)];
            let agree = |p: [P::ScalarField; 3], x: &[P::ScalarField], what: &str| -> Result<bool, String> {
                let proof = Proof::<P> { a: g1::<P>(&[p[0]])[0], b: g2::<P>(&[p[1]])[0], c: g1::<P>(&[p[2]])[0] };
                let got = caught(|| Groth16::<P>::verify(&vk, &proof, x)).map_err(|e| format!("{what}: {e}"))?.is_ok();
                let want = k.holds(p, x);
                ensure!(got == want, "{what}: the verifier says {got}, the equation {want}; {} public inputs for {l}", x.len());
                Ok(got)
            };
            ensure!(agree(p, &x, "forged")?, "a proof satisfying the equation is refused");
            for j in 0..3 { for q in [scalar(rng), -p[j], P::ScalarField::zero(), P::ScalarField::rand(rng)] { let mut r = p; r[j] = q; agree(r, &x, &format!("element {j}"))?; } }
            agree([p[2], p[1], p[0]], &x, "A and C swapped")?;
            for j in 0..l {
                let mut y = x.clone();
                y[j] += P::ScalarField::one();
                agree(p, &y, &format!("input {j}"))?;
                y = x.clone();
                y.swap(j, (j + 1) % l);
                agree(p, &y, "inputs swapped")?;
            }
            for m in 0..l + 4 {
                let mut y = x.clone();
                y.resize(m, if i % 2 == 0 { P::ScalarField::zero() } else { P::ScalarField::one() });
                let mut q = p;
                q[2] = solve(a, b, &y);
                agree(p, &y, "number of inputs")?;
                agree(q, &y, "number of inputs, proof for them")?;
            }
            let empty = VerifyingKey::<P> { gamma_abc_g1: vec![], ..vk.clone() };
            let proof = Proof::<P> { a: g1::<P>(&[p[0]])[0], b: g2::<P>(&[p[1]])[0], c: g1::<P>(&[p[2]])[0] };
            for y in [&x[..], &[]] { ensure!(caught(|| Groth16::<P>::verify(&empty, &proof, y)).map_err(|e| format!("key without input points: {e}"))?.is_err(), "accepted with a key without input points"); }
            Ok(())
        });
    }
}
fn main() {
    let mut h = H::new("C20");
    groth::<ark_bn254::Bn254>(&mut h, "bn254");
    groth::<ark_bls12_381::Bls12_381>(&mut h, "bls12-381");
    plonk::<ark_bn254::Bn254, _>(&mut h, "bn254");
    plonk::<ark_bls12_381::Bls12_381, _>(&mut h, "bls12-381");
    h.finish();
}
