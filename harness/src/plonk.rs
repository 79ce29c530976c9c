//! PLONK keys from a known secret for random circuits, and the protocol's equations in the clear.
use crate::snark::{circom_domain, eval, powers};
use ark_ec::{AffineRepr, CurveGroup, pairing::Pairing};
use ark_ff::{BigInteger, FftField, Field, One, PrimeField, UniformRand, Zero};
use ark_poly::univariate::DensePolynomial;
use circom_types::plonk::{Additions, CircomPolynomial, PlonkProof, VerificationKey, VerifyingKey, Zkey};
use circom_types::traits::CircomArkworksPairingBridge;
use rand::Rng;
use serde_json::{Value, json};
use sha3::{Digest, Keccak256};

/// values on the n powers of g to coefficients, in n·log n
pub fn ifft<F: Field>(v: &[F], g: F) -> Vec<F> {
    let mut r = fft(v, g.inverse().unwrap());
    let n = F::from(v.len() as u64).inverse().unwrap();
    r.iter_mut().for_each(|x| *x *= n);
    r
}
/// values of the polynomial with these coefficients on the powers of g
pub fn fft<F: Field>(c: &[F], g: F) -> Vec<F> {
    let n = c.len();
    if n == 1 { return c.to_vec(); }
    let even: Vec<F> = c.iter().step_by(2).copied().collect();
    let odd: Vec<F> = c.iter().skip(1).step_by(2).copied().collect();
    let (e, o) = (fft(&even, g.square()), fft(&odd, g.square()));
    let mut out = vec![F::zero(); n];
    let mut w = F::one();
    for i in 0..n / 2 { let t = w * o[i]; out[i] = e[i] + t; out[i + n / 2] = e[i] - t; w *= g; }
    out
}

pub struct Circuit<P: Pairing + CircomArkworksPairingBridge> {
    pub zkey: Zkey<P>,
    pub vk: VerificationKey<P>,
    pub tau: P::ScalarField,
    pub n_public: usize,
    /// value of every signal: constant, public, private, derived
    pub values: Vec<P::ScalarField>,
    /// values on the domain: qm, ql, qr, qo, qc, s1, s2, s3
    pub sel: Vec<Vec<P::ScalarField>>,
    pub gen_: P::ScalarField,
}
fn point(p: &impl AffineRepr<BaseField: PrimeField>) -> Value {
    match p.xy() { Some((x, y)) => json!([x.to_string(), y.to_string(), "1"]), None => json!(["0", "1", "0"]) }
}
/// the verification key of a proving key
pub fn vk_of<P: Pairing<G1Affine: AffineRepr<BaseField: PrimeField>> + CircomArkworksPairingBridge>(k: &VerifyingKey<P>, n_public: usize, power: usize, w: P::ScalarField) -> VerificationKey<P>
where P::G2Affine: circom_json::G2 {
    use circom_json::G2;
    let v = json!({
        "protocol": "plonk", "curve": P::get_circom_name(), "nPublic": n_public, "power": power, "k1": k.k1.to_string(), "k2": k.k2.to_string(),
        "Qm": point(&k.qm), "Ql": point(&k.ql), "Qr": point(&k.qr), "Qo": point(&k.qo), "Qc": point(&k.qc), "S1": point(&k.s1), "S2": point(&k.s2), "S3": point(&k.s3),
        "X_2": k.x_2.json(), "w": w.to_string(),
    });
    serde_json::from_value(v).unwrap()
}
pub mod circom_json {
    use serde_json::{Value, json};
    use ark_ec::AffineRepr;
    pub trait G2 { fn json(&self) -> Value; }
    impl G2 for ark_ec::short_weierstrass::Affine<ark_bn254::g2::Config> { fn json(&self) -> Value { let (x, y) = self.xy().unwrap(); json!([[x.c0.to_string(), x.c1.to_string()], [y.c0.to_string(), y.c1.to_string()], ["1", "0"]]) } }
    impl G2 for ark_ec::short_weierstrass::Affine<ark_bls12_381::g2::Config> { fn json(&self) -> Value { let (x, y) = self.xy().unwrap(); json!([[x.c0.to_string(), x.c1.to_string()], [y.c0.to_string(), y.c1.to_string()], ["1", "0"]]) } }
}
/// what a circuit looks like: numbers of public, private and derived signals, further gates, and special shapes
#[derive(Clone, Copy, Debug)]
pub struct Shape { pub public: usize, pub private: usize, pub derived: usize, pub gates: usize, pub sparse: bool }
pub fn circuit<P: Pairing<G1Affine: AffineRepr<BaseField: PrimeField>> + CircomArkworksPairingBridge>(rng: &mut impl Rng, s: Shape, satisfied: bool) -> Circuit<P>
where P::G2Affine: circom_json::G2 {
    type F<P> = <P as Pairing>::ScalarField;
    let mut pick = |rng: &mut _| match Rng::gen_range(rng, 0..6) { 0 => F::<P>::zero(), 1 => F::<P>::one(), 2 => -F::<P>::one(), _ => F::<P>::rand(rng) };
    let mut values = vec![F::<P>::zero()];
    for _ in 0..s.public + s.private { values.push(pick(rng)); }
    let mut additions = vec![];
    for _ in 0..s.derived {
        let (i, j) = (rng.gen_range(0..values.len()), rng.gen_range(0..values.len()));
        let (f, g) = (pick(rng), pick(rng));
        values.push(f * values[i] + g * values[j]);
        additions.push(Additions { signal_id1: i as u32, signal_id2: j as u32, factor1: f, factor2: g });
    }
    let nv = values.len();
    let nc = s.public + s.gates;
    let n = nc.next_power_of_two().max(8);
    let k = n.trailing_zeros() as usize;
    let (g, _) = circom_domain::<F<P>>(k);
    let (g4, _) = circom_domain::<F<P>>(k + 2);
    let mut map = [vec![], vec![], vec![]];
    let mut q = vec![vec![F::<P>::zero(); n]; 5];
    for i in 0..nc {
        if i < s.public { map[0].push(i + 1); map[1].push(0); map[2].push(0); q[1][i] = F::<P>::one(); continue; }
        let ids: Vec<usize> = (0..3).map(|_| rng.gen_range(0..nv)).collect();
        for c in 0..3 { map[c].push(ids[c]); }
        let (a, b, c) = (values[ids[0]], values[ids[1]], values[ids[2]]);
        if !s.sparse { for q in q.iter_mut().take(4) { q[i] = pick(rng); } }
        q[4][i] = -(q[0][i] * a * b + q[1][i] * a + q[2][i] * b + q[3][i] * c);
        if !satisfied && i + 1 == nc { q[4][i] += F::<P>::one(); }
    }
    // the permutation: all places of a signal form a cycle
    let (k1, k2) = (F::<P>::GENERATOR, F::<P>::GENERATOR.square());
    let w = powers(g, n);
    let id = |c: usize, i: usize| [F::<P>::one(), k1, k2][c] * w[i];
    let mut places: Vec<Vec<(usize, usize)>> = vec![vec![]; nv];
    for c in 0..3 { for i in 0..n { places[if i < nc { map[c][i] } else { 0 }].push((c, i)); } }
    let mut sig = vec![vec![F::<P>::zero(); n]; 3];
    for p in &places { for (j, (c, i)) in p.iter().enumerate() { let (d, l) = p[(j + 1) % p.len()]; sig[*c][*i] = id(d, l); } }
    let mut sel = q;
    sel.append(&mut sig);
    let tau = F::<P>::rand(rng);
    let poly = |v: &[F<P>]| {
        let coeffs = ifft(v, g);
        let mut c4 = coeffs.clone();
        c4.resize(4 * n, F::<P>::zero());
        CircomPolynomial { evaluations: fft(&c4, g4), coeffs: DensePolynomial { coeffs } }
    };
    let polys: Vec<_> = sel.iter().map(|v| poly(v)).collect();
    let commit = |p: &CircomPolynomial<F<P>>| (P::G1Affine::generator() * eval(&p.coeffs.coeffs, tau)).into_affine();
    let c: Vec<_> = polys.iter().map(commit).collect();
    let verifying_key = VerifyingKey { k1, k2, qm: c[0], ql: c[1], qr: c[2], qo: c[3], qc: c[4], s1: c[5], s2: c[6], s3: c[7], x_2: (P::G2Affine::generator() * tau).into_affine() };
    let vk = vk_of::<P>(&verifying_key, s.public, k, g);
    let lagrange = (0..s.public).map(|i| { let mut v = vec![F::<P>::zero(); n]; v[i] = F::<P>::one(); poly(&v) }).collect();
    let [map_a, map_b, map_c] = map;
    let mut it = polys.into_iter();
    let mut next = || it.next().unwrap();
    let zkey = Zkey {
        n_vars: nv, n_public: s.public, domain_size: n, pow: k, n_additions: s.derived, n_constraints: nc, verifying_key, additions, map_a, map_b, map_c,
        qm_poly: next(), ql_poly: next(), qr_poly: next(), qo_poly: next(), qc_poly: next(), s1_poly: next(), s2_poly: next(), s3_poly: next(),
        lagrange, p_tau: P::G1::normalize_batch(&powers(tau, n + 6).iter().map(|t| P::G1Affine::generator() * t).collect::<Vec<_>>()),
    };
    Circuit { zkey, vk, tau, n_public: s.public, values, sel, gen_: g }
}
impl<P: Pairing + CircomArkworksPairingBridge> Circuit<P> {
    pub fn public(&self) -> Vec<P::ScalarField> { self.values[1..=self.n_public].to_vec() }
    /// the public part of a witness file begins with the constant one
    pub fn public_file(&self) -> Vec<P::ScalarField> { let mut v = self.values[..=self.n_public].to_vec(); v[0] = P::ScalarField::one(); v }
    pub fn private(&self) -> Vec<P::ScalarField> { self.values[self.n_public + 1..self.values.len() - self.zkey.n_additions].to_vec() }
    /// values of the three wires on the domain
    pub fn wires(&self) -> [Vec<P::ScalarField>; 3] {
        [&self.zkey.map_a, &self.zkey.map_b, &self.zkey.map_c].map(|m| { let mut v: Vec<_> = m.iter().map(|i| self.values[*i]).collect(); v.resize(self.zkey.domain_size, P::ScalarField::zero()); v })
    }
}

/* the transcript, written again */
pub fn be<F: PrimeField>(x: F) -> Vec<u8> {
    let mut v = x.into_bigint().to_bytes_be();
    let n = F::MODULUS_BIT_SIZE.div_ceil(8) as usize;
    while v.len() > n { assert_eq!(v.remove(0), 0); }
    while v.len() < n { v.insert(0, 0); }
    v
}
pub fn pt<A: AffineRepr<BaseField: PrimeField>>(p: &A) -> Vec<u8> {
    match p.xy() { Some((x, y)) => [be(x), be(y)].concat(), None => vec![0; 2 * A::BaseField::MODULUS_BIT_SIZE.div_ceil(8) as usize] }
}
pub fn hash<F: PrimeField>(parts: &[Vec<u8>]) -> F {
    let mut h = Keccak256::new();
    h.update(parts.concat());
    h.finalize().iter().fold(F::zero(), |a, b| a * F::from(256u64) + F::from(*b as u64))
}
#[derive(Clone, Debug, PartialEq)]
pub struct Challenges<F> { pub beta: F, pub gamma: F, pub alpha: F, pub xi: F, pub v: F, pub u: F }
pub fn challenges<P: Pairing<G1Affine: AffineRepr<BaseField: PrimeField>> + CircomArkworksPairingBridge>(vk: &VerificationKey<P>, p: &PlonkProof<P>, public: &[P::ScalarField]) -> Challenges<P::ScalarField> {
    let mut parts: Vec<Vec<u8>> = [vk.qm, vk.ql, vk.qr, vk.qo, vk.qc, vk.s1, vk.s2, vk.s3].iter().map(pt).collect();
    parts.extend(public.iter().map(|x| be(*x)));
    parts.extend([p.a, p.b, p.c].iter().map(pt));
    let beta = hash(&parts);
    let gamma = hash(&[be::<P::ScalarField>(beta)]);
    let alpha = hash(&[be(beta), be::<P::ScalarField>(gamma), pt(&p.z)]);
    let xi = hash(&[be::<P::ScalarField>(alpha), pt(&p.t1), pt(&p.t2), pt(&p.t3)]);
    let v = hash(&[xi, p.eval_a, p.eval_b, p.eval_c, p.eval_s1, p.eval_s2, p.eval_zw].map(be));
    let u = hash(&[pt(&p.wxi), pt(&p.wxiw)]);
    Challenges { beta, gamma, alpha, xi, v, u }
}
/// the verification equation, each of the protocol's steps written again
pub fn accepts<P: Pairing<G1Affine: AffineRepr<BaseField: PrimeField>> + CircomArkworksPairingBridge>(vk: &VerificationKey<P>, p: &PlonkProof<P>, public: &[P::ScalarField]) -> bool {
    if public.len() != vk.n_public { return false; }
    let ch = challenges(vk, p, public);
    let n = 1u64 << vk.power;
    let (g, _) = circom_domain::<P::ScalarField>(vk.power);
    let one = P::ScalarField::one();
    let zh = ch.xi.pow([n]) - one;
    let lag = |i: usize| { let w = g.pow([i as u64]); w * zh / (P::ScalarField::from(n) * (ch.xi - w)) };
    let pi: P::ScalarField = -public.iter().enumerate().map(|(i, x)| lag(i) * x).sum::<P::ScalarField>();
    let (a, b, c) = (p.eval_a, p.eval_b, p.eval_c);
    let s = |e: P::ScalarField, t: P::ScalarField| e + ch.beta * t + ch.gamma;
    let perm = ch.alpha * s(a, p.eval_s1) * s(b, p.eval_s2) * p.eval_zw;
    let l0 = ch.alpha * ch.alpha * lag(0);
    let r0 = pi - l0 - perm * (c + ch.gamma);
    let d = vk.qm * (a * b) + vk.ql * a + vk.qr * b + vk.qo * c + vk.qc.into_group()
        + p.z * (ch.alpha * s(a, ch.xi) * s(b, vk.k1 * ch.xi) * s(c, vk.k2 * ch.xi) + l0 + ch.u)
        - vk.s3 * (perm * ch.beta)
        - (p.t1.into_group() + p.t2 * (zh + one) + p.t3 * ((zh + one) * (zh + one))) * zh;
    let v = powers(ch.v, 6);
    let f = d + p.a * v[1] + p.b * v[2] + p.c * v[3] + vk.s1 * v[4] + vk.s2 * v[5];
    let e = P::G1Affine::generator() * (v[1] * a + v[2] * b + v[3] * c + v[4] * p.eval_s1 + v[5] * p.eval_s2 + ch.u * p.eval_zw - r0);
    P::pairing(p.wxi + p.wxiw * ch.u, vk.x2) == P::pairing(p.wxi * ch.xi + p.wxiw * (ch.u * ch.xi * g) + f - e, P::G2Affine::generator())
}
