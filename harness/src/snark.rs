//! Random constraint systems, Groth16 keys from known secrets, and the formulas in the clear.
use ark_ec::{AffineRepr, CurveGroup, pairing::Pairing};
use ark_ff::{FftField, Field, One, PrimeField, Zero};
use ark_groth16::{ProvingKey, VerifyingKey};
use rand::Rng;
use taceo_groth16::ConstraintMatrices;

pub type Row<F> = Vec<(F, usize)>;
#[derive(Clone)]
pub struct R1cs<F: Field> {
    pub m: ConstraintMatrices<F>,
    /// public part (the first entry is one)
    pub inst: Vec<F>,
    pub wit: Vec<F>,
}
impl<F: Field> R1cs<F> {
    pub fn full(&self) -> Vec<F> { self.inst.iter().chain(&self.wit).copied().collect() }
}
pub fn dot<F: Field>(row: &[(F, usize)], z: &[F]) -> F { row.iter().map(|(c, i)| *c * z[*i]).sum() }
fn row<F: Field>(rng: &mut impl Rng, n: usize) -> Row<F> {
    let len = match rng.gen_range(0..8) { 0 => 0, 1 => 1, 2 => 7, _ => rng.gen_range(1..4) };
    (0..len).map(|_| {
        let c = match rng.gen_range(0..6) { 0 => F::one(), 1 => -F::one(), 2 => F::zero(), _ => F::rand(rng) };
        (c, rng.gen_range(0..n))
    }).collect()
}
/// `nc` constraints over `ni` public and `nw` private variables
pub fn r1cs<F: Field>(rng: &mut impl Rng, nc: usize, ni: usize, nw: usize, satisfied: bool) -> R1cs<F> {
    let n = ni + nw;
    let mut val = |_| match rng.gen_range(0..5) { 0 => F::zero(), 1 => F::one(), _ => F::rand(rng) };
    let mut z: Vec<F> = (0..n).map(&mut val).collect();
    z[0] = F::one();
    let (mut a, mut b, mut c) = (vec![], vec![], vec![]);
    for _ in 0..nc {
        let (ra, rb, mut rc) = (row(rng, n), row(rng, n), row(rng, n));
        if satisfied {
            let d = dot(&ra, &z) * dot(&rb, &z) - dot(&rc, &z);
            // through the constant, or through a variable
            let i = rng.gen_range(0..n);
            if z[i].is_zero() || rng.r#gen() { rc.push((d, 0)); } else { rc.push((d / z[i], i)); }
        }
        a.push(ra); b.push(rb); c.push(rc);
    }
    let nz = |m: &Vec<Row<F>>| m.iter().map(|r| r.len()).sum();
    let m = ConstraintMatrices {
        num_instance_variables: ni, num_witness_variables: nw, num_constraints: nc,
        a_num_non_zero: nz(&a), b_num_non_zero: nz(&b), c_num_non_zero: nz(&c), a, b, c,
    };
    R1cs { m, inst: z[..ni].to_vec(), wit: z[ni..].to_vec() }
}

/// generator of the subgroup of size 2^k and the coset shift, as circom chooses them
pub fn circom_domain<F: PrimeField>(k: usize) -> (F, F) {
    let half = F::MODULUS_MINUS_ONE_DIV_TWO;
    let mut q = F::one();
    while q.pow(half) != -F::one() { q += F::one(); }
    let z = q.pow(F::TRACE);
    let s = F::TWO_ADICITY as usize;
    let mut g = z;
    for _ in 0..s - k { g = g.square(); }
    let mut shift = z;
    if k == s { return (g, q * q); }
    for _ in 0..s - k - 1 { shift = shift.square(); }
    (g, shift)
}
/// what the library uses for the other reduction
pub fn library_gen<F: PrimeField>(k: usize) -> F { F::get_root_of_unity(1 << k).unwrap() }
pub fn log_size(n: usize) -> usize { n.next_power_of_two().trailing_zeros() as usize }
/// powers 1, x, x^2, ...
pub fn powers<F: Field>(x: F, n: usize) -> Vec<F> { std::iter::successors(Some(F::one()), |p| Some(*p * x)).take(n).collect() }
/// coefficients of the polynomial of degree below n with these values on the powers of g
pub fn interpolate<F: Field>(v: &[F], g: F) -> Vec<F> {
    let n = v.len();
    let p = powers(g.inverse().unwrap(), n);
    let ninv = F::from(n as u64).inverse().unwrap();
    (0..n).map(|j| ninv * (0..n).map(|i| v[i] * p[i * j % n]).sum::<F>()).collect()
}
pub fn eval<F: Field>(c: &[F], x: F) -> F { c.iter().rev().fold(F::zero(), |a, c| a * x + c) }
/// values at s·g^k
pub fn on_coset<F: Field>(c: &[F], g: F, s: F) -> Vec<F> { powers(g, c.len()).iter().map(|p| eval(c, s * p)).collect() }
fn padded<F: Field>(m: &[Row<F>], z: &[F], n: usize) -> Vec<F> {
    let mut v: Vec<F> = m.iter().map(|r| dot(r, z)).collect();
    v.resize(n, F::zero());
    v
}
fn avec<F: Field>(r: &R1cs<F>, z: &[F], n: usize) -> Vec<F> {
    let mut a = padded(&r.m.a, z, n);
    for i in 0..r.m.num_instance_variables { a[r.m.num_constraints + i] = r.inst[i]; }
    a
}
/// (A·B − C')(shift·g^k), with C' through the products
pub fn circom_h<F: PrimeField>(r: &R1cs<F>) -> Vec<F> {
    let k = log_size(r.m.num_constraints + r.m.num_instance_variables);
    let (g, s) = circom_domain::<F>(k);
    let z = r.full();
    let (a, b) = (avec(r, &z, 1 << k), padded(&r.m.b, &z, 1 << k));
    let ab: Vec<F> = a.iter().zip(&b).map(|(a, b)| *a * b).collect();
    let on = |v: &[F]| on_coset(&interpolate(v, g), g, s);
    let (a, b, c) = (on(&a), on(&b), on(&ab));
    (0..1 << k).map(|i| a[i] * b[i] - c[i]).collect()
}
/// coefficients of the polynomial that is (A·B − C)/Z on the coset of the field's generator
pub fn libsnark_h<F: PrimeField>(r: &R1cs<F>) -> Vec<F> {
    let k = log_size(r.m.num_constraints + r.m.num_instance_variables);
    let n = 1usize << k;
    let g = library_gen::<F>(k);
    let s = F::GENERATOR;
    let z = r.full();
    let on = |v: &[F]| on_coset(&interpolate(v, g), g, s);
    let (a, b, c) = (on(&avec(r, &z, n)), on(&padded(&r.m.b, &z, n)), on(&padded(&r.m.c, &z, n)));
    let zinv = (s.pow([n as u64]) - F::one()).inverse().unwrap();
    let h: Vec<F> = (0..n).map(|i| (a[i] * b[i] - c[i]) * zinv).collect();
    let p = powers(s.inverse().unwrap(), n);
    interpolate(&h, g).iter().zip(&p).map(|(c, p)| *c * p).collect()
}

/// value at x of the polynomial with these values on the powers of g, in linear time
pub fn bary<F: PrimeField>(v: &[&[F]], g: F, x: F) -> Vec<F> {
    let n = v[0].len();
    let p = powers(g, n);
    if let Some(i) = p.iter().position(|p| *p == x) { return v.iter().map(|v| v[i]).collect(); }
    let mut d: Vec<F> = p.iter().map(|p| x - p).collect();
    ark_ff::batch_inversion(&mut d);
    let z = (x.pow([n as u64]) - F::one()) / F::from(n as u64);
    v.iter().map(|v| z * v.iter().zip(&d).zip(&p).map(|((v, d), p)| *v * d * p).sum::<F>()).collect()
}
/// the vectors A, B, A·B and C on the domain
pub fn domain_values<F: PrimeField>(r: &R1cs<F>) -> [Vec<F>; 4] {
    let n = (r.m.num_constraints + r.m.num_instance_variables).next_power_of_two();
    let z = r.full();
    let (a, b, c) = (avec(r, &z, n), padded(&r.m.b, &z, n), padded(&r.m.c, &z, n));
    let ab = a.iter().zip(&b).map(|(a, b)| *a * b).collect();
    [a, b, ab, c]
}

/// the secrets of a trusted set-up
#[derive(Clone, Copy)]
pub struct Toxic<F> { pub tau: F, pub alpha: F, pub beta: F, pub gamma: F, pub delta: F }
/// a key together with the scalars behind its points
pub struct Key<P: Pairing> {
    pub pk: ProvingKey<P>,
    pub t: Toxic<P::ScalarField>,
    pub a: Vec<P::ScalarField>,
    pub b: Vec<P::ScalarField>,
    pub l: Vec<P::ScalarField>,
    pub h: Vec<P::ScalarField>,
    pub ic: Vec<P::ScalarField>,
}
pub fn g1<P: Pairing>(s: &[P::ScalarField]) -> Vec<P::G1Affine> { let g = P::G1Affine::generator(); P::G1::normalize_batch(&s.iter().map(|s| g * s).collect::<Vec<_>>()) }
pub fn g2<P: Pairing>(s: &[P::ScalarField]) -> Vec<P::G2Affine> { let g = P::G2Affine::generator(); P::G2::normalize_batch(&s.iter().map(|s| g * s).collect::<Vec<_>>()) }
pub fn groth16_key<P: Pairing>(rng: &mut impl Rng, r: &R1cs<P::ScalarField>, circom: bool) -> Key<P> {
    type F<P> = <P as Pairing>::ScalarField;
    use ark_ff::UniformRand;
    let mut nz = || loop { let x = F::<P>::rand(rng); if !x.is_zero() { break x; } };
    let t = Toxic { tau: nz(), alpha: nz(), beta: nz(), gamma: nz(), delta: nz() };
    let (nc, ni) = (r.m.num_constraints, r.m.num_instance_variables);
    let k = log_size(nc + ni);
    let n = 1usize << k;
    let (g, s) = if circom { circom_domain::<F<P>>(k) } else { (library_gen::<F<P>>(k), F::<P>::GENERATOR) };
    // Lagrange polynomials of the domain at tau
    let lag = |size: usize, g: F<P>| -> Vec<F<P>> {
        let z = (t.tau.pow([size as u64]) - F::<P>::one()) / F::<P>::from(size as u64);
        powers(g, size).iter().map(|p| z * p / (t.tau - p)).collect()
    };
    let l = lag(n, g);
    let cols = r.inst.len() + r.wit.len();
    let (mut a, mut b, mut c) = (vec![F::<P>::zero(); cols], vec![F::<P>::zero(); cols], vec![F::<P>::zero(); cols]);
    for (m, out) in [(&r.m.a, &mut a), (&r.m.b, &mut b), (&r.m.c, &mut c)] {
        for (i, row) in m.iter().enumerate() { for (x, j) in row { out[*j] += *x * l[i]; } }
    }
    for j in 0..ni { a[j] += l[nc + j]; }
    let h: Vec<F<P>> = if circom {
        // shift has order 2n and squares to g: the coset is the odd half of the domain of twice the size
        let l2 = lag(2 * n, s);
        (0..n).map(|i| l2[2 * i + 1] / t.delta).collect()
    } else {
        let z = t.tau.pow([n as u64]) - F::<P>::one();
        powers(t.tau, n - 1).iter().map(|p| *p * z / t.delta).collect()
    };
    let comb = |j: usize| t.beta * a[j] + t.alpha * b[j] + c[j];
    let ic: Vec<F<P>> = (0..ni).map(|j| comb(j) / t.gamma).collect();
    let lq: Vec<F<P>> = (ni..cols).map(|j| comb(j) / t.delta).collect();
    let pk = ProvingKey {
        vk: VerifyingKey {
            alpha_g1: g1::<P>(&[t.alpha])[0], beta_g2: g2::<P>(&[t.beta])[0], gamma_g2: g2::<P>(&[t.gamma])[0], delta_g2: g2::<P>(&[t.delta])[0], gamma_abc_g1: g1::<P>(&ic),
        },
        beta_g1: g1::<P>(&[t.beta])[0], delta_g1: g1::<P>(&[t.delta])[0],
        a_query: g1::<P>(&a), b_g1_query: g1::<P>(&b), b_g2_query: g2::<P>(&b), h_query: g1::<P>(&h), l_query: g1::<P>(&lq),
    };
    Key { pk, t, a, b, l: lq, h, ic }
}
impl<P: Pairing> Key<P> {
    /// discrete logarithms of the proof elements for these blinding values
    pub fn proof(&self, z: &[P::ScalarField], ni: usize, h: &[P::ScalarField], r: P::ScalarField, s: P::ScalarField) -> (P::ScalarField, P::ScalarField, P::ScalarField) {
        let sum = |q: &[P::ScalarField], v: &[P::ScalarField]| q.iter().zip(v).map(|(q, v)| *q * v).sum::<P::ScalarField>();
        let a = self.t.alpha + sum(&self.a, z) + r * self.t.delta;
        let b = self.t.beta + sum(&self.b, z) + s * self.t.delta;
        let c = s * a + r * b - r * s * self.t.delta + sum(&self.l, &z[ni..]) + sum(&self.h, h);
        (a, b, c)
    }
}
