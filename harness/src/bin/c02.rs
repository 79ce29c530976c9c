//! C02: exact view distributions over tiny fields (every value of the randomness), structure of the randomness elsewhere.
use ark_ec::{CurveGroup, PrimeGroup};
use ark_ff::{PrimeField, Zero};
use harness::{H, R, ensure, ensure_eq, fields::*};
use mpc_core::protocols::shamir::*;
use rand::{CryptoRng, RngCore};
use rand_chacha::ChaCha12Rng;
use std::collections::{BTreeMap, BTreeSet};

/// Hands out the given words, then small ones; counts the words asked for.
struct Script(Vec<u64>, usize);
impl RngCore for Script {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.1 += 1;
        self.0.get(self.1 - 1).copied().unwrap_or(self.1 as u64 % 5)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for c in d.chunks_mut(8) {
            let w = self.next_u64().to_le_bytes();
            c.copy_from_slice(&w[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl CryptoRng for Script {}

fn subsets(n: usize, t: usize) -> Vec<Vec<usize>> {
    (0u32..1 << n).filter(|m| m.count_ones() as usize == t).map(|m| (0..n).filter(|i| m >> i & 1 == 1).collect()).collect()
}

/// Every tuple of words below p of the length the code asks for; the multiset of views must not depend on the secret.
fn exact<F: PrimeField>(n: usize, t: usize, vec: bool) -> R {
    let p = F::MODULUS.as_ref()[0];
    let secrets: Vec<F> = (0..p).map(F::from).collect();
    let share = |s: F, r: &mut Script| -> Vec<Vec<F>> {
        if vec {
            share_field_elements(&[s, F::from(1u64)], t, n, r).into_iter().map(|v| v.into_iter().map(|x| x.inner()).collect()).collect()
        } else {
            share_field_element(s, t, n, r).into_iter().map(|x| vec![x.inner()]).collect()
        }
    };
    let mut probe = Script(vec![], 0);
    ensure_eq!(share(F::zero(), &mut probe).len(), n, "number of shares");
    let d = probe.1;
    let total = p.pow(d as u32);
    ensure!(total <= 200_000, "{d} words of randomness");
    let all: Vec<Vec<u64>> = (0..total).map(|mut k| (0..d).map(|_| { let x = k % p; k /= p; x }).collect()).collect();
    for sel in subsets(n, t) {
        let mut first: Option<BTreeMap<String, u64>> = None;
        for s in &secrets {
            let mut h = BTreeMap::new();
            for w in &all {
                let sh = share(*s, &mut Script(w.clone(), 0));
                let view: Vec<String> = sel.iter().map(|i| sh[*i].iter().map(|x| format!("{x} ")).collect()).collect();
                *h.entry(view.join("|")).or_insert(0u64) += 1;
            }
            match &first {
                None => first = Some(h),
                Some(f) => ensure!(*f == h, "parties {sel:?} tell the secret {s} from 0: {} views against {}", h.len(), f.len()),
            }
        }
    }
    Ok(())
}

fn coeffs<F: PrimeField>(v: &[F]) -> Vec<F> {
    // interpolation through (1, v0), (2, v1), ...
    let n = v.len();
    let mut out = vec![F::zero(); n];
    for i in 0..n {
        let mut p = vec![F::from(1u64)];
        let mut den = F::from(1u64);
        for j in 0..n {
            if i == j {
                continue;
            }
            let x = F::from(j as u64 + 1);
            let mut q = vec![F::zero(); p.len() + 1];
            for (k, c) in p.iter().enumerate() {
                q[k + 1] += *c;
                q[k] -= *c * x;
            }
            p = q;
            den *= F::from(i as u64 + 1) - x;
        }
        let s = v[i] / den;
        for (k, c) in p.iter().enumerate() {
            out[k] += *c * s;
        }
    }
    out
}

/// Over a large field: the coefficients are all fresh (never zero, never repeated, within or across secrets) and do not depend on the secret.
fn fresh(n: usize, t: usize, len: usize, rng: &mut ChaCha12Rng) -> R {
    let s: Vec<Bn> = (0..len).map(|i| value(i, rng)).collect();
    let o: Vec<Bn> = (0..len).map(|i| value(i + 100, rng)).collect();
    let (mut r1, mut r2) = (rng.clone(), rng.clone());
    let a = share_field_elements(&s, t, n, &mut r1);
    let b = share_field_elements(&o, t, n, &mut r2);
    let mut seen = BTreeSet::new();
    for k in 0..len {
        let ca = coeffs(&a.iter().map(|x| x[k].inner()).collect::<Vec<_>>());
        let cb = coeffs(&b.iter().map(|x| x[k].inner()).collect::<Vec<_>>());
        ensure_eq!(ca[0], s[k], "constant term of secret {k}");
        ensure_eq!(ca[1..], cb[1..], "randomness depends on the secret {k}");
        ensure!(ca[t + 1..].iter().all(|c| c.is_zero()), "degree of secret {k} above {t}");
        for c in &ca[1..=t] {
            ensure!(!c.is_zero(), "a coefficient of secret {k} is zero");
            ensure!(!s.contains(c), "a coefficient of secret {k} is a secret");
            ensure!(seen.insert(c.into_bigint()), "a coefficient of secret {k} is used twice");
        }
    }
    // a second call draws afresh
    let c = share_field_elements(&s, t, n, &mut r1);
    if t > 0 && len > 0 {
        for k in 0..len {
            for c in &coeffs(&c.iter().map(|x| x[k].inner()).collect::<Vec<_>>())[1..=t] {
                ensure!(seen.insert(c.into_bigint()), "a coefficient of the second sharing is used twice");
            }
        }
    }
    // single elements
    for k in 0..len {
        let c = coeffs(&share_field_element(s[k], t, n, &mut r1).iter().map(|x| x.inner()).collect::<Vec<_>>());
        ensure_eq!(c[0], s[k], "constant term");
        for c in &c[1..=t] {
            ensure!(!c.is_zero() && seen.insert(c.into_bigint()), "a coefficient of a single sharing is zero or used twice");
        }
    }
    Ok(())
}

/// No coefficient is zero, a multiple by one or minus one of another, or the sum or difference of two others.
fn unrelated<C: CurveGroup>(c: &[C]) -> R {
    for i in 0..c.len() {
        ensure!(!c[i].is_zero(), "coefficient {} is zero", i + 1);
        for j in 0..i {
            ensure!(c[i] != c[j] && c[i] != -c[j] && c[i] != c[j].double() && c[i].double() != c[j], "coefficients {} and {} are related", j + 1, i + 1);
        }
    }
    for i in 0..c.len().min(8) {
        for j in 0..i {
            let (a, b) = (c[i] + c[j], c[i] - c[j]);
            ensure!(!c.iter().any(|x| *x == a || *x == b || *x == -a || *x == -b), "coefficients {} and {} give another one", j + 1, i + 1);
        }
    }
    Ok(())
}

fn points<C: CurveGroup>(n: usize, t: usize, k: usize, rng: &mut ChaCha12Rng) -> R {
    let (s, o) = (C::generator() * value::<C::ScalarField>(k, rng), C::generator() * value::<C::ScalarField>(k + 3, rng));
    let (mut r1, mut r2) = (rng.clone(), rng.clone());
    let a = share_curve_point(s, t, n, &mut r1);
    let b = share_curve_point(o, t, n, &mut r2);
    let c = share_curve_point(s, t, n, &mut r1);
    let m = t + 1;
    let cols: Vec<Vec<C::ScalarField>> = (0..m).map(|i| coeffs(&(0..m).map(|j| C::ScalarField::from((i == j) as u64)).collect::<Vec<_>>())).collect();
    let get = |v: &Vec<ShamirPointShare<C>>| -> Vec<C> { (1..m).map(|k| (0..m).map(|i| v[i].inner() * cols[i][k]).sum()).collect() };
    for i in 0..n {
        ensure_eq!(a[i].inner() - b[i].inner(), s - o, "share {i} depends on the secret beyond its constant term");
        if t > 0 {
            ensure!(a[i].inner() != s && a[i].inner() != C::zero(), "share {i} is the secret");
        }
    }
    let mut all = get(&a);
    all.extend(get(&c));
    unrelated(&all)
}

fn main() {
    let mut h = H::new("C02");
    for n in 1..=4usize {
        for t in 0..n {
            h.case("exact/5", &format!("n={n} t={t}"), move |_| exact::<F5>(n, t, false));
            h.case("exact/7", &format!("n={n} t={t}"), move |_| exact::<F7>(n, t, false));
            if t <= 2 {
                h.case("exact-vector/5", &format!("n={n} t={t}"), move |_| exact::<F5>(n, t, true));
            }
        }
    }
    for (n, t) in [(5, 1), (5, 2), (6, 2), (6, 3)] {
        h.case("exact/7", &format!("n={n} t={t}"), move |_| exact::<F7>(n, t, false));
    }
    for n in 1..=h.by(9, 16) {
        for t in 0..n {
            for len in [0, 1, 2, 5, 17] {
                h.case("fresh/bn254", &format!("n={n} t={t} len={len}"), move |r| fresh(n, t, len, r));
            }
            for k in [0, 1, 9] {
                h.case("points/bn254-g1", &format!("n={n} t={t} k={k}"), move |r| points::<ark_bn254::G1Projective>(n, t, k, r));
            }
        }
    }
    for (n, t) in [(16, 15), (31, 10), (64, 31)] {
        h.case("fresh/bn254", &format!("n={n} t={t} len=3"), move |r| fresh(n, t, 3, r));
    }
    h.case("fresh/bn254", "n=3 t=1 len=1100", move |r| fresh(3, 1, 1100, r));
    h.finish()
}
