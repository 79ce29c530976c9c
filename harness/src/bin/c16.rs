//! C16: splitting of witnesses and inputs loses nothing.
use ark_ff::{PrimeField, UniformRand, Zero};
use circom_types::Witness;
use co_circom_types::{BatchedWitness, Input, ShamirInputType, SharedWitness, split_input_shamir};
use harness::fields::{Bn, F97, value};
use harness::{H, R, caught, ensure, ensure_eq};
use mpc_core::protocols::shamir::{self, ShamirPrimeFieldShare};
use rand::Rng;
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};

fn quorum(rng: &mut impl Rng, n: usize, k: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() { v.swap(i, rng.gen_range(0..=i)); }
    v.truncate(k);
    v
}
fn witness<F: PrimeField>(n: usize, t: usize, len: usize, publics: usize, rng: &mut impl rand::RngCore, crypto: &mut rand_chacha::ChaCha12Rng) -> R {
    let values: Vec<F> = (0..len).map(|k| value(k, rng)).collect();
    let shares = caught(|| SharedWitness::<F, ShamirPrimeFieldShare<F>>::share_shamir(Witness { values: values.clone() }, publics, t, n, crypto))?;
    ensure_eq!(shares.len(), n, "number of parties");
    for (i, s) in shares.iter().enumerate() {
        ensure!(s.public_inputs[..] == values[..publics], "party {i}: the public part is not the first {publics} values in order");
        ensure_eq!(s.witness.len(), len - publics, "party {i}: number of shares");
        if publics > 0 {
            ensure!(s.public_inputs_for_verify()[..] == values[1..publics], "party {i}: public inputs for verification");
        }
    }
    for _ in 0..3 {
        let q = quorum(rng, n, t + 1);
        let pos: Vec<usize> = q.iter().map(|i| i + 1).collect();
        let sel: Vec<Vec<_>> = q.iter().map(|i| shares[*i].witness.clone()).collect();
        let got = caught(|| shamir::combine_field_elements(&sel, &pos, t))?.map_err(|e| e.to_string())?;
        ensure!(got[..] == values[publics..], "the parties {pos:?} reconstruct another witness");
    }
    Ok(())
}
fn names(rng: &mut impl Rng) -> Vec<String> {
    let pool = ["a", "b", "in", "in2", "x[0]", "secret", "ab", "A", "", "a_b", "ä", "a.b", "z10", "z9"];
    let mut v: BTreeSet<String> = BTreeSet::new();
    for _ in 0..rng.gen_range(0..7) { v.insert(pool[rng.gen_range(0..pool.len())].into()); }
    v.into_iter().collect()
}
fn array<F: PrimeField>(rng: &mut impl Rng, depth: u32, out: &mut Vec<Option<F>>) -> Value {
    let mut v = vec![];
    for _ in 0..rng.gen_range(0..if depth > 1 { 14 } else { 5 }) {
        match rng.gen_range(0..8) {
            0 if depth > 0 => v.push(array(rng, depth - 1, out)),
            1 => { out.push(None); v.push(json!("?")) }
            2 => { let b: bool = rng.r#gen(); out.push(Some(F::from(b))); v.push(json!(b)) }
            _ => { let k: u64 = rng.gen_range(0..50); out.push(Some(F::from(k))); v.push(json!(k.to_string())) }
        }
    }
    Value::Array(v)
}
fn input<F: PrimeField>(n: usize, t: usize, rng: &mut impl Rng) -> R {
    let mut map = Input::new();
    let mut want: BTreeMap<String, (F, bool)> = BTreeMap::new();
    let mut public = vec![];
    let mut collide = false;
    for name in names(rng) {
        let p = rng.gen_bool(0.4);
        if p { public.push(name.clone()); }
        let mut add = |k: String, v: F| collide |= want.insert(k, (v, p)).is_some();
        let v = match rng.gen_range(0..5) {
            0 => { let b: bool = rng.r#gen(); add(name.clone(), F::from(b)); json!(b) }
            1 | 2 => {
                let k: u64 = rng.gen_range(0..2000);
                let neg = rng.gen_bool(0.3);
                add(name.clone(), if neg { -F::from(k) } else { F::from(k) });
                json!(format!("{}{k}", if neg { "-" } else { "" }))
            }
            _ => {
                let mut out = vec![];
                let v = array::<F>(rng, 2, &mut out);
                for (i, f) in out.into_iter().enumerate() {
                    if let Some(f) = f { add(format!("{name}[{i}]"), f); }
                }
                v
            }
        };
        map.insert(name, v);
    }
    if collide { return Ok(()); } // an array and a scalar that claim the same name: nothing is promised
    for _ in 0..2 { public.push("absent".into()); public.reverse(); }
    let got = caught(|| split_input_shamir::<F>(map.clone(), &public, t, n))?.map_err(|e| format!("{map:?}: {e}"))?;
    ensure_eq!(got.len(), n, "number of parties");
    for (i, g) in got.iter().enumerate() {
        let ks: Vec<&String> = g.keys().collect();
        let ws: Vec<&String> = want.keys().collect();
        ensure!(ks == ws, "{map:?}: party {i} has the inputs {ks:?}, expected {ws:?}");
    }
    for (k, (v, p)) in &want {
        if *p {
            for (i, g) in got.iter().enumerate() {
                ensure!(matches!(&g[k], ShamirInputType::Public(x) if x == v), "{map:?}: the public input {k} of party {i} is {:?}, expected {v}", g[k]);
            }
        } else {
            let q = quorum(rng, n, t + 1);
            let mut sel = vec![];
            for i in &q {
                match &got[*i][k] {
                    ShamirInputType::Shared(s) => sel.push(*s),
                    o => return Err(format!("{map:?}: the secret input {k} of party {i} is {o:?}")),
                }
            }
            let pos: Vec<usize> = q.iter().map(|i| i + 1).collect();
            let x = caught(|| shamir::combine_field_element(&sel, &pos, t))?.map_err(|e| e.to_string())?;
            ensure!(x == *v, "{map:?}: the secret input {k} reconstructs to {x}, expected {v}");
        }
    }
    Ok(())
}
fn hidden(rng: &mut impl Rng) -> R {
    // with t >= 1 no share of a secret input is the input itself, and two inputs with one value get different shares
    type F = ark_bn254::Fr;
    let v = rng.gen_range(0..9u64).to_string();
    let map: Input = serde_json::from_value(json!({"a": v, "b": v, "c": [v, v]})).unwrap();
    let got = split_input_shamir::<F>(map, &[], 1, 3).map_err(|e| e.to_string())?;
    let f: F = v.parse().unwrap();
    for g in &got {
        let mut seen: Vec<F> = vec![];
        for (k, s) in g {
            let ShamirInputType::Shared(s) = s else { return Err(format!("the secret input {k} is public")) };
            let s = s.inner();
            ensure!(s != f && !seen.contains(&s), "the share of {k} is the value itself or a repeated share");
            seen.push(s);
        }
    }
    Ok(())
}
fn refused() -> R {
    type F = ark_bn254::Fr;
    for v in [json!(1), json!(null), json!({}), json!("?"), json!("x"), json!(""), json!(["1", 2]), json!([["1"], null])] {
        let map: Input = serde_json::from_value(json!({"a": "1", "b": v, "c": "2"})).unwrap();
        ensure!(caught(|| split_input_shamir::<F>(map, &[], 1, 3))?.is_err(), "the input value {v} is accepted");
    }
    Ok(())
}
fn batch<F: PrimeField>(size: usize, publics: usize, secrets: usize, rng: &mut impl Rng) -> R {
    let p: Vec<Vec<F>> = (0..publics).map(|_| (0..size).map(|_| F::rand(rng)).collect()).collect();
    let w: Vec<Vec<F>> = (0..secrets).map(|_| (0..size).map(|_| F::rand(rng)).collect()).collect();
    let b: BatchedWitness<F, F> = SharedWitness { public_inputs: p.clone(), witness: w.clone() };
    let got = caught(|| b.unbatch())?;
    ensure_eq!(got.len(), size, "number of witnesses");
    for (i, g) in got.iter().enumerate() {
        ensure!(g.public_inputs == p.iter().map(|c| c[i]).collect::<Vec<_>>(), "public part of witness {i} of {size}");
        ensure!(g.witness == w.iter().map(|c| c[i]).collect::<Vec<_>>(), "secret part of witness {i} of {size}");
    }
    for which in 0..publics + secrets {
        for longer in [true, false] {
            if size == 0 && !longer { continue; }
            if publics == 1 && which == 0 && secrets == 0 { continue; } // the only column defines the size
            let (mut p, mut w) = (p.clone(), w.clone());
            let c = if which < publics { &mut p[which] } else { &mut w[which - publics] };
            if longer { c.push(F::zero()); } else { c.pop(); }
            let b: BatchedWitness<F, F> = SharedWitness { public_inputs: p, witness: w };
            ensure!(caught(|| b.unbatch()).is_err(), "a batch of {size} whose column {which} is {} is accepted", if longer { "longer" } else { "shorter" });
        }
    }
    let b: BatchedWitness<F, F> = SharedWitness { public_inputs: vec![], witness: w };
    ensure!(caught(|| b.unbatch()).is_err(), "a batch without public inputs is accepted");
    Ok(())
}
fn main() {
    let mut h = H::new("C16");
    for n in 1..=h.by(7usize, 12) {
        for t in 0..n {
            for (len, publics) in [(0, 0), (1, 0), (1, 1), (5, 1), (6, 3), (9, 9), (40, 2)] {
                h.case("witness bn254", &format!("n={n} t={t} {len}/{publics}"), move |r| { let mut c = harness::rng_of("w"); witness::<ark_bn254::Fr>(n, t, len, publics, r, &mut c) });
            }
            h.case("witness F97", &format!("n={n} t={t}"), move |r| { let mut c = harness::rng_of("v"); witness::<F97>(n, t, 23, 4, r, &mut c) });
            for i in 0..h.by(6, 40) {
                h.case("input bn254", &format!("n={n} t={t} {i}"), move |r| input::<ark_bn254::Fr>(n, t, r));
                h.case("input bls", &format!("n={n} t={t} {i}"), move |r| input::<ark_bls12_381::Fr>(n, t, r));
            }
        }
    }
    h.case("witness bn254", "long", |r| { let mut c = harness::rng_of("l"); witness::<ark_bn254::Fr>(5, 2, 3000, 700, r, &mut c) });
    h.case("witness", "more public values than there are", |_| {
        let r = caught(|| SharedWitness::<Bn, ShamirPrimeFieldShare<Bn>>::share_shamir(Witness { values: vec![Bn::zero(); 3] }, 4, 1, 3, &mut harness::rng_of("m")));
        ensure!(r.is_err(), "accepted");
        Ok(())
    });
    for i in 0..h.by(4, 40) { h.case("input", &format!("hidden {i}"), |r| hidden(r)); }
    h.case("input", "refused values", |_| refused());
    for size in 0..5 {
        for publics in 1..4 {
            for secrets in 0..4 {
                h.case("batch", &format!("{size} {publics} {secrets}"), move |r| batch::<ark_bn254::Fr>(size, publics, secrets, r));
            }
        }
    }
    h.case("batch", "large", |r| batch::<F97>(130, 3, 70, r));
    h.finish()
}
