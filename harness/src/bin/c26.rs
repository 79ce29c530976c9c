//! C26: Merkle roots, openings and verification agree.
use ark_ff::PrimeField;
use harness::{H, R, caught, ensure, ensure_eq, fields::*, mpc::*};
use mpc_core::gadgets::merkle_tree::plain::MerkleWitnessElement;
use mpc_core::gadgets::poseidon2::{Poseidon2, Poseidon2Params};
use mpc_core::protocols::shamir::{self, ShamirState};
use rand::Rng;
use rand_chacha::ChaCha12Rng;

/// small random parameters: the tree's structure is under test, any permutation of the same code does
fn hasher<F: PrimeField, const T: usize>(rng: &mut ChaCha12Rng) -> Poseidon2<F, T, 5> {
    let mut v = |n: usize| -> Vec<F> { (0..n).map(|_| F::rand(rng)).collect() };
    let diag = match T {
        2 => vec![F::one(), F::from(2u64)],
        3 => vec![F::one(), F::one(), F::from(2u64)],
        _ => v(T),
    };
    let ext: Vec<[F; T]> = (0..4).map(|_| v(T).try_into().unwrap()).collect();
    let int = v(3);
    let p: Poseidon2Params<F, T, 5> = Poseidon2Params {
        rounds_f_beginning: 2,
        rounds_f_end: 2,
        rounds_p: 3,
        mat_internal_diag_m_1: Box::leak(Box::new(<[F; T]>::try_from(diag).unwrap())),
        round_constants_external: Box::leak(Box::new(ext)),
        round_constants_internal: Box::leak(Box::new(int)),
    };
    Poseidon2::new(Box::leak(Box::new(p)))
}

fn node<F: PrimeField, const T: usize>(h: &Poseidon2<F, T, 5>, sponge: bool, row: &[F]) -> F {
    let mut s = [F::zero(); T];
    s[..row.len()].copy_from_slice(row);
    let o = h.permutation(&s);
    if sponge { o[0] } else { o[0] + s[0] }
}
fn levels<F: PrimeField, const T: usize>(h: &Poseidon2<F, T, 5>, sponge: bool, arity: usize, leaves: &[F]) -> Vec<Vec<F>> {
    let mut l = vec![leaves.to_vec()];
    while l.last().unwrap().len() > 1 {
        let n = l.last().unwrap().chunks(arity).map(|r| node(h, sponge, r)).collect();
        l.push(n);
    }
    l
}
type W<F> = Vec<MerkleWitnessElement<F>>;
fn copy<F: Clone>(w: &[MerkleWitnessElement<F>]) -> W<F> {
    w.iter().map(|x| MerkleWitnessElement { other: x.other.clone(), position: x.position }).collect()
}

fn plain<F: PrimeField, const T: usize, const A: usize>(sponge: bool, depth: u32, rng: &mut ChaCha12Rng) -> R {
    let h = hasher::<F, T>(rng);
    let n = A.pow(depth);
    let mut leaves: Vec<F> = (0..n).map(|_| F::rand(rng)).collect();
    match rng.gen_range(0..4) {
        0 => leaves = vec![F::zero(); n],
        1 => leaves[n - 1] = leaves[0],
        _ => {}
    }
    let lv = levels(&h, sponge, A, &leaves);
    let root = lv.last().unwrap()[0];
    let r = caught(|| if sponge { h.merkle_tree_sponge::<A>(leaves.clone()) } else { h.merkle_tree_compression::<A>(leaves.clone()) })?;
    ensure_eq!(r, root, "root");
    let verify = |root: F, leaf: F, w: W<F>| caught(|| if sponge { h.verify_merkle_path_sponge(root, leaf, w) } else { h.verify_merkle_path_compression(root, leaf, w) });
    let picks: Vec<usize> = if n <= 16 { (0..n).collect() } else { vec![0, 1, A - 1, A, n / 2, n - 2, n - 1, rng.gen_range(0..n), rng.gen_range(0..n)] };
    for i in picks {
        let (r, w) = caught(|| if sponge { h.merkle_tree_sponge_with_witness::<A>(leaves.clone(), i) } else { h.merkle_tree_compression_with_witness::<A>(leaves.clone(), i) })?;
        ensure_eq!(r, root, "root with witness of {i}");
        ensure_eq!(w.len(), depth as usize, "witness length of {i}");
        let mut at = i;
        for (d, e) in w.iter().enumerate() {
            let base = at / A * A;
            let others: Vec<F> = (0..A).filter(|j| base + j != at).map(|j| lv[d][base + j]).collect();
            ensure_eq!(e.other, others, "siblings of {i} at level {d}");
            ensure_eq!(e.position, at % A, "position of {i} at level {d}");
            at /= A;
        }
        let leaf = leaves[i];
        ensure!(verify(root, leaf, copy(&w))?, "opening of {i} does not verify");
        ensure!(!verify(root, leaf + F::one(), copy(&w))?, "opening of {i} verifies another leaf");
        ensure!(!verify(root + F::one(), leaf, copy(&w))?, "opening of {i} verifies against another root");
        if w.is_empty() { continue; }
        let d = rng.gen_range(0..w.len());
        let mut x = copy(&w);
        let j = rng.gen_range(0..A - 1);
        x[d].other[j] += F::one();
        ensure!(!verify(root, leaf, x)?, "altered sibling {j} at level {d} of {i} verifies");
        let mut x = copy(&w);
        x[d].position = (x[d].position + 1) % A;
        // moved among equal values it stays the same row
        let row = |w: &MerkleWitnessElement<F>, v: F| { let mut r = w.other.clone(); r.insert(w.position, v); r };
        let mut acc = leaf;
        for e in &x { acc = node(&h, sponge, &row(e, acc)); }
        ensure!(verify(root, leaf, copy(&x))? == (acc == root), "moved position at level {d} of {i}");
        let mut x = copy(&w);
        x[d].position = A + rng.gen_range(0..3);
        ensure!(!verify(root, leaf, x)?, "position past the arity verifies");
        let mut x = copy(&w);
        x[d].position = usize::MAX;
        ensure!(!verify(root, leaf, x)?, "position past the arity verifies");
        if w.len() > 1 {
            for extra in [true, false] {
                let mut x = copy(&w);
                if extra { x[1].other.push(F::zero()); } else { x[1].other.pop(); }
                ensure!(!matches!(verify(root, leaf, x), Ok(true)), "rows of different width verify");
            }
            let mut x = copy(&w);
            x.pop();
            ensure!(!verify(root, leaf, x)?, "path cut short verifies");
        }
    }
    // paths that are not from a tree: accepted exactly when they recompute to the root
    for _ in 0..3 {
        let k = rng.gen_range(1..5);
        let w: W<F> = (0..k).map(|_| MerkleWitnessElement { other: (0..A - 1).map(|_| F::rand(rng)).collect(), position: rng.gen_range(0..A) }).collect();
        let leaf = F::rand(rng);
        let mut acc = leaf;
        for e in &w {
            let mut r = e.other.clone();
            r.insert(e.position, acc);
            acc = node(&h, sponge, &r);
        }
        ensure!(verify(acc, leaf, copy(&w))?, "free path of {k} does not verify");
        ensure!(!verify(acc + F::one(), leaf, copy(&w))?, "free path of {k} verifies against another root");
    }
    Ok(())
}

fn shared<F: PrimeField, const T: usize, const A: usize>(sponge: bool, depth: u32, n: usize, t: usize, rng: &mut ChaCha12Rng) -> R {
    let h = hasher::<F, T>(rng);
    let leaves: Vec<F> = (0..A.pow(depth)).map(|_| F::rand(rng)).collect();
    let root = levels(&h, sponge, A, &leaves).last().unwrap()[0];
    let sh = shamir::share_field_elements(&leaves, t, n, rng);
    let h = &h;
    let r = all(n, |i, net| {
        let mut st: ShamirState<F> = state(n, t, 0, net)?;
        let s = sh[i].clone();
        if sponge { h.merkle_tree_sponge_shamir::<A, _>(s, net, &mut st) } else { h.merkle_tree_compression_shamir::<A, _>(s, net, &mut st) }
    })?;
    ensure_eq!(open(&r, t)?, root, "root of the shared tree");
    Ok(())
}

fn both<F: PrimeField, const T: usize, const A: usize>(h: &mut H, name: &str, depths: u32) {
    for sponge in [true, false] {
        if sponge && T <= A { continue; }
        let m = if sponge { "sponge" } else { "compression" };
        for d in 0..=depths {
            for rep in 0..h.by(2, 8) {
                h.case("plain", &format!("{name}/{m}/t={T}/arity={A}/depth={d}/rep={rep}"), move |rng| plain::<F, T, A>(sponge, d, rng));
            }
        }
        for (n, t) in [(3, 1), (5, 2), (4, 1), (2, 0)] {
            for d in 0..=depths.min(if A == 2 { 3 } else { 2 }) {
                h.case("shamir", &format!("{name}/{m}/t={T}/arity={A}/depth={d}/n={n}/t={t}"), move |rng| shared::<F, T, A>(sponge, d, n, t, rng));
            }
        }
    }
}

fn main() {
    let mut h = H::new("C26");
    both::<Bn, 2, 2>(&mut h, "bn254", 6);
    both::<Bn, 3, 2>(&mut h, "bn254", 6);
    both::<Bn, 3, 3>(&mut h, "bn254", 4);
    both::<Bn, 4, 2>(&mut h, "bn254", 6);
    both::<Bn, 4, 3>(&mut h, "bn254", 4);
    both::<Bn, 4, 4>(&mut h, "bn254", 4);
    both::<Bls, 3, 2>(&mut h, "bls", 5);
    both::<Bls, 8, 5>(&mut h, "bls", 3);
    both::<Bls, 8, 7>(&mut h, "bls", 2);
    both::<Bls, 8, 8>(&mut h, "bls", 2);
    h.finish();
}
