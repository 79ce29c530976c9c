//! C05: Shamir preprocessing: consistent double sharings, never handed out twice, also across forks.
use ark_ff::PrimeField;
use harness::{H, R, ensure, ensure_eq, fields::*, mpc::*};
use mpc_core::{MpcState, protocols::shamir::ShamirState};
use rand::Rng;
use rand_chacha::ChaCha12Rng;
use std::collections::BTreeSet;

#[derive(Clone, Copy, Debug)]
enum Op {
    Draw(usize),
    Rand(usize),
    Buffer(usize),
    /// fork with that many pairs, draw some from the fork
    Fork(usize, usize),
}

/// all parties run the same history; the pairs they got, in order
fn run<F: PrimeField>(n: usize, t: usize, amount: usize, ops: &[Op]) -> Result<Vec<Vec<(F, Option<F>)>>, String> {
    all(n, |_, net| {
        let mut st: ShamirState<F> = state(n, t, amount, net)?;
        let mut forks: Vec<(ShamirState<F>, usize)> = vec![];
        let mut out = vec![];
        for op in ops {
            match *op {
                Op::Draw(k) => {
                    for _ in 0..k {
                        let p = st.get_pair(net)?;
                        out.push((p.0, Some(p.1)));
                    }
                }
                Op::Rand(k) => {
                    for _ in 0..k {
                        out.push((st.rand(net)?.inner(), None));
                    }
                }
                Op::Buffer(k) => st.buffer_triples(net, k)?,
                Op::Fork(k, d) => {
                    let mut f = st.fork(k)?;
                    for _ in 0..d {
                        let p = f.get_pair(net)?;
                        out.push((p.0, Some(p.1)));
                    }
                    forks.push((f, k.saturating_sub(d)));
                }
            }
        }
        // what is left in the forks, and one past the end of each
        for (f, left) in &mut forks {
            for _ in 0..*left + 1 {
                let p = f.get_pair(net)?;
                out.push((p.0, Some(p.1)));
            }
        }
        for _ in 0..3 {
            let p = st.get_pair(net)?;
            out.push((p.0, Some(p.1)));
        }
        Ok(out)
    })
}

fn check<F: PrimeField>(n: usize, t: usize, amount: usize, ops: &[Op]) -> R {
    let r = run::<F>(n, t, amount, ops)?;
    let len = r[0].len();
    ensure!(r.iter().all(|x| x.len() == len), "different numbers of pairs");
    let mut seen = BTreeSet::new();
    let mut views = BTreeSet::new();
    for k in 0..len {
        let a: Vec<F> = r.iter().map(|x| x[k].0).collect();
        let s = secret(&a, t).map_err(|e| format!("pair {k}: r_t: {e}"))?;
        if r[0][k].1.is_some() {
            let b: Vec<F> = r.iter().map(|x| x[k].1.unwrap()).collect();
            let s2 = secret(&b, 2 * t).map_err(|e| format!("pair {k}: r_2t: {e}"))?;
            ensure_eq!(s, s2, "pair {k}: the two sharings have different secrets");
            if t > 0 {
                ensure!(secret(&b, 2 * t - 1).is_err(), "pair {k}: the second sharing is not of degree 2t");
            }
        }
        ensure!(seen.insert(s.into_bigint()), "pair {k}: handed out before");
        if t > 0 {
            ensure!(secret(&a, t - 1).is_err(), "pair {k}: the first sharing has a degree below t");
            for (i, x) in a.iter().enumerate() {
                ensure!(views.insert((i, x.into_bigint())), "pair {k}: party {i}'s share repeats");
            }
        }
    }
    Ok(())
}

fn history(rng: &mut ChaCha12Rng, amount: usize) -> Vec<Op> {
    let mut have = amount;
    (0..rng.gen_range(1..7))
        .map(|_| match rng.gen_range(0..4) {
            0 => { let k = rng.gen_range(0..6); have = have.saturating_sub(k); Op::Draw(k) }
            1 => { let k = rng.gen_range(0..4); have = have.saturating_sub(k); Op::Rand(k) }
            2 => { let k = rng.gen_range(0..40); have = have.max(k); Op::Buffer(k) }
            _ => { let k = rng.gen_range(0..=have.min(9)); have -= k; Op::Fork(k, rng.gen_range(0..=k)) }
        })
        .collect()
}

fn main() {
    let mut h = H::new("C05");
    let nt: Vec<(usize, usize)> = (2..=9).flat_map(|n| (0..=(n - 1) / 2).map(move |t| (n, t))).chain([(17, 2), (12, 5)]).collect();
    for &(n, t) in &nt {
        for amount in [0usize, 1, 2, 3, t + 1, t + 2, 2 * (t + 1), 17, 64] {
            h.case("preprocessing", &format!("fresh n={n} t={t} amount={amount}"), move |_| {
                check::<Bn>(n, t, amount, &[Op::Draw(amount)])?;
                check::<Bls>(n, t, amount, &[Op::Draw(amount / 2)])
            });
        }
        let hist: Vec<(&str, usize, Vec<Op>)> = vec![
            ("fork then draw", 12, vec![Op::Fork(4, 4), Op::Draw(8)]),
            ("draw then fork", 12, vec![Op::Draw(3), Op::Fork(4, 2), Op::Draw(2)]),
            ("forks", 12, vec![Op::Fork(3, 1), Op::Fork(0, 0), Op::Fork(5, 5), Op::Draw(1)]),
            ("fork everything", 6, vec![Op::Fork(6, 3), Op::Draw(2)]),
            ("buffer", 3, vec![Op::Buffer(20), Op::Draw(20), Op::Buffer(1), Op::Buffer(5), Op::Draw(4)]),
            ("buffer less than there is", 9, vec![Op::Buffer(2), Op::Draw(3), Op::Buffer(7), Op::Draw(7)]),
            ("buffer after fork", 7, vec![Op::Fork(5, 0), Op::Buffer(6), Op::Fork(6, 1), Op::Draw(1)]),
            ("rand and pairs", 10, vec![Op::Rand(3), Op::Draw(2), Op::Rand(1), Op::Fork(2, 1), Op::Rand(2)]),
            ("refill", 0, vec![Op::Draw(5), Op::Fork(20, 20), Op::Draw(5)]),
        ];
        for (name, amount, ops) in hist {
            h.case("histories", &format!("{name} n={n} t={t}"), move |_| check::<Bn>(n, t, amount, &ops));
        }
        for k in 0..if h.level == 0 { 4 } else { 20 } {
            h.case("histories", &format!("history {k} n={n} t={t}"), move |rng| {
                let amount = rng.gen_range(0..30);
                let ops = history(rng, amount);
                check::<Bn>(n, t, amount, &ops).map_err(|e| format!("{e} ({amount}, {ops:?})"))
            });
        }
        h.case("refill", &format!("two refills n={n} t={t}"), move |_| if n <= 5 { check::<Bls>(n, t, 1, &[Op::Draw(1024 * (t + 1) + 10)]) } else { Ok(()) });
        if n > 1 && t > 0 && 2 * t + 1 <= n {
            h.case("errors", &format!("threshold too large n={n} t={t}"), move |_| {
                let r = parties(n, |_, net| state::<Bn>(n, (n + 1) / 2, 1, net).map(|_| ()));
                ensure!(r.iter().all(|x| x.is_err()), "accepted a threshold that is too large");
                Ok(())
            });
        }
        h.case("errors", &format!("fork too many n={n} t={t}"), move |_| {
            let r = parties(n, |_, net| {
                let mut st: ShamirState<Bn> = state(n, t, 4, net)?;
                st.fork(4 + 2 * n).map(|_| ())
            });
            ensure!(r.iter().all(|x| x.is_err()), "a fork got more pairs than there are");
            Ok(())
        });
    }
    h.finish();
}
