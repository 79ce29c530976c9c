//! C27: look-up tables read and write exactly the addressed entry.
use ark_ec::CurveGroup;
use ark_ff::PrimeField;
use harness::{H, R, caught, ensure, ensure_eq, fields::*};
use mpc_core::lut::{LookupTableProvider, PlainCurveLookupTableProvider, PlainLookupTableProvider};
use mpc_net::local::LocalNetwork;
use rand::Rng;

/// indices: in range mostly, the edges, just past, and ones that only look small in their low limb
fn index<F: PrimeField>(len: usize, k: usize, rng: &mut impl Rng) -> (F, Option<usize>) {
    let two64 = F::from(u64::MAX) + F::one();
    let i = if len == 0 { 0 } else { rng.gen_range(0..len) };
    match k % 12 {
        0 if len > 0 => (F::from(0u64), Some(0)),
        1 if len > 0 => (F::from(len as u64 - 1), Some(len - 1)),
        2 => (F::from(len as u64), None),
        3 => (two64 + F::from(i as u64), None),
        4 => (two64 * two64 + F::from(i as u64), None),
        5 => (two64 * two64 * two64 + F::from(i as u64), None),
        6 => (-F::from(i as u64 + 1), None),
        7 => (F::from(u64::MAX), None),
        8 => (F::from(len as u64 + (1u64 << 32)), None),
        _ if len > 0 => (F::from(i as u64), Some(i)),
        _ => (F::from(0u64), None),
    }
}

fn history<F: PrimeField, T: Copy + Default + PartialEq + std::fmt::Debug + Send, P>(len: usize, ops: usize, big: bool, mk: impl Fn(u64) -> T, rng: &mut impl Rng) -> R
where
    P: LookupTableProvider<T, SecretShare = T, IndexSecretShare = F, LutType = Vec<T>, State = ()>,
{
    let net = LocalNetwork::new(1).remove(0);
    let mut p = P::default();
    let init: Vec<T> = (0..len).map(|i| mk(rng.r#gen::<u64>() ^ i as u64)).collect();
    let mut lut = if ops % 2 == 0 { p.init_private(init.clone()) } else { p.init_public(init.clone()) };
    let mut model = init;
    for o in 0..ops {
        let k = if big { rng.gen_range(0..12) } else { 9 };
        let (ix, at) = index::<F>(len, k, rng);
        if rng.gen_bool(0.5) {
            let r = caught(|| p.get_from_lut(ix, &lut, &net, &net, &mut (), &mut ()));
            match at {
                Some(i) => match r {
                    Ok(Ok(v)) => ensure_eq!(v, model[i], "op {o}: read {i} of {len}"),
                    e => return Err(format!("op {o}: read {i} of {len}: {e:?}")),
                },
                None => ensure!(!matches!(r, Ok(Ok(_))), "op {o}: reading index {ix} of a table of {len} gave {r:?}"),
            }
        } else {
            let v = mk(rng.r#gen());
            let r = caught(|| p.write_to_lut(ix, v, &mut lut, &net, &net, &mut (), &mut ()));
            match at {
                Some(i) => {
                    ensure!(matches!(r, Ok(Ok(()))), "op {o}: write {i} of {len}: {r:?}");
                    model[i] = v;
                }
                // a write outside is ignored or refused
                None => {}
            }
        }
        ensure_eq!(lut, model, "op {o}: table after the operation");
        ensure_eq!(P::get_lut_len(&lut), len, "length");
        ensure_eq!(P::get_public_lut(&lut).map_err(|e| e.to_string())?.clone(), model, "public view");
    }
    Ok(())
}

fn both<F: PrimeField>(h: &mut H, name: &str) {
    for len in [0usize, 1, 2, 3, 7, 16, 33, 256, 1025] {
        for big in [false, true] {
            if len == 0 && !big { continue; }
            for rep in 0..h.by(3, 30) {
                h.case("field", &format!("{name}/len={len}/big={big}/rep={rep}"), move |rng| {
                    history::<F, F, PlainLookupTableProvider<F>>(len, 40 + rep % 2, big, |x| F::from(x), rng)
                });
            }
        }
    }
}

fn main() {
    let mut h = H::new("C27");
    both::<Bn>(&mut h, "bn254");
    both::<Bls>(&mut h, "bls");
    for len in [0usize, 1, 2, 5, 17, 64] {
        for big in [false, true] {
            if len == 0 && !big { continue; }
            for rep in 0..h.by(3, 20) {
                h.case("point", &format!("len={len}/big={big}/rep={rep}"), move |rng| {
                    type C = ark_bn254::G1Projective;
                    let g = <C as ark_ec::PrimeGroup>::generator();
                    history::<Bn, C, PlainCurveLookupTableProvider<C>>(len, 24 + rep % 2, big, |x| g * Bn::from(x & 0xffff), rng)
                });
            }
        }
    }
    let _ = <ark_bn254::G1Projective as CurveGroup>::normalize_batch;
    h.finish();
}
