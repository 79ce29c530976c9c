//! C17: literals of the JSON input denote the right field elements, or are rejected.
use ark_ff::PrimeField;
use co_circom_types::{parse_array, parse_boolean, parse_field};
use harness::fields::F97;
use harness::{H, R, caught, ensure_eq};
use num_bigint::{BigInt, BigUint, Sign};
use rand::Rng;
use serde_json::{Value, json};

/// the element a number denotes
fn of<F: PrimeField>(v: &BigInt) -> F {
    let p: BigUint = F::MODULUS.into();
    let p = BigInt::from(p);
    let r = ((v % &p) + &p) % &p;
    F::from_le_bytes_mod_order(&r.to_bytes_le().1)
}
fn lit<F: PrimeField>(s: &str, want: Option<&BigInt>) -> R {
    let got = caught(|| parse_field::<F>(&Value::String(s.into())))?;
    ensure_eq!(got.ok(), want.map(of::<F>), "the literal {s:?}");
    Ok(())
}
fn number(rng: &mut impl Rng, k: u32, p: &BigUint) -> BigUint {
    match k % 8 {
        0 => BigUint::from(rng.gen_range(0u8..12)),
        1 => p - 1u8,
        2 => p.clone(),
        3 => p + 1u8,
        4 => p * rng.gen_range(1u32..5) + rng.gen_range(0u32..3),
        5 => BigUint::from(rng.r#gen::<u128>()),
        6 => BigUint::from_bytes_le(&(0..rng.gen_range(1..80)).map(|_| rng.r#gen()).collect::<Vec<u8>>()),
        _ => BigUint::from(1u8) << rng.gen_range(0..700usize),
    }
}
/// a random literal with its value
fn good(rng: &mut impl Rng, k: u32, p: &BigUint) -> (String, BigInt) {
    let n = number(rng, k, p);
    let neg = rng.gen_bool(0.4);
    let mut d = match rng.gen_range(0..3) {
        0 => n.to_str_radix(10),
        1 => format!("0x{}{}", "0".repeat(rng.gen_range(0..3)), n.to_str_radix(16)),
        _ => format!("0x{}", n.to_str_radix(16).to_uppercase()),
    };
    if neg { d = format!("-{d}"); }
    (d, BigInt::from_biguint(if neg { Sign::Minus } else { Sign::Plus }, n))
}
const BAD: &[&str] = &["", "-", "0x", "-0x", "abc", "1.5", " 1", "1 ", "0xg1", "0X10", "1e3", "?", "0x-1", "ff", "1,0", "true", "0b1", "x10", "00x1", "1-", "- 1", "0x 1", "null"];
fn not_strings() -> Vec<Value> {
    vec![json!(null), json!(0), json!(1), json!(-1), json!(1.5), json!(u64::MAX), json!({}), json!({"a": "1"}), json!(true), json!(false), json!([]), json!(["1"])]
}
fn nested<F: PrimeField>(rng: &mut impl Rng, p: &BigUint, depth: u32, flat: &mut Vec<Option<F>>, bad: &mut Option<u32>) -> Value {
    let mut v = vec![];
    for _ in 0..rng.gen_range(0..5) {
        if let Some(0) = bad {
            *bad = None;
            v.push(match rng.gen_range(0..3) {
                0 => json!(BAD[rng.gen_range(0..11)]),
                1 => json!(rng.gen_range(0..9)),
                _ => json!(null),
            });
            flat.push(None);
            continue;
        }
        if let Some(b) = bad { *b -= 1; }
        match rng.gen_range(0..8) {
            0 | 1 if depth > 0 => v.push(nested(rng, p, depth - 1, flat, bad)),
            2 => { let b: bool = rng.r#gen(); flat.push(Some(F::from(b as u64))); v.push(json!(b)); }
            3 => { flat.push(None); v.push(json!("?")); }
            _ => { let k = rng.r#gen(); let (s, n) = good(rng, k, p); flat.push(Some(of::<F>(&n))); v.push(json!(s)); }
        }
    }
    Value::Array(v)
}
fn field<F: PrimeField>(h: &mut H, name: &str) {
    let p: BigUint = F::MODULUS.into();
    for (i, s) in BAD.iter().enumerate() {
        h.case(name, &format!("malformed {i}"), move |_| lit::<F>(s, None));
    }
    for i in 0..h.by(40, 600) {
        let p = p.clone();
        h.case(name, &format!("literal {i}"), move |rng| {
            for k in 0..25 {
                let (s, n) = good(rng, k, &p);
                lit::<F>(&s, Some(&n))?;
            }
            Ok(())
        });
    }
    h.case(name, "no strings", |_| {
        for v in not_strings() {
            if caught(|| parse_field::<F>(&v))?.is_ok() { return Err(format!("{v} is accepted as a field element")); }
            let want = v.as_bool().map(|b| F::from(b as u64));
            ensure_eq!(caught(|| parse_boolean::<F>(&v))?.ok(), want, "the boolean {v}");
        }
        for s in ["true", "false", "0", "1"] {
            if caught(|| parse_boolean::<F>(&json!(s)))?.is_ok() { return Err(format!("the string {s:?} is accepted as a boolean")); }
        }
        Ok(())
    });
    for i in 0..h.by(60, 800) {
        let p = p.clone();
        h.case(name, &format!("array {i}"), move |rng| {
            let mut flat = vec![];
            let bad0 = if i % 4 == 3 { Some(rng.gen_range(0..4)) } else { None };
            let mut bad = bad0;
            let v = nested::<F>(rng, &p, 1 + i % 4, &mut flat, &mut bad);
            let got = caught(|| parse_array::<F>(&v))?;
            let want = if bad0.is_some() && bad.is_none() { None } else { Some(flat) };
            ensure_eq!(got.ok(), want, "the array {v}");
            Ok(())
        });
    }
    h.case(name, "fixed arrays", |_| {
        let f = |x: i64| Some(if x < 0 { -F::from((-x) as u64) } else { F::from(x as u64) });
        for (v, w) in [
            (json!([]), vec![]),
            (json!([[], []]), vec![]),
            (json!([["1", "2"], ["3"], "4", [["5"], []], true]), vec![f(1), f(2), f(3), f(4), f(5), f(1)]),
            (json!(["?", ["?", "-1"], false]), vec![None, None, f(-1), f(0)]),
        ] {
            ensure_eq!(caught(|| parse_array::<F>(&v))?.ok(), Some(w), "the array {v}");
        }
        let mut v = json!(["7", "8"]);
        for _ in 0..60 { v = json!([v, "9"]); }
        let mut w = vec![f(7), f(8)];
        w.extend(vec![f(9); 60]);
        ensure_eq!(caught(|| parse_array::<F>(&v))?.ok(), Some(w), "a deeply nested array");
        Ok(())
    });
}
fn main() {
    let mut h = H::new("C17");
    field::<ark_bn254::Fr>(&mut h, "bn254");
    field::<ark_bls12_381::Fr>(&mut h, "bls12-381");
    field::<F97>(&mut h, "F97");
    h.finish()
}
