//! Bounded replay harness: runs the real code on named cases and compares with an independent reference.
//! Every case has an id that determines it completely (all randomness comes from the id), so that
//! `BIN --only ID` runs exactly that case again.
use rand_chacha::{ChaCha12Rng, rand_core::SeedableRng};
use std::collections::BTreeMap;
use std::hash::{DefaultHasher, Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::mpsc::{RecvTimeoutError, channel};
use std::time::{Duration, Instant};

pub type R = Result<(), String>;

pub struct H {
    pub prop: String,
    pub level: u32, // 0 quick, 1 thorough, 2 hunting for a failing input after a failed proof
    only: Option<String>,
    out: Option<String>,
    pub counts: BTreeMap<String, u64>,
    pub failures: Vec<(String, String)>,
    start: Instant,
    budget: Duration,
    pub case_timeout: Duration,
    skipped: u64,
}

pub fn rng_of(id: &str) -> ChaCha12Rng {
    let mut h = DefaultHasher::new();
    id.hash(&mut h);
    std::env::var("VERIF_SEED").unwrap_or("1".into()).hash(&mut h);
    ChaCha12Rng::seed_from_u64(h.finish())
}

fn msg(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

/// Runs `f`, turning a panic into an error text.
pub fn caught<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| format!("panicked: {}", msg(p)))
}

impl H {
    pub fn new(prop: &str) -> Self {
        let a: Vec<String> = std::env::args().collect();
        let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned());
        let level = get("--level").and_then(|x| x.parse().ok()).unwrap_or(0);
        let budget = get("--budget").and_then(|x| x.parse().ok()).unwrap_or([90, 400, 300][level.min(2) as usize]);
        std::panic::set_hook(Box::new(|_| {}));
        H {
            prop: prop.into(),
            level,
            only: get("--only"),
            out: get("--out"),
            counts: BTreeMap::new(),
            failures: vec![],
            start: Instant::now(),
            budget: Duration::from_secs(budget),
            case_timeout: Duration::from_secs(60),
            skipped: 0,
        }
    }
    /// Quick/thorough/hunt value.
    pub fn by<T: Copy>(&self, q: T, t: T) -> T {
        if self.level == 0 { q } else { t }
    }
    pub fn wants(&self, id: &str) -> bool {
        self.only.as_deref().is_none_or(|o| o == id)
    }
    /// One case. `group` names what is exercised, `id` says with which input.
    pub fn case(&mut self, group: &str, id: &str, f: impl FnOnce(&mut ChaCha12Rng) -> R + Send + 'static) {
        let id = format!("{group} {id}");
        if !self.wants(&id) {
            return;
        }
        if self.start.elapsed() > self.budget || self.failures.len() >= 40 {
            self.skipped += 1;
            return;
        }
        *self.counts.entry(group.to_string()).or_default() += 1;
        let mut rng = rng_of(&id);
        let (tx, rx) = channel();
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                let r = caught(|| f(&mut rng)).and_then(|x| x);
                let _ = tx.send(r);
            })
            .unwrap();
        match rx.recv_timeout(self.case_timeout) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => self.failures.push((id, e)),
            Err(RecvTimeoutError::Timeout) => self.failures.push((id, format!("did not finish within {} s", self.case_timeout.as_secs()))),
            Err(_) => self.failures.push((id, "the case's thread died".into())),
        }
    }
    pub fn finish(self) -> ! {
        let j = serde_json::json!({
            "property": self.prop, "level": self.level, "internals": cfg!(feature = "internals"),
            "cases": self.counts.values().sum::<u64>(), "groups": self.counts, "skipped_for_time": self.skipped,
            "failures": self.failures.iter().map(|(a, b)| serde_json::json!({"case": a, "what": b.chars().take(2000).collect::<String>()})).collect::<Vec<_>>(),
            "seconds": self.start.elapsed().as_secs_f64(),
        });
        let s = serde_json::to_string_pretty(&j).unwrap();
        match &self.out {
            Some(p) => std::fs::write(p, s).unwrap(),
            None => println!("{s}"),
        }
        use std::io::Write;
        let _ = std::io::stdout().flush();
        // threads of timed-out cases may still hang
        std::process::exit(if self.failures.is_empty() { 0 } else { 1 })
    }
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($t)*), a, b)); }
    }};
}
#[macro_export]
macro_rules! ensure {
    ($a:expr, $($t:tt)*) => { if !$a { return Err(format!($($t)*)); } };
}

#[cfg(feature = "circom")]
pub mod snark;
#[cfg(feature = "circom")]
pub mod plonk;

pub mod fields {
    use ark_ff::{Fp64, MontBackend, MontConfig};
    macro_rules! small {
        ($c:ident, $n:ident, $m:literal, $g:literal) => {
            #[derive(MontConfig)]
            #[modulus = $m]
            #[generator = $g]
            pub struct $c;
            pub type $n = Fp64<MontBackend<$c, 1>>;
        };
    }
    small!(C5, F5, "5", "2");
    small!(C7, F7, "7", "3");
    small!(C13, F13, "13", "2");
    small!(C17, F17, "17", "3");
    small!(C97, F97, "97", "5");
    small!(C12289, F12289, "12289", "11");
    pub use ark_bls12_381::Fr as Bls;
    pub use ark_bn254::Fr as Bn;

    /// Field values that tend to expose slips, then random ones.
    pub fn value<F: ark_ff::PrimeField>(k: usize, rng: &mut impl rand::Rng) -> F {
        match k {
            0 => F::zero(),
            1 => F::one(),
            2 => -F::one(),
            3 => F::from(2u64),
            4 => F::from(u64::MAX),
            5 => F::from(F::MODULUS_MINUS_ONE_DIV_TWO),
            6 => F::from(F::MODULUS_MINUS_ONE_DIV_TWO) + F::one(),
            7 => -F::from(2u64),
            _ => F::rand(rng),
        }
    }
}

/// All parties of an MPC computation on threads over the in-memory network.
#[cfg(all(feature = "core", feature = "net"))]
pub mod mpc {
    use crate::caught;
    use ark_ff::PrimeField;
    use ark_ec::CurveGroup;
    use mpc_core::protocols::shamir::{ShamirPointShare, ShamirPreprocessing, ShamirPrimeFieldShare, ShamirState};
    use mpc_net::local::LocalNetwork;
    use std::time::Duration;

    /// Runs `f` for every party; an error or a panic of a party, or silence, is an error text.
    pub fn parties<T: Send>(n: usize, f: impl Fn(usize, &LocalNetwork) -> eyre::Result<T> + Sync) -> Vec<Result<T, String>> {
        let nets = LocalNetwork::new_with_timeout(n, Some(Duration::from_secs(8)));
        let f = &f;
        std::thread::scope(|s| {
            let h: Vec<_> = nets
                .into_iter()
                .enumerate()
                .map(|(i, net)| {
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(s, move || {
                            // the network outlives the call, so that a party that finishes early does not close its channels
                            let r = caught(|| f(i, &net)).and_then(|x| x.map_err(|e| format!("error: {e:#}")));
                            (r, net)
                        })
                        .unwrap()
                })
                .collect();
            let r: Vec<_> = h.into_iter().map(|h| h.join().unwrap()).collect();
            r.into_iter().map(|x| x.0).collect()
        })
    }
    pub fn all<T: Send>(n: usize, f: impl Fn(usize, &LocalNetwork) -> eyre::Result<T> + Sync) -> Result<Vec<T>, String> {
        parties(n, f).into_iter().enumerate().map(|(i, r)| r.map_err(|e| format!("party {i}: {e}"))).collect()
    }
    pub fn state<F: PrimeField>(n: usize, t: usize, amount: usize, net: &LocalNetwork) -> eyre::Result<ShamirState<F>> {
        Ok(ShamirPreprocessing::new(n, t, amount, net)?.into())
    }
    /// Value at zero of the polynomial of degree at most `d` through the shares at 1..=n; error if they are not on one.
    pub fn secret<F: PrimeField>(shares: &[F], d: usize) -> Result<F, String> {
        let at = |x: u64| -> F {
            (0..=d).map(|i| {
                let (mut num, mut den) = (F::one(), F::one());
                for j in (0..=d).filter(|j| *j != i) {
                    num *= F::from(x) - F::from(j as u64 + 1);
                    den *= F::from(i as u64 + 1) - F::from(j as u64 + 1);
                }
                shares[i] * num / den
            }).sum()
        };
        for i in d + 1..shares.len() {
            if at(i as u64 + 1) != shares[i] {
                return Err(format!("the shares are not on a polynomial of degree {d}: {shares:?}"));
            }
        }
        Ok(at(0))
    }
    pub fn secret_point<C: CurveGroup>(shares: &[C], d: usize) -> Result<C, String> {
        let at = |x: u64| -> C {
            (0..=d).map(|i| {
                let (mut num, mut den) = (C::ScalarField::from(1u64), C::ScalarField::from(1u64));
                for j in (0..=d).filter(|j| *j != i) {
                    num *= C::ScalarField::from(x) - C::ScalarField::from(j as u64 + 1);
                    den *= C::ScalarField::from(i as u64 + 1) - C::ScalarField::from(j as u64 + 1);
                }
                shares[i] * (num / den)
            }).sum()
        };
        for i in d + 1..shares.len() {
            if at(i as u64 + 1) != shares[i] {
                return Err(format!("the point shares are not on a polynomial of degree {d}"));
            }
        }
        Ok(at(0))
    }
    pub fn open<F: PrimeField>(s: &[ShamirPrimeFieldShare<F>], d: usize) -> Result<F, String> {
        secret(&ShamirPrimeFieldShare::convert_vec(s.to_vec()), d)
    }
    pub fn open_vec<F: PrimeField>(s: &[Vec<ShamirPrimeFieldShare<F>>], d: usize) -> Result<Vec<F>, String> {
        let len = s[0].len();
        if s.iter().any(|x| x.len() != len) {
            return Err("parties hold different numbers of shares".into());
        }
        (0..len).map(|i| open(&s.iter().map(|x| x[i]).collect::<Vec<_>>(), d)).collect()
    }
    pub fn open_point<C: CurveGroup>(s: &[ShamirPointShare<C>], d: usize) -> Result<C, String> {
        secret_point(&ShamirPointShare::convert_vec(s.to_vec()), d)
    }
}
