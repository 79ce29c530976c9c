//! C14: addresses and network configurations keep what they are given.
use harness::{H, R, caught, ensure, ensure_eq};
use mpc_net::config::{Address, NetworkConfig, NetworkConfigFile, NetworkParty, TlsConfig};
use rand::Rng;
use std::str::FromStr;
use std::time::Duration;

/// host:port with exactly one colon and a decimal port below 65536 (an optional `+` as in `u16::from_str`)
fn oracle(s: &str) -> Option<(String, u16)> {
    let b: Vec<char> = s.chars().collect();
    if b.iter().filter(|c| **c == ':').count() != 1 { return None; }
    let k = b.iter().position(|c| *c == ':').unwrap();
    let host: String = b[..k].iter().collect();
    let mut p = &b[k + 1..];
    if p.first() == Some(&'+') { p = &p[1..]; }
    if p.is_empty() { return None; }
    let mut v = 0u64;
    for c in p {
        if !c.is_ascii_digit() { return None; }
        v = (10 * v + (*c as u64 - 48)).min(1 << 20);
    }
    (v < 65536).then(|| (host, v as u16))
}
fn one(s: &str) -> R {
    let got = caught(|| Address::from_str(s))?;
    match (oracle(s), got) {
        (None, Err(_)) => {}
        (None, Ok(a)) => return Err(format!("{s:?} is accepted as {a:?}")),
        (Some(w), Err(e)) => return Err(format!("{s:?} is rejected ({e}), {w:?} expected")),
        (Some((h, p)), Ok(a)) => {
            ensure_eq!((a.hostname.as_str(), a.port), (h.as_str(), p), "parsing {s:?}");
            ensure_eq!(a.to_string(), format!("{h}:{p}"), "printing the address of {s:?}");
            let b = Address::from_str(&a.to_string()).map_err(|e| format!("printed address of {s:?} does not parse: {e}"))?;
            ensure!(b == a, "printing and parsing {s:?} gives {b:?}");
            let j = serde_json::to_string(&a).map_err(|e| e.to_string())?;
            let c: Address = serde_json::from_str(&j).map_err(|e| format!("serialized address of {s:?} is rejected: {e}"))?;
            ensure!(c == a, "serializing and deserializing {s:?} gives {c:?}");
        }
    }
    let d = serde_json::from_str::<Address>(&serde_json::to_string(s).unwrap()).ok();
    ensure_eq!(d.map(|a| (a.hostname, a.port)), oracle(s), "deserializing {s:?}");
    Ok(())
}

struct Dir(std::path::PathBuf);
impl Drop for Dir {
    fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); }
}

fn config(n: usize, rng: &mut impl Rng, k: u64) -> R {
    let d = Dir(std::env::temp_dir().join(format!("c14-{}-{k}", std::process::id())));
    std::fs::create_dir_all(&d.0).map_err(|e| e.to_string())?;
    let blob = |rng: &mut dyn rand::RngCore, n: usize| -> Vec<u8> { let mut v = vec![0; n]; rng.fill_bytes(&mut v); v };
    let key = blob(rng, 40 + n);
    std::fs::write(d.0.join("key"), &key).unwrap();
    let certs: Vec<Vec<u8>> = (0..n).map(|i| blob(rng, 20 + i)).collect();
    let names: Vec<String> = (0..n).map(|i| format!("cert{}", (i * 7 + 3) % 101)).collect();
    for (c, f) in certs.iter().zip(&names) { std::fs::write(d.0.join(f), c).unwrap(); }
    let mut ids: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() { ids.swap(i, rng.gen_range(0..=i)); }
    let parties: Vec<(usize, String)> = ids.iter().map(|i| (*i, format!("host{i}.example:{}", rng.r#gen::<u16>()))).collect();
    let my_id = rng.gen_range(0..n);
    let dur = |rng: &mut dyn rand::RngCore| -> Option<u64> { let x = rng.next_u64() % 3; (x > 0).then(|| x * 1000 + rng.next_u64() % 1000) };
    let (t, c, f) = (dur(rng), dur(rng), dur(rng));
    let m: Option<usize> = rng.gen_bool(0.7).then(|| rng.gen_range(0..1 << 30));
    let tls = rng.gen_bool(0.8);
    let addr = format!("0.0.0.0:{}", rng.r#gen::<u16>());
    let mut j = serde_json::json!({
        "parties": parties.iter().map(|(i, a)| serde_json::json!({"id": i, "dns_name": a})).collect::<Vec<_>>(),
        "my_id": my_id, "bind_addr": addr,
    });
    let ms = |x: u64| format!("{x}ms");
    if let Some(x) = t { j["timeout"] = ms(x).into(); }
    if let Some(x) = c { j["connect_timeout"] = ms(x).into(); }
    if let Some(x) = f { j["flush_timeout"] = ms(x).into(); }
    if let Some(x) = m { j["max_frame_length"] = x.into(); }
    let p = |s: &str| d.0.join(s).to_string_lossy().to_string();
    if tls { j["tls"] = serde_json::json!({"key": p("key"), "certs": names.iter().map(|x| p(x)).collect::<Vec<_>>()}); }
    let file: NetworkConfigFile = serde_json::from_value(j).map_err(|e| format!("configuration is rejected: {e}"))?;
    let again: NetworkConfigFile = serde_json::from_value(serde_json::to_value(&file).unwrap()).map_err(|e| format!("serialized configuration is rejected: {e}"))?;
    ensure!(again == file, "serializing the configuration changes it: {file:?} {again:?}");
    let cfg = NetworkConfig::try_from(file).map_err(|e| format!("configuration is rejected: {e}"))?;
    let want: Vec<NetworkParty> = parties.iter().map(|(i, a)| NetworkParty::new(*i, a.parse().unwrap())).collect();
    let check = |cfg: &NetworkConfig, what: &str| -> R {
        ensure_eq!(cfg.parties, want, "{what}: parties");
        ensure_eq!(cfg.my_id, my_id, "{what}: own id");
        ensure_eq!(cfg.bind_addr.to_string(), addr, "{what}: bind address");
        ensure_eq!(cfg.timeout, t.map(Duration::from_millis), "{what}: timeout");
        ensure_eq!(cfg.connect_timeout, c.map(Duration::from_millis), "{what}: connect timeout");
        ensure_eq!(cfg.flush_timeout, f.map(Duration::from_millis), "{what}: flush timeout");
        ensure_eq!(cfg.max_frame_length, m, "{what}: maximal frame length");
        match &cfg.tls {
            None => ensure!(!tls, "{what}: TLS is lost"),
            Some(x) => {
                ensure!(tls, "{what}: TLS appears");
                ensure_eq!(x.key.secret_der(), &key[..], "{what}: key");
                ensure_eq!(x.certs.iter().map(|c| c.as_ref().to_vec()).collect::<Vec<_>>(), certs, "{what}: certificates");
            }
        }
        Ok(())
    };
    check(&cfg, "file")?;
    check(&cfg.clone(), "clone")?;
    let mut b = NetworkConfig::builder(my_id, addr.parse().unwrap(), want.clone());
    if let Some(x) = f { b = b.flush_timeout(Duration::from_millis(x)); }
    if let Some(x) = t { b = b.timeout(Duration::from_millis(x)); }
    if let Some(x) = c { b = b.connect_timeout(Duration::from_millis(x)); }
    if let Some(x) = m { b = b.max_frame_length(x); }
    if let Some(x) = &cfg.tls { b = b.tls_config(TlsConfig::new(x.key.clone_key(), x.certs.clone())); }
    check(&b.build(), "builder")?;
    // a missing file is an error
    if tls {
        let j = serde_json::json!({"parties": [], "my_id": 0, "bind_addr": addr, "tls": {"key": p("key"), "certs": [p(&names[0]), p("none")]}});
        let file: NetworkConfigFile = serde_json::from_value(j).map_err(|e| e.to_string())?;
        ensure!(matches!(caught(|| NetworkConfig::try_from(file).is_err()), Ok(true)), "a missing certificate is no error");
    }
    Ok(())
}

fn main() {
    let mut h = H::new("C14");
    for s in [
        "localhost:1", "localhost:0", "localhost:65535", "localhost:65536", "localhost:065535", "localhost:0000080", "a:+80", "a:-1", "a:+", "a:-0", "a:", ":80", ":", "", "a", "80", "a:b", "a:80:",
        ":a:80", "a::80", "a:80 ", " a:80", "a :80", "a: 80", "a:8 0", "a:8_0", "a:0x50", "a:80a", "a:99999999999999999999999999", "[::1]:80", "::1", "a.b.c:443", "127.0.0.1:10000", "hö-st:99", "a:٣", "a:８０", "a；80", "a:80\n",
        "a\n:80", "host name:7", "http://a:80", "a/b:80", "a:80/", "a,80", "a:1e3", "a:65535.0", "a:18446744073709551617", "a:4294967297", "A.B:00", "ⅷ:8", "a:²",
    ] {
        h.case("address", &format!("{s:?}"), move |_| one(s));
    }
    for p in 0..h.by(700, 65800) {
        let p = if h.level == 0 && p > 20 { p * 97 } else { p };
        h.case("port", &format!("{p}"), move |_| one(&format!("h:{p}")));
    }
    for k in 0..h.by(2000, 40000) {
        h.case("random", &format!("{k}"), move |rng| {
            let al: Vec<char> = "ab:0123456789+-. _é\u{0}::6553".chars().collect();
            let n = rng.gen_range(0..12);
            let s: String = (0..n).map(|_| al[rng.gen_range(0..al.len())]).collect();
            one(&s)
        });
    }
    for k in 0..h.by(60, 400) {
        let n = (k as usize) % 9 + 1;
        h.case("config", &format!("{k} parties={n}"), move |rng| config(n, rng, k as u64));
    }
    h.finish();
}
