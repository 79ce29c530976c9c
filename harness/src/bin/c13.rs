//! C13: messages reach exactly the addressed party and session.
use harness::{H, R, ensure};
use mpc_net::Network;
use mpc_net::bytes::Bytes;
use mpc_net::config::{Address, NetworkConfigBuilder, NetworkParty};
use mpc_net::local::LocalNetwork;
use mpc_net::tcp::TcpNetwork;
use mpc_net::tcp_session_blocking as sess;
use rand::Rng;
use rand::seq::SliceRandom;
use std::net::{SocketAddr, TcpListener};
use std::time::Duration;

fn tag(sess: u128, from: usize, to: usize, k: usize) -> Bytes { Bytes::from(format!("session {sess} from {from} to {to} no {k}")) }
fn show(b: &[u8]) -> String { String::from_utf8_lossy(b).into_owned() }
fn ports(n: usize) -> Vec<SocketAddr> {
    // kept open together, so that they differ
    let l: Vec<_> = (0..n).map(|_| TcpListener::bind("127.0.0.1:0").unwrap()).collect();
    l.iter().map(|l| l.local_addr().unwrap()).collect()
}

/// Every party sends `m` messages to every other, in a random order, then receives in a random order.
fn traffic<N: Network + ?Sized>(net: &N, n: usize, s: u128, m: usize, seed: u64) -> R {
    use rand::SeedableRng;
    let mut rng = rand_chacha::ChaCha12Rng::seed_from_u64(seed);
    let i = net.id();
    let mut ops: Vec<usize> = (0..n).filter(|j| *j != i).flat_map(|j| vec![j; m]).collect();
    ops.shuffle(&mut rng);
    let mut k = vec![0; n];
    for j in &ops {
        net.send(*j, tag(s, i, *j, k[*j])).map_err(|e| format!("party {i} sends to {j}: {e:#}"))?;
        k[*j] += 1;
    }
    for j in [i, n, n + 7, usize::MAX] {
        ensure!(net.send(j, Bytes::from_static(b"stray")).is_err(), "party {i} of {n} could send to {j}");
        ensure!(net.recv(j).is_err(), "party {i} of {n} could receive from {j}");
    }
    ops.shuffle(&mut rng);
    let mut k = vec![0; n];
    for j in &ops {
        let g = net.recv(*j).map_err(|e| format!("party {i} receives message {} from {j}: {e:#}", k[*j]))?;
        ensure!(g == tag(s, *j, i, k[*j]), "party {i} receives from {j} '{}' instead of '{}'", show(&g), show(&tag(s, *j, i, k[*j])));
        k[*j] += 1;
    }
    Ok(())
}
fn joined(h: Vec<std::thread::JoinHandle<R>>) -> R {
    let mut r = Ok(());
    for h in h {
        let x = h.join().map_err(|_| "a party panicked".to_string()).and_then(|x| x);
        if r.is_ok() { r = x; }
    }
    r
}

fn local(n: usize, m: usize, seed: u64) -> R {
    let nets = LocalNetwork::new_with_timeout(n, Some(Duration::from_secs(10)));
    ensure!(nets.len() == n, "{} networks for {n} parties", nets.len());
    for (i, net) in nets.iter().enumerate() { ensure!(net.id() == i, "network {i} has id {}", net.id()); }
    let nets: std::sync::Arc<Vec<LocalNetwork>> = nets.into();
    joined((0..n).map(|i| { let nets = nets.clone(); std::thread::spawn(move || traffic(&nets[i], n, 0, m, seed + i as u64)) }).collect())
}

/// `N` parallel networks between `n` parties that start with the given delays (in ms); the config lists the parties in any order
fn tcp<const N: usize>(n: usize, delays: Vec<u64>, seed: u64) -> R {
    let a = ports(n);
    joined((0..n).map(|i| {
        let a = a.clone();
        let d = delays[i % delays.len()];
        std::thread::spawn(move || {
            std::thread::sleep(Duration::from_millis(d));
            let mut parties: Vec<NetworkParty> = (0..n).map(|j| NetworkParty::new(j, Address::new("127.0.0.1".into(), a[j].port()))).collect();
            let len = parties.len();
            parties.rotate_left((i + seed as usize) % len);
            let mut b = NetworkConfigBuilder::new(i, a[i], parties);
            b = b.timeout(Duration::from_secs(10)).connect_timeout(Duration::from_secs(10));
            let nets = TcpNetwork::networks::<N>(b.build()).map_err(|e| format!("party {i}: {e:#}"))?;
            for (k, net) in nets.iter().enumerate() { ensure!(net.id() == i, "network {k} of party {i} has id {}", net.id()); }
            // the networks are used in a different order by every party, all of them before the first is received from
            std::thread::scope(|s| {
                let h: Vec<_> = nets.iter().enumerate().map(|(k, net)| s.spawn(move || traffic(net, n, k as u128, 4, seed + (i * 10 + k) as u64))).collect();
                h.into_iter().try_for_each(|h| h.join().map_err(|_| "panic".to_string())?)
            })?;
            // stay until the peers have everything
            std::thread::sleep(Duration::from_millis(100));
            Ok(())
        })
    }).collect())
}

/// Sessions on shared listeners; every party opens them in its own order.
fn sessions(n: usize, ids: Vec<u128>, orders: Vec<Vec<usize>>, at_once: bool, seed: u64) -> R {
    let a = ports(n);
    let mk = |i: usize| sess::TcpNetworkHandler::new(sess::NetworkConfig {
        party_id: i, bind_addr: a[i], node_addrs: a.iter().map(|x| x.to_string()).collect(),
        init_session_timeout: Some(Duration::from_secs(10)), timeout: Some(Duration::from_secs(10)), flush_timeout: None,
        time_to_idle: Duration::from_secs(60), max_frame_length: 1 << 20,
    }).map_err(|e| format!("party {i}: {e:#}"));
    let hs: Vec<_> = (0..n).map(mk).collect::<Result<_, _>>()?;
    joined(hs.into_iter().enumerate().map(|(i, h)| {
        let (ids, ord) = (ids.clone(), orders[i % orders.len()].clone());
        std::thread::spawn(move || {
            if at_once {
                return joined(ord.iter().map(|k| {
                    let (h, id) = (h.clone(), ids[*k]);
                    let k = *k;
                    std::thread::spawn(move || {
                        std::thread::sleep(Duration::from_millis(((i * 7 + k * 13) % 5) as u64 * 10));
                        let net = h.init_session(id).map_err(|e| format!("party {i}, session {id}: {e:#}"))?;
                        ensure!(net.id() == i, "party {i} has id {}", net.id());
                        traffic(&net, n, id, 3, seed + (i * 100 + k) as u64)?;
                        std::thread::sleep(Duration::from_millis(100));
                        Ok(())
                    })
                }).collect());
            }
            // one after the other; all stay open
            let mut nets = vec![];
            for k in &ord { nets.push((ids[*k], h.init_session(ids[*k]).map_err(|e| format!("party {i}, session {}: {e:#}", ids[*k]))?)); }
            for (id, net) in &nets { traffic(net, n, *id, 3, seed + *id as u64 % 1000 + i as u64)?; }
            std::thread::sleep(Duration::from_millis(100));
            Ok(())
        })
    }).collect())
}

#[cfg(feature = "internals")]
mod inner {
    use super::*;
    use std::io::{Read, Write};
    use std::net::TcpStream;
    use std::sync::mpsc::channel;
    use mpc_net::tcp_session_blocking::TcpStreams;

    fn pair(head: (u128, u64), body: &str) -> (TcpStream, TcpStream) {
        let l = TcpListener::bind("127.0.0.1:0").unwrap();
        let mut c = TcpStream::connect(l.local_addr().unwrap()).unwrap();
        let s = l.accept().unwrap().0;
        c.write_all(&head.0.to_be_bytes()).unwrap();
        c.write_all(&head.1.to_be_bytes()).unwrap();
        c.write_all(body.as_bytes()).unwrap();
        (c, s)
    }
    fn body(mut s: TcpStream) -> String {
        let mut b = vec![0; 60];
        s.set_read_timeout(Some(Duration::from_millis(200))).unwrap();
        let mut n = 0;
        while let Ok(k) = s.read(&mut b[n..]) { if k == 0 { break; } n += k; }
        show(&b[..n])
    }
    /// The hand-over of accepted connections: a random order of arrivals and waits on a few keys.
    pub fn handover(keys: &[(u128, u64)], rng: &mut impl Rng) -> R {
        let st = TcpStreams::new(None, Some(Duration::from_secs(5)));
        let mut events: Vec<(usize, bool)> = (0..keys.len()).flat_map(|k| [(k, true), (k, false)]).collect();
        events.shuffle(rng);
        let (tx, rx) = channel();
        let mut keep = vec![];
        for (k, arrival) in events {
            let key = keys[k];
            if arrival {
                let (c, s) = pair(key, &format!("stream {k}"));
                keep.push(c);
                st.insert(s).map_err(|e| format!("insert {key:?}: {e:#}"))?;
            } else {
                let (st, tx) = (st.clone(), tx.clone());
                std::thread::spawn(move || { let r = st.get(key.0, key.1 as usize, Some(Duration::from_secs(3))); let _ = tx.send((k, r)); });
            }
            std::thread::sleep(Duration::from_millis(15));
        }
        for _ in keys {
            let (k, r) = rx.recv_timeout(Duration::from_secs(8)).map_err(|e| e.to_string())?;
            let s = r.map_err(|e| format!("waiting for {:?}: {e:#}", keys[k]))?;
            let b = body(s);
            ensure!(b == format!("stream {k}"), "the connection of {:?} was expected, got '{b}'", keys[k]);
        }
        Ok(())
    }
    /// A wait for a key nobody connects with ends with an error, whatever else arrives.
    pub fn nobody(want: (u128, u64), there: &[(u128, u64)], first: bool) -> R {
        let st = TcpStreams::new(None, Some(Duration::from_secs(5)));
        let go = |st: TcpStreams| std::thread::spawn(move || st.get(want.0, want.1 as usize, Some(Duration::from_millis(400))));
        let mut keep = vec![];
        let w = if first { let w = go(st.clone()); std::thread::sleep(Duration::from_millis(50)); Some(w) } else { None };
        for (k, t) in there.iter().enumerate() {
            let (c, s) = pair(*t, &format!("stream {k}"));
            keep.push(c);
            st.insert(s).map_err(|e| e.to_string())?;
        }
        let w = w.unwrap_or_else(|| go(st.clone()));
        if let Ok(s) = w.join().map_err(|_| "panic")? { return Err(format!("a wait for {want:?} got '{}' of {there:?}", body(s))); }
        // the others are still there
        for (k, t) in there.iter().enumerate() {
            let s = st.get(t.0, t.1 as usize, Some(Duration::from_millis(400))).map_err(|e| format!("{t:?} is gone: {e:#}"))?;
            let b = body(s);
            ensure!(b == format!("stream {k}"), "the connection of {t:?} was expected, got '{b}'");
        }
        Ok(())
    }
    /// A header that does not arrive completely is an error and leaves nothing behind.
    pub fn cut(len: usize) -> R {
        let st = TcpStreams::new(None, Some(Duration::from_millis(200)));
        let l = TcpListener::bind("127.0.0.1:0").unwrap();
        let mut c = TcpStream::connect(l.local_addr().unwrap()).unwrap();
        let s = l.accept().unwrap().0;
        let mut h = vec![0u8; 24];
        (h[15], h[23]) = (9, 1);
        c.write_all(&h[..len]).unwrap();
        drop(c);
        let r = st.insert(s);
        ensure!(r.is_err() == (len < 24), "a header of {len} bytes: {:?}", r.map_err(|e| e.to_string()));
        ensure!(st.get(9, 1, Some(Duration::from_millis(50))).is_err() == (len < 24), "a header of {len} bytes: connection");
        Ok(())
    }
}

fn main() {
    let mut h = H::new("C13");
    for n in 0..=h.by(8, 16) {
        for k in 0..h.by(2, 6) {
            h.case("local", &format!("n={n} #{k}"), move |rng| { let s = rng.r#gen::<u32>() as u64; local(n, 1 + 3 * k, s) });
        }
    }
    for n in [2, 3, 5] {
        h.case("local closed peer", &format!("n={n}"), move |_| {
            let mut nets = LocalNetwork::new_with_timeout(n, Some(Duration::from_millis(200)));
            nets[n - 1].send(0, tag(0, n - 1, 0, 0)).map_err(|e| e.to_string())?;
            drop(nets.pop());
            ensure!(nets[0].send(n - 1, tag(0, 0, n - 1, 0)).is_err(), "send to a closed peer");
            let g = nets[0].recv(n - 1).map_err(|e| format!("the message sent before closing: {e}"))?;
            ensure!(g == tag(0, n - 1, 0, 0), "got {}", show(&g));
            ensure!(nets[0].recv(n - 1).is_err(), "receive from a closed peer");
            for j in 1..n - 1 { ensure!(nets[j].recv(0).is_err(), "party {j} got what was meant for party {}", n - 1); }
            Ok(())
        });
    }
    let delays: Vec<Vec<u64>> = vec![vec![0], vec![0, 60, 120], vec![120, 60, 0], vec![60, 0, 120]];
    for (k, d) in delays.iter().enumerate() {
        let d = d.clone();
        let (a, b, c) = (d.clone(), d.clone(), d);
        h.case("tcp", &format!("3 parties, 1 network, delays #{k}"), move |_| tcp::<1>(3, a, k as u64));
        h.case("tcp", &format!("3 parties, 3 networks, delays #{k}"), move |_| tcp::<3>(3, b, k as u64));
        if k < h.by(2, 4) { h.case("tcp", &format!("4 parties, 2 networks, delays #{k}"), move |_| tcp::<2>(4, c, k as u64)); }
    }
    h.case("tcp", "2 parties, 8 networks", |_| tcp::<8>(2, vec![0, 30], 5));
    let ids: Vec<u128> = vec![0, 1, 1 << 63, 1 << 64, (1 << 64) + 1, 1 << 127, u128::MAX];
    let all: Vec<usize> = (0..ids.len()).collect();
    let rev: Vec<usize> = all.iter().rev().copied().collect();
    for n in 2..=h.by(4, 6) {
        let (i, a) = (ids.clone(), all.clone());
        h.case("sessions", &format!("n={n} one after the other"), move |_| sessions(n, i, vec![a], false, 1));
        let (i, a, r) = (ids.clone(), all.clone(), rev.clone());
        h.case("sessions", &format!("n={n} at once, different orders"), move |_| sessions(n, i, vec![a, r], true, 2));
    }
    // parties open the sessions in different orders, but no one waits for a session its peer never gets to
    let i = ids.clone();
    h.case("sessions", "n=2 opened in opposite orders", move |_| sessions(2, i, vec![rev, all], true, 3));
    h.case("sessions", "n=3 an id used again", |_| {
        for k in 0..3 { sessions(3, vec![42], vec![vec![0]], false, k)?; }
        Ok(())
    });
    #[cfg(feature = "internals")]
    {
        let keys: Vec<(u128, u64)> = vec![(7, 0), (7, 1), (7, 2), (8, 1), (1 << 64, 1), ((1 << 64) + 7, 1), (1, 7), (0, 1)];
        for k in 0..h.by(6, 30) {
            let keys = keys.clone();
            h.case("hand-over", &format!("#{k}"), move |rng| inner::handover(&keys, rng));
        }
        for (w, t) in [((7, 1), vec![(7, 2), (8, 1), (1, 7)]), ((7, 1), vec![((1 << 64) + 7, 1), (7 << 64, 1)]), ((0, 0), vec![(0, 1), (1, 0)]), ((7, 3), vec![(7, (1 << 32) + 3), (7, 3 << 32)])] {
            for f in [false, true] {
                let t = t.clone();
                h.case("hand-over", &format!("nobody for {w:?}, waiting first {f}"), move |_| inner::nobody(w, &t, f));
            }
        }
        for len in [0, 1, 15, 16, 17, 23, 24] { h.case("hand-over", &format!("header of {len} bytes"), move |_| inner::cut(len)); }
    }
    h.finish()
}
