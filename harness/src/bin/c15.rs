//! C15: traffic statistics count exactly the bytes sent and received.
use harness::{H, R, ensure, ensure_eq};
use mpc_net::bytes::Bytes;
use mpc_net::local::LocalNetwork;
use mpc_net::{ConnectionStats, Network};
use rand::{Rng, RngCore};
use std::collections::BTreeMap;
use std::time::Duration;

type Count = BTreeMap<usize, (usize, usize)>;

fn check(what: &str, s: &ConnectionStats, want: &Count, n: usize) -> R {
    let got: Vec<_> = s.iter().collect();
    let exp: Vec<_> = want.iter().map(|(a, b)| (*a, *b)).collect();
    ensure_eq!(got, exp, "{what}: statistics (peer, (sent, received))");
    for p in 0..n + 2 {
        ensure_eq!(s.get(p), want.get(&p).copied(), "{what}: get({p})");
    }
    Ok(())
}
fn diff(a: &Count, b: &Count) -> Count {
    a.iter().map(|(p, (s, r))| (*p, (s - b.get(p).map_or(0, |x| x.0), r - b.get(p).map_or(0, |x| x.1)))).collect()
}

/// A random history of sends and receives (some of which must fail) on `n` parties, against a count kept here.
fn history(rng: &mut impl Rng, nets: &[Box<dyn Network>], steps: usize, fill: bool, max: usize, slow: bool) -> R {
    let n = nets.len();
    let mut want: Vec<Count> = (0..n).map(|i| (0..n).filter(|j| *j != i).map(|j| (j, (0, 0))).collect()).collect();
    let mut queue: BTreeMap<(usize, usize), std::collections::VecDeque<Vec<u8>>> = BTreeMap::new();
    let mut snaps: Vec<Vec<(ConnectionStats, Count)>> = (0..n).map(|_| vec![]).collect();
    for k in 0..steps {
        let i = rng.gen_range(0..n);
        let j = rng.gen_range(0..n + 1);
        let q = queue.entry((i, j)).or_default();
        match rng.gen_range(0..if fill { 3 } else { 8 }) {
            0..=3 => {
                let len = match rng.gen_range(0..8) { 0 => 0, 1 => 1, 2 => max, 3 => max + 1, _ => rng.gen_range(0..200usize.min(max)) };
                let mut d = vec![0; len];
                rng.fill_bytes(&mut d);
                if !fill && q.len() >= 20 { continue; }
                if let Ok(()) = nets[i].send(j, Bytes::from(d.clone())) {
                    ensure!(j != i && j < n, "step {k}: party {i} could send to {j}");
                    q.push_back(d);
                    want[i].get_mut(&j).unwrap().0 += len;
                }
            }
            4..=6 => {
                // receive on j what i sent
                if j >= n { ensure!(nets[i].recv(j).is_err(), "step {k}: received from party {j} of {n}"); continue; }
                if i == j { ensure!(nets[i].recv(i).is_err(), "step {k}: received from oneself"); continue; }
                if slow && q.is_empty() { continue; }
                match (nets[j].recv(i), q.pop_front()) {
                    (Ok(g), Some(d)) => {
                        ensure!(g[..] == d[..], "step {k}: a message of {} bytes instead of {}", g.len(), d.len());
                        want[j].get_mut(&i).unwrap().1 += d.len();
                    }
                    (Err(_), None) => {}
                    (Ok(g), None) => return Err(format!("step {k}: {} bytes nobody sent", g.len())),
                    (Err(e), Some(_)) => return Err(format!("step {k}: {e}")),
                }
            }
            _ => snaps[i].push((nets[i].get_connection_stats(), want[i].clone())),
        }
        check(&format!("after step {k}, party {i}"), &nets[i].get_connection_stats(), &want[i], n)?;
    }
    for i in 0..n {
        let last = nets[i].get_connection_stats();
        check(&format!("at the end, party {i}"), &last, &want[i], n)?;
        snaps[i].push((last, want[i].clone()));
        for a in 0..snaps[i].len() {
            for b in 0..=a {
                let d: Count = snaps[i][a].0.get_diff_to(&snaps[i][b].0).into_iter().collect();
                ensure_eq!(d, diff(&snaps[i][a].1, &snaps[i][b].1), "difference of snapshots {a} and {b} of party {i}");
            }
        }
    }
    Ok(())
}

#[cfg(feature = "internals")]
mod inner {
    use super::*;
    use mpc_net::blocking::BlockingChannels;
    use std::os::unix::net::UnixStream;
    pub struct Ch(pub usize, pub BlockingChannels);
    impl Network for Ch {
        fn id(&self) -> usize { self.0 }
        fn send(&self, to: usize, d: Bytes) -> eyre::Result<()> { self.1.send(to, d) }
        fn recv(&self, from: usize) -> eyre::Result<Bytes> { self.1.recv(from) }
        fn flush(&self) -> eyre::Result<()> { self.1.flush() }
        fn get_connection_stats(&self) -> ConnectionStats { self.1.stats(self.0) }
    }
    pub fn nets(n: usize, max: usize) -> Vec<Box<dyn Network>> {
        let t = Some(Duration::from_secs(8));
        let mut c: Vec<BlockingChannels> = (0..n).map(|_| BlockingChannels::new(t, None, max)).collect();
        for i in 0..n {
            for j in i + 1..n {
                let (a, b) = UnixStream::pair().unwrap();
                c[i].add_peer(j, a.try_clone().unwrap(), a);
                c[j].add_peer(i, b.try_clone().unwrap(), b);
            }
        }
        c.into_iter().enumerate().map(|(i, c)| Box::new(Ch(i, c)) as Box<dyn Network>).collect()
    }
    /// A stream that refuses to be written to: the writer ends, and later sends fail.
    struct Broken;
    impl std::io::Write for Broken {
        fn write(&mut self, _: &[u8]) -> std::io::Result<usize> { Err(std::io::Error::other("broken")) }
        fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
    }
    struct Silent;
    impl std::io::Read for Silent {
        fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> { Ok(0) }
    }
    pub fn broken(sizes: &[usize]) -> R {
        let mut c = BlockingChannels::new(None, None, 1000);
        c.add_peer(1, Broken, Silent);
        c.add_peer(4, std::io::sink(), Silent);
        let mut want: Count = [(1, (0, 0)), (4, (0, 0))].into();
        for (k, s) in sizes.iter().enumerate() {
            for p in [1, 4] {
                if c.send(p, Bytes::from(vec![7; *s])).is_ok() { want.get_mut(&p).unwrap().0 += s; }
                check(&format!("after send {k} to peer {p}"), &c.stats(0), &want, 6)?;
            }
            std::thread::sleep(Duration::from_millis(20));
        }
        for k in 0.. {
            if c.send(1, Bytes::from_static(b"")).is_err() { break; }
            ensure!(k < 100, "the broken peer still accepts data");
            std::thread::sleep(Duration::from_millis(50));
        }
        ensure!(c.recv(1).is_err(), "received from a closed stream");
        check("at the end", &c.stats(0), &want, 6)
    }
}

fn boxed(v: Vec<LocalNetwork>) -> Vec<Box<dyn Network>> { v.into_iter().map(|n| Box::new(n) as Box<dyn Network>).collect() }

fn main() {
    let mut h = H::new("C15");
    let t = Some(Duration::from_millis(30));
    for n in 1..=h.by(5, 8) {
        for k in 0..h.by(3, 12) {
            h.case("local history", &format!("n={n} #{k}"), move |rng| history(rng, &boxed(LocalNetwork::new_with_timeout(n, t)), 120, false, 100_000, false));
        }
        // queues run full and the sends time out
        h.case("local full queues", &format!("n={n}"), move |rng| history(rng, &boxed(LocalNetwork::new_with_timeout(n, Some(Duration::from_millis(1)))), 80 * n * n, true, 300, false));
    }
    // a peer that is gone
    for (timeout, d) in [(None, 3), (t, 3), (None, 0)] {
        h.case("local closed peer", &format!("timeout={} dropped after {d} messages", timeout.is_some()), move |_| {
            let mut nets = LocalNetwork::new_with_timeout(3, timeout);
            let gone = nets.pop().unwrap();
            let mut want: Count = [(1, (0, 0)), (2, (0, 0))].into();
            for k in 0..d {
                nets[0].send(2, Bytes::from(vec![1; 10 + k])).map_err(|e| e.to_string())?;
                want.get_mut(&2).unwrap().0 += 10 + k;
            }
            drop(gone);
            for k in 0..3 {
                ensure!(nets[0].send(2, Bytes::from(vec![1; 1000 + k])).is_err(), "send to a closed peer succeeded");
                ensure!(nets[0].recv(2).is_err(), "receive from a closed peer succeeded");
                check("after failed operations", &nets[0].get_connection_stats(), &want, 3)?;
            }
            Ok(())
        });
    }
    #[cfg(feature = "internals")]
    {
        for n in 2..=h.by(4, 6) {
            for k in 0..h.by(2, 6) {
                h.case("blocking history", &format!("n={n} #{k}"), move |rng| history(rng, &inner::nets(n, if k % 2 == 0 { 300 } else { 70_000 }), 60, false, if k % 2 == 0 { 300 } else { 70_000 }, true));
            }
        }
        h.case("blocking broken peer", "sizes 1..", |_| inner::broken(&[1, 2, 50, 1000, 1001, 0, 3]));
        h.case("blocking broken peer", "empty first", |_| inner::broken(&[0, 0, 7]));
    }
    // snapshots with different sets of peers, large counts
    h.case("difference", "peers only in one snapshot", |_| {
        let m = |v: &[(usize, (usize, usize))]| v.iter().copied().collect::<Count>();
        let big = usize::MAX;
        let a = m(&[(0, (5, 7)), (2, (big, 9)), (9, (3, 3)), (11, (4, 0))]);
        let b = m(&[(0, (2, 7)), (2, (big - 1, 0)), (11, (0, 0))]);
        let d: Count = ConnectionStats::new(1, a.clone()).get_diff_to(&ConnectionStats::new(1, b.clone())).into_iter().collect();
        ensure_eq!(d, m(&[(0, (3, 0)), (2, (1, 9)), (9, (3, 3)), (11, (4, 0))]), "difference");
        check("snapshot", &ConnectionStats::new(1, a.clone()), &a, 12)
    });
    for k in 0..h.by(20, 200) {
        h.case("difference", &format!("random #{k}"), move |rng| {
            let mut a = Count::new();
            let mut b = Count::new();
            for _ in 0..rng.gen_range(0..6) {
                let p = rng.gen_range(0..8);
                let (x, y) = (rng.gen_range(0..1usize << 40), rng.gen_range(0..1usize << 40));
                b.insert(p, (x, y));
            }
            for (p, (x, y)) in &b { a.insert(*p, (x + rng.gen_range(0..3) * 17, y + rng.gen_range(0..1usize << 33))); }
            a.insert(rng.gen_range(8..10), (3, 4));
            let d: Count = ConnectionStats::new(0, a.clone()).get_diff_to(&ConnectionStats::new(0, b.clone())).into_iter().collect();
            ensure_eq!(d, diff(&a, &b), "difference of {a:?} and {b:?}");
            check("snapshot", &ConnectionStats::new(0, a.clone()), &a, 12)
        });
    }
    // the plain network has no peers
    h.case("plain network", "()", |_| check("()", &().get_connection_stats(), &Count::new(), 3));
    h.finish()
}
