//! C12: a framed byte stream delivers exactly the messages sent, in order.
use harness::{H, R, ensure};
use mpc_net::Network;
use mpc_net::bytes::Bytes;
use mpc_net::config::{Address, NetworkConfigBuilder, NetworkParty};
use mpc_net::tcp::TcpNetwork;
use rand::{Rng, RngCore};
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::time::Duration;

fn payload(rng: &mut impl RngCore, n: usize) -> Vec<u8> {
    let mut v = vec![0; n];
    rng.fill_bytes(&mut v);
    v
}
fn wire(msgs: &[Vec<u8>]) -> Vec<u8> {
    let mut w = vec![];
    for m in msgs {
        w.extend((m.len() as u64).to_be_bytes());
        w.extend(m);
    }
    w
}
fn show(m: &[u8]) -> String { format!("{} bytes {:02x?}…", m.len(), &m[..m.len().min(8)]) }

#[cfg(feature = "internals")]
mod inner {
    use super::*;
    use mpc_net::blocking::{BlockingChannels, FrameReader, write_frame};
    use mpc_net::bytes::BytesMut;
    use std::io::{Error, ErrorKind, IoSlice};
    use std::sync::{Arc, Mutex};

    /// Accepts what its plan says: Some(n) = at most n bytes, None = interrupted; afterwards everything.
    #[derive(Clone, Default)]
    pub struct Sink { pub out: Arc<Mutex<Vec<u8>>>, pub plan: Vec<Option<usize>>, pub at: usize, pub first_only: bool }
    impl Sink {
        fn next(&mut self) -> Result<usize, Error> {
            self.at += 1;
            match self.plan.get(self.at - 1) {
                None => Ok(usize::MAX),
                Some(Some(n)) => Ok(*n),
                Some(None) => Err(Error::from(ErrorKind::Interrupted)),
            }
        }
    }
    impl Write for Sink {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            let n = self.next()?.min(b.len());
            self.out.lock().unwrap().extend(&b[..n]);
            Ok(n)
        }
        fn write_vectored(&mut self, bufs: &[IoSlice<'_>]) -> std::io::Result<usize> {
            let all: Vec<u8> = if self.first_only { bufs.iter().find(|b| !b.is_empty()).map(|b| b.to_vec()).unwrap_or_default() } else { bufs.iter().flat_map(|b| b.to_vec()).collect() };
            let n = self.next()?.min(all.len());
            self.out.lock().unwrap().extend(&all[..n]);
            Ok(n)
        }
        fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
    }
    /// Hands out `data` in the chunk sizes of the plan (0 = interrupted), then the rest at once, then end of file.
    pub struct Src { pub data: Vec<u8>, pub pos: usize, pub plan: Vec<usize>, pub at: usize, pub err: Option<ErrorKind>, pub taken: Arc<Mutex<usize>> }
    impl Read for Src {
        fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
            self.at += 1;
            let n = match self.plan.get(self.at - 1) {
                Some(0) => return Err(Error::from(ErrorKind::Interrupted)),
                Some(n) => *n,
                None => usize::MAX,
            };
            let n = n.min(b.len()).min(self.data.len() - self.pos);
            if n == 0 && let Some(e) = self.err { return Err(Error::from(e)); }
            b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
            self.pos += n;
            *self.taken.lock().unwrap() = self.pos;
            Ok(n)
        }
    }
    fn src(data: Vec<u8>, plan: Vec<usize>) -> Src { Src { data, pos: 0, plan, at: 0, err: None, taken: Default::default() } }

    pub fn write(msgs: &[Vec<u8>], plan: Vec<Option<usize>>, first_only: bool) -> R {
        let mut s = Sink { plan: plan.clone(), first_only, ..Default::default() };
        for (k, m) in msgs.iter().enumerate() {
            write_frame(&mut s, m).map_err(|e| format!("writing message {k} ({}) with plan {plan:?} failed: {e}", m.len()))?;
        }
        let got = s.out.lock().unwrap().clone();
        ensure!(got == wire(msgs), "plan {plan:?} (first slice only: {first_only}), messages {:?}: the wire carries {} bytes, expected {}; they first differ at {:?}", msgs.iter().map(|m| m.len()).collect::<Vec<_>>(), got.len(), wire(msgs).len(), got.iter().zip(wire(msgs)).position(|(a, b)| *a != b));
        Ok(())
    }
    pub fn write_refused(m: &[u8], plan: Vec<Option<usize>>) -> R {
        let mut s = Sink { plan: plan.clone(), ..Default::default() };
        let r = write_frame(&mut s, m);
        ensure!(r.is_err(), "a sink that accepts only part of the frame (plan {plan:?}) is reported as a success");
        Ok(())
    }
    pub fn read(msgs: &[Vec<u8>], tail: &[u8], plan: Vec<usize>, err: Option<ErrorKind>, max: usize) -> R {
        let mut data = wire(msgs);
        data.extend(tail);
        let mut s = src(data, plan.clone());
        s.err = err;
        let mut r = FrameReader { stream: s, buf: BytesMut::new(), max_frame_length: max };
        let lens = msgs.iter().map(|m| m.len()).collect::<Vec<_>>();
        for (k, m) in msgs.iter().enumerate() {
            let g = r.next_frame().map_err(|e| format!("messages {lens:?}, chunks {plan:?}: message {k} is an error: {e}"))?;
            ensure!(g[..] == m[..], "messages {lens:?}, chunks {plan:?}: message {k} is {}, expected {}", show(&g), show(m));
        }
        if let Ok(g) = r.next_frame() {
            return Err(format!("messages {lens:?} and {} further bytes {tail:02x?}, chunks {plan:?}: an additional message {} is delivered", tail.len(), show(&g)));
        }
        Ok(())
    }
    pub fn long_header(v: u64, max: usize, before: &[Vec<u8>], plan: Vec<usize>) -> R {
        let mut data = wire(before);
        let used = data.len() + 8;
        data.extend(v.to_be_bytes());
        data.extend(vec![7u8; 1 << 20]);
        let s = src(data, plan);
        let taken = s.taken.clone();
        let mut r = FrameReader { stream: s, buf: BytesMut::new(), max_frame_length: max };
        for m in before {
            let g = r.next_frame().map_err(|e| e.to_string())?;
            ensure!(g[..] == m[..], "message before the long header");
        }
        let g = r.next_frame();
        ensure!(g.is_err(), "header {v} with limit {max} gives a message of {} bytes", g.map(|g| g.len()).unwrap_or(0));
        let t = *taken.lock().unwrap();
        ensure!(t <= used + (128 << 10), "header {v} above the limit {max}: {t} bytes were read before the error");
        ensure!(r.buf.capacity() <= (1 << 20), "header {v} above the limit {max}: a buffer of {} bytes was reserved", r.buf.capacity());
        Ok(())
    }
    /// the queues, the reader and writer threads over in-memory streams
    pub fn channels(msgs: Vec<Vec<u8>>, plan: Vec<Option<usize>>, chunks: Vec<usize>, max: usize) -> R {
        let out = Arc::new(Mutex::new(vec![]));
        let mut c = BlockingChannels::new(Some(Duration::from_secs(20)), Some(Duration::from_secs(20)), max);
        let sink = Sink { out: out.clone(), plan, ..Default::default() };
        c.add_peer(3, sink, src(wire(&msgs), chunks));
        for m in &msgs { c.send(3, Bytes::from(m.clone())).map_err(|e| e.to_string())?; }
        let r = c.send(3, Bytes::from(vec![0; max + 1]));
        ensure!(r.is_err(), "sending {} bytes with limit {max} is accepted", max + 1);
        c.flush().map_err(|e| format!("flush: {e}"))?;
        ensure!(*out.lock().unwrap() == wire(&msgs), "after the flush the wire differs from the messages {:?}", msgs.iter().map(|m| m.len()).collect::<Vec<_>>());
        for (k, m) in msgs.iter().enumerate() {
            let g = c.recv(3).map_err(|e| format!("receiving message {k}: {e}"))?;
            ensure!(g[..] == m[..], "received message {k}: {}, expected {}", show(&g), show(m));
        }
        ensure!(c.recv(3).is_err(), "a message after the end of the stream");
        ensure!(c.recv(3).is_err(), "a message after the end of the stream (second try)");
        Ok(())
    }
}

/// Two TCP parties whose connection runs through a proxy that re-chunks the bytes in both directions.
fn tcp(a2b: Vec<Vec<u8>>, b2a: Vec<Vec<u8>>, max: usize, seed: u64, cut: Option<usize>) -> R {
    // another process may take a free port before we bind it
    for _ in 0..2 {
        match tcp1(a2b.clone(), b2a.clone(), max, seed, cut) {
            Err(e) if e.contains("connect:") => continue,
            r => return r,
        }
    }
    tcp1(a2b, b2a, max, seed, cut)
}
fn tcp1(a2b: Vec<Vec<u8>>, b2a: Vec<Vec<u8>>, max: usize, seed: u64, cut: Option<usize>) -> R {
    use rand_chacha::rand_core::SeedableRng;
    let free = || -> u16 { TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port() };
    let proxy = TcpListener::bind("127.0.0.1:0").map_err(|e| e.to_string())?;
    let (p0, p1, pp) = (free(), free(), proxy.local_addr().unwrap().port());
    std::thread::spawn(move || {
        let (a, _) = proxy.accept().unwrap();
        let b = loop {
            if let Ok(b) = TcpStream::connect(("127.0.0.1", p1)) { break b; }
            std::thread::sleep(Duration::from_millis(10));
        };
        let _ = (a.set_nodelay(true), b.set_nodelay(true));
        for (k, (mut x, mut y)) in [(a.try_clone().unwrap(), b.try_clone().unwrap()), (b, a)].into_iter().enumerate() {
            let cut = if k == 0 { cut } else { None };
            std::thread::spawn(move || {
                let mut rng = rand_chacha::ChaCha12Rng::seed_from_u64(seed + k as u64);
                let mut buf = vec![0; 1 << 20];
                let mut total = 0;
                loop {
                    let lim = if rng.gen_bool(0.3) { rng.gen_range(1..20) } else { rng.gen_range(1..100_000) };
                    let n = match x.read(&mut buf[..lim]) { Ok(0) | Err(_) => break, Ok(n) => n };
                    let n2 = match cut { Some(c) => n.min(c + 16 - total), None => n };
                    total += n2;
                    if y.write_all(&buf[..n2]).is_err() { break; }
                    if n2 < n || cut == Some(total.wrapping_sub(16)) { break; }
                }
                let _ = y.shutdown(std::net::Shutdown::Write);
                if cut.is_some() { let mut sink = vec![0; 4096]; while matches!(x.read(&mut sink), Ok(n) if n > 0) {} }
            });
        }
    });
    let party = |id, port| NetworkParty::new(id, Address::new("127.0.0.1".into(), port));
    let cfg = |id: usize, me: u16, ports: [u16; 2]| NetworkConfigBuilder::new(id, ([127, 0, 0, 1], me).into(), vec![party(0, ports[0]), party(1, ports[1])])
        .timeout(Duration::from_secs(20)).connect_timeout(Duration::from_secs(20)).flush_timeout(Duration::from_secs(20)).max_frame_length(max).build();
    let (c0, c1) = (cfg(0, p0, [p0, pp]), cfg(1, p1, [p0, p1]));
    let run = |c, out: Vec<Vec<u8>>, inc: Vec<Vec<u8>>, peer: usize, all: bool| move || -> R {
        let net = TcpNetwork::new(c).map_err(|e| format!("connect: {e}"))?;
        ensure!(net.send(peer, Bytes::from(vec![1; max + 1])).is_err(), "a message of {} bytes is accepted with limit {max}", max + 1);
        let r = std::thread::scope(|s| -> R {
            let h = s.spawn(|| -> R {
                for m in &out { net.send(peer, Bytes::from(m.clone())).map_err(|e| format!("send: {e}"))?; }
                net.flush().map_err(|e| format!("flush: {e}"))
            });
            for (k, m) in inc.iter().enumerate() {
                let g = net.recv(peer).map_err(|e| format!("message {k} ({} bytes): {e}", m.len()))?;
                ensure!(g[..] == m[..], "message {k} is {}, expected {}", show(&g), show(m));
            }
            if !all && let Ok(g) = net.recv(peer) { return Err(format!("the stream ends inside a message, but {} is delivered", show(&g))); }
            h.join().unwrap()
        });
        // stay until the peer has everything
        std::thread::sleep(Duration::from_millis(50));
        r
    };
    let inc1 = match cut {
        None => a2b.clone(),
        Some(c) => { let mut left = c; a2b.iter().take_while(|m| { let f = left >= m.len() + 8; if f { left -= m.len() + 8; } f }).cloned().collect() }
    };
    let h = std::thread::spawn(run(c1, b2a.clone(), inc1, 0, cut.is_none()));
    let r0 = run(c0, a2b, if cut.is_none() { b2a } else { vec![] }, 1, true)();
    let r1 = h.join().map_err(|_| "panic".to_string())?;
    r1.map_err(|e| format!("party 1: {e}"))?;
    if cut.is_none() { r0.map_err(|e| format!("party 0: {e}"))?; }
    Ok(())
}

fn main() {
    let mut h = H::new("C12");
    #[cfg(feature = "internals")]
    {
        use std::io::ErrorKind::*;
        let lens: Vec<Vec<usize>> = vec![vec![0], vec![1], vec![5], vec![0, 0, 3], vec![3, 0, 20, 1], vec![255, 256, 257], vec![65535, 65536, 65537], vec![70000, 0, 1], vec![200_000], vec![65528, 65520, 8]];
        for ls in &lens {
            let l = ls.clone();
            let make = move |rng: &mut rand_chacha::ChaCha12Rng| -> Vec<Vec<u8>> { l.iter().map(|n| payload(rng, *n)).collect() };
            let total: usize = ls.iter().map(|n| n + 8).sum();
            for first_only in [false, true] {
                let id = format!("lens={ls:?}/first={first_only}");
                let m = make.clone();
                h.case("write every split", &id, move |rng| {
                    let msgs = m(rng);
                    for k in (0..total.min(60)).chain((65_500..65_600).filter(|k| *k < total)) {
                        if k > 0 { inner::write(&msgs, vec![Some(k)], first_only)?; }
                        inner::write(&msgs, vec![None, Some(k.max(1)), None, None, Some(1)], first_only)?;
                    }
                    inner::write(&msgs, vec![Some(1); total.min(5000)], first_only)?;
                    inner::write(&msgs, vec![Some(7); total.min(5000)], first_only)?;
                    for _ in 0..20 {
                        let plan = (0..rng.gen_range(1..50)).map(|_| match rng.gen_range(0..4) { 0 => None, 1 => Some(rng.gen_range(1..9)), 2 => Some(8), _ => Some(rng.gen_range(1..total + 2)) }).collect();
                        inner::write(&msgs, plan, first_only)?;
                    }
                    Ok(())
                });
            }
            let m = make.clone();
            h.case("write refused", &format!("lens={ls:?}"), move |rng| {
                let msg = m(rng).pop().unwrap();
                for k in 0..(msg.len() + 8).min(40) { inner::write_refused(&msg, if k == 0 { vec![Some(0)] } else { vec![Some(k), None, Some(0)] })?; }
                Ok(())
            });
            let m = make.clone();
            let max = *ls.iter().max().unwrap();
            h.case("read every split", &format!("lens={ls:?}"), move |rng| {
                let msgs = m(rng);
                for max in [max, max + 1, 1 << 40] {
                    for k in (1..total.min(60)).chain((65_500..65_600).filter(|k| *k < total)) {
                        inner::read(&msgs, &[], vec![k], None, max)?;
                        inner::read(&msgs, &[], vec![0, k, 0, 0, 1, 0], Some(ConnectionReset), max)?;
                    }
                    inner::read(&msgs, &[], vec![1; total.min(3000)], None, max)?;
                    inner::read(&msgs, &[], vec![7; total.min(3000)], None, max)?;
                    inner::read(&msgs, &[], vec![8; total.min(3000)], None, max)?;
                    for _ in 0..20 {
                        let plan = (0..rng.gen_range(1..50)).map(|_| match rng.gen_range(0..4) { 0 => 0, 1 => rng.gen_range(1..9), 2 => 8, _ => rng.gen_range(1..total + 2) }).collect();
                        inner::read(&msgs, &[], plan, None, max)?;
                    }
                }
                Ok(())
            });
            let m = make.clone();
            h.case("truncated", &format!("lens={ls:?}"), move |rng| {
                let msgs = m(rng);
                for n in [0usize, 1, 2, 10, 70_000] {
                    let f = wire(&[payload(rng, n)]);
                    for k in (0..f.len().min(20)).chain((0..3).map(|i| f.len() - 1 - i)) {
                        for e in [None, Some(ConnectionReset), Some(TimedOut), Some(WouldBlock)] {
                            inner::read(&msgs, &f[..k.min(f.len() - 1)], vec![], e, max.max(n))?;
                            inner::read(&msgs, &f[..k.min(f.len() - 1)], vec![8, 1, 5, 9, 2], e, max.max(n))?;
                        }
                    }
                }
                Ok(())
            });
            let m = make.clone();
            h.case("channels", &format!("lens={ls:?}"), move |rng| {
                for r in 0..4 {
                    let plan = (0..r * 10).map(|_| if rng.gen_bool(0.2) { None } else { Some(rng.gen_range(1..total + 2)) }).collect();
                    let chunks = (0..r * 10).map(|_| rng.gen_range(0..total + 2)).collect();
                    inner::channels(m(rng), plan, chunks, max)?;
                }
                Ok(())
            });
        }
        for max in [0usize, 1, 5, 255, 256, 65536, 1 << 20, 1 << 26] {
            for v in [max as u64 + 1, max as u64 + 256, 1 << 31, 1 << 32, (1 << 32) + max as u64, (1 << 32) + 1, 1 << 40, 1 << 56, (1 << 63) + 1, u64::MAX - 8, u64::MAX - 7, u64::MAX] {
                h.case("long header", &format!("max={max}/len={v}"), move |_| {
                    inner::long_header(v, max, &[], vec![])?;
                    inner::long_header(v, max, &[], vec![3, 4, 1, 2])?;
                    inner::long_header(v, max, &[vec![9; max.min(3)], vec![]], vec![8, 9])
                });
            }
        }
    }
    for (k, ls) in [vec![0usize], vec![1, 0, 2], vec![100_000, 3, 0, 65_536], vec![65_528, 65_529, 1], vec![300_000, 300_000]].into_iter().enumerate() {
        let l2 = ls.clone();
        h.case("tcp", &format!("lens={ls:?}"), move |rng| {
            let max = *ls.iter().max().unwrap();
            let a: Vec<_> = ls.iter().map(|n| payload(rng, *n)).collect();
            let b: Vec<_> = (0..40).map(|i| payload(rng, i * 37 % (max + 1))).collect();
            tcp(a, b, max, k as u64, None)
        });
        h.case("tcp cut", &format!("lens={l2:?}"), move |rng| {
            let max = *l2.iter().max().unwrap();
            let a: Vec<_> = l2.iter().map(|n| payload(rng, *n)).collect();
            let total = wire(&a).len();
            tcp(a, vec![], max, k as u64, Some(total - 1 - rng.gen_range(0..total.min(6))))
        });
    }
    h.finish()
}
