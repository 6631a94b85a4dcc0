//! C25 where the builder connects.

use crate::conn::{connect, gently, Tnc};
use crate::ctl::Cmd;
use crate::world::*;
use crate::Plan;
use plusendi::modem::vara::{VaraTnc, VaraTncBuilder};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr, TcpListener};

pub const PLAN25: Plan = Plan {
    stream: "C25",
    quick: 1500,
    thorough: 40_000,
    batch: 16,
    parallel: 8,
    rule: "a case is a configuration, with decoys listening where nothing may connect and either port possibly refusing; non-trivial: distinct kind of configuration and order of settings",
    floors: &[("handles built", 600), ("refused control ports", 60), ("refused data ports", 60), ("derived data ports", 200), ("no derivable data port", 60), ("other hosts", 200), ("defaults", 1), ("builders used again", 60)],
};

/// A port that is taken but refuses connections.
struct Refusing(i32, u16);
impl Refusing {
    fn new(ip: Ipv4Addr, port: u16) -> Option<Refusing> {
        unsafe {
            let fd = libc::socket(libc::AF_INET, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0);
            let mut a: libc::sockaddr_in = std::mem::zeroed();
            a.sin_family = libc::AF_INET as u16;
            a.sin_port = port.to_be();
            a.sin_addr.s_addr = u32::from_ne_bytes(ip.octets());
            let mut n = std::mem::size_of_val(&a) as u32;
            if libc::bind(fd, &a as *const _ as *const _, n) != 0 {
                libc::close(fd);
                return None;
            }
            libc::getsockname(fd, &mut a as *mut _ as *mut _, &mut n);
            Some(Refusing(fd, u16::from_be(a.sin_port)))
        }
    }
}
impl Drop for Refusing {
    fn drop(&mut self) {
        unsafe { libc::close(self.0) };
    }
}

enum End1 {
    Listens(TcpListener),
    Refuses(Refusing),
}
impl End1 {
    fn port(&self) -> u16 {
        match self {
            End1::Listens(l) => port(l),
            End1::Refuses(r) => r.1,
        }
    }
    fn listener(&self) -> Option<&TcpListener> {
        match self {
            End1::Listens(l) => Some(l),
            End1::Refuses(_) => None,
        }
    }
}

fn place(ip: IpAddr, port: u16, refuses: bool) -> Option<End1> {
    if refuses {
        let IpAddr::V4(v4) = ip else { return None };
        Refusing::new(v4, port).map(End1::Refuses)
    } else {
        listener(ip, port).ok().map(End1::Listens)
    }
}

/// Two ends, adjacent if so wanted.
fn pair(ip: IpAddr, adjacent: bool, refuse_c: bool, refuse_d: bool) -> Option<(End1, End1)> {
    for _ in 0..200 {
        let c = place(ip, 0, refuse_c)?;
        if !adjacent {
            let d = place(ip, 0, refuse_d)?;
            if d.port() != c.port() + 1 {
                return Some((c, d));
            }
            continue;
        }
        if c.port() == u16::MAX {
            continue;
        }
        if let Some(d) = place(ip, c.port() + 1, refuse_d) {
            return Some((c, d));
        }
    }
    None
}

pub fn c25(w: &mut W) -> R {
    let lo = IpAddr::V4(Ipv4Addr::LOCALHOST);
    let kind = w.rng.below(10);
    let host = match w.rng.below(4) {
        0 => IpAddr::V4(Ipv4Addr::new(127, 0, 0, 2 + w.rng.below(200) as u8)),
        1 => IpAddr::V6(Ipv6Addr::LOCALHOST),
        _ => lo,
    };
    let set_host = host != lo || w.rng.chance(1, 3);
    let mut builder = VaraTnc::builder();
    let order = w.rng.below(6);
    let mut apply = |b: &mut VaraTncBuilder, control: Option<u16>, data: Option<u16>, junk: u16| {
        // Later settings replace earlier ones, in any order.
        for step in [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][order as usize] {
            match step {
                0 if set_host => {
                    if junk % 3 == 0 {
                        b.host(IpAddr::V4(Ipv4Addr::new(127, 9, 9, 9)));
                    }
                    b.host(host);
                }
                1 => {
                    if let Some(c) = control {
                        if junk % 2 == 0 {
                            b.control_port(1.try_into().unwrap());
                        }
                        b.control_port(c.try_into().unwrap());
                    }
                }
                2 => {
                    if let Some(d) = data {
                        if junk % 5 == 0 {
                            b.data_port(2.try_into().unwrap());
                        }
                        b.data_port(d.try_into().unwrap());
                    }
                }
                _ => {}
            }
        }
    };
    let junk = w.rng.below(30) as u16;
    let mut times = 1;
    let (c, d): (End1, End1);
    let mut decoys: Vec<TcpListener> = vec![];
    let mut expect_error = false;
    match kind {
        0 | 1 | 2 => {
            // Both ports given.
            let Some(p) = pair(host, false, false, false) else { return Ok(()) };
            (c, d) = p;
            apply(&mut builder, Some(c.port()), Some(d.port()), junk);
            if c.port() < u16::MAX {
                decoys.extend(listener(host, c.port() + 1));
            }
            times = w.rng.range(1, 3);
        }
        3 | 4 => {
            // The data port follows from the control port.
            let Some(p) = pair(host, true, false, false) else { return Ok(()) };
            (c, d) = p;
            apply(&mut builder, Some(c.port()), None, junk);
            count("derived data ports", 1);
            times = w.rng.range(1, 2);
        }
        5 => {
            let Some(p) = pair(lo, w.rng.chance(1, 2), true, false) else { return Ok(()) };
            (c, d) = p;
            let dp = d.port();
            let derived = c.port() + 1 == dp;
            builder.control_port(c.port().try_into().unwrap());
            if !derived {
                builder.data_port(dp.try_into().unwrap());
            }
            expect_error = true;
            count("refused control ports", 1);
        }
        6 => {
            let Some(p) = pair(lo, w.rng.chance(1, 2), false, true) else { return Ok(()) };
            (c, d) = p;
            let dp = d.port();
            let derived = c.port() + 1 == dp;
            builder.control_port(c.port().try_into().unwrap());
            if !derived {
                builder.data_port(dp.try_into().unwrap());
                if w.rng.chance(1, 2) && c.port() < u16::MAX - 1 {
                    // What listens next to either is not what was asked for.
                    decoys.extend(listener(lo, c.port() + 1));
                    decoys.extend(listener(lo, dp.wrapping_add(1).max(1025)));
                    decoys.extend(listener(lo, dp.wrapping_sub(1).max(1025)));
                    count("refused data ports with others listening", 1);
                }
            }
            expect_error = true;
            count("refused data ports", 1);
        }
        7 => {
            // The highest port has none above it. Whether something listens there must not matter.
            let l = listener(host, u16::MAX);
            let Some(dd) = place(host, 0, false) else { return Ok(()) };
            d = dd;
            let Ok(l) = l else {
                apply(&mut builder, Some(u16::MAX), None, junk);
                let r = attempt(w, &mut builder, &[])?;
                if r.0.is_ok() {
                    return bad("built without a data port", "control port 65535");
                }
                count("no derivable data port", 1);
                return Ok(());
            };
            c = End1::Listens(l);
            if w.rng.chance(1, 2) {
                apply(&mut builder, Some(u16::MAX), Some(d.port()), junk);
                count("highest control port", 1);
            } else {
                apply(&mut builder, Some(u16::MAX), None, junk);
                expect_error = true;
                count("no derivable data port", 1);
            }
        }
        8 => {
            // Defaults; the ports may be taken by another process of this check.
            let (Ok(lc), Ok(ld)) = (listener(lo, 8300), listener(lo, 8301)) else {
                count("defaults skipped", 1);
                return Ok(());
            };
            c = End1::Listens(lc);
            d = End1::Listens(ld);
            count("defaults", 1);
            let rt = w.rt.flavour;
            let _ = rt;
            return finish(w, &mut builder, lo, c, d, decoys, false, 1, kind, order);
        }
        _ => {
            // Decoys at the same ports of another host.
            let other = IpAddr::V4(Ipv4Addr::new(127, 3, 3, 1 + w.rng.below(200) as u8));
            let Some(p) = pair(host, w.rng.chance(1, 2), false, false) else { return Ok(()) };
            (c, d) = p;
            let derived = c.port() < u16::MAX && c.port() + 1 == d.port();
            apply(&mut builder, Some(c.port()), if derived { None } else { Some(d.port()) }, junk);
            if host.is_ipv4() {
                decoys.extend(listener(other, c.port()));
                decoys.extend(listener(other, d.port()));
                if host != lo {
                    decoys.extend(listener(lo, c.port()));
                    decoys.extend(listener(lo, d.port()));
                }
            }
        }
    }
    let derived = kind == 3 || kind == 4;
    finish(w, &mut builder, host, c, d, decoys, expect_error, times, kind, order)?;
    if derived && w.rng.chance(1, 2) {
        // The same builder again, with another control port and the data port still following it.
        let Some((c, d)) = pair(host, true, false, false) else { return Ok(()) };
        builder.control_port(c.port().try_into().unwrap());
        count("builders used again", 1);
        finish(w, &mut builder, host, c, d, vec![], false, 1, kind + 20, order)?;
    }
    Ok(())
}

type Built = std::io::Result<VaraTnc>;
type Accepted = Vec<(usize, std::net::TcpStream, SocketAddr)>;

fn attempt(w: &W, b: &mut VaraTncBuilder, listeners: &[&TcpListener]) -> R<(Built, Accepted)> {
    let mut acc = Vec::new();
    let mut moved = b.clone();
    let call = Call::spawn(&w.rt, async move {
        let b = &mut moved;
        let r = b.build().await;
        (moved, r)
    });
    w.mon.wait("building to end", || {
        panics()?;
        for (i, l) in listeners.iter().enumerate() {
            while let Ok((s, a)) = l.accept() {
                acc.push((i, s, a));
            }
        }
        Ok(if call.done() { Step::Done } else { Step::Idle })
    })?;
    w.mon.settle(|| Ok(false))?;
    for (i, l) in listeners.iter().enumerate() {
        while let Ok((s, a)) = l.accept() {
            acc.push((i, s, a));
        }
    }
    let (after, r) = call.take().unwrap();
    *b = after;
    Ok((r, acc))
}

#[allow(clippy::too_many_arguments)]
fn finish(w: &mut W, builder: &mut VaraTncBuilder, host: IpAddr, c: End1, d: End1, decoys: Vec<TcpListener>, expect_error: bool, times: usize, kind: u64, order: u64) -> R {
    let mut ls: Vec<&TcpListener> = Vec::new();
    let ci = c.listener().map(|l| {
        ls.push(l);
        ls.len() - 1
    });
    let di = d.listener().map(|l| {
        ls.push(l);
        ls.len() - 1
    });
    let n = ls.len();
    ls.extend(decoys.iter());
    for _ in 0..times {
        let (r, mut acc) = attempt(w, builder, &ls)?;
        for (i, _, from) in &acc {
            if *i >= n {
                return bad("connected elsewhere", format!("{from} connected to the decoy at {:?}; {builder:?}", ls[*i].local_addr()));
            }
        }
        if expect_error {
            if r.is_ok() {
                return bad("built in spite of it all", format!("{builder:?}"));
            }
            // Nothing may be left open.
            let mut conns: Vec<Conn> = acc.drain(..).map(|(_, s, _)| Conn::new(s)).collect();
            w.mon.wait("connections of a failed build to be closed", || {
                let mut all = true;
                for c in conns.iter_mut() {
                    c.pump();
                    all &= c.closed.is_some();
                }
                Ok(if all { Step::Done } else { Step::Idle })
            })?;
            if conns.iter().any(|c| !c.got.is_empty()) {
                return bad("a failed build sent something", "");
            }
            count("failed builds", 1);
            distinct(crate::common::hash64(&[kind as u8, order as u8, host.is_ipv6() as u8, conns.len() as u8]));
            continue;
        }
        let t = match r {
            Ok(t) => t,
            Err(e) => return bad("build failed", format!("{e}; both ends listen: {builder:?}")),
        };
        let count_of = |k: Option<usize>| acc.iter().filter(|a| Some(a.0) == k).count();
        if count_of(ci) != 1 || count_of(di) != 1 {
            return bad("wrong connections", format!("{} at the control port, {} at the data port; {builder:?}", count_of(ci), count_of(di)));
        }
        let mut cs = None;
        let mut ds = None;
        for (i, s, _) in acc {
            if Some(i) == ci {
                cs = Some(s)
            } else {
                ds = Some(s)
            }
        }
        // Commands on the one, bytes on the other.
        let mut m = Modem::new(cs.unwrap(), ds.unwrap());
        let t = Tnc::new(t);
        let id = callsign(&mut w.rng);
        let call = t.start(w, Cmd::Call(vec![id.clone()]));
        w.expect(&mut m, &format!("MYCALL {id}"))?;
        m.send("OK");
        if let Err(e) = w.done(&mut m, "a command to complete", &call)? {
            return bad("accepted command failed", e);
        }
        let s = connect(w, &mut m, &t, "KC1GSL", &id)?;
        let call = Call::spawn(&w.rt, async move {
            use tokio::io::AsyncWriteExt;
            let mut s = s;
            let r = s.write_all(b"to the data port").await;
            (s, r.is_ok())
        });
        let (s, ok) = w.done(&mut m, "a write to complete", &call)?;
        w.wait(&mut m, "bytes at the data port", |m| Ok(m.data.got.len() >= 16))?;
        if !ok || m.data.got != b"to the data port" {
            return bad("bytes at the data port", format!("{:?}", String::from_utf8_lossy(&m.data.got)));
        }
        gently(|| drop(s))?;
        w.expect(&mut m, "DISCONNECT")?;
        m.send("OK");
        m.send("DISCONNECTED");
        w.settle(&mut m)?;
        t.drop()?;
        w.wind_down(&mut m)?;
        count("handles built", 1);
        if host != IpAddr::V4(Ipv4Addr::LOCALHOST) {
            count("other hosts", 1);
        }
        distinct(crate::common::hash64(&[kind as u8, order as u8, host.is_ipv6() as u8, host.is_ipv4() as u8, w.rng.byte() & 15]));
        sample(|| format!("{builder:?}"));
    }
    Ok(())
}
