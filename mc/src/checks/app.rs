//! Whole-endpoint families of the transfer properties: a real client and a real server.
use super::Check;
use crate::cs::*;
use crate::ensure;
use crate::explore::{fail, Ctx, Scenario};
use crate::hc::Fate;
use uflow::EndpointConfig;
use uflow::SendMode::{self, *};

fn up(n: &mut Net, ctx: &mut Ctx, cfg: EndpointConfig) -> std::net::SocketAddr {
    let i = n.connect(ctx, cfg);
    let a = n.peers[i].addr;
    for _ in 0..60 {
        n.do_tick(ctx);
        if n.peers[i].gr == Gr::Up && n.spec(a).gr == Gr::Up {
            return a;
        }
    }
    fail(format!("no connection within 60 ticks of a loss-free network (client events {:?})", n.peers[i].events));
}

/// Keeps both sides supplied with up to `pend` buffered bytes.
fn supply(n: &mut Net, ctx: &mut Ctx, a: std::net::SocketAddr, side: usize, pend: usize, modes: &[SendMode], sizes: &[usize]) {
    for _ in 0..64 {
        let k = if side == 0 { n.peers[0].subs.len() } else { n.spec(a).subs.len() };
        if k >= 60_000 {
            return;
        }
        let have = if side == 0 { n.peers[0].client.as_ref().unwrap().send_buffer_size() } else { n.server.as_ref().unwrap().client(&a).map_or(usize::MAX, |c| c.borrow().send_buffer_size()) };
        if have >= pend {
            return;
        }
        let (m, s) = (modes[k % modes.len()], sizes[k % sizes.len()]);
        if side == 0 {
            n.csend(ctx, 0, s, (k % 4) as u8, m);
        } else {
            n.ssend(ctx, a, s, (k % 4) as u8, m);
        }
    }
}

/// C11 for whole endpoints, keepalives included
pub fn c11(c: &mut Check, thorough: bool) {
    let mon = Mon { grammar: true, order: true, ..Mon::default() };
    let modes: [(&str, &'static [SendMode]); 3] = [("R", &[Reliable]), ("U", &[Unreliable]), ("all", &[Unreliable, Reliable, TimeSensitive, Persistent])];
    for (mname, modes) in modes {
        for side in 0..3usize {
            c.add(Scenario::new(format!("app/{}/{}", mname, ["client", "server", "both"][side]), 0, move |ctx| {
                let dir = ctx.choose_of(&[3u32, 1, 2]);
                let start_ms = ctx.choose_of(&[0u64, 150, 1000, 5000]);
                let len_ms = ctx.choose_of(&[400u64, 2500, 8_000, 14_000]);
                let sizes: &[usize] = if thorough { ctx.choose_of(&[&[60usize, 61, 400][..], &[1440], &[4000, 30]]) } else { ctx.choose_of(&[&[60usize, 61, 400][..], &[1440]]) };
                let pend = ctx.choose_of(&[3000usize, 12_000]);
                let (tick, lat) = ctx.choose_of(&[(20u64, 1u32), (50, 4), (200, 1)]);
                let repeat = if thorough { ctx.choose_of(&[1u64, 2, 4]) } else { 1 };
                // Silence is no reason to give up here
                let mut ec = EndpointConfig::default();
                ec.active_timeout_ms = 1_000_000;
                let mut n = Net::new(scfg(4, 4, true, ec.clone()), mon);
                n.tick_us = tick * 1000;
                n.lat = lat;
                let a = up(&mut n, ctx, ec);
                let t0 = n.ms();
                let period = len_ms + 7_000;
                let end = t0 + start_ms + repeat * period - 7_000;
                while n.ms() < end {
                    let t = n.ms();
                    n.black_dir = if t >= t0 + start_ms && (t - t0 - start_ms) % period < len_ms { dir } else { 0 };
                    for s in 0..2 {
                        if side == 2 || side == s {
                            supply(&mut n, ctx, a, s, pend, modes, sizes);
                        }
                    }
                    n.do_tick(ctx);
                }
                n.black_dir = 0;
                // The network works from now on: what is submitted now arrives, on both sides
                let t1 = n.ms();
                let first = [n.peers[0].subs.len(), n.spec(a).subs.len()];
                loop {
                    let since = n.ms() - t1;
                    n.tick_us = n.tick_us.max(if since > 40_000_000 { 500_000 } else { 50_000 });
                    for s in 0..2 {
                        supply(&mut n, ctx, a, s, 3000, if side == 2 || side == s { modes } else { &[Reliable] }, sizes);
                    }
                    n.do_tick(ctx);
                    let got = [n.peers[0].subs[first[0]..].iter().filter(|x| x.delivered > 0).count(), n.sp[&a].subs[first[1]..].iter().filter(|x| x.delivered > 0).count()];
                    if got[0] >= 12 && got[1] >= 12 {
                        break;
                    }
                    ensure!(n.peers[0].gr == Gr::Up && n.spec(a).gr == Gr::Up, "the connection was lost (client {:?}, server {:?})", n.peers[0].events.last(), n.sp[&a].events.last());
                    ensure!(since < 20_000_000, "after 20000 s of a working network, {} and {} of the packets submitted since have arrived", got[0], got[1]);
                }
                if std::env::var("MC_STAT").is_ok() {
                    println!("APP {}", (n.ms() - t1) / 1000);
                }
                ctx.state();
            }));
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum What {
    Order,
    Reliable,
    Ideal,
    Buffer,
}

fn buffers(n: &Net, a: std::net::SocketAddr) -> [usize; 2] {
    [n.peers[0].client.as_ref().unwrap().send_buffer_size(), n.server.as_ref().unwrap().client(&a).map_or(0, |c| c.borrow().send_buffer_size())]
}

/// C01, C02, C05, C20: packets submitted through the endpoints' own interfaces (the client's first ones while still
/// connecting), and events as handed to the application.
pub fn exchange(c: &mut Check, what: What, thorough: bool) {
    let mon = Mon { grammar: true, order: true, global: what == What::Ideal, ..Mon::default() };
    let mixes: [(&str, &'static [SendMode]); 4] = [("R", &[Reliable]), ("URTP", &[Unreliable, Reliable, TimeSensitive, Persistent]), ("PR", &[Persistent, Reliable, Unreliable]), ("T", &[TimeSensitive, Unreliable])];
    for (mi, (mname, modes)) in mixes.into_iter().enumerate() {
        for (vi, (tick, lat, early, first)) in [(20u64, 1u32, true, false), (100, 0, false, true), (500, 2, true, true)].into_iter().enumerate() {
            let bound = match (what, thorough) { (What::Ideal, _) => 2, (_, true) => 3, _ => 2 };
            if !thorough && vi != mi % 3 && vi != 0 {
                continue;
            }
            c.add(Scenario::new(format!("app/{}/{}ms", mname, tick), bound, move |ctx| {
                let mut ec = EndpointConfig::default();
                ec.active_timeout_ms = 600_000;
                ec.max_packet_size = 5000;
                ec.max_receive_alloc = if vi == 1 { 6000 } else { 1_000_000 };
                let mut n = Net::new(scfg(4, 4, true, ec.clone()), mon);
                n.tick_us = tick * 1000;
                n.lat = lat;
                n.clients_first = first;
                n.flush_after = vi == 1;
                if what == What::Ideal {
                    // Steps may be skipped and flushes added, nothing else
                } else {
                    n.fates = vec![Fate::Deliver, Fate::Drop, Fate::Dup, Fate::Delay(5), Fate::DupDelay(4)];
                    n.branch = if thorough { 22 } else { 18 };
                    n.branch_kinds = Some(vec![Kind::Data, Kind::DataAck, Kind::Sync]);
                }
                let i = n.connect(ctx, ec);
                let a = n.peers[i].addr;
                let sizes = [30usize, 700, 3000, 2, 1448, 1449];
                let mut k = 0;
                let mut sends = 0;
                while sends < 7 {
                    let sup = n.spec(a).gr == Gr::Up;
                    if early || sup {
                        n.csend(ctx, 0, sizes[k % 6], [0u8, 1, 0, 63][k % 4], modes[k % modes.len()]);
                        n.csend(ctx, 0, sizes[(k + 2) % 6], [1u8, 0, 5][k % 3], modes[(k + 1) % modes.len()]);
                    }
                    if sup {
                        n.ssend(ctx, a, sizes[(k + 1) % 6], [0u8, 2][k % 2], modes[k % modes.len()]);
                        n.ssend(ctx, a, sizes[(k + 4) % 6], 2, modes[(k + 2) % modes.len()]);
                    }
                    k += 1;
                    sends += (early || sup) as u32;
                    if what == What::Ideal {
                        let act = ctx.choose(5);
                        if act == 1 {
                            n.flush_client(ctx, 0);
                        }
                        if act == 2 {
                            n.flush_server(ctx);
                        }
                        n.do_tick_skipping(ctx, act == 3, &|_| act == 4);
                    } else {
                        n.do_tick(ctx);
                    }
                    ensure!(n.ms() < 60_000, "no connection on a working network");
                    check_buffers(&n, a, what);
                }
                // As soon as everything pending is gone
                let end = n.ms() + 1_500_000;
                let mut quiet = 0;
                while quiet < 12 {
                    n.do_tick(ctx);
                    let t = n.ms();
                    if t > 60_000 {
                        n.tick_us = n.tick_us.max(100_000);
                    }
                    check_buffers(&n, a, what);
                    let b = buffers(&n, a);
                    quiet = if b == [0, 0] { quiet + 1 } else { 0 };
                    ensure!(t < end, "buffers still hold {:?} bytes 1500 s after the last submission", b);
                }
                for (s, subs) in [("client", &n.peers[0].subs), ("server", &n.sp[&a].subs)] {
                    for (j, x) in subs.iter().enumerate() {
                        let must = match what { What::Reliable => x.mode == Reliable, What::Ideal => x.mode != TimeSensitive, _ => false };
                        ensure!(!must || x.delivered == 1, "{:?} packet #{} of the {} was delivered {} times", x.mode, j, s, x.delivered);
                    }
                }
                ensure!(n.peers[0].gr == Gr::Up && n.spec(a).gr == Gr::Up, "the connection was lost");
            }));
        }
    }
}

fn check_buffers(n: &Net, a: std::net::SocketAddr, what: What) {
    if what != What::Buffer {
        return;
    }
    let b = buffers(n, a);
    for (i, subs) in [&n.peers[0].subs, &n.sp[&a].subs].into_iter().enumerate() {
        let total: usize = subs.iter().map(|x| x.size).sum();
        ensure!(b[i] <= total, "{} bytes were submitted in total, but the send buffer holds {}", total, b[i]);
        // Undelivered packets other than those which may be dropped or lost are still accounted for
        let held: usize = subs.iter().filter(|x| x.delivered == 0 && x.mode == Reliable).map(|x| x.size).sum();
        ensure!(b[i] >= held, "the send buffer holds {} bytes although {} bytes of Reliable packets are undelivered", b[i], held);
        if i == 0 && n.peers[0].gr == Gr::New {
            ensure!(b[i] == total, "the send buffer holds {} bytes although {} bytes have been submitted while connecting", b[i], total);
        }
    }
}

/// C13 with limits negotiated by the handshake
pub fn c13(c: &mut Check, thorough: bool, small: bool) {
    let vals: &'static [usize] = if small { &[3000, 12_000, 50_000] } else if thorough { &[1472, 1473, 3000, 20_000, 300_000, u32::MAX as usize, u32::MAX as usize + 1, u32::MAX as usize + 5000, usize::MAX] } else { &[1472, 3000, 20_000, u32::MAX as usize + 1] };
    for lossy in [false, true] {
        c.add(Scenario::new(format!("negotiated/{}", if lossy { "lossy" } else { "clean" }), 0, move |ctx| {
            let mut ce = EndpointConfig::default();
            let mut se = EndpointConfig::default();
            ce.max_send_rate = ctx.choose_of(vals);
            se.max_receive_rate = ctx.choose_of(vals);
            se.max_send_rate = ctx.choose_of(vals);
            ce.max_receive_rate = ctx.choose_of(vals);
            let (tick, lat) = ctx.choose_of(&[(20u64, 2u32), (200, 1)]);
            ce.active_timeout_ms = 600_000;
            se.active_timeout_ms = 600_000;
            let mon = Mon { grammar: true, ..Mon::default() };
            let mut n = Net::new(scfg(4, 4, true, se.clone()), mon);
            n.tick_us = tick * 1000;
            n.lat = lat;
            n.flush_after = true;
            let a = up(&mut n, ctx, ce.clone());
            n.keep_log = true;
            if lossy {
                n.policy = Some(Box::new(|_, k, _, i| if k == Kind::Data && i % 17 == 9 { Some(Fate::Drop) } else { None }));
            }
            let t0 = n.ms();
            while n.ms() < t0 + if small { 9000 } else { 6000 } && (small || n.txlog.len() < 500) {
                supply(&mut n, ctx, a, 0, 60_000, &[Unreliable, Reliable], &[1448, 300]);
                supply(&mut n, ctx, a, 1, 60_000, &[Unreliable, Reliable], &[1448, 300]);
                n.do_tick(ctx);
            }
            for (src, ceil) in [(a, ce.max_send_rate.min(se.max_receive_rate)), (saddr(), se.max_send_rate.min(ce.max_receive_rate))] {
                if ceil >= u32::MAX as usize {
                    continue;
                }
                let tx: Vec<(u64, usize, f64)> = n.txlog.iter().filter(|x| x.src == src && matches!(x.kind, Kind::Data | Kind::Sync | Kind::DataAck)).map(|x| (x.at, x.len, x.rtt)).collect();
                ensure!(tx.len() > 2, "nothing was sent");
                if small && !lossy {
                    // What has been agreed on is made use of
                    let end = tx[tx.len() - 1].0;
                    let recent: usize = tx.iter().filter(|x| x.0 + 1_500_000 > end).map(|x| x.1).sum();
                    ensure!(recent * 2 + 2944 >= ceil * 3 / 2, "the {} sends {} bytes within 1.5 s although it has more to send, and {} B/s have been agreed on",
                        if src == a { "client" } else { "server" }, recent, ceil);
                }
                for i in 0..tx.len() {
                    let (mut sum, mut rtt) = (0usize, 0f64);
                    for j in i..tx.len() {
                        sum += tx[j].1;
                        rtt = rtt.max(tx[j].2);
                        let lim = ceil as f64 * ((tx[j].0 - tx[i].0) as f64 / 1e6 + rtt) + 1472.0 + 8.0;
                        ensure!(sum as f64 <= lim, "the {} sent {} bytes within {} ms (negotiated ceiling {} B/s, rtt {:.3} s: limit {:.0})",
                            if src == a { "client" } else { "server" }, sum, (tx[j].0 - tx[i].0) / 1000, ceil, rtt, lim);
                    }
                }
            }
            ctx.state();
        }));
    }
}

/// C06 with limits negotiated by the handshake: neither side ever has more outstanding than the other accepts
pub fn c06(c: &mut Check, thorough: bool, small: bool) {
    let allocs: &'static [usize] = if small { &[2900, 5000, 20_000] } else if thorough { &[2900, 4344, 5000, 6000, 20_000, 1_000_000, u32::MAX as usize + 1, usize::MAX] } else { &[2900, 4344, 5000, 20_000, usize::MAX] };
    c.add(Scenario::new("negotiated", 0, move |ctx| {
        let mut ce = EndpointConfig::default();
        let mut se = EndpointConfig::default();
        ce.max_receive_alloc = ctx.choose_of(allocs);
        se.max_receive_alloc = ctx.choose_of(allocs);
        let ps = ctx.choose_of(&[2900usize, 1448]);
        ce.max_packet_size = ps;
        se.max_packet_size = ps;
        let sizes: &[usize] = ctx.choose_of(&[&[1448usize][..], &[2, 1400], &[100, 1449, 30]]);
        let mode = ctx.choose_of(&[Unreliable, Reliable]);
        let (tick, lat) = ctx.choose_of(&[(20u64, 4u32), (200, 1)]);
        ce.active_timeout_ms = 600_000;
        se.active_timeout_ms = 600_000;
        let mon = Mon { grammar: true, order: true, global: true, ..Mon::default() };
        let mut n = Net::new(scfg(4, 4, true, se.clone()), mon);
        n.tick_us = tick * 1000;
        n.lat = lat;
        let a = up(&mut n, ctx, ce.clone());
        n.keep_log = true;
        let sizes: Vec<usize> = sizes.iter().map(|s| (*s).min(ps)).collect();
        let t0 = n.ms();
        while n.ms() < t0 + 8_000 && n.txlog.len() < 600 {
            supply(&mut n, ctx, a, 0, 30_000, &[mode], &sizes);
            supply(&mut n, ctx, a, 1, 30_000, &[mode], &sizes);
            n.do_tick(ctx);
        }
        use uflow::verif::frame::{Frame, Serialize};
        for (src, lim) in [(a, se.max_receive_alloc), (saddr(), ce.max_receive_alloc)] {
            let lim = lim.saturating_add(1447) / 1448 * 1448;
            let lat_us = n.lat as u64 * n.tick_us;
            // packet number -> rounded size; acknowledged base
            let (mut first, mut sizes, mut base) = (None, vec![], 0usize);
            let mut acks: Vec<(u64, u32)> = n.txlog.iter().filter(|x| x.dst == src).filter_map(|x| match Frame::read(&x.data) {
                Some(Frame::AckFrame(f)) => Some((x.at + lat_us, f.packet_window_base_id)),
                _ => None,
            }).collect();
            acks.reverse();
            for x in n.txlog.iter().filter(|x| x.src == src && x.kind == Kind::Data) {
                let Some(Frame::DataFrame(f)) = Frame::read(&x.data) else { continue };
                for d in f.datagrams.iter() {
                    let f0 = *first.get_or_insert(d.sequence_id);
                    let i = (d.sequence_id.wrapping_sub(f0) & 0xFFFFF) as usize;
                    if i < 0x80000 {
                        if sizes.len() <= i {
                            sizes.resize(i + 1, 0);
                        }
                        sizes[i] = if d.fragment_id_last > 0 { (d.fragment_id_last as usize + 1) * 1448 } else { d.data.len() };
                    }
                }
                while acks.last().map_or(false, |k| k.0 <= x.at) {
                    let k = acks.pop().unwrap();
                    base = base.max((k.1.wrapping_sub(first.unwrap()) & 0xFFFFF) as usize % 0x80000);
                }
                let out: usize = sizes[base.min(sizes.len())..].iter().sum();
                ensure!(out <= lim, "the {} has {} bytes outstanding, its peer accepts {}", if src == a { "client" } else { "server" }, out, lim);
                ensure!(sizes.len() - base.min(sizes.len()) <= 4096, "more than 4096 packets outstanding");
            }
            ensure!(sizes.len() > 2, "nothing was sent");
        }
        ctx.state();
    }));
}

/// C04 through the endpoints' interfaces: packets of exactly max_packet_size bytes, with just enough memory to receive them
pub fn c04(c: &mut Check, thorough: bool) {
    let maxes: &'static [usize] = if thorough { &[2, 3, 63, 1447, 1448, 1449, 2895, 2896, 2897, 4344, 10_000, 92_672, 92_673, 1 << 20, 16_000_000] } else { &[2, 63, 1447, 1448, 1449, 2896, 2897, 92_673, 1 << 20] };
    c.add(Scenario::new("endpoints", 0, move |ctx| {
        let cm = ctx.choose_of(maxes);
        let sm = ctx.choose_of(maxes);
        let mode = ctx.choose_of(&[Reliable, Unreliable]);
        let mk = |own: usize, other: usize| {
            let mut e = EndpointConfig::default();
            e.max_packet_size = own;
            e.max_receive_alloc = other;
            e.active_timeout_ms = 600_000;
            e
        };
        let mon = Mon { grammar: true, order: true, global: true, ..Mon::default() };
        let mut n = Net::new(scfg(2, 2, true, mk(sm, cm)), mon);
        let early = ctx.choose_free(2) == 1;
        let i = n.connect(ctx, mk(cm, sm));
        let a = n.peers[i].addr;
        n.keep_log = cm.max(sm) < 100_000;
        if early {
            n.csend(ctx, 0, cm, 0, mode);
        }
        while n.spec(a).gr != Gr::Up {
            n.do_tick(ctx);
            ensure!(n.ms() < 10_000, "no connection");
        }
        for k in 0..3 {
            n.csend(ctx, 0, cm, k, mode);
            n.ssend(ctx, a, sm, k, mode);
            if cm > 2 && sm > 2 {
                n.csend(ctx, 0, cm - 1, 0, mode);
                n.ssend(ctx, a, sm - 1, 0, mode);
            }
        }
        let t0 = n.ms();
        loop {
            n.do_tick(ctx);
            if n.peers[0].subs.iter().chain(n.sp[&a].subs.iter()).all(|x| x.delivered == 1) {
                break;
            }
            ctx.heartbeat();
            ensure!(n.ms() < t0 + 200_000, "not all packets of up to {} and {} bytes were delivered within 200 s", cm, sm);
        }
        for x in n.txlog.iter() {
            ensure!(x.len <= 1472, "a datagram of {} bytes was sent", x.len);
        }
        ctx.state();
    }));
}
