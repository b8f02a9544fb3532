//! C06 (memory) and C19 (heap discipline).
use super::hostile::*;
use super::Check;
use crate::alloc::{self, lib, HeapError};
use crate::cs::*;
use crate::ensure;
use crate::explore::{Ctx, Scenario};
use crate::hc::*;
use uflow::verif::net;
use uflow::EndpointConfig;
use uflow::SendMode::{self, *};

fn ceil_frag(n: usize) -> usize {
    n.saturating_add(FRAG - 1) / FRAG * FRAG
}

/// A receiver whose heap use is watched
struct Watch {
    v: Vic,
    base: isize,
    limit: isize,
    /// Bookkeeping which is not packet data
    over: isize,
    max: isize,
}

impl Watch {
    fn new(p: VicP, over: usize) -> Watch {
        let v = Vic::new(p);
        let base = alloc::lib_live();
        Watch { v, base, limit: ceil_frag(p.rx_alloc).min(1 << 40) as isize, over: over as isize, max: 0 }
    }

    fn check(&mut self, what: &str) {
        let held = alloc::lib_live() - self.base;
        self.max = self.max.max(held - self.limit);
        ensure!(held <= self.limit + self.over, "after {}: the receiver holds {} bytes; max_receive_alloc rounded up is {}, bookkeeping {}", what, held, self.limit, self.over);
    }

    fn feed(&mut self, ctx: &mut Ctx, b: &[u8]) {
        alloc::lib_peak_reset();
        self.v.feed(ctx, b);
        // A decoded frame, whose contents are still to be copied
        let peak = alloc::lib_peak() - self.base;
        ensure!(peak <= self.limit + self.over + 3 * 1472 + 12_000, "while handling a frame, the receiver holds {} bytes; max_receive_alloc rounded up is {}", peak, self.limit);
        self.check("a frame");
    }
}

/// Every sequence of datagrams, reads, and window movements
fn rx_small(c: &mut Check, thorough: bool) {
    let depth = if thorough { 5 } else { 4 };
    for limit in [1usize, 1448, 1449, 3000, 6000] {
        for w in [0u16, 1] {
            if depth == 5 && (limit == 1 || limit == 1449) && w == 1 {
                continue;
            }
            c.add(Scenario::new(format!("rx-small/limit{}/lead{}", limit, w), 0, move |ctx| {
                let mut x = Watch::new(VicP { rx_alloc: limit, keepalive: None, ..VICP }, 1200);
                let mut f = RF;
                for _ in 0..depth {
                    let k = ctx.choose_free(20);
                    match k {
                        0..=14 => {
                            let d = [0u32, 1, 7][k / 5];
                            let (fi, l, len) = [(0u16, 0u16, FRAG), (0, 0, 100), (0, 1, FRAG), (1, 1, 10), (0, 2, FRAG)][k % 5];
                            let cl = if w == 0 || d == 7 { 0 } else { 1 };
                            let b = enc_data(f, true, &[D { seq: (x.v.rp + d) & 0xFFFFF, ch: d as u8 & 1, w, c: cl, f: fi, l, len }]);
                            f = f.wrapping_add(1);
                            x.feed(ctx, &b);
                        }
                        15 => x.v.receive(ctx),
                        16..=18 => {
                            let b = enc_sync(None, Some((x.v.rp + [1, 3, 8][k - 16]) & 0xFFFFF));
                            x.feed(ctx, &b);
                        }
                        _ => {
                            // The acknowledgement tells where the window is
                            x.v.wait(100_000);
                            x.v.round(ctx);
                            x.v.flush(ctx);
                        }
                    }
                    x.check("an operation");
                }
                // Then everything is filled up
                for d in 0..8u32 {
                    let b = enc_data(f, true, &[D { seq: (x.v.rp + d) & 0xFFFFF, w: 1, c: 1, len: FRAG, ..D::one(0) }]);
                    f = f.wrapping_add(1);
                    x.feed(ctx, &b);
                }
                x.v.receive(ctx);
                x.check("reception");
                ctx.state();
            }));
        }
    }
}

/// Claimed fragment counts against limits
fn rx_claims(c: &mut Check, thorough: bool) {
    c.add(Scenario::new("rx-claims", 0, move |ctx| {
        let counts: &[usize] = if thorough { &[1, 2, 3, 4, 5, 7, 8, 63, 64, 65, 128, 1000, 65535, 65536] } else { &[1, 2, 3, 4, 64, 65, 1000, 65535, 65536] };
        let a = ctx.choose_of(counts);
        let limit = match ctx.choose_free(8) {
            0 => a * FRAG,
            1 => (a * FRAG).saturating_sub(1),
            2 => a * FRAG + 1,
            3 => (a - 1) * FRAG + 1,
            4 => ((a - 1) * FRAG).max(1),
            5 => a * FRAG * 2,
            6 => (a + 1) * FRAG - 1,
            _ => a * FRAG + 100,
        };
        // Memory for the marks of every fragment
        let mut x = Watch::new(VicP { rx_alloc: limit, keepalive: None, ..VICP }, 1200 + limit / FRAG / 4);
        let mut f = RF;
        let first_last = ctx.choose_free(2) == 1;
        for k in 0..2u32 {
            let n = if k == 0 { a } else { ctx.choose_of(counts) };
            let i = if first_last { n - 1 } else { 0 };
            let len = if n == 1 || first_last { ctx.choose_of(&[FRAG, 0, 1]) } else { FRAG };
            let b = enc_data(f, true, &[D { f: i as u16, l: (n - 1) as u16, len, w: k as u16, c: k as u16, ..D::one((RP + k) & 0xFFFFF) }]);
            f = f.wrapping_add(1);
            x.feed(ctx, &b);
            if n > 1 {
                let j = if first_last { 0 } else { n - 1 };
                let b = enc_data(f, true, &[D { f: j as u16, l: (n - 1) as u16, len: if j == 0 { FRAG } else { 7 }, w: k as u16, c: k as u16, ..D::one((RP + k) & 0xFFFFF) }]);
                f = f.wrapping_add(1);
                x.feed(ctx, &b);
            }
        }
        for k in 2..8u32 {
            let b = enc_data(f, true, &[D { len: FRAG, w: 1, c: 1, ..D::one((RP + k) & 0xFFFFF) }]);
            f = f.wrapping_add(1);
            x.feed(ctx, &b);
        }
        match ctx.choose_free(3) {
            0 => (),
            1 => x.v.receive(ctx),
            _ => x.feed(ctx, &enc_sync(None, Some((RP + 1) & 0xFFFFF))),
        }
        for k in 0..8u32 {
            let b = enc_data(f, true, &[D { len: FRAG, w: 1, c: 1, ..D::one((RP + k) & 0xFFFFF) }]);
            f = f.wrapping_add(1);
            x.feed(ctx, &b);
        }
        ctx.state();
    }));
}

/// A whole window of equal packets, none of which the receiver may deliver or (alternatively) all of which are being delivered
fn rx_fill(c: &mut Check, thorough: bool) {
    let sizes: &[usize] = if thorough { &[1, 2, 15, 16, 60, 63, 64, 65, 100, 255, 256, 500, 1000, 1447, 1448] } else { &[1, 16, 60, 100, 255, 500, 1447] };
    for limit in [1usize, 1448, 4000, 20_000] {
        c.add(Scenario::new(format!("rx-fill/limit{}", limit), 0, move |ctx| {
            let size = ctx.choose_of(sizes);
            let last = ctx.choose_free(2);
            let missing = ctx.choose_free(2) as u32;
            let rounds = 1 + ctx.choose_free(2) as u32;
            let receive = ctx.choose_free(2) == 1;
            let pw = 4096u32;
            let over = pw as usize * 8 + 512 * 20 + 4096 + limit / FRAG;
            let mut x = Watch::new(VicP { pw, fw: 512, rx_alloc: limit, keepalive: None, ..VICP }, over);
            let per = (1400 / (size + 14)).max(1) as u32;
            let mut f = RF;
            for r in 0..rounds {
                let rp = x.v.rp;
                let mut i = missing;
                while i < pw {
                    let ds: Vec<D> = (i..(i + per).min(pw))
                        .map(|k| {
                            // Every packet waits for the first one, which may never arrive
                            let lead = if k == 0 { 0 } else { k as u16 };
                            // With several fragments, the last of which has few bytes, everything but that one is missing
                            D { seq: (rp + k) & 0xFFFFF, ch: (k % 64) as u8, w: lead, c: 0, f: last as u16, l: last as u16, len: size }
                        })
                        .collect();
                    let b = enc_data(f, false, &ds);
                    f = f.wrapping_add(1);
                    x.feed(ctx, &b);
                    i += per;
                    ctx.heartbeat();
                }
                if receive {
                    x.v.receive(ctx);
                    x.check("reception");
                }
                if r + 1 < rounds {
                    let b = enc_sync(Some(f), Some((rp + pw) & 0xFFFFF));
                    x.feed(ctx, &b);
                    x.v.receive(ctx);
                    x.v.wait(100_000);
                    x.v.round(ctx);
                    x.v.flush(ctx);
                    x.check("a round");
                }
            }
            ctx.note(|| format!("at most {} bytes above the limit, {} allowed", x.max, over));
            ctx.state();
        }));
    }
}

/// Long floods of one kind of frame
fn rx_flood(c: &mut Check, thorough: bool) {
    for (name, pw, fw, frames) in [("small", 64u32, 256u32, if thorough { 6000u32 } else { 1600 }), ("full", 4096, 16384, if thorough { 60_000 } else { 25_000 })] {
        for kind in 0..8usize {
            if !thorough && name == "full" && ![0, 4, 6].contains(&kind) {
                continue;
            }
            c.add(Scenario::new(format!("rx-flood/{}/kind{}", name, kind), 0, move |ctx| {
                let full = pw == 4096;
                let seqs = ctx.choose_free(4);
                let leads = if full && !thorough { 0 } else { ctx.choose_free(3) };
                let stride = if full && !thorough { ctx.choose_of(&[1u32, 32]) } else { ctx.choose_of(&[1u32, 31, 32, 33, 64, 100]) };
                let sync = ctx.choose_free(3);
                let receive = ctx.choose_free(2) == 1;
                let flush = ctx.choose_free(2) == 1;
                let limit = if full { 50_000usize } else { ctx.choose_of(&[1448usize, 100_000]) };
                let over = pw as usize * 8 + fw as usize * 20 + 4096 + limit / FRAG;
                let mut x = Watch::new(VicP { pw, fw, rx_alloc: limit, ..VICP }, over);
                let mut f = RF;
                for i in 0..frames {
                    let seq = match seqs {
                        0 => RP + i,
                        1 => x.v.rp,
                        2 => x.v.rp + i * 7 % pw,
                        _ => RP + i * 12345,
                    } & 0xFFFFF;
                    let (w, cl) = match leads {
                        0 => (0u16, 0u16),
                        1 => (1, 1),
                        _ => (1, 40_000),
                    };
                    let d = D { seq, ch: (i % 64) as u8, w, c: cl, f: 0, l: 0, len: 0 };
                    let ds: Vec<D> = match kind {
                        0 => vec![],
                        1 => vec![D { len: 1, ..d }],
                        2 => vec![D { len: FRAG, ..d }],
                        3 => vec![D { l: 1, len: FRAG, ..d }],
                        4 => vec![D { f: 1, l: 1, len: 0, ..d }],
                        5 => vec![D { f: (i % 5) as u16, l: 65535, len: FRAG, ..d }],
                        6 => (0..20).map(|k| D { seq: (seq + k) & 0xFFFFF, len: 10, ..d }).collect(),
                        _ => (0..30).map(|k| D { seq: (seq + k * 3) & 0xFFFFF, ch: k as u8, ..d }).collect(),
                    };
                    let b = enc_data(f, i & 1 == 1, &ds);
                    f = f.wrapping_add(stride);
                    x.feed(ctx, &b);
                    if sync > 0 && i % 16 == 15 {
                        let s = [Some((seq + 1) & 0xFFFFF), Some((x.v.rp + pw) & 0xFFFFF)][sync - 1];
                        x.feed(ctx, &enc_sync(if sync == 1 { Some(f) } else { None }, s));
                    }
                    if i % 64 == 63 {
                        x.v.wait(20_000);
                        x.v.step();
                        if receive {
                            x.v.receive(ctx);
                        }
                        if flush {
                            x.v.flush(ctx);
                        }
                        x.check("a round");
                        ctx.heartbeat();
                    }
                }
                ctx.note(|| format!("at most {} bytes above the limit, {} allowed", x.max, over));
                ctx.state();
            }));
        }
    }
}

fn ec(alloc: usize, size: usize) -> EndpointConfig {
    let mut e = EndpointConfig::default();
    e.max_packet_size = size;
    e.max_receive_alloc = alloc;
    e
}

/// Endpoints flooded by a raw peer
fn net_flood(c: &mut Check, thorough: bool) {
    for target in ["server", "client"] {
        c.add(Scenario::new(format!("net-flood/{}", target), 0, move |ctx| {
            let b0 = alloc::lib_live();
            let state = ctx.choose_free(3);
            let kind = ctx.choose_free(7);
            let stride = ctx.choose_of(&[1u32, 32, 40]);
            let limit = ctx.choose_of(&[10_000usize, 6_000_000]);
            let slow = ctx.choose_free(2) == 1;
            let mut n = Net::new(scfg(4, 4, true, ec(limit, 1000)), Mon::default());
            n.tick_us = if slow { 100_000 } else { 1000 };
            let x = addr(XPORT);
            let (src, dst, on, pn) = if target == "server" {
                let pn = 0xFFFF_FFFEu32;
                n.inject(x, saddr(), enc_syn(3, pn, 1_000_000, 1000, 100_000), 0);
                n.do_tick(ctx);
                let sn = n.sp[&x].nonce.unwrap();
                n.inject(x, saddr(), enc_hack(sn), 0);
                n.do_tick(ctx);
                (x, saddr(), sn, pn)
            } else {
                let pn = 0xFFFF_FFFEu32;
                n.lose = [9999; 3];
                let i = n.connect(ctx, ec(limit, 1000));
                let a = n.peers[i].addr;
                n.do_tick(ctx);
                let cn = n.peers[i].nonce.unwrap();
                n.inject(saddr(), a, enc_synack(cn, pn, 1_000_000, 1000, 100_000), 0);
                n.do_tick(ctx);
                (saddr(), a, cn, pn)
            };
            if state > 0 {
                // Closing, or closed
                if target == "server" { n.sdisc(ctx, x, false) } else { n.cdisc(ctx, 0, false) }
                n.do_tick(ctx);
                if state == 2 {
                    n.inject(src, dst, seal_one(5), 0);
                    n.do_tick(ctx);
                }
            }
            let base = alloc::lib_live();
            let frames = if thorough { 40_000u32 } else { 12_000 };
            let fr = frames / if slow && !thorough { 4 } else { 1 };
            let mut f = pn;
            for i in 0..fr {
                let seq = pn.wrapping_add(i) & 0xFFFFF;
                let d = D { ch: (i % 64) as u8, ..D::one(seq) };
                let b = match kind {
                    0 => enc_data(f, true, &[]),
                    1 => enc_data(f, true, &[D { f: 0, l: 3, len: FRAG, ..d }]),
                    2 => enc_data(f, true, &[D { len: 900, w: 1, c: 1, seq: pn.wrapping_add(1 + i % 4000) & 0xFFFFF, ..d }]),
                    3 => enc_ack(on.wrapping_add(i), on & 0xFFFFF, &(0..100).map(|k| (on.wrapping_add(k), 1, k & 1 == 0)).collect::<Vec<_>>()),
                    4 => enc_sync(Some(f), Some(seq)),
                    5 => enc_syn(3, pn.wrapping_add(i % 3), 1_000_000, 1000, 100_000),
                    _ => [enc_hack(on), seal_one(5), enc_synack(on, pn, 1_000_000, 1000, 100_000), vec![0; 1472]][i as usize % 4].clone(),
                };
                f = f.wrapping_add(stride);
                n.inject(src, dst, b, 0);
                if i % 50 == 49 {
                    n.do_tick(ctx);
                    n.txlog.clear();
                    n.forget_strays();
                    let held = alloc::lib_live() - base;
                    let lim = (ceil_frag(limit) + 450_000) as isize;
                    ensure!(held <= lim, "flooded {}: {} bytes held, max_receive_alloc {} and bookkeeping {}", target, held, limit, 450_000);
                    ctx.heartbeat();
                }
            }
            let held = alloc::lib_live() - base;
            ctx.note(|| format!("held in the end: {}; before {}", held, base - b0));
            ctx.state();
        }));
    }
    // Connection requests from ever new addresses: what is held is bounded by the limits
    c.add(Scenario::new("net-syns", 0, move |ctx| {
        let total = ctx.choose_of(&[1usize, 4, 32]);
        let kind = ctx.choose_free(3);
        let b0 = alloc::lib_live();
        let mut n = Net::new(scfg(total, total, ctx.choose_free(2) == 1, ec(10_000, 1000)), Mon::default());
        for i in 0..if thorough { 20_000u32 } else { 5000 } {
            let x = std::net::SocketAddr::from(([10, 1, (i >> 8) as u8, i as u8], 1000));
            let b = match kind {
                0 => enc_syn(3, i, 1_000_000, 1000, 100_000),
                1 => enc_syn(9, i, 1_000_000, 1000, 100_000),
                _ => [enc_syn(3, i, 1000, 0, 0), enc_hack(i), enc_data(i, true, &[]), seal_one(4)][i as usize % 4].clone(),
            };
            n.inject(x, saddr(), b, 0);
            if i % 50 == 49 {
                n.do_tick(ctx);
                n.txlog.clear();
                n.forget_strays();
                n.sp.clear();
                let held = alloc::lib_live() - b0;
                ctx.note(|| format!("{} held {}", i, held));
                ensure!(held <= 40_000 + total as isize * 4_000, "{} bytes held for {} tracked connections", held, total);
                ctx.heartbeat();
            }
        }
        ctx.state();
    }));
}

pub fn seal_one(t: u8) -> Vec<u8> {
    super::codec::seal(&[t])
}

/// The sending half: what is outstanding never exceeds what the peer accepts, and nothing is discarded
fn tx(c: &mut Check, thorough: bool) {
    let m = Monitors { window: true, order: true, reliable: true, ..Default::default() };
    for alloc in [1448usize, 1449, 2896, 3000, 6000] {
        for (pw, fw) in [(8u32, 16u32), (2, 8), (4096, 4096)] {
            c.add(Scenario::new(format!("tx/alloc{}/w{}", alloc, pw), if thorough { 4 } else { 3 }, move |ctx| {
                let modes: &[SendMode] = ctx.choose_of(&[&[Reliable][..], &[Unreliable, Reliable, Persistent], &[TimeSensitive, Unreliable]]);
                let sizes: &[usize] = ctx.choose_of(&[&[1448usize][..], &[1449, 700, 20], &[3000, 1448, 2]]);
                let script: Vec<Send> = (0..16u32).map(|i| send(i / 3, 0, sizes[i as usize % sizes.len()].min(ceil_frag(alloc)), (i % 2) as u8, modes[i as usize % modes.len()])).collect();
                let p = P { pw, fw, lat: 1, alloc: [1_000_000, alloc], base_pkt: [PMASK - 2, 5], base_frame: [u32::MAX - 2, 9], script,
                    branch: if thorough { 22 } else { 16 }, fates: vec![Fate::Deliver, Fate::Drop, Fate::Delay(4), Fate::Dup], ..P::default() };
                let mut w = World::new(p, m);
                w.run_to_quiescence(ctx, 400_000);
            }));
            // Nothing is lost: nothing may be discarded
            c.add(Scenario::new(format!("tx-ideal/alloc{}/w{}", alloc, pw), 0, move |ctx| {
                let modes: &[SendMode] = ctx.choose_of(&[&[Reliable][..], &[Unreliable], &[Unreliable, Reliable, Persistent], &[Persistent, TimeSensitive, Unreliable]]);
                let sizes: &[usize] = ctx.choose_of(&[&[1448usize][..], &[1449, 700, 20], &[3000, 1448, 2], &[1, 2], &[1400, 100]]);
                let lat = ctx.choose_of(&[0u32, 1, 5]);
                let reads = ctx.choose_of(&[1u32, 7, 40]);
                let n = 120u32;
                let (bp, bf) = ([PMASK - 2, 5], [u32::MAX - 2, 9]);
                let p = P { pw, fw, lat, alloc: [1_000_000, alloc], base_pkt: bp, base_frame: bf, fifo: true, ..P::default() };
                let mut w = World::new(p, m);
                for i in 0..n as usize {
                    let s = sizes[i % sizes.len()].min(ceil_frag(alloc)).max(2);
                    w.submit(ctx, 0, s, (i % 3) as u8, modes[i % modes.len()]);
                }
                let t0 = w.now_us;
                loop {
                    for e in 0..2 {
                        w.flush(ctx, e);
                        w.arrivals(ctx, e);
                        w.step_hc(e);
                        if e == 0 || w.tick % reads == 0 {
                            w.receive(ctx, e);
                        }
                    }
                    w.tick += 1;
                    w.advance(20_000);
                    if w.quiescent() {
                        break;
                    }
                    ensure!(w.now_us - t0 < 3_000_000_000, "not finished after 3000 s: {}", w.describe());
                }
                for _ in 0..reads + lat + 2 {
                    w.do_tick(ctx);
                }
                for p in w.ep[0].pkts.iter() {
                    ensure!(p.delivered == 1 || (p.mode == TimeSensitive && !p.begun()), "{:?} packet #{} of {} bytes was discarded", p.mode, p.uid, p.size);
                }
                ctx.state();
            }));
        }
    }
    // Large packets which just fit, one after the other; any one frame may be lost, and the unreliable
    // packets which this cuts short make room again
    for frags in [2usize, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 200] {
        if !thorough && [31, 63, 66, 127, 128, 200].contains(&frags) {
            continue;
        }
        c.add(Scenario::new(format!("tx-large/{}", frags), 1, move |ctx| {
            let mode = ctx.choose_of(&[Unreliable, Reliable, Persistent]);
            let short = ctx.choose_of(if thorough { &[0usize, 1, FRAG - 1][..] } else { &[0, FRAG - 1] });
            let size = frags * FRAG - short;
            let p = P { pw: 64, fw: 4096, lat: 1, base_pkt: [PMASK - 2, 5], base_frame: [u32::MAX - 40, 9], alloc: [1_000_000, frags * FRAG], fifo: true, ..P::default() };
            let mut w = World::new(p, m);
            let finish = |w: &mut World, ctx: &mut Ctx| {
                let t0 = w.now_us;
                while !w.quiescent() {
                    w.do_tick(ctx);
                    ensure!(w.now_us - t0 < 3_000_000_000, "not finished after 3000 s: {}", w.describe());
                }
                for _ in 0..4 {
                    w.do_tick(ctx);
                }
            };
            // The link warms up
            for i in 0..60 {
                w.submit(ctx, 0, 1000 + i, 0, Unreliable);
            }
            finish(&mut w, ctx);
            w.p.fates = vec![Fate::Deliver, Fate::Drop];
            w.p.branch = w.frames_total + 3 * frags as u32 + 8;
            let k = w.ep[0].pkts.len();
            for i in 0..3 {
                w.submit(ctx, 0, size, (i % 2) as u8, mode);
            }
            finish(&mut w, ctx);
            w.p.branch = 0;
            let lost = w.ep[0].pkts[k..].iter().filter(|p| p.delivered == 0).count();
            ensure!(lost <= 1, "{} packets of {} fragments are missing after the loss of one frame", lost, frags);
            let k = w.ep[0].pkts.len();
            for i in 0..3 {
                w.submit(ctx, 0, size, (i % 2) as u8, Unreliable);
            }
            finish(&mut w, ctx);
            for p in w.ep[0].pkts[k..].iter() {
                ensure!(p.delivered == 1, "packet #{} of {} fragments, which just fits, was discarded", p.uid, frags);
            }
            ctx.state();
        }));
    }
    // The packet window
    for pw in [1u32, 4, 64, 4096] {
        c.add(Scenario::new(format!("tx-window/{}", pw), 0, move |ctx| {
            let mode = ctx.choose_of(&[Unreliable, Reliable, Persistent]);
            let hold = ctx.choose_of(&[3u32, 30]);
            let near = ctx.choose_free(2) == 1;
            let p = P { pw, fw: 4096, lat: 1, base_pkt: if near { [PMASK - 9, 5] } else { [0, 5] }, alloc: [1_000_000, 10_000_000], ..P::default() };
            let mut w = World::new(p, m);
            let n = pw as usize * 2 + 100;
            // Acknowledged traffic first
            for i in 0..300 {
                w.submit(ctx, 0, 1000, (i % 2) as u8, Unreliable);
            }
            let t0 = w.now_us;
            while !w.quiescent() {
                w.do_tick(ctx);
                ensure!(w.now_us - t0 < 3_000_000_000, "not finished after 3000 s: {}", w.describe());
            }
            for i in 0..n {
                w.submit(ctx, 0, 2, (i % 2) as u8, mode);
            }
            // The receiving application does not read for a while
            for _ in 0..hold {
                for e in 0..2 {
                    w.flush(ctx, e);
                    w.arrivals(ctx, e);
                    w.step_hc(e);
                }
                w.receive(ctx, 0);
                w.advance(100_000);
            }
            let out = w.ep[0].pkts.iter().filter(|p| p.begun() && !p.passed).count();
            ctx.observe(out as u64);
            ctx.note(|| format!("{} packets outstanding", out));
            let t0 = w.now_us;
            while !w.quiescent() {
                w.do_tick(ctx);
                ensure!(w.now_us - t0 < 3_000_000_000, "not finished after 3000 s: {}", w.describe());
            }
            for _ in 0..4 {
                w.do_tick(ctx);
            }
            for p in w.ep[0].pkts.iter() {
                ensure!(p.delivered == 1, "{:?} packet #{} of {} bytes was discarded", p.mode, p.uid, p.size);
            }
            ctx.state();
        }));
    }
}

pub fn c06(thorough: bool) -> Check {
    let mut c = Check::new(if thorough { 840 } else { 300 }, format!(
        "Receiver: every sequence of {} of 20 operations (datagrams at 3 window positions x 5 shapes, reads, window moves by sync, rounds) for 5 receive limits x leads, then filling up; all pairs of claimed fragment counts 1..65536 against 8 limits at each boundary; floods of {} frames of 8 shapes x packet id pattern x leads x frame id stride x sync, read and flush cadence x limits, with small and with full windows; whole windows of equal packets of 1 to 1447 bytes, alone or as last fragments, delivered or held back, at 4 limits; endpoints in active, closing and closed state flooded by a raw peer with 7 kinds of frames; connection requests from thousands of addresses. Heap use of the library is measured after every frame by a counting allocator. Sender: 5 peer limits x 3 windows x 3 mode mixes x 3 size mixes with up to {} faults among the first {} frames; loss-free transfers x read cadence x latency: nothing discarded; packet windows 1, 4, 64, 4096 with a receiver which does not read; limits negotiated by real endpoints; packets of 2 to 129 fragments which just fit the peer's limit, any one frame lost.",
        if thorough { 5 } else { 4 }, if thorough { "6000 / 60000" } else { "1600 / 25000" }, if thorough { 4 } else { 3 }, if thorough { 22 } else { 16 }));
    c.assumptions = vec!["bookkeeping which is bounded by the window sizes (acknowledgement groups, marks of received fragments) is allowed on top of max_receive_alloc: under one fragment in the exhaustive small scenario"];
    rx_small(&mut c, thorough);
    rx_claims(&mut c, thorough);
    rx_fill(&mut c, thorough);
    rx_flood(&mut c, thorough);
    net_flood(&mut c, thorough);
    tx(&mut c, thorough);
    super::app::c06(&mut c, thorough, false);
    c
}

// C19 ----------------------------------------------------------------------------------------------

struct Books(isize, isize);

impl Books {
    fn open() -> Books {
        net::reset();
        Books(alloc::lib_live(), alloc::lib_blocks())
    }

    fn close(&self, what: &str) {
        net::reset();
        let (bytes, blocks) = (alloc::lib_live() - self.0, alloc::lib_blocks() - self.1);
        if alloc::error() != HeapError::None {
            crate::explore::fail(format!("{}: {:?}", what, alloc::error()));
        }
        ensure!(blocks == 0 && bytes == 0, "{}: {} blocks with {} bytes were not returned", what, blocks, bytes);
    }

    fn sound(&self) {
        if alloc::error() != HeapError::None {
            crate::explore::fail(format!("{:?}", alloc::error()));
        }
    }
}

fn poisoned(mut s: Scenario) -> Scenario {
    s.poison = true;
    s
}

/// Transfers between half connections which are dropped at every moment
fn c19_world(c: &mut Check, thorough: bool) {
    let scripts: Vec<(&'static str, Vec<Send>)> = vec![
        ("frag", vec![send(0, 0, 3000, 0, Reliable), send(0, 0, 1448, 0, Unreliable), send(1, 0, 2896, 1, Persistent), send(1, 0, 1449, 0, TimeSensitive), send(2, 0, 4345, 1, Reliable), send(3, 0, 0, 0, Unreliable), send(4, 0, 5000, 2, Unreliable)]),
        ("both", vec![send(0, 0, 2000, 0, Reliable), send(0, 1, 1500, 0, Unreliable), send(1, 0, 100, 1, TimeSensitive), send(1, 1, 4000, 1, Persistent), send(2, 0, 2897, 0, Persistent), send(3, 1, 1448, 0, Reliable)]),
        ("many", (0..14u32).map(|i| send(i / 3, 0, [40, 1600, 700, 2900][i as usize % 4] + i as usize, (i % 3) as u8, MODES[i as usize % 4])).collect()),
    ];
    let m = Monitors { order: true, size: true, ..Default::default() };
    for (name, script) in scripts {
        for (pw, alloc) in [(8u32, 6000usize), (4, 1_000_000)] {
            let script = script.clone();
            c.add(poisoned(Scenario::new(format!("transfer/{}/w{}", name, pw), if thorough { 3 } else { 2 }, move |ctx| {
                let b = Books::open();
                let order = ctx.choose_free(2);
                let until = ctx.choose_free(if thorough { 26 } else { 18 }) as u32;
                let p = P { pw, fw: 8, lat: 1, alloc: [alloc; 2], base_pkt: [PMASK - 2, 5], base_frame: [u32::MAX - 2, 9], script: script.clone(),
                    branch: if thorough { 24 } else { 14 }, fates: vec![Fate::Deliver, Fate::Drop, Fate::DupDelay(3), Fate::Delay(6)], ..P::default() };
                let mut w = World::new(p, m);
                // The last choice lets it run to its end
                if until >= if thorough { 25 } else { 17 } {
                    w.run(ctx, 400_000);
                } else {
                    for t in 0..until {
                        // Dropped within a tick, too
                        if t + 1 == until && t % 2 == 1 {
                            w.flush(ctx, 0);
                            w.arrivals(ctx, 1);
                            break;
                        }
                        w.do_tick(ctx);
                    }
                }
                for e in if order == 0 { [0, 1] } else { [1, 0] } {
                    let hc = w.ep[e].hc.take();
                    lib(|| drop(hc));
                    b.sound();
                }
                drop(w);
                b.close("two half connections dropped");
            })));
        }
    }
    // Every size around multiples of the fragment size
    c.add(poisoned(Scenario::new("sizes", 0, move |ctx| {
        let n = ctx.choose_free(if thorough { 70 } else { 9 }) as usize;
        let d = ctx.choose_of(&[0usize, 1, 2, 3, 700, 1446, 1447]);
        let mode = ctx.choose_of(&MODES);
        let alloc = ctx.choose_of(&[1_000_000usize, 150_000]);
        let b = Books::open();
        let script = vec![send(0, 0, n * FRAG + d, 0, mode), send(0, 0, 1700 + d, 1, Reliable), send(1, 1, n * FRAG + d, 0, mode)];
        let p = P { alloc: [alloc; 2], script, ..P::default() };
        let mut w = World::new(p, m);
        w.run(ctx, 400_000);
        b.sound();
        for e in 0..2 {
            let hc = w.ep[e].hc.take();
            lib(|| drop(hc));
        }
        drop(w);
        b.close("two half connections dropped");
    })));
}

/// Hostile input, then teardown
fn c19_hostile(c: &mut Check, thorough: bool) {
    for s in 0..STATES {
        c.add(poisoned(Scenario::new(format!("hostile/{}", s), 0, move |ctx| {
            let b = Books::open();
            let mut v = situation(ctx, VICP, s);
            let depth = if thorough { 3 } else { 2 };
            for d in 0..depth {
                let m = menu(&v, d < 2);
                let x = ctx.choose_free(m.len() + 1);
                if x == m.len() {
                    break;
                }
                v.feed(ctx, &m[x]);
                if d == 0 || !thorough {
                    match ctx.choose_free(3) {
                        0 => (),
                        1 => v.round(ctx),
                        _ => {
                            v.wait(3_000_000);
                            v.receive(ctx);
                            v.step();
                            v.flush(ctx);
                        }
                    }
                }
                b.sound();
            }
            lib(|| drop(v));
            b.close("half connection dropped");
        })));
    }
    // Every sequence of datagrams of a few packets: partial, complete, overlapping, passed by the window
    let depth = if thorough { 5 } else { 4 };
    for (w, limit) in [(0u16, 6000usize), (1, 6000), (1, 2000)] {
        c.add(poisoned(Scenario::new(format!("assembly/lead{}/limit{}", w, limit), 0, move |ctx| {
            let b = Books::open();
            let mut v = Vic::new(VicP { rx_alloc: limit, ..VICP });
            let mut f = RF;
            for _ in 0..depth {
                let k = ctx.choose_free(18);
                match k {
                    0..=13 => {
                        let d = (k / 7) as u32;
                        let (fi, l, len) = [(0u16, 0u16, 5usize), (0, 1, FRAG), (1, 1, FRAG), (1, 1, 0), (0, 2, FRAG), (2, 2, 9), (1, 2, FRAG)][k % 7];
                        let c = if w == 0 { 0 } else { 1 };
                        v.feed(ctx, &enc_data(f, true, &[D { seq: (v.rp + d) & 0xFFFFF, ch: 0, w, c, f: fi, l, len }]));
                        f = f.wrapping_add(1);
                    }
                    14 => v.receive(ctx),
                    15 | 16 => v.feed(ctx, &enc_sync(None, Some((v.rp + [1, 8][k - 15]) & 0xFFFFF))),
                    _ => {
                        v.wait(100_000);
                        v.round(ctx);
                        v.flush(ctx);
                    }
                }
                b.sound();
            }
            lib(|| drop(v));
            b.close("half connection dropped");
        })));
    }
}

/// Endpoints dropped in every state
fn c19_net(c: &mut Check, thorough: bool) {
    let states = 10usize;
    for s in 0..states {
        c.add(poisoned(Scenario::new(format!("endpoints/{}", s), 0, move |ctx| {
            let books = Books::open();
            let mut n = Net::new(scfg(if s == 8 { 1 } else { 8 }, 8, true, ec(1_000_000, 100_000)), Mon { order: true, ..Mon::default() });
            let b = n.connect(ctx, ec(1_000_000, 100_000));
            if s == 9 {
                n.csend(ctx, b, 5000, 0, Reliable);
            }
            for _ in 0..if s == 9 { 0 } else { 6 } {
                n.do_tick(ctx);
            }
            let a = n.connect(ctx, if s == 7 { ec(100, 100_000) } else { ec(1_000_000, 100_000) });
            let addr_a = n.peers[a].addr;
            // Sent before the connection is established
            n.csend(ctx, a, 3000, 0, Reliable);
            match s {
                0 => n.lose = [99, 99, 99],
                1 => n.lose = [0, 99, 99],
                2 => n.lose = [0, 0, 99],
                _ => (),
            }
            for _ in 0..if s == 9 { 1 } else { 5 } {
                n.do_tick(ctx);
            }
            // An application may keep hold of a connection
            let held = n.server.as_ref().unwrap().client(&addr_a).cloned();
            if (3..7).contains(&s) {
                for k in 0..6 {
                    n.csend(ctx, a, 3000 + k as usize, k % 3, MODES[k as usize % 4]);
                    n.ssend(ctx, addr_a, 3100 + k as usize, k % 3, MODES[k as usize % 4]);
                }
                n.do_tick(ctx);
                n.do_tick(ctx);
            }
            match s {
                4 => {
                    n.cdisc(ctx, a, false);
                    n.sdisc(ctx, addr_a, false);
                }
                5 => n.cdisc(ctx, a, true),
                6 => n.sdrop(ctx, addr_a),
                _ => (),
            }
            let extra = ctx.choose_of(&[0u32, 1, 2, 3, 4, 5, 9]);
            for _ in 0..extra {
                n.do_tick(ctx);
            }
            // A hostile datagram
            let (cn, sn) = (n.peers[a].nonce.unwrap_or(1), n.sp.get(&addr_a).and_then(|x| x.nonce).unwrap_or(5));
            if ctx.choose_free(2) == 1 {
                n.m.order = false;
                let to_server = ctx.choose_free(2) == 0;
                let m = if to_server { barrage(sn, cn) } else { barrage(cn, sn) };
                let k = ctx.choose_free(m.len());
                if to_server {
                    n.inject(addr_a, saddr(), m[k].clone(), 0);
                } else {
                    n.inject(saddr(), addr_a, m[k].clone(), 0);
                }
                n.do_tick(ctx);
                n.do_tick(ctx);
            }
            books.sound();
            let late = ctx.choose_of(&[0u64, 3_000, 60_000]);
            if late > 0 {
                n.tick_us = 500_000;
                n.run_ms(ctx, late);
            }
            // Events not taken, a handle used after its connection has gone
            let order = ctx.choose_free(if thorough { 4 } else { 3 });
            let (mut sv, mut cl): (Option<uflow::server::Server>, Vec<_>) = (n.server.take(), n.peers.iter_mut().map(|p| p.client.take()).collect());
            if order == 3 {
                if let Some(s) = sv.as_mut() {
                    lib(|| drop(s.step()));
                }
                for c in cl.iter_mut().flatten() {
                    lib(|| drop(c.step()));
                }
            }
            match order {
                0 => {
                    lib(|| drop(sv.take()));
                    lib(|| drop(cl));
                    lib(|| drop(held));
                }
                1 => {
                    lib(|| drop(held));
                    lib(|| drop(cl));
                    lib(|| drop(sv.take()));
                }
                _ => {
                    lib(|| drop(sv.take()));
                    if let Some(h) = held.as_ref() {
                        let d = payload(9, 0, 5000);
                        lib(|| h.borrow_mut().send(d[..].into(), 0, Reliable));
                        lib(|| h.borrow_mut().disconnect());
                        let _ = h.borrow().send_buffer_size();
                    }
                    lib(|| drop(held));
                    lib(|| drop(cl));
                }
            }
            drop(n);
            books.close("endpoints dropped");
        })));
    }
    // Many connections coming and going: what has ended is returned while the server lives on
    c.add(poisoned(Scenario::new("churn", 0, move |ctx| {
        let books = Books::open();
        let how = ctx.choose_free(5);
        let size = ctx.choose_of(&[100usize, 1449, 6000]);
        let mut n = Net::new(scfg(8, 8, true, ec(1_000_000, 100_000)), Mon { order: true, ..Mon::default() });
        let mut after = vec![];
        for round in 0..6 {
            let i = n.connect(ctx, ec(1_000_000, 100_000));
            let a = n.peers[i].addr;
            n.csend(ctx, i, size, 0, Reliable);
            n.tick_us = 20_000;
            for k in 0..12 {
                n.do_tick(ctx);
                if k == 6 {
                    n.ssend(ctx, a, size, 1, Persistent);
                    n.csend(ctx, i, size, 2, Reliable);
                }
            }
            match how {
                0 => n.cdisc(ctx, i, false),
                1 => n.sdisc(ctx, a, false),
                2 => n.cdisc(ctx, i, true),
                3 => n.sdrop(ctx, a),
                _ => n.kill(ctx, i),
            }
            n.tick_us = 200_000;
            n.run_ms(ctx, 70_000);
            n.kill(ctx, i);
            n.txlog = vec![];
            after.push(alloc::lib_live());
            let _ = round;
        }
        // The second and the last round differ by nothing but reused table space
        ensure!(after[5] <= after[1] + 3_000, "after each of 6 ended connections, {:?} bytes are held", after);
        let sv = n.server.take();
        lib(|| drop(sv));
        drop(n);
        books.close("endpoints dropped");
    })));
}

pub fn c19(thorough: bool) -> Check {
    let mut c = Check::new(if thorough { 840 } else { 300 }, format!(
        "Every block is checked for size and alignment at release, for double release and overrun; freed blocks are overwritten and quarantined, packet contents are compared. Teardown: transfers of 3 histories x 2 windows with up to {} faults among the first {} frames, dropped after every tick (also within ticks, in both orders); all sizes n x 1448 + d for n < {}, 7 values of d, 4 modes; 12 situations x every sequence of up to {} frames of the hostile menu x reactions; every sequence of {} of 18 datagrams and window operations; endpoints in 10 states x elapsed ticks x every hostile datagram of a menu of 75 x waiting x drop order, handles kept beyond the server's life; connections coming and going 5 ways.",
        if thorough { 3 } else { 2 }, if thorough { 24 } else { 14 }, if thorough { 70 } else { 9 }, if thorough { 3 } else { 2 }, if thorough { 5 } else { 4 }));
    c.assumptions = vec!["the socket stand-in's buffers are discarded before the books are closed"];
    c19_world(&mut c, thorough);
    c19_hostile(&mut c, thorough);
    c19_net(&mut c, thorough);
    c
}
