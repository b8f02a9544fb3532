//! C01, C02, C05, C20: connections which go through the whole space of packet ids, with channels used at any distance.
use super::Check;
use crate::alloc::{harness, lib};
use crate::ensure;
use crate::explore::Scenario;
use crate::hc::PMASK;
use std::collections::VecDeque;
use std::time::Duration;
use uflow::verif::frame::*;
use uflow::verif::{Config, FrameSink, HalfConnection, PacketSink};
use uflow::SendMode::{self, *};

struct Out(Vec<Vec<u8>>);
impl FrameSink for Out {
    fn send(&mut self, d: &[u8]) {
        harness(|| self.0.push(d.to_vec()))
    }
}

struct In(Vec<u32>, bool);
impl PacketSink for In {
    fn send(&mut self, d: Box<[u8]>) {
        self.1 |= d.len() != 4;
        if d.len() == 4 {
            self.0.push(u32::from_le_bytes([d[0], d[1], d[2], d[3]]));
        }
    }
}

const CYCLE: u32 = 1 << 20;

/// The channel and mode of the packet number `i`: now and then one at an odd distance from its channel's previous one
fn shape(i: u32, bulk: SendMode, rare: SendMode) -> (u8, SendMode) {
    let near = |x: u32, d: u32| i >= x - d.min(x) && i <= x + d;
    if [CYCLE, CYCLE / 2, 4096, 8192, 65_536, 70_000].iter().any(|x| near(*x, 2)) {
        return (1, rare);
    }
    match i {
        0 | 40_000 => (7, rare),
        _ if i == CYCLE + 40_000 || i == CYCLE - 1 + 500 => (7, rare),
        1 | 1_048_577 => (9, Unreliable),
        2 | 1_048_578 => (31, Reliable),
        3 | 524_291 | 1_048_579 => (32, Reliable),
        4 | 4101 | 8198 | 69_732 => (63, rare),
        5 | 1_048_580 => (62, Persistent),
        _ if i % 4097 == 77 => (11, rare),
        _ if i % 65_537 == 99 => (12, rare),
        _ => (0, if i % 5 == 3 { rare } else { bulk }),
    }
}

pub fn add(c: &mut Check, thorough: bool, all: bool) {
    let kinds: &[(SendMode, SendMode)] = &[(Unreliable, Reliable), (Reliable, Reliable), (Persistent, Unreliable), (Unreliable, Unreliable), (Reliable, Persistent)];
    for (bulk, rare) in kinds.iter().copied() {
        for lose in [0u32, 37, 6] {
            // `all`: nothing is lost, and everything has to arrive in the order of submission
            if all && lose > 0 {
                continue;
            }
            for base in [0u32, 777] {
                c.add(Scenario::new(format!("cycle/{:?}/{:?}/lose{}/base{}", bulk, rare, lose, base), 0, move |ctx| {
                    let total = if thorough { 2 * CYCLE + 50_000 } else { CYCLE + 50_000 };
                    let mk = |t: u32, r: u32| {
                        let cfg = Config {
                            tx_frame_base_id: t, rx_frame_base_id: r, tx_frame_window_size: 8192, rx_frame_window_size: 8192,
                            tx_packet_base_id: t & PMASK, rx_packet_base_id: r & PMASK, tx_packet_window_size: 4096, rx_packet_window_size: 4096,
                            tx_bandwidth_limit: u32::MAX, tx_alloc_limit: 1 << 24, rx_alloc_limit: 1 << 24, keepalive_interval_ms: None,
                        };
                        lib(|| HalfConnection::new(cfg))
                    };
                    let (x, y) = (base.wrapping_sub(333), 5u32);
                    let mut ep = [mk(x, y), mk(y, x)];
                    let mut now = 1_000_000_000u64;
                    let mut net: [VecDeque<(u64, Vec<u8>)>; 2] = Default::default();
                    let (mut sent, mut frames) = (0u32, 0u32);
                    let mut done = vec![false; total as usize];
                    let mut last: Vec<Option<u32>> = vec![None; 64];
                    let mut rel: Vec<VecDeque<u32>> = vec![VecDeque::new(); 64];
                    let mut highest = None;
                    let mut held = 0usize;
                    let mut count = 0u32;
                    let mut late = 0u64;
                    // Copies of early frames, which turn up when their packet ids are in use again
                    let mut old: Vec<(u32, Vec<u8>)> = vec![];
                    loop {
                        now += 10_000;
                        uflow::verif::time::set(Duration::from_micros(now));
                        ctx.heartbeat();
                        for e in 0..2 {
                            while net[e].front().map_or(false, |f| f.0 <= now) {
                                let b = net[e].pop_front().unwrap().1;
                                ctx.step();
                                lib(|| match Frame::read(&b) {
                                    Some(Frame::DataFrame(f)) => ep[e].handle_data_frame(f),
                                    Some(Frame::SyncFrame(f)) => ep[e].handle_sync_frame(f),
                                    Some(Frame::AckFrame(f)) => ep[e].handle_ack_frame(f),
                                    _ => (),
                                });
                            }
                            lib(|| ep[e].step());
                            if e == 0 {
                                while sent < total && held < 30_000 {
                                    let (ch, mode) = shape(sent, bulk, rare);
                                    lib(|| ep[0].send(Box::new(sent.to_le_bytes()), ch, mode));
                                    if mode == Reliable {
                                        rel[ch as usize].push_back(sent);
                                    }
                                    sent += 1;
                                    held = lib(|| ep[0].send_buffer_size());
                                }
                                held = lib(|| ep[0].send_buffer_size());
                                ensure!(held % 4 == 0 && held / 4 <= sent as usize, "send_buffer_size() is {} after {} packets of 4 bytes", held, sent);
                            } else {
                                let mut g = In(vec![], false);
                                lib(|| ep[1].receive(&mut g));
                                ensure!(!g.1, "a packet was delivered with altered contents");
                                for i in g.0 {
                                    ensure!(i < sent && !done[i as usize], "packet #{} was delivered {}", i, if i < sent { "twice" } else { "but never submitted" });
                                    done[i as usize] = true;
                                    count += 1;
                                    let (ch, mode) = shape(i, bulk, rare);
                                    let ch = ch as usize;
                                    ensure!(last[ch].map_or(true, |l| l < i), "channel {}: packet #{} delivered after packet #{:?}", ch, i, last[ch]);
                                    last[ch] = Some(i);
                                    if let Some(r) = rel[ch].front() {
                                        ensure!(*r >= i, "channel {}: packet #{} delivered before Reliable packet #{}", ch, i, r);
                                    }
                                    if mode == Reliable {
                                        rel[ch].pop_front();
                                    }
                                    if all {
                                        ensure!(highest.map_or(true, |h| h < i), "packet #{} delivered after packet #{:?} on an ideal network", i, highest);
                                        highest = Some(i);
                                    }
                                }
                            }
                            let mut o = Out(vec![]);
                            lib(|| ep[e].flush(&mut o));
                            for b in o.0 {
                                if e == 0 {
                                    frames += 1;
                                    if !all {
                                        if let Some(Frame::DataFrame(f)) = lib(|| Frame::read(&b)) {
                                            let ids = || f.datagrams.iter().map(|d| d.sequence_id.wrapping_sub(x) & PMASK);
                                            if sent < 30_000 {
                                                old.extend(ids().next().map(|i| (i, b.clone())));
                                            } else if sent > CYCLE {
                                                while old.first().map_or(false, |o| ids().any(|i| i >= o.0 && i < o.0 + 1000)) {
                                                    let o = old.remove(0).1;
                                                    // ... together with a synchronization of the frame window from before it
                                                    if let Some(Frame::DataFrame(f)) = lib(|| Frame::read(&o)) {
                                                        use uflow::verif::frame::serial::Serialize;
                                                        let s = Frame::SyncFrame(SyncFrame { next_frame_id: Some(f.sequence_id), next_packet_id: None });
                                                        net[1].push_back((now + 20_000, lib(|| s.write()).to_vec()));
                                                    }
                                                    net[1].push_back((now + 20_000, o));
                                                }
                                            }
                                        }
                                    }
                                    if lose > 0 && frames % lose == lose - 1 && sent < total {
                                        continue;
                                    }
                                }
                                net[1 - e].push_back((now + 20_000, b));
                            }
                        }
                        if sent == total && held == 0 {
                            late += 1;
                            if late > 100 {
                                break;
                            }
                        }
                        ensure!(now < 40_000_000_000, "only {} of {} packets were submitted within 40000 s; {} bytes are outstanding", sent, total, held);
                    }
                    ensure!(rel.iter().all(|r| r.is_empty()), "Reliable packet #{:?} was never delivered", rel.iter().filter_map(|r| r.front()).next());
                    if lose == 0 {
                        ensure!(count == total, "{} of {} packets were delivered on a network without loss", count, total);
                    }
                    ctx.observe(count as u64);
                    ctx.state();
                }));
            }
        }
    }
}

/// A copy of an early acknowledgement (or synchronization) arrives when the packet ids it mentions are in use again
pub fn replayed(c: &mut Check, kind: &'static str) {
    let acks = kind == "ack";
    for base in [0u32, 777] {
        c.add(Scenario::new(format!("cycle-{}/base{}", kind, base), 0, move |ctx| {
            let mk = |t: u32, r: u32| {
                let cfg = Config {
                    tx_frame_base_id: t, rx_frame_base_id: r, tx_frame_window_size: 8192, rx_frame_window_size: 8192,
                    tx_packet_base_id: t & PMASK, rx_packet_base_id: r & PMASK, tx_packet_window_size: 4096, rx_packet_window_size: 4096,
                    tx_bandwidth_limit: u32::MAX, tx_alloc_limit: 1 << 24, rx_alloc_limit: 1 << 24, keepalive_interval_ms: None,
                };
                lib(|| HalfConnection::new(cfg))
            };
            let (x, y) = (base.wrapping_sub(333), 5u32);
            let mut ep = [mk(x, y), mk(y, x)];
            let mut now = 1_000_000_000u64;
            let mut net: [VecDeque<(u64, Vec<u8>)>; 2] = Default::default();
            let (mut sent, mut frames, mut got) = (0u32, 0u32, 0u32);
            let mut copy: Option<Vec<u8>> = None;
            let mut missing: VecDeque<u32> = VecDeque::new();
            let first = CYCLE - 50;
            let mut since = None;
            let mut used = false;
            loop {
                now += 10_000;
                uflow::verif::time::set(Duration::from_micros(now));
                ctx.heartbeat();
                for e in 0..2 {
                    while net[e].front().map_or(false, |f| f.0 <= now) {
                        let b = net[e].pop_front().unwrap().1;
                        ctx.step();
                        lib(|| match Frame::read(&b) {
                            Some(Frame::DataFrame(f)) => ep[e].handle_data_frame(f),
                            Some(Frame::SyncFrame(f)) => ep[e].handle_sync_frame(f),
                            Some(Frame::AckFrame(f)) => ep[e].handle_ack_frame(f),
                            _ => (),
                        });
                    }
                    lib(|| ep[e].step());
                    let mut g = In(vec![], false);
                    lib(|| ep[e].receive(&mut g));
                    for i in g.0 {
                        got += 1;
                        if i >= first {
                            ensure!(missing.front() == Some(&i), "Reliable packet #{} was skipped: #{} was delivered", missing.front().copied().unwrap_or(0), i);
                            missing.pop_front();
                        }
                    }
                    if e == 0 {
                        let held = lib(|| ep[0].send_buffer_size());
                        if copy.is_none() {
                            // "ack": a packet is lost, the next is not; "sync": the last one is lost; "sync-packet": of
                            // the last two, the Reliable one arrives after all
                            if sent == 0 || (sent == 1 && frames == 1 && kind != "sync") {
                                let mode = if kind == "sync-packet" && sent == 0 { Reliable } else { Unreliable };
                                lib(|| ep[0].send(Box::new(sent.to_le_bytes()), 0, mode));
                                sent += 1;
                            }
                        } else if sent < first {
                            let mut h = held;
                            while sent < first && h < 30_000 {
                                lib(|| ep[0].send(Box::new(sent.to_le_bytes()), 0, Unreliable));
                                sent += 1;
                                h += 4;
                            }
                        } else if since.is_none() && held == 0 && net[0].is_empty() && net[1].is_empty() {
                            // From here on, everything has to arrive
                            while sent < CYCLE + 50 {
                                lib(|| ep[0].send(Box::new(sent.to_le_bytes()), 0, Reliable));
                                missing.push_back(sent);
                                sent += 1;
                            }
                            since = Some(now);
                        }
                    }
                    let mut o = Out(vec![]);
                    lib(|| ep[e].flush(&mut o));
                    for b in o.0 {
                        if e == 0 {
                            frames += 1;
                            if frames == 1 || (frames == 2 && kind == "sync-packet") {
                                continue;
                            }
                        }
                        if copy.is_none() {
                            match lib(|| Frame::read(&b)) {
                                Some(Frame::SyncFrame(f)) if !acks && e == 0 && f.next_packet_id.is_some() && f.next_frame_id.is_some() == (kind == "sync") => copy = Some(b.clone()),
                                Some(Frame::SyncFrame(f)) if kind == "sync-packet" && e == 0 && f.next_packet_id.is_some() => continue,
                                Some(Frame::AckFrame(f)) if acks && e == 1 && f.packet_window_base_id != x & PMASK => copy = Some(b.clone()),
                                _ => (),
                            }
                        }
                        // A short disruption, and the copy
                        if e == 0 && since.map_or(false, |t| now < t + 500_000) {
                            if !used {
                                used = true;
                                net[if acks { 0 } else { 1 }].push_back((now + 20_000, copy.clone().unwrap()));
                            }
                            continue;
                        }
                        net[1 - e].push_back((now + 20_000, b));
                    }
                }
                ensure!(now < 40_000_000_000, "only {} packets were submitted within 40000 s", sent);
                if let Some(t) = since {
                    if missing.is_empty() {
                        break;
                    }
                    ensure!(now < t + 300_000_000, "Reliable packet #{} was not delivered within 300 s", missing[0]);
                }
            }
            ctx.observe(got as u64);
            ctx.state();
        }));
    }
}
