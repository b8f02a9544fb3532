//! C03, C06 (receiving side) and C19: hostile input.
use super::codec::seal;
use super::frag::{Got, Out};
use super::Check;
use crate::alloc::{self, harness, lib};
use crate::cs::*;
use crate::ensure;
use crate::explore::{fail, Ctx, Scenario};
use crate::hc::{alloc_size, payload, Fate, FRAG, T0_US};
use std::time::Duration;
use uflow::verif::frame::{Frame, Serialize};
use uflow::verif::net;
use uflow::verif::{Config, HalfConnection};
use uflow::EndpointConfig;
use uflow::SendMode::{self, *};

// Encoders which are able to write any field value -----------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct D {
    pub seq: u32,
    pub ch: u8,
    pub w: u16,
    pub c: u16,
    pub f: u16,
    pub l: u16,
    pub len: usize,
}

impl D {
    pub fn one(seq: u32) -> D {
        D { seq, ch: 0, w: 0, c: 0, f: 0, l: 0, len: 5 }
    }
}

pub fn enc_data(seq: u32, nonce: bool, ds: &[D]) -> Vec<u8> {
    let mut b = vec![10];
    b.extend(seq.to_be_bytes());
    b.push((ds.len() as u8 & 0x7F) | (nonce as u8) << 7);
    for d in ds {
        b.push(0xC0 | d.ch & 63);
        b.extend((d.len as u16).to_be_bytes());
        b.push((d.seq >> 16) as u8);
        b.extend((d.seq as u16).to_be_bytes());
        for v in [d.w, d.c, d.f, d.l] {
            b.extend(v.to_be_bytes());
        }
        b.extend((0..d.len).map(|i| (d.seq as usize + d.f as usize * 7 + i) as u8));
    }
    seal(&b)
}

pub fn enc_micro(seq: u32, nonce: bool, ds: &[(u32, u8, u8, u8, usize)]) -> Vec<u8> {
    let mut b = vec![10];
    b.extend(seq.to_be_bytes());
    b.push((ds.len() as u8 & 0x7F) | (nonce as u8) << 7);
    for (s, ch, w, c, len) in ds {
        b.push((ch & 0x10) << 2 | (*len as u8 & 63));
        b.push(((s >> 12) & 0xF0) as u8 | ch & 15);
        b.extend((*s as u16).to_be_bytes());
        b.push((ch & 0x20) << 2 | w & 0x7F);
        b.push(*c);
        b.extend((0..(len & 63)).map(|i| i as u8));
    }
    seal(&b)
}

pub fn enc_ack(fw: u32, pw: u32, groups: &[(u32, u32, bool)]) -> Vec<u8> {
    let mut b = vec![12];
    b.extend(fw.to_be_bytes());
    b.extend(pw.to_be_bytes());
    b.extend((groups.len() as u16).to_be_bytes());
    for (base, bits, nonce) in groups {
        b.extend(base.to_be_bytes());
        b.extend(bits.to_be_bytes());
        b.push(*nonce as u8);
    }
    seal(&b)
}

pub fn enc_sync(frame: Option<u32>, packet: Option<u32>) -> Vec<u8> {
    let mut b = vec![11, frame.is_some() as u8 | (packet.is_some() as u8) << 1];
    b.extend(frame.unwrap_or(0).to_be_bytes());
    b.extend(packet.unwrap_or(0).to_be_bytes());
    seal(&b)
}

// A half connection facing a hostile peer ---------------------------------------------------------

pub struct Vic {
    pub hc: HalfConnection,
    pub now_us: u64,
    /// Frames sent: id, nonce
    pub sent: Vec<(u32, bool)>,
    /// The first and the latest packet sent
    pub p0: u32,
    pub pn: u32,
    pub tf0: u32,
    /// First frame and packet expected, and the current ones
    pub rf: u32,
    pub rp: u32,
    pub fw: u32,
    pub pw: u32,
    pub alloc: usize,
    pub got: usize,
    pub syncs: usize,
    pub tx_bytes: usize,
    /// Acknowledgements received
    pub acks: Vec<Vec<u8>>,
    /// Everything visible from outside, if recorded
    pub trace: Option<Vec<Vec<u8>>>,
    uid: u16,
}

pub const TF: u32 = u32::MAX - 4;
pub const TP: u32 = 0xFFFFE;
pub const RF: u32 = u32::MAX - 2;
pub const RP: u32 = 0xFFFFD;

#[derive(Clone, Copy)]
pub struct VicP {
    pub fw: u32,
    pub pw: u32,
    pub bw: u32,
    pub tx_alloc: usize,
    pub rx_alloc: usize,
    pub keepalive: Option<u64>,
}

pub const VICP: VicP = VicP { fw: 16, pw: 8, bw: 10_000_000, tx_alloc: 20_000, rx_alloc: 6_000, keepalive: Some(2000) };

impl Vic {
    pub fn new(p: VicP) -> Vic {
        uflow::verif::time::set(Duration::from_micros(T0_US));
        let cfg = Config {
            tx_frame_base_id: TF,
            rx_frame_base_id: RF,
            tx_frame_window_size: p.fw,
            rx_frame_window_size: p.fw,
            tx_packet_base_id: TP,
            rx_packet_base_id: RP,
            tx_packet_window_size: p.pw,
            rx_packet_window_size: p.pw,
            tx_bandwidth_limit: p.bw,
            tx_alloc_limit: p.tx_alloc,
            rx_alloc_limit: p.rx_alloc,
            keepalive_interval_ms: p.keepalive,
        };
        Vic {
            hc: lib(|| HalfConnection::new(cfg)), now_us: T0_US, sent: vec![], p0: TP, pn: TP, tf0: TF, rf: RF, rp: RP, fw: p.fw, pw: p.pw,
            alloc: p.rx_alloc, got: 0, syncs: 0, tx_bytes: 0, acks: vec![], trace: None, uid: 0,
        }
    }

    pub fn send(&mut self, size: usize, ch: u8, mode: SendMode) {
        let d = payload(self.uid, ch, size);
        self.uid = self.uid.wrapping_add(1);
        lib(|| self.hc.send(d[..].into(), ch, mode));
    }

    pub fn flush(&mut self, ctx: &mut Ctx) -> usize {
        let mut o = Out(vec![]);
        lib(|| self.hc.flush(&mut o));
        let n = o.0.len();
        for b in o.0 {
            ctx.step();
            ctx.observe_bytes(&b);
            self.tx_bytes += b.len();
            if let Some(t) = &mut self.trace {
                t.push(b.to_vec());
            }
            match Frame::read(&b) {
                Some(Frame::DataFrame(f)) => {
                    self.sent.push((f.sequence_id, f.nonce));
                    for d in f.datagrams.iter() {
                        if (d.sequence_id.wrapping_sub(self.p0) & 0xFFFFF) >= (self.pn.wrapping_sub(self.p0) & 0xFFFFF) {
                            self.pn = (d.sequence_id + 1) & 0xFFFFF;
                        }
                    }
                }
                Some(Frame::AckFrame(a)) => {
                    self.rf = a.frame_window_base_id;
                    self.rp = a.packet_window_base_id;
                }
                Some(Frame::SyncFrame(_)) => self.syncs += 1,
                _ => (),
            }
        }
        n
    }

    pub fn step(&mut self) {
        lib(|| self.hc.step());
    }

    pub fn receive(&mut self, ctx: &mut Ctx) {
        let mut g = Got(vec![]);
        lib(|| self.hc.receive(&mut g));
        for d in g.0 {
            self.got += 1;
            ctx.observe_bytes(&d);
        }
    }

    pub fn wait(&mut self, us: u64) {
        self.now_us += us;
        uflow::verif::time::set(Duration::from_micros(self.now_us));
    }

    /// As an endpoint does in step()
    pub fn round(&mut self, ctx: &mut Ctx) {
        self.flush(ctx);
        self.step();
        self.receive(ctx);
    }

    pub fn feed(&mut self, ctx: &mut Ctx, bytes: &[u8]) {
        ctx.step();
        match lib(|| Frame::read(bytes)) {
            Some(Frame::DataFrame(f)) => lib(|| self.hc.handle_data_frame(f)),
            Some(Frame::SyncFrame(f)) => lib(|| self.hc.handle_sync_frame(f)),
            Some(Frame::AckFrame(f)) => {
                self.acks.push(bytes.to_vec());
                lib(|| self.hc.handle_ack_frame(f))
            }
            _ => (),
        }
    }

    pub fn nonce_of(&self, id: u32) -> bool {
        self.sent.iter().rev().find(|f| f.0 == id).map_or(false, |f| f.1)
    }

    pub fn tf_next(&self) -> u32 {
        self.sent.last().map_or(self.tf0, |f| f.0.wrapping_add(1))
    }

    /// A genuine acknowledgement of every frame from `from` on
    pub fn genuine(&self, from: usize, pw: u32) -> Vec<u8> {
        let mut g: Vec<(u32, u32, bool)> = vec![];
        for (id, nonce) in self.sent[from.min(self.sent.len())..].iter() {
            match g.last_mut() {
                Some(x) if id.wrapping_sub(x.0) < 32 => {
                    x.1 |= 1 << id.wrapping_sub(x.0);
                    x.2 ^= nonce;
                }
                _ => g.push((*id, 1, *nonce)),
            }
        }
        enc_ack(self.tf_next(), pw, &g)
    }
}

pub const STATES: usize = 12;

/// Brings a half connection into one of several situations
pub fn situation(ctx: &mut Ctx, p: VicP, s: usize) -> Vic {
    let mut p = p;
    if s == 8 {
        p.tx_alloc = 6000;
    }
    let mut v = Vic::new(p);
    match s {
        // Nothing has happened yet
        0 => (),
        // First frames sent, unacknowledged
        1 => {
            v.step();
            v.send(100, 0, Reliable);
            v.send(4000, 1, Reliable);
            v.send(50, 0, TimeSensitive);
            v.flush(ctx);
        }
        // Acknowledged after 40 ms, more in flight, part of a fragmented packet still pending
        2 => {
            v.step();
            v.send(100, 0, Reliable);
            v.flush(ctx);
            v.wait(40_000);
            v.feed(ctx, &v.genuine(0, TP));
            v.step();
            for i in 0..3 {
                v.send(4000, i, Persistent);
            }
            v.flush(ctx);
        }
        // Acknowledged at once
        3 => {
            v.step();
            v.send(100, 0, Reliable);
            v.send(100, 0, Unreliable);
            v.flush(ctx);
            v.feed(ctx, &v.genuine(0, TP));
            v.step();
            v.send(2000, 0, Reliable);
            v.flush(ctx);
        }
        // Loss at the first feedback
        4 => {
            for i in 0..6 {
                v.send(1400, i, Reliable);
                v.wait(1_000_000);
                v.step();
                v.flush(ctx);
            }
            let k = v.sent.len();
            if k > 1 {
                v.feed(ctx, &v.genuine(k - 1, TP));
            }
            v.wait(20_000);
            v.round(ctx);
        }
        // The frame window is full, and packets remain
        5 => {
            for _ in 0..40 {
                v.send(1000, 0, Unreliable);
                v.wait(1_000_000);
                v.round(ctx);
            }
        }
        // Partially received packets, completed ones, and holes
        6 => {
            v.step();
            v.feed(ctx, &enc_data(RF, true, &[D { f: 1, l: 2, len: FRAG, ..D::one(RP) }]));
            v.feed(ctx, &enc_data(RF.wrapping_add(2), true, &[D::one((RP + 2) & 0xFFFFF), D { ch: 63, w: 1, c: 1, ..D::one((RP + 3) & 0xFFFFF) }]));
            v.feed(ctx, &enc_data(RF.wrapping_add(3), false, &[D { f: 0, l: 1, len: FRAG, ch: 5, w: 2, ..D::one((RP + 5) & 0xFFFFF) }]));
        }
        // A packet too large for the receive limit, and one which just fits
        7 => {
            v.step();
            v.feed(ctx, &enc_data(RF, true, &[D { f: 3, l: 4, len: FRAG, w: 1, c: 1, ..D::one((RP + 1) & 0xFFFFF) }]));
            v.feed(ctx, &enc_data(RF.wrapping_add(1), true, &[D { f: 0, l: 3, len: FRAG, w: 1, ch: 2, ..D::one(RP) }]));
        }
        // The peer's receive memory is used up
        8 => {
            for i in 0..6 {
                v.send(1400, i, Reliable);
                v.wait(1_000_000);
                v.round(ctx);
            }
        }
        // In the throughput equation phase, at a high rate
        9 => {
            v.step();
            for _ in 0..12 {
                let k = v.sent.len();
                for _ in 0..3 {
                    v.send(700, 0, Unreliable);
                }
                v.flush(ctx);
                v.wait(10_000);
                let pn = v.pn;
                if v.sent.len() > k {
                    let a = v.genuine(k + (k > 8 && k % 3 == 0) as usize, pn);
                    v.feed(ctx, &a);
                }
                v.step();
            }
            v.send(5000, 3, Persistent);
            v.flush(ctx);
        }
        // Acknowledgements waiting, a sync frame due
        10 => {
            v.step();
            for i in 0..10u32 {
                v.feed(ctx, &enc_data(RF.wrapping_add(i), i % 2 == 0, &[D::one((RP + i) & 0xFFFFF)]));
            }
            v.send(10, 0, Reliable);
            v.flush(ctx);
            v.wait(100_000_000);
            v.step();
        }
        // Everything transmitted over and over
        _ => {
            v.send(10, 0, Reliable);
            v.send(3000, 0, Persistent);
            for _ in 0..30 {
                v.wait(500_000);
                v.round(ctx);
            }
        }
    }
    v
}

/// Hostile frames of every kind, in relation to the present state
pub fn menu(v: &Vic, big: bool) -> Vec<Vec<u8>> {
    let p = |d: u32| v.rp.wrapping_add(d) & 0xFFFFF;
    let f = |d: u32| v.rf.wrapping_add(d);
    let tn = v.tf_next();
    let sent0 = v.sent.first().map_or(TF, |x| x.0);
    let last = tn.wrapping_sub(1);
    let tpn = v.pn;
    let mut m: Vec<Vec<u8>> = vec![
        // plausible
        enc_data(f(0), false, &[D::one(p(0))]),
        v.genuine(v.sent.len().saturating_sub(1), tpn),
        v.genuine(0, TP),
        // window ends
        enc_data(f(v.fw - 1), true, &[D::one(p(v.pw - 1))]),
        enc_data(f(1), true, &[D { w: 1, c: 1, ..D::one(p(v.pw - 1)) }]),
        enc_data(f(0), true, &[D { w: 65535, c: 65535, ..D::one(p(3)) }]),
        enc_data(f(1), true, &[D { w: 1, c: 2, ..D::one(p(1)) }, D { w: 1, c: 1, ..D::one(p(0)) }]),
        enc_data(f(1), true, &[D { f: 0, l: 65535, len: FRAG, ..D::one(p(0)) }]),
        enc_data(f(2), true, &[D { f: 65535, l: 65535, len: 0, ..D::one(p(1)) }]),
        enc_data(f(1), false, &[D { f: 0, l: 3, len: FRAG, ..D::one(p(2)) }]),
        enc_data(f(2), false, &[D { f: 4, l: 4, len: 0, ..D::one(p(2)) }]),
        enc_data(f(1), false, &[D { f: 1, l: 1, len: 3, ..D::one(p(0)) }]),
        enc_data(f(1), false, &[D { f: 0, l: 1, len: FRAG, ..D::one(p(0)) }]),
        enc_data(f(0), false, &[]),
        enc_data(f(0), false, &[D { w: 3, c: 4, ch: 1, ..D::one(p(4)) }, D { w: 4, c: 5, ch: 1, ..D::one(p(5)) }, D { w: 0, c: 0, ch: 1, ..D::one(p(6)) }]),
        // acks
        enc_ack(tn, tpn, &[]),
        enc_ack(tn.wrapping_add(1), p(1), &[]),
        enc_ack(sent0.wrapping_sub(1), (TP - 1) & 0xFFFFF, &[]),
        enc_ack(0, 0xFFFFFFFF, &[(0, 0, true)]),
        enc_ack(sent0, tpn.wrapping_add(1) & 0xFFFFF, &[(last, 3, v.nonce_of(last)), (last.wrapping_add(1), 1, false)]),
        enc_ack(sent0, TP, &[(sent0, 1, v.nonce_of(sent0)), (last, 1, v.nonce_of(last)), (sent0, 1, v.nonce_of(sent0))]),
        enc_ack(last, TP, &[(sent0, 1, !v.nonce_of(sent0)), (sent0.wrapping_sub(31), 0x8000_0000, v.nonce_of(sent0)), (sent0, u32::MAX, false), (sent0, u32::MAX, true)]),
        enc_ack(last, 0x80000 ^ TP, &[(last, 1, v.nonce_of(last))]),
        enc_ack(tn.wrapping_add(0x8000_0000), TP + 0x100000, &[]),
        // syncs
        enc_sync(None, None),
        enc_sync(Some(f(1)), Some(p(1))),
        enc_sync(Some(f(v.fw)), Some(p(v.pw))),
        enc_sync(Some(f(v.fw + 1)), Some(p(v.pw + 1))),
        enc_sync(Some(f(0).wrapping_sub(1)), Some(p(0xFFFFF))),
        enc_sync(Some(0), Some(u32::MAX)),
        enc_sync(None, Some(v.rp + 0x100000)),
    ];
    if big {
        m.extend([
            enc_data(f(v.fw), true, &[D::one(p(v.pw))]),
            enc_data(f(0x8000_0000), true, &[D::one(p(0))]),
            enc_data(f(0).wrapping_sub(1), true, &[D::one(p(0xFFFFF))]),
            enc_data(f(0), true, &[D { ch: 63, w: 7, c: 7, ..D::one(p(7)) }]),
            enc_data(f(0), true, &[D { ch: 63, w: 7, c: 6, ..D::one(p(7)) }]),
            enc_data(f(0), true, &[D { ch: 63, w: 0, c: 6, ..D::one(p(7)) }]),
            enc_data(f(0), true, &[D { ch: 9, w: 4, c: 8, len: 0, ..D::one(p(4)) }]),
            enc_data(f(0), true, &[D { ch: 9, w: 4, c: 4, len: FRAG, f: 4, l: 4, ..D::one(p(4)) }]),
            enc_data(f(0), true, &[D { ch: 9, w: 4, c: 4, len: 1, f: 3, l: 4, ..D::one(p(4)) }]),
            enc_data(f(0), true, &[D { f: 2, l: 1, len: FRAG, ..D::one(p(4)) }]),
            enc_micro(f(0), true, &(0..127).map(|i| (p(i), i as u8, (i % 128) as u8, (2 * i % 256) as u8, 1)).collect::<Vec<_>>()),
            enc_data(f(1), true, &(0..70).map(|i| D { ch: i as u8, len: 0, ..D::one(p(i)) }).collect::<Vec<_>>()),
            enc_ack(last, TP, &(0..140).map(|i| (sent0.wrapping_add(i), 1, v.nonce_of(sent0.wrapping_add(i)))).collect::<Vec<_>>()),
            enc_ack(last, TP, &(0..32).map(|i| (last.wrapping_sub(i), 1, v.nonce_of(last.wrapping_sub(i)))).collect::<Vec<_>>()),
            enc_ack(sent0.wrapping_add(1), (TP + 1) & 0xFFFFF, &[(sent0.wrapping_add(2), 5, v.nonce_of(sent0.wrapping_add(2)) ^ v.nonce_of(sent0.wrapping_add(4)))]),
            enc_ack(tn, tpn, &[(last.wrapping_sub(2), 4, v.nonce_of(last))]),
            enc_ack(tn, (tpn + 0x80000) & 0xFFFFF, &[]),
            enc_sync(Some(f(3)), None),
            enc_sync(None, Some(p(3))),
            enc_sync(Some(f(v.fw / 2)), Some(p(v.pw / 2))),
            enc_sync(Some(f(0)), Some(p(0))),
        ]);
    }
    m
}

const GAPS: [u64; 4] = [0, 1_000, 60_000, 5_000_000];

/// What the application does next
fn act(ctx: &mut Ctx, v: &mut Vic, k: usize) {
    match k {
        0 => v.round(ctx),
        1 => {
            v.send(3000, 0, Reliable);
            v.send(20, 1, TimeSensitive);
            v.round(ctx);
            v.flush(ctx);
        }
        2 => v.step(),
        3 => {
            v.flush(ctx);
        }
        _ => v.receive(ctx),
    }
}

/// The endpoint lives on
fn aftermath(ctx: &mut Ctx, v: &mut Vic) {
    for i in 0..6u64 {
        v.send(2000, (i % 3) as u8, [Reliable, Unreliable, Persistent, TimeSensitive][i as usize % 4]);
        v.round(ctx);
        v.wait([0, 20_000, 20_000, 3_000_000, 20_000, 100_000_000][i as usize]);
        let n = v.flush(ctx);
        ensure!(n < 40_000, "flush() sent {} frames", n);
        v.feed(ctx, &v.genuine(v.sent.len().saturating_sub(20), v.pn));
        v.step();
        v.receive(ctx);
    }
    ctx.state();
}

pub fn c03(thorough: bool) -> Check {
    let mut c = Check::new(if thorough { 420 } else { 240 }, "");
    c.bounds = format!("Half connection, 12 situations (fresh, in flight, acknowledged after 40 ms / 0 ms, throughput equation phase with and without rate, frame window full, peer memory full, partial and oversized packets, pending acknowledgements, long unanswered), id bases just below wraparound. fields: every combination of boundary values of all fields of one data / ack / sync frame in each situation. seq: every sequence of {} frames of a menu of 31-52 hostile frames of all kinds with gaps 0, 1 ms, 60 ms, 5 s, 46 days and 5 application reactions in between. twin: every pair of a set of 60 datagrams. endpoints: server and client in every connection state (unknown, pending, active, closing, closed, dropped), every frame type with boundary fields and malformed bytes, from connected and unknown addresses, up to {} in a row, followed by an echo with an uninvolved connection and a new one. peer: raw hostile peers with all boundary handshake limits. config: all extreme endpoint configurations. rate: feedback with RTT 0, at all step spacings and bandwidth limits. parse: truncations, extensions, every value of every byte, declared against actual counts of frames of every type, and all strings of up to 3 bytes. Run with debug assertions and overflow checks, and again without.", if thorough { 3 } else { 2 }, if thorough { 3 } else { 2 });
    c.assumptions = vec!["a call which uses more than 8 s of CPU time is taken to hang"];
    c.cpu_limit_s = 8;

    // Parsing: whatever is received is read or rejected
    super::codec::parsing(&mut c, thorough, false, |ctx, b| {
        ctx.step();
        ctx.extra_execs += 1;
        let _ = lib(|| uflow::verif::frame::Frame::read(b));
    });
    // Every combination of fields of a single frame
    for s in 0..STATES {
        // Quickly: receiving situations for what is received, sending situations for acknowledgements
        let rx = thorough || [0, 6, 7, 10].contains(&s);
        let tx = thorough || ![0, 6, 7].contains(&s);
        if rx { c.add(Scenario::new(format!("fields/data/{}", s), 0, move |ctx| {
            let mut v = situation(ctx, VICP, s);
            let w = v.pw;
            let fs = v.rf.wrapping_add(ctx.choose_of(&[0u32, 1, VICP.fw - 1, VICP.fw, u32::MAX]));
            let seq = v.rp.wrapping_add(ctx.choose_of(&[0u32, 1, 3, w - 1, w, 0xFFFFF, 0x80000])) & 0xFFFFF;
            let delta = seq.wrapping_sub(v.rp) as u16;
            let wl = ctx.choose_of(&[0u16, 1, delta, delta.wrapping_add(1), w as u16, 65535]);
            let cl = ctx.choose_of(&[0u16, 1, delta, delta.wrapping_add(1), w as u16, 65535]);
            let (f, l) = ctx.choose_of(&[(0u16, 0u16), (0, 1), (1, 1), (1, 0), (2, 4), (4, 4), (0, 65535), (65535, 65535)]);
            let len = if thorough { ctx.choose_of(&[0usize, 1, FRAG - 1, FRAG]) } else { ctx.choose_of(&[0usize, 3, FRAG]) };
            let ch = if thorough { ctx.choose_of(&[0u8, 63]) } else { 63 };
            v.feed(ctx, &enc_data(fs, true, &[D { seq, ch, w: wl, c: cl, f, l, len }]));
            let again = ctx.choose_free(2) == 1;
            v.round(ctx);
            if again {
                v.feed(ctx, &enc_data(fs.wrapping_add(1), true, &[D { seq, ch: ch ^ 1, w: 0, c: 0, f: 0, l: 0, len: 3 }]));
                v.feed(ctx, &enc_sync(Some(fs.wrapping_add(2)), Some((seq + 1) & 0xFFFFF)));
            }
            aftermath(ctx, &mut v);
        })); }
        if tx { c.add(Scenario::new(format!("fields/ack/{}", s), 0, move |ctx| {
            let mut v = situation(ctx, VICP, s);
            let (a, b) = (v.sent.first().map_or(TF, |x| x.0), v.tf_next());
            let fr: Vec<u32> = vec![a.wrapping_sub(1), a, a.wrapping_add(1), b.wrapping_sub(1), b, b.wrapping_add(1), b.wrapping_add(0x8000_0000), 0, u32::MAX];
            let pk: Vec<u32> = vec![TP - 1, TP, TP + 1, v.pn, v.pn.wrapping_add(1) & 0xFFFFF, (TP + v.pw) & 0xFFFFF, (TP + 0x80000) & 0xFFFFF, TP + 0x100000, u32::MAX, 0];
            let fw = ctx.choose_of(&fr);
            let pw = ctx.choose_of(&pk);
            let g = ctx.choose_free(1 + fr.len());
            let mut groups = vec![];
            if g > 0 {
                let base = fr[g - 1];
                let bits = ctx.choose_of(&[0u32, 1, 2, 3, 5, 0x8000_0000, 0x8000_0001, 0xFFFF, u32::MAX]);
                let mut n = false;
                for i in 0..32 {
                    n ^= bits >> i & 1 != 0 && v.nonce_of(base.wrapping_add(i));
                }
                groups.push((base, bits, n ^ (ctx.choose_free(2) == 1)));
            }
            let gap = ctx.choose_of(&[0u64, 30_000, 30_000_000]);
            v.wait(gap);
            v.feed(ctx, &enc_ack(fw, pw, &groups));
            v.round(ctx);
            aftermath(ctx, &mut v);
        })); }
        if rx { c.add(Scenario::new(format!("fields/sync/{}", s), 0, move |ctx| {
            let mut v = situation(ctx, VICP, s);
            let (rf, rp) = (v.rf, v.rp);
            let fr: Vec<Option<u32>> = [0u32, 1, 2, v.fw - 1, v.fw, v.fw + 1, 0x8000_0000, u32::MAX].iter().map(|d| Some(rf.wrapping_add(*d))).chain([None, Some(0), Some(u32::MAX)]).collect();
            let pk: Vec<Option<u32>> = [0u32, 1, 2, v.pw - 1, v.pw, v.pw + 1, 0x80000, 0xFFFFF, 0x100000].iter().map(|d| Some(rp.wrapping_add(*d))).chain([None, Some(0), Some(u32::MAX)]).collect();
            let (a, b) = (ctx.choose_of(&fr), ctx.choose_of(&pk));
            v.feed(ctx, &enc_sync(a, b));
            let k = ctx.choose_free(3);
            if k > 0 {
                v.round(ctx);
                let (a, b) = (ctx.choose_of(&fr), ctx.choose_of(&pk));
                v.feed(ctx, &enc_sync(a, b));
                if k == 2 {
                    v.feed(ctx, &enc_data(v.rf, false, &[D { w: 1, c: 1, ..D::one(v.rp) }]));
                }
            }
            v.round(ctx);
            aftermath(ctx, &mut v);
        }));
        }
        // Two datagrams
        if rx { c.add(Scenario::new(format!("twin/{}", s), 0, move |ctx| {
            let mut v = situation(ctx, VICP, s);
            let w = v.pw as u16;
            for k in 0..2 {
                let seq = (v.rp + ctx.choose_of(&[0u32, 1, v.pw - 1])) & 0xFFFFF;
                let (wl, cl) = ctx.choose_of(&[(0u16, 0u16), (1, 1), (1, 2), (2, 2), (w, w)]);
                let (f, l, len) = ctx.choose_of(&[(0u16, 0u16, 4usize), (0, 1, FRAG), (1, 1, 9), (0, 60_000, FRAG)]);
                let ch = ctx.choose_of(&[0u8, 1]);
                let d = D { seq, ch, w: wl, c: cl, f, l, len };
                v.feed(ctx, &enc_data(v.rf.wrapping_add(k), k == 0, &[d]));
                if ctx.choose_free(2) == 1 {
                    v.receive(ctx);
                }
            }
            v.round(ctx);
            v.feed(ctx, &enc_sync(None, Some((v.rp + 4) & 0xFFFFF)));
            v.round(ctx);
            aftermath(ctx, &mut v);
        })); }
        // Sequences of hostile frames
        let depth = if thorough { 3 } else { 2 };
        c.add(Scenario::new(format!("seq/{}", s), 0, move |ctx| {
            let mut v = situation(ctx, VICP, s);
            let mut gk = (0, 0);
            for d in 0..depth {
                let m = menu(&v, !thorough);
                let b = ctx.choose_of(&m);
                v.feed(ctx, &b);
                if d == 0 || !thorough {
                    gk = ctx.choose_of(&[(0u64, 1usize), (60_000, 0), (0, 3), (4_000_000_000_000, 2)]);
                }
                let (gap, k) = gk;
                v.wait(gap);
                act(ctx, &mut v, k);
            }
            aftermath(ctx, &mut v);
        }));
        // Every gap and reaction
        if thorough {
            c.add(Scenario::new(format!("seq-act/{}", s), 0, move |ctx| {
                let mut v = situation(ctx, VICP, s);
                for _ in 0..2 {
                    let m = menu(&v, false);
                    let b = ctx.choose_of(&m);
                    v.feed(ctx, &b);
                    let gap = ctx.choose_of(&GAPS);
                    v.wait(gap);
                    let k = ctx.choose_of(&[1usize, 2, 4]);
                    act(ctx, &mut v, k);
                }
                aftermath(ctx, &mut v);
            }));
        }
        // The windows uflow itself uses
        c.add(Scenario::new(format!("seq-full/{}", s), 0, move |ctx| {
            let p = VicP { fw: 16384, pw: 4096, ..VICP };
            let mut v = situation(ctx, p, s);
            for _ in 0..2 {
                let m = menu(&v, true);
                let b = ctx.choose_of(&m);
                v.feed(ctx, &b);
                let gap = ctx.choose_of(&[0u64, 60_000]);
                v.wait(gap);
                v.round(ctx);
            }
            aftermath(ctx, &mut v);
        }));
    }
    rate(&mut c, thorough);
    endpoints(&mut c, thorough);
    c
}

/// Feedback of all kinds at all spacings: the rate computation neither divides by zero nor loops
fn rate(c: &mut Check, thorough: bool) {
    let bws: &'static [u32] = &[1, 22, 23, 1471, 1472, 10_000, 100_000_000, u32::MAX];
    c.add(Scenario::new("rate", 0, move |ctx| {
        let bw = if thorough { ctx.choose_of(&[23u32, 1472, u32::MAX]) } else { ctx.choose_of(bws) };
        let mut v = Vic::new(VicP { bw, ..VICP });
        let n = if thorough { 5 } else { 4 };
        v.step();
        for k in 0..n {
            v.send(1448, 0, Unreliable);
            v.send(200, 1, Persistent);
            v.flush(ctx);
            let gap = ctx.choose_of(&[0u64, 400, 30_000, 70_000_000]);
            v.wait(gap);
            match ctx.choose_free(5) {
                0 => v.feed(ctx, &v.genuine(0, v.pn)),
                1 => v.feed(ctx, &v.genuine(v.sent.len().saturating_sub(1), v.pn)),
                2 => {
                    v.step();
                    v.feed(ctx, &v.genuine(v.sent.len() / 2, v.pn));
                }
                3 => {
                    v.wait(3_000_000);
                    v.round(ctx);
                    v.feed(ctx, &v.genuine(v.sent.len().saturating_sub(1), v.pn));
                    v.step();
                    v.feed(ctx, &v.genuine(0, v.pn));
                }
                _ => (),
            }
            v.step();
            let r = v.hc.verif_send_rate();
            ctx.observe(r as u64);
            ctx.note(|| format!("{} rate {}", k, r));
        }
        aftermath(ctx, &mut v);
    }));
}

// Endpoints ----------------------------------------------------------------------------------------

pub const XPORT: u16 = 40_000;

pub fn enc_syn(version: u8, nonce: u32, rate: u32, size: u32, al: u32) -> Vec<u8> {
    let mut b = vec![0, version];
    for v in [nonce, rate, size, al] {
        b.extend(v.to_be_bytes());
    }
    b.resize(1468, 0);
    seal(&b)
}

pub fn enc_synack(na: u32, n: u32, rate: u32, size: u32, al: u32) -> Vec<u8> {
    let mut b = vec![1];
    for v in [na, n, rate, size, al] {
        b.extend(v.to_be_bytes());
    }
    seal(&b)
}

pub fn enc_hack(n: u32) -> Vec<u8> {
    let mut b = vec![2];
    b.extend(n.to_be_bytes());
    seal(&b)
}

fn enc_err(n: u32, e: u8) -> Vec<u8> {
    let mut b = vec![3];
    b.extend(n.to_be_bytes());
    b.push(e);
    seal(&b)
}

/// Frames thrown at an endpoint whose own nonce is `on`, and whose peer's is `pn`
pub fn barrage(on: u32, pn: u32) -> Vec<Vec<u8>> {
    let p = |d: u32| pn.wrapping_add(d) & 0xFFFFF;
    let q = |d: u32| on.wrapping_add(d) & 0xFFFFF;
    let mut v = vec![
        enc_syn(3, pn, 1_000_000, 1000, 1_000_000),
        enc_syn(3, pn.wrapping_add(3), 0, 0, 0),
        enc_syn(3, 0, u32::MAX, u32::MAX, u32::MAX),
        enc_syn(255, pn, 1, 1, 1),
        enc_synack(on, pn, 1_000_000, 1000, 1_000_000),
        enc_synack(on, pn, 0, 0, 0),
        enc_synack(on, u32::MAX, u32::MAX, u32::MAX, u32::MAX),
        enc_synack(pn, on, 1, 1, 1),
        enc_hack(on),
        enc_hack(pn),
        enc_err(on, 0),
        enc_err(on, 2),
        enc_err(pn, 1),
        seal(&[4]),
        seal(&[5]),
        enc_data(pn, true, &[D::one(p(0))]),
        enc_data(pn.wrapping_add(1), true, &[D { f: 0, l: 65535, len: FRAG, w: 1, c: 1, ..D::one(p(0)) }]),
        enc_data(pn.wrapping_add(2), true, &[D { f: 3, l: 3, len: 10, w: 65535, c: 65535, ..D::one(p(4095)) }]),
        enc_data(0, false, &[]),
        enc_ack(on, q(0), &[(on, 1, true), (on, 1, false)]),
        enc_ack(on.wrapping_add(1), q(1), &[(on, 1, true), (on, 1, false), (on, 3, true), (on, 3, false)]),
        enc_ack(u32::MAX, u32::MAX, &[(on.wrapping_add(1), u32::MAX, true)]),
        enc_sync(None, None),
        enc_sync(Some(pn.wrapping_add(16384)), Some(p(4096))),
        enc_sync(Some(u32::MAX), Some(u32::MAX)),
        vec![],
        vec![0],
        vec![10],
        vec![255; 1472],
        vec![0; 1472],
    ];
    for t in 0..=13u8 {
        v.push(seal(&[t]));
        v.push(seal(&[t, 0, 0, 0, 0, 255, 255, 255, 255]));
        let mut b = vec![t];
        b.resize(1468, 0xFF);
        v.push(seal(&b));
    }
    let d = enc_data(pn, true, &[D::one(p(0))]);
    v.push(d[..d.len() - 1].to_vec());
    let mut e = d.clone();
    e[3] ^= 4;
    v.push(e);
    v.push([&d[..], &[0]].concat());
    v
}

fn ec() -> EndpointConfig {
    let mut e = EndpointConfig::default();
    e.max_packet_size = 100_000;
    e
}

/// An uninvolved connection is still served, and a new one can be made
fn still_serving(n: &mut Net, ctx: &mut Ctx, b: usize) {
    n.branch = 0;
    n.policy = None;
    n.lose = [0; 3];
    if let Err(e) = n.echo(ctx, b, 20_000) {
        fail(format!("uninvolved connection: {}", e));
    }
    let d = n.connect(ctx, ec());
    let a = n.peers[d].addr;
    for _ in 0..50 {
        n.do_tick(ctx);
        if n.s_active(&a) && n.c_active(d) {
            break;
        }
    }
    if let Err(e) = n.echo(ctx, d, 20_000) {
        fail(format!("new connection: {}", e));
    }
    ctx.state();
}

fn endpoints(c: &mut Check, thorough: bool) {
    // 0 unknown, 1 pending, 2 active, 3 active with traffic, 4 closing, 5 closed, 6 dropped / rejected
    for s in 0..7usize {
        for target in 0..2usize {
            let depth = if thorough { 3 } else { 2 };
            c.add(Scenario::new(format!("endpoints/{}/{}", ["server", "client"][target], s), 0, move |ctx| {
                uflow::verif::rand::reset(7);
                let mut n = Net::new(scfg(8, 8, true, ec()), Mon::default());
                let b = n.connect(ctx, ec());
                for _ in 0..6 {
                    n.do_tick(ctx);
                }
                let a = n.connect(ctx, ec());
                let addr_a = n.peers[a].addr;
                match s {
                    0 => n.lose = [99, 99, 99],
                    1 => {
                        n.lose = [0, 99, 99];
                        n.do_tick(ctx);
                        n.do_tick(ctx);
                    }
                    _ => {
                        for _ in 0..6 {
                            n.do_tick(ctx);
                        }
                    }
                }
                if s == 3 {
                    for k in 0..6 {
                        n.csend(ctx, a, 3000, k % 3, Reliable);
                        n.ssend(ctx, addr_a, 3000, k % 3, Reliable);
                    }
                    n.do_tick(ctx);
                    n.do_tick(ctx);
                    n.do_tick(ctx);
                }
                if s == 4 {
                    n.csend(ctx, a, 10, 0, Reliable);
                    n.ssend(ctx, addr_a, 10, 0, Reliable);
                    n.cdisc(ctx, a, target == 1);
                    n.sdisc(ctx, addr_a, target == 0);
                    n.step_client(ctx, a);
                    n.step_server(ctx);
                    n.flush_client(ctx, a);
                    n.flush_server(ctx);
                }
                if s == 5 {
                    if target == 0 {
                        n.cdisc(ctx, a, true);
                    } else {
                        n.sdisc(ctx, addr_a, true);
                    }
                    for _ in 0..8 {
                        n.do_tick(ctx);
                    }
                }
                if s == 6 {
                    n.sdrop(ctx, addr_a);
                }
                let (cn, sn) = (n.peers[a].nonce.unwrap_or(1), n.sp.get(&addr_a).and_then(|x| x.nonce).unwrap_or(5));
                let (src, dst, on, pn) = if target == 0 { (addr_a, saddr(), sn, cn) } else { (saddr(), addr_a, cn, sn) };
                let m = barrage(on, pn);
                for k in 0..depth {
                    let j = if k < 2 { ctx.choose_free(m.len()) } else { [0, 13][ctx.choose_free(2)] };
                    let src = if target == 0 && k == 0 && ctx.choose_free(2) == 1 { addr(XPORT) } else { src };
                    n.inject(src, dst, m[j].clone(), 0);
                    if k + 1 < depth && ctx.choose_free(2) == 1 {
                        n.do_tick(ctx);
                    }
                }
                n.do_tick(ctx);
                if n.c_active(a) {
                    n.csend(ctx, a, 2000, 1, Reliable);
                }
                n.ssend(ctx, addr_a, 2000, 1, Reliable);
                n.do_tick(ctx);
                n.do_tick(ctx);
                still_serving(&mut n, ctx, b);
                // All timers
                n.tick_us = 1_000_000;
                n.run_ms(ctx, 30_000);
            }));
        }
    }
    // A raw hostile peer which completes the handshake with any limits whatsoever
    let lim: &'static [u32] = &[0, 1, 22, 1472, 0x7FFF_FFFF, u32::MAX];
    let al: &'static [u32] = &[0, 1, 1447, 1448, 100_000, u32::MAX - 1446, u32::MAX];
    c.add(Scenario::new("peer/of-server", 0, move |ctx| {
        let mut se = ec();
        se.max_send_rate = ctx.choose_of(&[2_000_000usize, 1, usize::MAX]);
        se.max_receive_alloc = ctx.choose_of(&[1_000_000usize, 1, 1448, 1 << 32, usize::MAX]);
        let mut n = Net::new(scfg(8, 8, true, se), Mon::default());
        n.tick_us = ctx.choose_of(&[20_000u64, 0, 500_000]);
        let x = addr(XPORT);
        let (rate, size, a) = (ctx.choose_of(lim), ctx.choose_of(&[0u32, 1, 1448, 100_000, u32::MAX]), ctx.choose_of(al));
        n.inject(x, saddr(), enc_syn(3, 0xFFFF_FFFE, rate, size, a), 0);
        n.do_tick(ctx);
        let Some(sn) = n.sp.get(&x).and_then(|s| s.nonce) else { return };
        n.inject(x, saddr(), enc_hack(sn), 0);
        n.do_tick(ctx);
        for k in 0..4u32 {
            n.ssend(ctx, x, [1usize, 1448, 100_000, 3000][k as usize], 1, [Reliable, Unreliable, Persistent, TimeSensitive][k as usize]);
            n.do_tick(ctx);
            n.inject(x, saddr(), enc_data(0xFFFF_FFFEu32.wrapping_add(k), true, &[D { f: k as u16, l: 3, len: FRAG, ..D::one(0xFFFFE) }]), 0);
            n.inject(x, saddr(), enc_ack(sn.wrapping_add(k), sn & 0xFFFFF, &[(sn.wrapping_add(k), 1, true), (sn.wrapping_add(k), 1, false)]), 0);
            n.do_tick(ctx);
        }
        n.flush_server(ctx);
        n.tick_us = 20_000;
        let sound = |r: u32, s: u32, a: u32| r > 0 && s > 0 && a > 0;
        let _ = sound;
        n.run_ms(ctx, 400);
        n.sdisc(ctx, x, false);
        n.tick_us = 3_000_000;
        n.run_ms(ctx, 60_000);
        ctx.state();
    }));
    c.add(Scenario::new("peer/of-client", 0, move |ctx| {
        let mut ce = ec();
        ce.max_send_rate = ctx.choose_of(&[2_000_000usize, 1, usize::MAX]);
        ce.max_receive_alloc = ctx.choose_of(&[1_000_000usize, 1, 1448, 1 << 32, usize::MAX]);
        let mut n = Net::new(scfg(8, 8, true, ec()), Mon::default());
        n.lose = [9999, 9999, 9999];
        n.tick_us = ctx.choose_of(&[20_000u64, 0, 500_000]);
        let i = n.connect(ctx, ce);
        let a = n.peers[i].addr;
        n.csend(ctx, i, 100_000, 0, Reliable);
        n.do_tick(ctx);
        let Some(cn) = n.peers[i].nonce else { fail("harness: no SYN seen") };
        let (rate, size, al) = (ctx.choose_of(lim), ctx.choose_of(&[0u32, 1, 1448, 100_000, u32::MAX]), ctx.choose_of(al));
        n.inject(saddr(), a, enc_synack(cn, 0xFFFF_FFFE, rate, size, al), 0);
        n.do_tick(ctx);
        for k in 0..4u32 {
            n.csend(ctx, i, [1usize, 1448, 100_000, 3000][k as usize], 1, [Reliable, Unreliable, Persistent, TimeSensitive][k as usize]);
            n.do_tick(ctx);
            n.inject(saddr(), a, enc_data(0xFFFF_FFFEu32.wrapping_add(k), true, &[D { f: k as u16, l: 3, len: FRAG, ..D::one(0xFFFFE) }]), 0);
            n.inject(saddr(), a, enc_ack(cn.wrapping_add(k), cn & 0xFFFFF, &[(cn.wrapping_add(k), 1, true), (cn.wrapping_add(k), 1, false)]), 0);
            n.do_tick(ctx);
        }
        n.flush_client(ctx, i);
        n.tick_us = 20_000;
        n.run_ms(ctx, 400);
        n.cdisc(ctx, i, false);
        n.tick_us = 3_000_000;
        n.run_ms(ctx, 60_000);
        ctx.state();
    }));
    // Extreme configurations of two well-behaved endpoints
    c.add(Scenario::new("config", if thorough { 4 } else { 3 }, move |ctx| {
        let mut mk = |ctx: &mut Ctx| {
            let mut e = EndpointConfig::default();
            let pick = |ctx: &mut Ctx, v: &[u64]| { let i = ctx.choose(v.len()); v[i] };
            e.max_send_rate = pick(ctx, &[2_000_000, 1, 22, 1472, u32::MAX as u64, u64::MAX]) as usize;
            e.max_receive_rate = pick(ctx, &[2_000_000, 1, 22, 1472, u32::MAX as u64, u64::MAX]) as usize;
            e.max_packet_size = pick(ctx, &[5000, 1, 1448, uflow::MAX_PACKET_SIZE as u64]) as usize;
            e.max_receive_alloc = pick(ctx, &[1_000_000, 1, 1448, 5000, 1 << 32, (1 << 32) - 1, u64::MAX - 1447, u64::MAX]) as usize;
            e.keepalive = pick(ctx, &[1, 0]) == 1;
            e.keepalive_interval_ms = pick(ctx, &[5000, 0, 1, u32::MAX as u64, u64::MAX]);
            e.active_timeout_ms = pick(ctx, &[20_000, 0, 1, u32::MAX as u64, u64::MAX / 1000, u64::MAX - 1, u64::MAX]);
            e
        };
        let (ce, se) = (mk(ctx), mk(ctx));
        let mut n = Net::new(scfg([4usize, 1, usize::MAX][ctx.choose(3)], [4usize, 1, usize::MAX][ctx.choose(3)], true, se.clone()), Mon::default());
        n.tick_us = [20_000u64, 0, 1, 1000, 5_000_000, 4_000_000_000_000][ctx.choose(6)];
        let i = n.connect(ctx, ce.clone());
        let a = n.peers[i].addr;
        for k in 0..14 {
            if k % 3 == 0 {
                n.csend(ctx, i, ce.max_packet_size.min(20_000), 0, [Reliable, Unreliable, TimeSensitive][k / 3 % 3]);
                n.ssend(ctx, a, se.max_packet_size.min(20_000), 0, [Reliable, Unreliable, TimeSensitive][k / 3 % 3]);
            }
            n.do_tick(ctx);
        }
        n.cdisc(ctx, i, false);
        for _ in 0..10 {
            n.do_tick(ctx);
        }
        n.tick_us = 2_000_000;
        n.run_ms(ctx, 60_000);
        ctx.state();
    }));
}
