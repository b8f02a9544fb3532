//! Two half connections joined by a virtual network, with monitors.

use crate::alloc::{harness, lib};
use crate::ensure;
use crate::explore::{fail, Ctx};
use std::collections::HashMap;
use std::time::Duration;
use uflow::verif::frame::{Frame, Serialize};
use uflow::verif::{Config, FrameSink, HalfConnection, PacketSink};
use uflow::SendMode;

pub const FRAG: usize = 1448;
pub const PMASK: u32 = 0xFFFFF;

pub fn psub(a: u32, b: u32) -> u32 {
    a.wrapping_sub(b) & PMASK
}

pub fn prf(uid: u16, ch: u8, i: usize) -> u8 {
    let mut z = (uid as u64) << 40 ^ (ch as u64) << 32 ^ i as u64;
    z = (z ^ (z >> 15)).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    (z >> 53) as u8
}

pub fn payload(uid: u16, ch: u8, size: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(size);
    for i in 0..size {
        v.push(match i % FRAG {
            0 => uid as u8,
            1 => (uid >> 8) as u8,
            _ => prf(uid, ch, i),
        });
    }
    v
}

pub fn alloc_size(size: usize) -> usize {
    if size > FRAG {
        (size + FRAG - 1) / FRAG * FRAG
    } else {
        size
    }
}

pub fn nfrags(size: usize) -> usize {
    (size + FRAG - 1) / FRAG + (size == 0) as usize
}

pub fn mode_char(m: SendMode) -> char {
    match m {
        SendMode::TimeSensitive => 'T',
        SendMode::Unreliable => 'U',
        SendMode::Persistent => 'P',
        SendMode::Reliable => 'R',
    }
}

pub const MODES: [SendMode; 4] = [SendMode::Reliable, SendMode::Unreliable, SendMode::Persistent, SendMode::TimeSensitive];

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fate {
    Deliver,
    Drop,
    Dup,
    Delay(u32),
    DupDelay(u32),
    Corrupt(u8),
}

#[derive(Clone, Debug)]
pub struct Send {
    pub tick: u32,
    pub ep: usize,
    pub size: usize,
    pub ch: u8,
    pub mode: SendMode,
}

pub fn send(tick: u32, ep: usize, size: usize, ch: u8, mode: SendMode) -> Send {
    Send { tick, ep, size, ch, mode }
}

#[derive(Clone)]
pub struct P {
    pub seed: u64,
    pub tick_us: u64,
    pub lat: u32,
    pub pw: u32,
    pub fw: u32,
    pub base_pkt: [u32; 2],
    pub base_frame: [u32; 2],
    pub bw: [u32; 2],
    pub alloc: [usize; 2],
    pub keepalive: Option<u64>,
    pub fates: Vec<Fate>,
    /// Number of frames (counted over both directions) whose fate is chosen
    pub branch: u32,
    pub dirs: [bool; 2],
    pub post_flush: bool,
    /// Frames of a direction never overtake each other, whatever `lat_fn` says
    pub fifo: bool,
    /// Whether the skipping of steps of an endpoint is chosen, for the first n ticks
    pub skip_ticks: u32,
    pub script: Vec<Send>,
}

impl Default for P {
    fn default() -> Self {
        Self {
            seed: 1,
            tick_us: 20_000,
            lat: 2,
            pw: 4096,
            fw: 4096,
            base_pkt: [5, 77],
            base_frame: [1000, 2000],
            bw: [2_000_000; 2],
            alloc: [1_000_000; 2],
            keepalive: Some(5000),
            fates: vec![Fate::Deliver],
            branch: 0,
            dirs: [true, true],
            post_flush: false,
            fifo: false,
            skip_ticks: 0,
            script: vec![],
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Frag {
    pub tx: u32,
    pub first_us: u64,
    pub last_us: u64,
    pub acked: bool,
}

#[derive(Clone, Debug)]
pub struct Pkt {
    pub uid: u16,
    pub ch: u8,
    pub mode: SendMode,
    pub size: usize,
    pub submit_step: u64,
    pub submit_us: u64,
    pub seq: Option<u32>,
    pub frags: Vec<Frag>,
    pub passed: bool,
    pub delivered: u32,
}

impl Pkt {
    pub fn begun(&self) -> bool {
        self.frags.iter().any(|f| f.tx > 0)
    }
    pub fn retransmits(&self) -> bool {
        matches!(self.mode, SendMode::Persistent | SendMode::Reliable)
    }
}

pub struct FrameRec {
    pub nonce: bool,
    pub acked: bool,
    /// Acknowledged by an acknowledgement which may not have been accepted
    pub maybe: bool,
    pub dropped: bool,
    pub at_us: u64,
    pub frags: Vec<(usize, usize)>,
}

pub struct Ep {
    pub hc: Option<HalfConnection>,
    pub pkts: Vec<Pkt>,
    pub by_seq: HashMap<u32, usize>,
    pub empty_uid: Option<usize>,
    pub frames: HashMap<u32, FrameRec>,
    /// The next frame id, and the base of the frame window as acknowledged
    pub frame_next: Option<u32>,
    pub frame_base: Option<u32>,
    /// Order of deliveries made by this endpoint's peer to this endpoint's application: index into
    /// the peer's `pkts`
    pub got: Vec<usize>,
    pub steps: u64,
    pub tx: Vec<(u64, u32, f64)>,
    pub frames_out: u32,
    pub last_tx_any: u64,
    pub rate_min_seen: f64,
    /// Send times of frames acknowledged since this was last cleared
    pub newly: Vec<u64>,
    /// An acknowledgement arrived which may or may not have been accepted
    pub unsure: bool,
    /// The latest frame acknowledged
    pub highest: Option<u32>,
}

struct Flight {
    at: u64,
    ord: u64,
    dst: usize,
    bytes: Vec<u8>,
}

#[derive(Clone, Copy, Default)]
pub struct Monitors {
    pub order: bool,     // C01
    pub reliable: bool,  // C02
    pub txmode: bool,    // C12
    pub rate: bool,      // C13
    pub buffer: bool,    // C20
    pub window: bool,    // C06 sender
    pub global: bool,    // C05
    pub size: bool,      // C04
}

pub struct World {
    pub p: P,
    pub m: Monitors,
    pub ep: [Ep; 2],
    flights: Vec<Flight>,
    last_at: [u64; 2],
    ord: u64,
    pub now_us: u64,
    pub tick: u32,
    pub frames_total: u32,
    pub next_script: usize,
    pub last_fault_us: u64,
    /// Overrides fates: (direction, index of frame in that direction, now_us, bytes) -> fate
    pub policy: Option<Box<dyn Fn(usize, u32, u64, &[u8]) -> Option<Fate>>>,
    pub lat_fn: Option<Box<dyn Fn(usize, u64) -> u32>>,
    /// Everything visible from outside, if recorded
    pub trace: Option<Vec<(u64, u64, u64)>>,
    /// Fates by direction
    pub fate_log: [Vec<Fate>; 2],
    /// Acknowledgements sent: direction, index
    pub acks_out: Vec<(usize, u32)>,
    /// Frames to be delivered in addition: (direction, index, frame, fate) -> (ticks after or before, frame)
    pub extra: Option<Box<dyn Fn(usize, u32, &[u8], Fate) -> Vec<(i32, Vec<u8>)>>>,
}

struct Capture<'a>(&'a mut Vec<Vec<u8>>);
impl<'a> FrameSink for Capture<'a> {
    fn send(&mut self, d: &[u8]) {
        harness(|| self.0.push(d.to_vec()))
    }
}
struct Deliver<'a>(&'a mut Vec<Box<[u8]>>);
impl<'a> PacketSink for Deliver<'a> {
    fn send(&mut self, d: Box<[u8]>) {
        harness(|| self.0.push(d))
    }
}

pub const T0_US: u64 = 1_000_000_000;

impl World {
    pub fn new(mut p: P, m: Monitors) -> Self {
        p.script.sort_by_key(|s| (s.tick, s.ep));
        uflow::verif::rand::reset(p.seed);
        uflow::verif::time::set(Duration::from_micros(T0_US));
        let mk = |e: usize| {
            let o = 1 - e;
            let cfg = Config {
                tx_frame_base_id: p.base_frame[e],
                rx_frame_base_id: p.base_frame[o],
                tx_frame_window_size: p.fw,
                rx_frame_window_size: p.fw,
                tx_packet_base_id: p.base_pkt[e],
                rx_packet_base_id: p.base_pkt[o],
                tx_packet_window_size: p.pw,
                rx_packet_window_size: p.pw,
                tx_bandwidth_limit: p.bw[e],
                tx_alloc_limit: p.alloc[o],
                rx_alloc_limit: p.alloc[e],
                keepalive_interval_ms: p.keepalive,
            };
            Ep {
                hc: Some(lib(|| HalfConnection::new(cfg))),
                pkts: vec![],
                by_seq: HashMap::new(),
                empty_uid: None,
                frames: HashMap::new(),
                frame_next: None,
                frame_base: None,
                got: vec![],
                steps: 0,
                tx: vec![],
                frames_out: 0,
                last_tx_any: 0,
                rate_min_seen: f64::MAX,
                newly: vec![], unsure: false,
                highest: None,
            }
        };
        let ep = [mk(0), mk(1)];
        World {
            m,
            ep,
            flights: vec![],
            last_at: [0; 2],
            ord: 0,
            now_us: T0_US,
            tick: 0,
            frames_total: 0,
            next_script: 0,
            last_fault_us: T0_US,
            policy: None,
            lat_fn: None,
            trace: None,
            fate_log: [vec![], vec![]],
            acks_out: vec![],
            extra: None,
            p,
        }
    }

    pub fn rel_ms(&self) -> u64 {
        (self.now_us - T0_US) / 1000
    }

    pub fn hc(&mut self, e: usize) -> &mut HalfConnection {
        self.ep[e].hc.as_mut().unwrap()
    }

    pub fn submit(&mut self, ctx: &mut Ctx, e: usize, size: usize, ch: u8, mode: SendMode) {
        let now = self.now_us;
        let ep = &mut self.ep[e];
        let uid = ep.pkts.len() as u16;
        if size == 0 {
            ensure!(ep.empty_uid.is_none(), "harness: two empty packets");
            ep.empty_uid = Some(uid as usize);
        }
        assert!(size != 1 || uid < 256);
        let data = payload(uid, ch, size);
        ep.pkts.push(Pkt {
            uid,
            ch,
            mode,
            size,
            submit_step: ep.steps,
            submit_us: now,
            seq: None,
            frags: vec![Frag::default(); nfrags(size)],
            passed: false,
            delivered: 0,
        });
        ctx.note(|| format!("t={}ms ep{} send #{} {}{} {}B", (now - T0_US) / 1000, e, uid, mode_char(mode), ch, size));
        let hc = ep.hc.as_mut().unwrap();
        // The packet belongs to the library from here on
        lib(|| hc.send(data[..].into(), ch, mode));
        self.check_buffer(e);
    }

    pub fn flush(&mut self, ctx: &mut Ctx, e: usize) {
        let mut out = Vec::new();
        let hc = self.ep[e].hc.as_mut().unwrap();
        lib(|| hc.flush(&mut Capture(&mut out)));
        for b in out {
            self.emitted(ctx, e, b);
        }
        self.check_buffer(e);
    }

    fn emitted(&mut self, ctx: &mut Ctx, e: usize, bytes: Vec<u8>) {
        ctx.step();
        ctx.observe_bytes(&bytes);
        self.ep[e].last_tx_any = self.now_us;
        ensure!(!self.m.size || bytes.len() <= 1472, "ep{} sent a frame of {} bytes", e, bytes.len());
        let now = self.now_us;
        if let Some(t) = &mut self.trace {
            use std::hash::{Hash, Hasher};
            let mut h = std::collections::hash_map::DefaultHasher::new();
            bytes.hash(&mut h);
            t.push((now, e as u64, h.finish()));
        }
        let rtt = self.ep[e].hc.as_ref().unwrap().rtt_s().unwrap_or(0.0);
        if self.m.rate {
            let now = self.now_us;
            self.ep[e].tx.push((now, bytes.len() as u32, rtt));
        }
        let frame = match Frame::read(&bytes) {
            Some(f) => f,
            None => {
                // Lost, as far as the peer is concerned
                self.ep[e].frames_out += 1;
                self.fate_log[e].push(Fate::Drop);
                self.frames_total += 1;
                return;
            }
        };
        let verbose = ctx.verbose;
        if verbose {
            let d = match &frame {
                Frame::DataFrame(d) => {
                    let dgs: Vec<String> = d.datagrams.iter().map(|g| format!("{}:{}/{}", g.sequence_id, g.fragment_id, g.fragment_id_last)).collect();
                    format!("DATA {} [{}]", d.sequence_id, dgs.join(" "))
                }
                Frame::AckFrame(a) => format!("ACK fw={} pw={} groups={}", a.frame_window_base_id, a.packet_window_base_id, a.frame_acks.len()),
                Frame::SyncFrame(s) => format!("SYNC {:?} {:?}", s.next_frame_id, s.next_packet_id),
                _ => "?".into(),
            };
            let t = self.rel_ms();
            ctx.note(|| format!("t={}ms ep{} -> {} ({}B)", t, e, d, bytes.len()));
        }
        match &frame {
            Frame::DataFrame(d) => self.on_data_out(e, d),
            Frame::AckFrame(_) | Frame::SyncFrame(_) => (),
            _ => (),
        }
        // Fate
        let idx = self.ep[e].frames_out;
        self.ep[e].frames_out += 1;
        self.frames_total += 1;
        let mut fate = None;
        if let Some(pol) = &self.policy {
            fate = pol(e, idx, self.now_us - T0_US, &bytes);
        }
        let fate = match fate {
            Some(f) => f,
            None => {
                if self.frames_total <= self.p.branch && self.p.dirs[e] {
                    let i = ctx.choose(self.p.fates.len());
                    self.p.fates[i]
                } else {
                    Fate::Deliver
                }
            }
        };
        if verbose && fate != Fate::Deliver {
            ctx.note(|| format!("    fate {:?}", fate));
        }
        if fate != Fate::Deliver {
            self.last_fault_us = self.now_us;
        }
        self.fate_log[e].push(fate);
        if let Frame::AckFrame(_) = frame {
            self.acks_out.push((e, idx));
        }
        if let (Fate::Drop, Frame::DataFrame(d)) = (fate, &frame) {
            self.ep[e].frames.get_mut(&d.sequence_id).unwrap().dropped = true;
        }
        let lat = match &self.lat_fn {
            Some(f) => f(e, self.now_us - T0_US),
            None => self.p.lat,
        };
        let tick = self.p.tick_us;
        let mut at = self.now_us + lat as u64 * tick;
        if self.p.fifo {
            at = at.max(self.last_at[e]);
            self.last_at[e] = at;
        }
        let dst = 1 - e;
        let mut late = vec![];
        if let Some(x) = &self.extra {
            let d = if let Fate::Delay(n) = fate { n as u64 * tick } else { 0 };
            for (n, b) in x(e, idx, &bytes, fate) {
                if n < 0 {
                    self.ord += 1;
                    self.flights.push(Flight { at: (at + d).saturating_sub((-n) as u64 * tick), ord: self.ord, dst, bytes: b });
                } else {
                    late.push((at + d + n as u64 * tick, b));
                }
            }
        }
        let mut push = |at: u64, bytes: Vec<u8>| {
            self.ord += 1;
            self.flights.push(Flight { at, ord: self.ord, dst, bytes });
        };
        match fate {
            Fate::Deliver => push(at, bytes),
            Fate::Drop => (),
            Fate::Dup => {
                push(at, bytes.clone());
                push(at + tick, bytes);
            }
            Fate::Delay(n) => push(at + n as u64 * tick, bytes),
            Fate::DupDelay(n) => {
                push(at, bytes.clone());
                push(at + n as u64 * tick, bytes);
            }
            Fate::Corrupt(k) => {
                let mut b = bytes;
                let n = b.len() * 8;
                // One to four flipped bits, at positions determined by k
                let flips = (k as usize % 4) + 1;
                let mut pos = Vec::new();
                for j in 0..flips {
                    let q = match k / 4 {
                        0 => 8 + j * 9,                    // header
                        1 => n / 2 + j * 13,               // body
                        2 => n - 1 - j * 5,                // checksum
                        _ => (j * n / 4 + 40) % n,         // spread
                    } % n;
                    if !pos.contains(&q) {
                        pos.push(q);
                    }
                }
                for q in pos {
                    b[q / 8] ^= 1 << (q % 8);
                }
                push(at, b)
            }
        }
        for (at, b) in late {
            push(at, b);
        }
    }

    fn on_data_out(&mut self, e: usize, d: &uflow::verif::frame::DataFrame) {
        let now = self.now_us;
        let m = self.m;
        let ep = &mut self.ep[e];
        let mut frags = Vec::new();
        for g in d.datagrams.iter() {
            let idx = match ep.by_seq.get(&g.sequence_id) {
                Some(i) => *i,
                None => {
                    let i = match g.data.len() {
                        0 if g.fragment_id_last == 0 => ep.empty_uid.unwrap_or(usize::MAX),
                        0 => usize::MAX,
                        1 => g.data[0] as usize,
                        _ => g.data[0] as usize | (g.data[1] as usize) << 8,
                    };
                    if i >= ep.pkts.len() || ep.pkts[i].seq.is_some() || ep.pkts[i].frags.len() != g.fragment_id_last as usize + 1 {
                        // Not a datagram of any packet submitted. Whatever this does to the receiver
                        // is judged there.
                        continue;
                    }
                    ep.by_seq.insert(g.sequence_id, i);
                    ep.pkts[i].seq = Some(g.sequence_id);
                    i
                }
            };
            let steps = ep.steps;
            let pkt = &mut ep.pkts[idx];
            let f = g.fragment_id as usize;
            if f >= pkt.frags.len() {
                continue;
            }
            if m.txmode {
                if !pkt.retransmits() {
                    ensure!(pkt.frags[f].tx == 0, "fragment {} of {:?} packet #{} transmitted twice", f, pkt.mode, pkt.uid);
                }
                if pkt.mode == SendMode::TimeSensitive {
                    ensure!(pkt.begun() || pkt.submit_step == steps,
                        "TimeSensitive packet #{} first transmitted after {} step(s)", pkt.uid, steps - pkt.submit_step);
                }
                ensure!(!pkt.frags[f].acked, "fragment {} of {:?} packet #{} transmitted again after its acknowledgement", f, pkt.mode, pkt.uid);
                ensure!(!pkt.passed, "{:?} packet #{} transmitted after the receiver moved past it", pkt.mode, pkt.uid);
            }
            let fr = &mut pkt.frags[f];
            if fr.tx == 0 {
                fr.first_us = now;
            }
            fr.tx += 1;
            fr.last_us = now;
            frags.push((idx, f));
        }
        ep.frame_base.get_or_insert(d.sequence_id);
        ep.frame_next = Some(d.sequence_id.wrapping_add(1));
        ep.frames.insert(d.sequence_id, FrameRec { nonce: d.nonce, acked: false, maybe: false, dropped: false, at_us: now, frags });
        if m.window {
            let lim = (self.p.alloc[1 - e] + FRAG - 1) / FRAG * FRAG;
            let mut bytes = 0;
            let mut count = 0;
            for p in self.ep[e].pkts.iter() {
                if p.begun() && !p.passed {
                    bytes += alloc_size(p.size);
                    count += 1;
                }
            }
            ensure!(bytes <= lim, "ep{} has {} outstanding bytes, peer allows {}", e, bytes, lim);
            ensure!(count <= self.p.pw as usize, "ep{} has {} outstanding packets, window {}", e, count, self.p.pw);
        }
    }

    /// Processes an acknowledgement about to be handled by endpoint `e`
    fn on_ack_in(&mut self, e: usize, a: &uflow::verif::frame::AckFrame) {
        let now = self.now_us;
        let rtt_us = (self.ep[e].hc.as_ref().unwrap().rtt_s().unwrap_or(0.150) * 1e6) as u64;
        let ep = &mut self.ep[e];
        for g in a.frame_acks.iter() {
            if g.bitfield == 0 {
                continue;
            }
            let n = 32 - g.bitfield.leading_zeros();
            let mut ok = true;
            let mut old = false;
            let mut parity = false;
            for i in 0..n {
                let id = g.base_id.wrapping_add(i);
                // The sender remembers one window of frames behind the current one
                ok &= ep.frame_base.map_or(false, |b| id.wrapping_sub(b) as i32 >= -(self.p.fw as i32));
                match ep.frames.get(&id) {
                    Some(f) => {
                        old |= now - f.at_us > 3 * rtt_us || f.maybe;
                        if g.bitfield >> i & 1 != 0 {
                            parity ^= f.nonce;
                        }
                    }
                    _ => ok = false,
                }
            }
            // Whether it is accepted depends on how long frames are remembered
            if old || !ok {
                ep.unsure = true;
                for i in 0..n {
                    if let Some(f) = ep.frames.get_mut(&g.base_id.wrapping_add(i)) {
                        f.maybe |= g.bitfield >> i & 1 != 0 && !f.acked;
                    }
                }
            }
            let old = old && (0..n).any(|i| ep.frames.get(&g.base_id.wrapping_add(i)).map_or(true, |f| now - f.at_us > 3 * rtt_us));
            if ok && !old && parity == g.nonce {
                for i in 0..n {
                    if g.bitfield >> i & 1 != 0 {
                        let id = g.base_id.wrapping_add(i);
                        let r = ep.frames.get_mut(&id).unwrap();
                        if !r.acked {
                            r.acked = true;
                            ep.newly.push(r.at_us);
                        }
                        if ep.highest.map_or(true, |h| (id.wrapping_sub(h) as i32) > 0) {
                            ep.highest = Some(id);
                        }
                        for (p, f) in ep.frames[&g.base_id.wrapping_add(i)].frags.iter() {
                            ep.pkts[*p].frags[*f].acked = true;
                        }
                    }
                }
            }
        }
        if let (Some(b), Some(n)) = (ep.frame_base, ep.frame_next) {
            let d = a.frame_window_base_id.wrapping_sub(b);
            if d != 0 && d <= n.wrapping_sub(b) {
                ep.frame_base = Some(a.frame_window_base_id);
            }
        }
        let base = a.packet_window_base_id;
        let pw = self.p.pw;
        for p in ep.pkts.iter_mut() {
            if let Some(s) = p.seq {
                let d = psub(base, s);
                if d >= 1 && d <= pw {
                    p.passed = true;
                }
            }
        }
    }

    pub fn deliver_bytes(&mut self, ctx: &mut Ctx, e: usize, bytes: &[u8]) {
        let frame = lib(|| Frame::read(bytes));
        ctx.step();
        match frame {
            None => {
                let t = self.rel_ms();
                ctx.note(|| format!("t={}ms ep{} rejects a damaged frame", t, e));
            }
            Some(Frame::DataFrame(d)) => {
                let hc = self.ep[e].hc.as_mut().unwrap();
                lib(|| hc.handle_data_frame(d));
            }
            Some(Frame::SyncFrame(s)) => {
                let hc = self.ep[e].hc.as_mut().unwrap();
                lib(|| hc.handle_sync_frame(s));
            }
            Some(Frame::AckFrame(a)) => {
                self.on_ack_in(e, &a);
                let hc = self.ep[e].hc.as_mut().unwrap();
                lib(|| hc.handle_ack_frame(a));
                self.check_buffer(e);
            }
            Some(_) => (),
        }
    }

    pub fn arrivals(&mut self, ctx: &mut Ctx, e: usize) {
        let now = self.now_us;
        loop {
            let mut best: Option<usize> = None;
            for (i, f) in self.flights.iter().enumerate() {
                if f.dst == e && f.at <= now && best.map_or(true, |b| (f.at, f.ord) < (self.flights[b].at, self.flights[b].ord)) {
                    best = Some(i);
                }
            }
            match best {
                Some(i) => {
                    let f = self.flights.swap_remove(i);
                    self.deliver_bytes(ctx, e, &f.bytes);
                }
                None => break,
            }
        }
    }

    pub fn step_hc(&mut self, e: usize) {
        let hc = self.ep[e].hc.as_mut().unwrap();
        lib(|| hc.step());
        self.ep[e].steps += 1;
        self.check_buffer(e);
    }

    pub fn receive(&mut self, ctx: &mut Ctx, e: usize) {
        let mut got = Vec::new();
        let hc = self.ep[e].hc.as_mut().unwrap();
        lib(|| hc.receive(&mut Deliver(&mut got)));
        for d in got {
            self.on_receive(ctx, e, d);
        }
    }

    fn on_receive(&mut self, ctx: &mut Ctx, e: usize, d: Box<[u8]>) {
        let t = self.rel_ms();
        let src = &mut self.ep[1 - e];
        let i = match d.len() {
            0 => src.empty_uid.unwrap_or(usize::MAX),
            1 => d[0] as usize,
            _ => d[0] as usize | (d[1] as usize) << 8,
        };
        ctx.observe(0x7000_0000 + i as u64);
        ctx.note(|| format!("t={}ms ep{} receives #{} {}B", t, e, i, d.len()));
        if i >= src.pkts.len() {
            ensure!(!self.m.order && !self.m.global, "delivered a packet of {} bytes which was never submitted", d.len());
            return;
        }
        if self.m.order || self.m.global || self.m.reliable {
            let want = payload(i as u16, src.pkts[i].ch, src.pkts[i].size);
            ensure!(d[..] == want[..], "packet #{} delivered with altered contents ({} bytes, submitted {} bytes)", i, d.len(), want.len());
        }
        src.pkts[i].delivered += 1;
        let ch = src.pkts[i].ch;
        if self.m.order || self.m.global || (self.m.reliable && src.pkts[i].mode == SendMode::Reliable) {
            ensure!(src.pkts[i].delivered == 1, "packet #{} delivered twice", i);
        }
        if self.m.order {
            if let Some(last) = self.ep[e].got.iter().rev().find(|j| self.ep[1 - e].pkts[**j].ch == ch) {
                ensure!(*last < i, "channel {}: packet #{} delivered after packet #{}", ch, i, last);
            }
        }
        if self.m.reliable {
            for j in 0..i {
                let q = &self.ep[1 - e].pkts[j];
                if q.ch == ch && q.mode == SendMode::Reliable {
                    ensure!(q.delivered >= 1, "channel {}: packet #{} delivered before Reliable packet #{}", ch, i, j);
                }
            }
        }
        if self.m.global {
            if let Some(last) = self.ep[e].got.last() {
                ensure!(*last < i, "packet #{} delivered after packet #{} on an ideal network", i, last);
            }
        }
        self.ep[e].got.push(i);
    }

    pub fn check_buffer(&mut self, e: usize) {
        if !self.m.buffer {
            return;
        }
        let ep = &self.ep[e];
        let actual = ep.hc.as_ref().unwrap().send_buffer_size();
        let mut sum = 0usize;
        let mut maybe: Vec<usize> = Vec::new();
        let last_begun = ep.pkts.iter().rposition(|p| p.begun());
        for (i, p) in ep.pkts.iter().enumerate() {
            if p.passed {
                continue;
            }
            let stale = p.mode == SendMode::TimeSensitive && !p.begun() && p.submit_step != ep.steps;
            if !stale {
                sum += p.size;
            } else if last_begun.map_or(true, |l| i > l) {
                maybe.push(p.size);
            }
        }
        let mut ok = actual == sum;
        let mut s = sum;
        for m in maybe.iter().rev() {
            s += m;
            ok |= actual == s;
        }
        ensure!(ok, "ep{} send_buffer_size() is {}, unacknowledged packets total {} (plus stale {:?})", e, actual, sum, maybe);
    }

    /// One application loop iteration of both endpoints. Time advances afterwards.
    pub fn do_tick(&mut self, ctx: &mut Ctx) {
        for e in 0..2 {
            let skip = self.tick < self.p.skip_ticks && ctx.choose(2) == 1;
            while self.next_script < self.p.script.len()
                && self.p.script[self.next_script].tick <= self.tick
                && self.p.script[self.next_script].ep == e
            {
                let s = self.p.script[self.next_script].clone();
                self.next_script += 1;
                self.submit(ctx, e, s.size, s.ch, s.mode);
            }
            if skip {
                continue;
            }
            self.flush(ctx, e);
            self.arrivals(ctx, e);
            self.step_hc(e);
            self.receive(ctx, e);
            if self.p.post_flush {
                self.flush(ctx, e);
            }
        }
        self.tick += 1;
        if let Some(mut t) = self.trace.take() {
            for e in 0..2 {
                let hc = self.hc(e);
                let r = hc.rtt_s().map_or(0, |r| r.to_bits());
                t.push((r, hc.verif_send_rate().to_bits(), (hc.send_buffer_size() as u64) << 1 | hc.is_send_pending() as u64));
            }
            self.trace = Some(t);
        }
        self.advance(self.p.tick_us);
        ctx.state();
    }

    pub fn advance(&mut self, us: u64) {
        self.now_us += us;
        uflow::verif::time::set(Duration::from_micros(self.now_us));
    }

    pub fn in_flight(&self) -> usize {
        self.flights.len()
    }

    pub fn idle(&self, e: usize) -> bool {
        let hc = self.ep[e].hc.as_ref().unwrap();
        !hc.is_send_pending() && hc.send_buffer_size() == 0
    }

    pub fn quiescent(&self) -> bool {
        self.next_script >= self.p.script.len() && self.flights.is_empty() && self.idle(0) && self.idle(1)
    }

    /// Runs until both endpoints are idle. Returns false if that takes longer than `max_ms`, measured
    /// from the last fault.
    pub fn run(&mut self, ctx: &mut Ctx, max_ms: u64) -> bool {
        let t0 = self.now_us;
        while !self.quiescent() {
            if self.now_us > t0.max(self.last_fault_us) + max_ms * 1000 {
                return false;
            }
            self.do_tick(ctx);
        }
        true
    }

    pub fn describe(&self) -> String {
        let d: Vec<String> = (0..2)
            .map(|e| {
                let hc = self.ep[e].hc.as_ref().unwrap();
                let undel: Vec<u16> = self.ep[e].pkts.iter().filter(|p| p.mode == SendMode::Reliable && p.delivered == 0).map(|p| p.uid).collect();
                format!("ep{}: send_buffer={} pending={} undelivered reliable={:?} rate={}", e, hc.send_buffer_size(), hc.is_send_pending(), undel, hc.verif_send_rate())
            })
            .collect();
        d.join("; ")
    }

    /// Runs until both endpoints are idle. Fails if that takes longer than `max_ms`.
    pub fn run_to_quiescence(&mut self, ctx: &mut Ctx, max_ms: u64) {
        if !self.run(ctx, max_ms) {
            fail(format!("not quiescent {} ms after the last fault, on a working network: {}", max_ms, self.describe()));
        }
        self.check_reliable_all();
    }

    /// With both endpoints idle, all fragments which are to be retransmitted must have been
    /// acknowledged, unless the receiver moved past the packet.
    pub fn check_all_acked(&self) {
        for e in 0..2 {
            for p in self.ep[e].pkts.iter().filter(|p| p.retransmits() && !p.passed) {
                for (i, f) in p.frags.iter().enumerate() {
                    ensure!(f.acked, "idle, but fragment {} of {:?} packet #{} was never acknowledged", i, p.mode, p.uid);
                }
            }
        }
    }

    pub fn check_reliable_all(&self) {
        for e in 0..2 {
            for p in self.ep[e].pkts.iter() {
                if p.mode == SendMode::Reliable {
                    ensure!(p.delivered == 1, "ep{} idle, but Reliable packet #{} was not delivered", e, p.uid);
                }
            }
        }
    }

    /// Fails if any Persistent/Reliable fragment has waited too long for a retransmission
    pub fn check_retransmission(&self, max_us: u64) {
        for e in 0..2 {
            for p in self.ep[e].pkts.iter() {
                if !p.retransmits() || p.passed {
                    continue;
                }
                for (i, f) in p.frags.iter().enumerate() {
                    if f.tx > 0 && !f.acked {
                        ensure!(self.now_us - f.last_us <= max_us,
                            "unacknowledged fragment {} of {:?} packet #{} was not retransmitted for {} ms", i, p.mode, p.uid, (self.now_us - f.last_us) / 1000);
                    }
                }
            }
        }
    }

    pub fn check_rate(&self, e: usize, ceil: u32) {
        let tx = &self.ep[e].tx;
        for i in 0..tx.len() {
            let mut sum = 0u64;
            let mut rtt = 0f64;
            for j in i..tx.len() {
                sum += tx[j].1 as u64;
                rtt = rtt.max(tx[j].2);
                let dt = (tx[j].0 - tx[i].0) as f64 / 1e6;
                let lim = ceil as f64 * (dt + rtt) + 1472.0 + 8.0;
                ensure!(sum as f64 <= lim, "ep{} sent {} bytes within {:.6} s starting {} ms (ceiling {} B/s, rtt {:.3} s: limit {:.0})",
                    e, sum, dt, (tx[i].0 - T0_US) / 1000, ceil, rtt, lim);
            }
        }
    }
}
