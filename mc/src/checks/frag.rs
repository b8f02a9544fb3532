//! C04: fragmentation and reassembly.
use super::Check;
use crate::alloc::{harness, lib};
use crate::ensure;
use crate::explore::{fail, Ctx, Scenario};
use crate::hc::*;
use uflow::verif::frame::*;
use uflow::verif::{Config, FrameSink, HalfConnection, PacketSink};
use uflow::SendMode::{self, *};

pub struct Got(pub Vec<Box<[u8]>>);
impl PacketSink for Got {
    fn send(&mut self, d: Box<[u8]>) {
        harness(|| self.0.push(d))
    }
}

pub struct Out(pub Vec<Vec<u8>>);
impl FrameSink for Out {
    fn send(&mut self, d: &[u8]) {
        harness(|| self.0.push(d.to_vec()))
    }
}

/// A receiving half connection, fed frame by frame.
pub struct Rx {
    pub hc: HalfConnection,
    pub next_frame: u32,
    pub got: Vec<Box<[u8]>>,
    pub now_us: u64,
}

impl Rx {
    pub fn new(base_packet: u32, base_frame: u32, alloc: usize) -> Self {
        let cfg = Config {
            tx_frame_base_id: 500,
            rx_frame_base_id: base_frame,
            tx_frame_window_size: 8192,
            rx_frame_window_size: 8192,
            tx_packet_base_id: 500,
            rx_packet_base_id: base_packet,
            tx_packet_window_size: 4096,
            rx_packet_window_size: 4096,
            tx_bandwidth_limit: u32::MAX,
            tx_alloc_limit: alloc,
            rx_alloc_limit: alloc,
            keepalive_interval_ms: None,
        };
        Rx { hc: lib(|| HalfConnection::new(cfg)), next_frame: base_frame, got: vec![], now_us: T0_US }
    }

    /// Feeds a frame holding these datagrams, as if it came from the network
    pub fn feed(&mut self, ctx: &mut Ctx, d: Vec<Datagram>) {
        ctx.step();
        let f = Frame::DataFrame(DataFrame { sequence_id: self.next_frame, nonce: self.next_frame % 3 == 0, datagrams: d });
        self.next_frame = self.next_frame.wrapping_add(1);
        let b = f.write();
        let f = lib(|| Frame::read(&b));
        ensure!(f.is_some(), "harness: unreadable frame");
        if let Some(Frame::DataFrame(f)) = f {
            lib(|| self.hc.handle_data_frame(f));
        }
    }

    pub fn receive(&mut self, ctx: &mut Ctx) {
        let mut g = Got(vec![]);
        lib(|| self.hc.receive(&mut g));
        for d in g.0 {
            ctx.observe_bytes(&d);
            self.got.push(d);
        }
    }

    pub fn step(&mut self) {
        self.now_us += 20_000;
        uflow::verif::time::set(std::time::Duration::from_micros(self.now_us));
        lib(|| self.hc.step());
    }

    pub fn flush(&mut self) -> Vec<Vec<u8>> {
        let mut o = Out(vec![]);
        lib(|| self.hc.flush(&mut o));
        for b in o.0.iter() {
            ensure!(b.len() <= 1472, "a frame of {} bytes was sent", b.len());
        }
        o.0
    }
}

#[derive(Clone)]
struct Spec {
    seq: u32,
    ch: u8,
    w: u16,
    c: u16,
    data: Vec<u8>,
}

impl Spec {
    fn n(&self) -> usize {
        nfrags(self.data.len())
    }
    fn frag(&self, i: usize) -> Datagram {
        let a = i * FRAG;
        Datagram {
            sequence_id: self.seq,
            channel_id: self.ch,
            window_parent_lead: self.w,
            channel_parent_lead: self.c,
            fragment_id: i as u16,
            fragment_id_last: (self.n() - 1) as u16,
            data: self.data[a..(a + FRAG).min(self.data.len())].into(),
        }
    }
}

/// 9 of their own, and 7 disagreeing headers for the first and the last fragment not seen yet
const KINDS: usize = 9 + 14;

/// Fragments of several packets, in every order, with repetitions and disagreeing headers (deviations) in between
fn reassemble(c: &mut Check, name: &str, sizes: &'static [usize], reliable: bool, chans: &'static [u8], bound: u32) {
    let chans: Vec<u8> = chans.to_vec();
    c.add(Scenario::new(format!("order/{}", name), bound, move |ctx| {
        let base = ctx.choose_of(&[0xFFFFEu32, 9]);
        let often = ctx.choose_free(2) == 1;
        let mut specs: Vec<Spec> = vec![];
        for (i, s) in sizes.iter().enumerate() {
            let ch = chans[i % chans.len()];
            let (mut w, mut cl) = (0, 0);
            if reliable && i > 0 {
                w = 1;
                cl = (0..i).rev().find(|j| chans[j % chans.len()] == ch).map_or(0, |j| (i - j) as u16);
            }
            specs.push(Spec { seq: (base + i as u32) & PMASK, ch, w, c: cl, data: payload(i as u16, ch, *s) });
        }
        let mut rx = Rx::new(base, u32::MAX - 3, 1_000_000);
        let mut left: Vec<(usize, usize)> = specs.iter().enumerate().flat_map(|(i, s)| (0..s.n()).map(move |f| (i, f))).collect();
        let mut done: Vec<(usize, usize)> = vec![];
        while !left.is_empty() {
            let k = ctx.choose_free(left.len());
            let x = left.remove(k);
            // What comes before: nothing, a repetition, or a datagram disagreeing with what has been seen
            let n = done.len();
            let what = ctx.choose(1 + n + n * KINDS);
            let mut pre: Option<Datagram> = None;
            if what > n {
                let (i, f) = done[(what - n - 1) / KINDS];
                let mut d = specs[i].frag(f);
                let last = d.fragment_id_last;
                let kind = (what - n - 1) % KINDS;
                if kind >= 9 {
                    let missing: Vec<usize> = (0..specs[i].n()).filter(|m| !done.contains(&(i, *m))).collect();
                    let m = if kind % 2 == 1 { missing.first() } else { missing.last() };
                    d.fragment_id = m.copied().unwrap_or(f) as u16;
                    d.data = vec![0xEE; if d.fragment_id < last { FRAG } else { specs[i].frag(last as usize).data.len() }].into();
                }
                match kind {
                    9 | 10 => d.channel_id ^= 1,
                    11 | 12 => d.channel_id ^= 32,
                    13 | 14 => {
                        // A lead of the channel implies one of the window
                        d.window_parent_lead = if d.window_parent_lead == 1 && d.channel_parent_lead == 0 { 0 } else { d.window_parent_lead + 1 };
                    }
                    15 | 16 => {
                        d.channel_parent_lead = if d.channel_parent_lead > 0 { 0 } else { d.window_parent_lead };
                        if d.window_parent_lead == 0 {
                            d.channel_parent_lead = 3;
                            d.window_parent_lead = 3;
                        }
                    }
                    17 | 18 => {
                        d.fragment_id_last += 1;
                        d.data = vec![0xEE; FRAG].into();
                    }
                    19 | 20 => d.fragment_id_last = 0xFFFF,
                    21 | 22 => {
                        // Exactly as long as the packet has been seen to be
                        d.fragment_id_last = last.saturating_sub(1);
                        d.fragment_id = d.fragment_id.min(d.fragment_id_last);
                    }
                    0 => d.channel_id ^= 1,
                    1 => d.window_parent_lead += 1,
                    2 => d.channel_parent_lead += 2,
                    3 => {
                        d.fragment_id_last = last + 1;
                        d.data = vec![0xEE; FRAG].into();
                    }
                    4 => {
                        d.fragment_id = last + 1;
                        d.fragment_id_last = last + 1;
                        d.data = vec![0xEE; 3].into();
                    }
                    5 => {
                        // Claims to be all of the packet
                        d.fragment_id = 0;
                        d.fragment_id_last = if last == 0 { 1 } else { 0 };
                        d.data = vec![0xEE; if last == 0 { FRAG } else { 9 }].into();
                    }
                    6 => {
                        // The same fragment, of another length
                        let n = d.data.len();
                        d.data = vec![0xEE; if f as u16 == last && n < FRAG { n + 1 } else { n.max(1) - 1 }].into();
                        if n == 0 && last == 0 {
                            d.data = vec![0xEE; 5].into();
                        }
                    }
                    7 => {
                        let n = d.data.len();
                        d.data = vec![0xEE; if f as u16 == last { n / 2 } else { FRAG + 1 }].into();
                    }
                    _ => {
                        // A fragment which was not received yet, with a shorter packet in mind
                        d.fragment_id = if f as u16 + 1 < last { f as u16 + 1 } else { 0 };
                        d.fragment_id_last = if last > 0 { last - 1 } else { 2 };
                        d.data = vec![0xEE; if d.fragment_id == d.fragment_id_last { 7 } else { FRAG }].into();
                    }
                }
                pre = Some(d);
            } else if what > 0 {
                let (i, f) = done[what - 1];
                pre = Some(specs[i].frag(f));
            }
            ctx.note(|| format!("before {:?}: {:?}", x, pre.as_ref().map(|d| (d.sequence_id, d.fragment_id, d.fragment_id_last))));
            let d = specs[x.0].frag(x.1);
            if let Some(p) = pre {
                // In a frame of its own, or in front of the genuine datagram if both fit
                if p.data.len() + d.data.len() < 1400 {
                    rx.feed(ctx, vec![p, d]);
                } else {
                    rx.feed(ctx, vec![p]);
                    rx.feed(ctx, vec![d]);
                }
            } else {
                rx.feed(ctx, vec![d]);
            }
            done.push(x);
            if often {
                rx.receive(ctx);
            }
            ctx.state();
        }
        // And everything once more
        for (i, f) in done.iter() {
            rx.feed(ctx, vec![specs[*i].frag(*f)]);
        }
        rx.receive(ctx);
        let mut seen = vec![false; specs.len()];
        for d in rx.got.iter() {
            match specs.iter().position(|s| s.data[..] == d[..]) {
                None => fail(format!("a packet of {} bytes was delivered which differs from every packet sent", d.len())),
                Some(i) => {
                    ensure!(!seen[i], "packet {} was delivered twice", i);
                    seen[i] = true;
                }
            }
        }
        if reliable || specs.len() == 1 {
            ensure!(rx.got.len() == specs.len(), "{} packets were delivered, although all fragments of {} packets have arrived", rx.got.len(), specs.len());
        } else {
            ensure!(!rx.got.is_empty(), "nothing was delivered");
        }
        ctx.state();
    }));
}

fn order_of(kind: usize, n: usize) -> Vec<usize> {
    match kind {
        0 => (0..n).collect(),
        1 => (0..n).rev().collect(),
        2 => (0..n).step_by(2).chain((1..n).step_by(2)).collect(),
        3 => (0..n).flat_map(|i| [i, i]).collect(),
        4 => (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect(),
        5 => (0..64).flat_map(|r| (0..n).filter(move |i| i % 64 == 63 - r)).collect(),
        _ => (0..n).chain((0..n - 1).rev()).collect::<Vec<_>>().into_iter().skip(n - 1).chain(0..n).collect(),
    }
}

/// Sends the packets over a clean network, as fast as it goes, and compares
fn clean(ctx: &mut Ctx, p: P, chk: bool) {
    let m = Monitors { order: true, reliable: true, global: true, size: true, ..Default::default() };
    let mut w = World::new(p, m);
    w.run_to_quiescence(ctx, 400_000);
    if chk {
        for e in 0..2 {
            for p in w.ep[e].pkts.iter() {
                ensure!(p.delivered == 1 || p.mode == TimeSensitive, "{:?} packet #{} of {} bytes was not delivered on a clean network", p.mode, p.uid, p.size);
            }
        }
    }
    ctx.state();
}

pub fn c04(thorough: bool) -> Check {
    let mut c = Check::new(if thorough { 800 } else { 150 }, format!(
        "receiver: all orders of the fragments of up to 3 packets (2..{} fragments in total), with up to {} repeated or header-disagreeing datagrams (23 kinds, among them repetitions of another length, and fragments not yet seen under every kind of disagreeing header) anywhere; 2..65536 fragments in 7 systematic orders with last fragments of 1, 1447 and 1448 bytes; end to end: every size 0..{}, sizes around 3..200 fragments and 65536 x 1448, pairs of sizes filling a frame to within 4 bytes of the limit for every first size, triples and quadruples of boundary sizes, 127+ datagrams per frame, leads beyond the header thresholds, ceilings cutting packets between fragments, up to {} network faults among the first frames",
        if thorough { 7 } else { 6 }, if thorough { 2 } else { 1 }, if thorough { 6000 } else { 4400 }, if thorough { 3 } else { 2 }));
    let t = thorough;
    // Receiver
    reassemble(&mut c, "2", &[1449], false, &[0], 2);
    reassemble(&mut c, "3", &[4344], false, &[3], 2);
    reassemble(&mut c, "4", &[4345], true, &[0], 2);
    reassemble(&mut c, "5", &[7239], false, &[63], if t { 2 } else { 1 });
    reassemble(&mut c, "0", &[0], true, &[7], 2);
    reassemble(&mut c, "1+1", &[100, 1448], true, &[0], 2);
    reassemble(&mut c, "2+1", &[2896, 4], true, &[0, 1], 2);
    reassemble(&mut c, "2+2", &[1450, 2895], true, &[0], 2);
    reassemble(&mut c, "2+2u", &[1450, 2895], false, &[0, 5], 2);
    reassemble(&mut c, "3+2", &[2897, 2896], true, &[1, 0], if t { 2 } else { 1 });
    reassemble(&mut c, "2+2+1", &[1449, 2000, 10], true, &[0, 1, 0], if t { 2 } else { 1 });
    reassemble(&mut c, "3+3", &[3000, 4344], true, &[0], if t { 1 } else { 0 });
    reassemble(&mut c, "2+2+2", &[1449, 2000, 2896], true, &[0, 1], if t { 1 } else { 0 });
    if t {
        reassemble(&mut c, "6", &[8000], true, &[0], 1);
        reassemble(&mut c, "3+2+2", &[3000, 2000, 2896], true, &[0, 1], 0);
        reassemble(&mut c, "7", &[10_000], true, &[0], 0);
    }
    c.add(Scenario::new("many", 0, move |ctx| {
        let n = ctx.choose_of(&[2usize, 3, 31, 32, 33, 63, 64, 65, 127, 128, 129, 192, 255, 256, 257, 500, 1024, 4097, 65535, 65536]);
        let last = ctx.choose_of(&[1usize, 1447, 1448]);
        let kind = ctx.choose_free(7);
        if n > 60_000 && !(t || last == 1447 && kind < 3) {
            return;
        }
        let s = Spec { seq: 0xFFFFF, ch: 2, w: 0, c: 0, data: payload(1, 2, (n - 1) * FRAG + last) };
        let mut rx = Rx::new(0xFFFFF, u32::MAX - 9, 65536 * FRAG);
        let order = order_of(kind, n);
        let total = order.len();
        for (k, f) in order.into_iter().enumerate() {
            rx.feed(ctx, vec![s.frag(f)]);
            if k % 1000 == 999 || k + 2 >= total {
                rx.receive(ctx);
                rx.step();
                rx.flush();
                ctx.heartbeat();
            }
        }
        rx.receive(ctx);
        ensure!(rx.got.len() == 1, "{} fragments have arrived (order {}), but {} packets were delivered", n, kind, rx.got.len());
        ensure!(rx.got[0].len() == s.data.len() && rx.got[0][..] == s.data[..], "a packet of {} fragments was altered (order {})", n, kind);
        ctx.state();
    }));
    // End to end
    let top = if t { 6000 } else { 4400 };
    c.add(Scenario::new("sizes", 0, move |ctx| {
        let chunk = ctx.choose_free(top / 10 + 1);
        let mode = if t { ctx.choose_of(&MODES) } else { MODES[chunk % 4] };
        for size in chunk * 10..chunk * 10 + 10 {
            let mut script: Vec<Send> = vec![send(0, 0, size, 0, mode)];
            if size != 1 {
                script.push(send(0, 0, (size + 700) % 1500 + 2, 1, Reliable));
            }
            clean(ctx, P { script, base_pkt: [PMASK, 5], ..P::default() }, true);
        }
    }));
    c.add(Scenario::new("multiples", 0, move |ctx| {
        let k = ctx.choose_of(&[3usize, 4, 7, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200]);
        let d = ctx.choose_free(5) as isize - 2;
        let mode = ctx.choose_of(&MODES);
        let bw = ctx.choose_of(&[u32::MAX, 20_000_000]);
        let script = vec![send(0, 0, 20, 0, Reliable), send(5, 0, ((k * FRAG) as isize + d) as usize, 1, mode), send(5, 0, 30, 0, Unreliable)];
        clean(ctx, P { script, bw: [bw; 2], lat: 1, ..P::default() }, true);
    }));
    c.add(Scenario::new("max", 0, move |ctx| {
        let size = if t { 65536 * FRAG - ctx.choose_of(&[0usize, 1, 1447, 1448]) } else { 65536 * FRAG };
        let script = vec![send(0, 0, 20, 0, Reliable), send(5, 0, size, 1, Reliable)];
        let p = P { script, bw: [u32::MAX; 2], alloc: [65536 * FRAG + FRAG; 2], lat: 1, fw: 8192, tick_us: 50_000, ..P::default() };
        let mut w = World::new(p, Monitors { order: true, reliable: true, size: true, ..Default::default() });
        let t0 = w.now_us;
        while !w.quiescent() {
            w.do_tick(ctx);
            ctx.heartbeat();
            ensure!(w.now_us < t0 + 400_000_000, "a packet of {} bytes has not been delivered within 400 s: {}", size, w.describe());
        }
        w.check_reliable_all();
        ctx.state();
    }));
    // Two packets which together just fit, or just do not
    c.add(Scenario::new("fill2", 0, move |ctx| {
        let chunk = ctx.choose_free(146);
        for a in chunk * 10..(chunk * 10 + 10).min(1449) {
            let ha = if a < 64 { 6 } else if a < 256 { 9 } else { 14 };
            for hb in [6isize, 9, 14] {
                for delta in -3isize..=if t { 6 } else { 3 } {
                    let b = 1462 - ha - a as isize - hb + delta;
                    let real = if b < 64 { 6 } else if b < 256 { 9 } else { 14 };
                    if !(2..=1448).contains(&b) || real != hb || a == 1 {
                        continue;
                    }
                    clean(ctx, P { script: vec![send(0, 0, a, 0, Unreliable), send(0, 0, b as usize, 0, Reliable), send(0, 0, 40, 1, Unreliable)], ..P::default() }, true);
                }
            }
        }
    }));
    let set: &'static [usize] = if t { &[2, 63, 64, 255, 256, 700, 1433, 1434, 1435, 1447, 1448, 1449, 2895, 2896, 2897, 4344] } else { &[2, 63, 64, 255, 256, 1434, 1447, 1448, 1449, 2896, 2897] };
    c.add(Scenario::new("mix", 0, move |ctx| {
        let a = ctx.choose_of(set);
        let b = ctx.choose_of(set);
        let bw = ctx.choose_of(&[2_000_000u32, 3000]);
        for x in set {
            for modes in [[Reliable; 4], [Unreliable, Persistent, Reliable, Unreliable]] {
                let script = vec![send(0, 0, a, 0, modes[0]), send(0, 0, b, 1, modes[1]), send(0, 0, *x, 0, modes[2]), send(0, 0, 0, 1, modes[3])];
                clean(ctx, P { script, bw: [bw; 2], post_flush: bw == 3000, ..P::default() }, true);
            }
        }
    }));
    // Many datagrams per frame, and long leads
    c.add(Scenario::new("tiny", 0, move |ctx| {
        let n = ctx.choose_of(&[126u32, 127, 128, 129, 254, 255, 256, 257, 300, 600]);
        let first = ctx.choose_of(&[Reliable, Unreliable]);
        let size = ctx.choose_of(&[2usize, 3, 5, 6, 30, 62, 63, 64]);
        let ch = ctx.choose_of(&[0u8, 1]);
        let mut script = vec![send(0, 0, 10, 0, first)];
        script.extend((0..n).map(|i| send(i / 300, 0, size + (i % 2) as usize, if i % 5 == 0 { ch } else { 0 }, Unreliable)));
        script.push(send(n / 300, 0, 1400, 0, Reliable));
        script.push(send(n / 300, 0, 3000, 0, Reliable));
        clean(ctx, P { script, lat: 10, bw: [20_000_000; 2], ..P::default() }, true);
    }));
    super::transfer::tiny(&mut c, Monitors { order: true, reliable: true, size: true, ..Default::default() }, super::transfer::End::Quiescent, t);
    // Owed acknowledgements
    c.add(Scenario::new("acks", 0, move |ctx| {
        let n = ctx.choose_of(&[1u32, 2, 33, 160, 161, 162, 163, 200, 250]);
        let gap = ctx.choose_of(&[1u32, 2, 31, 32]);
        let data = ctx.choose_of(&[None, Some(1448usize), Some(100)]);
        let mut rx = Rx::new(5, u32::MAX - 100, 100_000);
        for _ in 0..n {
            rx.feed(ctx, vec![]);
            rx.next_frame = rx.next_frame.wrapping_add(gap - 1);
        }
        for _ in 0..3 {
            if let Some(s) = data {
                lib(|| rx.hc.send(harness(|| vec![1u8; s].into()), 0, Reliable));
            }
            for b in rx.flush() {
                ctx.observe_bytes(&b);
            }
            rx.step();
        }
        ctx.state();
    }));
    // Faults, with packets cut anywhere by the rate
    let scripts: [(&str, Vec<usize>); 4] = [("5", vec![7000]), ("3+2", vec![4344, 20, 1449]), ("2+2+2", vec![2000, 2001, 2002, 30]), ("4+1+2", vec![4500, 1448, 2896])];
    for (name, sizes) in scripts {
        for (bi, bw) in [2_000_000u32, 12_000, 3000].into_iter().enumerate() {
            for (mi, modes) in [[Reliable, Reliable], [Persistent, Unreliable]].into_iter().enumerate() {
                let sizes = sizes.clone();
                let bound = if t { 3 } else { 2 };
                c.add(Scenario::new(format!("fault/{}/{}/{}", name, bw, mi), bound, move |ctx| {
                    let script: Vec<Send> = sizes.iter().enumerate().map(|(i, s)| send(i as u32 / 2, 0, *s, (i % 2) as u8, modes[i % 2] as SendMode)).collect();
                    let fates = vec![Fate::Deliver, Fate::Drop, Fate::Dup, Fate::Delay(2), Fate::DupDelay(9), Fate::Delay(20)];
                    let p = P { script, bw: [bw; 2], lat: 1, pw: 8, fw: 16, base_pkt: [PMASK - 1, 4], base_frame: [u32::MAX - 1, 3], branch: 14, fates, post_flush: bi == 1, ..P::default() };
                    let m = Monitors { order: true, reliable: true, size: true, ..Default::default() };
                    let mut w = World::new(p, m);
                    w.run_to_quiescence(ctx, 400_000);
                    ctx.state();
                }));
            }
        }
    }
    super::app::c04(&mut c, t);
    c
}
