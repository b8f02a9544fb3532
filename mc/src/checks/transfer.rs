//! C01, C02, C05, C11, C12, C13, C20: two half connections over a faulty network.
use super::Check;
use crate::ensure;
use crate::explore::{Ctx, Scenario};
use crate::hc::*;
use uflow::verif::frame::{Frame, Serialize};
use uflow::SendMode::{self, *};

const NEAR_P: [u32; 2] = [PMASK - 2, PMASK - 5];
const NEAR_F: [u32; 2] = [u32::MAX - 2, u32::MAX - 1];

/// Named send histories covering modes, channels and sizes.
pub fn scripts() -> Vec<(&'static str, Vec<Send>)> {
    vec![
        ("mix1", vec![
            send(0, 0, 100, 0, Reliable), send(0, 0, 101, 0, Unreliable), send(0, 0, 102, 1, Persistent),
            send(1, 0, 103, 0, Reliable), send(1, 0, 0, 1, Unreliable), send(2, 0, 105, 0, TimeSensitive),
            send(2, 0, 106, 0, Unreliable), send(3, 0, 107, 1, Reliable), send(4, 0, 108, 0, Persistent),
        ]),
        ("frag", vec![
            send(0, 0, 3000, 0, Reliable), send(0, 0, 40, 0, Unreliable), send(1, 0, 2000, 1, Persistent),
            send(2, 0, 41, 1, Reliable), send(3, 0, 1449, 0, Unreliable), send(4, 0, 42, 0, Reliable),
        ]),
        ("chans", vec![
            send(0, 0, 10, 0, Unreliable), send(0, 0, 11, 63, Reliable), send(0, 0, 12, 32, Reliable),
            send(1, 0, 13, 31, Unreliable), send(1, 0, 14, 63, Unreliable), send(2, 0, 15, 32, Persistent),
            send(2, 0, 16, 0, Reliable), send(3, 0, 17, 31, Reliable), send(3, 0, 18, 63, Reliable),
        ]),
        ("both", vec![
            send(0, 0, 100, 0, Reliable), send(0, 1, 200, 0, Reliable), send(1, 0, 101, 0, Unreliable),
            send(1, 1, 201, 1, Persistent), send(2, 0, 1500, 2, Reliable), send(2, 1, 1501, 1, Unreliable),
            send(3, 0, 103, 0, Persistent), send(3, 1, 203, 0, Reliable),
        ]),
        ("unrel", vec![
            send(0, 0, 30, 0, Unreliable), send(1, 0, 31, 0, Unreliable), send(2, 0, 32, 1, Unreliable),
            send(3, 0, 33, 0, TimeSensitive), send(4, 0, 34, 1, Unreliable), send(5, 0, 35, 0, Unreliable),
            send(6, 0, 36, 0, Reliable), send(7, 0, 37, 0, Unreliable),
        ]),
        ("pers", vec![
            send(0, 0, 30, 0, Persistent), send(1, 0, 2900, 0, Persistent), send(2, 0, 32, 1, Unreliable),
            send(3, 0, 33, 1, Persistent), send(4, 0, 34, 0, Unreliable), send(5, 0, 35, 1, Persistent),
        ]),
    ]
}

/// A steady stream, long enough to cycle small windows several times.
fn stream(n: u32, per_tick: u32, modes: &[SendMode], sizes: &[usize], chans: &[u8]) -> Vec<Send> {
    (0..n)
        .map(|i| {
            let k = i as usize;
            send(i / per_tick, 0, sizes[k % sizes.len()] + (k / sizes.len()) % 7, chans[k % chans.len()], modes[k % modes.len()])
        })
        .collect()
}

fn fates_full() -> Vec<Fate> {
    vec![Fate::Deliver, Fate::Drop, Fate::Dup, Fate::Delay(3), Fate::DupDelay(8), Fate::Delay(12), Fate::Corrupt(0), Fate::Corrupt(5), Fate::Corrupt(10), Fate::Corrupt(15)]
}

fn fates_main() -> Vec<Fate> {
    vec![Fate::Deliver, Fate::Drop, Fate::DupDelay(5), Fate::Delay(4)]
}

fn bases(i: usize) -> ([u32; 2], [u32; 2]) {
    match i {
        0 => ([5, 77], [1000, 2000]),
        1 => (NEAR_P, NEAR_F),
        2 => ([PMASK, 0], [u32::MAX, 0]),
        _ => ([PMASK - 63, PMASK - 3], [0xFFFF_FFF0, 0x7FFF_FFFE]),
    }
}

/// What is demanded at the end of an execution
#[derive(Clone, Copy, PartialEq)]
pub enum End {
    Nothing,
    Quiescent,
    AllAcked,
    Probes,
}

const SETTLE_MS: u64 = 400_000;

fn finish(w: &mut World, ctx: &mut Ctx, end: End) {
    match end {
        End::Nothing => {
            w.run(ctx, SETTLE_MS);
        }
        End::Quiescent => w.run_to_quiescence(ctx, SETTLE_MS),
        End::Probes => {
            if !w.run(ctx, SETTLE_MS) {
                crate::explore::fail(format!("stalled: not idle {} s after the last fault: {}", SETTLE_MS / 1000, w.describe()));
            }
            probe(w, ctx, 100, 20);
        }
        End::AllAcked => {
            if w.run(ctx, SETTLE_MS) {
                w.check_all_acked();
            } else {
                w.check_retransmission(SETTLE_MS * 1000);
            }
        }
    }
}

/// On a network which has been working for a while, new packets of every mode must get through.
fn probe(w: &mut World, ctx: &mut Ctx, within_s: u64, ts_tries: usize) {
    w.p.branch = 0;
    w.p.skip_ticks = 0;
    w.policy = None;
    for e in 0..2 {
        for (i, mode) in [Unreliable, Persistent, Reliable].into_iter().enumerate() {
            let n = w.ep[e].pkts.len();
            w.submit(ctx, e, 40 + i, [0u8, 1, 5][i], mode);
            let t0 = w.now_us;
            while w.ep[e].pkts[n].delivered == 0 {
                if w.now_us - t0 > within_s * 1_000_000 {
                    crate::explore::fail(format!("ep{}: {:?} packet submitted {} s after the last fault was not delivered within {} s: {}",
                        e, mode, t0.saturating_sub(w.last_fault_us) / 1_000_000, within_s, w.describe()));
                }
                w.do_tick(ctx);
            }
        }
        let n = w.ep[e].pkts.len();
        let mut done = false;
        for _ in 0..ts_tries {
            w.submit(ctx, e, 50, 1, TimeSensitive);
            let t0 = w.now_us;
            while w.now_us - t0 < 4_000_000 && !done {
                w.do_tick(ctx);
                done = w.ep[e].pkts[n..].iter().any(|p| p.delivered > 0);
            }
            if done {
                break;
            }
        }
        ensure!(done, "ep{}: none of {} TimeSensitive packets submitted long after the last fault was delivered: {}", e, ts_tries, w.describe());
    }
}

/// Scenarios in which the fates of the first `branch` frames are chosen, up to `bound` faults.
fn fault_scenarios(c: &mut Check, m: Monitors, end: End, thorough: bool) {
    let b = move |q: u32, t: u32| if thorough { t } else { q };
    let less = (end == End::Probes) as u32;
    for (name, script) in scripts() {
        for base in 0..if thorough { 4 } else { 2 } {
            for (pw, fw, lat) in [(8u32, 8u32, 2u32), (4, 4, 1), (64, 64, 3)] {
                if !thorough && (pw == 64) != (base == 0) && pw != 8 {
                    continue;
                }
                let (bp, bf) = bases(base);
                let script = script.clone();
                let branch = b(14, 24);
                c.add(Scenario::new(format!("fault/{}/base{}/w{}", name, base, pw), b(3, 4) - less, move |ctx| {
                    let p = P { pw, fw, lat, base_pkt: bp, base_frame: bf, branch, fates: fates_main(), script: script.clone(), ..P::default() };
                    let mut w = World::new(p, m);
                    finish(&mut w, ctx, end);
                }));
            }
        }
        // One or two faults of every kind, anywhere
        let s2 = script.clone();
        c.add(Scenario::new(format!("fault1/{}", name), b(2, 2), move |ctx| {
            let (bp, bf) = bases(1);
            let p = P { pw: 16, fw: 16, base_pkt: bp, base_frame: bf, branch: 40, fates: fates_full(), script: s2.clone(), ..P::default() };
            let mut w = World::new(p, m);
            finish(&mut w, ctx, end);
        }));
        // Timing: endpoints which skip steps, and losses
        let s3 = script.clone();
        c.add(Scenario::new(format!("timing/{}", name), b(3, 4) - less, move |ctx| {
            let p = P { pw: 8, fw: 8, lat: 1, branch: 10, skip_ticks: 8, post_flush: true, fates: vec![Fate::Deliver, Fate::Drop, Fate::DupDelay(3)], script: s3.clone(), ..P::default() };
            let mut w = World::new(p, m);
            finish(&mut w, ctx, end);
        }));
    }
    // Packets cut across flushes by a low ceiling, and an exhausted receive allocation
    for (name, alloc, bw) in [("budget", 1_000_000usize, 2000u32), ("alloc", 4344, 100_000), ("both", 4400, 5000)] {
        for (mname, modes) in [("TPUR", [TimeSensitive, Persistent, Unreliable, Reliable]), ("URUT", [Unreliable, Reliable, Unreliable, TimeSensitive])] {
            let branch = b(24, 40);
            c.add(Scenario::new(format!("{}/{}", name, mname), b(2, 3), move |ctx| {
                let sizes: [usize; 4] = ctx.choose_of(&[[2000, 3000, 1460, 40], [1448, 50, 4300, 60], [4340, 1500, 30, 2900]]);
                let script = (0..14u32).map(|i| send(i / 2, 0, sizes[i as usize % 4], [0, 1, 0][i as usize % 3], modes[i as usize % 4])).collect();
                let (bp, bf) = bases(1);
                let p = P { pw: 8, fw: 16, lat: 1, alloc: [alloc; 2], bw: [bw, 5000], base_pkt: bp, base_frame: bf, branch, fates: fates_main(), script, ..P::default() };
                let mut w = World::new(p, m);
                finish(&mut w, ctx, end);
            }));
        }
    }
    // Every subset of the first n frames of a direction (or of both) lost
    let masks = b(11, 14);
    for (dname, dirs) in [("data", [true, false]), ("ack", [false, true]), ("all", [true, true])] {
        for (name, script) in scripts() {
            if !thorough && !(name == "mix1" || name == "both" || name == "frag") {
                continue;
            }
            let pw = if name == "mix1" { 4 } else { 8 };
            c.add(Scenario::new(format!("mask/{}/{}", dname, name), 0, move |ctx| {
                let mut mask = 0u32;
                for i in 0..masks {
                    mask |= (ctx.choose_free(2) as u32) << i;
                }
                let (bp, bf) = bases(1);
                let p = P { pw, fw: pw, base_pkt: bp, base_frame: bf, script: script.clone(), ..P::default() };
                let mut w = World::new(p, m);
                w.policy = Some(Box::new(move |e, idx, _, _| {
                    if dirs[e] && idx < masks && mask >> idx & 1 != 0 { Some(Fate::Drop) } else { None }
                }));
                finish(&mut w, ctx, end);
            }));
        }
    }
    // A frame window filled with frames nobody repeats, with packets waiting behind them
    for (mname, before, last) in [("UR", Unreliable, Reliable), ("UP", Unreliable, Persistent), ("RU", Reliable, Unreliable)] {
        for fw in [1u32, 2, 4] {
            c.add(Scenario::new(format!("window/{}/f{}", mname, fw), 0, move |ctx| {
                let n = fw + 2 + b(2, 4);
                let mut mask = 0u32;
                for i in 0..n {
                    mask |= (ctx.choose_free(2) as u32) << i;
                }
                let k = ctx.choose_of(&[fw - 1, fw, fw + 1]);
                let size = ctx.choose_of(&[50usize, 1460, 3000]);
                let later = ctx.choose_of(&[0u32, 3, 40]);
                let lat = ctx.choose_of(&[1u32, 4]);
                let dir = ctx.choose_free(2);
                let (bp, bf) = bases(1);
                let mut script: Vec<Send> = (0..k).map(|i| send(0, 0, 1400 + i as usize, (i % 2) as u8, before)).collect();
                script.push(send(later, 0, size, 0, last));
                script.push(send(later, 0, 40, 1, Unreliable));
                script.push(send(later + 1, 0, size + 1, 1, last));
                let p = P { pw: 16, fw, lat, base_pkt: bp, base_frame: bf, script, ..P::default() };
                let mut w = World::new(p, m);
                w.policy = Some(Box::new(move |e, idx, _, _| if e == dir && idx < n && mask >> idx & 1 != 0 { Some(Fate::Drop) } else { None }));
                finish(&mut w, ctx, end);
            }));
        }
    }
    // Long streams cycling the windows, with a loss burst anywhere, duplicates replayed much later
    for (name, modes) in [
        ("R", vec![Reliable]), ("U", vec![Unreliable]), ("RU", vec![Reliable, Unreliable, Unreliable]),
        ("PU", vec![Persistent, Unreliable]), ("all", vec![Unreliable, Reliable, TimeSensitive, Persistent, Unreliable]),
    ] {
        for (wname, pw, fw) in [("p2", 2u32, 8u32), ("p4f4", 4, 4), ("f2", 8, 2), ("p32", 32, 32)] {
            let modes = modes.clone();
            let n = b(50, 120);
            c.add(Scenario::new(format!("stream/{}/{}", name, wname), 0, move |ctx| {
                let start = ctx.choose_free(24) as u32 * 2;
                let len = ctx.choose_of(&[1u32, 3, 8, 20]);
                let dir = ctx.choose_free(3);
                let kind = ctx.choose_free(3);
                let (bp, bf) = bases(3);
                let p = P { pw, fw, lat: 1, base_pkt: bp, base_frame: bf, script: stream(n, 3, &modes, &[20, 400, 1460, 60], &[0, 1, 0, 5]), ..P::default() };
                let mut w = World::new(p, m);
                w.policy = Some(Box::new(move |e, idx, _, _| {
                    if (dir == 2 || dir == e) && idx >= start && idx < start + len {
                        Some([Fate::Drop, Fate::DupDelay(11), Fate::Delay(17)][kind])
                    } else {
                        None
                    }
                }));
                finish(&mut w, ctx, end);
            }));
        }
    }
    tiny(c, m, end, thorough);
    steady(c, m, end, thorough);
}

/// Brings a connection to a rate at which nothing is delayed.
fn warm_up(w: &mut World, ctx: &mut Ctx) {
    let mut n = 0;
    while w.rel_ms() < 2000 {
        load(w, ctx, 0, &mut n, 8, 30_000, &[Unreliable, Reliable], &[1000, 50]);
        w.do_tick(ctx);
    }
    if !w.run(ctx, 10_000) {
        ensure!(false, "harness: not idle 10 s after a load of 2 s: {}", w.describe());
    }
}

/// Frames full of small packets, any of the first of which are lost: many fragments per frame, and
/// leads beyond the thresholds of the headers.
pub fn tiny(c: &mut Check, m: Monitors, end: End, thorough: bool) {
    let mixes: [(&str, &'static [SendMode]); 5] = [("R", &[Reliable]), ("U", &[Unreliable]), ("PU", &[Persistent, Unreliable]), ("RUU", &[Reliable, Unreliable, Unreliable]), ("TRP", &[TimeSensitive, Reliable, Persistent])];
    for (mname, modes) in mixes {
        c.add(Scenario::new(format!("tiny/{}", mname), 0, move |ctx| {
            let n = if thorough { ctx.choose_of(&[40u32, 126, 127, 128, 129, 254, 255, 256, 257, 300, 600]) } else { ctx.choose_of(&[40u32, 128, 256, 300]) };
            let size = if thorough { ctx.choose_of(&[2usize, 3, 30, 62, 63, 64, 254, 255, 256]) } else { ctx.choose_of(&[2usize, 62, 255]) };
            let first = ctx.choose_of(&[Reliable, Unreliable, Persistent]);
            let lat = ctx.choose_of(&[1u32, 6]);
            let two = ctx.choose_free(2) == 1;
            let frames = if thorough { 5 } else { 4 };
            let mut mask = 0u32;
            for i in 0..frames {
                mask |= (ctx.choose_free(2) as u32) << i;
            }
            let (bp, bf) = bases(1);
            let mut w = World::new(P { lat, base_pkt: bp, base_frame: bf, bw: [4_000_000; 2], ..P::default() }, m);
            warm_up(&mut w, ctx);
            let f0 = w.ep[0].frames_out;
            w.policy = Some(Box::new(move |e, idx, _, _| if e == 0 && idx >= f0 && idx < f0 + frames && mask >> (idx - f0) & 1 != 0 { Some(Fate::Drop) } else { None }));
            w.submit(ctx, 0, 10, 0, first);
            for i in 0..n {
                let k = i as usize;
                w.submit(ctx, 0, size + k % 2, if two && k % 5 == 0 { 33 } else { 0 }, modes[k % modes.len()]);
                if i == 200 {
                    w.do_tick(ctx);
                }
            }
            finish(&mut w, ctx, end);
        }));
    }
}

/// A steady stream, in which the first transmissions of one packet are lost: it has to be repeated
/// in spite of everything which is newer.
fn steady(c: &mut Check, m: Monitors, end: End, thorough: bool) {
    let mixes: [(&str, &'static [SendMode]); 4] = [("R", &[Reliable]), ("P", &[Persistent]), ("RU", &[Reliable, Unreliable]), ("PRT", &[Persistent, Reliable, TimeSensitive])];
    for (mname, modes) in mixes {
        c.add(Scenario::new(format!("steady/{}", mname), 0, move |ctx| {
            let times = ctx.choose_of(&[1u32, 2, 3, 5]);
            let victim = ctx.choose_of(&[0u32, 1, 12]);
            let per_tick = ctx.choose_of(&[1u32, 3]);
            let lat = ctx.choose_of(&[0u32, 2, 8]);
            let size = ctx.choose_of(&[40usize, 1440]);
            let warm = ctx.choose_free(2) == 1;
            let (bp, bf) = bases(1);
            let mut w = World::new(P { lat, base_pkt: bp, base_frame: bf, ..P::default() }, m);
            if warm {
                warm_up(&mut w, ctx);
            }
            let first = w.ep[0].pkts.len();
            let target = first + (victim as usize) * modes.len();
            let seq = (bp[0] + target as u32) & PMASK;
            let lost = std::cell::Cell::new(0);
            // TimeSensitive packets may be dropped by the sender, and shift the ids
            let exact = !modes.contains(&TimeSensitive);
            w.policy = Some(Box::new(move |e, _, _, b| {
                if e == 0 && b[0] == 10 && lost.get() < times {
                    if let Some(Frame::DataFrame(f)) = Frame::read(b) {
                        if f.datagrams.iter().any(|d| d.sequence_id == seq || (!exact && d.sequence_id == seq.wrapping_sub(1) & PMASK)) {
                            lost.set(lost.get() + 1);
                            return Some(Fate::Drop);
                        }
                    }
                }
                None
            }));
            let ticks = if thorough { 1500 } else { 400 };
            let t0 = w.rel_ms();
            for i in 0..ticks {
                for j in 0..per_tick {
                    let k = (i * per_tick + j) as usize;
                    w.submit(ctx, 0, size + k % 3, [0u8, 1][k / 7 % 2], modes[k % modes.len()]);
                }
                w.do_tick(ctx);
                if m.txmode && (warm || w.rel_ms() > t0 + 2_000) {
                    w.check_retransmission(3_000_000);
                }
            }
            finish(&mut w, ctx, end);
        }));
    }
}

fn fault_bounds(thorough: bool) -> String {
    format!("6 send histories (4 modes, channels 0/1/5/31/32/63, 0..3000 B) x packet/frame windows 2..64 x initial ids 5, 0, 2^20-64..2^20-1 and 1000, 0, 2^32-16..2^32-1; fates drop/duplicate/delay 3..12 ticks/1-4 bit corruption on up to {} frames anywhere among the first {} of both directions; every loss subset of the first {} frames per direction; loss/replay/delay bursts at 24 positions x 4 lengths x 3 directions on streams of {} packets; skipped steps in the first 8 ticks; frame windows of 1, 2 and 4 frames filled with frames of which any subset is lost, with packets waiting behind them; frames full of 40-600 packets of 2-256 B, of which any of the first {} are lost; steady streams in which one packet is lost 1-5 times",
        if thorough { 4 } else { 3 }, if thorough { "24 (40)" } else { "14 (40)" }, if thorough { 14 } else { 11 }, if thorough { 120 } else { 50 }, if thorough { 5 } else { 4 })
}

const ASSUME: &[&str] = &[
    "the virtual clock, random source and frame sink stand in for Instant::now, rand::random and the UDP socket (cfg(uflow_verif)); everything else is the code as built",
    "an execution runs until both endpoints are idle; faults are confined to the enumerated frames, the network is fair afterwards",
];

fn base_check(thorough: bool, wall: u64, bounds: String) -> Check {
    let mut c = Check::new(if thorough { 800 } else { wall }, bounds);
    c.assumptions = ASSUME.to_vec();
    c
}

pub fn c01(thorough: bool) -> Check {
    let mut c = base_check(thorough, 100, fault_bounds(thorough));
    fault_scenarios(&mut c, Monitors { order: true, ..Default::default() }, End::Nothing, thorough);
    super::app::exchange(&mut c, super::app::What::Order, thorough);
    super::wrap::add(&mut c, thorough, false);
    c
}

pub fn c02(thorough: bool) -> Check {
    let mut c = base_check(thorough, 100, format!("{}; crowd: 40 and 140 (up to 300) connections of one server; copies of acknowledgements and synchronizations which are one cycle of 2^20 packet ids old", fault_bounds(thorough)));
    super::conn::crowd_many(&mut c, crate::cs::Mon { grammar: true, order: true, ..Default::default() }, thorough);
    fault_scenarios(&mut c, Monitors { reliable: true, ..Default::default() }, End::Quiescent, thorough);
    super::app::exchange(&mut c, super::app::What::Reliable, thorough);
    super::wrap::add(&mut c, thorough, false);
    for kind in ["ack", "sync", "sync-packet"] {
        super::wrap::replayed(&mut c, kind);
    }
    c
}

pub fn c12(thorough: bool) -> Check {
    let mut c = base_check(thorough, 100, fault_bounds(thorough));
    let m = Monitors { txmode: true, ..Default::default() };
    fault_scenarios(&mut c, m, End::AllAcked, thorough);
    // All acknowledgements lost for a period: retransmission has to go on regardless
    for (name, modes) in [("P", [Persistent; 3]), ("R", [Reliable; 3]), ("PUR", [Persistent, Unreliable, Reliable]), ("RTP", [Reliable, TimeSensitive, Persistent])] {
        c.add(Scenario::new(format!("silence/{}", name), 0, move |ctx| {
            let start_ms = ctx.choose_of(&[0u64, 40, 60, 100, 1000]);
            let len_ms = ctx.choose_of(&[3_000u64, 30_000, 120_000]);
            let lat = ctx.choose_of(&[0u32, 1, 5, 20]);
            let data_too = ctx.choose_free(2) == 1;
            let later = ctx.choose_of(&[0u32, 2, 60]);
            let pw = ctx.choose_of(&[2u32, 4096]);
            let skew = ctx.choose_free(2);
            let script = (0..3u32).map(|i| send(i * later, 0, 30 + i as usize, skew as u8 * i as u8, modes[i as usize])).collect();
            let mut w = World::new(P { lat, pw, fw: 4096, script, ..P::default() }, m);
            w.policy = Some(Box::new(move |e, _, us, _| {
                if (e == 1 || data_too) && us >= start_ms * 1000 && us < (start_ms + len_ms) * 1000 { Some(Fate::Drop) } else { None }
            }));
            while w.rel_ms() < start_ms + len_ms + 2_000 {
                w.do_tick(ctx);
                w.check_retransmission(30_000_000);
            }
            finish(&mut w, ctx, End::AllAcked);
        }));
    }
    // A busy connection goes silent: everything to be repeated is, before the rate has withered
    for size in [30usize, 1500, 4000] {
        c.add(Scenario::new(format!("warm/{}", size), 0, move |ctx| {
            let modes = [ctx.choose_of(&MODES), ctx.choose_of(&MODES), ctx.choose_of(&MODES)];
            let dir = ctx.choose_free(3);
            let skew = ctx.choose_free(2);
            let gap = ctx.choose_of(&[0u64, 20, 60]);
            let lat = if thorough { ctx.choose_of(&[1u32, 5]) } else { 1 };
            let (bp, bf) = bases(1);
            let p = P { lat, base_pkt: bp, base_frame: bf, ..P::default() };
            let mut w = World::new(p, m);
            let mut n = 0;
            while w.rel_ms() < 2500 {
                load(&mut w, ctx, 0, &mut n, 8, 30_000, &[Unreliable, Reliable], &[1000, 50]);
                w.do_tick(ctx);
            }
            if !w.run(ctx, 10_000) {
                ensure!(false, "harness: not idle 10 s after a load of 2.5 s: {}", w.describe());
            }
            let first = w.ep[0].pkts.len();
            let t = w.rel_ms() + gap;
            w.policy = Some(Box::new(move |e, _, us, _| {
                if (dir == 2 || dir == e) && us >= t * 1000 && us < (t + 3_000) * 1000 { Some(Fate::Drop) } else { None }
            }));
            for (i, mode) in modes.into_iter().enumerate() {
                w.submit(ctx, 0, size + i, (skew * i) as u8, mode);
                if skew == 1 {
                    w.do_tick(ctx);
                }
            }
            while w.rel_ms() < t + 3_000 {
                w.do_tick(ctx);
            }
            for q in w.ep[0].pkts[first..].iter().filter(|q| q.retransmits() && !q.passed) {
                for (i, f) in q.frags.iter().enumerate() {
                    ensure!(f.acked || f.tx >= 2, "fragment {} of {:?} packet #{} was transmitted {} time(s) in 3 s without being acknowledged", i, q.mode, q.uid, f.tx);
                }
            }
            finish(&mut w, ctx, End::AllAcked);
        }));
    }
    c
}

pub fn c20(thorough: bool) -> Check {
    let mut c = base_check(thorough, 100, format!("{}; stale: every history of {} packets over 4 modes x an empty one at any position x 3 cadences x sizes, waiting for windows of 1 / 2 or rates of 2000 B/s", fault_bounds(thorough), if thorough { 6 } else { 5 }));
    fault_scenarios(&mut c, Monitors { buffer: true, ..Default::default() }, End::Nothing, thorough);
    // Packets which go stale while they wait for the window or for the rate, an empty one among them
    for (pw, bw) in [(1u32, 100_000u32), (2, 100_000), (2, 2_000), (64, 2_000)] {
        c.add(Scenario::new(format!("stale/w{}/rate{}", pw, bw), 0, move |ctx| {
            let len = if thorough { 6 } else { 5 };
            let empty = ctx.choose_free(len + 1);
            let per_tick = ctx.choose_of(&[10u32, 2, 1]);
            let big = ctx.choose_of(&[1460usize, 30, 700]);
            let mut script = vec![];
            for i in 0..len {
                let mode = MODES[ctx.choose_free(4)];
                let size = if i == empty { 0 } else { [30, big, 31, big + 1, 1449, 20][i] };
                script.push(send(i as u32 / per_tick, 0, size, (i % 2) as u8, mode));
            }
            let (bp, bf) = bases(1);
            let p = P { pw, fw: pw.max(2), lat: 1, bw: [bw, 5000], base_pkt: bp, base_frame: bf, script, ..P::default() };
            let mut w = World::new(p, Monitors { buffer: true, ..Default::default() });
            finish(&mut w, ctx, End::Nothing);
        }));
    }
    super::app::exchange(&mut c, super::app::What::Buffer, thorough);
    super::wrap::add(&mut c, thorough, false);
    c
}

// C05 -----------------------------------------------------------------------------------------

/// Runs to the end, and demands that everything begun was delivered (the monitor checks the order).
fn ideal_end(w: &mut World, ctx: &mut Ctx) {
    if !w.run(ctx, 3_000_000) {
        crate::explore::fail(format!("packets still undelivered after 3000 s on an ideal network: {}", w.describe()));
    }
    for _ in 0..w.p.lat + 2 {
        w.do_tick(ctx);
    }
    for e in 0..2 {
        for p in w.ep[e].pkts.iter() {
            if p.mode != TimeSensitive {
                ensure!(p.delivered == 1, "ep{}: {:?} packet #{} ({} B) delivered {} times on an ideal network", e, p.mode, p.uid, p.size, p.delivered);
            } else if p.begun() {
                ensure!(p.delivered == 1, "ep{}: TimeSensitive packet #{} was transmitted, but delivered {} times on an ideal network", e, p.uid, p.delivered);
            }
        }
    }
}

pub fn c05(thorough: bool) -> Check {
    let mut c = base_check(thorough, 100, format!(
        "loss-free FIFO network; every send history of length {} over 4 modes x 2 channels x sizes 20/1460/3100 B and of length {} over 4 modes x 2 channels, each send in the same or the next step, 5 timing/window/id configurations, one direction or both, {} skipped step(s) among the first 8 of each side; bursts of 10/60/300 packets x 6 mode mixes x 4 size mixes x windows 1,2,16,4096 x receive allocations x cadences 1..500 ms x latencies 0..10 ticks, constant or varying",
        if thorough { "4 (both directions: 3)" } else { "3 (in 3 configurations and both directions: 2)" }, if thorough { "6" } else { "5 (in 3 configurations: 4)" }, if thorough { 2 } else { 1 }));
    let m = Monitors { global: true, ..Default::default() };
    let cfgs = [(20_000u64, 1u32, 4096u32, 1_000_000usize, 0usize), (20_000, 0, 4, 5000, 1), (100_000, 2, 2, 1_000_000, 2), (5_000, 7, 16, 3200, 3), (400_000, 1, 1, 5000, 1)];
    for (ci, (tick_us, lat, pw, alloc, base)) in cfgs.into_iter().enumerate() {
        let (bp, bf) = bases(base);
        let mk = move |script: Vec<Send>| P { tick_us, lat, pw, fw: pw.max(2), alloc: [alloc; 2], base_pkt: bp, base_frame: bf, fifo: true, post_flush: ci == 3, script, ..P::default() };
        for both in [false, true] {
            let len = match (thorough, both) { (true, false) => 4, (true, true) => 3, (false, false) => if ci < 2 { 3 } else { 2 }, (false, true) => 2 };
            c.add(Scenario::new(format!("history{}/cfg{}/{}", len, ci, if both { "both" } else { "one" }), 0, move |ctx| {
                let mut script = vec![];
                let mut tick = 0;
                for i in 0..len {
                    let k = ctx.choose_free(24);
                    let size = [20, 1460, 3100][k / 8] + i;
                    if i > 0 {
                        tick += ctx.choose_free(2) as u32;
                    }
                    script.push(send(tick, 0, size, (k as u8 / 4) % 2 * 63, MODES[k % 4]));
                    if both {
                        script.push(send(tick, 1, size + 10, (k as u8 / 4 + 1) % 2, MODES[(k + 1) % 4]));
                    }
                }
                let mut w = World::new(mk(script), m);
                ideal_end(&mut w, ctx);
            }));
        }
        let len = if thorough { 6 } else if ci < 2 { 5 } else { 4 };
        c.add(Scenario::new(format!("history{}/cfg{}", len, ci), 0, move |ctx| {
            let mut script = vec![];
            let gap = ctx.choose_free(2) as u32;
            for i in 0..len {
                let k = ctx.choose_free(8);
                script.push(send(i as u32 / 2 * gap, 0, [30, 2000, 40, 1449, 31, 700][i] + i, (k as u8 / 4) * 5, MODES[k % 4]));
            }
            let mut w = World::new(mk(script), m);
            ideal_end(&mut w, ctx);
        }));
        for (name, script) in scripts() {
            if script.iter().any(|s| s.size > alloc) {
                continue;
            }
            c.add(Scenario::new(format!("skip/{}/cfg{}", name, ci), if thorough { 3 } else { 2 }, move |ctx| {
                let mut w = World::new(P { skip_ticks: 8, ..mk(script.clone()) }, m);
                ideal_end(&mut w, ctx);
            }));
        }
    }
    // Bursts
    let mixes: [&[SendMode]; 6] = [&[Reliable], &[Unreliable], &[Unreliable, Reliable, Persistent], &[TimeSensitive, Unreliable, Reliable], &[Unreliable, Unreliable, Unreliable, Reliable], &[Persistent, TimeSensitive]];
    let sizes: [&'static [usize]; 4] = [&[20], &[1440], &[3100, 20, 1448], &[200, 64, 255, 257, 63]];
    for (mi, modes) in mixes.into_iter().enumerate() {
        for (si, sizes) in sizes.into_iter().enumerate() {
            c.add(Scenario::new(format!("burst/modes{}/sizes{}", mi, si), 0, move |ctx| {
                let n = ctx.choose_of(&[10u32, 60, 300]);
                let pw = ctx.choose_of(&[2u32, 16, 4096, 1]);
                let alloc = ctx.choose_of(&[1_000_000usize, 3200, 10_000]);
                let (tick_us, lat) = ctx.choose_of(&[(20_000u64, 1u32), (1_000, 10), (100_000, 3), (20_000, 10), (500_000, 1), (20_000, 0)]);
                let per_tick = ctx.choose_of(&[1000u32, 3]);
                let vary = ctx.choose_free(2) == 1;
                let both = ctx.choose_free(2) == 1;
                if n == 300 && (pw < 16 || tick_us > 20_000) && !thorough {
                    return;
                }
                let (bp, bf) = bases((n as usize + mi) % 4);
                let mut script: Vec<Send> = vec![];
                for i in 0..n {
                    let k = i as usize;
                    let sz = |o: usize| sizes[(k + o) % sizes.len()] + k % 3 * (sizes.len() == 1) as usize;
                    script.push(send(i / per_tick, 0, sz(0), [0, 1, 0, 63][k % 4], modes[k % modes.len()]));
                    if both && k % 2 == 0 {
                        script.push(send(i / per_tick, 1, sz(1), [2, 0][k / 2 % 2], modes[(k + 1) % modes.len()]));
                    }
                }
                let p = P { tick_us, lat, pw, fw: pw.max(2), alloc: [alloc; 2], base_pkt: bp, base_frame: bf, fifo: true, bw: [200_000; 2], script, ..P::default() };
                let mut w = World::new(p, m);
                if vary {
                    w.lat_fn = Some(Box::new(move |e, us| lat + ((us / tick_us + e as u64 * 3) % 7) as u32 * lat.max(1)));
                }
                ideal_end(&mut w, ctx);
            }));
        }
    }
    super::app::exchange(&mut c, super::app::What::Ideal, thorough);
    super::wrap::add(&mut c, thorough, true);
    c
}

// C11 -----------------------------------------------------------------------------------------

/// Submits `per_tick` packets each tick, unless the backlog is large already.
fn load(w: &mut World, ctx: &mut Ctx, e: usize, n: &mut usize, per_tick: usize, max_backlog: usize, modes: &[SendMode], sizes: &[usize]) {
    for _ in 0..per_tick {
        if w.ep[e].pkts.len() >= 60_000 || w.hc(e).send_buffer_size() >= max_backlog {
            return;
        }
        let k = *n;
        *n += 1;
        w.submit(ctx, e, sizes[k % sizes.len()], [0u8, 1, 5, 0][k % 4], modes[k % modes.len()]);
    }
}

pub fn c11(thorough: bool) -> Check {
    let mut c = base_check(thorough, 150, format!("{}; then every execution continues with probes of every mode, all of which must arrive. blackout: 5 mode mixes x 6 window/allocation shapes x directions x starts x lengths 0.3-60 s x sizes x idle or saturated x step 20/200 ms x 1 or 3 periods; rtt: latency changing from a to b (6 pairs, 0-50 ticks) at 4 instants, symmetric or one way, x window shapes; full: a completely full default window (4096 frames, 4096 packets) lost in one or both directions for 0.1-20 s; app: a real client and server, blackouts of 0.4-14 s in one or both directions, with one or both sides sending, x sizes x backlog x cadence; connections taken up again around 2^24, 2^31, 2^32 ms, 2^32 us and 250 days of idleness. After the faults: continuous load, deliveries and a recovering rate demanded within 240-320 s (whole endpoints: 12 further deliveries on each side within 20000 s), idle within 400 s of the last submission.", fault_bounds(thorough)));
    super::conn::uptime_idle(&mut c, crate::cs::Mon { grammar: true, timeout: true, order: true, ..Default::default() }, thorough);
    let m = Monitors::default();
    fault_scenarios(&mut c, m, End::Probes, thorough);
    let modes: [(&str, &'static [SendMode]); 5] = [("R", &[Reliable]), ("U", &[Unreliable]), ("P", &[Persistent]), ("TU", &[TimeSensitive, Unreliable]), ("all", &[Unreliable, Reliable, TimeSensitive, Persistent])];
    for (mname, modes) in modes {
        for (wname, pw, fw, alloc) in [("2x2", 2u32, 2u32, 1_000_000usize), ("16x16", 16, 16, 1_000_000), ("64x4", 64, 4, 1_000_000), ("4x64", 4, 64, 1_000_000), ("alloc", 4096, 4096, 4400), ("default", 4096, 4096, 1_000_000)] {
            c.add(Scenario::new(format!("blackout/{}/{}", mname, wname), 0, move |ctx| {
                let dir = ctx.choose_free(3);
                let start_ms = ctx.choose_of(&[0u64, 60, 400, 1000, 4000]);
                let len_ms = ctx.choose_of(&[300u64, 2500, 10_000, 60_000]);
                let sizes: &[usize] = ctx.choose_of(&[&[60usize, 61, 400][..], &[1440], &[4000, 30]]);
                let busy = ctx.choose_free(2) == 1;
                let tick_us = ctx.choose_of(&[20_000u64, 200_000]);
                let repeat = ctx.choose_of(&[1u64, 3]);
                let (bp, bf) = bases(3);
                let p = P { tick_us, pw, fw, lat: 1, alloc: [alloc; 2], base_pkt: bp, base_frame: bf, bw: [400_000; 2], ..P::default() };
                let mut w = World::new(p, m);
                let period = len_ms + 700;
                w.policy = Some(Box::new(move |e, _, us, _| {
                    let ms = us / 1000;
                    if (dir == 2 || dir == e) && ms >= start_ms && ms < start_ms + repeat * period && (ms - start_ms) % period < len_ms {
                        Some(Fate::Drop)
                    } else {
                        None
                    }
                }));
                let end_ms = start_ms + repeat * period;
                let (mut n, per) = (0, if pw == 4096 { 40 } else { 3 });
                while w.rel_ms() < end_ms {
                    if busy || n < 12 {
                        load(&mut w, ctx, 0, &mut n, per, if busy { 200_000 } else { 20_000 }, modes, sizes);
                    }
                    w.do_tick(ctx);
                }
                after_faults(&mut w, ctx, n, modes, sizes);
            }));
        }
        for (wname, pw, fw) in [("4x4", 4u32, 4u32), ("64x64", 64, 64), ("default", 4096, 4096)] {
            c.add(Scenario::new(format!("rtt/{}/{}", mname, wname), 0, move |ctx| {
                let (a, b) = ctx.choose_of(&[(1u32, 10u32), (10, 1), (20, 2), (5, 50), (3, 30), (0, 20)]);
                let tick0 = ctx.choose_of(&[20_000u64, 5_000, 50_000]);
                let tick1 = ctx.choose_of(&[1u64, 10]);
                let at_ms = ctx.choose_of(&[0u64, 200, 1000, 3000]);
                let sizes: &[usize] = ctx.choose_of(&[&[60usize, 61, 400][..], &[1440], &[4000, 30]]);
                let asym = ctx.choose_free(3);
                let (bp, bf) = bases(1);
                let p = P { tick_us: tick0, pw, fw, base_pkt: bp, base_frame: bf, bw: [400_000; 2], keepalive: None, ..P::default() };
                let mut w = World::new(p, m);
                w.lat_fn = Some(Box::new(move |e, us| {
                    let l = if us < at_ms * 1000 || (asym != 2 && asym != e) { a } else { b };
                    // Latency in time, not in ticks
                    (l as u64 / if us < at_ms * 1000 { 1 } else { tick1 }) as u32
                }));
                let mut n = 0;
                while w.rel_ms() < at_ms {
                    load(&mut w, ctx, 0, &mut n, 6, 50_000, modes, sizes);
                    w.do_tick(ctx);
                }
                w.p.tick_us = tick0 * tick1;
                w.last_fault_us = w.now_us;
                after_faults(&mut w, ctx, n, modes, sizes);
            }));
        }
    }
    // A completely full frame window of the default size, which takes a long path and many tiny frames
    for (name, burst) in [("frames", 12usize), ("packets", 60)] {
        c.add(Scenario::new(format!("full/{}", name), 0, move |ctx| {
            let dir = ctx.choose_free(3);
            let len_ms = ctx.choose_of(&[100u64, 2200, 20_000]);
            let mode = ctx.choose_of(&[Unreliable, Reliable, Persistent]);
            let p = P { tick_us: 5_000, lat: 210, base_pkt: [PMASK - 40_000, 0], base_frame: [u32::MAX - 30_000, 5], keepalive: None, ..P::default() };
            let mut w = World::new(p, m);
            let start_ms = 24_000;
            w.policy = Some(Box::new(move |e, _, us, _| {
                if (dir == 2 || dir == e) && us / 1000 >= start_ms && us / 1000 < start_ms + len_ms { Some(Fate::Drop) } else { None }
            }));
            let mut n = 0;
            let mut out0 = (0, 0);
            while w.rel_ms() < start_ms + len_ms {
                if burst == 12 {
                    for _ in 0..burst {
                        load(&mut w, ctx, 0, &mut n, 1, 200_000, &[mode], &[20]);
                        w.flush(ctx, 0);
                    }
                } else {
                    load(&mut w, ctx, 0, &mut n, burst, 200_000, &[mode], &[20]);
                }
                w.do_tick(ctx);
                out0.0 = out0.0.max(w.ep[0].frames_out as usize);
            }
            out0.1 = w.ep[0].pkts.iter().filter(|p| p.begun() && !p.passed).count();
            ctx.note(|| format!("{} frames sent, {} packets outstanding at the end of the blackout", out0.0, out0.1));
            if std::env::var("MC_STAT").is_ok() {
                println!("FULL {} {:?}", burst, out0);
            }
            after_faults(&mut w, ctx, n, &[mode], &[20]);
        }));
    }
    super::app::c11(&mut c, thorough);
    c
}

/// The network works from now on: keeps submitting, and demands progress and a recovering rate.
fn after_faults(w: &mut World, ctx: &mut Ctx, mut n: usize, modes: &[SendMode], sizes: &[usize]) {
    w.policy = None;
    w.last_fault_us = w.now_us;
    let t0 = w.now_us;
    let n0 = w.ep[1].got.len();
    let mut at_half = None;
    let mut recovered = false;
    while w.now_us - t0 < 320_000_000 {
        load(w, ctx, 0, &mut n, 3, 6_000, modes, sizes);
        w.do_tick(ctx);
        if w.now_us - t0 > 240_000_000 && at_half.is_none() {
            at_half = Some(w.ep[1].got.len());
        }
        if w.now_us - t0 > 10_000_000 && w.ep[1].got.len() > n0 + 20 && w.hc(0).verif_send_rate() > 2000.0 {
            recovered = true;
            break;
        }
    }
    if !recovered {
        let rate = w.hc(0).verif_send_rate();
        if std::env::var("MC_STAT").is_ok() {
            println!("RATE {:.0} {} rtt {:?}", rate, w.ep[1].got.len() - at_half.unwrap(), w.hc(0).rtt_s());
        }
        ensure!(w.ep[1].got.len() > at_half.unwrap(), "nothing delivered between 240 s and 320 s after the last fault, under load: {}", w.describe());
        ensure!(rate > 46.0, "the send rate is still {} B/s after 320 s of continuous sending on a working network: {}", rate, w.describe());
    }
    if !w.run(ctx, SETTLE_MS + 320_000) {
        crate::explore::fail(format!("stalled: not idle {} s after the last submission: {}", SETTLE_MS / 1000, w.describe()));
    }
    probe(w, ctx, 60, 20);
}

// C13 -----------------------------------------------------------------------------------------

const DTS: [u64; 9] = [20_000, 0, 1, 500, 1_000, 7_000, 100_000, 1_000_000, 12_000_000];

fn c13_iteration(w: &mut World, ctx: &mut Ctx, flushes: usize, gap_us: u64) {
    for e in 0..2 {
        w.flush(ctx, e);
        w.arrivals(ctx, e);
        w.step_hc(e);
        w.receive(ctx, e);
    }
    for _ in 0..flushes {
        w.advance(gap_us);
        for e in 0..2 {
            w.flush(ctx, e);
        }
    }
    ctx.state();
}

pub fn c13(thorough: bool) -> Check {
    let depth = if thorough { 3 } else { 2 };
    let mut c = base_check(thorough, 100, format!("6 ceilings (1472-300000 B/s) x 4 loss patterns x 3 warm-ups x 3 latencies x flush patterns x every sequence of {} iterations out of 9 step spacings (0 us - 12 s) x 4 flush patterns (0-3 extra flushes, 0 us - 2 s apart), with saturating data on both sides; acks: owed acknowledgement groups (stride 1-64, 1-1500 per round) and sync replies at the same ceilings x cadences x own data; burst: ceilings up to 3 MB/s with steps of 0.1-0.3 s, idle periods of 9 steps and sizes; rttdrop: bursts after the round trip time fell; uptime: connections up to 200 days old, around 2^31 and 2^32 ms, 2^32 us; whole endpoints: every pair of (local max_send_rate, peer max_receive_rate) of a boundary set. Monitor: for every pair of transmissions, bytes between them <= ceiling x (interval + RTT estimate) + 1472.", depth));
    let m = Monitors { rate: true, ..Default::default() };
    super::app::c13(&mut c, thorough, false);
    for (ci, ceil) in [1472u32, 1473, 2000, 5000, 20_000, 300_000].into_iter().enumerate() {
        for (lname, loss) in [("clean", 0usize), ("loss7", 1), ("ackloss", 2), ("loss40", 3)] {
            if (ci + loss) % 2 == 1 && (loss != 0 || !thorough) {
                continue;
            }
            c.add(Scenario::new(format!("cadence/ceil{}/{}", ceil, lname), 0, move |ctx| {
                let warm_ms = ctx.choose_of(&[0u64, 700, 3_000]);
                let lat = ctx.choose_of(&[1u32, 10, 0]);
                let sizes: &[usize] = [&[30usize, 300, 4000, 900][..], &[1448]][(loss + ci / 2) % 2];
                let (f0, g0) = ctx.choose_of(&[(0usize, 0u64), (2, 3_000)]);
                let p = P { lat, bw: [ceil, 1500], ..P::default() };
                let mut w = World::new(p, m);
                w.policy = Some(Box::new(move |e, idx, _, _| match loss {
                    1 if e == 0 && idx % 7 == 6 => Some(Fate::Drop),
                    2 if e == 1 && idx % 3 != 0 => Some(Fate::Drop),
                    3 if e == 0 && idx % 40 == 3 => Some(Fate::Drop),
                    _ => None,
                }));
                let backlog = (ceil as usize * 3).max(30_000);
                let mut n = 0;
                let mut n1 = 0;
                while w.rel_ms() < warm_ms {
                    load(&mut w, ctx, 0, &mut n, 1000, backlog, &[Unreliable, Reliable, Persistent], sizes);
                    c13_iteration(&mut w, ctx, f0, g0);
                    w.advance(20_000);
                }
                for _ in 0..depth {
                    load(&mut w, ctx, 0, &mut n, 1000, backlog, &[Unreliable, Reliable, Persistent], sizes);
                    load(&mut w, ctx, 1, &mut n1, 1000, 10_000, &[Unreliable], &[700]);
                    let dt = ctx.choose_of(&DTS);
                    let (f, g) = ctx.choose_of(&[(0usize, 0u64), (3, 0), (2, 9_000), (1, 2_000_000)]);
                    w.advance(dt);
                    c13_iteration(&mut w, ctx, f, g);
                }
                for _ in 0..6 {
                    load(&mut w, ctx, 0, &mut n, 1000, backlog, &[Unreliable, Reliable, Persistent], sizes);
                    w.advance(20_000);
                    c13_iteration(&mut w, ctx, f0, g0);
                }
                w.check_rate(0, ceil);
                w.check_rate(1, 1500);
            }));
        }
        // Acknowledgements owed: many groups, or many syncs, at the receiver's own ceiling
        c.add(Scenario::new(format!("acks/ceil{}", ceil), 0, move |ctx| {
            let stride = ctx.choose_of(&[1u32, 2, 33, 64]);
            let per = ctx.choose_of(&[1u32, 20, 300, 1500]);
            let syncs = ctx.choose_of(&[0usize, 1, 5]);
            let dt = ctx.choose_of(&[20_000u64, 1_000, 0, 500_000]);
            let flushes = ctx.choose_of(&[0usize, 3]);
            // Nothing of its own to send, or (after a while of exchanging data, so that it has a round
            // trip time and a rate) nothing any more, or much
            let (warm, own, lat) = ctx.choose_of(&[(false, 0usize, 2u32), (true, 20_000, 2), (true, 0, 2), (true, 0, 15), (true, 20_000, 15)]);
            if warm && per < 300 && stride > 2 {
                return;
            }
            let p = P { lat, bw: [5_000, ceil], keepalive: Some(2000), ..P::default() };
            let mut w = World::new(p, m);
            let mut id = w.p.base_frame[0];
            let mut n = 0;
            if warm {
                while w.rel_ms() < 5_000 {
                    load(&mut w, ctx, 1, &mut n, 100, (ceil as usize).min(50_000), &[Unreliable, Reliable], &[1000]);
                    w.do_tick(ctx);
                }
                w.run(ctx, 10_000);
            }
            for round in 0..if ceil > 10_000 { 20 } else { 60u32 } {
                for k in 0..per {
                    let f = uflow::verif::frame::DataFrame { sequence_id: id, nonce: k & 1 == 1, datagrams: vec![] };
                    let bytes = uflow::verif::frame::Frame::DataFrame(f).write();
                    w.deliver_bytes(ctx, 1, &bytes);
                    id = id.wrapping_add(stride);
                }
                for _ in 0..syncs {
                    let f = uflow::verif::frame::SyncFrame { next_frame_id: None, next_packet_id: None };
                    let bytes = uflow::verif::frame::Frame::SyncFrame(f).write();
                    w.deliver_bytes(ctx, 1, &bytes);
                    w.flush(ctx, 1);
                }
                if own > 0 {
                    load(&mut w, ctx, 1, &mut n, 100, own, &[Unreliable, Reliable], &[1000]);
                }
                w.step_hc(1);
                for _ in 0..=flushes {
                    w.flush(ctx, 1);
                }
                // Its own data is acknowledged, so that it has a round trip time
                w.arrivals(ctx, 0);
                w.step_hc(0);
                w.receive(ctx, 0);
                w.flush(ctx, 0);
                if round % 2 == 0 {
                    w.arrivals(ctx, 1);
                }
                w.advance(if dt == 0 && round % 8 == 7 { 300_000 } else { dt });
            }
            ctx.state();
            w.check_rate(1, ceil);
        }));
    }
    // Much is allowed per step: long round trips, high ceilings, steps as long as the round trip
    for ceil in [200_000u32, 1_000_000, 3_000_000] {
        c.add(Scenario::new(format!("burst/ceil{}", ceil), 0, move |ctx| {
            let tick_us = ctx.choose_of(&[100_000u64, 300_000]);
            let sizes: &[usize] = ctx.choose_of(&[&[1448usize][..], &[28_960], &[700, 60], &[740], &[3000]]);
            let modes: &[SendMode] = ctx.choose_of(&[&[Unreliable][..], &[Reliable, Persistent]]);
            let pauses = ctx.choose_free(2) == 1;
            let p = P { tick_us, lat: 1, bw: [ceil, 1_000_000], alloc: [1_000_000, 30_000_000], fifo: true, ..P::default() };
            let mut w = World::new(p, m);
            let (mut n, mut n1) = (0, 0);
            let mut k = 0;
            while w.ep[0].tx.len() < 12_000 && k < 150 && w.ep[0].pkts.len() < 50_000 {
                load(&mut w, ctx, 0, &mut n, 10_000, ceil as usize * 3, modes, sizes);
                // The acknowledgements do not have to wait
                load(&mut w, ctx, 1, &mut n1, 100, 20_000, &[Unreliable], &[1448]);
                w.do_tick(ctx);
                k += 1;
                // A pause well below the time after which the rate is reduced
                if pauses && k % 7 == 0 {
                    w.advance(tick_us * 8);
                }
            }
            ctx.observe(w.ep[0].tx.len() as u64);
            w.check_rate(0, ceil);
            ctx.state();
        }));
    }
    // The connection is an old one
    for ceil in [5_000u32, 300_000] {
        c.add(Scenario::new(format!("uptime/ceil{}", ceil), 0, move |ctx| {
            let up_s = ctx.choose_of(&[3_000_000u64, 70_000, 4_294_965, 4_294, 17_000_000, 2_147_482]);
            let (tick_us, lat) = ctx.choose_of(&[(7_000u64, 3u32), (1_000, 20), (20_000, 2), (100_000, 0)]);
            let sizes: &[usize] = ctx.choose_of(&[&[1448usize][..], &[700, 60]]);
            let p = P { tick_us, lat, bw: [ceil, 1_000_000], alloc: [1_000_000; 2], fifo: true, ..P::default() };
            let mut w = World::new(p, m);
            w.do_tick(ctx);
            w.advance(up_s * 1_000_000);
            let mut n = 0;
            let t0 = w.now_us;
            while w.now_us - t0 < 8_000_000 && w.ep[0].tx.len() < 3000 {
                load(&mut w, ctx, 0, &mut n, 400, ceil as usize, &[Unreliable, Reliable], sizes);
                w.do_tick(ctx);
            }
            ensure!(w.ep[0].tx.len() > 10, "only {} frames were sent", w.ep[0].tx.len());
            w.check_rate(0, ceil);
            ctx.state();
        }));
    }
    // What was saved up during longer round trips does not count any more once they are short
    for ceil in [20_000u32, 300_000] {
        c.add(Scenario::new(format!("rttdrop/ceil{}", ceil), 0, move |ctx| {
            let from = ctx.choose_of(&[20u32, 40, 10]);
            let to = ctx.choose_of(&[0u32, 2, 5]);
            let idle = ctx.choose_of(&[0u32, 30, 100]);
            let probes = ctx.choose_of(&[3u32, 10, 25, 60]);
            let every = ctx.choose_of(&[1u32, 7]);
            let extra = ctx.choose_free(2) == 1;
            let p = P { lat: from, bw: [ceil, 1_000_000], alloc: [1_000_000; 2], fifo: true, ..P::default() };
            let mut w = World::new(p, m);
            let mut n = 0;
            for _ in 0..300 {
                load(&mut w, ctx, 0, &mut n, 100, ceil as usize / 4, &[Unreliable, Reliable], &[1448, 60]);
                w.do_tick(ctx);
            }
            for _ in 0..idle + 60 {
                w.do_tick(ctx);
            }
            w.lat_fn = Some(Box::new(move |_, _| to));
            for k in 0..probes * every {
                if k % every == 0 {
                    w.submit(ctx, 0, 40, 0, Reliable);
                }
                w.do_tick(ctx);
            }
            for k in 0..20 {
                load(&mut w, ctx, 0, &mut n, 400, ceil as usize, &[Unreliable], &[1448]);
                if extra && k % 2 == 0 {
                    w.flush(ctx, 0);
                }
                w.do_tick(ctx);
            }
            w.check_rate(0, ceil);
            ctx.state();
        }));
    }
    c
}
