//! C15: acknowledgements which are not genuine, or not fresh, have no effect. Every check is a pair of
//! runs which differ only by such acknowledgements.
use super::hostile::*;
use super::Check;
use crate::ensure;
use crate::explore::{fail, Ctx, Scenario};
use crate::hc::*;
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::sync::Arc;
use uflow::verif::frame::{AckFrame, AckGroup, Frame, Serialize};
use uflow::SendMode::*;

/// All ack groups relative to the frames sent which must not have any effect
fn forged(v: &Vic, all: bool) -> Vec<(u32, u32, bool)> {
    let n = v.sent.len();
    let next = v.tf_next();
    let first = v.sent.first().map_or(TF, |f| f.0);
    let mut bases: Vec<u32> = vec![first.wrapping_sub(32), first.wrapping_sub(31), first.wrapping_sub(5), first.wrapping_sub(1), next, next.wrapping_add(1), next.wrapping_add(0x8000_0000), 0x4000_0000];
    let keep = if all { 14 } else { 5 };
    for (i, f) in v.sent.iter().enumerate() {
        if i < 3 || i + keep >= n {
            bases.push(f.0);
        }
    }
    let mut bits: Vec<u32> = vec![1, 2, 3, 5, 0x8000_0000, 0x8000_0001, 0xFFFF_FFFF, 6];
    if n > 1 && n < 32 {
        bits.push((1 << n) - 1);
        bits.push((1 << n) - 2);
        // One more than was sent
        bits.push((1 << n) + (1 << (n - 1)));
    }
    if all {
        bits.extend([7, 9, 0xF, 0x11, 0x10, 0x7FFF_FFFF, 0xAAAA_AAAA, 0xFF]);
    }
    let mut out = vec![];
    for base in bases.iter() {
        for b in bits.iter() {
            let k = 32 - b.leading_zeros();
            let known = (0..k).all(|i| base.wrapping_add(i).wrapping_sub(first) < n as u32);
            if known {
                let right = (0..k).filter(|i| b >> i & 1 != 0).fold(false, |x, i| x ^ v.nonce_of(base.wrapping_add(i)));
                out.push((*base, *b, !right));
            } else {
                out.push((*base, *b, false));
                out.push((*base, *b, true));
            }
        }
    }
    out
}

#[derive(Clone, Copy, PartialEq)]
enum What {
    Nothing,
    /// One forged group
    Group(usize),
    /// An exact copy of an earlier acknowledgement
    Copy(usize),
    /// Everything of the above, one after another, at this point
    All,
    /// All forged groups in a single frame
    AllInOne,
    /// With the next genuine acknowledgement, in front or behind
    With(usize, bool),
}

struct Plan {
    point: usize,
    what: What,
}

const ROUNDS: usize = 8;

struct Run<'a> {
    v: Vic,
    plan: &'a [Plan],
    point: usize,
    big: bool,
    with: Option<(usize, bool)>,
    menu: Vec<(usize, usize)>,
}

impl<'a> Run<'a> {
    /// A point at which acknowledgements may be injected
    fn point(&mut self, ctx: &mut Ctx) {
        let pt = self.point;
        self.point += 1;
        let f = if self.plan.iter().any(|p| p.point == pt && p.what != What::Nothing) || self.plan.is_empty() { forged(&self.v, self.big) } else { vec![] };
        if self.plan.is_empty() {
            // Only counting
            self.menu.push((f.len(), self.v.acks.len()));
            return;
        }
        let genuine = self.v.acks.clone();
        // The bases last announced
        let (fw, pw) = self.bases();
        for p in self.plan.iter().filter(|p| p.point == pt) {
            let mut inj: Vec<Vec<u8>> = vec![];
            match p.what {
                What::Nothing => (),
                What::Group(i) => inj.push(enc_ack(fw, pw, &[f[i]])),
                What::Copy(i) => inj.push(genuine[i].clone()),
                What::All => {
                    inj.extend(f.iter().map(|g| enc_ack(fw, pw, &[*g])));
                    inj.extend(genuine.iter().cloned());
                    inj.extend(genuine.iter().rev().cloned());
                }
                What::AllInOne => inj.push(enc_ack(fw, pw, &f)),
                What::With(i, front) => self.with = Some((i, front)),
            }
            for b in inj {
                let t = (self.v.now_us - T0_US) / 1000;
                ctx.note(|| format!("t={}ms injected {:?}", t, Frame::read(&b)));
                self.v.feed(ctx, &b);
                self.v.acks.truncate(genuine.len());
            }
        }
    }

    fn bases(&self) -> (u32, u32) {
        for b in self.v.acks.iter().rev() {
            if let Some(Frame::AckFrame(a)) = Frame::read(b) {
                return (a.frame_window_base_id, a.packet_window_base_id);
            }
        }
        (TF, TP)
    }

    fn genuine(&mut self, ctx: &mut Ctx, b: Vec<u8>) {
        let mut fed = b.clone();
        if let Some((i, front)) = self.with.take() {
            if let Some(Frame::AckFrame(mut a)) = Frame::read(&b) {
                let f = forged(&self.v, self.big);
                let g = f[i % f.len()];
                let g = AckGroup { base_id: g.0, bitfield: g.1, nonce: g.2 };
                if front {
                    a.frame_acks.insert(0, g);
                } else {
                    a.frame_acks.push(g);
                }
                fed = Frame::AckFrame(a).write().to_vec();
                ctx.note(|| format!("extended {:?}", Frame::read(&fed)));
            }
        }
        self.v.feed(ctx, &fed);
        if let Some(l) = self.v.acks.last_mut() {
            *l = b;
        }
    }

    fn observe(&mut self, when: &str) {
        let hc = &self.v.hc;
        let s = format!("t={}ms {}: rtt={:?} X={} buffer={} pending={}", (self.v.now_us - T0_US) / 1000, when, hc.rtt_s(), hc.verif_send_rate(), hc.send_buffer_size(), hc.is_send_pending());
        if let Some(t) = &mut self.v.trace {
            t.push(s.into_bytes());
        }
    }
}

/// From a situation on: rounds with acknowledgements according to `cont`
fn drive<'a>(ctx: &mut Ctx, s: usize, cont: usize, seed: u64, plan: &'a [Plan], big: bool) -> Run<'a> {
    uflow::verif::rand::reset(seed);
    let mut v = if s < STATES { situation(ctx, VicP { fw: 24, pw: 16, ..VICP }, s) } else { further(ctx, s - STATES) };
    v.trace = Some(vec![]);
    let mut r = Run { v, plan, point: 0, big, with: None, menu: vec![] };
    let mut done = if r.v.acks.is_empty() { 0 } else { r.v.sent.len() };
    for k in 0..ROUNDS {
        if k == 1 || k == 4 {
            r.v.send(300, 2, Reliable);
        }
        if cont == 3 && k % 2 == 0 {
            for _ in 0..3 {
                r.v.send(1200, 0, Unreliable);
            }
        }
        r.v.flush(ctx);
        r.point(ctx);
        let n = r.v.sent.len();
        let ack = match cont {
            // All acknowledged; none; some, with a hole; every other round
            0 => done < n,
            1 => false,
            2 => k % 3 == 1 && done + 1 < n,
            _ => k % 2 == 1 && done < n,
        };
        if ack {
            let from = if cont == 2 { done + 1 } else { done };
            done = n;
            let pn = if cont == 2 { r.bases().1 } else { r.v.pn };
            let b = r.v.genuine(from, pn);
            r.genuine(ctx, b);
        }
        r.point(ctx);
        r.v.step();
        r.observe("after step");
        r.v.receive(ctx);
        if k % 3 == 0 {
            r.v.flush(ctx);
        }
        r.v.wait([10_000u64, 30_000, 300_000, 20_000, 1_500_000, 10_000, 60_000, 4_000_000][k]);
    }
    for k in 0..12 {
        r.v.flush(ctx);
        if k == 3 || k == 9 {
            let (n, pn) = (r.v.sent.len(), r.v.pn);
            if done < n {
                let b = r.v.genuine(done, pn);
                done = n;
                r.genuine(ctx, b);
            }
        }
        r.v.step();
        r.observe("afterwards");
        r.v.wait([20_000u64, 700_000, 5_000_000][k % 3]);
    }
    r
}

type Base = (Vec<Vec<u8>>, Vec<(usize, usize)>);

/// The run without injections. Runs are deterministic, so it is enough to do it once.
fn baseline(ctx: &mut Ctx, s: usize, cont: usize, seed: u64, big: bool) -> Rc<Base> {
    thread_local! {
        static MEMO: RefCell<HashMap<(usize, usize, u64, bool), Rc<Base>>> = RefCell::new(HashMap::new());
    }
    let key = (s, cont, seed, big);
    if let (Some(b), false) = (MEMO.with(|m| m.borrow().get(&key).cloned()), ctx.verbose) {
        return b;
    }
    let mut r = ctx.unrecorded(|ctx| drive(ctx, s, cont, seed, &[], big));
    let b = Rc::new((r.v.trace.take().unwrap(), r.menu));
    MEMO.with(|m| m.borrow_mut().insert(key, b.clone()));
    b
}

/// Situations of the sender beyond those of C03
fn further(ctx: &mut Ctx, s: usize) -> Vic {
    let mut v = Vic::new(VicP { fw: 64, pw: 64, tx_alloc: 200_000, ..VICP });
    v.step();
    match s {
        // Slow start with several feedbacks, then a hole three frames deep
        0 => {
            for i in 0..6u64 {
                let k = v.sent.len();
                for j in 0..4 {
                    v.send(1300, j, [Reliable, Unreliable][(i % 2) as usize]);
                }
                v.flush(ctx);
                v.wait(40_000 + i * 1_000);
                if v.sent.len() > k {
                    let pn = v.pn;
                    let b = v.genuine(k, pn);
                    v.feed(ctx, &b);
                }
                v.step();
            }
            for _ in 0..6 {
                v.send(1300, 0, Reliable);
            }
            v.flush(ctx);
        }
        // Acknowledgements of single frames out of order, within one step
        1 => {
            for _ in 0..5 {
                v.send(200, 0, Reliable);
                v.flush(ctx);
                v.wait(7_000);
                v.step();
            }
            for i in [3usize, 1, 4] {
                if i < v.sent.len() {
                    let (id, nonce) = v.sent[i];
                    v.feed(ctx, &enc_ack(TF, TP, &[(id, 1, nonce)]));
                }
            }
        }
        // Feedback pending, not yet processed by step()
        _ => {
            for i in 0..3 {
                v.send(900, i, Persistent);
            }
            v.flush(ctx);
            v.wait(55_000);
            v.step();
            let pn = v.pn;
            let b = v.genuine(0, pn);
            v.feed(ctx, &b);
            v.step();
            v.send(900, 0, Persistent);
            v.send(900, 0, Persistent);
            v.flush(ctx);
            v.wait(65_000);
            let k = v.sent.len().saturating_sub(2);
            let b = v.genuine(k, pn);
            v.feed(ctx, &b);
        }
    }
    v
}

const SITS: [usize; 12] = [0, 1, 2, 3, 4, 5, 8, 9, 11, STATES, STATES + 1, STATES + 2];

fn compare(a: &[Vec<u8>], b: &[Vec<u8>]) {
    let show = |x: &[u8]| match Frame::read(x) {
        Some(f) => format!("{:?}", f).chars().take(300).collect::<String>(),
        None => String::from_utf8_lossy(x).into_owned(),
    };
    for i in 0..a.len().max(b.len()) {
        match (a.get(i), b.get(i)) {
            (Some(x), Some(y)) if x == y => (),
            (x, y) => fail(format!("an acknowledgement which is not genuine or not fresh has an effect. Without it: {}; with it: {}", x.map_or("-".into(), |x| show(x)), y.map_or("-".into(), |y| show(y)))),
        }
    }
}

fn direct(c: &mut Check, thorough: bool) {
    for s in SITS {
        for cont in 0..4usize {
            c.add(Scenario::new(format!("single/situation{}/cont{}", s, cont), 0, move |ctx| {
                let seed = ctx.choose_of(&(1..=if thorough { 6 } else { 2 }).collect::<Vec<u64>>());
                let base = baseline(ctx, s, cont, seed, thorough);
                let pt = ctx.choose_free(base.1.len());
                let (nf, na) = base.1[pt];
                let i = ctx.choose_free(nf + na + 2 + 2 * nf);
                let what = if i < nf {
                    What::Group(i)
                } else if i < nf + na {
                    What::Copy(i - nf)
                } else if i == nf + na {
                    What::All
                } else if i == nf + na + 1 {
                    What::AllInOne
                } else {
                    let j = i - nf - na - 2;
                    What::With(j / 2, j % 2 == 0)
                };
                let plan = [Plan { point: pt, what }];
                let r = drive(ctx, s, cont, seed, &plan, thorough);
                compare(&base.0, r.v.trace.as_ref().unwrap());
                ctx.state();
            }));
            // Two at different points, or at the same one
            c.add(Scenario::new(format!("pairs/situation{}/cont{}", s, cont), 0, move |ctx| {
                let base = baseline(ctx, s, cont, 1, false);
                let mut plan = vec![];
                for k in 0..2 {
                    let from = plan.last().map_or(0, |p: &Plan| p.point);
                    let pt = from + ctx.choose_free(base.1.len() - from);
                    let (nf, na) = base.1[pt];
                    let stride = if thorough { 9 } else { 37 };
                    let n = (nf + stride - 1) / stride;
                    let i = ctx.choose_free(n + na + 1);
                    let what = if i < n {
                        What::Group((i * stride + k) % nf)
                    } else if i < n + na {
                        What::Copy(i - n)
                    } else {
                        What::All
                    };
                    plan.push(Plan { point: pt, what });
                }
                let r = drive(ctx, s, cont, 1, &plan, false);
                compare(&base.0, r.v.trace.as_ref().unwrap());
                ctx.state();
            }));
        }
    }
    // At every point at once
    c.add(Scenario::new("barrage", 0, move |ctx| {
        let s = ctx.choose_of(&SITS);
        let cont = ctx.choose_free(4);
        let seed = ctx.choose_of(&(1..=16).collect::<Vec<u64>>());
        let mask = ctx.choose_free(if thorough { 1 << 8 } else { 1 << 4 });
        let mask = if thorough { mask } else { mask * 0x11 };
        let base = baseline(ctx, s, cont, seed, true);
        let plan: Vec<Plan> = (0..base.1.len()).map(|point| Plan { point, what: if mask >> (point / 2) & 1 == 0 { What::Nothing } else { What::All } }).collect();
        let r = drive(ctx, s, cont, seed, &plan, true);
        compare(&base.0, r.v.trace.as_ref().unwrap());
        ctx.state();
    }));
}

/// Each subset of frames acknowledged, in one group or several: exactly the others are transmitted again
fn subsets(c: &mut Check, thorough: bool) {
    let n = if thorough { 8 } else { 6 };
    for late in [false, true] {
        c.add(Scenario::new(format!("subsets/{}", if late { "retransmitted" } else { "first" }), 0, move |ctx| {
            let mask = ctx.choose_free(1 << n) as u32;
            let split = ctx.choose_free(5);
            let seed = ctx.choose_of(&(1..=8).collect::<Vec<u64>>());
            let wrong = ctx.choose_free(2) == 1;
            uflow::verif::rand::reset(seed);
            let mut v = Vic::new(VicP { fw: 64, pw: 64, tx_alloc: 200_000, ..VICP });
            v.trace = Some(vec![]);
            v.step();
            for i in 0..n {
                v.send(4 + i, 0, if i % 3 == 2 { Persistent } else { Reliable });
                v.wait(25_000);
                v.round(ctx);
            }
            for _ in 0..if late { 12 } else { 0 } {
                v.wait(200_000);
                v.round(ctx);
            }
            // Packets by frame
            let seqs = |t: &[Vec<u8>]| -> Vec<(u32, Vec<u32>)> {
                t.iter().filter_map(|b| match Frame::read(b) {
                    Some(Frame::DataFrame(d)) => Some((d.sequence_id, d.datagrams.iter().map(|g| g.sequence_id).collect())),
                    _ => None,
                }).collect()
            };
            let frames = seqs(v.trace.as_ref().unwrap());
            let take: Vec<&(u32, Vec<u32>)> = frames[frames.len() - n.min(frames.len())..].iter().collect();
            let claimed: Vec<u32> = take.iter().enumerate().filter(|(i, _)| mask >> i & 1 != 0).map(|(_, f)| f.0).collect();
            // Groups
            let mut groups: Vec<(u32, u32, bool)> = vec![];
            for (i, id) in claimed.iter().enumerate() {
                let nonce = v.nonce_of(*id);
                let start = match split {
                    0 => false,
                    1 => true,
                    k => i % k == 0,
                };
                match groups.last_mut() {
                    Some(g) if !start && id.wrapping_sub(g.0) < 32 => {
                        g.1 |= 1 << id.wrapping_sub(g.0);
                        g.2 ^= nonce;
                    }
                    _ => groups.push((*id, 1, nonce)),
                }
            }
            if split == 4 {
                groups.reverse();
            }
            let mut acked: BTreeSet<u32> = BTreeSet::new();
            for (k, g) in groups.iter_mut().enumerate() {
                if wrong && k % 2 == 0 {
                    g.2 = !g.2;
                } else {
                    for f in take.iter() {
                        let d = f.0.wrapping_sub(g.0);
                        if d < 32 && g.1 >> d & 1 != 0 {
                            acked.extend(f.1.iter());
                        }
                    }
                }
            }
            ctx.note(|| format!("frames {:?}", frames));
            ctx.note(|| format!("acknowledged groups {:?} -> packets {:?}", groups, acked));
            v.feed(ctx, &enc_ack(TF, TP, &groups));
            let effect = !acked.is_empty();
            v.step();
            if !late {
                // The frames are at most 2 s old
                ensure!(v.hc.rtt_s().is_some() == effect, "RTT estimate {:?} after acknowledgement of {:?}", v.hc.rtt_s(), acked);
            }
            v.trace = Some(vec![]);
            let mut sent: HashSet<u32> = HashSet::new();
            for _ in 0..100 {
                v.wait(4_000_000);
                v.round(ctx);
            }
            let then = seqs(v.trace.as_ref().unwrap());
            ctx.note(|| format!("then {:?}", then));
            for f in then {
                sent.extend(f.1);
            }
            for p in 0..n as u32 {
                let s = (TP + p) & 0xFFFFF;
                if acked.contains(&s) {
                    ensure!(late || !sent.contains(&s), "packet {} was transmitted again though its frame was acknowledged", p);
                } else if frames.iter().any(|f| f.1.contains(&s)) {
                    ensure!(sent.contains(&s), "packet {} was not transmitted again though its frame was not acknowledged", p);
                }
            }
            ctx.observe(acked.len() as u64);
            ctx.state();
        }));
    }
}

/// Groups which claim frames acknowledged before along with new ones: the former have no effect
fn overlaps(c: &mut Check, thorough: bool) {
    let n = if thorough { 7 } else { 6 };
    for together in [false, true] {
        c.add(Scenario::new(format!("overlap/{}", if together { "same-step" } else { "later" }), 0, move |ctx| {
            let first = ctx.choose_free(1 << n) as u32;
            let second = ctx.choose_free(1 << n) as u32;
            let seed = ctx.choose_of(&(1..=if thorough { 6 } else { 3 }).collect::<Vec<u64>>());
            let gap = if together { 0 } else { ctx.choose_of(&[0u64, 20_000, 100_000]) };
            // Frames lost before, so that there is a loss event rate
            let lossy = ctx.choose_free(2) == 1;
            let run = |ctx: &mut Ctx, second: u32| -> Vec<Vec<u8>> {
                uflow::verif::rand::reset(seed);
                let mut v = Vic::new(VicP { fw: 64, pw: 64, tx_alloc: 200_000, ..VICP });
                v.trace = Some(vec![]);
                v.step();
                if lossy {
                    for i in 0..6usize {
                        v.send(20, 0, Unreliable);
                        v.wait(25_000);
                        v.round(ctx);
                        if i == 5 {
                            v.wait(100_000);
                        }
                    }
                    let k = v.sent.len();
                    for i in [0usize, 3, 4, 5] {
                        if i < k {
                            let (id, nonce) = v.sent[i];
                            v.feed(ctx, &enc_ack(TF, TP, &[(id, 1, nonce)]));
                        }
                    }
                    v.step();
                }
                let k = v.sent.len();
                for i in 0..n {
                    v.send(4 + i, 0, if i % 3 == 2 { Persistent } else { Reliable });
                    v.wait(10_000);
                    v.round(ctx);
                }
                v.wait(100_000);
                let new: Vec<(u32, bool)> = v.sent[k..].iter().take(n).cloned().collect();
                let group = |mask: u32| -> Vec<(u32, u32, bool)> {
                    let set: Vec<&(u32, bool)> = new.iter().enumerate().filter(|(i, _)| mask >> i & 1 != 0).map(|(_, f)| f).collect();
                    match set.first() {
                        Some(f) => vec![(f.0, set.iter().fold(0, |b, g| b | 1 << g.0.wrapping_sub(f.0)), set.iter().fold(false, |x, g| x ^ g.1))],
                        None => vec![],
                    }
                };
                for (mask, gap) in [(first, gap), (second, 0)] {
                    let g = group(mask);
                    if !g.is_empty() {
                        ctx.note(|| format!("t={}ms acknowledged {:?}", (v.now_us - T0_US) / 1000, g));
                        v.feed(ctx, &enc_ack(TF, TP, &g));
                    }
                    if !together {
                        v.step();
                    }
                    if gap != 0 {
                        v.wait(gap);
                    }
                }
                v.step();
                for i in 0..12usize {
                    for j in 0..3 {
                        v.send(900 + i, j, Unreliable);
                    }
                    v.wait(150_000);
                    v.round(ctx);
                    if i == 4 {
                        let k = v.sent.len() - 1;
                        let b = v.genuine(k, TP);
                        v.feed(ctx, &b);
                        v.step();
                    }
                }
                v.trace.take().unwrap()
            };
            if first & second == 0 {
                return;
            }
            let a = ctx.unrecorded(|ctx| run(ctx, second & !first));
            ctx.note(|| "the same with overlapping groups".to_string());
            let b = run(ctx, second);
            compare(&a, &b);
            ctx.state();
        }));
    }
}

/// Groups of every width, over many frames outstanding
fn wide(c: &mut Check, thorough: bool) {
    for after in [false, true] {
        c.add(Scenario::new(format!("wide/{}", if after { "acknowledged" } else { "outstanding" }), 0, move |ctx| {
            let width = 1 + ctx.choose_free(32) as u32;
            let shape = ctx.choose_free(if after { 5 } else { 4 });
            let seed = ctx.choose_of(&(1..=if thorough { 6 } else { 2 }).collect::<Vec<u64>>());
            let once = ctx.choose_free(2) == 1;
            let only = if once { ctx.choose_free(12) * 7 } else { 0 };
            // Each start alone, or all of them
            let run = |ctx: &mut Ctx, inject: bool| -> Vec<Vec<u8>> {
                uflow::verif::rand::reset(seed);
                let mut v = Vic::new(VicP { fw: 256, pw: 256, tx_alloc: 1_000_000, ..VICP });
                v.trace = Some(vec![]);
                v.step();
                for _ in 0..14 {
                    let k = v.sent.len();
                    for j in 0..12 {
                        v.send(1300, j % 3, Unreliable);
                    }
                    v.flush(ctx);
                    v.wait(60_000);
                    let pn = v.pn;
                    let b = v.genuine(k, pn);
                    v.feed(ctx, &b);
                    v.step();
                }
                let k = v.sent.len();
                for i in 0..90 {
                    v.send(8, i % 3, if i % 4 == 3 { Unreliable } else { Reliable });
                    v.flush(ctx);
                    v.wait(1000);
                }
                let new: Vec<(u32, bool)> = v.sent[k..].to_vec();
                ensure!(new.len() >= 80, "only {} frames were sent", new.len());
                let pn = v.pn;
                if after {
                    v.wait(60_000);
                    let b = v.genuine(k, pn);
                    v.feed(ctx, &b);
                }
                if inject {
                    let bits = match shape {
                        0 | 4 => if width == 32 { u32::MAX } else { (1 << width) - 1 },
                        1 => 1 | 1 << (width - 1),
                        2 => 1 << (width - 1),
                        _ => 0x5555_5555 & (u32::MAX >> (32 - width)) | 1 << (width - 1),
                    };
                    for i in 0..new.len() {
                        if i + width as usize > new.len() || once && i != only {
                            continue;
                        }
                        let right = (0..width).filter(|j| bits >> j & 1 != 0).fold(false, |x, j| x ^ new[i + j as usize].1);
                        let b = enc_ack(TF, TP, &[(new[i].0, bits, right == (shape == 4))]);
                        v.feed(ctx, &b);
                        v.acks.pop();
                    }
                }
                v.step();
                let mut done = if after { v.sent.len() } else { k };
                for i in 0..10usize {
                    v.send(900 + i, 0, Unreliable);
                    v.wait(40_000);
                    v.round(ctx);
                    if i == 2 || i == 7 {
                        let b = v.genuine(done, pn);
                        done = v.sent.len();
                        v.feed(ctx, &b);
                        v.step();
                    }
                    let s = format!("rtt={:?} X={} buffer={} pending={}", v.hc.rtt_s(), v.hc.verif_send_rate(), v.hc.send_buffer_size(), v.hc.is_send_pending());
                    v.trace.as_mut().unwrap().push(s.into_bytes());
                }
                v.trace.take().unwrap()
            };
            let a = ctx.unrecorded(|ctx| run(ctx, false));
            let b = run(ctx, true);
            compare(&a, &b);
            ctx.state();
        }));
    }
}

// Two half connections ---------------------------------------------------------------------------

/// Variants of a genuine acknowledgement. Forged ones carry the initial window bases, which have long
/// been passed.
fn variant(bytes: &[u8], kind: usize, fw: u32, pw: u32) -> Vec<u8> {
    if kind == 0 {
        return bytes.to_vec();
    }
    match Frame::read(bytes) {
        Some(Frame::AckFrame(a)) => {
            let mut groups = a.frame_acks.clone();
            for g in groups.iter_mut() {
                match kind {
                    1 => g.nonce = !g.nonce,
                    2 => g.base_id = g.base_id.wrapping_sub(0x4000_0000),
                    3 => {
                        g.base_id = g.base_id.wrapping_sub(0x4000_0000);
                        g.nonce = !g.nonce;
                    }
                    // Covers frames which have not been sent
                    _ => {
                        g.base_id = g.base_id.wrapping_add(0x4000_0000);
                        g.bitfield = 0xFFFF_FFFF;
                    }
                }
            }
            Frame::AckFrame(AckFrame { frame_window_base_id: fw, packet_window_base_id: pw, frame_acks: groups }).write().to_vec()
        }
        _ => bytes.to_vec(),
    }
}

#[derive(Clone)]
struct Inject {
    /// Only this one, or all
    which: Option<(usize, u32)>,
    kind: usize,
    delay: i32,
}

fn world(ctx: &mut Ctx, p: P, loss: usize, rounds: u32, load: usize, fates: Option<[Vec<Fate>; 2]>, inj: Option<Inject>) -> World {
    let mut w = World::new(p, Monitors::default());
    w.trace = Some(vec![]);
    if let Some(f) = fates {
        let f = Arc::new(f);
        w.policy = Some(Box::new(move |e, i, _, _| Some(f[e].get(i as usize).copied().unwrap_or(Fate::Deliver))));
    } else if loss > 0 {
        w.policy = Some(Box::new(move |e, i, _, b| {
            let k = [1, 37, 90, 13][loss % 4];
            if b[0] == 10 && e == 0 && i % k == k - 1 {
                Some(Fate::Drop)
            } else if b[0] == 12 && i % 29 == 28 {
                Some(if i % 2 == 0 { Fate::Drop } else { Fate::Delay(2) })
            } else {
                Some(Fate::Deliver)
            }
        }));
    }
    if let Some(j) = inj {
        let (bf, bp) = (w.p.base_frame, w.p.base_pkt);
        w.extra = Some(Box::new(move |e, i, b, fate| {
            if b[0] != 12 || j.which.map_or(false, |x| x != (e, i)) || j.kind == 0 && (j.delay < 0 || matches!(fate, Fate::Drop | Fate::Corrupt(_))) {
                return vec![];
            }
            vec![(j.delay, variant(b, j.kind, bf[1 - e], bp[1 - e]))]
        }));
    }
    let mut n = 0usize;
    for k in 0..rounds {
        match load {
            0 => {
                if k < 6 {
                    w.submit(ctx, 0, [700, 3000, 40, 1448, 300, 900][k as usize], 0, [Reliable, Persistent, Unreliable, Reliable, TimeSensitive, Reliable][k as usize]);
                    if k % 2 == 0 {
                        w.submit(ctx, 1, 400, 1, Reliable);
                    }
                }
                if k == 30 || k == 33 || k == 90 {
                    w.submit(ctx, 0, 500, 0, Reliable);
                }
            }
            _ => {
                while w.ep[0].pkts.iter().rev().take_while(|p| !p.begun()).count() < 20 && n < 6_000 {
                    w.submit(ctx, 0, 1000 + n % 7, (n % 3) as u8, if n % 5 == 0 { Reliable } else { Unreliable });
                    n += 1;
                }
                if k % 10 == 0 {
                    w.submit(ctx, 1, 200, 0, Reliable);
                }
            }
        }
        w.do_tick(ctx);
        if k % 32 == 0 {
            ctx.heartbeat();
        }
    }
    w
}

fn compare_worlds(a: &World, b: &World) {
    let (x, y) = (a.trace.as_ref().unwrap(), b.trace.as_ref().unwrap());
    for i in 0..x.len().max(y.len()) {
        if x.get(i) != y.get(i) {
            let f = |t: Option<&(u64, u64, u64)>| match t {
                None => "-".to_string(),
                Some(t) if t.0 >= T0_US && t.0 < T0_US * 10 => format!("ep{} sends frame {:x} at {} ms", t.1, t.2, (t.0 - T0_US) / 1000),
                Some(t) => format!("rtt={} X={} buffer={} pending={}", f64::from_bits(t.0), f64::from_bits(t.1), t.2 >> 1, t.2 & 1),
            };
            fail(format!("an acknowledgement which is not genuine or not fresh has an effect. Without it: {}; with it: {}", f(x.get(i)), f(y.get(i))));
        }
    }
}

fn worlds(c: &mut Check, thorough: bool) {
    for (name, tick_us, lat) in [("20ms", 20_000u64, 2u32), ("0", 20_000, 0), ("4ms", 4_000, 15), ("150ms", 150_000, 1)] {
        c.add(Scenario::new(format!("replay/{}", name), if thorough { 2 } else { 1 }, move |ctx| {
            let p = P { tick_us, lat, branch: if thorough { 22 } else { 16 }, fates: vec![Fate::Deliver, Fate::Drop, Fate::Delay(3)], ..P::default() };
            let rounds = 120;
            let base = world(ctx, p.clone(), 0, rounds, 0, None, None);
            // One acknowledgement, or all
            let acks: Vec<(usize, u32)> = base.acks_out.clone();
            let i = ctx.choose_free(acks.len() + 1);
            let which = acks.get(i).copied();
            let kind = ctx.choose_free(5);
            let delay = if kind == 0 { ctx.choose_of(&[0i32, 1, 2, 4, 7, 20, 60]) } else { ctx.choose_of(&[-1i32, 0, 1, 5]) };
            let t = world(ctx, p, 0, rounds, 0, Some(base.fate_log.clone()), Some(Inject { which, kind, delay }));
            compare_worlds(&base, &t);
        }));
    }
    c.add(Scenario::new("throughout", 0, move |ctx| {
        let (tick_us, lat) = ctx.choose_of(&[(2_000u64, 12u32), (10_000, 1), (1_000, 60)]);
        let loss = ctx.choose_free(4);
        let kind = ctx.choose_free(5);
        let delay = if kind == 0 { ctx.choose_of(&[0i32, 1, 2, 5, 9, 20, 50, 130]) } else { ctx.choose_of(&[-1i32, 0, 1, 7]) };
        let ceil = ctx.choose_of(&[2_000_000u32, 60_000]);
        let p = P { tick_us, lat, bw: [ceil, 1_000_000], ..P::default() };
        let rounds = if thorough { 1_500 } else { 400 };
        let base = world(ctx, p.clone(), loss, rounds, 1, None, None);
        let t = world(ctx, p, loss, rounds, 1, None, Some(Inject { which: None, kind, delay }));
        compare_worlds(&base, &t);
    }));
}

pub fn c15(thorough: bool) -> Check {
    let mut c = Check::new(if thorough { 840 } else { 300 }, format!(
        "Pairs of runs which differ only by acknowledgements that are not genuine or not fresh; frames sent, RTT, send rate, send_buffer_size and is_send_pending must coincide. Facing a peer: 12 situations of the sender x 4 continuations of 20 rounds x every one of 16 points x every forged group of a grid ({} bases x {} bitfields around the frame log, wrong nonce if all frames are known, both nonces otherwise), alone, all of them, all in one frame, or within a genuine acknowledgement (in front or behind), and every exact copy of an earlier acknowledgement; {} nonce sequences; pairs of injections (a subset of groups); barrages at every subset of rounds. Between two half connections: up to {} faults among the first {} frames x 4 timings x each acknowledgement (or all) replayed after 0..60 ticks or forged in 4 ways before or after it; long loaded runs in slow start and the throughput equation phase with every acknowledgement replayed or forged. Every subset of {} frames acknowledged in 5 groupings, with right or partly wrong nonces: exactly the others are transmitted again; pairs of overlapping groups act like disjoint ones. Over 80 outstanding frames: groups of every width 1..32 in 4 shapes at every start with wrong nonces, and once acknowledged also with right ones. A copy of an acknowledgement which is one cycle of 2^20 packet ids old.",
        if thorough { "up to 25" } else { "up to 16" }, if thorough { "up to 19" } else { "up to 11" }, if thorough { 6 } else { 2 }, if thorough { 2 } else { 1 }, if thorough { 22 } else { 16 }, if thorough { 8 } else { 6 }));
    c.assumptions = vec!["forged acknowledgements carry frame and packet window bases which the sender already knows"];
    direct(&mut c, thorough);
    subsets(&mut c, thorough);
    overlaps(&mut c, thorough);
    wide(&mut c, thorough);
    worlds(&mut c, thorough);
    super::wrap::replayed(&mut c, "ack");
    c
}
