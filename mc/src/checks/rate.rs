//! C14: the allowed send rate against RFC 5348.
use super::Check;
use crate::ensure;
use crate::explore::{fail, Ctx, Scenario};
use crate::hc::*;
use uflow::SendMode::*;

pub(super) const S: f64 = 1472.0;
pub(super) const W_INIT: f64 = 4380.0;
pub(super) const FLOOR: f64 = 23.0;

/// Section 3.1, with b = 1 and t_RTO = 4 R
pub(super) fn throughput(rtt: f64, p: f64) -> f64 {
    let t_rto = 4.0 * rtt;
    let d = rtt * (2.0 * p / 3.0).sqrt() + t_rto * 3.0 * (3.0 * p / 8.0).sqrt() * p * (1.0 + 32.0 * p * p);
    if d <= 0.0 {
        f64::INFINITY
    } else {
        S / d
    }
}

// Through half connections -------------------------------------------------------------------------

/// Watches the rate and the RTT of an endpoint of a world
struct Eye {
    e: usize,
    ceil: f64,
    x: f64,
    lo: Option<f64>,
    hi: Option<f64>,
    acked_before: usize,
    slow: bool,
    any: bool,
}

impl Eye {
    fn new(w: &mut World, e: usize) -> Eye {
        let x = w.hc(e).verif_send_rate();
        Eye { e, ceil: w.p.bw[e] as f64, x, lo: None, hi: None, acked_before: 0, slow: true, any: false }
    }

    /// One iteration of the loop of both endpoints, as World::do_tick, with checks
    fn tick(&mut self, ctx: &mut Ctx, w: &mut World) {
        for e in 0..2 {
            w.flush(ctx, e);
            w.arrivals(ctx, e);
            let fed = if e == self.e { w.ep[e].newly.len() } else { 0 };
            w.step_hc(e);
            if e == self.e {
                self.check(ctx, w, fed);
            }
            w.receive(ctx, e);
        }
        w.tick += 1;
        w.advance(w.p.tick_us);
        ctx.state();
    }

    fn check(&mut self, ctx: &mut Ctx, w: &mut World, fed: usize) {
        let now = w.now_us;
        let x = w.hc(self.e).verif_send_rate();
        let rtt = w.hc(self.e).rtt_s();
        let t = w.rel_ms();
        ctx.note(|| format!("t={}ms X={} rtt={:?} newly acknowledged {}", t, x, rtt, fed));
        ensure!(x >= FLOOR && x <= self.ceil, "the send rate {} is not between {} and {}", x, FLOOR, self.ceil);
        if std::mem::take(&mut w.ep[self.e].unsure) {
            self.lo = rtt;
            self.hi = rtt;
            self.any |= rtt.is_some();
            w.ep[self.e].newly.clear();
        } else if fed == 0 {
            ensure!(x <= self.x, "the send rate rose from {} to {} though nothing was acknowledged", self.x, x);
            ensure!(x >= self.x.min((self.x / 2.0 - 2.0).max(FLOOR)), "the send rate fell from {} to {}, less than half, though nothing was acknowledged", self.x, x);
        } else {
            // Round trip time of the latest frame acknowledged; frames carry the time of the step before
            let latest = w.ep[self.e].newly.iter().max().copied().unwrap();
            let tick = w.p.tick_us as f64 / 1e6 + 0.0021;
            let s = (now - latest) as f64 / 1e6;
            let (lo, hi) = ((s - 0.0021).max(0.0), s + tick);
            self.lo = Some(self.lo.map_or(lo, |r| 0.9 * r + 0.1 * lo));
            self.hi = Some(self.hi.map_or(hi, |r| 0.9 * r + 0.1 * hi));
            w.ep[self.e].newly.clear();
            let r = match rtt {
                Some(r) => r,
                None => fail("no RTT estimate after an acknowledgement"),
            };
            ensure!(r >= self.lo.unwrap() - 1e-6 && r <= self.hi.unwrap() + 1e-6, "the RTT estimate is {} s, the moving average of the samples is between {} and {} s", r, self.lo.unwrap(), self.hi.unwrap());
            if self.slow {
                let u = (2.0 * self.x).max(W_INIT / r);
                ensure!(x <= u * 1.0001 + 2.0, "slow start: the send rate went from {} to {}; at most {:.0} is allowed", self.x, x, u);
            }
        }
        self.any |= fed > 0;
        self.x = x;
    }
}

/// Loss event rate according to section 5, from the frames which were lost. Whether a loss belongs to
/// the event before may depend on a few milliseconds: both are then supposed.
struct Losses {
    /// Supposed histories: the first frame lost, and the time it was sent, of each of the latest events
    alt: Vec<Vec<(u32, u64)>>,
    any: bool,
}

impl Losses {
    fn lost(&mut self, id: u32, at_us: u64, rtt: f64) {
        self.any = true;
        let mut more = vec![];
        for h in self.alt.iter_mut() {
            let sure = match h.last() {
                None => true,
                Some(l) => {
                    let d = (at_us - l.1) as f64 / 1e6;
                    if d < rtt * 0.8 - 0.005 {
                        continue;
                    }
                    d > rtt * 1.25 + 0.005
                }
            };
            if !sure {
                more.push(h.clone());
            }
            h.push((id, at_us));
            if h.len() > 14 {
                h.remove(0);
            }
        }
        self.alt.append(&mut more);
        self.alt.sort();
        self.alt.dedup();
        if self.alt.len() > 60 {
            self.alt = vec![vec![]];
        }
    }

    /// The lowest loss event rate which may be reported, given the highest frame acknowledged
    fn p_min(&self, highest: u32) -> Option<f64> {
        let mut least: Option<f64> = None;
        for h in self.alt.iter() {
            let p = Self::rate(h, highest)?;
            least = Some(least.map_or(p, |l| l.min(p)));
        }
        least
    }

    fn rate(events: &[(u32, u64)], highest: u32) -> Option<f64> {
        const W: [f64; 8] = [1.0, 1.0, 1.0, 1.0, 0.8, 0.6, 0.4, 0.2];
        // Events which have been recognised by now, or might have been
        let ids: Vec<u32> = events.iter().map(|x| x.0).filter(|i| (highest.wrapping_sub(*i) as i32) > 0).collect();
        let n = ids.len();
        if n < 11 {
            return None;
        }
        let f = |ids: &[u32]| {
            let n = ids.len();
            let mut len: Vec<f64> = vec![highest.wrapping_sub(ids[n - 1]) as f64 + 2.0];
            for i in 1..=8 {
                len.push(ids[n - i].wrapping_sub(ids[n - i - 1]) as f64);
            }
            let t0: f64 = (0..8).map(|i| W[i] * len[i]).sum();
            let t1: f64 = (0..8).map(|i| W[i] * len[i + 1]).sum();
            W.iter().sum::<f64>() / t0.max(t1)
        };
        // The last one or two may not have been recognised yet
        let recent = |k: usize| highest.wrapping_sub(ids[n - k]) < 200;
        let mut p = f(&ids);
        if recent(1) {
            p = p.min(f(&ids[..n - 1]));
            if recent(2) {
                p = p.min(f(&ids[..n - 2]));
            }
        }
        Some(p)
    }
}

fn world(c: &mut Check, thorough: bool) {
    // Loss, delay, and silence at every point
    for (name, tick_us, lat) in [("20ms", 20_000u64, 2u32), ("5ms", 5_000, 12), ("0", 10_000, 0), ("100ms", 100_000, 3)] {
        for ceil in [2_000_000u32, 5_000, 1472] {
            c.add(Scenario::new(format!("world/{}/ceil{}", name, ceil), if thorough { 4 } else { 3 }, move |ctx| {
                let p = P { tick_us, lat, bw: [ceil, 100_000], branch: if thorough { 30 } else { 20 }, fates: vec![Fate::Deliver, Fate::Drop, Fate::Delay(3), Fate::DupDelay(2)], ..P::default() };
                let mut w = World::new(p, Monitors::default());
                let pattern = ctx.choose_of(&[0usize, 1, 2]);
                let mut eye = Eye::new(&mut w, 0);
                let mut n = 0;
                for k in 0..60u32 {
                    match pattern {
                        // A backlog; or a little, regularly; or bursts and silence
                        0 => while w.ep[0].pkts.iter().filter(|p| !p.begun()).count() < 8 && n < 400 {
                            w.submit(ctx, 0, [700, 1448, 90][n % 3], 0, [Unreliable, Reliable][n % 2]);
                            n += 1;
                        },
                        1 => {
                            w.submit(ctx, 0, 200, 0, Unreliable);
                        }
                        _ => if k % 20 < 2 {
                            for _ in 0..6 {
                                w.submit(ctx, 0, 900, 0, Reliable);
                            }
                        },
                    }
                    // Once a frame has been overtaken, loss may have been recognised
                    eye.slow &= w.last_fault_us <= T0_US;
                    eye.tick(ctx, &mut w);
                }
                // Silence
                w.policy = Some(Box::new(|e, _, _, _| if e == 1 { Some(Fate::Drop) } else { None }));
                for k in 0..80 {
                    if k % 9 == 0 {
                        w.submit(ctx, 0, 700, 0, Unreliable);
                    }
                    eye.tick(ctx, &mut w);
                    w.advance(130_000);
                }
            }));
        }
    }
    // The connection is an old one
    for (tick_us, lat) in [(7_000u64, 3u32), (1_000, 30), (20_000, 2), (50_000, 0)] {
        c.add(Scenario::new(format!("uptime/{}us", tick_us), 0, move |ctx| {
            let up_s = ctx.choose_of(&[3_000_000u64, 70_000, 4_294_966, 4_294, 17_000_000, 2_147_482]);
            let lose = ctx.choose_of(&[0u32, 30, 7]);
            let ceil = ctx.choose_of(&[2_000_000u32, 5_000]);
            let mut w = World::new(P { tick_us, lat, bw: [ceil, 100_000], ..P::default() }, Monitors::default());
            w.do_tick(ctx);
            w.advance(up_s * 1_000_000);
            w.do_tick(ctx);
            w.policy = Some(Box::new(move |e, idx, _, _| if lose > 0 && e == 0 && idx % lose == lose - 1 { Some(Fate::Drop) } else { None }));
            let mut eye = Eye::new(&mut w, 0);
            let mut n = 0;
            let t0 = w.now_us;
            while w.now_us - t0 < 3_000_000 && w.ep[0].tx.len() < 1500 {
                while w.ep[0].pkts.iter().skip(n.max(20) - 20).filter(|p| !p.begun()).count() < 8 {
                    w.submit(ctx, 0, [700, 1448, 90][n % 3], 0, [Unreliable, Reliable][n % 2]);
                    n += 1;
                }
                eye.slow &= w.last_fault_us <= T0_US;
                eye.tick(ctx, &mut w);
            }
            ensure!(eye.any, "nothing was acknowledged");
            w.policy = Some(Box::new(|e, _, _, _| if e == 1 { Some(Fate::Drop) } else { None }));
            for k in 0..80 {
                if k % 9 == 0 {
                    w.submit(ctx, 0, 700, 0, Unreliable);
                }
                eye.tick(ctx, &mut w);
                w.advance(130_000);
            }
            ctx.state();
        }));
    }
    // Regular loss: the rate stays below the throughput equation
    c.add(Scenario::new("loss-pattern", 0, move |ctx| {
        let ks: &[u32] = ctx.choose_of(&[&[20u32][..], &[50], &[10, 40], &[120, 120, 15, 15], &[8, 8, 8, 200], &[300, 300, 30, 30], &[250, 250, 250, 250, 250, 20, 20, 20, 20], &[150, 150, 150, 150, 150, 150, 150, 150, 10]]);
        let (tick_us, lat) = ctx.choose_of(&[(1_000u64, 40u32), (2_000, 10), (4_000, 50), (500, 10)]);
        let size = ctx.choose_of(&[1440usize, 400]);
        let kinds = ctx.choose_of(&[1u32, 2, 3]);
        // The regular losses end at some point
        let until = ctx.choose_of(&[u32::MAX, 1500]);
        let p = P { tick_us, lat, bw: [4_000_000, 1_000_000], fw: 4096, ..P::default() };
        let mut w = World::new(p, Monitors::default());
        let rules = move |idx: u32| {
            // Position within a cycle of intervals, the losses being the ends; `kinds` frames in a row
            let total: u32 = ks.iter().sum();
            let mut r = idx % total;
            for k in ks.iter().copied() {
                if r < k {
                    return idx > 30 && idx < until && r + kinds >= k;
                }
                r -= k;
            }
            false
        };
        w.policy = Some(Box::new(move |e, idx, _, b| if e == 0 && b[0] == 10 && rules(idx) { Some(Fate::Drop) } else { None }));
        let mut eye = Eye::new(&mut w, 0);
        let mut losses = Losses { alt: vec![vec![]], any: false };
        let mut checked = 0u32;
        let mut n = 0usize;
        let frames = if thorough { 40_000 } else { 12_000 };
        let mut seen_total = 0;
        let mut begun = 0;
        for k in 0..300_000u32 {
            while begun < n && w.ep[0].pkts[begun].begun() {
                begun += 1;
            }
            while n - begun < 40 && n < 65_000 {
                w.submit(ctx, 0, size + (n % 3), 0, Unreliable);
                n += 1;
            }
            eye.slow = !losses.any;
            let id0 = w.ep[0].frame_next.unwrap_or(w.p.base_frame[0]);
            eye.tick(ctx, &mut w);
            if k % 16 == 0 {
                ctx.heartbeat();
            }
            let rtt = w.hc(0).rtt_s().unwrap_or(0.1);
            // Data frames among those sent (frame ids are consecutive)
            let id1 = w.ep[0].frame_next.unwrap_or(id0);
            let mut id = id0;
            while id != id1 {
                let rec = &w.ep[0].frames[&id];
                if rec.dropped {
                    losses.lost(id, rec.at_us, rtt);
                }
                id = id.wrapping_add(1);
                seen_total += 1;
            }
            if let (Some(h), true) = (w.ep[0].highest, eye.any) {
                if let Some(p) = losses.p_min(h) {
                    let x = w.hc(0).verif_send_rate();
                    let u = throughput(rtt, p);
                    checked += 1;
                    let t = w.rel_ms();
                    ensure!(x <= u * 1.03 + 2.0 || x <= FLOOR, "t={} ms: the send rate is {}, but the throughput equation gives {:.0} (RTT {} s, loss event rate at least {:.6})", t, x, u, rtt, p);
                }
            }
            if seen_total > frames {
                break;
            }
        }
        ctx.note(|| format!("{} frames, {} comparisons, {} alternatives", seen_total, checked, losses.alt.len()));
        ctx.observe(checked as u64);
    }));
}

pub fn c14(thorough: bool) -> Check {
    let mut c = Check::new(if thorough { 840 } else { 300 }, format!(
        "The rate computation driven directly: every history of {} feedbacks or silences (gaps 0..700 s, RTT samples 0..5 s, receive rates 0..2^32-1, loss rates 0..1, rate limited or not, frames sent in between or not) and of {} with a smaller alphabet, each for 4 ceilings and followed by a long silence; regular trajectories of 60 feedbacks x RTT, cadence, receive rate, loss rates, silences; the equation over 16 RTTs x 2001 loss rates; the first loss from every slow start rate. Through half connections: up to {} faults among the first {} frames x 4 timings x 3 ceilings x 3 loads, then silence, also on connections up to 200 days old: no increase without acknowledgements, floor, ceiling, RTT average, slow start doubling; regular loss patterns (8 x 4 timings x sizes x runs) against the throughput equation with an independently computed loss event rate.",
        if thorough { 4 } else { 3 }, if thorough { 6 } else { 4 }, if thorough { 4 } else { 3 }, if thorough { 30 } else { 20 }));
    c.assumptions = vec!["rates are compared with a tolerance of 2 B/s (3 % for the loss event rate computed from the frames lost)", "the first feedback carries no receive rate"];
    #[cfg(feature = "direct")]
    super::rate_direct::direct(&mut c, thorough);
    #[cfg(not(feature = "direct"))]
    c.assumptions.push("the interface of the rate computation is not the one known to this check: it was explored through half connections only");
    world(&mut c, thorough);
    c
}
