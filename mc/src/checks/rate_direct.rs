//! C14: the rate computation driven directly. Built only if its interface is the one known here (feature "direct").
use super::rate::{throughput, FLOOR, S, W_INIT};
use super::Check;
use crate::ensure;
use crate::explore::{fail, Ctx, Scenario};
use uflow::verif::{FeedbackData, SendRateComp};

/// X_recv_set. `lazy`: entries of exactly two RTTs are kept
struct Recv {
    e: Vec<(u64, f64, bool)>,
    lazy: bool,
}

impl Recv {
    fn max(&self) -> f64 {
        self.e.iter().map(|x| x.1).fold(0.0, f64::max)
    }
    fn reset(&mut self, now: u64, v: f64, initial: bool) {
        self.e = vec![(now, v, initial)];
    }
    fn maximize(&mut self, now: u64, v: f64) {
        self.e.retain(|x| !x.2);
        let m = self.max().max(v);
        self.reset(now, m, false);
    }
    fn limit(&mut self, now: u64, v: f64, rtt_ms: u64, data_limited: bool, loss: bool) -> f64 {
        if !data_limited {
            let lazy = self.lazy;
            self.e.retain(|x| now - x.0 < 2 * rtt_ms || lazy && now - x.0 == 2 * rtt_ms);
            self.e.push((now, v, false));
            2.0 * self.max()
        } else if loss {
            for x in self.e.iter_mut() {
                x.1 /= 2.0;
            }
            self.maximize(now, v * 0.85);
            self.max()
        } else {
            self.maximize(now, v);
            2.0 * self.max()
        }
    }
}

/// Follows the real component, and bounds what it may do
pub struct Tfrc {
    ceil: f64,
    x: f64,
    rtt: Option<f64>,
    loss: bool,
    prev_p: f64,
    x_calc: f64,
    hi: Recv,
    lo: Recv,
    doubled: Option<u64>,
    expiry: Option<u64>,
    idle: bool,
    pub sent: bool,
}

impl Tfrc {
    pub fn new(ceil: u32) -> Tfrc {
        Tfrc {
            ceil: ceil as f64, x: S, rtt: None, loss: false, prev_p: 0.0, x_calc: f64::INFINITY, hi: Recv { e: vec![], lazy: true }, lo: Recv { e: vec![], lazy: false },
            doubled: None, expiry: None, idle: false, sent: false,
        }
    }

    pub fn frame_sent(&mut self, now: u64) {
        if !self.sent {
            self.sent = true;
            self.expiry = Some(now + 2000);
            self.hi.reset(now, f64::INFINITY, true);
            self.lo.reset(now, f64::INFINITY, true);
        }
        self.idle = false;
    }

    fn rto_ms(&self, x: f64) -> u64 {
        ((4.0 * self.rtt.unwrap_or(0.0)).max(2.0 * S / x) * 1000.0).round() as u64
    }

    fn common(&mut self, c: &SendRateComp, what: &str) -> f64 {
        let x = c.send_rate();
        ensure!(x >= FLOOR, "{}: the send rate {} is below the floor", what, x);
        ensure!(x <= self.ceil, "{}: the send rate {} is above the ceiling {}", what, x, self.ceil);
        match (self.rtt, c.rtt_s()) {
            (None, None) => (),
            (Some(a), Some(b)) => ensure!((a - b).abs() <= 1e-6 * a.max(1.0), "{}: RTT estimate {} s, the moving average of the samples is {} s", what, b, a),
            (a, b) => fail(format!("{}: RTT estimate {:?}, expected {:?}", what, b, a)),
        }
        x
    }

    /// After a feedback. `reset` is the loss event rate the history was reinitialised to
    pub fn feedback(&mut self, now: u64, c: &SendRateComp, f: (u64, u32, f64, bool), reset: Option<f64>) {
        let (sample, recv, p, limited) = f;
        let s = sample as f64 / 1000.0;
        let first = self.rtt.is_none();
        let rtt = self.rtt.map_or(s, |r| 0.9 * r + 0.1 * s);
        self.rtt = Some(rtt);
        let rtt_ms = (rtt * 1000.0).round() as u64;
        let rto = self.rto_ms(self.x);
        let inc = p > self.prev_p;
        self.prev_p = p;
        let mut limit = self.hi.limit(now, recv as f64, rtt_ms, !limited, inc);
        self.lo.limit(now, recv as f64, rtt_ms, !limited, inc);
        let what;
        let u = if self.loss {
            what = "throughput equation";
            self.x_calc = throughput(rtt, p);
            self.x_calc.min(limit)
        } else if inc {
            what = "first loss";
            self.loss = true;
            let target = if first {
                // There is no receive rate yet
                limit = f64::INFINITY;
                self.hi.reset(now, limit, true);
                self.lo.reset(now, limit, true);
                S / 2.0 / rtt
            } else {
                self.x / 2.0
            };
            self.x_calc = target;
            match reset {
                None => fail("the first loss did not initialise the loss history"),
                Some(q) => {
                    let t = target.min(u32::MAX as f64);
                    // Unless the equation cannot be that low or high
                    let y = throughput(rtt, q);
                    ensure!(y <= t * 1.06 + 2.0 || q > 0.999 || rtt == 0.0, "the loss history was initialised to {}, allowing {} B/s instead of {}", q, y, t);
                }
            }
            target.min(limit)
        } else if first {
            what = "first feedback";
            self.doubled = Some(now);
            W_INIT / rtt
        } else if now - self.doubled.unwrap() >= rtt_ms {
            what = "slow start";
            self.doubled = Some(now);
            (2.0 * self.x).min(limit).max(W_INIT / rtt)
        } else {
            what = "slow start, within one RTT";
            self.x
        };
        ensure!(self.loss || reset.is_none(), "the loss history was initialised without a loss");
        let u = u.max(FLOOR).min(self.ceil);
        let x = self.common(c, what);
        ensure!(x <= u * (1.0 + 1e-6) + 2.0, "{}: the send rate went from {} to {}, but at most {:.1} is allowed (rtt {} s, feedback {:?}, limit {:.1})", what, self.x, x, u, rtt, f, limit);
        let r = c.rto_ms();
        ensure!(r.map_or(false, |r| r.abs_diff(rto) <= 1), "{}: RTO is {:?} ms, max(4R, 2s/X) is {} ms", what, r, rto);
        self.x = x;
        self.expiry = Some(now + rto);
        self.idle = true;
    }

    /// After a step without feedback
    pub fn silence(&mut self, now: u64, c: &SendRateComp) {
        if !self.sent {
            let x = self.common(c, "nothing sent");
            ensure!(x <= self.x, "the send rate rose from {} to {} without any feedback", self.x, x);
            return;
        }
        let exp = self.expiry.unwrap();
        if now < exp {
            let x = self.common(c, "no feedback");
            ensure!(x <= self.x, "the send rate rose from {} to {} without any feedback", self.x, x);
            if now + 1 < exp {
                ensure!(x == self.x, "the send rate fell from {} to {} before the nofeedback timer expired ({} ms to go)", self.x, x, exp - now);
                return;
            }
            if x == self.x {
                return;
            }
        }
        let x = self.common(c, "nofeedback timer");
        ensure!(x <= self.x, "the send rate rose from {} to {} without any feedback", self.x, x);
        if now == exp && x == self.x && c.rto_ms().is_none() {
            return;
        }
        let low = self.x.min((self.x / 2.0 - 2.0).max(FLOOR));
        ensure!(x >= low, "nofeedback timer: the send rate fell from {} to {}, less than half", self.x, x);
        let half = (self.x / 2.0).max(FLOOR);
        let must;
        if !self.loss {
            must = match self.rtt {
                None => !self.idle,
                Some(r) => !self.idle || self.x > 2.0 * (W_INIT / r) + 4.0,
            };
            if must {
                ensure!(x <= half + 1.0, "nofeedback timer, slow start: the send rate {} was not halved ({})", self.x, x);
            }
        } else {
            let recover = W_INIT / self.rtt.unwrap();
            let (hi, lo) = (self.hi.max(), self.lo.max());
            must = !self.idle || lo > recover + 2.0;
            let maybe = !self.idle || hi >= recover - 2.0;
            if must {
                let lim = (self.x_calc.min(2.0 * hi).min(self.ceil) / 2.0).max(FLOOR);
                ensure!(x <= lim.min(self.x) + 2.0, "nofeedback timer: the send rate {} must be limited to {:.1}, but is {} (X_recv {})", self.x, lim, x, hi);
            }
            if maybe {
                let hl = (self.x_calc.min(2.0 * hi).min(self.ceil) / 2.0).max(FLOOR) / 2.0;
                let ll = (self.x_calc.min(2.0 * lo).min(self.ceil) / 2.0).max(FLOOR) / 2.0;
                if must || x < self.x {
                    self.hi.reset(now, hl, false);
                    self.lo.reset(now, ll - 1.0, false);
                } else {
                    // Not visible from outside
                    self.hi.e.push((now, hl, false));
                    self.lo.reset(now, 0.0, false);
                }
            }
        }
        self.x = x;
        let rto = self.rto_ms(x);
        ensure!(c.rto_ms().map_or(false, |r| r.abs_diff(rto) <= 1), "nofeedback timer: RTO is {:?} ms, max(4R, 2s/X) is {} ms", c.rto_ms(), rto);
        self.expiry = Some(now + rto);
        self.idle = true;
    }
}

struct Drive {
    c: SendRateComp,
    t: Tfrc,
    now: u64,
}

impl Drive {
    fn new(ceil: u32) -> Drive {
        Drive { c: SendRateComp::new(ceil), t: Tfrc::new(ceil), now: 5_000 }
    }

    fn sent(&mut self) {
        self.c.notify_frame_sent(self.now);
        self.t.frame_sent(self.now);
    }

    fn feed(&mut self, ctx: &mut Ctx, f: (u64, u32, f64, bool)) {
        ctx.step();
        let mut reset = None;
        self.c.step(self.now, Some(FeedbackData { rtt_ms: f.0, receive_rate: f.1, loss_rate: f.2, rate_limited: f.3 }), |p| reset = Some(p));
        if !self.t.sent {
            self.t.silence(self.now, &self.c);
            return;
        }
        self.t.feedback(self.now, &self.c, f, reset);
        ctx.observe(self.c.send_rate() as u64);
    }

    fn idle(&mut self, ctx: &mut Ctx) {
        ctx.step();
        self.c.step(self.now, None, |_| fail("loss history reset without feedback"));
        self.t.silence(self.now, &self.c);
        ctx.observe(self.c.send_rate() as u64);
    }

    fn say(&self, ctx: &mut Ctx, what: &str) {
        let (n, x, r) = (self.now, self.c.send_rate(), self.c.rtt_s());
        ctx.note(|| format!("t={}ms {}: X={} rtt={:?}", n, what, x, r));
    }
}

const CEILS: [u32; 4] = [u32::MAX, 1_000_000, 10_000, 1472];

pub fn direct(c: &mut Check, thorough: bool) {
    // Every history of feedbacks and silences
    for ceil in CEILS {
        for mode in 0..3usize {
            let depth = match (mode, thorough) { (0, _) => 2, (1, false) => 4, (1, true) => 5, (_, false) => 2, (_, true) => 3 };
            c.add(Scenario::new(format!("histories/ceil{}/{}", ceil, ["wide", "deep", "medium"][mode]), 0, move |ctx| {
                let mut d = Drive::new(ceil);
                d.sent();
                for k in 0..depth {
                    let (gaps, samples, recvs, losses): (&[u64], &[u64], &[u32], &[f64]) = if mode == 0 {
                        (&[0, 100, 2_000, 700_000], if k == 0 { &[0, 1, 100, 5_000] } else { &[0, 100, 3_000] }, &[0, 1_000, 60_000, u32::MAX], &[0.0, 1e-7, 0.01, 1.0])
                    } else if mode == 2 {
                        (&[0, 100, 700_000], &[0, 100], &[0, 1_000, u32::MAX], &[0.0, 0.01, 1.0])
                    } else {
                        (&[60, 3_000], &[50], if k == 0 { &[0] } else { &[500, 100_000] }, &[0.0, 0.02])
                    };
                    d.now += ctx.choose_of(gaps);
                    match ctx.choose_free(3) {
                        0 => {
                            d.idle(ctx);
                            d.say(ctx, "silence");
                            if mode == 0 {
                                d.now += 60_000;
                                d.idle(ctx);
                            }
                        }
                        a => {
                            let f = (ctx.choose_of(samples), ctx.choose_of(recvs), ctx.choose_of(losses), a == 2);
                            d.feed(ctx, f);
                            d.say(ctx, "feedback");
                        }
                    }
                    if ctx.choose_free(2) == 1 {
                        d.sent();
                    }
                }
                // Long silence: down to the floor, never up
                for k in 0..12 {
                    d.now += [500u64, 5_000, 130_000][k % 3];
                    d.idle(ctx);
                    if k % 4 != 3 {
                        d.sent();
                    }
                }
                ctx.state();
            }));
        }
    }
    // Long regular histories: slow start up to loss, then a changing loss rate
    c.add(Scenario::new("trajectories", 0, move |ctx| {
        let mut d = Drive::new(ctx.choose_of(&CEILS));
        let rtt = ctx.choose_of(&[1u64, 20, 100, 900]);
        let every = ctx.choose_of(&[1u64, 2, 5]);
        let limited = ctx.choose_free(2) == 1;
        let follow = ctx.choose_of(&[1.0f64, 0.7, 2.0, 0.01]);
        let rounds = ctx.choose_of(&[2usize, 8, 20]);
        let losses = ctx.choose_of(&[[1e-4f64, 1e-3, 1e-2], [0.1, 0.1, 0.0], [1.0, 1e-8, 0.5], [0.01, 0.02, 0.005]]);
        let gap = rtt.max(1) * 2 / every;
        let silent = ctx.choose_of(&[0usize, 7, 3]);
        d.sent();
        for k in 0..60 {
            d.now += gap;
            d.sent();
            let p = if k < rounds { 0.0 } else { losses[(k - rounds) / 5 % 3] };
            if silent > 0 && k % silent == silent - 1 {
                d.now += [100u64, 2_000, 40_000][k % 3];
                d.idle(ctx);
                if k % 2 == 0 {
                    d.sent();
                }
                continue;
            }
            let r = (d.c.send_rate() * follow) as u32;
            d.feed(ctx, (rtt + (k as u64 * 7) % (rtt / 2 + 1), if k == 0 { 0 } else { r }, p, limited ^ (k % 11 == 10)));
            d.say(ctx, "feedback");
        }
        ctx.state();
    }));
    // The throughput equation itself, through the component: every loss rate and RTT of a fine grid
    c.add(Scenario::new("equation", 0, move |ctx| {
        let rtt = ctx.choose_of(&[1u64, 2, 5, 10, 30, 50, 100, 150, 200, 333, 500, 1_000, 2_000, 5_000, 20_000, 60_000]);
        let mut d = Drive::new(u32::MAX);
        d.sent();
        d.now += rtt;
        d.feed(ctx, (rtt, 0, 0.5, true));
        for k in 0..=2_000u32 {
            d.now += rtt;
            let p = 10f64.powf(-8.0 + 8.0 * k as f64 / 2_000.0);
            d.feed(ctx, (rtt, u32::MAX, p, true));
            ctx.extra_execs += 1;
        }
        ctx.state();
    }));
    // Entering the equation from every rate
    c.add(Scenario::new("first-loss", 0, move |ctx| {
        let rtt = ctx.choose_of(&[1u64, 3, 10, 50, 100, 400, 1_500, 10_000]);
        let n = ctx.choose_free(34);
        let p = ctx.choose_of(&[1e-8f64, 1e-3, 0.5, 1.0]);
        let r = ctx.choose_of(&[u32::MAX, 50_000, 0]);
        let limited = ctx.choose_free(2) == 1;
        let mut d = Drive::new(u32::MAX);
        d.sent();
        for k in 0..n {
            d.now += rtt;
            d.feed(ctx, (rtt, if k == 0 { 0 } else { u32::MAX }, 0.0, true));
        }
        for k in 0..if thorough { 8 } else { 4 } {
            d.now += rtt;
            d.feed(ctx, (rtt, r, p, limited));
            d.say(ctx, "loss");
            if k % 2 == 1 {
                d.now += 30_000;
                d.idle(ctx);
                d.sent();
            }
        }
        ctx.state();
    }));
}

