//! C07, C08, C09, C10, C17, C18: a server and its clients on a faulty network.
use super::Check;
use crate::cs::*;
use crate::ensure;
use crate::explore::{fail, Ctx, Scenario};
use crate::hc::{Fate, MODES};
use uflow::verif::frame::*;
use uflow::verif::net;
use uflow::EndpointConfig;
use uflow::SendMode::*;

const ASSUME: [&str; 2] = [
    "the sockets, clock and random numbers seen by the library are the virtual ones of the verif hooks",
    "endpoints are stepped sequentially on one thread, as the library requires",
];

fn check(wall: u64, bounds: &str) -> Check {
    let mut c = Check::new(wall, bounds);
    c.assumptions = ASSUME.to_vec();
    c
}

fn ec() -> EndpointConfig {
    EndpointConfig::default()
}

fn raw_syn(nonce: u32) -> Frame {
    Frame::HandshakeSynFrame(HandshakeSynFrame { version: 3, nonce, max_receive_rate: 2_000_000, max_packet_size: 1_000_000, max_receive_alloc: 1_000_000 })
}

fn raw_ack(nonce: u32) -> Frame {
    Frame::HandshakeAckFrame(HandshakeAckFrame { nonce_ack: nonce })
}

fn raw_synack(nonce_ack: u32, nonce: u32) -> Frame {
    Frame::HandshakeSynAckFrame(HandshakeSynAckFrame { nonce_ack, nonce, max_receive_rate: 1_000_000, max_packet_size: 1000, max_receive_alloc: 100_000 })
}

fn raw_err(nonce_ack: u32, error: HandshakeErrorType) -> Frame {
    Frame::HandshakeErrorFrame(HandshakeErrorFrame { nonce_ack, error })
}

fn count(ev: &[(u64, Ev)], want: &Ev) -> usize {
    ev.iter().filter(|(_, e)| e == want).count()
}

/// Both ends connected exactly once, without errors.
fn ensure_up(n: &mut Net, i: usize) {
    let a = n.peers[i].addr;
    ensure!(n.peers[i].gr == Gr::Up, "the client {} is not connected (events {:?})", a.port(), n.peers[i].events);
    ensure!(count(&n.peers[i].events, &Ev::Connect) == 1, "the client {} reported Connect {} times", a.port(), count(&n.peers[i].events, &Ev::Connect));
    let s = n.spec(a);
    ensure!(s.gr == Gr::Up, "the server does not consider {} connected (events {:?})", a.port(), s.events);
}

fn connect_quietly(n: &mut Net, ctx: &mut Ctx, cfg: EndpointConfig) -> usize {
    let i = n.connect(ctx, cfg);
    for _ in 0..40 {
        n.do_tick(ctx);
        let a = n.peers[i].addr;
        if n.peers[i].gr == Gr::Up && n.spec(a).gr == Gr::Up {
            return i;
        }
    }
    fail(format!("no connection within 40 ticks of a loss-free network (client events {:?})", n.peers[i].events));
}

/// Lets every timer run out; the monitors stay active.
fn drain(n: &mut Net, ctx: &mut Ctx, ms: u64) {
    n.branch = 0;
    n.policy = None;
    n.run_ms(ctx, ms);
}

// C08, C09 ---------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Debug)]
enum Act {
    None,
    CSend(usize),
    SSend(usize),
    CDisc(usize),
    CNow(usize),
    SDisc(usize),
    SNow(usize),
    SDrop(usize),
    Rebirth(usize),
    Kill(usize),
    CFlush(usize),
    SFlush,
    SkipServer,
    SkipClient(usize),
    DoubleStep,
    Blackout(u32),
    /// Replays the n-th last frame the given side received
    Join,
}

struct Api {
    name: &'static str,
    /// tick, action: performed in the default execution
    base: Vec<(u32, Act)>,
    clients: usize,
    tick_ms: u64,
    horizon: u32,
    menu: Vec<Act>,
    fates: Vec<Fate>,
    branch: u32,
    bound: u32,
    errors: bool,
    clients_first: bool,
    flush_after: bool,
    active_timeout: u64,
    mon: Mon,
    end: ApiEnd,
    lat: u32,
}

#[derive(Clone, Copy, PartialEq)]
enum ApiEnd {
    Grammar,
    Disc,
}

fn act(n: &mut Net, ctx: &mut Ctx, a: Act, skip: &mut Vec<Act>, black: &mut u32) {
    match a {
        Act::None => (),
        Act::CSend(i) if i < n.peers.len() => {
            n.csend(ctx, i, 100, 1, Reliable);
            n.csend(ctx, i, 40, 2, Unreliable);
        }
        Act::SSend(i) if i < n.peers.len() => {
            let a = n.peers[i].addr;
            n.ssend(ctx, a, 110, 1, Reliable);
            n.ssend(ctx, a, 41, 2, Unreliable);
        }
        Act::CDisc(i) if i < n.peers.len() => n.cdisc(ctx, i, false),
        Act::CNow(i) if i < n.peers.len() => n.cdisc(ctx, i, true),
        Act::SDisc(i) if i < n.peers.len() => {
            let a = n.peers[i].addr;
            n.sdisc(ctx, a, false)
        }
        Act::SNow(i) if i < n.peers.len() => {
            let a = n.peers[i].addr;
            n.sdisc(ctx, a, true)
        }
        Act::SDrop(i) if i < n.peers.len() => {
            let a = n.peers[i].addr;
            n.sdrop(ctx, a)
        }
        Act::Rebirth(i) if i < n.peers.len() => n.reincarnate(ctx, i),
        Act::Kill(i) if i < n.peers.len() => n.kill(ctx, i),
        Act::CFlush(i) if i < n.peers.len() => n.flush_client(ctx, i),
        Act::SFlush => n.flush_server(ctx),
        Act::DoubleStep => {
            n.step_server(ctx);
            for i in 0..n.peers.len() {
                n.step_client(ctx, i);
            }
        }
        Act::Blackout(k) => *black = (*black).max(k),
        Act::Join => {
            n.connect(ctx, ec());
        }
        s => skip.push(s),
    }
}

fn run_api(s: &Api, ctx: &mut Ctx) {
    let mut cfg = ec();
    cfg.active_timeout_ms = s.active_timeout;
    let mut n = Net::new(scfg(10, 8, s.errors, cfg.clone()), s.mon);
    n.tick_us = s.tick_ms * 1000;
    n.lat = s.lat;
    n.clients_first = s.clients_first;
    n.flush_after = s.flush_after;
    n.fates = s.fates.clone();
    n.branch = s.branch;
    for _ in 0..s.clients {
        n.connect(ctx, cfg.clone());
    }
    let mut black = 0u32;
    for t in 0..s.horizon {
        let mut skip = vec![];
        let mut b = 0;
        for (bt, a) in s.base.iter() {
            if *bt == t {
                act(&mut n, ctx, *a, &mut skip, &mut b);
            }
        }
        let c = ctx.choose(s.menu.len());
        act(&mut n, ctx, s.menu[c], &mut skip, &mut b);
        black = black.max(b);
        n.black = black > 0;
        black = black.saturating_sub(1);
        n.do_tick_skipping(ctx, skip.contains(&Act::SkipServer), &|i| skip.contains(&Act::SkipClient(i)));
    }
    if s.end == ApiEnd::Disc {
        // From here on only disconnects already called count
        while black > 0 {
            black -= 1;
            n.do_tick(ctx);
        }
    }
    n.black = false;
    let extra = s.active_timeout.min(60_000);
    drain(&mut n, ctx, 23_000 + extra + 13 * s.tick_ms);
    for i in 0..n.peers.len() {
        check_ended(&mut n, i);
    }
    if s.end == ApiEnd::Grammar {
        // An untouched connection has survived; afterwards everything can be closed
        for i in 0..n.peers.len() {
            n.cdisc(ctx, i, true);
        }
        drain(&mut n, ctx, 23_000 + extra + 13 * s.tick_ms);
        for i in 0..n.peers.len() {
            check_ended(&mut n, i);
        }
    }
}

/// Once a disconnect request is out, both ends reach a terminal event within the retry budget.
fn check_ended(n: &mut Net, i: usize) {
    if n.peers[i].client.is_none() {
        return;
    }
    let a = n.peers[i].addr;
    if n.peers[i].disc_tx.is_some() {
        ensure!(n.peers[i].gr == Gr::Done, "client {} has sent a disconnect request, yet saw no terminal event: {:?}", a.port(), n.peers[i].events);
    }
}

fn api_fates() -> Vec<Fate> {
    vec![Fate::Deliver, Fate::Drop, Fate::Dup, Fate::Delay(3), Fate::DupDelay(9), Fate::Delay(30)]
}

fn api_scripts() -> Vec<(&'static str, Vec<(u32, Act)>)> {
    use Act::*;
    vec![
        ("idle", vec![(4, CSend(0)), (4, SSend(0))]),
        ("cdisc", vec![(3, CSend(0)), (4, SSend(0)), (5, CDisc(0))]),
        ("sdisc", vec![(3, CSend(0)), (4, SSend(0)), (5, SDisc(0))]),
        ("both", vec![(4, SSend(0)), (4, CSend(0)), (5, CDisc(0)), (5, SDisc(0))]),
        ("bothnow", vec![(4, SSend(0)), (4, CSend(0)), (5, CNow(0)), (5, SNow(0))]),
        ("rebirth", vec![(3, CSend(0)), (5, CNow(0)), (9, Rebirth(0)), (14, CSend(0))]),
        ("sdrop", vec![(3, CSend(0)), (5, SDrop(0)), (6, CSend(0)), (9, Rebirth(0))]),
        ("silent", vec![(3, CSend(0)), (3, SSend(0)), (5, Kill(0)), (30, Rebirth(0))]),
        ("black", vec![(3, CSend(0)), (5, Blackout(30)), (6, CNow(0)), (7, SSend(0))]),
        ("two", vec![(3, CSend(0)), (3, CSend(1)), (5, CDisc(0)), (6, SSend(1)), (7, SDisc(1))]),
    ]
}

fn api_menu() -> Vec<Act> {
    use Act::*;
    vec![None, CDisc(0), CNow(0), SDisc(0), SNow(0), SDrop(0), Rebirth(0), CSend(0), SSend(0), Kill(0), SkipServer, SkipClient(0), DoubleStep, SFlush, CFlush(0), CNow(1), SDrop(1), Blackout(4)]
}

pub fn c08(thorough: bool) -> Check {
    let mut c = check(if thorough { 840 } else { 150 },
        "Real server and 1-2 real clients, steps of 250-2500 ms: ten base scripts (send/disconnect/disconnect_now/drop/reconnect/blackout) x every placement of up to 2 (quick) or 3 (thorough, shorter horizon) deviations, each a further API call (17 kinds, incl. skipping or doubling a step, killing or reconnecting a client) at any tick or a fate (drop, dup, delay 3/30 ticks, dup+late copy) of any of the first frames; handshake errors on/off, step order, flush after step; then 50 s with all timers running. Late copies of every recorded frame are also replayed at every later tick. crowd: of three clients, one falls silent, another ends in 7 ways within 2 (4) ticks of that timeout, the third goes on.");
    let mon = Mon { grammar: true, order: true, ..Mon::default() };
    crowd_three(&mut c, mon, thorough);
    for (si, (name, base)) in api_scripts().into_iter().enumerate() {
        for (vi, tick_ms) in [250u64, 1000, 2500].into_iter().enumerate() {
            if !thorough && vi != si % 2 && !(vi == 2 && si % 3 == 0) {
                continue;
            }
            let s = Api {
                name, base: base.clone(), clients: if name == "two" { 2 } else { 1 }, tick_ms, horizon: if thorough { 40 } else { 24 }, menu: api_menu(), fates: if thorough { api_fates() } else { api_fates()[..5].to_vec() }, branch: if thorough { 40 } else { 20 },
                bound: 2, errors: (si + vi) % 2 == 0, clients_first: (si + vi) % 3 == 0, flush_after: si % 2 == 1, active_timeout: if vi == 0 { 4000 } else { 20_000 }, mon, end: ApiEnd::Grammar, lat: 1,
            };
            c.add(Scenario::new(format!("api/{}/{}ms", s.name, tick_ms), s.bound, move |ctx| run_api(&s, ctx)));
        }
        if thorough {
            let s = Api {
                name, base: base.clone(), clients: if name == "two" { 2 } else { 1 }, tick_ms: 1000, horizon: 12, menu: api_menu()[..12].to_vec(), fates: api_fates(), branch: 16,
                bound: 3, errors: si % 2 == 0, clients_first: si % 3 == 0, flush_after: si % 2 == 1, active_timeout: 20_000, mon, end: ApiEnd::Grammar, lat: 1,
            };
            c.add(Scenario::new(format!("api3/{}", s.name), s.bound, move |ctx| run_api(&s, ctx)));
        }
    }
    for (name, base) in api_scripts() {
        let bound = if thorough { 2 } else { 1 };
        for errors in [false, true] {
            let base = base.clone();
            c.add(Scenario::new(format!("replay/{}/{}", name, errors), bound, move |ctx| run_replay(&base, errors, mon, ctx)));
        }
    }
    c
}

/// Any frame sent so far is delivered once more, at any later tick.
fn run_replay(base: &[(u32, Act)], errors: bool, mon: Mon, ctx: &mut Ctx) {
    let mut n = Net::new(scfg(10, 8, errors, ec()), mon);
    n.tick_us = 1_000_000;
    n.keep_log = true;
    n.connect(ctx, ec());
    n.connect(ctx, ec());
    for t in 0..36u32 {
        let (mut skip, mut b) = (vec![], 0);
        for (bt, a) in base.iter() {
            if *bt == t {
                act(&mut n, ctx, *a, &mut skip, &mut b);
            }
        }
        if b > 0 {
            n.black_until = n.now + b as u64 * n.tick_us;
        }
        if t < 30 || t % 3 == 0 {
            let k = n.txlog.len();
            let j = ctx.choose(k + 1);
            if j > 0 {
                let x = &n.txlog[k - j];
                let (s, d, data) = (x.src, x.dst, x.data.clone());
                n.inject(s, d, data, 0);
            }
        }
        n.do_tick(ctx);
    }
    drain(&mut n, ctx, 50_000);
}

// C09 --------------------------------------------------------------------------------------------

struct DiscCase {
    /// 0: client, 1: server, 2: both at once, 3: client then server a tick later
    who: u32,
    now: bool,
    pkts: u32,
    size: usize,
    reverse: u32,
    at: u32,
    tick_ms: u64,
    lat: u32,
    fates: Vec<Fate>,
    bound: u32,
    branch: u32,
    /// From the disconnect call (0) or from the first request (1) on: nothing at all gets through, in direction (bits)
    black: Option<(u32, u32)>,
    kinds: Option<Vec<Kind>>,
    budget_rate: usize,
    clients_first: bool,
    flush_after: bool,
}

fn run_disc(s: &DiscCase, ctx: &mut Ctx) {
    let mut cfg = ec();
    cfg.max_send_rate = s.budget_rate;
    let mut n = Net::new(scfg(4, 4, false, cfg.clone()), Mon { grammar: true, disc: true, order: true, ..Mon::default() });
    n.tick_us = s.tick_ms * 1000;
    n.lat = s.lat;
    n.clients_first = s.clients_first;
    n.flush_after = s.flush_after;
    let i = connect_quietly(&mut n, ctx, cfg);
    let a = n.peers[i].addr;
    n.run_ms(ctx, s.tick_ms * 2);
    n.fates = s.fates.clone();
    n.branch = s.branch;
    n.branch_kinds = s.kinds.clone();
    let modes = [Reliable, Unreliable, Reliable, Persistent, TimeSensitive];
    let shape = |k: u32| if s.size == 0 { (0, 0, Reliable) } else { (s.size + k as usize % 3, (k % 3) as u8, modes[k as usize % 5]) };
    for k in 0..s.pkts {
        let (sz, ch, m) = shape(k);
        if s.who == 1 {
            n.ssend(ctx, a, sz, ch, m);
        } else {
            n.csend(ctx, i, sz, ch, m);
        }
    }
    for k in 0..s.reverse {
        let (sz, ch, m) = shape(k);
        if s.who == 1 {
            n.csend(ctx, i, sz, ch, m);
        } else {
            n.ssend(ctx, a, sz, ch, m);
        }
    }
    for _ in 0..s.at {
        n.do_tick(ctx);
    }
    let faults_possible = !s.fates.is_empty() && s.bound > 0;
    match s.who {
        0 => n.cdisc(ctx, i, s.now),
        1 => n.sdisc(ctx, a, s.now),
        2 => {
            n.cdisc(ctx, i, s.now);
            n.sdisc(ctx, a, s.now);
        }
        _ => {
            n.cdisc(ctx, i, s.now);
            n.do_tick(ctx);
            n.sdisc(ctx, a, s.now);
        }
    }
    let called = n.now;
    let mut blacked = false;
    let mut t0: Option<u64> = None;
    let mut first = true;
    // 22 s, plus what 12 late steps add to the 11 intervals, plus the network's own delay
    let slack = 12 * s.tick_ms * 1000 + (s.lat as u64 + if faults_possible { 31 } else { 1 }) * n.tick_us;
    let limit = 400_000_000u64;
    loop {
        if let Some((from, dir)) = s.black {
            if !blacked && (from == 0 || t0.is_some()) {
                n.black_dir = dir;
                blacked = true;
            }
        }
        n.do_tick(ctx);
        let d = [n.peers[i].disc_tx, n.spec(a).disc_tx];
        if first && s.now {
            // disconnect_now() takes effect at the next step, unless the other side was faster
            let ok = match s.who {
                0 | 3 => d[0].is_some() || n.peers[i].gr == Gr::Done,
                1 => d[1].is_some() || n.sp[&a].gr == Gr::Done,
                _ => (d[0].is_some() || n.peers[i].gr == Gr::Done) && (d[1].is_some() || n.sp[&a].gr == Gr::Done),
            };
            ensure!(ok, "disconnect_now() did not send a disconnect request at the next step");
        }
        first = false;
        if t0.is_none() {
            t0 = d.iter().flatten().map(|x| x.0).min();
        }
        let (cd, sd) = (n.peers[i].gr == Gr::Done, n.sp[&a].gr == Gr::Done);
        if cd && sd {
            break;
        }
        if let Some(t0) = t0 {
            ensure!(n.now - t0 <= 22_000_000 + slack, "{} ms after the first disconnect request: client ended: {}, server ended: {}", (n.now - t0) / 1000, cd, sd);
        } else {
            ensure!(n.now - called < limit, "no disconnect request {} s after disconnect()", limit / 1_000_000);
        }
    }
    // With faults which the retransmissions overcome, both ends see Disconnect
    if s.black.is_none() && n.faults <= 3 && faults_possible || !faults_possible && s.black.is_none() {
        let ce = n.peers[i].events.last().unwrap().1.clone();
        let se = n.sp[&a].events.last().unwrap().1.clone();
        ensure!(ce == Ev::Disconnect && se == Ev::Disconnect, "after {} faults: the client ended with {:?}, the server with {:?}", n.faults, ce, se);
    }
    // A graceful disconnect on an undisturbed network loses nothing at all but stale TimeSensitive packets
    if s.black.is_none() && !s.now && s.who < 2 && n.faults == 0 {
        let subs = if s.who == 0 { n.peers[i].subs.clone() } else { n.sp[&a].subs.clone() };
        for (k, x) in subs.iter().enumerate() {
            ensure!(x.mode == TimeSensitive || x.delivered == 1, "{:?} packet #{} submitted before disconnect() was delivered {} times on an undisturbed network", x.mode, k, x.delivered);
        }
    }
    drain(&mut n, ctx, 45_000);
}

pub fn c09(thorough: bool) -> Check {
    let mut c = check(if thorough { 840 } else { 150 },
        "Real server and client; disconnect()/disconnect_now() by client, server, both at once or one tick apart, with 0-40 packets of all modes (30-3000 B; also only empty Reliable ones) queued in either direction, at 0-3 ticks after submission, ticks 20-1000 ms, latency 1-6 ticks. Every combination of up to 2 (quick) / 3 (thorough) fates (drop, dup, delay 3/30 ticks, dup+late) on the first 24-40 frames after submission (all kinds, and disconnect frames only at bound 3/5), late: a side whose frames are all lost for 0-36 s asks to disconnect, its peer asks 0-21.5 s later; answers: no answer arrives for 0.5-16.5 s, and all earlier frames of a kind arrive once more; changed: disconnect_now() called 0-4 steps after disconnect(), with data queued and blackouts; full: 4 (6) packets of all modes when the peer's memory (3000-9000 B) or the packet window is full of unacknowledged ones, acknowledgements lost for 1 s or not; total or one-way blackouts from the call or from the first request; and the same around 2^24, 2^31 and 2^32 ms, 2^32 us and 250 days after the server was created. Monitors: Reliable before Disconnect, terminal events on both sides within 22 s plus the cadence, grammar, byte-exact order; then 45 s more.");
    let fates = vec![Fate::Deliver, Fate::Drop, Fate::DupDelay(4), Fate::Delay(3), Fate::Delay(30)];
    let mk = |who, now, pkts, size, reverse, at, tick_ms, lat| DiscCase {
        who, now, pkts, size, reverse, at, tick_ms, lat, fates: vec![], bound: 0, branch: 0, black: None, kinds: None, budget_rate: 2_000_000,
        clients_first: (who + pkts) % 2 == 1, flush_after: at == 1,
    };
    let add = |c: &mut Check, fam: &str, s: DiscCase| {
        let name = format!("{}/who{}/now{}/{}x{}/rev{}/at{}/{}ms/lat{}/black{:?}/rate{}", fam, s.who, s.now as u8, s.pkts, s.size, s.reverse, s.at, s.tick_ms, s.lat, s.black, s.budget_rate);
        c.add(Scenario::new(name, s.bound, move |ctx| run_disc(&s, ctx)));
    };
    // Undisturbed, many shapes
    for who in 0..4 {
        for now in [false, true] {
            for (pkts, size) in [(0, 50), (1, 50), (5, 50), (12, 1500), (40, 700), (6, 20_000), (1, 0), (7, 0)] {
                for reverse in [0, 4] {
                    for at in [0, 1, 3] {
                        for (tick, lat) in [(20, 1), (50, 4), (250, 1), (1000, 2)] {
                            add(&mut c, "calm", mk(who, now, pkts, size, reverse, at, tick, lat));
                        }
                    }
                }
            }
        }
    }
    for who in 0..2 {
        let mut s = mk(who, false, 30, 1400, 0, 0, 50, 1);
        s.budget_rate = 2000;
        add(&mut c, "slow", s);
    }
    // Blackouts
    for who in 0..4 {
        for now in [false, true] {
            for from in [0, 1] {
                for dir in [1, 2, 3] {
                    if from == 0 && !now && dir != 0 {
                        // the queue never drains; the active timeout ends it. Only with nothing queued is the request sent.
                    }
                    for (tick, at) in [(20, 0), (100, 0), (1000, 2), (700, 1), (50, 3)] {
                        for pkts in [0, 5] {
                            if from == 0 && !now && pkts > 0 {
                                continue;
                            }
                            let mut s = mk(who, now, pkts, 50, pkts, at, tick, 1);
                            s.black = Some((from, dir));
                            add(&mut c, "black", s);
                        }
                    }
                }
            }
        }
    }
    // One side hears nothing of the other until long after it asked to disconnect, and then asks as
    // well. From the moment its request arrives, while the other side still retries or remembers, its
    // repetitions are answered.
    for who in 0..2usize {
        for tick_ms in [50u64, 333, 1000] {
            c.add(Scenario::new(format!("late/who{}/{}ms", who, tick_ms), 0, move |ctx| {
                let now = ctx.choose_free(2) == 1;
                let after = ctx.choose_of(&[0u64, 2000, 9000, 17_000, 19_000, 20_100, 20_900, 21_500]);
                let lost = ctx.choose_free(9) as u64;
                let mut cfg = ec();
                cfg.active_timeout_ms = 60_000;
                let mut n = Net::new(scfg(4, 4, false, cfg.clone()), Mon { grammar: true, disc: true, order: true, ..Mon::default() });
                n.tick_us = tick_ms * 1000;
                n.lat = 1;
                let i = connect_quietly(&mut n, ctx, cfg);
                let a = n.peers[i].addr;
                n.run_ms(ctx, 3000);
                let call = |n: &mut Net, ctx: &mut Ctx, who: usize, now: bool| if who == 0 { n.cdisc(ctx, i, now) } else { n.sdisc(ctx, a, now) };
                n.black_dir = if who == 0 { 1 } else { 2 };
                call(&mut n, ctx, who, true);
                let t0 = n.now;
                while n.now < t0 + after * 1000 {
                    n.do_tick(ctx);
                }
                call(&mut n, ctx, 1 - who, now);
                let t1 = n.now;
                // The first request is still answered by a side which retries; the answers get lost for a while
                while n.now < t1 + lost * 2_000_000 + 500_000 {
                    n.do_tick(ctx);
                }
                n.black_dir = 0;
                n.run_ms(ctx, 23_000 + 13 * tick_ms);
                let ce = n.peers[i].events.last().map(|e| e.1.clone());
                let se = n.sp[&a].events.last().map(|e| e.1.clone());
                let in_time = after * 1000 + 3 * tick_ms * 1000 < 22_000_000;
                let (first, second) = if who == 0 { (&ce, &se) } else { (&se, &ce) };
                ensure!(!in_time || *first == Some(Ev::Disconnect), "asked to disconnect, and asked by its peer {} ms later, the {} ended with {:?}", after, ["client", "server"][who], first);
                ensure!(!in_time || *second == Some(Ev::Disconnect), "the {} ended with {:?}, although its peer was there until the end", ["server", "client"][who], second);
                n.run_ms(ctx, 45_000);
            }));
        }
    }
    // disconnect() waits for the queue; disconnect_now(), called at any time after it, does not
    for who in 0..2usize {
        for tick_ms in [20u64, 250, 1000] {
            c.add(Scenario::new(format!("changed/who{}/{}ms", who, tick_ms), 0, move |ctx| {
                let gap = ctx.choose_free(5);
                let black = ctx.choose_of(&[0u32, 1, 2, 3]);
                let pkts = ctx.choose_of(&[0usize, 3, 40]);
                let again = ctx.choose_free(2) == 1;
                let mode = ctx.choose_of(&[Reliable, Persistent, Unreliable]);
                let mut n = Net::new(scfg(4, 4, false, ec()), Mon { grammar: true, disc: true, order: true, ..Mon::default() });
                n.tick_us = tick_ms * 1000;
                n.lat = 1;
                let i = connect_quietly(&mut n, ctx, ec());
                let a = n.peers[i].addr;
                n.run_ms(ctx, 3000);
                for k in 0..pkts {
                    if who == 0 { n.csend(ctx, i, 1400 - k, 0, mode); } else { n.ssend(ctx, a, 1400 - k, 0, mode); }
                }
                n.black_dir = black;
                let call = |n: &mut Net, ctx: &mut Ctx, now: bool| if who == 0 { n.cdisc(ctx, i, now) } else { n.sdisc(ctx, a, now) };
                call(&mut n, ctx, false);
                for _ in 0..gap {
                    n.do_tick(ctx);
                }
                if again {
                    call(&mut n, ctx, false);
                }
                call(&mut n, ctx, true);
                let t0 = n.now;
                n.do_tick(ctx);
                let (sent, gr) = if who == 0 { (n.peers[i].disc_tx, n.peers[i].gr) } else { (n.spec(a).disc_tx, n.spec(a).gr) };
                ensure!(sent.is_some() || gr == Gr::Done, "disconnect_now(), {} steps after disconnect(), did not send a disconnect request at the next step", gap);
                while n.now <= t0 + 22_000_000 + 12 * tick_ms * 1000 {
                    n.do_tick(ctx);
                }
                let gr = if who == 0 { n.peers[i].gr } else { n.spec(a).gr };
                ensure!(gr == Gr::Done, "22 s after disconnect_now(), the {} has not ended", ["client", "server"][who]);
                n.run_ms(ctx, 45_000);
            }));
        }
    }
    // The peer's memory, or the packet window, is full of packets which need no retransmission while
    // Reliable ones wait behind them
    for who in 0..2usize {
        for (tick_ms, lat) in [(20u64, 1u32), (20, 5), (250, 1), (50, 12)] {
            c.add(Scenario::new(format!("full/who{}/{}ms/lat{}", who, tick_ms, lat), 0, move |ctx| {
                let window = ctx.choose_free(2) == 1;
                let mut e = ec();
                e.max_packet_size = 3000;
                e.max_receive_alloc = if window { 1_000_000 } else { ctx.choose_of(&[3000usize, 5000, 9000]) };
                let mut n = Net::new(scfg(4, 4, false, e.clone()), Mon { grammar: true, disc: true, order: true, ..Mon::default() });
                n.tick_us = tick_ms * 1000;
                n.lat = lat;
                let i = connect_quietly(&mut n, ctx, e);
                let a = n.peers[i].addr;
                let send = |n: &mut Net, ctx: &mut Ctx, size: usize, ch: u8, mode| if who == 0 { n.csend(ctx, i, size, ch, mode) } else { n.ssend(ctx, a, size, ch, mode); };
                for k in 0..40usize {
                    send(&mut n, ctx, 1400 + k, 0, Reliable);
                }
                n.run_ms(ctx, 5000);
                if window {
                    for k in 0..4100usize {
                        send(&mut n, ctx, 8 + k % 3, (k % 2) as u8, Unreliable);
                    }
                }
                let len = if window { 2 } else if thorough { 6 } else { 4 };
                for k in 0..len {
                    let mode = [Unreliable, Reliable, Persistent, TimeSensitive][ctx.choose_free(4)];
                    send(&mut n, ctx, [2900, 1400, 3000, 30, 1500, 2800][k], (k % 2) as u8, mode);
                }
                for _ in 0..ctx.choose_free(3) {
                    n.do_tick(ctx);
                }
                let lost = ctx.choose_of(&[0u64, 1000]);
                if lost > 0 {
                    n.black_dir = if who == 0 { 2 } else { 1 };
                }
                if who == 0 { n.cdisc(ctx, i, false) } else { n.sdisc(ctx, a, false) }
                n.run_ms(ctx, lost);
                n.black_dir = 0;
                n.run_ms(ctx, 30_000);
                let ce = n.peers[i].events.last().map(|e| e.1.clone());
                let se = n.sp[&a].events.last().map(|e| e.1.clone());
                ensure!(ce == Some(Ev::Disconnect) && se == Some(Ev::Disconnect), "the client ended with {:?}, the server with {:?}", ce, se);
                n.run_ms(ctx, 25_000);
            }));
        }
    }
    // The request arrives, but for a while none of the answers do, and meanwhile frames of any kind
    // sent earlier arrive once more. The peer is there all the time, so both ends see Disconnect.
    for who in 0..2usize {
        for tick_ms in [50u64, 333, 1000] {
            c.add(Scenario::new(format!("answers/who{}/{}ms", who, tick_ms), 0, move |ctx| {
                let now = ctx.choose_free(2) == 1;
                let lost = ctx.choose_free(9) as u64;
                let load = ctx.choose_free(2) == 1;
                let stale = ctx.choose_of(&[None, Some(Kind::Syn), Some(Kind::SynAck), Some(Kind::Ack), Some(Kind::Data), Some(Kind::DataAck), Some(Kind::Sync)]);
                let at = ctx.choose_of(&[0u64, 1, 3]);
                let mut n = Net::new(scfg(4, 4, false, ec()), Mon { grammar: true, disc: true, order: true, ..Mon::default() });
                n.tick_us = tick_ms * 1000;
                n.lat = 1;
                n.keep_log = true;
                let i = connect_quietly(&mut n, ctx, ec());
                let a = n.peers[i].addr;
                if load {
                    for k in 0..4 {
                        n.csend(ctx, i, 50, 0, MODES[k]);
                        n.ssend(ctx, a, 50, 0, MODES[k]);
                    }
                }
                // (everything is acknowledged by then)
                n.run_ms(ctx, 4000.max(30 * tick_ms));
                if who == 0 { n.cdisc(ctx, i, now) } else { n.sdisc(ctx, a, now) }
                let t0 = n.now;
                n.black_dir = if who == 0 { 2 } else { 1 };
                let mut replayed = false;
                while n.now < t0 + lost * 2_000_000 + 500_000 {
                    n.do_tick(ctx);
                    if !replayed && n.now >= t0 + at * 1_000_000 + 3 * tick_ms * 1000 {
                        replayed = true;
                        let old: Vec<_> = n.txlog.iter().filter(|t| Some(t.kind) == stale && t.at < t0).map(|t| (t.src, t.dst, t.data.clone())).collect();
                        for (s, d, b) in old {
                            n.inject(s, d, b, 1);
                        }
                    }
                }
                n.black_dir = 0;
                n.run_ms(ctx, 23_000 + 13 * tick_ms);
                for (name, e) in [("client", n.peers[i].events.last()), ("server", n.sp[&a].events.last())] {
                    let e = e.map(|e| e.1.clone());
                    ensure!(e == Some(Ev::Disconnect), "the {} ended with {:?}, although its peer was there until the end", name, e);
                }
                n.run_ms(ctx, 45_000);
            }));
        }
    }
    // Faults
    for who in 0..4 {
        for now in [false, true] {
            for (k, (pkts, size, reverse, at)) in [(0u32, 50usize, 0u32, 0u32), (5, 50, 0, 0), (5, 1600, 3, 0), (6, 50, 6, 2), (3, 0, 1, 0)].into_iter().enumerate() {
                let mut s = mk(who, now, pkts, size, reverse, at, if k % 2 == 0 { 50 } else { 250 }, 1);
                s.fates = fates.clone();
                s.bound = if thorough { 3 } else { 2 };
                s.branch = if thorough { 26 } else { 32 };
                add(&mut c, "fault", s);
            }
            for tick in [250, 1000] {
                let mut s = mk(who, now, 2, 50, 2, 1, tick, 2);
                s.fates = vec![Fate::Deliver, Fate::Drop, Fate::DupDelay(5), Fate::Delay(4)];
                s.bound = if thorough { 5 } else { 3 };
                s.branch = if thorough { 12 } else { 9 };
                s.kinds = Some(vec![Kind::Disc, Kind::DiscAck]);
                add(&mut c, "discframes", s);
            }
        }
    }
    uptime_end(&mut c, Mon { grammar: true, disc: true, order: true, ..Mon::default() }, thorough);
    c
}

// C10 --------------------------------------------------------------------------------------------

/// Steps of unequal length, cycling
fn cadence(kind: u32) -> Vec<u64> {
    match kind {
        0 => vec![20_000],
        1 => vec![333_000],
        2 => vec![1_000_000],
        3 => vec![1_000, 700_500, 33_333],
        4 => vec![2_500_000, 10_000, 10_000],
        _ => vec![97_000, 5_003_000],
    }
}

fn tick_with(n: &mut Net, ctx: &mut Ctx, cad: &[u64], k: &mut usize) {
    n.tick_us = cad[*k % cad.len()];
    *k += 1;
    n.do_tick(ctx);
}

pub fn c10(thorough: bool) -> Check {
    let mut c = check(if thorough { 600 } else { 150 },
        "Real server and client. silence: all pairs of active timeouts (1 ms..60 s, u64::MAX), keepalive off/1 s/5 s, six step cadences (1 ms..5 s, irregular), idle or busy, one- or two-way silence beginning at any tick of a window, up to 2 further placements of single frames let through; exact timeout monitor on both sides. keepalive: idle 200-600 s on a loss-free network with latencies 1-600 ms. handshake: server absent, any 0..11 SYNs and any 0..11 SYN-ACKs lost, ACK lost, all cadences; disconnect: peer vanishes; pause: the application does not step for a while during either; crowd: of three clients, one falls silent, another ends in 7 ways within 2 (4) ticks of that timeout, the third goes on; 40 and 140 (up to 300) clients ending together in 8 ways; uptime: all of this, and idle connections taken up again, around 2^24, 2^31 and 2^32 ms, 2^32 us and 250 days after the endpoints were created. Retry counts and Error(Timeout) instants are checked against 10 resends 2 s apart.");
    let mon = Mon { grammar: true, timeout: true, order: true, ..Mon::default() };
    let timeouts: &[u64] = &[1, 500, 3000, 20_000, 60_000, u64::MAX];
    // Silence after the connection is up
    for &ct in timeouts {
        for &st in timeouts {
            for cad in 0..6u32 {
                for ka in [None, Some(1000u64), Some(5000)] {
                    if !thorough && (cad as usize + ct as usize % 7 + st as usize % 5 + ka.map_or(0, |v| v as usize % 3)) % 3 != 0 {
                        continue;
                    }
                    c.add(Scenario::new(format!("silence/c{}/s{}/cad{}/ka{:?}", ct, st, cad, ka), 1, move |ctx| {
                        let mut cc = ec();
                        cc.active_timeout_ms = ct;
                        cc.keepalive = ka.is_some();
                        cc.keepalive_interval_ms = ka.unwrap_or(5000);
                        let mut sc = cc.clone();
                        sc.active_timeout_ms = st;
                        let mut n = Net::new(scfg(4, 4, true, sc), mon);
                        let cadv = cadence(cad);
                        let mut k = 0;
                        n.connect(ctx, cc);
                        let busy = ctx.choose_free(2) == 1;
                        let dir = 1 + ctx.choose_free(3) as u32;
                        let at = ctx.choose_free(8);
                        for _ in 0..4 + at {
                            tick_with(&mut n, ctx, &cadv, &mut k);
                            if busy {
                                n.csend(ctx, 0, 100, 0, Unreliable);
                                let a = n.peers[0].addr;
                                n.ssend(ctx, a, 100, 0, Reliable);
                            }
                        }
                        n.black_dir = dir;
                        let to = ct.max(st).min(70_000) * 1000;
                        let end = n.now + to + 8_000_000;
                        let mut spare = 6;
                        while n.now < end {
                            // a single tick during which frames do get through
                            let open = spare > 0 && { spare -= 1; ctx.choose(2) == 1 };
                            n.black_dir = if open { 0 } else { dir };
                            let reps = if open { 1 } else { 1 + (n.now / 1000 % 3) as usize };
                            for _ in 0..reps {
                                tick_with(&mut n, ctx, &cadv, &mut k);
                                if busy {
                                    n.csend(ctx, 0, 60, 0, Unreliable);
                                }
                            }
                        }
                    }));
                }
            }
        }
    }
    // Single frame arrival relative to the deadline, fine grained
    for side in 0..2u32 {
        for to in [1000u64, 3000] {
            for cad in [7_000u64, 50_000, 1_000_000] {
                c.add(Scenario::new(format!("edge/side{}/to{}/cad{}", side, to, cad), 0, move |ctx| {
                    let mut e = ec();
                    e.keepalive = false;
                    e.active_timeout_ms = to;
                    let mut n = Net::new(scfg(4, 4, true, e.clone()), mon);
                    n.tick_us = 10_000;
                    connect_quietly(&mut n, ctx, e);
                    let a = n.peers[0].addr;
                    // quiet
                    n.black_dir = 3;
                    n.tick_us = cad;
                    let delay = ctx.choose_free(24) as u64;
                    let back = 12u64.saturating_sub(delay);
                    let pos = (to * 1000).saturating_sub(back * cad / 4) + delay.saturating_sub(12) * cad / 4;
                    let kind = ctx.choose_free(3);
                    let arrive = n.now + pos;
                    let f = match kind {
                        0 => Frame::SyncFrame(SyncFrame { next_frame_id: None, next_packet_id: None }),
                        1 => Frame::AckFrame(AckFrame { frame_window_base_id: 0, packet_window_base_id: 0, frame_acks: vec![] }),
                        _ => Frame::DataFrame(DataFrame { sequence_id: 1, nonce: false, datagrams: vec![] }),
                    };
                    let (s, d) = if side == 0 { (saddr(), a) } else { (a, saddr()) };
                    n.inject_at(s, d, f.write().into_vec(), arrive);
                    n.run_ms(ctx, 3 * to + 10_000);
                }));
            }
        }
    }
    // Keepalive
    for iv in [100u64, 1000, 5000, 10_000] {
        for lat_ms in [1u64, 20, 150, 600] {
            for cad in 0..5u32 {
                for busy in [false, true] {
                    for ka_side in 0..3u32 {
                    if !thorough && (ka_side + cad) % 3 != 0 {
                        continue;
                    }
                    c.add(Scenario::new(format!("keepalive/iv{}/lat{}/cad{}/busy{}/side{}", iv, lat_ms, cad, busy as u8, ka_side), 0, move |ctx| {
                        let cadv = cadence(cad);
                        let maxstep = *cadv.iter().max().unwrap() / 1000;
                        // The keepalive interval is bounded below by the retransmission timeout of 4 RTT and by 2 s
                        let rtt = 2 * (lat_ms + 2 * maxstep);
                        let to = iv.max(2000).max(8 * rtt) + rtt + 3 * maxstep + 1000;
                        let mut e = ec();
                        e.keepalive_interval_ms = iv;
                        e.active_timeout_ms = to;
                        let (mut sc, mut cc) = (e.clone(), e);
                        // Keepalive frames are answered, so one side sending them suffices
                        if ka_side == 1 { sc.keepalive = false; }
                        if ka_side == 2 { cc.keepalive = false; }
                        let mut n = Net::new(scfg(4, 4, true, sc), mon);
                        n.lat_us = Some(lat_ms * 1000);
                        let mut k = 0;
                        n.connect(ctx, cc);
                        let mut sent = 0;
                        while n.ms() < 30_000 + 5 * to {
                            tick_with(&mut n, ctx, &cadv, &mut k);
                            if busy && n.ms() > 4000 && sent < 20 {
                                sent += 1;
                                n.csend(ctx, 0, 500, 0, Reliable);
                                let a = n.peers[0].addr;
                                n.ssend(ctx, a, 500, 0, Unreliable);
                            }
                        }
                        ensure_up(&mut n, 0);
                    }));
                    }
                }
            }
        }
    }
    crowd_three(&mut c, mon, thorough);
    crowd_many(&mut c, mon, thorough);
    uptime_server(&mut c, mon, thorough);
    uptime_end(&mut c, mon, thorough);
    uptime_idle(&mut c, mon, thorough);
    // Handshake: SYNs and SYN-ACKs lost
    for cad in 0..4u32 {
        for errors in [false, true] {
            c.add(Scenario::new(format!("handshake/cad{}/err{}", cad, errors as u8), 0, move |ctx| {
                let syns = ctx.choose_free(12) as u32;
                let acks = ctx.choose_free(12) as u32;
                let lose_ack = ctx.choose_free(12) as u32;
                handshake_loss(ctx, mon, &cadence(cad), errors, syns, acks, lose_ack, 0);
            }));
        }
    }
    // Disconnect timeout
    for who in 0..2u32 {
        for cad in 0..4u32 {
            for now in [false, true] {
                c.add(Scenario::new(format!("disconnect/who{}/cad{}/now{}", who, cad, now as u8), 0, move |ctx| {
                    let cadv = cadence(cad);
                    let maxstep = *cadv.iter().max().unwrap();
                    let mut k = 0;
                    let mut n = Net::new(scfg(4, 4, true, ec()), mon);
                    n.connect(ctx, ec());
                    for _ in 0..6 {
                        tick_with(&mut n, ctx, &cadv, &mut k);
                    }
                    ensure_up(&mut n, 0);
                    let a = n.peers[0].addr;
                    let wait = ctx.choose_free(5);
                    for _ in 0..wait {
                        tick_with(&mut n, ctx, &cadv, &mut k);
                    }
                    n.black_dir = 3;
                    if who == 0 {
                        n.cdisc(ctx, 0, now);
                    } else {
                        n.sdisc(ctx, a, now);
                    }
                    let t0 = n.now;
                    loop {
                        tick_with(&mut n, ctx, &cadv, &mut k);
                        let (d, gr, ev) = if who == 0 {
                            (n.peers[0].disc_tx, n.peers[0].gr, n.peers[0].events.last().cloned())
                        } else {
                            let s = n.spec(a);
                            (s.disc_tx, s.gr, s.events.last().cloned())
                        };
                        if gr == Gr::Done {
                            let (at, e) = ev.unwrap();
                            let Some((td, cnt)) = d else { fail("ended without a disconnect request") };
                            ensure!(e == Ev::Timeout, "ended with {:?} though the peer is unreachable", e);
                            ensure!(cnt == 11, "{} disconnect requests were sent, not 1 + 10", cnt);
                            ensure!(at - td + 1000 >= 22_000_000, "gave up {} ms after the first request", (at - td) / 1000);
                            ensure!(at - td <= 22_000_000 + 12 * maxstep, "gave up only {} ms after the first request", (at - td) / 1000);
                            break;
                        }
                        ensure!(n.now - t0 < 60_000_000, "no terminal event 60 s after disconnect on a dead network");
                    }
                }));
            }
        }
    }
    // The application stops calling step() for a while: attempts stay 2 s apart, and the last one is waited for
    for kind in 0..4usize {
        c.add(Scenario::new(format!("pause/{}", ["syn", "synack", "client-disconnect", "server-disconnect"][kind]), 0, move |ctx| {
            let tick = ctx.choose_of(&[50_000u64, 700_000, 1_900_000]);
            let at = ctx.choose_of(&[0u64, 1_000_000, 2_000_000, 4_500_000, 12_000_000, 19_500_000]);
            let gap = ctx.choose_of(&[2_500_000u64, 4_100_000, 9_000_000, 19_000_000, 45_000_000]);
            let twice = ctx.choose_free(2) == 1;
            let mut e = ec();
            e.active_timeout_ms = 1_000_000;
            let mut n = Net::new(scfg(4, 4, true, e.clone()), mon);
            n.tick_us = 50_000;
            n.keep_log = true;
            let mut a = addr(40_000);
            if kind >= 2 {
                let i = connect_quietly(&mut n, ctx, e);
                a = n.peers[i].addr;
                n.run_ms(ctx, 3000);
                n.black_dir = 3;
                if kind == 2 { n.cdisc(ctx, i, true) } else { n.sdisc(ctx, a, true) }
            } else if kind == 0 {
                n.black_dir = 3;
                n.connect(ctx, e);
                a = n.peers[0].addr;
            } else {
                n.inject_frame(a, saddr(), raw_syn(77));
            }
            let begin = n.now;
            n.tick_us = tick;
            let mut pauses = if twice { vec![at, at + gap + 2_300_000] } else { vec![at] };
            while n.now < begin + 150_000_000 {
                if pauses.first().map_or(false, |p| n.now >= begin + p) {
                    pauses.remove(0);
                    n.tick_us = gap;
                }
                n.do_tick(ctx);
                n.tick_us = tick;
            }
            let (what, src) = [(Kind::Syn, a), (Kind::SynAck, saddr()), (Kind::Disc, a), (Kind::Disc, saddr())][kind];
            let tx: Vec<u64> = n.txlog.iter().filter(|t| t.src == src && t.kind == what && t.at >= begin).map(|t| t.at).collect();
            ensure!(tx.len() == 11, "{} attempts were made, not 1 + 10", tx.len());
            for w in tx.windows(2) {
                ensure!(w[1] - w[0] + 1000 >= 2_000_000, "two attempts were made within {} ms", (w[1] - w[0]) / 1000);
            }
            let last = if kind == 0 || kind == 2 { n.peers[0].events.last().cloned() } else { n.spec(a).events.last().cloned() };
            let Some((end, Ev::Timeout)) = last else { fail(format!("ended with {:?} though nobody answered", last)) };
            ensure!(end + 1000 >= tx[10] + 2_000_000, "gave up {} ms after the last attempt", (end - tx[10]) / 1000);
            ensure!(end <= tx[10] + 2_000_000 + tick.max(gap), "gave up only {} ms after the last attempt", (end - tx[10]) / 1000);
        }));
    }
    c
}

/// The first `syns` SYNs, then the first `acks` SYN-ACKs and the first `lose_ack` ACKs are lost
fn handshake_loss(ctx: &mut Ctx, mon: Mon, cad: &[u64], errors: bool, syns: u32, acks: u32, lose_ack: u32, up_us: u64) {
    let maxstep = *cad.iter().max().unwrap();
    let mut e = ec();
    e.active_timeout_ms = 50_000;
    let mut n = Net::new(scfg(4, 4, errors, e.clone()), mon);
    n.lose = [syns, acks, lose_ack];
    n.now += up_us;
    n.set_time();
    let start = n.now;
    n.connect(ctx, e);
    let a = n.peers[0].addr;
    let mut k = 0;
    let mut c_end = None;
    let mut s_end = None;
    let mut s_seen = None;
    while n.now < start + 75_000_000 {
        tick_with(&mut n, ctx, cad, &mut k);
        if c_end.is_none() && n.peers[0].gr == Gr::Done {
            c_end = n.peers[0].events.last().cloned();
        }
        let s = n.spec(a);
        if s_seen.is_none() {
            s_seen = s.synack_tx;
        }
        if s_end.is_none() {
            s_end = s.events.iter().find(|x| x.1 == Ev::Timeout).cloned();
        }
        if n.peers[0].gr == Gr::Up && n.sp[&a].gr == Gr::Up {
            break;
        }
    }
    let up = n.peers[0].gr == Gr::Up;
    // 11 SYNs are sent in all
    if syns >= 11 {
        let (t0, cnt) = n.peers[0].syn_tx.unwrap();
        let Some((at, ev)) = c_end else { fail("the client has not given up after 75 s without any answer") };
        ensure!(ev == Ev::Timeout, "the client ended with {:?} though no server answered", ev);
        ensure!(cnt == 11, "the client sent {} connection requests, not 1 + 10", cnt);
        ensure!(at - t0 + 1000 >= 22_000_000, "the client gave up after {} ms", (at - t0) / 1000);
        ensure!(at - t0 <= 22_000_000 + 12 * maxstep, "the client gave up only after {} ms", (at - t0) / 1000);
        ensure!(s_seen.is_none(), "the server answered a request it never received");
        return;
    }
    // The server keeps resending for 20 s from the first SYN, the client for 20 s from its own; allow for the drift of late steps
    if acks >= 11 {
        ensure!(!up, "the client is connected without any SYN-ACK having been delivered");
        let Some((at, ev)) = c_end else { fail("the client has not given up though no SYN-ACK got through") };
        ensure!(ev == Ev::Timeout, "the client ended with {:?} though no server answered", ev);
        ensure!(at - start + 1000 >= 22_000_000 && at - start <= 22_000_000 + 12 * maxstep, "the client gave up after {} ms", (at - start) / 1000);
    } else if c_end.is_none() {
        ensure!(up, "the client is not connected though a SYN-ACK was delivered");
    }
    // Pending entries time out at the server
    let s = n.spec(a).clone();
    let (st, _) = s_seen.unwrap();
    if s.gr == Gr::New {
        ensure!(lose_ack > 0 || acks >= 1, "the server is not connected though nothing of its handshake was lost");
        let (_, cnt) = s.synack_tx.unwrap();
        if s.generation == 0 && cnt >= 11 && n.now > st + 22_000_000 + 12 * maxstep {
            ensure!(n.tracked().0 == 0 || s.synack_tx.unwrap().0 != st, "the server still tracks a handshake {} ms old", (n.now - st) / 1000);
            if errors {
                let Some((at, _)) = s_end else { fail("handshake errors are enabled, but the server did not report the timeout of a handshake") };
                ensure!(at - st + 1000 >= 22_000_000 && at - st <= 22_000_000 + 12 * maxstep, "the server gave up after {} ms", (at - st) / 1000);
                ensure!(cnt == 11, "the server sent {} SYN-ACKs, not 1 + 10", cnt);
            } else {
                ensure!(s_end.is_none(), "handshake errors are disabled, but one was reported");
            }
        }
    }
    // SYN-ACK n goes out 2 s x (lost SYNs + n) after the first SYN, the client waits 22 s. The server sends 11 SYN-ACKs, and each one lost or answered by a lost ACK costs one.
    let total_ok = syns + acks <= 10 && acks + lose_ack <= 10;
    if total_ok {
        ensure!(up, "the handshake failed with {} SYNs, {} SYN-ACKs and {} ACKs lost", syns, acks, lose_ack);
        ensure_up(&mut n, 0);
        n.tick_us = 50_000;
        if let Err(m) = n.echo(ctx, 0, 20_000) {
            fail(m);
        }
    }
}

/// Clocks which have been running for long: 2^24 ms is 4.7 hours, 2^31 ms 25 days, 2^32 ms 50 days
const SPANS: [(&str, u64); 5] = [("24bit", 1 << 24), ("us32", (1 << 32) / 1000), ("31bit", 1 << 31), ("32bit", 1 << 32), ("250days", 250 * 86_400_000)];
const BEFORE: [u64; 10] = [0, 20, 100, 1000, 2500, 7000, 15_000, 21_500, 30_000, 45_000];

/// A server which has been running for long (or a while less)
fn uptime_server(c: &mut Check, mon: Mon, thorough: bool) {
    for (name, span) in SPANS {
        c.add(Scenario::new(format!("uptime/handshake/{}", name), 0, move |ctx| {
            let up = span - ctx.choose_of(&BEFORE);
            let syns = ctx.choose_of(&[0u32, 1, 4, 11]);
            let acks = ctx.choose_of(&[0u32, 1, 5, 11]);
            let lose_ack = ctx.choose_of(&[0u32, 1, 6, 11]);
            let errors = ctx.choose_free(2) == 1;
            let cads: &[u32] = if thorough { &[0, 1, 2, 3] } else { &[1, 2] };
            let cad = ctx.choose_of(cads);
            handshake_loss(ctx, mon, &cadence(cad), errors, syns, acks, lose_ack, up * 1000);
        }));
    }
}

/// Connections which end at a server which has been running for long
fn uptime_end(c: &mut Check, mon: Mon, thorough: bool) {
    for (name, span) in SPANS {
        c.add(Scenario::new(format!("uptime/end/{}", name), 0, move |ctx| {
            let up = span - ctx.choose_of(&BEFORE);
            let how = ctx.choose_free(5);
            let lost = ctx.choose_free(2) == 1;
            let cads: &[u64] = if thorough { &[10_000, 50_000, 300_000, 2_000_000] } else { &[50_000, 300_000] };
            let mut e = ec();
            e.active_timeout_ms = ctx.choose_of(&[3000u64, 20_000]);
            e.keepalive = ctx.choose_free(2) == 1;
            let mut n = Net::new(scfg(4, 4, true, e.clone()), mon);
            n.tick_us = 50_000;
            n.step_server(ctx);
            n.now += up * 1000;
            n.set_time();
            connect_quietly(&mut n, ctx, e);
            n.tick_us = ctx.choose_of(cads);
            let tick_ms = n.tick_us / 1000;
            let a = n.peers[0].addr;
            n.csend(ctx, 0, 100, 0, Reliable);
            n.ssend(ctx, a, 3000, 0, Reliable);
            n.run_ms(ctx, 1000 + 8 * tick_ms);
            match how {
                0 => n.black_dir = 3,
                1 => n.cdisc(ctx, 0, true),
                2 => n.sdisc(ctx, a, true),
                3 => n.cdisc(ctx, 0, false),
                _ => n.sdisc(ctx, a, false),
            }
            if lost && how > 0 {
                n.run_ms(ctx, 3 * tick_ms);
                n.black_dir = 3;
            }
            n.run_ms(ctx, 66_000 + 30 * tick_ms);
            ensure!(n.peers[0].gr == Gr::Done, "the client has not seen the end of the connection after 66 s (events {:?})", n.peers[0].events);
            ensure!(n.sp[&a].gr == Gr::Done, "the server has not reported the end of the connection after 66 s (events {:?})", n.sp[&a].events);
            ensure!(n.tracked().0 == 0, "the server still tracks {} connections 66 s later", n.tracked().0);
            n.black_dir = 0;
            n.tick_us = 50_000;
            let i = connect_quietly(&mut n, ctx, ec());
            if let Err(m) = n.echo(ctx, i, 20_000) {
                fail(m);
            }
        }));
    }
}

/// A connection which has been up for long
pub fn uptime_idle(c: &mut Check, mon: Mon, thorough: bool) {
    for (name, span) in SPANS {
        c.add(Scenario::new(format!("uptime/idle/{}", name), 0, move |ctx| {
            let before = ctx.choose_of(&BEFORE);
            let steps = ctx.choose_of(&[1u64, 7, if thorough { 2000 } else { 200 }]);
            let what = ctx.choose_free(4);
            let mut e = ec();
            e.keepalive = ctx.choose_free(2) == 1;
            // Of the connection, not of its last frame, since nothing is being sent
            let slack = ctx.choose_of(&[60_000u64, 1_000_000]);
            e.active_timeout_ms = if what == 3 && !e.keepalive { span + slack } else { u64::MAX };
            let mut n = Net::new(scfg(4, 4, true, e.clone()), mon);
            n.tick_us = 50_000;
            connect_quietly(&mut n, ctx, e.clone());
            let a = n.peers[0].addr;
            let t0 = n.now;
            if what < 3 {
                talk(&mut n, ctx, 0, 2);
                n.run_ms(ctx, 4000);
            }
            let goal = t0 + (span - before) * 1000;
            n.tick_us = (goal - n.now) / steps;
            for _ in 0..steps {
                n.do_tick(ctx);
            }
            n.tick_us = 50_000;
            match what {
                0 => talk_within(&mut n, ctx, 0, 3, 400_000),
                1 => {
                    // Some of it is lost on the way
                    n.csend(ctx, 0, 5000, 1, Reliable);
                    n.ssend(ctx, a, 5000, 1, Reliable);
                    n.run_ms(ctx, before / 2);
                    n.black_dir = 3;
                    n.csend(ctx, 0, 700, 1, Reliable);
                    n.ssend(ctx, a, 700, 1, Persistent);
                    n.run_ms(ctx, 3000);
                    n.black_dir = 0;
                    n.run_ms(ctx, 3000);
                    talk_within(&mut n, ctx, 0, 3, 400_000);
                }
                2 => {
                    for _ in 0..(before / 500).max(4) {
                        n.csend(ctx, 0, 1500, 1, Unreliable);
                        n.ssend(ctx, a, 20, 1, Persistent);
                        n.run_ms(ctx, 500);
                    }
                    talk_within(&mut n, ctx, 0, 3, 400_000);
                }
                _ => {
                    n.black_dir = 3;
                    if e.active_timeout_ms != u64::MAX {
                        n.tick_us = slack * 10;
                        n.run_ms(ctx, before + slack * 2);
                        ensure!(n.peers[0].gr == Gr::Done && n.sp[&a].gr == Gr::Done, "not timed out {} ms after the timeout of {} ms", slack, e.active_timeout_ms);
                        return;
                    }
                    n.run_ms(ctx, 5000);
                    n.black_dir = 0;
                    n.run_ms(ctx, 5000);
                    talk_within(&mut n, ctx, 0, 3, 400_000);
                }
            }
            ensure_up(&mut n, 0);
        }));
    }
}

/// Several connections of one server whose ends coincide, while the others go on
fn crowd_three(c: &mut Check, mon: Mon, thorough: bool) {
    for tick_ms in [20u64, 300, 1000] {
        for ka in [false, true] {
            c.add(Scenario::new(format!("crowd/three/{}ms/ka{}", tick_ms, ka as u8), 0, move |ctx| {
                let silent = ctx.choose_free(3);
                let ends = (silent + 1 + ctx.choose_free(2)) % 3;
                let other = 3 - silent - ends;
                let how = ctx.choose_free(7);
                let d = ctx.choose_free(if thorough { 9 } else { 5 }) as i64 - if thorough { 4 } else { 2 };
                let clients_first = ctx.choose_free(2) == 1;
                let mut e = ec();
                e.active_timeout_ms = 10_000;
                e.keepalive = ka;
                e.keepalive_interval_ms = 1000;
                let mut n = Net::new(scfg(6, 6, true, e.clone()), mon);
                n.clients_first = clients_first;
                n.tick_us = 20_000;
                for _ in 0..3 {
                    n.connect(ctx, e.clone());
                    n.do_tick(ctx);
                }
                n.run_ms(ctx, 400);
                n.tick_us = tick_ms * 1000;
                for i in 0..3 {
                    ensure_up(&mut n, i);
                    let a = n.peers[i].addr;
                    n.csend(ctx, i, 100, 0, Reliable);
                    n.ssend(ctx, a, 100, 0, Reliable);
                }
                n.run_ms(ctx, 1500 + 6 * tick_ms);
                let a = n.peers[silent].addr;
                let b = n.peers[ends].addr;
                let o = n.peers[other].addr;
                n.policy = Some(Box::new(move |p, _, _, _| if p.src == a || p.dst == a { Some(Fate::Drop) } else { None }));
                let mut done = false;
                let end = n.now + 30_000_000;
                while n.now < end {
                    let due = n.sp[&a].last_rx + 10_000_000;
                    if !done && n.now as i64 >= due as i64 + d * n.tick_us as i64 {
                        done = true;
                        match how {
                            0 => n.cdisc(ctx, ends, true),
                            1 => n.cdisc(ctx, ends, false),
                            2 => n.sdisc(ctx, b, true),
                            3 => n.sdisc(ctx, b, false),
                            4 => n.sdrop(ctx, b),
                            5 => {
                                n.kill(ctx, ends);
                                n.sdrop(ctx, b);
                            }
                            _ => n.inject_frame(b, saddr(), Frame::DisconnectFrame(DisconnectFrame {})),
                        }
                    }
                    // Both sides hear from each other all the time
                    n.csend(ctx, other, 30, 1, Unreliable);
                    n.ssend(ctx, o, 30, 1, Unreliable);
                    if !done {
                        n.csend(ctx, ends, 30, 1, Unreliable);
                        n.ssend(ctx, b, 30, 1, Unreliable);
                    }
                    n.do_tick(ctx);
                }
                ensure!(n.sp[&a].gr == Gr::Done && n.peers[silent].gr == Gr::Done, "the silent connection has not ended");
                ensure!(n.sp[&b].gr == Gr::Done, "the other connection has not ended (events {:?})", n.sp[&b].events);
                ensure_up(&mut n, other);
                if let Err(m) = n.echo(ctx, other, 20_000) {
                    fail(m);
                }
            }));
        }
    }
}

/// Many connections of one server
pub fn crowd_many(c: &mut Check, mon: Mon, thorough: bool) {
    let sizes: &[usize] = if thorough { &[20, 40, 70, 140, 300] } else { &[40, 140] };
    for &size in sizes {
        c.add(Scenario::new(format!("crowd/many/{}", size), 0, move |ctx| {
            let what = ctx.choose_free(8);
            let tick_ms = ctx.choose_of(&[50u64, 700]);
            let stagger = ctx.choose_free(2) == 1;
            let stride = ctx.choose_of(&[1usize, 3]);
            let mut e = ec();
            e.active_timeout_ms = 8000;
            let mut n = Net::new(scfg(size, size, true, e.clone()), mon);
            n.tick_us = tick_ms * 1000;
            if what == 7 {
                n.lose = [0, 0, 1000];
            }
            for i in 0..size {
                n.connect(ctx, e.clone());
                if stagger && i % 8 == 7 {
                    n.do_tick(ctx);
                }
            }
            n.run_ms(ctx, 8 * tick_ms);
            if what == 7 {
                // None of them completes the handshake
                for i in 0..size {
                    n.kill(ctx, i);
                }
                n.run_ms(ctx, 26_000 + 12 * tick_ms);
            } else {
                for i in 0..size {
                    ensure_up(&mut n, i);
                    let a = n.peers[i].addr;
                    n.csend(ctx, i, 40, 0, Reliable);
                    n.ssend(ctx, a, 40, 0, Reliable);
                }
                n.run_ms(ctx, 1000 + 8 * tick_ms);
                for i in 0..size {
                    let a = n.peers[i].addr;
                    ensure!(n.peers[i].subs[0].delivered == 1 && n.sp[&a].subs[0].delivered == 1, "not delivered between {} and the server on an undisturbed network", a.port());
                }
                for i in (0..size).step_by(stride) {
                    let a = n.peers[i].addr;
                    match what {
                        0 | 6 => n.kill(ctx, i),
                        1 => n.cdisc(ctx, i, true),
                        2 => n.sdisc(ctx, a, true),
                        3 => n.sdisc(ctx, a, false),
                        4 => {
                            n.sdisc(ctx, a, true);
                            n.kill(ctx, i);
                        }
                        _ => {
                            n.sdrop(ctx, a);
                            n.kill(ctx, i);
                        }
                    }
                    if what == 6 && stride == 1 {
                        n.sdisc(ctx, a, i % 2 == 0);
                    }
                }
                let end = n.now + 48_000_000 + 12_000 * tick_ms;
                let mut k = 0;
                while n.now < end {
                    for i in 0..size {
                        if i % stride != 0 && k % 4 == i % 4 {
                            let a = n.peers[i].addr;
                            n.csend(ctx, i, 20, 0, Unreliable);
                            n.ssend(ctx, a, 20, 0, Unreliable);
                        }
                    }
                    k += 1;
                    n.tick_us = 1_000_000.max(tick_ms * 1000);
                    n.do_tick(ctx);
                    ctx.heartbeat();
                }
                n.tick_us = tick_ms * 1000;
                for i in 0..size {
                    let a = n.peers[i].addr;
                    if i % stride == 0 {
                        ensure!(n.sp[&a].gr == Gr::Done, "the server's connection with {} has not ended (events {:?})", a.port(), n.sp[&a].events);
                    } else {
                        ensure_up(&mut n, i);
                    }
                }
            }
            let left = if what == 7 { 0 } else { (0..size).filter(|i| i % stride != 0).count() };
            ensure!(n.tracked().0 == left, "the server tracks {} connections, {} of which are left", n.tracked().0, left);
            // There is room again
            let first = n.peers.len();
            n.lose = [0; 3];
            n.tick_us = 50_000;
            for _ in left..size {
                n.connect(ctx, e.clone());
            }
            n.run_ms(ctx, 1000);
            for i in first..n.peers.len() {
                ensure_up(&mut n, i);
            }
        }));
    }
}

// C07 --------------------------------------------------------------------------------------------

/// The initial nonces of the first client and its server entry
fn push_nonces(i: usize) {
    let v: [(u64, u64); 5] = [(0x1234_5678, 0x9ABC_DEF0), (0, 0), (0xFFFF_FFFF, 0xFFFF_FFFE), (0x000F_FFFF, 0xFFFF_FFFF), (0xFFF0_0000, 0x7FFF_FFFF)];
    let (a, b) = v[i % v.len()];
    uflow::verif::rand::push(a);
    uflow::verif::rand::push(b);
}

/// Some traffic in both directions; everything must arrive
fn talk(n: &mut Net, ctx: &mut Ctx, i: usize, k: usize) {
    talk_within(n, ctx, i, k, 40_000)
}

fn talk_within(n: &mut Net, ctx: &mut Ctx, i: usize, k: usize, ms: u64) {
    let a = n.peers[i].addr;
    let (c0, s0) = (n.peers[i].subs.len(), n.spec(a).subs.len());
    for j in 0..k {
        n.csend(ctx, i, 20 + j, (j % 5) as u8, Reliable);
        n.ssend(ctx, a, 1200 + 150 * (j % 3), (j % 5) as u8, Reliable);
    }
    let end = n.now + ms * 1000;
    while n.now < end {
        n.do_tick(ctx);
        if n.peers[i].subs[c0..].iter().chain(n.sp[&a].subs[s0..].iter()).all(|x| x.delivered == 1) {
            return;
        }
    }
    fail(format!("connected, but packets are not delivered (client to server {:?}, server to client {:?})",
        n.peers[i].subs[c0..].iter().map(|x| x.delivered).collect::<Vec<_>>(), n.sp[&a].subs[s0..].iter().map(|x| x.delivered).collect::<Vec<_>>()));
}

/// Frames an attacker (or the past) may inject. `a` is the client's address.
fn forgeries(a: std::net::SocketAddr, cn: u32, sn: u32, established: bool) -> Vec<(std::net::SocketAddr, std::net::SocketAddr, Frame)> {
    let s = saddr();
    let x = addr(40_000);
    use HandshakeErrorType::*;
    let mut v = vec![
        (a, s, raw_ack(sn.wrapping_add(1))),
        (a, s, raw_ack(cn)),
        (a, s, raw_ack(sn ^ 0x8000_0000)),
        (a, s, raw_ack(0)),
        (a, s, raw_ack(sn & 0xFFFFF)),
        (a, s, raw_synack(sn, cn)),
        (a, s, raw_err(sn, Config)),
        (x, s, raw_ack(sn)),
        (x, s, raw_ack(0)),
        (x, s, raw_syn(cn)),
        (x, s, Frame::DisconnectFrame(DisconnectFrame {})),
        (x, s, Frame::SyncFrame(SyncFrame { next_frame_id: None, next_packet_id: None })),
        (s, a, raw_synack(cn.wrapping_add(1), 77)),
        (s, a, raw_synack(sn, cn)),
        (s, a, raw_synack(cn ^ 0x100000, sn)),
        (s, a, raw_err(cn.wrapping_add(1), Version)),
        (s, a, raw_err(sn, ServerFull)),
        (s, a, raw_syn(cn)),
        (s, a, raw_ack(cn)),
    ];
    // Boundary nonces may coincide, and then some of these are genuine
    v.retain(|(src, dst, f)| match f {
        Frame::HandshakeAckFrame(f) => !(*src == a && *dst == s && f.nonce_ack == sn),
        Frame::HandshakeSynAckFrame(f) => !(*dst == a && f.nonce_ack == cn),
        Frame::HandshakeErrorFrame(f) => !(*dst == a && f.nonce_ack == cn),
        _ => true,
    });
    if established {
        v.extend([
            (a, s, raw_syn(cn)),
            (a, s, raw_syn(cn.wrapping_add(9))),
            (a, s, Frame::HandshakeSynFrame(HandshakeSynFrame { version: 2, nonce: cn, max_receive_rate: 1, max_packet_size: 1, max_receive_alloc: 1 })),
            (a, s, Frame::HandshakeSynFrame(HandshakeSynFrame { version: 3, nonce: 5, max_receive_rate: 1, max_packet_size: 2_000_000, max_receive_alloc: 1 })),
            (a, s, raw_ack(sn)),
            (s, a, raw_synack(cn, sn)),
            (s, a, raw_synack(cn, sn.wrapping_add(5))),
            (s, a, raw_err(cn, ServerFull)),
            (s, a, raw_err(cn, Config)),
        ]);
    }
    v
}

pub fn c07(thorough: bool) -> Check {
    let mut c = check(if thorough { 840 } else { 150 },
        "Real server and clients. loss: every combination of up to 3 (quick) / 4 (thorough) fates (drop, dup, delay 2-35 ticks, late copies) on the first 16 handshake frames, boundary nonces; then exactly one Connect per side and traffic both ways. forge: every placement of up to 2 (3) of 19-28 forged or stale handshake frames (own, peer's and foreign addresses; near-miss nonces) at any tick before, during (also other SYNs from the client's own address) or after the handshake; frames whose nonces differ in one or two bits, halves, bytes or arithmetically at every instant of it. cross: three simultaneous clients, every ACK nonce from every address, and all orders of delivery. life: a client reborn on the same address (after drop, disconnect, silence) while any frame of the earlier lives is replayed at any tick, bound 2 (3). config: all pairs of (max_packet_size, max_receive_alloc) of both sides from boundary sets; version: all 256 versions. negotiated: combinations of both sides' rate and memory limits, which traffic of both sides must keep to and make use of.");
    let mon = Mon { grammar: true, handshake: true, order: true, ..Mon::default() };
    // loss
    for (k, tick) in [(0usize, 100u64), (1, 100), (2, 250), (3, 100), (4, 500)] {
        let bound = if thorough { 4 } else { 3 };
        c.add(Scenario::new(format!("loss/{}/{}ms", k, tick), bound, move |ctx| {
            let mut n = Net::new(scfg(4, 4, true, ec()), mon);
            push_nonces(k);
            n.tick_us = tick * 1000;
            n.clients_first = k % 2 == 1;
            n.fates = vec![Fate::Deliver, Fate::Drop, Fate::Dup, Fate::Delay(2), Fate::Delay(35), Fate::DupDelay(9), Fate::DupDelay(45)];
            n.branch = 16;
            n.branch_kinds = Some(vec![Kind::Syn, Kind::SynAck, Kind::Ack]);
            let early = k % 2 == 0;
            n.connect(ctx, ec());
            if early {
                n.csend(ctx, 0, 30, 0, Reliable);
                n.csend(ctx, 0, 31, 1, Unreliable);
            }
            let a = n.peers[0].addr;
            while n.ms() < 60_000 && !(n.peers[0].gr == Gr::Up && n.spec(a).gr == Gr::Up) {
                n.do_tick(ctx);
            }
            ensure_up(&mut n, 0);
            // late copies arrive
            n.run_ms(ctx, 46 * tick);
            ensure_up(&mut n, 0);
            talk(&mut n, ctx, 0, 6);
            if early {
                ensure!(n.peers[0].subs[0].delivered == 1, "the packet submitted while connecting was not delivered");
            }
            ensure!(count(&n.peers[0].events, &Ev::Connect) == 1 && count(&n.sp[&a].events, &Ev::Connect) == 1, "not exactly one Connect on each side");
        }));
    }
    // forge/bits: nonces which are almost right
    for k in 0..3usize {
        c.add(Scenario::new(format!("forge/bits/{}", k), 0, move |ctx| {
            let mut n = Net::new(scfg(4, 4, k == 1, ec()), mon);
            push_nonces(k);
            let v: [(u32, u32); 3] = [(0x1234_5678, 0x9ABC_DEF0), (0, 0), (0xFFFF_FFFF, 0xFFFF_FFFE)];
            let (cn, sn) = v[k];
            n.tick_us = 100_000;
            n.lat = 2;
            let a = addr(50_001);
            let kind = ctx.choose_free(3);
            let i = ctx.choose_free(32 + 4);
            let genuine = if kind == 0 { sn } else { cn };
            let nonce = if i < 32 {
                let more = ctx.choose_free(32 - i);
                genuine ^ (1 << i | 1u32 << (i + more))
            } else {
                let t = ctx.choose_free(6);
                match i {
                    32 => genuine ^ [0xFFFF_FFFF, 0xFFFF_0000, 0xFFF0_0000, 0x000F_FFFF, 0x0000_FFFF, 0xFFFF_FF00][t],
                    33 => genuine & [0xFFFF, 0xFFFFF, 0xFF, 0x7FFF_FFFF, 0xFFFF_0000, 0xFFFF_FFFE][t],
                    34 => genuine | [0x8000_0000, 1, 0xFFFF, 0xFFF0_0000, 0xFF, 0xFF00_0000][t],
                    _ => [genuine.swap_bytes(), genuine.reverse_bits(), genuine.rotate_left(16), genuine.wrapping_add(1), genuine.wrapping_sub(1), genuine.wrapping_neg()][t],
                }
            };
            let at = ctx.choose_free(if thorough { 8 } else { 6 });
            n.connect(ctx, ec());
            for j in 0..10 {
                if j == at && nonce != genuine {
                    let (s, d, f) = match kind {
                        0 => (a, saddr(), raw_ack(nonce)),
                        1 => (saddr(), a, raw_synack(nonce, sn.wrapping_add(77))),
                        _ => (saddr(), a, raw_err(nonce, HandshakeErrorType::ServerFull)),
                    };
                    ctx.note(|| format!("    forged {:?} {} -> {}", f, s.port(), d.port()));
                    n.inject(s, d, f.write().into_vec(), 0);
                }
                n.do_tick(ctx);
            }
            ensure_up(&mut n, 0);
            talk(&mut n, ctx, 0, 2);
            ensure!(count(&n.peers[0].events, &Ev::Connect) == 1 && count(&n.sp[&a].events, &Ev::Connect) == 1, "not exactly one Connect on each side");
        }));
    }
    // forge
    for phase in 0..3u32 {
        for k in 0..3usize {
            let bound = if thorough { 3 } else { 2 };
            c.add(Scenario::new(format!("forge/{}/{}", ["before", "during", "established"][phase as usize], k), bound, move |ctx| {
                let mut n = Net::new(scfg(4, 4, k == 1, ec()), mon);
                push_nonces(k);
                let v: [(u32, u32); 3] = [(0x1234_5678, 0x9ABC_DEF0), (0, 0), (0xFFFF_FFFF, 0xFFFF_FFFE)];
                let (cn, sn) = v[k];
                n.tick_us = 100_000;
                n.lat = 2;
                let a = addr(50_001);
                let mut list = forgeries(a, cn, sn, phase == 2);
                if phase < 2 {
                    // An actual handshake of the other address would consume the nonces chosen above
                    list.retain(|(s, _, f)| *s == a || *s == saddr() || !matches!(f, Frame::HandshakeSynFrame(_)));
                }
                if phase > 0 {
                    n.connect(ctx, ec());
                }
                if phase == 2 {
                    for _ in 0..7 {
                        n.do_tick(ctx);
                    }
                    ensure_up(&mut n, 0);
                    n.csend(ctx, 0, 3000, 0, Reliable);
                    n.ssend(ctx, a, 3000, 0, Reliable);
                }
                let ticks = if phase == 0 { 3 } else { 10 };
                // Requests with another nonce, once the server is about to answer the client's own
                let late: Vec<_> = [cn.wrapping_add(9), !cn, sn, 5].into_iter().filter(|x| *x != cn).map(|x| (a, saddr(), raw_syn(x)))
                    .chain([(a, saddr(), Frame::HandshakeSynFrame(HandshakeSynFrame { version: 3, nonce: cn, max_receive_rate: 1, max_packet_size: 1, max_receive_alloc: 2_000_000 })),
                        (a, saddr(), Frame::HandshakeSynFrame(HandshakeSynFrame { version: 2, nonce: !cn, max_receive_rate: 1, max_packet_size: 1, max_receive_alloc: 1 })),
                        (a, saddr(), Frame::HandshakeSynFrame(HandshakeSynFrame { version: 3, nonce: !cn, max_receive_rate: 1, max_packet_size: 2_000_000, max_receive_alloc: 1 }))]).collect();
                for _ in 0..ticks {
                    let more = if phase == 1 && n.tracked().0 > 0 { late.len() } else { 0 };
                    let j = ctx.choose(list.len() + more + 1);
                    if j > 0 {
                        let (s, d, f) = if j <= list.len() { &list[j - 1] } else { &late[j - 1 - list.len()] };
                        let (s, d, b) = (*s, *d, f.write().into_vec());
                        ctx.note(|| format!("    forged {:?} {} -> {}", f, s.port(), d.port()));
                        n.inject(s, d, b, 0);
                    }
                    n.do_tick(ctx);
                }
                if phase == 0 {
                    n.connect(ctx, ec());
                }
                n.run_ms(ctx, 30_000);
                for (q, s) in n.sp.iter() {
                    ensure!(*q == a || s.events.iter().all(|e| matches!(e.1, Ev::Timeout)), "the server reported {:?} for an address which is not a client", s.events);
                }
                ensure_up(&mut n, 0);
                talk(&mut n, ctx, 0, 4);
                ensure!(count(&n.peers[0].events, &Ev::Connect) == 1 && count(&n.sp[&a].events, &Ev::Connect) == 1, "not exactly one Connect on each side");
            }));
        }
    }
    // cross
    {
        let bound = if thorough { 4 } else { 3 };
        c.add(Scenario::new("cross", bound, move |ctx| {
            let mut n = Net::new(scfg(8, 8, true, ec()), mon);
            n.tick_us = 200_000;
            n.keep_log = true;
            n.fates = vec![Fate::Deliver, Fate::Drop, Fate::Delay(1), Fate::Dup];
            n.branch = 9;
            for _ in 0..3 {
                n.connect(ctx, ec());
            }
            for _ in 0..12 {
                // any nonce seen so far, from any address
                let mut opts: Vec<(u16, u32)> = vec![];
                for x in n.txlog.iter() {
                    if let Some(Frame::HandshakeSynAckFrame(f)) = Frame::read(&x.data) {
                        for p in [50_001u16, 50_002, 50_003, 40_000] {
                            if x.dst.port() != p && !opts.contains(&(p, f.nonce)) {
                                opts.push((p, f.nonce));
                            }
                        }
                    }
                }
                let j = ctx.choose(opts.len() + 2);
                if j == opts.len() + 1 {
                    n.inject_frame(addr(40_000), saddr(), raw_syn(0x0BAD_F00D));
                } else if j > 0 {
                    let (p, nonce) = opts[j - 1];
                    n.inject_frame(addr(p), saddr(), raw_ack(nonce));
                }
                n.do_tick(ctx);
            }
            n.run_ms(ctx, 10_000);
            ensure!(count(&n.spec(addr(40_000)).events, &Ev::Connect) == 0, "an address which never returned its own nonce is connected");
            for i in 0..3 {
                ensure_up(&mut n, i);
            }
            for i in 0..3 {
                talk(&mut n, ctx, i, 3);
            }
        }));
    }
    // life
    for (k, script) in ["drop", "cdisc", "sdisc", "silence", "instant"].into_iter().enumerate() {
        let bound = if thorough { 3 } else { 2 };
        c.add(Scenario::new(format!("life/{}", script), bound, move |ctx| {
            let mut e = ec();
            e.active_timeout_ms = 5000;
            let mut n = Net::new(scfg(4, 4, k % 2 == 0, e.clone()), mon);
            n.tick_us = 500_000;
            n.keep_log = true;
            n.connect(ctx, e);
            let a = n.peers[0].addr;
            let mut connects = 0;
            for t in 0..72u32 {
                match (script, t) {
                    ("drop", 5) => n.sdrop(ctx, a),
                    ("cdisc", 5) => n.cdisc(ctx, 0, true),
                    ("sdisc", 5) => n.sdisc(ctx, a, true),
                    ("silence", 5) => n.kill(ctx, 0),
                    ("instant", 3) | ("instant", 30) => n.reincarnate(ctx, 0),
                    ("drop", 9) | ("cdisc", 50) | ("sdisc", 50) | ("silence", 24) => n.reincarnate(ctx, 0),
                    _ => (),
                }
                // replay any earlier handshake frame, or a cut short request
                let window = match script { "drop" => 3..18, "cdisc" | "sdisc" => 44..58, "silence" => 12..30, _ => 1..40 };
                if window.contains(&t) {
                    let idx: Vec<usize> = n.txlog.iter().enumerate().filter(|(_, x)| matches!(x.kind, Kind::Syn | Kind::SynAck | Kind::Ack)).map(|(i, _)| i).collect();
                    let j = ctx.choose(idx.len().min(14) + 1);
                    if j > 0 {
                        let x = &n.txlog[idx[idx.len().min(14) - j]];
                        let (s, d, b, k) = (x.src, x.dst, x.data.clone(), x.kind);
                        ctx.note(|| format!("    replayed {:?}", k));
                        n.inject(s, d, b, 0);
                    }
                }
                n.do_tick(ctx);
                connects = connects.max(count(&n.spec(a).events, &Ev::Connect));
            }
            // Replays may delay a connection, but whatever both ends call connected must work
            n.run_ms(ctx, 5000);
            if n.peers[0].gr == Gr::Up && n.spec(a).gr == Gr::Up && n.c_active(0) && n.s_active(&a) {
                let before = (n.peers[0].events.len(), n.spec(a).events.len());
                if n.same_connection(0) {
                    talk_within(&mut n, ctx, 0, 3, 400_000);
                    let _ = before;
                }
            }
            ensure!(count(&n.peers[0].events, &Ev::Connect) <= 1, "the client reported Connect more than once");
        }));
    }
    // config
    c.add(Scenario::new("config", 0, move |ctx| {
        let sizes = [1usize, 999, 1448, 1449, 100_000, 1_000_000, 16_777_216 + 5];
        let allocs = [1usize, 999, 1000, 1448, 1449, 1_000_000, u32::MAX as usize, u32::MAX as usize + 1, usize::MAX];
        let mk = |ctx: &mut Ctx| {
            let mut e = ec();
            e.max_packet_size = ctx.choose_of(&sizes);
            e.max_receive_alloc = ctx.choose_of(&allocs);
            e
        };
        let (cc, sc) = (mk(ctx), mk(ctx));
        let errors = ctx.choose_free(2) == 1;
        let ok = cc.max_receive_alloc >= sc.max_packet_size && cc.max_packet_size <= sc.max_receive_alloc;
        let mut n = Net::new(scfg(4, 4, errors, sc.clone()), mon);
        n.tick_us = 100_000;
        n.connect(ctx, cc.clone());
        let a = n.peers[0].addr;
        n.run_ms(ctx, 1000);
        if ok {
            ensure_up(&mut n, 0);
            let (k1, k2) = (cc.max_packet_size.min(1500), sc.max_packet_size.min(1500));
            if k1 >= 2 && k2 >= 2 {
                n.csend(ctx, 0, k1, 0, Reliable);
                n.ssend(ctx, a, k2, 0, Reliable);
                n.run_ms(ctx, 3000);
                ensure!(n.peers[0].subs[0].delivered == 1 && n.sp[&a].subs[0].delivered == 1, "connected, but the largest packets are not delivered");
            }
        } else {
            let ev: Vec<Ev> = n.peers[0].events.iter().map(|e| e.1.clone()).collect();
            ensure!(ev == [Ev::Config], "client with {:?} at a server with {:?}: client events {:?}", cc, sc, ev);
            let ev: Vec<Ev> = n.spec(a).events.iter().map(|e| e.1.clone()).collect();
            ensure!(if errors { ev == [Ev::Config] } else { ev.is_empty() }, "server events {:?} for a refused client (errors {})", ev, errors);
            ensure!(n.tracked().0 == 0, "the server tracks a refused client");
        }
    }));
    // version
    c.add(Scenario::new("version", 0, move |ctx| {
        let v = ctx.choose_free(256) as u8;
        let errors = ctx.choose_free(2) == 1;
        let mut n = Net::new(scfg(4, 4, errors, ec()), mon);
        n.tick_us = 100_000;
        n.keep_log = true;
        let x = addr(40_000);
        n.inject_frame(x, saddr(), Frame::HandshakeSynFrame(HandshakeSynFrame { version: v, nonce: 99, max_receive_rate: 1000, max_packet_size: 1000, max_receive_alloc: 2_000_000 }));
        n.run_ms(ctx, 1000);
        let replies: Vec<Frame> = n.txlog.iter().filter(|t| t.dst == x).filter_map(|t| Frame::read(&t.data)).collect();
        if v == uflow::PROTOCOL_VERSION {
            ensure!(matches!(replies[..], [Frame::HandshakeSynAckFrame(ref f)] if f.nonce_ack == 99), "replies to a valid request: {:?}", replies);
        } else {
            ensure!(matches!(replies[..], [Frame::HandshakeErrorFrame(ref f)] if f.nonce_ack == 99 && f.error == HandshakeErrorType::Version), "replies to a request of version {}: {:?}", v, replies);
            let ev: Vec<Ev> = n.spec(x).events.iter().map(|e| e.1.clone()).collect();
            ensure!(if errors { ev == [Ev::Version] } else { ev.is_empty() }, "server events {:?} for a refused client (errors {})", ev, errors);
            ensure!(n.tracked().0 == 0, "the server tracks a refused client");
            // echoing anything does not help
            for nonce in [0, 99, 100] {
                n.inject_frame(x, saddr(), raw_ack(nonce));
            }
            n.run_ms(ctx, 300);
        }
    }));
    // A client told of a mismatch, with its own nonce, believes it; with another, it does not
    c.add(Scenario::new("errors", 1, move |ctx| {
        use HandshakeErrorType::*;
        let t = ctx.choose_free(3);
        let genuine = ctx.choose_free(2) == 1;
        let mut n = Net::new(scfg(4, 4, false, ec()), mon);
        push_nonces(0);
        n.tick_us = 100_000;
        n.black_dir = 1;
        n.connect(ctx, ec());
        let a = n.peers[0].addr;
        let k = ctx.choose(30);
        for _ in 0..k {
            n.do_tick(ctx);
        }
        let cn = n.peers[0].nonce.unwrap();
        n.inject_frame(saddr(), a, raw_err(if genuine { cn } else { cn ^ 1 }, [Version, Config, ServerFull][t].clone()));
        n.run_ms(ctx, 500);
        let ev: Vec<Ev> = n.peers[0].events.iter().map(|e| e.1.clone()).collect();
        ensure!(ev == if genuine { vec![[Ev::Version, Ev::Config, Ev::Full][t].clone()] } else { vec![] }, "client events {:?} after a {} error", ev, if genuine { "genuine" } else { "forged" });
        n.black_dir = 0;
        if !genuine {
            n.run_ms(ctx, 5000);
            ensure_up(&mut n, 0);
            talk(&mut n, ctx, 0, 2);
        }
    }));
    super::app::c13(&mut c, thorough, true);
    super::app::c06(&mut c, thorough, true);
    c
}

// C17 --------------------------------------------------------------------------------------------

fn run_limits(ctx: &mut Ctx, thorough: bool, total: usize, active: usize, errors: bool, tick_ms: u64, base: &[(u32, Act)], horizon: u32, fates: bool, clients_first: bool) {
    let mon = Mon { grammar: true, limits: true, ..Mon::default() };
    let mut e = ec();
    e.active_timeout_ms = 6000;
    let mut n = Net::new(scfg(total, active, errors, e.clone()), mon);
    n.tick_us = tick_ms * 1000;
    n.clients_first = clients_first;
    if fates {
        n.fates = vec![Fate::Deliver, Fate::Drop, Fate::Delay(5), Fate::DupDelay(9)];
        n.branch = if thorough { 14 } else { 10 };
    }
    use Act::*;
    let menu: &[Act] = if thorough {
        &[None, Join, CNow(0), CDisc(1), SNow(0), SDisc(1), SDrop(0), Kill(0), Kill(1), Rebirth(0), SDrop(1), Blackout(3)]
    } else {
        &[None, Join, CNow(0), SNow(0), SDisc(1), Kill(0), SDrop(1), Rebirth(0)]
    };
    let mut black = 0u32;
    let mut raw = 0u16;
    for t in 0..horizon {
        let (mut skip, mut b) = (vec![], 0);
        for (bt, a) in base.iter() {
            if *bt == t {
                act(&mut n, ctx, *a, &mut skip, &mut b);
            }
        }
        let c = ctx.choose(menu.len() + 2);
        if c < menu.len() {
            if n.peers.len() < 7 || menu[c] != Join {
                act(&mut n, ctx, menu[c], &mut skip, &mut b);
            }
        } else if c == menu.len() {
            // a request from someone who will never complete the handshake
            raw += 1;
            n.inject_frame(addr(30_000 + raw), saddr(), raw_syn(raw as u32));
        } else {
            for _ in 0..3 {
                raw += 1;
                n.inject_frame(addr(30_000 + raw), saddr(), raw_syn(raw as u32));
            }
        }
        black = black.max(b);
        n.black = black > 0;
        black = black.saturating_sub(1);
        n.do_tick(ctx);
    }
    n.black = false;
    // Capacity returns: everything ends, then as many as allowed connect
    n.tick_us = 1_000_000;
    let tick_ms = 1000;
    let k = n.peers.len();
    for i in 0..k {
        n.cdisc(ctx, i, true);
    }
    drain(&mut n, ctx, 50_000 + 12 * tick_ms);
    for i in 0..k {
        n.kill(ctx, i);
    }
    drain(&mut n, ctx, 30_000 + 12 * tick_ms);
    ensure!(n.tracked().0 == 0, "{} connections are still tracked though all of them ended long ago", n.tracked().0);
    let cap = total.min(active);
    let first = n.peers.len();
    n.lat = 1;
    for _ in 0..cap + 2 {
        n.connect(ctx, e.clone());
    }
    for _ in 0..10 {
        n.do_tick(ctx);
    }
    let up = (first..first + cap + 2).filter(|i| count(&n.peers[*i].events, &Ev::Connect) == 1).count();
    let full = (first..first + cap + 2).filter(|i| count(&n.peers[*i].events, &Ev::Full) == 1).count();
    ensure!(up == cap, "{} of {} clients could connect to an empty server with limits {}/{}", up, cap + 2, total, active);
    ensure!(full == 2, "{} of 2 superfluous clients were told that the server is full", full);
}

pub fn c17(thorough: bool) -> Check {
    let mut c = check(if thorough { 800 } else { 150 },
        "Real server (limits 1-3 total x 1-3 active) with up to 7 real clients and unresponsive raw requesters: scripts x every placement of up to 2 (quick) / 3 (thorough) deviations out of 9 (13) actions (join, disconnect, disconnect_now, drop, vanish, rebirth, 1 or 3 raw requests, blackout) at any of 24-40 ticks of 250-1000 ms, and frame fates; after every step the tracked/active counts are compared with the limits, every request must have been answered, and no refusal may occur while an independent count is below the smaller limit; finally all connections end and the full capacity must be available again. crowd: 40 and 140 (up to 300) connections filling the server, ending all together in 8 ways; uptime: ends around 2^24, 2^31 and 2^32 ms, 2^32 us and 250 days after the server was created.");
    let scripts: Vec<(&str, Vec<(u32, Act)>)> = vec![
        ("burst", vec![(0, Act::Join), (0, Act::Join), (0, Act::Join), (0, Act::Join)]),
        ("trickle", vec![(0, Act::Join), (4, Act::Join), (8, Act::Join), (12, Act::Join)]),
        ("leave", vec![(0, Act::Join), (0, Act::Join), (5, Act::CNow(0)), (7, Act::Join), (10, Act::SNow(1)), (13, Act::Join), (14, Act::Join)]),
        ("vanish", vec![(0, Act::Join), (0, Act::Join), (5, Act::Kill(0)), (6, Act::Join), (22, Act::Join)]),
        ("drop", vec![(0, Act::Join), (0, Act::Join), (4, Act::SDrop(0)), (5, Act::Join), (6, Act::Rebirth(0))]),
    ];
    for (name, base) in scripts {
        for (i, (total, active)) in [(1, 1), (2, 1), (2, 2), (3, 2), (2, 3), (3, 3)].into_iter().enumerate() {
            for (j, tick) in [500u64, 1000, 250].into_iter().enumerate() {
                if !thorough && j != i % 3 {
                    continue;
                }
                let base = base.clone();
                let fates = (i + j) % 2 == 0;
                c.add(Scenario::new(format!("limits/{}/{}of{}/{}ms", name, active, total, tick), if thorough && j == 0 { 3 } else { 2 }, move |ctx| {
                    run_limits(ctx, thorough, total, active, i % 2 == 0, tick, &base, if j == 0 && thorough || !thorough { 24 } else { 34 }, fates, (i + j) % 3 == 0)
                }));
            }
        }
    }
    let m = Mon { grammar: true, limits: true, ..Mon::default() };
    crowd_many(&mut c, m, thorough);
    uptime_end(&mut c, m, thorough);
    // Sequences of raw datagrams from several addresses in one step: every interleaving of requests and acknowledgements
    for (total, active) in [(1, 1), (2, 1), (3, 2), (3, 3), (2, 3)] {
        c.add(Scenario::new(format!("raw/{}of{}", active, total), 0, move |ctx| {
            let depth = if thorough { if total <= 2 { 6 } else { 5 } } else { 4 };
            let mut known = 0;
            let mon = Mon { grammar: true, limits: true, handshake: true, ..Mon::default() };
            let mut n = Net::new(scfg(total, active, true, ec()), mon);
            n.tick_us = 500_000;
            for _ in 0..depth {
                // (addresses are interchangeable, so the first one not yet used stands for all others)
                let who = ctx.choose_free((known + 1).min(4)) as u16;
                known = known.max(who as usize + 1);
                let what = ctx.choose_free(3);
                let a = addr(30_000 + who);
                match what {
                    0 => n.inject_frame(a, saddr(), raw_syn(7 + who as u32)),
                    1 => {
                        let x = n.spec(a).nonce.unwrap_or(1);
                        n.inject_frame(a, saddr(), raw_ack(x));
                    }
                    _ => n.inject_frame(a, saddr(), Frame::DisconnectFrame(DisconnectFrame {})),
                }
                // the next datagram in the same step, or in a later one
                if ctx.choose_free(2) == 1 {
                    n.do_tick(ctx);
                }
            }
            n.do_tick(ctx);
            n.run_ms(ctx, 24_000);
        }));
    }
    c
}

// C18 --------------------------------------------------------------------------------------------

fn cut(f: &Frame, len: usize) -> Vec<u8> {
    let b = f.write();
    let mut v = b[..len - 4].to_vec();
    let crc = crate::checks::codec::crc32(&v);
    v.extend_from_slice(&crc.to_be_bytes());
    v
}

pub fn c18(thorough: bool) -> Check {
    let mut c = check(if thorough { 800 } else { 150 },
        "Real server, raw datagrams from unverified addresses: all sequences of 3 (quick) / 4 (thorough) datagrams out of 20 kinds (valid, repeated, refused [version, config, full], undersized, oversized and corrupt requests; stray frames of every type) x waits 0/2.5/23/45 s between them; then 70 s of retransmissions; with room, full, with and without errors, at server tick 0.25-5 s. Monitor after every datagram sent: bytes out < bytes in, unless that address has completed a handshake. Undersized requests of every length 21..1471 get no answer.");
    let mon = Mon { amp: true, grammar: true, handshake: true, ..Mon::default() };
    // -- sequences
    for (full, tick) in [(0u32, 1000u64), (1, 1000), (2, 1000), (0, 250), (0, 5000)] {
        for errors in [false, true] {
            if errors && tick != 1000 {
                continue;
            }
            let depth = if thorough { 4 } else { 3 };
            c.add(Scenario::new(format!("seq/full{}/{}ms/err{}", full, tick, errors as u8), 0, move |ctx| {
                let mut n = Net::new(scfg(if full == 1 { 1 } else { 4 }, if full == 2 { 1 } else { 4 }, errors, ec()), mon);
                n.tick_us = tick * 1000;
                if full > 0 {
                    n.tick_us = 100_000;
                    connect_quietly(&mut n, ctx, ec());
                    n.tick_us = tick * 1000;
                }
                let x = addr(40_000);
                for _ in 0..depth {
                    let k = ctx.choose_free(20);
                    let f = |v, mps, mra| Frame::HandshakeSynFrame(HandshakeSynFrame { version: v, nonce: 5, max_receive_rate: 10_000, max_packet_size: mps, max_receive_alloc: mra });
                    let d: Vec<u8> = match k {
                        0 => f(3, 1000, 1_000_000).write().into_vec(),
                        1 => Frame::HandshakeSynFrame(HandshakeSynFrame { version: 3, nonce: 6, max_receive_rate: 0, max_packet_size: 0, max_receive_alloc: u32::MAX }).write().into_vec(),
                        2 => f(4, 1000, 1_000_000).write().into_vec(),
                        3 => f(3, 2_000_000, 1_000_000).write().into_vec(),
                        4 => f(3, 1000, 10).write().into_vec(),
                        5 => cut(&f(3, 1000, 1_000_000), 22),
                        6 => cut(&f(3, 1000, 1_000_000), 1471),
                        7 => cut(&f(4, 1000, 1_000_000), 30),
                        8 => {
                            let mut b = f(3, 1000, 1_000_000).write().into_vec();
                            b[7] ^= 1;
                            b
                        }
                        9 => raw_ack(1).write().into_vec(),
                        10 => raw_synack(5, 6).write().into_vec(),
                        11 => raw_err(5, HandshakeErrorType::Config).write().into_vec(),
                        12 => Frame::DisconnectFrame(DisconnectFrame {}).write().into_vec(),
                        13 => Frame::DisconnectAckFrame(DisconnectAckFrame {}).write().into_vec(),
                        14 => Frame::SyncFrame(SyncFrame { next_frame_id: Some(1), next_packet_id: None }).write().into_vec(),
                        15 => Frame::DataFrame(DataFrame { sequence_id: 5, nonce: true, datagrams: vec![] }).write().into_vec(),
                        16 => Frame::AckFrame(AckFrame { frame_window_base_id: 5, packet_window_base_id: 5, frame_acks: vec![] }).write().into_vec(),
                        17 => vec![],
                        18 => vec![0],
                        _ => raw_ack(n.spec(x).nonce.map_or(0, |v| v ^ 1)).write().into_vec(),
                    };
                    n.inject(x, saddr(), d, 0);
                    let w = [0u64, 2500, 23_000, 45_000][ctx.choose_free(if k < 5 { 4 } else { 2 })];
                    n.run_ms(ctx, w);
                }
                n.tick_us = n.tick_us.max(500_000);
                n.run_ms(ctx, 70_000);
            }));
        }
    }
    // Many requests in one step, from one or two addresses
    c.add(Scenario::new("flood", 0, move |ctx| {
        let mut n = Net::new(scfg(3, 2, true, ec()), mon);
        n.tick_us = 1_000_000;
        let reps = 1 + ctx.choose_free(6);
        let kind = ctx.choose_free(4);
        let again = ctx.choose_free(3);
        for r in 0..=again {
            for i in 0..reps {
                for q in 0..3u16 {
                    let f = match kind {
                        0 => raw_syn(1),
                        1 => raw_syn(i as u32),
                        2 => Frame::HandshakeSynFrame(HandshakeSynFrame { version: 9, nonce: 1, max_receive_rate: 1, max_packet_size: 1, max_receive_alloc: 1 }),
                        _ => Frame::HandshakeSynFrame(HandshakeSynFrame { version: 3, nonce: 1, max_receive_rate: 1, max_packet_size: 1, max_receive_alloc: 1 }),
                    };
                    n.inject_frame(addr(40_000 + q), saddr(), f);
                }
            }
            n.run_ms(ctx, [500, 5000, 30_000][r]);
        }
        n.run_ms(ctx, 70_000);
    }));
    // Undersized requests
    c.add(Scenario::new("undersized", 0, move |ctx| {
        let len = 6 + ctx.choose_free(1466);
        let v = [3u8, 4][ctx.choose_free(2)];
        let mut n = Net::new(scfg(3, 2, true, ec()), mon);
        n.tick_us = 1_000_000;
        n.keep_log = true;
        let f = Frame::HandshakeSynFrame(HandshakeSynFrame { version: v, nonce: 1, max_receive_rate: 1, max_packet_size: 1, max_receive_alloc: 1_000_000 });
        n.inject(addr(40_000), saddr(), cut(&f, len), 0);
        n.run_ms(ctx, 30_000);
        ensure!(n.txlog.is_empty(), "the server answered a connection request of {} bytes", len);
        ensure!(n.tracked().0 == 0 && n.sp[&addr(40_000)].events.is_empty(), "the server took notice of a connection request of {} bytes", len);
    }));
    // An address whose handshake never completes, while the server is busy with another client
    c.add(Scenario::new("mixed", if thorough { 3 } else { 2 }, move |ctx| {
        let mut n = Net::new(scfg(4, 4, true, ec()), mon);
        n.tick_us = 1_000_000;
        n.connect(ctx, ec());
        n.fates = vec![Fate::Deliver, Fate::Drop, Fate::Dup, Fate::DupDelay(25)];
        n.branch = 30;
        for t in 0..60 {
            if t == 3 {
                n.inject_frame(addr(40_000), saddr(), raw_syn(4));
                n.csend(ctx, 0, 3000, 0, Reliable);
            }
            if t == 30 {
                n.cdisc(ctx, 0, true);
            }
            if t == 40 {
                n.inject_frame(addr(40_000), saddr(), raw_syn(4));
            }
            n.do_tick(ctx);
        }
        n.run_ms(ctx, 30_000);
    }));
    c
}
