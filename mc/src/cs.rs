//! A real server and real clients on the virtual network, with monitors.

use crate::alloc::lib;
use crate::ensure;
use crate::explore::{fail, Ctx};
use crate::hc::{payload, Fate};
use std::collections::{BTreeMap, HashMap};
use std::net::{Ipv4Addr, SocketAddr};
use std::time::Duration;
use uflow::verif::frame::{Frame, Serialize};
use uflow::verif::net;
use uflow::{client, server, EndpointConfig, SendMode};

pub const T0: u64 = 1_000_000_000;
pub const SPORT: u16 = 7777;

pub fn addr(port: u16) -> SocketAddr {
    SocketAddr::from((Ipv4Addr::LOCALHOST, port))
}

pub fn saddr() -> SocketAddr {
    addr(SPORT)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    Syn,
    SynAck,
    Ack,
    Err,
    Disc,
    DiscAck,
    Data,
    Sync,
    DataAck,
    Bad,
}

pub fn kind(b: &[u8]) -> Kind {
    match Frame::read(b) {
        None => Kind::Bad,
        Some(Frame::HandshakeSynFrame(_)) => Kind::Syn,
        Some(Frame::HandshakeSynAckFrame(_)) => Kind::SynAck,
        Some(Frame::HandshakeAckFrame(_)) => Kind::Ack,
        Some(Frame::HandshakeErrorFrame(_)) => Kind::Err,
        Some(Frame::DisconnectFrame(_)) => Kind::Disc,
        Some(Frame::DisconnectAckFrame(_)) => Kind::DiscAck,
        Some(Frame::DataFrame(_)) => Kind::Data,
        Some(Frame::SyncFrame(_)) => Kind::Sync,
        Some(Frame::AckFrame(_)) => Kind::DataAck,
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Connect,
    Disconnect,
    Receive(usize),
    Timeout,
    Version,
    Config,
    Full,
}

impl Ev {
    pub fn terminal(&self) -> bool {
        !matches!(self, Ev::Connect | Ev::Receive(_))
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Gr {
    New,
    Up,
    Done,
}

#[derive(Clone, Copy, Default)]
pub struct Mon {
    pub grammar: bool,
    pub handshake: bool,
    pub timeout: bool,
    pub disc: bool,
    pub limits: bool,
    pub amp: bool,
    pub order: bool,
    /// Submission order holds across channels
    pub global: bool,
}

#[derive(Clone, Debug)]
pub struct Sub {
    pub size: usize,
    pub ch: u8,
    pub mode: SendMode,
    pub delivered: u32,
    /// Number of the connection (of the sending side) it was submitted to
    pub conn: u32,
}

pub struct Peer {
    pub client: Option<client::Client>,
    pub cfg: EndpointConfig,
    pub addr: SocketAddr,
    pub gr: Gr,
    pub events: Vec<(u64, Ev)>,
    pub nonce: Option<u32>,
    pub saw_synack: bool,
    /// Server nonce of the SYN-ACK which completed the handshake
    pub remote_nonce: Option<u32>,
    pub last_rx: u64,
    pub last_rx_hs: u64,
    pub subs: Vec<Sub>,
    pub disc_called: bool,
    pub disc_tx: Option<(u64, u32)>,
    pub syn_tx: Option<(u64, u32)>,
    pub born: u64,
    pub bytes_tx: u64,
    pub generation: u32,
    pub disc_any: bool,
    pub disc_n: usize,
}

#[derive(Clone)]
pub struct SPeer {
    pub gr: Gr,
    pub events: Vec<(u64, Ev)>,
    pub nonce: Option<u32>,
    pub acked: bool,
    /// The nonce returned for the current connection
    pub up_nonce: Option<u32>,
    pub last_rx: u64,
    pub last_rx_hs: u64,
    pub subs: Vec<Sub>,
    pub disc_called: bool,
    pub disc_tx: Option<(u64, u32)>,
    pub synack_tx: Option<(u64, u32)>,
    pub bytes_in: u64,
    pub bytes_out: u64,
    pub verified: bool,
    pub generation: u32,
    pub dropped: bool,
    /// A SYN-ACK was sent which has led to nothing yet
    pub pending: bool,
    pub disc_any: bool,
    pub disc_n: usize,
}

struct Flight {
    at: u64,
    ord: u64,
    p: net::Packet,
}

pub struct Tx {
    pub at: u64,
    pub src: SocketAddr,
    pub dst: SocketAddr,
    pub kind: Kind,
    pub len: usize,
    pub data: Vec<u8>,
    pub rtt: f64,
}

pub type Policy = Box<dyn Fn(&net::Packet, Kind, u64, u32) -> Option<Fate>>;

pub struct Net {
    step_syns: Vec<SocketAddr>,
    step_answered: Vec<SocketAddr>,
    step_accepted: usize,
    step_refused: usize,
    pub m: Mon,
    pub server: Option<server::Server>,
    pub scfg: EndpointConfig,
    pub max_total: usize,
    pub max_active: usize,
    pub hs_errors: bool,
    pub peers: Vec<Peer>,
    pub sp: BTreeMap<SocketAddr, SPeer>,
    flights: Vec<Flight>,
    ord: u64,
    pub now: u64,
    pub tick_us: u64,
    pub lat: u32,
    pub tick: u32,
    pub fates: Vec<Fate>,
    pub branch: u32,
    pub branch_kinds: Option<Vec<Kind>>,
    pub seen: u32,
    pub policy: Option<Policy>,
    pub txlog: Vec<Tx>,
    pub keep_log: bool,
    pub faults: u32,
    pub last_fault: u64,
    pub clients_first: bool,
    pub flush_after: bool,
    /// Nothing gets onto the wire
    pub black: bool,
    /// Bit 0: frames to the server are lost, bit 1: frames to clients are
    pub black_dir: u32,
    pub black_until: u64,
    /// The first so many SYNs, SYN-ACKs and ACKs are lost
    pub lose: [u32; 3],
    /// Latency, instead of `lat` ticks
    pub lat_us: Option<u64>,
    /// Index of the frame among those from the same source
    counts: HashMap<SocketAddr, u32>,
}

impl Net {
    pub fn new(scfg: server::Config, m: Mon) -> Self {
        uflow::verif::time::set(Duration::from_micros(T0));
        net::set_next_port(50_001);
        let (mt, ma, he, ec) = (scfg.max_total_connections, scfg.max_active_connections, scfg.enable_handshake_errors, scfg.endpoint_config.clone());
        let server = lib(|| server::Server::bind(saddr(), scfg)).unwrap();
        Net {
            m,
            server: Some(server),
            scfg: ec,
            max_total: mt,
            max_active: ma,
            hs_errors: he,
            peers: vec![],
            sp: BTreeMap::new(),
            flights: vec![],
            ord: 0,
            now: T0,
            tick_us: 20_000,
            lat: 1,
            tick: 0,
            fates: vec![Fate::Deliver],
            branch: 0,
            branch_kinds: None,
            seen: 0,
            policy: None,
            txlog: vec![],
            keep_log: false,
            faults: 0,
            last_fault: T0,
            clients_first: false,
            flush_after: false,
            black: false,
            black_dir: 0,
            black_until: 0,
            lose: [0; 3],
            lat_us: None,
            counts: HashMap::new(),
            step_syns: vec![],
            step_answered: vec![],
            step_accepted: 0,
            step_refused: 0,
        }
    }

    pub fn ms(&self) -> u64 {
        (self.now - T0) / 1000
    }

    /// Creates a client. Its handshake starts immediately.
    pub fn connect(&mut self, ctx: &mut Ctx, cfg: EndpointConfig) -> usize {
        let c = lib(|| client::Client::connect(saddr(), client::Config { endpoint_config: cfg.clone() })).unwrap();
        let a = c.local_address();
        let t = self.ms();
        ctx.note(|| format!("t={}ms client {} connects", t, a.port()));
        self.peers.push(Peer {
            client: Some(c), cfg, addr: a, gr: Gr::New, events: vec![], nonce: None, saw_synack: false, remote_nonce: None,
            last_rx: self.now, last_rx_hs: self.now, subs: vec![], disc_called: false, disc_tx: None, syn_tx: None,
            born: self.now, bytes_tx: 0, generation: 0, disc_any: false, disc_n: 0,
        });
        self.collect(ctx);
        self.peers.len() - 1
    }

    /// Replaces a client by a new one bound to the same address, without any notice to the server.
    pub fn reincarnate(&mut self, ctx: &mut Ctx, i: usize) {
        self.peers[i].client = None;
        let cfg = self.peers[i].cfg.clone();
        net::set_next_port(self.peers[i].addr.port());
        // The old record must not be mistaken for the new client's
        self.peers[i].addr = addr(1);
        let j = self.connect(ctx, cfg);
        let mut p = self.peers.pop().unwrap();
        assert!(j == self.peers.len());
        p.generation = self.peers[i].generation + 1;
        p.subs = std::mem::take(&mut self.peers[i].subs);
        self.peers[i] = p;
    }

    pub fn spec(&mut self, a: SocketAddr) -> &mut SPeer {
        let now = self.now;
        self.sp.entry(a).or_insert_with(|| SPeer {
            gr: Gr::New, events: vec![], nonce: None, acked: false, up_nonce: None, last_rx: now, last_rx_hs: now, subs: vec![],
            disc_called: false, disc_tx: None, synack_tx: None, bytes_in: 0, bytes_out: 0, verified: false, generation: 0, dropped: false, pending: false, disc_any: false, disc_n: 0,
        })
    }

    /// Puts a datagram on the wire at this instant, whatever its source claims to be.
    pub fn inject(&mut self, src: SocketAddr, dst: SocketAddr, data: Vec<u8>, delay_ticks: u32) {
        self.ord += 1;
        self.flights.push(Flight { at: self.now + delay_ticks as u64 * self.tick_us, ord: self.ord, p: net::Packet { src, dst, data } });
    }

    pub fn inject_at(&mut self, src: SocketAddr, dst: SocketAddr, data: Vec<u8>, at: u64) {
        self.ord += 1;
        self.flights.push(Flight { at, ord: self.ord, p: net::Packet { src, dst, data } });
    }

    pub fn inject_frame(&mut self, src: SocketAddr, dst: SocketAddr, f: Frame) {
        self.inject(src, dst, f.write().into_vec(), 0)
    }

    /// Moves what was sent since onto the wire.
    pub fn collect(&mut self, ctx: &mut Ctx) {
        for p in net::take_outbox() {
            ctx.step();
            ctx.observe(p.src.port() as u64 ^ (p.dst.port() as u64) << 16);
            ctx.observe_bytes(&p.data);
            let k = kind(&p.data);
            let now = self.now;
            if p.src == saddr() {
                let fr = if k == Kind::SynAck || k == Kind::Err { Frame::read(&p.data) } else { None };
                let s = self.spec(p.dst);
                s.bytes_out += p.data.len() as u64;
                match fr {
                    Some(Frame::HandshakeSynAckFrame(f)) => {
                        let fresh = s.nonce != Some(f.nonce);
                        if fresh {
                            s.nonce = Some(f.nonce);
                            s.acked = false;
                            s.pending = true;
                            s.synack_tx = Some((now, 0));
                        }
                        if let Some(x) = &mut s.synack_tx {
                            x.1 += 1;
                        }
                        self.step_accepted += fresh as usize;
                        self.step_answered.push(p.dst);
                    }
                    Some(Frame::HandshakeErrorFrame(_)) => {
                        self.step_refused += 1;
                        self.step_answered.push(p.dst);
                    }
                    _ => (),
                }
                let s = self.spec(p.dst);
                if k == Kind::Disc {
                    let d = s.disc_tx.get_or_insert((now, 0));
                    d.1 += 1;
                }
                if self.m.amp {
                    let s = &self.sp[&p.dst];
                    ensure!(s.verified || s.bytes_out < s.bytes_in,
                        "the server has sent {} bytes to {}, which never completed a handshake and sent {} bytes", s.bytes_out, p.dst.port(), s.bytes_in);
                }
            } else if let Some(i) = self.peers.iter().position(|q| q.addr == p.src) {
                let q = &mut self.peers[i];
                q.bytes_tx += p.data.len() as u64;
                if let (Kind::Syn, Some(Frame::HandshakeSynFrame(f))) = (k, Frame::read(&p.data)) {
                    q.nonce = Some(f.nonce);
                    let d = q.syn_tx.get_or_insert((now, 0));
                    d.1 += 1;
                }
                if k == Kind::Disc {
                    let d = q.disc_tx.get_or_insert((now, 0));
                    d.1 += 1;
                }
            }
            let t = self.ms();
            if ctx.verbose {
                ctx.note(|| format!("t={}ms {} -> {} {:?} {}B", t, p.src.port(), p.dst.port(), k, p.data.len()));
            }
            if self.keep_log {
                let rtt = if p.src == saddr() {
                    self.server.as_ref().unwrap().client(&p.dst).and_then(|c| c.borrow().rtt_s())
                } else {
                    self.peers.iter().find(|q| q.addr == p.src).and_then(|q| q.client.as_ref()).and_then(|c| c.rtt_s())
                }.unwrap_or(0.0);
                self.txlog.push(Tx { at: now, src: p.src, dst: p.dst, kind: k, len: p.data.len(), data: p.data.clone(), rtt });
            }
            let idx = self.counts.entry(p.src).or_insert(0);
            let n = *idx;
            *idx += 1;
            let mut fate = self.policy.as_ref().and_then(|f| f(&p, k, now - T0, n));
            let to_server = p.dst == saddr();
            if self.black || now < self.black_until || self.black_dir & if to_server { 1 } else { 2 } != 0 {
                fate = Some(Fate::Drop);
            }
            let li = match k { Kind::Syn => 0, Kind::SynAck => 1, Kind::Ack => 2, _ => 3 };
            if li < 3 && self.lose[li] > 0 {
                self.lose[li] -= 1;
                fate = Some(Fate::Drop);
            }
            if fate.is_none() && self.branch_kinds.as_ref().map_or(true, |v| v.contains(&k)) {
                if self.seen < self.branch {
                    self.seen += 1;
                    let c = ctx.choose(self.fates.len());
                    fate = Some(self.fates[c]);
                }
            }
            let fate = fate.unwrap_or(Fate::Deliver);
            if fate != Fate::Deliver {
                self.faults += 1;
                self.last_fault = now;
                ctx.note(|| format!("    fate {:?}", fate));
            }
            let base = now + self.lat_us.unwrap_or(self.lat as u64 * self.tick_us);
            let tick = self.tick_us;
            let mut push = |at: u64, p: net::Packet| {
                self.ord += 1;
                self.flights.push(Flight { at, ord: self.ord, p });
            };
            match fate {
                Fate::Deliver => push(base, p),
                Fate::Drop => (),
                Fate::Dup => {
                    push(base, p.clone());
                    push(base + tick, p);
                }
                Fate::Delay(n) => push(base + n as u64 * tick, p),
                Fate::DupDelay(n) => {
                    push(base, p.clone());
                    push(base + n as u64 * tick, p);
                }
                Fate::Corrupt(i) => {
                    let mut p = p;
                    let n = p.data.len();
                    p.data[(i as usize * 7 + 1) % n] ^= 0x10;
                    push(base, p)
                }
            }
        }
    }

    fn arrivals(&mut self, ctx: &mut Ctx, dst: SocketAddr) {
        loop {
            let mut best: Option<usize> = None;
            for (i, f) in self.flights.iter().enumerate() {
                if f.p.dst == dst && f.at <= self.now && best.map_or(true, |b| (f.at, f.ord) < (self.flights[b].at, self.flights[b].ord)) {
                    best = Some(i);
                }
            }
            let Some(i) = best else { return };
            let f = self.flights.swap_remove(i);
            let now = self.now;
            let (src, data) = (f.p.src, f.p.data.clone());
            if !net::deliver(f.p) {
                continue;
            }
            ctx.step();
            let fr = Frame::read(&data);
            if dst == saddr() {
                let s = self.spec(src);
                s.bytes_in += data.len() as u64;
                match fr {
                    Some(Frame::HandshakeSynFrame(f)) => {
                        s.last_rx_hs = now;
                        if f.version == 3 {
                            self.step_syns.push(src);
                        }
                    }
                    Some(Frame::HandshakeAckFrame(a)) => {
                        s.last_rx_hs = now;
                        if Some(a.nonce_ack) == s.nonce {
                            s.acked = true;
                        }
                    }
                    Some(Frame::DataFrame(_)) | Some(Frame::SyncFrame(_)) | Some(Frame::AckFrame(_)) => {
                        s.last_rx = now;
                        s.last_rx_hs = now;
                    }
                    Some(_) => s.last_rx_hs = now,
                    None => (),
                }
            } else if let Some(q) = self.peers.iter_mut().find(|q| q.addr == dst) {
                match fr {
                    Some(Frame::HandshakeSynAckFrame(a)) => {
                        q.last_rx_hs = now;
                        if Some(a.nonce_ack) == q.nonce {
                            q.saw_synack = true;
                            q.remote_nonce.get_or_insert(a.nonce);
                        }
                    }
                    Some(Frame::DataFrame(_)) | Some(Frame::SyncFrame(_)) | Some(Frame::AckFrame(_)) => {
                        q.last_rx = now;
                        q.last_rx_hs = now;
                    }
                    Some(_) => q.last_rx_hs = now,
                    None => (),
                }
            }
        }
    }

    pub fn set_time(&self) {
        uflow::verif::time::set(Duration::from_micros(self.now));
    }

    fn decode(subs: &mut Vec<Sub>, d: &[u8], order: bool, global: bool) -> usize {
        let i = match d.len() {
            // Empty packets have no identity: where they are used, all are Reliable and of one channel
            0 => subs.iter().position(|x| x.size == 0 && x.delivered == 0).unwrap_or(usize::MAX),
            1 => usize::MAX,
            _ => d[0] as usize | (d[1] as usize) << 8,
        };
        if i >= subs.len() {
            ensure!(!order, "received a packet of {} bytes which was never submitted", d.len());
            return usize::MAX;
        }
        if order {
            let want = payload(i as u16, subs[i].ch, subs[i].size);
            ensure!(want[..] == d[..], "packet #{} received with altered contents", i);
            ensure!(subs[i].delivered == 0, "packet #{} received twice", i);
            let (ch, conn) = (subs[i].ch, subs[i].conn);
            ensure!(!subs[i + 1..].iter().any(|x| x.ch == ch && x.conn == conn && x.delivered > 0), "packet #{} received after a later packet of channel {}", i, ch);
        }
        if global {
            let conn = subs[i].conn;
            ensure!(!subs[i + 1..].iter().any(|x| x.conn == conn && x.delivered > 0), "packet #{} received after a later one", i);
            ensure!(!subs[..i].iter().any(|x| x.conn == conn && x.delivered == 0 && x.mode != SendMode::TimeSensitive), "packet #{} received before an earlier one", i);
        }
        subs[i].delivered += 1;
        i
    }

    pub fn step_server(&mut self, ctx: &mut Ctx) {
        self.set_time();
        self.step_syns.clear();
        self.arrivals(ctx, saddr());
        let syns: Vec<SocketAddr> = self.step_syns.iter().filter(|a| self.server.as_ref().unwrap().client(a).is_none()).copied().collect();
        let tracked = if self.m.limits { self.tracked().0 } else { 0 };
        self.step_accepted = 0;
        self.step_refused = 0;
        self.step_answered.clear();
        let before: Vec<(SocketAddr, bool)> = self.sp.keys().map(|a| (*a, self.s_active(a))).collect();
        let evs: Vec<server::Event> = {
            let s = self.server.as_mut().unwrap();
            lib(|| s.step()).collect()
        };
        let mut timed_out: Vec<SocketAddr> = vec![];
        let mut ended: Vec<SocketAddr> = vec![];
        for e in evs {
            let (a, ev) = match e {
                server::Event::Connect(a) => (a, Ev::Connect),
                server::Event::Disconnect(a) => (a, Ev::Disconnect),
                server::Event::Receive(a, d) => {
                    let (order, global) = (self.m.order, self.m.global);
                    let i = match self.peers.iter_mut().find(|p| p.addr == a) {
                        Some(p) => Self::decode(&mut p.subs, &d, order, global),
                        None => usize::MAX,
                    };
                    (a, Ev::Receive(i))
                }
                server::Event::Error(a, t) => (a, match t {
                    server::ErrorType::Timeout => Ev::Timeout,
                    server::ErrorType::Version => Ev::Version,
                    server::ErrorType::Config => Ev::Config,
                    server::ErrorType::ServerFull => Ev::Full,
                }),
            };
            if ev == Ev::Timeout {
                timed_out.push(a);
            }
            if ev.terminal() {
                ended.push(a);
            }
            self.server_event(ctx, a, ev);
        }
        if self.m.timeout {
            for (a, act) in before {
                let s = &self.sp[&a];
                let to = self.scfg.active_timeout_ms;
                let silence = (self.now - s.last_rx) / 1000;
                let hs_silence = (self.now - s.last_rx_hs) / 1000;
                if act && timed_out.contains(&a) {
                    ensure!(silence + 1 >= to, "server timed out {} after {} ms of silence (timeout {} ms)", a.port(), silence, to);
                }
                if act && self.s_active(&a) && !ended.contains(&a) {
                    let exact = self.now % 1000 == 0 && s.last_rx_hs % 1000 == 0;
                    ensure!(hs_silence < to.saturating_add(!exact as u64), "server has not timed out {} after {} ms of silence (timeout {} ms)", a.port(), hs_silence, to);
                }
            }
        }
        self.collect(ctx);
        if self.flush_after {
            let s = self.server.as_mut().unwrap();
            lib(|| s.flush());
            self.collect(ctx);
        }
        if self.m.limits {
            self.check_limits();
            // (all configurations in use here are compatible)
            for a in syns {
                ensure!(self.step_answered.contains(&a), "a request from {} was neither accepted nor refused", a.port());
            }
            ensure!(self.step_refused == 0 || tracked + self.step_accepted >= self.max_total.min(self.max_active),
                "a request was refused although only {} connections exist (limits {} in total, {} active)", tracked + self.step_accepted, self.max_total, self.max_active);
        }
    }

    fn server_event(&mut self, ctx: &mut Ctx, a: SocketAddr, ev: Ev) {
        let t = self.ms();
        ctx.note(|| format!("t={}ms server event {} {:?}", t, a.port(), ev));
        ctx.observe(a.port() as u64 * 31 + match ev { Ev::Connect => 1, Ev::Disconnect => 2, Ev::Receive(i) => 100 + (i as u64 & 0xFFFF_FFFF), Ev::Timeout => 3, _ => 4 });
        let now = self.now;
        let m = self.m;
        let hs = self.hs_errors;
        let s = self.spec(a);
        if m.grammar {
            match (&ev, s.gr) {
                (Ev::Connect, Gr::Up) => fail(format!("server reports Connect for {} before the previous connection ended", a.port())),
                (Ev::Receive(_), Gr::New | Gr::Done) => fail(format!("server reports Receive for {} which is not connected ({:?})", a.port(), s.gr)),
                (Ev::Disconnect, Gr::New | Gr::Done) => fail(format!("server reports Disconnect for {} which is not connected ({:?})", a.port(), s.gr)),
                (Ev::Timeout | Ev::Version | Ev::Config | Ev::Full, Gr::New | Gr::Done) if !hs => {
                    fail(format!("server reports {:?} for {} which is not connected, though handshake errors are disabled", ev, a.port()))
                }
                (Ev::Timeout, Gr::New | Gr::Done) if !s.pending => fail(format!("server reports Timeout for {} which is neither connected nor connecting", a.port())),
                _ => (),
            }
        }
        if m.handshake && ev == Ev::Connect {
            ensure!(s.acked, "server reports Connect for {} which never returned the nonce it was sent", a.port());
        }
        match ev {
            Ev::Connect => {
                s.gr = Gr::Up;
                s.up_nonce = s.nonce;
                s.verified = true;
                s.acked = false;
                s.last_rx = now;
                s.last_rx_hs = now;
                s.disc_called = false;
                s.disc_any = false;
                s.pending = false;
                s.disc_tx = None;
                s.dropped = false;
                s.generation += 1;
            }
            Ev::Receive(_) => (),
            _ => {
                if s.gr == Gr::Up {
                    s.gr = Gr::Done;
                } else if ev == Ev::Timeout {
                    s.pending = false;
                }
            }
        }
        s.events.push((now, ev.clone()));
        if m.disc && ev == Ev::Disconnect {
            // The client's disconnect(): everything Reliable must have been received by now
            let sd = self.sp[&a].disc_any;
            if let Some(p) = self.peers.iter().find(|p| p.addr == a) {
                if p.disc_called && !sd {
                    for (i, x) in p.subs[..p.disc_n].iter().enumerate() {
                        ensure!(x.mode != SendMode::Reliable || x.delivered >= 1 || x.conn != p.generation,
                            "the server sees Disconnect for {}, but Reliable packet #{} submitted before disconnect() was not delivered", a.port(), i);
                    }
                }
            }
        }
    }

    pub fn step_client(&mut self, ctx: &mut Ctx, i: usize) {
        if self.peers[i].client.is_none() {
            return;
        }
        self.set_time();
        let a = self.peers[i].addr;
        self.arrivals(ctx, a);
        let before = self.c_active(i);
        let evs: Vec<client::Event> = {
            let c = self.peers[i].client.as_mut().unwrap();
            lib(|| c.step()).collect()
        };
        let mut timed_out = false;
        for e in evs {
            let ev = match e {
                client::Event::Connect => Ev::Connect,
                client::Event::Disconnect => Ev::Disconnect,
                client::Event::Receive(d) => {
                    let (order, global) = (self.m.order, self.m.global);
                    Ev::Receive(Self::decode(&mut self.spec(a).subs, &d, order, global))
                }
                client::Event::Error(t) => match t {
                    client::ErrorType::Timeout => Ev::Timeout,
                    client::ErrorType::Version => Ev::Version,
                    client::ErrorType::Config => Ev::Config,
                    client::ErrorType::ServerFull => Ev::Full,
                },
            };
            timed_out |= ev == Ev::Timeout;
            self.client_event(ctx, i, ev);
        }
        if self.m.timeout && before {
            let p = &self.peers[i];
            let to = p.cfg.active_timeout_ms;
            let silence = (self.now - p.last_rx) / 1000;
            let hs_silence = (self.now - p.last_rx_hs) / 1000;
            if timed_out {
                ensure!(silence + 1 >= to, "client {} timed out after {} ms of silence (timeout {} ms)", a.port(), silence, to);
            }
            if self.c_active(i) {
                let exact = self.now % 1000 == 0 && p.last_rx_hs % 1000 == 0;
                ensure!(hs_silence < to.saturating_add(!exact as u64), "client {} has not timed out after {} ms of silence (timeout {} ms)", a.port(), hs_silence, to);
            }
        }
        self.collect(ctx);
        if self.flush_after {
            let c = self.peers[i].client.as_mut().unwrap();
            lib(|| c.flush());
            self.collect(ctx);
        }
    }

    fn client_event(&mut self, ctx: &mut Ctx, i: usize, ev: Ev) {
        let t = self.ms();
        let now = self.now;
        let m = self.m;
        let p = &mut self.peers[i];
        let a = p.addr;
        ctx.note(|| format!("t={}ms client {} event {:?}", t, a.port(), ev));
        ctx.observe(a.port() as u64 * 37 + match ev { Ev::Connect => 1, Ev::Disconnect => 2, Ev::Receive(i) => 100 + (i as u64 & 0xFFFF_FFFF), Ev::Timeout => 3, _ => 4 });
        if m.grammar {
            match (&ev, p.gr) {
                (_, Gr::Done) => fail(format!("client {} reports {:?} after its terminal event", a.port(), ev)),
                (Ev::Connect, Gr::Up) => fail(format!("client {} reports Connect twice", a.port())),
                (Ev::Receive(_) | Ev::Disconnect, Gr::New) => fail(format!("client {} reports {:?} without Connect", a.port(), ev)),
                _ => (),
            }
        }
        if m.handshake && ev == Ev::Connect {
            ensure!(p.saw_synack, "client {} reports Connect without having received a SYN-ACK echoing its nonce", a.port());
        }
        match ev {
            Ev::Connect => {
                p.gr = Gr::Up;
                p.last_rx = now;
                p.last_rx_hs = now;
            }
            Ev::Receive(_) => (),
            _ => p.gr = Gr::Done,
        }
        p.events.push((now, ev.clone()));
        if m.disc && ev == Ev::Disconnect && !p.disc_any {
            let s = &self.sp[&a];
            if s.disc_called {
                for (j, x) in s.subs[..s.disc_n].iter().enumerate() {
                    ensure!(x.mode != SendMode::Reliable || x.delivered >= 1 || x.conn != s.generation,
                        "client {} sees Disconnect, but Reliable packet #{} submitted before disconnect() was not delivered", a.port(), j);
                }
            }
        }
    }

    pub fn do_tick(&mut self, ctx: &mut Ctx) {
        if !self.clients_first {
            self.step_server(ctx);
        }
        for i in 0..self.peers.len() {
            self.step_client(ctx, i);
        }
        if self.clients_first {
            self.step_server(ctx);
        }
        self.tick += 1;
        self.now += self.tick_us;
        self.set_time();
        ctx.state();
    }

    pub fn do_tick_skipping(&mut self, ctx: &mut Ctx, skip_server: bool, skip_client: &dyn Fn(usize) -> bool) {
        if !self.clients_first && !skip_server {
            self.step_server(ctx);
        }
        for i in 0..self.peers.len() {
            if !skip_client(i) {
                self.step_client(ctx, i);
            }
        }
        if self.clients_first && !skip_server {
            self.step_server(ctx);
        }
        self.tick += 1;
        self.now += self.tick_us;
        self.set_time();
        ctx.state();
    }

    /// The client vanishes without a word.
    pub fn kill(&mut self, ctx: &mut Ctx, i: usize) {
        let p = &mut self.peers[i];
        ctx.note(|| format!("    client {} vanishes", p.addr.port()));
        let c = p.client.take();
        lib(|| std::mem::drop(c));
    }

    pub fn flush_client(&mut self, ctx: &mut Ctx, i: usize) {
        if let Some(c) = self.peers[i].client.as_mut() {
            lib(|| c.flush());
        }
        self.collect(ctx);
    }

    pub fn flush_server(&mut self, ctx: &mut Ctx) {
        let s = self.server.as_mut().unwrap();
        lib(|| s.flush());
        self.collect(ctx);
    }

    pub fn run_ms(&mut self, ctx: &mut Ctx, ms: u64) {
        let end = self.now + ms * 1000;
        while self.now < end {
            self.do_tick(ctx);
        }
    }

    // Application ------------------------------------------------------------------------------

    pub fn csend(&mut self, ctx: &mut Ctx, i: usize, size: usize, ch: u8, mode: SendMode) {
        let p = &mut self.peers[i];
        if p.client.is_none() {
            return;
        }
        let uid = p.subs.len() as u16;
        p.subs.push(Sub { size, ch, mode, delivered: 0, conn: p.generation });
        let d = payload(uid, ch, size);
        ctx.note(|| format!("    client {} sends #{} {:?} {}B", p.addr.port(), uid, mode, size));
        let c = p.client.as_mut().unwrap();
        lib(|| c.send(d[..].into(), ch as usize, mode));
    }

    /// Returns false if the server does not know the address.
    pub fn ssend(&mut self, ctx: &mut Ctx, a: SocketAddr, size: usize, ch: u8, mode: SendMode) -> bool {
        if !self.s_active(&a) {
            return false;
        }
        let s = self.spec(a);
        let uid = s.subs.len() as u16;
        let g = s.generation;
        s.subs.push(Sub { size, ch, mode, delivered: 0, conn: g });
        let d = payload(uid, ch, size);
        ctx.note(|| format!("    server sends #{} to {} {:?} {}B", uid, a.port(), mode, size));
        let c = self.server.as_ref().unwrap().client(&a).unwrap().clone();
        lib(|| c.borrow_mut().send(d[..].into(), ch as usize, mode));
        true
    }

    pub fn cdisc(&mut self, ctx: &mut Ctx, i: usize, now: bool) {
        let t = self.ms();
        let p = &mut self.peers[i];
        if let Some(c) = p.client.as_mut() {
            ctx.note(|| format!("t={}ms client {} disconnect{}", t, p.addr.port(), if now { "_now" } else { "" }));
            let active = c.is_active();
            if active {
                p.disc_any = true;
                // disconnect_now() overrules disconnect()
                p.disc_called = !now;
                p.disc_n = p.subs.len();
            }
            lib(|| if now { c.disconnect_now() } else { c.disconnect() });
        }
    }

    pub fn sdisc(&mut self, ctx: &mut Ctx, a: SocketAddr, now: bool) {
        let t = self.ms();
        let c = self.server.as_ref().unwrap().client(&a).cloned();
        if let Some(c) = c {
            ctx.note(|| format!("t={}ms server disconnect{} {}", t, if now { "_now" } else { "" }, a.port()));
            let active = c.borrow().is_active();
            if active {
                let s = self.spec(a);
                s.disc_any = true;
                s.disc_called = !now;
                s.disc_n = s.subs.len();
            }
            lib(|| if now { c.borrow_mut().disconnect_now() } else { c.borrow_mut().disconnect() });
        }
    }

    pub fn sdrop(&mut self, ctx: &mut Ctx, a: SocketAddr) {
        let t = self.ms();
        ctx.note(|| format!("t={}ms server drop {}", t, a.port()));
        let s = self.server.as_mut().unwrap();
        lib(|| s.drop(&a));
        let p = self.spec(a);
        if p.gr == Gr::Up {
            p.gr = Gr::Done;
        }
        p.dropped = true;
        p.nonce = None;
    }

    pub fn s_active(&self, a: &SocketAddr) -> bool {
        self.server.as_ref().unwrap().client(a).map_or(false, |c| c.borrow().is_active())
    }

    pub fn c_active(&self, i: usize) -> bool {
        self.peers[i].client.as_ref().map_or(false, |c| c.is_active())
    }

    pub fn tracked(&self) -> (usize, usize) {
        let s = self.server.as_ref().unwrap();
        let mut t = 0;
        let mut a = 0;
        for k in self.sp.keys() {
            if let Some(c) = s.client(k) {
                t += 1;
                a += c.borrow().is_active() as usize;
            }
        }
        (t, a)
    }

    fn check_limits(&self) {
        let (t, a) = self.tracked();
        let up = self.sp.values().filter(|s| s.gr == Gr::Up && !s.disc_any).count();
        ensure!(a <= self.max_active, "{} connections are active, the limit is {}", a, self.max_active);
        ensure!(up <= self.max_active, "{} addresses are connected, the limit is {}", up, self.max_active);
        ensure!(t <= self.max_total, "{} connections are tracked, the limit is {}", t, self.max_total);
    }

    /// Exchanges a Reliable packet in both directions
    pub fn echo(&mut self, ctx: &mut Ctx, i: usize, within_ms: u64) -> Result<(), String> {
        let a = self.peers[i].addr;
        let n = self.peers[i].subs.len();
        self.csend(ctx, i, 50, 3, SendMode::Reliable);
        if !self.ssend(ctx, a, 60, 4, SendMode::Reliable) {
            return Err(format!("{} is not active at the server", a.port()));
        }
        let k = self.sp[&a].subs.len() - 1;
        let end = self.now + within_ms * 1000;
        while self.now < end {
            self.do_tick(ctx);
            if self.peers[i].subs[n].delivered == 1 && self.sp[&a].subs[k].delivered == 1 {
                return Ok(());
            }
        }
        Err(format!("echo with {} failed within {} ms (client packet delivered {} times, server packet {} times)",
            a.port(), within_ms, self.peers[i].subs[n].delivered, self.sp[&a].subs[k].delivered))
    }

    /// The server's current connection with this address was completed by the client's current incarnation.
    pub fn same_connection(&self, i: usize) -> bool {
        let p = &self.peers[i];
        let s = &self.sp[&p.addr];
        p.remote_nonce.is_some() && p.remote_nonce == s.up_nonce
    }

    /// Datagrams for addresses which nobody is listening at vanish
    pub fn forget_strays(&mut self) {
        let known: Vec<SocketAddr> = self.peers.iter().map(|p| p.addr).collect();
        self.flights.retain(|f| f.p.dst == saddr() || known.contains(&f.p.dst));
    }

    pub fn in_flight(&self) -> usize {
        self.flights.len()
    }
}

pub fn scfg(max_total: usize, max_active: usize, errors: bool, ec: EndpointConfig) -> server::Config {
    server::Config { max_total_connections: max_total, max_active_connections: max_active, enable_handshake_errors: errors, endpoint_config: ec }
}
