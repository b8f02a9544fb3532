//! C16, and an independent reading of the wire format.
use super::Check;
use crate::alloc::lib;
use crate::ensure;
use crate::explore::{fail, Ctx, Scenario};
use uflow::verif::frame::*;

/// Bitwise CRC-32 with polynomial 0x132c00699 (reflected), as documented.
pub fn crc32(data: &[u8]) -> u32 {
    let mut r = !0u32;
    for b in data {
        r ^= *b as u32;
        for _ in 0..8 {
            r = if r & 1 != 0 { (r >> 1) ^ 0x9960_034C } else { r >> 1 };
        }
    }
    !r
}

fn table() -> &'static [u32; 256] {
    static T: std::sync::OnceLock<[u32; 256]> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut t = [0u32; 256];
        for i in 0..256u32 {
            let mut r = i;
            for _ in 0..8 {
                r = if r & 1 != 0 { (r >> 1) ^ 0x9960_034C } else { r >> 1 };
            }
            t[i as usize] = r;
        }
        t
    })
}

fn crc_fast(data: &[u8]) -> u32 {
    let t = table();
    let mut r = !0u32;
    for b in data {
        r = (r >> 8) ^ t[(r as u8 ^ *b) as usize];
    }
    !r
}

/// Appends the checksum which the format prescribes
pub fn seal(body: &[u8]) -> Vec<u8> {
    let mut v = body.to_vec();
    v.extend_from_slice(&crc_fast(body).to_be_bytes());
    v
}

/// What the format says about a byte string
#[derive(Debug, PartialEq)]
pub enum Verdict {
    Reject,
    Accept(Frame),
    /// Not what a writer would produce, although unambiguous: either answer will do
    Either(Frame),
}

struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.0.len() < n {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
    fn be(&mut self, n: usize) -> Option<u32> {
        Some(self.take(n)?.iter().fold(0u32, |a, b| a << 8 | *b as u32))
    }
}

fn ref_body(b: &[u8]) -> Option<(Frame, bool)> {
    let mut r = Rd(&b[1..]);
    let mut canon = true;
    let f = match b[0] {
        0 => {
            if b.len() != 1468 {
                return None;
            }
            let f = HandshakeSynFrame { version: r.be(1)? as u8, nonce: r.be(4)?, max_receive_rate: r.be(4)?, max_packet_size: r.be(4)?, max_receive_alloc: r.be(4)? };
            canon = r.0.iter().all(|x| *x == 0);
            r.0 = &[];
            Frame::HandshakeSynFrame(f)
        }
        1 => Frame::HandshakeSynAckFrame(HandshakeSynAckFrame { nonce_ack: r.be(4)?, nonce: r.be(4)?, max_receive_rate: r.be(4)?, max_packet_size: r.be(4)?, max_receive_alloc: r.be(4)? }),
        2 => Frame::HandshakeAckFrame(HandshakeAckFrame { nonce_ack: r.be(4)? }),
        3 => {
            let nonce_ack = r.be(4)?;
            let error = match r.be(1)? {
                0 => HandshakeErrorType::Version,
                1 => HandshakeErrorType::Config,
                2 => HandshakeErrorType::ServerFull,
                _ => return None,
            };
            Frame::HandshakeErrorFrame(HandshakeErrorFrame { nonce_ack, error })
        }
        4 => Frame::DisconnectFrame(DisconnectFrame {}),
        5 => Frame::DisconnectAckFrame(DisconnectAckFrame {}),
        10 => {
            let sequence_id = r.be(4)?;
            let h = r.be(1)?;
            let mut datagrams = vec![];
            for _ in 0..h & 0x7F {
                let k = r.be(1)?;
                let d = if k & 0x80 == 0 {
                    let x = r.be(4)?;
                    let hh = r.be(1)?;
                    let (b1, b23, b4) = (x >> 24, x >> 8 & 0xFFFF, x & 0xFF);
                    Datagram {
                        channel_id: ((b1 & 0x0F) | (k & 0x40) >> 2 | (b4 & 0x80) >> 2) as u8,
                        sequence_id: (b1 >> 4) << 16 | b23,
                        window_parent_lead: (b4 & 0x7F) as u16,
                        channel_parent_lead: hh as u16,
                        fragment_id: 0,
                        fragment_id_last: 0,
                        data: r.take((k & 0x3F) as usize)?.into(),
                    }
                } else {
                    let large = k & 0x40 != 0;
                    let len = r.be(if large { 2 } else { 1 })? as usize;
                    let seq = r.be(3)?;
                    canon &= seq < 1 << 20;
                    let (w, c) = (r.be(2)? as u16, r.be(2)? as u16);
                    let (f, l) = if large { (r.be(2)? as u16, r.be(2)? as u16) } else { (0, 0) };
                    canon &= f <= l && if large { l > 0 || len >= 256 } else { !(len < 64 && w < 128 && c < 256) };
                    Datagram {
                        channel_id: (k & 0x3F) as u8,
                        sequence_id: seq & 0xFFFFF,
                        window_parent_lead: w,
                        channel_parent_lead: c,
                        fragment_id: f,
                        fragment_id_last: l,
                        data: r.take(len)?.into(),
                    }
                };
                datagrams.push(d);
            }
            Frame::DataFrame(DataFrame { sequence_id, nonce: h & 0x80 != 0, datagrams })
        }
        11 => {
            let m = r.be(1)?;
            let (f, p) = (r.be(4)?, r.be(4)?);
            canon = m < 4 && (m & 1 != 0 || f == 0) && (m & 2 != 0 || p == 0);
            Frame::SyncFrame(SyncFrame { next_frame_id: (m & 1 != 0).then_some(f), next_packet_id: (m & 2 != 0).then_some(p) })
        }
        12 => {
            let (f, p, n) = (r.be(4)?, r.be(4)?, r.be(2)?);
            let mut v = vec![];
            for _ in 0..n {
                let (base_id, bitfield, x) = (r.be(4)?, r.be(4)?, r.be(1)?);
                canon &= x < 2;
                v.push(AckGroup { base_id, bitfield, nonce: x != 0 });
            }
            Frame::AckFrame(AckFrame { frame_window_base_id: f, packet_window_base_id: p, frame_acks: v })
        }
        _ => return None,
    };
    if !r.0.is_empty() {
        return None;
    }
    Some((f, canon))
}

/// An independent reading of a byte string
pub fn verdict(b: &[u8]) -> Verdict {
    if b.len() < 5 {
        return Verdict::Reject;
    }
    let (body, c) = b.split_at(b.len() - 4);
    if crc_fast(body).to_be_bytes() != c[..] {
        return Verdict::Reject;
    }
    match ref_body(body) {
        None => Verdict::Reject,
        Some((f, true)) => Verdict::Accept(f),
        Some((f, false)) => Verdict::Either(f),
    }
}

fn hex(b: &[u8]) -> String {
    let s: String = b.iter().take(64).map(|x| format!("{:02x}", x)).collect();
    if b.len() > 64 { format!("{}.. ({} bytes)", s, b.len()) } else { s }
}

fn compare(ctx: &mut Ctx, b: &[u8]) {
    ctx.step();
    ctx.extra_execs += 1;
    let got = lib(|| Frame::read(b));
    match (verdict(b), got) {
        (Verdict::Reject, Some(f)) => fail(format!("{} is not a well-formed frame, but is parsed as {:?}", hex(b), f)),
        (Verdict::Accept(f), None) => fail(format!("{} is well-formed ({:?}), but is rejected", hex(b), f)),
        (Verdict::Accept(f), Some(g)) | (Verdict::Either(f), Some(g)) => ensure!(f == g, "{} is parsed as {:?}, but means {:?}", hex(b), g, f),
        _ => (),
    }
}

/// Body with the checksum of the implementation's choice, which only `sealed` frames of its own reveal
fn roundtrip(ctx: &mut Ctx, f: &Frame) {
    ctx.step();
    ctx.extra_execs += 1;
    let b = lib(|| f.write());
    match lib(|| Frame::read(&b)) {
        None => fail(format!("{:?} is written as {}, which is rejected", f, hex(&b))),
        Some(g) => ensure!(g == *f, "{:?} becomes {:?}", f, g),
    }
}

const U32S: [u32; 16] = [0, 1, 0xFF, 0x100, 0xFFFF, 0x10000, 0xF_FFFF, 0x10_0000, 0xFF_FFFF, 0x100_0000, 0x7FFF_FFFF, 0x8000_0000, 0x0102_0304, 0xA5C3_7E18, 0xFFFF_FFFE, u32::MAX];
const SEQS: [u32; 9] = [0, 1, 0xFF, 0x100, 0xFFFF, 0x10000, 0x5A5A5, 0xFFFFE, 0xFFFFF];
const LEADS: [u16; 11] = [0, 1, 63, 64, 127, 128, 255, 256, 4096, 32768, 65535];
const LENS: [usize; 14] = [0, 1, 2, 62, 63, 64, 65, 254, 255, 256, 257, 1447, 1448, 65535];
const FRAGS: [(u16, u16); 9] = [(0, 0), (0, 1), (1, 1), (0, 255), (255, 256), (256, 300), (0, 65535), (65534, 65535), (65535, 65535)];

fn bytes(n: usize, salt: usize) -> Box<[u8]> {
    (0..n).map(|i| (i * 167 + salt * 59 + (i >> 8) * 13 + 7) as u8).collect()
}

fn dg(ch: u8, seq: u32, w: u16, c: u16, f: (u16, u16), len: usize) -> Datagram {
    Datagram { channel_id: ch, sequence_id: seq, window_parent_lead: w, channel_parent_lead: c, fragment_id: f.0, fragment_id_last: f.1, data: bytes(len, seq as usize) }
}

fn data(id: u32, nonce: bool, d: Vec<Datagram>) -> Frame {
    Frame::DataFrame(DataFrame { sequence_id: id, nonce, datagrams: d })
}

/// Frames of every type, short ones first
fn corpus() -> Vec<(&'static str, Frame)> {
    vec![
        ("disconnect", Frame::DisconnectFrame(DisconnectFrame {})),
        ("disconnect_ack", Frame::DisconnectAckFrame(DisconnectAckFrame {})),
        ("hs_ack", Frame::HandshakeAckFrame(HandshakeAckFrame { nonce_ack: 0xA5C3_7E18 })),
        ("hs_error", Frame::HandshakeErrorFrame(HandshakeErrorFrame { nonce_ack: 0x1234_5678, error: HandshakeErrorType::ServerFull })),
        ("data0", data(0x8001_0203, true, vec![])),
        ("sync", Frame::SyncFrame(SyncFrame { next_frame_id: Some(0xFFFF_FFFE), next_packet_id: Some(0x000F_FFFF) })),
        ("ack0", Frame::AckFrame(AckFrame { frame_window_base_id: 7, packet_window_base_id: 0xFFFFF, frame_acks: vec![] })),
        ("micro", data(5, false, vec![dg(0x35, 0xABCDE, 100, 200, (0, 0), 3)])),
        ("small", data(6, true, vec![dg(17, 0x12345, 128, 256, (0, 0), 1)])),
        ("ack1", Frame::AckFrame(AckFrame { frame_window_base_id: 7, packet_window_base_id: 0xFFFFF, frame_acks: vec![AckGroup { base_id: 9, bitfield: 0x8000_0001, nonce: true }] })),
        ("syn_ack", Frame::HandshakeSynAckFrame(HandshakeSynAckFrame { nonce_ack: 1, nonce: u32::MAX, max_receive_rate: 0x0100_0000, max_packet_size: 0xFFFF, max_receive_alloc: 0x8000_0000 })),
        ("large", data(7, false, vec![dg(63, 0xFFFFF, 65535, 65535, (3, 4), 2)])),
        ("three", data(8, true, vec![dg(1, 1, 0, 0, (0, 0), 0), dg(2, 2, 0, 300, (0, 0), 2), dg(3, 3, 1, 1, (0, 1), 1)])),
        ("ack4", Frame::AckFrame(AckFrame { frame_window_base_id: 7, packet_window_base_id: 3, frame_acks: (0..4).map(|i| AckGroup { base_id: i * 32, bitfield: u32::MAX >> i, nonce: i % 2 == 0 }).collect() })),
        ("ack161", Frame::AckFrame(AckFrame { frame_window_base_id: 7, packet_window_base_id: 3, frame_acks: (0..161).map(|i| AckGroup { base_id: i * 32, bitfield: u32::MAX >> (i % 32), nonce: i % 3 == 0 }).collect() })),
        ("full", data(9, false, vec![dg(5, 77, 1, 1, (0, 1), 1448)])),
        ("mixed", data(10, true, (0..40).map(|i| dg(i as u8, i * 1000, (i * 7) as u16, (i * 13) as u16, if i % 3 == 0 { (0, 1) } else { (0, 0) }, i as usize % 21)).collect())),
        ("micro127", data(11, true, (0..127).map(|i| dg(i as u8 % 64, i, 0, 1, (0, 0), 5)).collect())),
        ("syn", Frame::HandshakeSynFrame(HandshakeSynFrame { version: 3, nonce: 0xA5C3_7E18, max_receive_rate: u32::MAX, max_packet_size: 1, max_receive_alloc: 0x8000 })),
    ]
}

fn wire(f: &Frame) -> Vec<u8> {
    lib(|| f.write()).into_vec()
}

fn rejected(ctx: &mut Ctx, b: &[u8], flips: &[usize]) {
    ctx.step();
    ctx.extra_execs += 1;
    if let Some(f) = lib(|| Frame::read(b)) {
        fail(format!("{} with bits {:?} flipped is accepted as {:?}", hex(b), flips, f));
    }
}

fn flip(b: &mut [u8], i: usize) {
    b[i / 8] ^= 0x80 >> (i % 8)
}

fn flips(ctx: &mut Ctx, b: &mut Vec<u8>, i: usize, depth: usize) {
    let n = b.len() * 8;
    flip(b, i);
    rejected(ctx, b, &[i]);
    if depth >= 2 {
        for j in i + 1..n {
            flip(b, j);
            rejected(ctx, b, &[i, j]);
            if depth >= 3 {
                for k in j + 1..n {
                    flip(b, k);
                    rejected(ctx, b, &[i, j, k]);
                    if depth >= 4 {
                        for l in k + 1..n {
                            flip(b, l);
                            rejected(ctx, b, &[i, j, k, l]);
                            flip(b, l);
                        }
                    }
                    flip(b, k);
                }
            }
            flip(b, j);
        }
    }
    flip(b, i);
}

fn crc_of(b: &[u8]) -> u32 {
    u32::from_be_bytes(b[b.len() - 4..].try_into().unwrap())
}

fn witness(ctx: &mut Ctx, b0: &[u8], bits: &[usize]) {
    let mut b = b0.to_vec();
    for i in bits {
        flip(&mut b, *i);
    }
    rejected(ctx, &b, bits);
}

/// No combination of up to four flips goes unnoticed in a frame of 1472 bytes: the effect of each bit on
/// the checksum is measured on the implementation, and all pairs of bits are combined.
fn syndromes(ctx: &mut Ctx) {
    let zero = data(9, false, vec![Datagram { data: vec![0u8; 1448].into(), ..dg(5, 77, 1, 1, (0, 1), 0) }]);
    let b0 = wire(&zero);
    ensure!(b0.len() == 1472, "a fragment of 1448 bytes makes a frame of {} bytes", b0.len());
    let at = b0.len() - 4 - 1448;
    let Frame::DataFrame(mut f) = zero else { unreachable!() };
    let c0 = crc_of(&b0);
    // Measured effect of every payload bit, and agreement on every value of every payload byte
    let mut s = vec![0u32; 1472 * 8];
    let reference = |i: usize| {
        let mut e = vec![0u8; 1468];
        flip(&mut e, i);
        crc_fast(&e) ^ crc_fast(&vec![0u8; 1468])
    };
    let mut same = c0 == crc_fast(&b0[..1468]);
    for p in 0..1448 {
        for bit in 0..8 {
            f.datagrams[0].data[p] = 0x80 >> bit;
            s[(at + p) * 8 + bit] = crc_of(&wire(&Frame::DataFrame(f.clone()))) ^ c0;
        }
        ctx.heartbeat();
        for v in 0..=255u8 {
            f.datagrams[0].data[p] = v;
            let want = (0..8).filter(|b| v & 0x80 >> b != 0).fold(c0, |c, b| c ^ s[(at + p) * 8 + b]);
            let b = wire(&Frame::DataFrame(f.clone()));
            ensure!(crc_of(&b) == want, "the checksum is not linear: byte {} = {:02x} gives {:08x}, its bits alone give {:08x}", at + p, v, crc_of(&b), want);
            ctx.extra_execs += 1;
        }
        f.datagrams[0].data[p] = 0;
    }
    for i in at * 8..1468 * 8 {
        same &= s[i] == reference(i);
    }
    let mut first = at * 8;
    if same {
        // The documented checksum, so the header is known, too
        for i in 0..at * 8 {
            s[i] = reference(i);
        }
        first = 0;
    }
    for i in 0..32 {
        s[1468 * 8 + i] = 0x8000_0000 >> i;
    }
    let mut map = vec![0u64; 1 << 26];
    let mut pairs = 0u64;
    let mut hits = vec![];
    for i in first..s.len() {
        if s[i] == 0 {
            witness(ctx, &b0, &[i]);
        }
        map[(s[i] >> 6) as usize] |= 1 << (s[i] & 63);
    }
    for i in first..s.len() {
        for j in i + 1..s.len() {
            let x = s[i] ^ s[j];
            let w = &mut map[(x >> 6) as usize];
            let m = 1u64 << (x & 63);
            if *w & m != 0 || x == 0 {
                hits.push((i, j, x));
            }
            *w |= m;
            pairs += 1;
        }
        if i % 64 == 0 {
            ctx.heartbeat();
        }
        if hits.len() > 1000 {
            break;
        }
    }
    ctx.extra_execs += pairs;
    for (i, j, x) in hits.iter() {
        if *x == 0 {
            witness(ctx, &b0, &[*i, *j]);
        }
        for k in first..s.len() {
            if s[k] == *x && k != *i && k != *j {
                witness(ctx, &b0, &[*i, *j, k]);
            }
        }
        for k in first..s.len() {
            for l in k + 1..s.len() {
                if s[k] ^ s[l] == *x && (k, l) != (*i, *j) {
                    witness(ctx, &b0, &[*i, *j, k, l]);
                }
            }
        }
        ctx.heartbeat();
    }
    ctx.state();
    ctx.note(|| format!("{} pairs of bits, documented polynomial: {}", pairs, same));
}

/// Byte strings close to well-formed frames, each passed to `judge`
pub fn parsing(c: &mut Check, thorough: bool, pairs: bool, judge: fn(&mut Ctx, &[u8])) {
    // Parsing
    c.add(Scenario::new("parse/short", 0, move |ctx| {
        let t = ctx.choose_free(256) as u8;
        judge(ctx, &[]);
        judge(ctx, &[t]);
        judge(ctx, &seal(&[t]));
        for n in 0..5 {
            judge(ctx, &[t; 4][..n.min(4)]);
        }
        for a in 0..=255u8 {
            judge(ctx, &seal(&[t, a]));
            for b in 0..=255u8 {
                judge(ctx, &seal(&[t, a, b]));
            }
        }
        // Every length, every type
        for n in 3..=1480usize {
            for fill in [0u8, 1, 0x40, 0x80, 0xC0, 0xFF] {
                let mut v = vec![fill; n];
                v[0] = t;
                judge(ctx, &seal(&v));
            }
        }
        ctx.state();
    }));
    let n = corpus().len();
    c.add(Scenario::new("parse/mutate", 0, move |ctx| {
        let i = ctx.choose_free(n);
        let f = corpus().swap_remove(i).1;
        let w = wire(&f);
        ensure!(verdict(&w) == Verdict::Accept(f.clone()), "{:?} is written as {}", f, hex(&w));
        let body = &w[..w.len() - 4];
        // Wrong length
        for k in 1..=body.len() {
            judge(ctx, &seal(&body[..k]));
        }
        for tail in [0u8, 1, 0x80, 0xC0, 0xFF] {
            let mut v = body.to_vec();
            for _ in 0..24 {
                v.push(tail);
                judge(ctx, &seal(&v));
            }
        }
        // One missing or doubled byte anywhere
        for k in 1..body.len() {
            let mut v = body.to_vec();
            v.remove(k);
            judge(ctx, &seal(&v));
            let mut v = body.to_vec();
            v.insert(k, body[k]);
            judge(ctx, &seal(&v));
        }
        ctx.heartbeat();
        for k in 0..body.len() {
            let mut v = body.to_vec();
            for x in 0..=255u8 {
                v[k] = x;
                judge(ctx, &seal(&v));
            }
            ctx.heartbeat();
        }
        ctx.state();
    }));
    if pairs { c.add(Scenario::new("parse/pairs", 0, move |ctx| {
        let i = ctx.choose_free(n);
        let f = corpus().swap_remove(i).1;
        let w = wire(&f);
        let body = &w[..w.len() - 4];
        let lim = if thorough { 200 } else { 40 };
        let p = ctx.choose_free(body.len().min(lim));
        let vals = [0u8, 1, 2, 3, 4, 9, 10, 11, 12, 0x1F, 0x3F, 0x40, 0x41, 0x7F, 0x80, 0x81, 0xBF, 0xC0, 0xFE, 0xFF];
        for q in p + 1..body.len().min(lim) {
            let mut v = body.to_vec();
            for a in vals {
                v[p] = a;
                for b in vals {
                    v[q] = b;
                    judge(ctx, &seal(&v));
                }
            }
            ctx.heartbeat();
        }
        ctx.state();
    })); }
    c.add(Scenario::new("parse/counts", 0, move |ctx| {
        // Declared number of datagrams or groups against the actual one, headers cut anywhere
        let kinds = ctx.choose_free(81);
        let heads: Vec<usize> = (0..4).map(|i| kinds / 3usize.pow(i) % 3).collect();
        for actual in 0..=4usize {
            let mut body = vec![10, 1, 2, 3, 4, 0];
            let mut cuts = vec![];
            for k in heads[..actual].iter() {
                let d: &[u8] = match k {
                    0 => &[0x42, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 7, 8],
                    1 => &[0x85, 1, 0x0F, 0xFF, 0xFF, 0x80, 0, 1, 0, 9],
                    _ => &[0xFF, 0, 2, 0, 0, 1, 0, 0, 0, 0, 0, 1, 0, 2, 5, 6],
                };
                cuts.push(body.len());
                body.extend_from_slice(d);
            }
            for declared in 0..=127u8 {
                for nonce in [0, 0x80] {
                    let mut v = body.clone();
                    v[5] = declared | nonce;
                    judge(ctx, &seal(&v));
                }
            }
            for k in 6..=body.len() {
                for declared in 0..=5u8 {
                    let mut v = body[..k].to_vec();
                    v[5] = declared;
                    judge(ctx, &seal(&v));
                }
            }
            // Every declared length
            for at in cuts {
                for len in 0..=255u8 {
                    let mut v = body.clone();
                    v[5] = actual as u8;
                    match v[at] >> 6 {
                        0 | 1 => v[at] = v[at] & 0xC0 | len & 0x3F,
                        2 => v[at + 1] = len,
                        _ => v[at + 1 + (len & 1) as usize] = len,
                    }
                    judge(ctx, &seal(&v));
                    v.extend_from_slice(&[0; 70]);
                    judge(ctx, &seal(&v));
                }
            }
        }
        for actual in 0..=6usize {
            for declared in (0..=10u16).chain([127, 128, 161, 162, 255, 256, 257, 512, 0x7FFF, 0x8000, 0xFFFF]) {
                for extra in 0..=9 {
                    let mut v = vec![12, 0, 0, 0, 1, 0, 0, 0, 2];
                    v.extend_from_slice(&declared.to_be_bytes());
                    v.resize(11 + actual * 9 + extra, 1);
                    judge(ctx, &seal(&v));
                }
            }
        }
        ctx.state();
    }));
}

pub fn c16(thorough: bool) -> Check {
    let mut c = Check::new(if thorough { 800 } else { 120 }, format!(
        "round trips: every combination of boundary values of the fields of every frame type (16 u32 values per field of the handshake frames, all 64 channels x 9 ids x 11 x 11 leads x 9 fragment pairs x 14 lengths of datagrams, 0..127 datagrams, 0..200 and 65535 ack groups); parsing compared with an independent parser on all byte strings of up to 3 bytes before the checksum, every single byte value and every pair of boundary values at {} of frames of every type, truncations and extensions at every length, declared against actual counts and lengths; flips: every combination of up to 4 in frames of up to {} bytes, every flip in frames of every length 10..1472, every pair {} in 1472-byte frames, and every combination of up to 4 in 1472-byte frames by pairwise comparison of the measured effects of all 11776 bits",
        if thorough { "any two positions" } else { "any two of the first 40 positions" }, if thorough { 41 } else { 25 }, if thorough { "whatsoever" } else { "up to 64 bits apart" }));
    c.assumptions = vec!["the checksum's linearity is established on all 256 values of every payload byte of a 1472-byte frame; the combination of measured effects rests on it"];
    // Round trips
    c.add(Scenario::new("roundtrip/handshake", 0, |ctx| {
        let a = ctx.choose_of(&U32S);
        let b = ctx.choose_of(&U32S);
        for version in [0, 1, 2, 3, 127, 128, 255] {
            for x in U32S {
                for y in U32S {
                    for z in U32S {
                        if version == 3 || z == a {
                            roundtrip(ctx, &Frame::HandshakeSynAckFrame(HandshakeSynAckFrame { nonce_ack: a, nonce: b, max_receive_rate: x, max_packet_size: y, max_receive_alloc: z }));
                        }
                        if y == b || z == b {
                            roundtrip(ctx, &Frame::HandshakeSynFrame(HandshakeSynFrame { version, nonce: a, max_receive_rate: x, max_packet_size: y, max_receive_alloc: z }));
                        }
                    }
                }
            }
        }
        ctx.state();
    }));
    c.add(Scenario::new("roundtrip/other", 0, |ctx| {
        let a = ctx.choose_of(&U32S);
        roundtrip(ctx, &Frame::DisconnectFrame(DisconnectFrame {}));
        roundtrip(ctx, &Frame::DisconnectAckFrame(DisconnectAckFrame {}));
        roundtrip(ctx, &Frame::HandshakeAckFrame(HandshakeAckFrame { nonce_ack: a }));
        for error in [HandshakeErrorType::Version, HandshakeErrorType::Config, HandshakeErrorType::ServerFull] {
            roundtrip(ctx, &Frame::HandshakeErrorFrame(HandshakeErrorFrame { nonce_ack: a, error }));
        }
        for b in U32S {
            for (f, p) in [(Some(a), Some(b)), (None, Some(b)), (Some(a), None), (None, None)] {
                roundtrip(ctx, &Frame::SyncFrame(SyncFrame { next_frame_id: f, next_packet_id: p }));
            }
            for x in U32S {
                for y in U32S {
                    for nonce in [false, true] {
                        roundtrip(ctx, &Frame::AckFrame(AckFrame { frame_window_base_id: a, packet_window_base_id: b, frame_acks: vec![AckGroup { base_id: x, bitfield: y, nonce }] }));
                    }
                }
            }
        }
        for n in (0..=200u32).chain([255, 256, 257, 65534, 65535]) {
            roundtrip(ctx, &Frame::AckFrame(AckFrame { frame_window_base_id: a, packet_window_base_id: n, frame_acks: (0..n).map(|i| AckGroup { base_id: a.wrapping_add(i * 32), bitfield: a ^ i, nonce: i % 2 == 1 }).collect() }));
        }
        ctx.state();
    }));
    c.add(Scenario::new("roundtrip/datagram", 0, move |ctx| {
        let ch = ctx.choose_free(64) as u8;
        let full = thorough || [0, 15, 16, 31, 32, 47, 48, 63].contains(&ch);
        for len in LENS {
            if len == 65535 && ch % 16 != 0 || !full && ![0, 63, 64, 255, 256].contains(&len) {
                continue;
            }
            for seq in SEQS {
                if len > 1448 && seq % 256 != 255 || !full && seq % 256 != 255 {
                    continue;
                }
                for f in FRAGS {
                    for w in LEADS {
                        if len > 256 && w != 0 && w != 65535 {
                            continue;
                        }
                        for c in LEADS {
                            if len > 256 && c != 1 && c != 256 {
                                continue;
                            }
                            roundtrip(ctx, &data(U32S[(c % 16) as usize], c % 3 == 0, vec![dg(ch, seq, w, c, f, len)]));
                        }
                    }
                }
            }
            ctx.heartbeat();
        }
        ctx.state();
    }));
    c.add(Scenario::new("roundtrip/frames", 0, |ctx| {
        let id = ctx.choose_of(&U32S);
        let nonce = ctx.choose_free(2) == 1;
        for n in 0..=127u32 {
            for k in 0..6usize {
                let d = (0..n).map(|i| match (i as usize + k) % if k < 3 { 3 } else { k } {
                    0 => dg(i as u8 % 64, i, 1, 1, (0, 0), i as usize % 64),
                    1 => dg(i as u8 % 64, 0xFFFFF - i, 128, 1, (0, 0), i as usize % 5),
                    2 => dg(63, i * 256, 0, 0, (i as u16, 200), i as usize % 3),
                    _ => dg(i as u8 % 64, i, 0, 0, (0, 0), 0),
                }).collect();
                roundtrip(ctx, &data(id, nonce, d));
            }
        }
        ctx.state();
    }));
    parsing(&mut c, thorough, true, compare);
    // Flips
    for (name, f) in corpus() {
        let len = wire(&f).len();
        let depth = match len {
            0..=25 => 4,
            26..=41 => if thorough { 4 } else { 3 },
            42..=60 => if thorough { 3 } else { 2 },
            _ => 1,
        };
        if depth > 1 {
            c.add(Scenario::new(format!("flips/{}", name), 0, move |ctx| {
                let mut b = wire(&f);
                let i = ctx.choose_free(b.len() * 8);
                flips(ctx, &mut b, i, depth);
                ctx.state();
            }));
        } else {
            c.add(Scenario::new(format!("flips/{}", name), 0, move |ctx| {
                let mut b = wire(&f);
                let n = b.len() * 8;
                let all = thorough && b.len() == 1472;
                let k = ctx.choose_free(b.len());
                for i in k * 8..k * 8 + 8 {
                    flip(&mut b, i);
                    rejected(ctx, &b, &[i]);
                    for j in i + 1..n.min(if all { n } else { i + 65 }) {
                        flip(&mut b, j);
                        rejected(ctx, &b, &[i, j]);
                        flip(&mut b, j);
                    }
                    ctx.heartbeat();
                    flip(&mut b, i);
                }
                ctx.state();
            }));
        }
    }
    c.add(Scenario::new("flips/lengths", 0, move |ctx| {
        let k = ctx.choose_free(if thorough { 1449 } else { 725 });
        for len in if thorough { vec![k] } else { vec![2 * k, (2 * k + 1).min(1448)] } {
            let mut b = wire(&data(3, len % 2 == 0, vec![dg(1, 2, 0, 0, if len > 64 { (0, 1) } else { (0, 0) }, len)]));
            for i in 0..b.len() * 8 {
                flip(&mut b, i);
                rejected(ctx, &b, &[i]);
                flip(&mut b, i);
            }
        }
        ctx.state();
    }));
    c.add(Scenario::new("flips/syndromes", 0, syndromes));
    c
}
