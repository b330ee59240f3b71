//! Decoding harnesses: arbitrary or structured bytes in, compared with the
//! reference model.
use crate::gen::{self, Lens};
use crate::sym::{self, *};
use crate::{decoder, refm, wire, Feed};
use mqtt_packet_3_5::*;
use std::io::{BufReader, Read};

/// mode bits of the decode comparisons
pub const FIDELITY: u64 = 1;
pub const SYNC: u64 = 2;
pub const REENCODE: u64 = 4;

pub fn ver_param(i: u64) -> u8 {
    match param(i) {
        0 => sym::u8(),
        v => v as u8,
    }
}

/// decodes `first`+`body` followed by a PINGRESP and compares with the reference
pub fn judge(first: u8, body: &[u8], ver: u8, mode: u64) {
    let mut s = vec![first];
    s.extend_from_slice(&refm::var_bytes(body.len() as u32));
    s.extend_from_slice(body);
    s.extend_from_slice(&[0xd0, 0]);
    let mut d = decoder(s);
    check(d.has_more(), "has_more is false at the start of a packet");
    let got = d.decode_packet(ver);
    out(got.is_ok() as u64);
    if got.is_ok() {
        cover(1)
    } else {
        cover(2)
    }
    if mode & FIDELITY != 0 {
        let want = refm::decode(first, body, ver, false);
        match (&got, &want) {
            (Ok(g), Some(w)) => check(g == w, "decoded packet differs from what the bytes say"),
            (Ok(_), None) => check(false, "accepted a packet the format forbids"),
            (Err(_), Some(_)) => check(false, "refused a valid packet"),
            (Err(_), None) => {}
        }
    }
    if mode & SYNC != 0 {
        check(d.has_more(), "has_more is false before a following packet");
        let next = d.decode_packet(ver);
        check(next == Ok(MqttPacket::Pingresp), "the packet after this one is not read from its first byte");
        check(!d.has_more(), "bytes left over");
    }
    if mode & REENCODE != 0 {
        if let Ok(p) = got {
            let ok = gen::valid(&p, ver);
            let want = gen::seen(&p, ver);
            match p.encode(ver) {
                Ok(b) => {
                    cover(3);
                    check(ok, "encoded a decoded packet that cannot be represented");
                    let mut d = decoder(b);
                    let again = d.decode_packet(ver);
                    check(again == Ok(want), "decode, encode, decode changes the packet");
                    check(!d.has_more(), "the re-encoded packet has trailing bytes");
                }
                Err(_) => check(!ok, "a decoded packet cannot be encoded again"),
            }
        }
    }
}

/// p0 packet type nibble, p1 version (0: any byte), p2 body length, p3 mode,
/// p4: 1 free flag bits, 0 the usual ones
pub fn frame() {
    let (k, l, mode) = (param(0) as u8, param(2) as usize, param(3));
    let ver = ver_param(1);
    let flags = match (param(4), k) {
        (1, _) => {
            let f = sym::u8();
            assume(f < 16);
            f
        }
        (_, 3) => {
            let f = sym::u8();
            assume(f < 16 && f & 6 != 6);
            f
        }
        (_, 6 | 8 | 10) => 2,
        _ => 0,
    };
    let body = bytes(l);
    judge(k << 4 | flags, &body, ver, mode);
}

/// CONNECT: p0 version byte (256: any), p1 protocol name (0 MQTT, 1 MQIsdp, else any p1-2
/// bytes), p2 number of
/// arbitrary bytes in the property section, p3 arbitrary bytes after it, p4 mode,
/// p5: 0 arbitrary flags byte, else that byte
pub fn connect() {
    let (ver, name, np, n, mode) = (param(0) as u8, param(1), param(2) as usize, param(3) as usize, param(4));
    let any = param(0) > 255;
    let mut w = vec![];
    match name {
        0 => w.extend_from_slice(b"\0\x04MQTT"),
        1 => w.extend_from_slice(b"\0\x06MQIsdp"),
        n => {
            wire::put16(&mut w, n as u16 - 2);
            wire::raw(&mut w, n as usize - 2);
        }
    }
    w.push(if any { sym::u8() } else { ver });
    w.push(if param(5) == 0 { sym::u8() } else { param(5) as u8 });
    wire::raw(&mut w, 2);
    if !any && ver & 0x7f == 5 {
        w.extend_from_slice(&refm::var_bytes(np as u32));
        wire::raw(&mut w, np);
    }
    wire::raw(&mut w, n);
    judge(0x10, &w, 5, mode);
}

/// body built around a given property section; will properties for target 16
fn with_props(k: u64, n: usize, props: &[u8], mode: u64, l: &mut Lens) {
    let (first, w) = if k == 16 { wire::body(1, 5, n, &[], props, l) } else { wire::body(k as u8, 5, n, props, &[], l) };
    judge(first, &w, 5, mode);
}

/// p0 packet type nibble (16: will), p1 number of properties, each any allowed
/// one, p2: 1 one of them is not allowed (any other identifier), p3 mode,
/// p4.. string lengths, p8: 1 arbitrary bytes instead (p1 many)
pub fn props() {
    let (k, m, foreign, mode) = (param(0), param(1), param(2), param(3));
    let mut l = Lens::params(4);
    let mut p = vec![];
    if param(8) == 1 {
        wire::raw(&mut p, m as usize);
    } else {
        let al = wire::allowed(k as u8);
        let bad = if foreign == 1 { choose(m) } else { m };
        for i in 0..m {
            if i == bad {
                let id = sym::u8();
                for a in al {
                    assume(id != *a);
                }
                p.push(id);
                wire::raw(&mut p, 4);
            } else {
                wire::prop(&mut p, al[choose(al.len() as u64) as usize], &mut l);
            }
        }
    }
    sym::set_mode(if k == 16 { 1 } else { 2 });
    wire::plain_codes(m > 1);
    with_props(k, 1, &p, mode, &mut l);
}

/// every allowed property once: p0 target, p1 rotation, p2 1: reversed, p3 mode,
/// p4.. string lengths, p8 only the first so many (0 all), p9 only those of
/// this bit mask (0 all)
pub fn allprops() {
    let (k, rot, rev, mode) = (param(0), param(1) as usize, param(2), param(3));
    let mut l = Lens::params(4);
    let al = wire::allowed(k as u8);
    let n = if param(8) == 0 { al.len() } else { param(8) as usize };
    sym::set_mode(1);
    let mut p = vec![];
    for i in 0..n {
        let j = (i + rot) % al.len();
        let j = if rev == 1 { al.len() - 1 - j } else { j };
        if param(9) == 0 || param(9) >> j & 1 == 1 {
            wire::prop(&mut p, al[j], &mut l);
        }
    }
    with_props(k, 2, &p, mode, &mut l);
}

/// structured bodies: p0 type, p1 version, p2 entries or payload bytes, p3 mode,
/// p4.. string lengths, p8 presence mode, p9 junk bytes at the end of the frame,
/// p10 user properties in the section
pub fn wire() {
    let (k, n, mode) = (param(0) as u8, span(2) as usize, param(3));
    let ver = param(1) as u8;
    let mut l = Lens::params(4);
    sym::set_mode(param(8));
    // the paths of long packets are slow: one code is enough
    wire::plain_codes(l.len > 8000);
    let mut p = vec![];
    for _ in 0..param(10) {
        wire::prop(&mut p, 0x26, &mut l);
    }
    let (first, mut w) = wire::body(k, ver, n, &p, &p, &mut l);
    wire::raw(&mut w, param(9) as usize);
    judge(first, &w, ver, mode);
}

/// p0 stream length, p1 version (0: any), p2: 0 everything free, else the first
/// byte. The documented loop over an arbitrary byte stream, packet by packet
/// against the reference framing.
pub fn stream() {
    let n = param(0) as usize;
    let ver = ver_param(1);
    let mut s = bytes(n);
    if param(2) != 0 {
        s[0] = param(2) as u8;
    }
    let mut d = decoder(s.clone());
    let mut at = 0usize;
    let mut known = true;
    let mut steps = 0;
    while d.has_more() {
        steps += 1;
        check(steps <= n, "the documented decoding loop does not end");
        if steps > n {
            return;
        }
        let got = d.decode_packet(ver);
        if !known {
            continue;
        }
        check(at < n, "has_more at the end of the stream");
        // reference framing
        let mut len = 0usize;
        let mut used = 1;
        let mut done = false;
        let mut bad = false;
        while !done {
            if at + used >= n {
                break;
            }
            let b = s[at + used];
            len |= ((b & 0x7f) as usize) << (7 * (used - 1));
            used += 1;
            if b & 0x80 == 0 {
                done = true
            } else if used == 5 {
                bad = true;
                break;
            }
        }
        if bad {
            check(got.is_err(), "accepted a length of more than four bytes");
            known = false;
            cover(3);
        } else if !done || len > n - at - used {
            check(got.is_err(), "a packet cut off by the end of the stream was accepted");
            at = n;
            cover(4);
        } else {
            let want = refm::decode(s[at], &s[at + used..at + used + len], ver, false);
            match (got, want) {
                (Ok(g), Some(w)) => {
                    check(g == w, "decoded packet differs from what the bytes say");
                    cover(1)
                }
                (Err(_), None) => cover(2),
                (Ok(_), None) => check(false, "accepted a packet the format forbids"),
                _ => check(false, "refused a valid packet"),
            }
            at += used + len;
        }
    }
    check(!known || at >= n, "has_more is false although bytes are left");
    out(steps as u64);
}

/// p0,p1 types, p2,p3 body lengths, p4 version: two arbitrary packets in a row,
/// then a PINGREQ; each must be read as if it were alone
pub fn pair() {
    let (a, b, la, lb) = (param(0) as u8, param(1) as u8, param(2) as usize, param(3) as usize);
    let ver = ver_param(4);
    let fl = |k: u8| if k == 6 || k == 8 || k == 10 { 2 } else { 0 };
    let (fa, fb) = (a << 4 | fl(a), b << 4 | fl(b));
    let mut s = vec![fa];
    s.extend_from_slice(&refm::var_bytes(la as u32));
    let ba = bytes(la);
    s.extend_from_slice(&ba);
    s.push(fb);
    s.extend_from_slice(&refm::var_bytes(lb as u32));
    let bb = bytes(lb);
    s.extend_from_slice(&bb);
    s.extend_from_slice(&[0xc0, 0]);
    let mut d = decoder(s);
    let x = d.decode_packet(ver);
    check(d.has_more(), "has_more is false before a following packet");
    let y = d.decode_packet(ver);
    cover(x.is_ok() as u64 + 2 * y.is_ok() as u64);
    check(x.ok() == refm::decode(fa, &ba, ver, false), "first packet");
    check(y.ok() == refm::decode(fb, &bb, ver, false), "the second packet depends on the first one");
    check(d.decode_packet(ver) == Ok(MqttPacket::Pingreq), "third packet");
    check(!d.has_more(), "bytes left over");
}

/// a valid encoded packet cut anywhere: p0 type, p1 version, p2 entries, p3 user
/// property shape, p4.. string lengths, p8 presence mode
pub fn cut() {
    let (k, ver, n, shape) = (param(0) as u8, param(1) as u8, param(2) as usize, param(3));
    let mut l = Lens::params(4);
    sym::set_mode(param(8));
    let p = gen::packet(k, ver, n, shape, &mut l);
    let b = match p.encode(ver) {
        Ok(b) => b,
        Err(_) => {
            check(false, "a valid packet was refused by the encoder");
            return;
        }
    };
    let full = b.len();
    let at = if full > 200 { [1, 2, 3, full / 2, full - 1][choose(5) as usize] } else { choose(full as u64) as usize };
    let mut d = decoder(b[..at].to_vec());
    if at == 0 {
        check(!d.has_more(), "has_more on an empty stream");
    } else {
        check(d.has_more(), "has_more is false at the start of a packet");
    }
    check(d.decode_packet(ver).is_err(), "a packet cut off by the end of the stream was accepted");
    check(!d.has_more(), "has_more after a truncated packet");
    check(d.decode_packet(ver).is_err(), "a packet out of nothing");
    cover(1);
}

/// p0 type nibble, p1 version, p2 bytes that arrive, p3 memory bound (0: none),
/// p4 least length announced:
/// the header announces more bytes (up to 268435455) than arrive
pub fn short() {
    let (k, t) = (param(0) as u8, param(2) as usize);
    let ver = ver_param(1);
    let mut s = vec![k << 4 | if k == 6 || k == 8 || k == 10 { 2 } else { 0 }];
    let v = bytes(4);
    let len = (v[0] as u64 & 0x7f) | (v[1] as u64 & 0x7f) << 7 | (v[2] as u64 & 0x7f) << 14 | (v[3] as u64) << 21;
    assume(v[3] < 128);
    assume(len > t as u64 && len >= param(4));
    s.extend_from_slice(&[v[0] | 0x80, v[1] | 0x80, v[2] | 0x80, v[3]]);
    s.extend_from_slice(&if t > 32 { sym::big_bytes(t, 0) } else { bytes(t) });
    let mut d = decoder(s);
    alloc_reset();
    let got = d.decode_packet(ver);
    let peak = alloc_peak();
    if param(3) != 0 {
        check(peak <= param(3), "memory for bytes that never arrived");
    }
    check(got.is_err(), "a packet cut off by the end of the stream was accepted");
    check(!d.has_more(), "has_more after a truncated packet");
    cover(1);
}

/// p0 number of length bytes, p1 version, p2 body length: any first byte, a body
/// of arbitrary bytes, the length written with p0 bytes (not necessarily minimal)
pub fn header() {
    let (nb, bl) = (param(0) as usize, param(2) as usize);
    let ver = ver_param(1);
    let first = sym::u8();
    let body = bytes(bl);
    let mut s = vec![first];
    let mut n = bl;
    for i in 0..nb {
        let b = (n & 0x7f) as u8;
        n >>= 7;
        s.push(if i + 1 < nb { b | 0x80 } else { b });
    }
    s.extend_from_slice(&body);
    s.extend_from_slice(&[0xd0, 0]);
    let mut d = decoder(s);
    let got = d.decode_packet(ver);
    let ok = refm::header_ok(first) && first >> 4 != 0;
    if !ok {
        check(got.is_err(), "accepted a reserved packet type or reserved flag bits");
        cover(2);
    } else {
        check(got.ok() == refm::decode(first, &body, ver, false), "packet type or flags misread");
        cover(1);
    }
    check(d.decode_packet(ver) == Ok(MqttPacket::Pingresp), "the packet after this one is not read from its first byte");
}

/// delivers in pieces decided by symbolic choices; may interrupt; may fail
pub struct Chunky {
    pub data: Vec<u8>,
    pub pos: usize,
    pub choices: usize,
    pub fail_at: usize,
    pub kind: std::io::ErrorKind,
}
impl Read for Chunky {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.pos >= self.fail_at {
            return Err(std::io::Error::from(self.kind));
        }
        let mut n = buf.len().min(self.data.len() - self.pos).min(self.fail_at - self.pos);
        if n > 0 && self.choices > 0 {
            self.choices -= 1;
            match choose(4) {
                0 => return Err(std::io::Error::from(std::io::ErrorKind::Interrupted)),
                1 => n = 1,
                2 => n = n.min(2),
                _ => {}
            }
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// a decoder over r: cap 0 from_stream, else a BufReader of that capacity from
/// which `junk` bytes were already read (so that it holds buffered bytes)
fn source<R: Read>(r: R, cap: usize, junk: usize) -> PacketDecoder<R> {
    if cap == 0 {
        return PacketDecoder::from_stream(r);
    }
    let mut b = BufReader::with_capacity(cap, r);
    let mut j = vec![0; junk];
    if b.read_exact(&mut j).is_err() {
        check(false, "harness: bytes before the packet");
    }
    PacketDecoder::from_bufreader(b)
}

/// p0 type, p1 version, p2 arbitrary body bytes, p3 buffer capacity (0 default),
/// p4 delivery choices, p5: 1 a structured valid packet instead of arbitrary bytes
/// (then p6.. string lengths, p10 presence mode, p2 entries), p11 bytes already
/// read from the BufReader
pub fn chunk() {
    let (k, ver, n, cap) = (param(0) as u8, param(1) as u8, param(2) as usize, param(3) as usize);
    let (first, body) = if param(5) == 1 {
        let mut l = Lens::params(6);
        sym::set_mode(param(10));
        let mut p = vec![];
        wire::prop(&mut p, 0x26, &mut l);
        wire::body(k, ver, n, &p, &p, &mut l)
    } else {
        (k << 4 | if k == 6 || k == 8 || k == 10 { 2 } else { 0 }, bytes(n))
    };
    let mut s = vec![first];
    s.extend_from_slice(&refm::var_bytes(body.len() as u32));
    s.extend_from_slice(&body);
    s.extend_from_slice(&[0xd0, 0]);
    let one = decoder(s.clone()).decode_packet(ver);
    let junk = param(11) as usize;
    let mut s = s;
    for _ in 0..junk {
        s.insert(0, sym::u8());
    }
    let r = Chunky { data: s, pos: 0, choices: param(4) as usize, fail_at: usize::MAX, kind: std::io::ErrorKind::Other };
    let mut d = source(r, cap, junk);
    check(d.has_more(), "has_more is false although a packet arrives");
    let got = d.decode_packet(ver);
    cover(got.is_ok() as u64 + 1);
    check(one.ok() == got.ok(), "the result depends on how the bytes arrive");
    check(d.has_more(), "has_more is false before a following packet");
    let next = d.decode_packet(ver);
    check(next == Ok(MqttPacket::Pingresp), "the following packet depends on how the bytes arrive");
    check(!d.has_more(), "bytes left over");
}

/// the transport fails before the packet is complete: parameters as cut, p9 error
/// kind, p10 buffer capacity
pub fn fault() {
    let (k, ver, n, shape) = (param(0) as u8, param(1) as u8, param(2) as usize, param(3));
    let mut l = Lens::params(4);
    sym::set_mode(param(8));
    let p = gen::packet(k, ver, n, shape, &mut l);
    let b = match p.clone().encode(ver) {
        Ok(b) => b,
        Err(_) => return,
    };
    let full = b.len();
    let mut s = b;
    s.extend_from_slice(&[0xd0, 0]);
    use std::io::ErrorKind::*;
    let kind = [Other, WouldBlock, TimedOut, UnexpectedEof, ConnectionReset][param(9) as usize];
    let at = choose(full as u64 + 3) as usize;
    let r = Chunky { data: s, pos: 0, choices: 0, fail_at: at, kind };
    let mut d = source(r, param(10) as usize, 0);
    if at > 0 {
        check(d.has_more(), "has_more is false although a packet arrives");
    }
    let got = d.decode_packet(ver);
    if at < full {
        check(got.is_err(), "a packet the transport did not deliver completely was accepted");
        cover(1);
    } else {
        check(got == Ok(gen::seen(&p, ver)), "a complete packet is lost because of a later failure");
        let next = d.decode_packet(ver);
        check(next.is_ok() == (at == full + 2), "the failure is not reported by the packet it hits");
        cover(2);
    }
    // the documented loop ends on a transport that keeps failing
    let mut steps = 0;
    while d.has_more() {
        steps += 1;
        check(steps <= 4, "the documented loop does not end on a failed transport");
        if steps > 4 {
            return;
        }
        check(d.decode_packet(ver).is_err(), "a packet out of nothing");
    }
}

/// a session as documented: CONNECT decides the version of what follows.
/// p0 CONNECT version, p1,p2 following types, p3 entries, p4.. string lengths,
/// p8 presence mode, p9: 1 a malformed packet in between
pub fn session() {
    let (ver, k1, k2, n) = (param(0) as u8, param(1) as u8, param(2) as u8, param(3) as usize);
    let mut l = Lens::params(4);
    sym::set_mode(param(8));
    let mut ps = vec![gen::packet(1, ver, n, 1, &mut l)];
    ps.push(gen::packet(k1, ver, n, 1, &mut l));
    ps.push(gen::packet(k2, ver, n, 0, &mut l));
    let mut s = vec![];
    let mut want = vec![];
    for (i, p) in ps.iter().enumerate() {
        want.push(Some(gen::seen(p, ver)));
        match p.clone().encode(ver) {
            Ok(b) => s.extend_from_slice(&b),
            Err(_) => check(false, "a valid packet was refused by the encoder"),
        }
        if i == 0 && param(9) == 1 {
            // a PUBACK without packet identifier
            s.extend_from_slice(&[0x40, 1, 7]);
            want.push(None);
        }
    }
    let mut d = PacketDecoder::from_stream(Feed { data: s, pos: 0 });
    // what the documented loop starts with does not matter before the CONNECT
    let mut version = sym::u8();
    let mut i = 0;
    while d.has_more() {
        let msg = d.decode_packet(version);
        if let Ok(MqttPacket::Connect(c)) = &msg {
            version = c.protocol_version;
        }
        check(i < want.len(), "more packets than were sent");
        if i >= want.len() {
            return;
        }
        check(msg.ok() == want[i], "packet of a session");
        i += 1;
    }
    check(i == want.len(), "packets of a session are lost");
    check(version == ver, "protocol version of the CONNECT");
    cover(1);
}

/// a sequence of packets through the documented loop, each compared with the
/// reference as if it were alone: p0 their types (a hexadecimal digit each, the
/// first one lowest), p1 versions of the CONNECTs among them likewise, p2 which
/// have symbolic contents (bit mask, the others fixed ones), p3 what is wrong with
/// each (a digit: 0 nothing, 1 last byte missing, 2 foreign property after a user
/// property, 3 reserved flag bits, 4 reserved type, 5 two more bytes, 6 two
/// arbitrary bytes in the property section, 7 no body, 8 no property section),
/// p4.. string lengths, p8 presence mode, p9 entries, p10 version at first (0: any)
pub fn seq() {
    let (mut types, mut vers, free, mut wrong) = (param(0), param(1), param(2), param(3));
    let mut l = Lens::params(4);
    let mut version = ver_param(10);
    let mut ver = version;
    let mut s = vec![];
    let mut want = vec![];
    let mut n = 0;
    while types != 0 {
        let k = (types & 15) as u8;
        let bad = wrong & 15;
        types >>= 4;
        wrong >>= 4;
        let sym = free >> n & 1 == 1;
        n += 1;
        sym::fix(!sym);
        sym::set_mode(param(8));
        wire::plain_codes(!sym);
        let v = if k == 1 {
            let v = (vers & 15) as u8;
            vers >>= 4;
            v
        } else {
            ver
        };
        let mut p = vec![];
        if bad != 8 {
            wire::prop(&mut p, 0x26, &mut l);
        }
        if bad == 2 {
            p.push(0x7f);
        }
        if bad == 6 {
            wire::raw(&mut p, 2);
        }
        // a version that is not fixed has no say in the layout
        let (mut first, mut body) = wire::body(k, if v == 3 || v == 4 { v } else { 5 }, param(9) as usize, &p, &p, &mut l);
        match bad {
            1 => {
                body.pop();
            }
            3 => first ^= 1,
            4 => first &= 15,
            5 => wire::raw(&mut body, 2),
            7 => body.clear(),
            _ => {}
        }
        s.push(first);
        s.extend_from_slice(&refm::var_bytes(body.len() as u32));
        s.extend_from_slice(&body);
        let w = refm::decode(first, &body, ver, false);
        if let Some(MqttPacket::Connect(c)) = &w {
            ver = c.protocol_version
        }
        want.push(w);
    }
    sym::fix(false);
    let mut d = decoder(s);
    let mut i = 0;
    let mut good = 0;
    while d.has_more() {
        let msg = d.decode_packet(version);
        if let Ok(MqttPacket::Connect(c)) = &msg {
            version = c.protocol_version;
        }
        check(i < want.len(), "more packets than were sent");
        if i >= want.len() {
            return;
        }
        good += msg.is_ok() as u64;
        check(msg.ok() == want[i], "a packet depends on those before it");
        i += 1;
    }
    check(i == want.len(), "packets of a sequence are lost");
    out(good);
    cover(if good == n { 1 } else { 2 });
}

/// packets with property sections one after the other: p0 types (nibbles, lowest
/// first), p1 version, p2/p3 masks of the properties of every other packet (0: all,
/// bit 62: none), p4..p7 string lengths of the first, third.., p8 start and maximum of
/// the others' (16 * start + maximum), p9 1: a decoder of its own for each, p10 list
/// entries or payload bytes, p11 presence mode
pub fn twice() {
    let (mut types, ver, fresh, n) = (param(0), param(1) as u8, param(9) == 1, param(10) as usize);
    let mut a = Lens::params(4);
    let mut b = Lens::new((param(8) >> 4) as usize, (param(8) & 15) as usize);
    sym::set_mode(param(11));
    wire::plain_codes(true);
    let mut s = vec![];
    let mut want = vec![];
    let mut parts = vec![];
    let mut i = 0;
    while types != 0 {
        let k = (types & 15) as u8;
        types >>= 4;
        let (l, mask) = if i & 1 == 0 { (&mut a, param(2)) } else { (&mut b, param(3)) };
        i += 1;
        let list = |t: u8, l: &mut Lens| {
            let mut p = vec![];
            for (j, id) in wire::allowed(t).iter().enumerate() {
                if mask == 0 || mask >> j & 1 == 1 {
                    wire::prop(&mut p, *id, l);
                }
            }
            p
        };
        let has = ver == 5 && k != 12 && k != 13;
        let p = if has { list(k, l) } else { vec![] };
        let w = if has && k == 1 { list(16, l) } else { vec![] };
        let (first, body) = wire::body(k, ver, n, &p, &w, l);
        let mut one = vec![first];
        one.extend_from_slice(&refm::var_bytes(body.len() as u32));
        one.extend_from_slice(&body);
        want.push(refm::decode(first, &body, ver, false));
        s.extend_from_slice(&one);
        parts.push(one);
    }
    let mut d = decoder(s);
    let mut good = 0;
    for (w, one) in want.iter().zip(parts) {
        let got = if fresh {
            decoder(one).decode_packet(ver)
        } else {
            check(d.has_more(), "has_more is false before a packet");
            d.decode_packet(ver)
        };
        good += got.is_ok() as usize;
        check(got.as_ref().ok() == w.as_ref(), "a packet depends on those before it");
    }
    if !fresh {
        check(!d.has_more(), "bytes left over");
    }
    out(good as u64);
    cover(if good == i { 1 } else { 2 });
}

/// delivered in pieces
struct Pieces {
    data: Vec<u8>,
    pos: usize,
    ends: Vec<usize>,
    interrupt: bool,
    fail: Option<std::io::ErrorKind>,
    eof: bool,
}
impl Read for Pieces {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let mut n = buf.len().min(self.data.len() - self.pos);
        if let Some(&e) = self.ends.first() {
            if self.pos == e {
                if self.eof {
                    return Ok(0);
                }
                if let Some(k) = self.fail {
                    return Err(std::io::Error::from(k));
                }
                self.ends.remove(0);
                if self.interrupt {
                    return Err(std::io::Error::from(std::io::ErrorKind::Interrupted));
                }
                return self.read(buf);
            }
            n = n.min(e - self.pos);
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// a packet delivered in three pieces: p0 type, p1 version, p2 length of the first
/// piece and p3 of the second (spans), p4.. string lengths, p8 presence mode, p9
/// entries or payload bytes, p10 buffer capacity (0: the default), p11: 1 reads are
/// interrupted between the pieces, 2 + k: the transport fails after the first piece, 7: the stream ends there
pub fn split() {
    let (k, ver, a, b) = (param(0) as u8, param(1) as u8, span(2) as usize, span(3) as usize);
    let mut l = Lens::params(4);
    sym::set_mode(param(8));
    let n = param(9) as usize;
    wire::plain_codes(l.len > 8000 || n > 8000);
    let mut p = vec![];
    if ver == 5 {
        wire::prop(&mut p, 0x26, &mut l);
    }
    let (first, body) = wire::body(k, ver, n, &p, &p, &mut l);
    let want = refm::decode(first, &body, ver, false);
    let mut s = vec![first];
    s.extend_from_slice(&refm::var_bytes(body.len() as u32));
    s.extend_from_slice(&body);
    let full = s.len();
    s.extend_from_slice(&[0xd0, 0]);
    if a > s.len() {
        return;
    }
    use std::io::ErrorKind::*;
    let eof = param(11) == 7;
    let fail = if param(11) < 2 || eof { None } else { Some([Other, WouldBlock, TimedOut, UnexpectedEof, ConnectionReset][param(11) as usize - 2]) };
    let r = Pieces { data: s, pos: 0, ends: vec![a, a + b], interrupt: param(11) == 1, fail, eof };
    let mut d = source(r, param(10) as usize, 0);
    if fail.is_some() || eof {
        check(d.has_more() == (a > 0), "has_more when the transport fails");
        let got = d.decode_packet(ver);
        if a < full {
            cover(2);
            check(got.is_err(), "a packet from half of its bytes");
            check(!d.has_more(), "has_more is true although nothing more can arrive");
        } else {
            cover(1);
            check(got.ok() == want, "a complete packet is lost because the transport fails later");
        }
        return;
    }
    check(d.has_more(), "has_more is false although a packet arrives");
    let got = d.decode_packet(ver);
    cover(got.is_ok() as u64 + 1);
    check(got.ok() == want, "the result depends on how the bytes arrive");
    check(d.has_more(), "has_more is false before a following packet");
    let next = d.decode_packet(ver);
    check(next == Ok(MqttPacket::Pingresp), "the following packet depends on how the bytes arrive");
    check(!d.has_more(), "bytes left over");
}

/// far into a stream: p0 type and p1 version of the packet under study (every
/// content), p2 payload length of a PUBLISH before it (a span; 0: none), p3 how many
/// small packets, some of them malformed, come before that, p4.. string lengths, p8
/// presence mode, p9 entries, p10 capacity of the buffer (0: the default)
pub fn later() {
    let (k, ver, filler, small) = (param(0) as u8, param(1) as u8, span(2) as usize, span(3) as usize);
    let mut l = Lens::params(4);
    let mut s = vec![];
    let kind = |i: usize| if i % 100 < 50 { i % 6 } else { 2 + i % 3 };
    for i in 0..small {
        let (hi, lo) = ((i >> 8) as u8, i as u8);
        // in the second half of each hundred all are malformed
        match kind(i) {
            0 => s.extend_from_slice(&[0x40, 2, hi, lo]),
            1 => s.extend_from_slice(&[0xC0, 0]),
            2 => s.extend_from_slice(&[0x41, 3, hi, lo, 0]),
            3 => s.extend_from_slice(&[0x62, 1, lo]),
            4 if ver == 5 => s.extend_from_slice(&[0x50, 13, hi, lo, 0x10, 9, 0x26, 0, 1, b'a', 0, 1, b'b', 0x7f, 0]),
            4 => s.extend_from_slice(&[0x50, 1, lo]),
            _ => s.extend_from_slice(&[0xD0, 0]),
        }
    }
    if filler > 0 {
        s.push(0x30);
        s.extend_from_slice(&refm::var_bytes((3 + (ver == 5) as usize + filler) as u32));
        s.extend_from_slice(&[0, 1, b't', 0][..3 + (ver == 5) as usize]);
        s.extend_from_slice(&sym::big_bytes(filler, 0));
    }
    sym::set_mode(param(8));
    wire::plain_codes(filler > 8000 || small > 100);
    let mut p = vec![];
    if ver == 5 {
        wire::prop(&mut p, 0x26, &mut l);
    }
    let (first, body) = wire::body(k, ver, param(9) as usize, &p, &p, &mut l);
    let want = refm::decode(first, &body, ver, false);
    let next = if let Some(MqttPacket::Connect(c)) = &want { c.protocol_version } else { ver };
    s.push(first);
    s.extend_from_slice(&refm::var_bytes(body.len() as u32));
    s.extend_from_slice(&body);
    s.extend_from_slice(&[0x40, 2, 7, 9]);
    let mut d = match param(10) as usize {
        0 => decoder(s),
        c => PacketDecoder::from_bufreader(BufReader::with_capacity(c, Feed { data: s, pos: 0 })),
    };
    for i in 0..small {
        check(d.has_more(), "packets after a malformed one are lost");
        let r = d.decode_packet(ver);
        match (kind(i), r) {
            (0, Ok(MqttPacket::Puback(q))) => check(q.message_id == i as u16, "packet identifier far into a stream"),
            (1, Ok(MqttPacket::Pingreq)) | (5, Ok(MqttPacket::Pingresp)) => {}
            (2 | 3 | 4, Err(_)) => {}
            _ => check(false, "packet far into a stream"),
        }
    }
    if filler > 0 {
        check(d.has_more(), "a long packet is lost");
        match d.decode_packet(ver) {
            Ok(MqttPacket::Publish(q)) => check(q.payload == sym::big_bytes(filler, 0), "payload"),
            _ => check(false, "a long packet is refused"),
        }
    }
    check(d.has_more(), "the packet is lost");
    let got = d.decode_packet(ver);
    out(got.is_ok() as u64);
    cover(if got.is_ok() { 1 } else { 2 });
    check(got.ok() == want, "packet depends on its place in the stream");
    check(d.has_more(), "the last packet is lost");
    match d.decode_packet(next) {
        Ok(MqttPacket::Puback(q)) => check(q.message_id == 0x0709, "last packet identifier"),
        _ => check(false, "the last packet"),
    }
    check(!d.has_more(), "something after the end");
}

/// user properties with long names that differ in one place: p0 target (16 will), p1
/// length of the names (a span), p2 where they may differ (a span, from the end), p3
/// mode. Three pairs; the second and third name have an arbitrary character there
/// (which may be equal), values are arbitrary.
pub fn keys() {
    let (k, n, at, mode) = (param(0), span(1) as usize, span(2) as usize, param(3));
    if at >= n {
        return;
    }
    let mut p = vec![];
    for i in 0..3 {
        let mut name = sym::big_bytes(n, 0);
        if i > 0 {
            name[n - 1 - at] = sym::u8();
        }
        p.push(0x26);
        wire::put16(&mut p, n as u16);
        p.extend_from_slice(&name);
        wire::put16(&mut p, 1);
        wire::raw(&mut p, 1);
    }
    sym::set_mode(if k == 16 { 1 } else { 2 });
    wire::plain_codes(true);
    with_props(k, 1, &p, mode, &mut Lens::new(1, 2));
}

/// many properties: p0 target (16 will), p1 user properties, p2 how many different
/// names, p3 mode, p4 subscription identifiers, p5: 1 user properties after the
/// others and interleaved with them, p6: a long name and value of that many bytes
/// first, p7: the values between are that long, p8: 1 no name is symbolic. The first and
/// last pair and identifier are symbolic.
pub fn many() {
    let (k, n, names, mode) = (param(0), span(1) as usize, param(2) as usize, param(3));
    let ids = span(4) as usize;
    let mut p = vec![];
    let id = |p: &mut Vec<u8>, i: usize| {
        p.push(0x0b);
        if i == 0 || i + 1 == ids {
            wire::var(p)
        } else {
            p.extend_from_slice(&refm::var_bytes((i as u32 * 7919) % 2_200_000))
        }
    };
    let text = |p: &mut Vec<u8>, b: &[u8]| {
        wire::put16(p, b.len() as u16);
        p.extend_from_slice(b);
    };
    if param(5) == 0 {
        for i in 0..ids {
            id(&mut p, i)
        }
    }
    for i in 0..n {
        p.push(0x26);
        if i == 0 || i + 1 == n {
            let m = if i == 0 { param(6) as usize } else { 0 };
            if m > 0 {
                text(&mut p, &sym::big_bytes(m, 2));
                text(&mut p, &sym::big_bytes(m, 2));
            } else {
                if param(8) == 1 {
                    text(&mut p, b"zz")
                } else {
                    text(&mut p, &bytes(1))
                }
                text(&mut p, &bytes(1));
            }
        } else {
            text(&mut p, &[b'a' + (i % names) as u8 % 26, b'a' + ((i % names) / 26) as u8][..1 + (i % names > 25) as usize]);
            if param(7) > 0 {
                text(&mut p, &vec![b'0' + (i % 10) as u8; param(7) as usize])
            } else {
                text(&mut p, &[b'0' + (i % 10) as u8, b'0' + (i / 10 % 10) as u8][..i % 3])
            }
        }
        if param(5) == 1 && i < ids {
            id(&mut p, i)
        }
    }
    if param(5) == 1 {
        for i in n.min(ids)..ids {
            id(&mut p, i)
        }
    }
    sym::set_mode(if k == 16 { 1 } else { 2 });
    wire::plain_codes(true);
    with_props(k, 1, &p, mode, &mut Lens::new(1, 2));
}
