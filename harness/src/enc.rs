//! Encoding harnesses: symbolic packet values in.
use crate::gen::{self, Lens};
use crate::sym::{self, *};
use crate::{decoder, refm};
use mqtt_packet_3_5::*;

const STRICT: u64 = 1;
const ROUND: u64 = 2;

fn judge(p: &MqttPacket, ver: u8, mode: u64) {
    let got = p.clone().encode(ver);
    let b = match got {
        Ok(b) => b,
        Err(_) => {
            check(false, "a valid packet was refused by the encoder");
            return;
        }
    };
    out(b.len() as u64);
    cover(1);
    let want = gen::seen(p, ver);
    if mode & STRICT != 0 {
        match refm::frame(&b) {
            None => check(false, "remaining length does not match the bytes that follow"),
            Some((first, body)) => {
                let r = refm::decode(first, body, ver, true);
                match r {
                    None => check(false, "encoded bytes are not a well-formed packet"),
                    Some(r) => check(r == want, "encoded bytes say something else than the packet"),
                }
            }
        }
    }
    if mode & ROUND != 0 {
        let mut d = decoder(b);
        let r = d.decode_packet(ver);
        match r {
            Ok(r) => check(r == want, "decoding the encoded packet gives another packet"),
            Err(_) => check(false, "the encoded packet cannot be decoded"),
        }
        check(!d.has_more(), "the encoded packet has trailing bytes");
    }
}

/// p0 type, p1 version, p2 entries (or payload length via p7), p3 user property
/// shape, p4.. string lengths (start, max, long one, its length), p8 presence
/// mode, p9 mode (1 strict grammar, 2 round trip), p10 payload length (PUBLISH),
/// p11 more subscription identifiers (PUBLISH)
pub fn enc() {
    let (k, ver, n, shape) = (param(0) as u8, param(1) as u8, span(2) as usize, span(3));
    let mut l = Lens::params(4);
    sym::set_mode(param(8));
    let mut p = gen::packet(k, ver, n, shape, &mut l);
    let (payload, ids) = (span(10), span(11));
    if let (MqttPacket::Publish(q), true) = (&mut p, payload > 0) {
        q.payload = big_bytes(payload as usize, 4);
    }
    if let MqttPacket::Publish(PublishPacket { properties: Some(q), .. }) = &mut p {
        // many subscription identifiers, the first and last symbolic
        for i in 0..ids as u32 {
            let k = if i == 0 || i as u64 + 1 == ids { sym::u32() } else { (i * 7919) % 2_200_000 };
            assume(k < 1 << 28);
            q.subscription_identifiers.push(k);
        }
    }
    judge(&p, ver, param(9));
}

/// p0 type, p1 version (0: any), p2 entries, p4.. string lengths, p8 presence
/// mode: any value of the Rust type; the encoder succeeds exactly for
/// representable packets, and then its bytes are the packet
pub fn any() {
    let (k, n) = (param(0) as u8, param(2) as usize);
    let ver = ver_of();
    let mut l = Lens::params(4);
    sym::set_mode(param(8));
    let p = gen::any_packet(k, n, &mut l);
    let ver2 = match &p {
        MqttPacket::Connect(c) => c.protocol_version,
        _ => ver,
    };
    let ok = gen::valid(&p, ver);
    match p.clone().encode(ver) {
        Err(_) => {
            cover(2);
            check(!ok, "a valid packet was refused by the encoder")
        }
        Ok(b) => {
            cover(1);
            check(ok, "the encoder accepted a packet that cannot be represented");
            if ok {
                match refm::frame(&b) {
                    None => check(false, "remaining length does not match the bytes that follow"),
                    Some((first, body)) => {
                        let r = refm::decode(first, body, ver2, true);
                        check(r == Some(gen::seen(&p, ver2)), "encoded bytes say something else than the packet");
                    }
                }
            }
        }
    }
}
fn ver_of() -> u8 {
    match param(1) {
        0 => sym::u8(),
        v => v as u8,
    }
}

/// p0 type, p2 entries, p3 shape, p4.. lengths, p8 presence mode: before version 5
/// nothing of MQTT 5 reaches the wire; versions below 5 give the same bytes
pub fn iso() {
    let (k, n, shape) = (param(0) as u8, param(2) as usize, param(3));
    let mut l = Lens::params(4);
    sym::set_mode(param(8));
    let mut p = if k == 9 {
        let mut s = gen::suback(n, 5, shape, &mut l);
        s.granted = gen::suback(n, 4, shape, &mut l).granted;
        MqttPacket::Suback(s)
    } else {
        gen::packet(k, 5, n, shape, &mut l)
    };
    if let MqttPacket::Connack(c) = &mut p {
        gen::drop_codes(c);
    }
    let ver = sym::u8();
    assume(ver != 5);
    if let MqttPacket::Connect(c) = &mut p {
        c.protocol_version = if sym::flip() { 3 } else { 4 };
        // what is passed to encode does not matter, the packet carries its version
        let a = p.clone().encode(ver);
        let b = p.clone().encode(5);
        check(a.is_ok() && a == b, "the version passed to encode changes a CONNECT");
    }
    let q = gen::seen(&p, ver);
    let a = p.clone().encode(ver);
    if k == 15 {
        check(a.is_err(), "AUTH before version 5");
        cover(1);
        return;
    }
    if !gen::valid(&p, ver) {
        // the topic alias an older peer does not know stands in for the topic
        check(a.is_err(), "the encoder accepted a packet that cannot be represented");
        cover(3);
        return;
    }
    check(a.is_ok(), "a valid packet was refused by the encoder");
    let mut stripped = q.clone();
    // packets that are not expressible without their MQTT 5 fields keep the plain ones
    if let (MqttPacket::Connack(s), MqttPacket::Connack(o)) = (&mut stripped, &p) {
        s.return_code = o.return_code;
    }
    let b = stripped.encode(ver);
    check(a == b, "MQTT 5 parts of a packet reach an older peer");
    if let Ok(b) = a {
        match refm::frame(&b) {
            None => check(false, "remaining length does not match the bytes that follow"),
            Some((first, body)) => {
                let v = if let MqttPacket::Connect(c) = &p { c.protocol_version } else { 4 };
                check(refm::decode(first, body, v, true) == Some(q.clone()), "not a well-formed packet for an older peer");
            }
        }
        let r = decoder(b).decode_packet(if k == 11 { 4 } else { ver });
        check(r == Ok(q), "an older peer reads another packet");
        cover(2);
    }
}

/// strings around the 65535 byte limit: p0 type, p1 version, p2 entries, p3 shape,
/// p4.. lengths with one long string, p8 presence mode, p9: 1 the long one fits, 0 it does not
pub fn long() {
    let (k, ver, n, shape) = (param(0) as u8, param(1) as u8, param(2) as usize, param(3));
    let mut l = Lens::params(4);
    sym::set_mode(param(8));
    let p = gen::packet(k, ver, n, shape, &mut l);
    if l.big >= l.i {
        // no such string in this packet
        cover(9);
        return;
    }
    if param(9) == 1 {
        judge(&p, ver, STRICT | ROUND);
        return;
    }
    cover(2);
    check(p.encode(ver).is_err(), "a string of more than 65535 bytes was encoded");
}

/// more than a packet can hold: p0 type, p1 version, p2 payload bytes
/// or topics of 65535 bytes: packets of up to the longest length are encoded and
/// read back, larger ones refused
pub fn huge() {
    let (k, ver, n) = (param(0) as u8, param(1) as u8, param(2) as usize);
    let mut l = Lens::new(1, 2);
    sym::set_mode(2);
    let mut p = gen::packet(k, ver, 1, 0, &mut l);
    let topic = unsafe { String::from_utf8_unchecked(vec![0; 65535]) };
    // remaining length besides the long part
    let (base, each) = match &mut p {
        MqttPacket::Publish(q) => {
            q.payload = vec![0; n];
            (2 + q.topic.len() + 2 * (q.qos > 0) as usize, 1)
        }
        MqttPacket::Subscribe(q) => {
            let t = Subscription { topic, qos: QoS::QoS0, nl: false, rap: false, rh: Some(0) };
            q.subscriptions = (0..n).map(|_| t.clone()).collect();
            (2, 65538)
        }
        MqttPacket::Unsubscribe(q) => {
            q.unsubscriptions = (0..n).map(|_| topic.clone()).collect();
            (2, 65537)
        }
        _ => return,
    };
    let len = base + (ver == 5) as usize + n * each;
    let got = p.clone().encode(ver);
    if len > 268_435_455 {
        cover(2);
        check(got.is_err(), "a packet too long for its remaining length was encoded");
        return;
    }
    cover(1);
    let b = match got {
        Ok(b) => b,
        Err(_) => {
            check(false, "a valid packet was refused by the encoder");
            return;
        }
    };
    let h = refm::var_bytes(len as u32);
    check(b.len() == 1 + h.len() + len && b[1..1 + h.len()] == h[..], "remaining length of a long packet");
    let mut d = decoder(b);
    let r = d.decode_packet(ver);
    let want = gen::seen(&p, ver);
    check(r == Ok(want), "a long packet is read back differently");
    check(!d.has_more(), "the encoded packet has trailing bytes");
}

/// the Packet trait used directly is the same as MqttPacket and the decoder:
/// p0 type, p1 version, p2 entries, p3 shape, p4.. lengths, p8 presence mode
pub fn direct() {
    let (k, ver, n, shape) = (param(0) as u8, param(1) as u8, param(2) as usize, param(3));
    let mut l = Lens::params(4);
    sym::set_mode(param(8));
    let p = gen::packet(k, ver, n, shape, &mut l);
    let arg = if k == 1 { sym::u8() } else { ver };
    let by_trait = match &p {
        MqttPacket::Connect(c) => c.encode(arg),
        MqttPacket::Connack(c) => c.encode(arg),
        MqttPacket::Publish(c) => c.encode(arg),
        MqttPacket::Puback(c) | MqttPacket::Pubrec(c) | MqttPacket::Pubrel(c) | MqttPacket::Pubcomp(c) => c.encode(arg),
        MqttPacket::Subscribe(c) => c.encode(arg),
        MqttPacket::Suback(c) => c.encode(arg),
        MqttPacket::Unsubscribe(c) => c.encode(arg),
        MqttPacket::Unsuback(c) => c.encode(arg),
        MqttPacket::Pingreq => PingreqPacket {}.encode(arg),
        MqttPacket::Pingresp => PingrespPacket {}.encode(arg),
        MqttPacket::Disconnect(c) => c.encode(arg),
        MqttPacket::Auth(c) => c.encode(arg),
    };
    let want = gen::seen(&p, ver);
    let b = match p.encode(arg) {
        Ok(b) => b,
        Err(_) => {
            check(false, "a valid packet was refused by the encoder");
            return;
        }
    };
    check(by_trait.as_ref() == Ok(&b), "the Packet trait encodes differently");
    let mut r = crate::misc::reader(b.clone());
    let (len, fixed) = match r.read_header() {
        Ok(x) => x,
        Err(_) => {
            check(false, "the header of an encoded packet cannot be read");
            return;
        }
    };
    check(Some(len as usize) == refm::frame(&b).map(|f| f.1.len()), "remaining length");
    check(fixed.encode() == b[0], "first byte");
    let got = match k {
        1 => ConnectPacket::decode(&mut r, fixed, len, ver).map(MqttPacket::Connect),
        2 => ConnackPacket::decode(&mut r, fixed, len, ver).map(MqttPacket::Connack),
        3 => PublishPacket::decode(&mut r, fixed, len, ver).map(MqttPacket::Publish),
        4 => ConfirmationPacket::decode(&mut r, fixed, len, ver).map(MqttPacket::Puback),
        5 => ConfirmationPacket::decode(&mut r, fixed, len, ver).map(MqttPacket::Pubrec),
        6 => ConfirmationPacket::decode(&mut r, fixed, len, ver).map(MqttPacket::Pubrel),
        7 => ConfirmationPacket::decode(&mut r, fixed, len, ver).map(MqttPacket::Pubcomp),
        8 => SubscribePacket::decode(&mut r, fixed, len, ver).map(MqttPacket::Subscribe),
        9 => SubackPacket::decode(&mut r, fixed, len, ver).map(MqttPacket::Suback),
        10 => UnsubscribePacket::decode(&mut r, fixed, len, ver).map(MqttPacket::Unsubscribe),
        11 => UnsubackPacket::decode(&mut r, fixed, len, ver).map(MqttPacket::Unsuback),
        12 => PingreqPacket::decode(&mut r, fixed, len, ver).map(|_| MqttPacket::Pingreq),
        13 => PingrespPacket::decode(&mut r, fixed, len, ver).map(|_| MqttPacket::Pingresp),
        14 => DisconnectPacket::decode(&mut r, fixed, len, ver).map(MqttPacket::Disconnect),
        _ => AuthPacket::decode(&mut r, fixed, len, ver).map(MqttPacket::Auth),
    };
    check(got == Ok(want), "the Packet trait decodes another packet");
    check(!r.has_more(), "bytes of the packet left over");
    cover(1);
}

/// a long history: p2 packets of type p0 (all with every option, contents distinct), each
/// encoded and decoded (p3 bit 0: by a decoder of its own, else all from one stream), then
/// any packet of type p1 >> 8 for version p1 & 255 (presence mode p8), p9 entries; strings of
/// the history have 1 to 6 bytes
pub fn hist() {
    let (k0, k, ver, n, how, e) = (param(0) as u8, (param(1) >> 8) as u8, param(1) as u8, span(2), param(3), param(9) as usize);
    sym::fix(true);
    let mut l = Lens::new(1, 6);
    let mut s = vec![];
    let mut want = vec![];
    for _ in 0..n {
        sym::set_mode(1);
        let p = gen::packet(k0, ver, e, how >> 4, &mut l);
        let Ok(b) = p.clone().encode(ver) else {
            check(false, "the encoder refuses a packet after many others");
            return;
        };
        let p = gen::seen(&p, ver);
        if how & 1 == 1 {
            check(decoder(b).decode_packet(ver) == Ok(p), "a packet depends on many before it");
        } else {
            s.extend_from_slice(&b);
            want.push(p);
        }
    }
    sym::fix(false);
    let mut d = decoder(s);
    for p in want {
        check(d.decode_packet(ver) == Ok(p), "a packet depends on many before it in its stream");
    }
    check(!d.has_more(), "something after the last of many packets");
    let mut l = Lens::params(4);
    sym::set_mode(param(8));
    let p = gen::packet(k, ver, e, how >> 4, &mut l);
    judge(&p, ver, STRICT | ROUND);
}
