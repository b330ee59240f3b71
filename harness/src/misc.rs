//! Primitive building blocks of the wire format.
use crate::gen::{self, Lens};
use crate::refm;
use crate::sym::{self, *};
use crate::Feed;
use mqtt_packet_3_5::byte_reader::ByteReader;
use mqtt_packet_3_5::mqtt_writer::MqttWriter;
use mqtt_packet_3_5::*;
use std::io::BufReader;

pub fn reader(data: Vec<u8>) -> ByteReader<Feed> {
    ByteReader::new(BufReader::new(Feed { data, pos: 0 }))
}

/// p0: 0 every value up to 268435455, 1 every larger one
pub fn varint() {
    let n = sym::u32();
    let mut w = MqttWriter::new(0);
    if param(0) == 1 {
        assume(n > 268_435_455);
        check(w.write_variable_num(n).is_err(), "a variable byte integer above the maximum was written");
        cover(1);
        return;
    }
    assume(n <= 268_435_455);
    let e = MqttWriter::encode_variable_num(n);
    let want = refm::var_bytes(n);
    check(e == want, "variable byte integer encoding");
    check(w.write_variable_num(n).is_ok(), "a variable byte integer in range was refused");
    w.write_u8(0xa5);
    let mut b = w.into_vec();
    check(b.len() == want.len() + 1 && b[..want.len()] == want[..], "variable byte integer written differently");
    b.push(0x5a);
    let mut r = reader(b);
    check(r.read_variable_int() == Ok(n), "variable byte integer read back differently");
    check(r.read_u8() == Ok(0xa5), "variable byte integer consumes the wrong number of bytes");
    check(r.read_u8() == Ok(0x5a), "variable byte integer consumes the wrong number of bytes");
    cover(want.len() as u64);
}

/// p0 arbitrary bytes to read a variable byte integer from, p1 limit in bytes (0 none)
pub fn varread() {
    let n = param(0) as usize;
    let b = bytes(n);
    let lim = param(1) as usize;
    let seen = if lim > 0 && lim < n { &b[..lim] } else { &b[..] };
    let mut c = refm::Cur::new(seen, false);
    let want = c.var();
    let mut r = reader(b.clone());
    if lim > 0 {
        r.take(lim as u32);
    }
    let got = r.read_variable_int();
    check(got.as_ref().ok() == want.as_ref(), "variable byte integer misread");
    if want.is_some() {
        cover(1);
        if c.left() > 0 {
            check(r.read_u8() == Ok(b[c.i]), "variable byte integer consumes the wrong number of bytes");
        } else {
            check(!r.has_more(), "variable byte integer consumes the wrong number of bytes");
        }
    } else {
        cover(2);
    }
}

fn code<T: MqttCode<T> + PartialEq + Clone>(b: u8, want: Option<T>) {
    match (T::from_byte(b), want) {
        (Ok(g), Some(w)) => {
            check(g == w, "reason code byte decoded to another code");
            check(w.to_byte() == b, "reason code written as another byte");
            cover(1)
        }
        (Err(_), None) => cover(2),
        (Ok(_), None) => check(false, "a byte that is no reason code was accepted"),
        _ => check(false, "a reason code was refused"),
    }
}
/// p0 which table; every byte value
pub fn codes() {
    let b = sym::u8();
    match param(0) {
        0 => code(b, refm::puback_code(b)),
        1 => code(b, refm::pubcomp_code(b)),
        2 => code(b, refm::suback_code(b)),
        3 => code(b, refm::unsuback_code(b)),
        4 => code(b, refm::disconnect_code(b)),
        5 => code(b, refm::auth_code(b)),
        6 => match (QoS::from_byte(b), refm::qos(b)) {
            (Ok(g), Some(w)) => {
                check(g == w && w.to_byte() == b, "QoS byte");
                cover(1)
            }
            (Err(_), None) => cover(2),
            _ => check(false, "QoS byte accepted or refused wrongly"),
        },
        7 => match (Granted::from_byte(b), refm::granted(b)) {
            (Ok(g), Some(w)) => {
                check(g == w && w.to_byte() == b, "granted QoS byte");
                cover(1)
            }
            (Err(_), None) => cover(2),
            _ => check(false, "granted QoS byte accepted or refused wrongly"),
        },
        9 => {
            let mut r = reader(vec![b, 7]);
            check(r.read_bool_byte() == Ok(b != 0), "boolean byte");
            check(r.read_u8() == Ok(7), "byte after a boolean");
            cover(1)
        }
        _ => {
            use PacketType::*;
            let t = PacketType::from_bits(b);
            let want = match b {
                1 => Connect,
                2 => Connack,
                3 => Publish,
                4 => Puback,
                5 => Pubrec,
                6 => Pubrel,
                7 => Pubcomp,
                8 => Subscribe,
                9 => Suback,
                10 => Unsubscribe,
                11 => Unsuback,
                12 => Pingreq,
                13 => Pingresp,
                14 => Disconnect,
                15 => Auth,
                _ => Reserved,
            };
            check(t == want, "packet type number");
            cover(1)
        }
    }
}

/// every first byte
pub fn fixed() {
    let b = sym::u8();
    let want = refm::header_ok(b);
    match FixedHeader::from_byte(b) {
        Err(_) => {
            check(!want, "a legal first byte was refused");
            cover(2)
        }
        Ok(h) => {
            check(want, "reserved flag bits were accepted");
            check(h.cmd == PacketType::from_bits(b >> 4), "packet type");
            check(h.dup == (b & 8 != 0) && h.qos == (b >> 1) & 3 && h.retain == (b & 1 != 0), "flags");
            check(h.encode() == b, "first byte changes when written again");
            let t = FixedHeader::for_type(h.cmd);
            check(t.cmd == h.cmd && !t.dup && t.qos == 0 && !t.retain, "header of a packet type");
            if h.cmd != PacketType::Publish {
                check(t.encode() == b, "first byte of a packet type");
            } else {
                check(t.encode() == 0x30, "first byte of a packet type");
            }
            cover(1)
        }
    }
}

/// every connect flags byte
pub fn flags() {
    let b = sym::u8();
    let q = (b >> 3) & 3;
    let will = b & 4 != 0;
    let f = ConnectFlags::new(b);
    check(
        f.user_name == (b & 0x80 != 0)
            && f.password == (b & 0x40 != 0)
            && f.will_retain == (b & 0x20 != 0)
            && f.will_qos == q
            && f.will == will
            && f.clean_session == (b & 2 != 0),
        "connect flags of a byte",
    );
    let ok = b & 1 == 0 && q < 3 && (will || (q == 0 && b & 0x20 == 0));
    match ConnectFlags::from_byte(b) {
        Err(_) => {
            check(!ok, "legal connect flags were refused");
            cover(2)
        }
        Ok((f, w)) => {
            check(ok, "illegal connect flags were accepted");
            check(
                f.user_name == (b & 0x80 != 0)
                    && f.password == (b & 0x40 != 0)
                    && f.will_retain == (b & 0x20 != 0)
                    && f.will_qos == q
                    && f.will == will
                    && f.clean_session == (b & 2 != 0),
                "connect flags misread",
            );
            check(w.is_some() == will, "will flag");
            if let Some(w) = w {
                check(w.qos == q && w.retain == (b & 0x20 != 0), "will QoS or retain");
            }
            cover(1)
        }
    }
}
use mqtt_packet_3_5::connect::ConnectFlags;

/// p0 which constructor: confirmation packets, SUBACK, defaults
pub fn make() {
    let id = sym::u16();
    let mut l = Lens::new(1, 2);
    // none, without contents, with some
    sym::set_mode(0);
    let props = gen::ack_props(param(1), &mut l);
    use ConfirmationPacket as C;
    let k = param(0);
    cover(1);
    match k {
        0..=3 => {
            let (p, cmd) = match k {
                0 => (C::puback_v3(id), PacketType::Puback),
                1 => (C::pubrec_v3(id), PacketType::Pubrec),
                2 => (C::pubrel_v3(id), PacketType::Pubrel),
                _ => (C::pubcomp_v3(id), PacketType::Pubcomp),
            };
            check(p == C { cmd, message_id: id, properties: None, puback_reason_code: None, pubcomp_reason_code: None }, "v3 constructor");
            let b = gen::wrap_ack(p).encode(if sym::bool() { 3 } else { 4 });
            check(b == Ok(vec![(k as u8 + 4) << 4 | if k == 2 { 2 } else { 0 }, 2, (id >> 8) as u8, id as u8]), "v3 confirmation bytes");
        }
        4..=7 => {
            let (mut a, mut c) = (None, None);
            if k < 6 {
                a = refm::puback_code(gen::ACK_CODES[choose(9) as usize])
            } else {
                c = refm::pubcomp_code([0, 0x92][choose(2) as usize])
            }
            let (p, cmd) = match k {
                4 => (C::puback_v5(id, a.clone().unwrap(), props.clone()), PacketType::Puback),
                5 => (C::pubrec_v5(id, a.clone().unwrap(), props.clone()), PacketType::Pubrec),
                6 => (C::pubrel_v5(id, c.clone().unwrap(), props.clone()), PacketType::Pubrel),
                _ => (C::pubcomp_v5(id, c.clone().unwrap(), props.clone()), PacketType::Pubcomp),
            };
            check(p == C { cmd, message_id: id, properties: props, puback_reason_code: a, pubcomp_reason_code: c }, "v5 constructor");
            let p = gen::wrap_ack(p);
            let want = gen::seen(&p, 5);
            match p.encode(5) {
                Ok(b) => match refm::frame(&b) {
                    Some((f, body)) => {
                        check(f == (k as u8) << 4 | if k == 6 { 2 } else { 0 }, "first byte");
                        check(refm::decode(f, body, 5, true) == Some(want), "v5 confirmation bytes")
                    }
                    None => check(false, "v5 confirmation frame"),
                },
                Err(_) => check(false, "a constructed confirmation was refused by the encoder"),
            }
        }
        8 => {
            let n = choose(4);
            let g: Vec<Granted> = (0..n).map(|_| refm::granted([0, 1, 2, 0x80][choose(4) as usize]).unwrap()).collect();
            let p = SubackPacket::new_v3(id, g.clone());
            check(p == SubackPacket { message_id: id, granted: g, granted_reason_codes: vec![], properties: None, reason_code: None }, "SUBACK constructor");
        }
        _ => {
            let d = ConnectProperties::default();
            check(
                d == ConnectProperties {
                    session_expiry_interval: 0,
                    receive_maximum: 65535,
                    maximum_packet_size: None,
                    topic_alias_maximum: 0,
                    request_response_information: false,
                    request_problem_information: true,
                    user_properties: UserProperties::new(),
                    authentication_method: None,
                    authentication_data: None,
                },
                "CONNECT property defaults",
            );
            let d = ConnackProperties::default();
            check(
                d.is_default
                    && d.session_expiry_interval == 0
                    && d.receive_maximum == 65535
                    && d.maximum_packet_size.is_none()
                    && d.topic_alias_maximum == 0
                    && d.maximum_qos == 2
                    && d.retain_available
                    && d.wildcard_subscription_available
                    && d.subscription_identifiers_available
                    && d.shared_subscription_available
                    && d.user_properties.is_empty()
                    && d.assigned_client_identifier.is_none()
                    && d.server_keep_alive.is_none()
                    && d.reason_string.is_none()
                    && d.server_reference.is_none()
                    && d.response_information.is_none()
                    && d.authentication_method.is_none()
                    && d.authentication_data.is_none(),
                "CONNACK property defaults",
            );
            let d = WillProperties::default();
            check(
                !d.payload_format_indicator
                    && d.message_expiry_interval.is_none()
                    && d.content_type.is_none()
                    && d.response_topic.is_none()
                    && d.correlation_data.is_empty()
                    && d.will_delay_interval == 0
                    && d.user_properties.is_empty(),
                "will property defaults",
            );
            check(ConnackPacket::default() == ConnackPacket { return_code: None, reason_code: None, session_present: false, properties: None }, "CONNACK default");
        }
    }
}

enum V {
    B(u8),
    W(u16),
    D(u32),
    N(u32),
    S(String),
    Bin(Vec<u8>),
    Raw(Vec<u8>),
}
/// p0 operations, p1.. string lengths, p5 initial capacity, p6 1: only lengths vary:
/// what is written with the writer's primitives is read back with the reader's
pub fn prim() {
    let m = param(0);
    let mut l = Lens::params(1);
    let mut w = MqttWriter::new(param(5) as usize);
    let mut ops = vec![];
    let mut bytes_ref = vec![];
    for _ in 0..m {
        let v = match if param(6) > 0 { param(6) } else { choose(7) } {
            0 => V::B(sym::u8()),
            1 => V::W(sym::u16()),
            2 => V::D(sym::u32()),
            3 => {
                let n = sym::u32();
                assume(n <= 268_435_455);
                V::N(n)
            }
            4 => V::S(l.s()),
            5 => V::Bin(l.b()),
            _ => V::Raw(l.b()),
        };
        let ok = match &v {
            V::B(b) => {
                w.write_u8(*b);
                bytes_ref.push(*b);
                true
            }
            V::W(n) => {
                w.write_u16(*n);
                bytes_ref.extend_from_slice(&n.to_be_bytes());
                check(MqttWriter::encode_multibyte_num(*n as u32) == n.to_be_bytes().to_vec(), "two byte integer");
                true
            }
            V::D(n) => {
                w.write_u32(*n);
                bytes_ref.extend_from_slice(&n.to_be_bytes());
                true
            }
            V::N(n) => {
                bytes_ref.extend_from_slice(&refm::var_bytes(*n));
                w.write_variable_num(*n).is_ok()
            }
            V::S(s) => {
                bytes_ref.extend_from_slice(&(s.len() as u16).to_be_bytes());
                bytes_ref.extend_from_slice(s.as_bytes());
                if sym::bool() {
                    w.write_utf8_str(s).is_ok()
                } else {
                    w.write_utf8_string(s.clone()).is_ok()
                }
            }
            V::Bin(s) => {
                bytes_ref.extend_from_slice(&(s.len() as u16).to_be_bytes());
                bytes_ref.extend_from_slice(s);
                if sym::bool() {
                    w.write_binary_ref(s).is_ok()
                } else {
                    w.write_binary(s.clone()).is_ok()
                }
            }
            V::Raw(s) => {
                bytes_ref.extend_from_slice(s);
                if sym::bool() {
                    w.write_slice(s)
                } else {
                    w.write_vec(s.clone())
                }
                true
            }
        };
        check(ok, "a writer primitive refused a value in range");
        ops.push(v);
    }
    let b = w.into_vec();
    check(b == bytes_ref, "bytes written by the primitives");
    let mut r = reader(b);
    for v in ops {
        let ok = match v {
            V::B(b) => r.read_u8() == Ok(b),
            V::W(n) => r.read_u16() == Ok(n),
            V::D(n) => r.read_u32() == Ok(n),
            V::N(n) => r.read_variable_int() == Ok(n),
            V::S(s) => r.read_utf8_string() == Ok(s),
            V::Bin(s) => r.read_binary() == Ok(s),
            V::Raw(s) => r.read_len(s.len() as u32) == Ok(s),
        };
        check(ok, "a primitive value read back differently");
    }
    check(!r.has_more(), "bytes left over");
    cover(1);
}

/// p0 identifier of a property (any of the 27), p1.. string lengths, p5 1: also
/// a second property: what write_properties writes, read_properties reads
pub fn propio() {
    let id = param(0) as u8;
    let mut l = Lens::params(1);
    let mut w = MqttWriter::new(0);
    let mut inner = MqttWriter::new(8);
    let u8v = sym::u8();
    let u32v = sym::u32();
    let mut map = UserProperties::new();
    let (s, b) = (l.s(), l.b());
    let two = gen::user(2, &mut l);
    let by_ref = sym::bool();
    let p = match id {
        0x02 | 0x11 | 0x18 | 0x27 => PropType::U32(u32v),
        0x01 | 0x17 | 0x19 | 0x25 | 0x28 | 0x29 | 0x2A => PropType::Bool(u8v & 1 == 1),
        0x13 | 0x21 | 0x22 | 0x23 => PropType::U16(u32v as u16),
        0x24 => PropType::U8(u8v),
        0x0B => {
            assume(u32v <= 268_435_455);
            PropType::VarInt(u32v)
        }
        0x09 => {
            if by_ref {
                PropType::BinaryRef(&b)
            } else {
                PropType::Binary(b.clone())
            }
        }
        0x26 => {
            map = two.clone();
            if by_ref {
                PropType::MapRef(&two)
            } else {
                PropType::Map(two.clone())
            }
        }
        _ => {
            if by_ref {
                PropType::Str(&s)
            } else {
                PropType::String(s.clone())
            }
        }
    };
    let mut list = vec![(id, p)];
    if param(5) == 1 {
        list.push((0x11, PropType::U32(7)));
    }
    check(inner.write_properties(list).is_ok(), "properties refused");
    let inner = inner.into_vec();
    check(w.write_variable_num(inner.len() as u32).is_ok(), "property length");
    w.write_vec(inner);
    w.write_u8(0x77);
    let b2 = w.into_vec();
    let mut r = reader(b2);
    let got = r.read_properties();
    let got = match got {
        Ok(Some(g)) => g,
        _ => {
            check(false, "written properties cannot be read");
            return;
        }
    };
    check(got.len() == 1 + param(5) as usize, "number of properties");
    let mut found = false;
    for (i, v) in got {
        if i != id {
            check(i == 0x11, "property identifier");
            continue;
        }
        let ok = match v {
            PropType::U32(v) => v == u32v || (param(5) == 1 && id == 0x11 && v == 7),
            PropType::Bool(v) => v == (u8v & 1 == 1),
            PropType::U16(v) => v == u32v as u16,
            PropType::U8(v) => v == u8v,
            PropType::VarInt(v) => v == u32v,
            PropType::Binary(v) => v == b,
            PropType::String(v) => v == s,
            PropType::Map(v) => v == map,
            _ => false,
        };
        check(ok, "property value read back differently");
        found = true;
    }
    check(found, "property lost");
    check(r.read_u8() == Ok(0x77), "byte after the properties");
    cover(1);
}
