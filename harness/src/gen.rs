//! Symbolic packet values: shapes (presence of options, list lengths, string
//! lengths) are forked, contents are symbolic.
use crate::refm;
use crate::sym;
use mqtt_packet_3_5::*;
use std::collections::HashMap;

/// deterministic small string lengths, varied by a shard parameter; string
/// number `big` has length `len` instead
pub struct Lens {
    pub k: usize,
    pub max: usize,
    pub i: usize,
    pub big: usize,
    pub len: usize,
}
impl Lens {
    pub fn new(k: usize, max: usize) -> Lens {
        Lens { k, max, i: 0, big: usize::MAX, len: 0 }
    }
    pub fn big(k: usize, max: usize, big: usize, len: usize) -> Lens {
        Lens { k, max, i: 0, big, len }
    }
    /// from shard parameters at .. at+4: start, max, index of the long one (0: none) and its
    /// length (may be a span)
    pub fn params(at: u64) -> Lens {
        let b = sym::param(at + 2) as usize;
        let n = sym::span(at + 3) as usize;
        // with bit 39 all bytes of long strings are arbitrary ASCII, with bit 38 they
        // repeat two arbitrary ASCII characters
        sym::ascii(n >> 38);
        Lens::big(sym::param(at) as usize, sym::param(at + 1) as usize, b.wrapping_sub(1), n & ((1 << 38) - 1))
    }
    pub fn next(&mut self) -> usize {
        let i = self.i;
        self.i += 1;
        if i == self.big {
            self.len
        } else {
            (self.k + i) % (self.max + 1)
        }
    }
    pub fn skip(&mut self) {
        self.i += 1
    }
    pub fn s(&mut self) -> String {
        let n = self.next();
        if n > 32 {
            sym::big_string(n, 2)
        } else {
            sym::string(n)
        }
    }
    /// never empty
    pub fn s1(&mut self) -> String {
        let n = self.next().max(1);
        if n > 32 {
            sym::big_string(n, 2)
        } else {
            sym::string(n)
        }
    }
    pub fn b(&mut self) -> Vec<u8> {
        let n = self.next();
        if n > 32 {
            sym::big_bytes(n, 2)
        } else {
            sym::bytes(n)
        }
    }
    pub fn os(&mut self) -> Option<String> {
        if sym::flip() {
            Some(self.s())
        } else {
            self.skip();
            None
        }
    }
}

pub fn ou32() -> Option<u32> {
    if sym::flip() {
        Some(sym::u32())
    } else {
        None
    }
}
pub fn ou16() -> Option<u16> {
    if sym::flip() {
        Some(sym::u16())
    } else {
        None
    }
}

/// shape 0: empty, 1: one pair, 2: one key twice, 3: two keys, 4: key without
/// values, 5: key without values plus one pair, 6: two keys, the first three times,
/// 100 + n: one key n times and n more keys, some of them symbolic, 10000 + n: one key
/// with n values of 300 bytes, 20000 + n: of 65000 bytes
pub fn user(shape: u64, l: &mut Lens) -> UserProperties {
    let mut m: UserProperties = HashMap::new();
    let key = |l: &mut Lens| l.s();
    match shape {
        0 => {}
        1 => {
            let k = key(l);
            let v = l.s();
            m.insert(k, vec![v]);
        }
        2 => {
            let k = key(l);
            let v = vec![l.s(), l.s()];
            m.insert(k, v);
        }
        4 => {
            m.insert(key(l), vec![]);
        }
        10000.. => {
            let (n, len) = if shape >= 20000 { (shape as usize - 20000, 65000) } else { (shape as usize - 10000, 300) };
            let mut v = vec![];
            for i in 0..n {
                v.push(if i == 0 || i + 1 == n { l.s() } else { "x".repeat(len) });
            }
            m.insert(key(l), v);
        }
        100.. => {
            let n = shape as usize - 100;
            let mut v = vec![];
            for i in 0..n {
                let b = [b'0' + (i % 10) as u8, b'0' + (i / 10 % 10) as u8];
                v.push(if i == 0 || i + 1 == n { l.s() } else { String::from_utf8_lossy(&b[..i % 3]).into_owned() });
                let key = [b'a' + (i % 26) as u8, b'a' + (i / 26) as u8, b'z'];
                m.insert(String::from_utf8_lossy(&key).into_owned(), vec![if i == n / 2 { l.s() } else { String::new() }]);
            }
            m.insert(sym::string(1), v);
        }
        _ => {
            let k1 = sym::string(1);
            let k2 = sym::string(1);
            sym::assume(k1 != k2);
            let v1 = match shape {
                3 => vec![l.s()],
                5 => vec![],
                _ => vec![l.s(), l.s(), l.s()],
            };
            let v2 = vec![l.s()];
            m.insert(k1, v1);
            m.insert(k2, v2);
        }
    }
    m
}

pub fn ack_props(shape: u64, l: &mut Lens) -> Option<ConfirmationProperties> {
    if !sym::flip() {
        return None;
    }
    Some(ConfirmationProperties { reason_string: l.os(), user_properties: user(shape, l) })
}

pub fn connect(ver: u8, shape: u64, l: &mut Lens) -> ConnectPacket {
    let protocol_id = if sym::flip() { Protocol::Mqtt } else { Protocol::MQIsdp };
    let clean_session = sym::bool();
    let client_id = l.s1();
    let properties = if ver == 5 && sym::flip() { Some(connect_props(shape, l)) } else { None };
    let user_name = l.os();
    let password = if user_name.is_some() { l.os() } else { None };
    ConnectPacket { client_id, protocol_version: ver, protocol_id, clean_session, keep_alive: sym::u16(), user_name, password, will: will(ver, shape, l), properties }
}
pub fn connect_props(shape: u64, l: &mut Lens) -> ConnectProperties {
    ConnectProperties {
        session_expiry_interval: sym::u32(),
        receive_maximum: sym::u16(),
        maximum_packet_size: ou32(),
        topic_alias_maximum: sym::u16(),
        request_response_information: sym::bool(),
        request_problem_information: sym::bool(),
        user_properties: user(shape, l),
        authentication_method: l.os(),
        authentication_data: l.os(),
    }
}
pub fn will_qos() -> u8 {
    let q = sym::u8();
    sym::assume(q < 3);
    q
}
pub fn will(ver: u8, shape: u64, l: &mut Lens) -> Option<LastWill> {
    if !sym::flip() {
        return None;
    }
    let topic = Some(l.s1());
    let payload = l.os();
    let properties = if ver == 5 && sym::flip() { Some(will_props(shape, l)) } else { None };
    Some(LastWill { topic, payload, qos: will_qos(), retain: sym::bool(), properties })
}
pub fn will_props(shape: u64, l: &mut Lens) -> WillProperties {
    WillProperties {
        payload_format_indicator: sym::bool(),
        message_expiry_interval: ou32(),
        content_type: l.os(),
        response_topic: l.os(),
        correlation_data: l.b(),
        will_delay_interval: sym::u32(),
        user_properties: user(shape, l),
    }
}
pub fn connack(shape: u64, l: &mut Lens) -> ConnackPacket {
    let properties = if sym::flip() { Some(connack_props(shape, l)) } else { None };
    ConnackPacket { return_code: Some(sym::u8()), reason_code: Some(sym::u8()), session_present: sym::bool(), properties }
}
pub fn connack_props(shape: u64, l: &mut Lens) -> ConnackProperties {
    ConnackProperties {
        session_expiry_interval: sym::u32(),
        assigned_client_identifier: l.os(),
        server_keep_alive: ou16(),
        authentication_method: l.os(),
        authentication_data: l.os(),
        response_information: l.os(),
        server_reference: l.os(),
        reason_string: l.os(),
        receive_maximum: sym::u16(),
        topic_alias_maximum: sym::u16(),
        maximum_qos: sym::u8(),
        retain_available: sym::bool(),
        user_properties: user(shape, l),
        maximum_packet_size: ou32(),
        wildcard_subscription_available: sym::bool(),
        subscription_identifiers_available: sym::bool(),
        shared_subscription_available: sym::bool(),
        is_default: sym::bool(),
    }
}
pub fn publish(ver: u8, shape: u64, l: &mut Lens) -> PublishPacket {
    let q = sym::pick(3) as u8;
    let mut topic = l.s1();
    let message_id = if q > 0 { Some(sym::u16()) } else { None };
    let payload = l.b();
    let properties = if sym::flip() { Some(publish_props(shape, l)) } else { None };
    // the alias stands in for the topic
    if ver == 5 && shape == 3 && properties.as_ref().map_or(false, |p| p.topic_alias.is_some()) {
        topic = String::new();
    }
    PublishPacket { dup: sym::bool(), qos: q, retain: sym::bool(), topic, message_id, payload, properties }
}
pub fn publish_props(shape: u64, l: &mut Lens) -> PublishProperties {
    let n = sym::pick(3);
    let mut ids = vec![];
    for _ in 0..n {
        let i = sym::u32();
        sym::assume(i <= 268_435_455);
        ids.push(i);
    }
    PublishProperties {
        payload_format_indicator: sym::bool(),
        message_expiry_interval: ou32(),
        content_type: l.os(),
        response_topic: l.os(),
        correlation_data: l.b(),
        subscription_identifiers: ids,
        topic_alias: ou16(),
        user_properties: user(shape, l),
    }
}
pub const ACK_CODES: [u8; 9] = [0, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99];
pub const SUBACK_CODES: [u8; 12] = [0, 1, 2, 0x80, 0x83, 0x87, 0x8F, 0x91, 0x97, 0x9E, 0xA1, 0xA2];
pub const UNSUBACK_CODES: [u8; 7] = [0, 0x11, 0x80, 0x83, 0x87, 0x8F, 0x91];
pub const DISCONNECT_CODES: [u8; 29] = [
    0, 4, 0x80, 0x81, 0x82, 0x83, 0x87, 0x89, 0x8B, 0x8D, 0x8E, 0x8F, 0x90, 0x93, 0x94, 0x95, 0x96, 0x97, 0x98, 0x99, 0x9A, 0x9B, 0x9C, 0x9D, 0x9E,
    0x9F, 0xA0, 0xA1, 0xA2,
];
/// k: 4 puback, 5 pubrec, 6 pubrel, 7 pubcomp
pub fn ack(k: u8, ver: u8, shape: u64, l: &mut Lens) -> ConfirmationPacket {
    let cmd = [PacketType::Puback, PacketType::Pubrec, PacketType::Pubrel, PacketType::Pubcomp][(k - 4) as usize];
    let (mut pa, mut pc) = (None, None);
    if ver == 5 {
        if k < 6 {
            pa = refm::puback_code(ACK_CODES[sym::pick(9) as usize]);
        } else {
            pc = refm::pubcomp_code(if sym::flip() { 0 } else { 0x92 });
        }
    }
    ConfirmationPacket { cmd, puback_reason_code: pa, pubcomp_reason_code: pc, message_id: sym::u16(), properties: ack_props(shape, l) }
}
pub fn wrap_ack(p: ConfirmationPacket) -> MqttPacket {
    match p.cmd {
        PacketType::Puback => MqttPacket::Puback(p),
        PacketType::Pubrec => MqttPacket::Pubrec(p),
        PacketType::Pubrel => MqttPacket::Pubrel(p),
        _ => MqttPacket::Pubcomp(p),
    }
}
fn fixed(l: &mut Lens) -> String {
    sym::big_string(l.next().max(1), 0)
}
pub fn subscribe(n: usize, shape: u64, l: &mut Lens) -> SubscribePacket {
    let mut subs = vec![];
    for i in 0..n {
        let o = sym::pick(3) as u8;
        let rh = if crate::wire::few(i, n) { sym::u8() } else { (i % 3) as u8 };
        sym::assume(rh < 3);
        // long lists: symbolic at both ends, fixed in between
        if crate::wire::few(i, n) {
            subs.push(Subscription { topic: l.s1(), qos: refm::qos(o).unwrap(), nl: sym::bool(), rap: sym::bool(), rh: Some(rh) });
        } else {
            subs.push(Subscription { topic: fixed(l), qos: refm::qos(o).unwrap(), nl: i % 2 == 0, rap: i % 3 == 0, rh: Some(rh) });
        }
    }
    let properties = if sym::flip() {
        let i = sym::u32();
        sym::assume(i <= 268_435_455);
        Some(SubscribeProperties { subscription_identifier: i, user_properties: user(shape, l) })
    } else {
        None
    };
    SubscribePacket { qos: 1, subscriptions: subs, properties, message_id: sym::u16() }
}
pub fn unsubscribe(n: usize, shape: u64, l: &mut Lens) -> UnsubscribePacket {
    let unsubscriptions = (0..n).map(|i| if crate::wire::few(i, n) { l.s1() } else { fixed(l) }).collect();
    let properties = if sym::flip() { Some(UnsubscribeProperties { user_properties: user(shape, l) }) } else { None };
    UnsubscribePacket { qos: 1, message_id: sym::u16(), properties, unsubscriptions }
}
/// one of m codes for an entry of a list; long ones have runs of equal codes and an
/// arbitrary one at the end
fn entry(i: usize, n: usize, m: usize) -> usize {
    if n <= 8 {
        sym::pick(m as u64) as usize
    } else if i + 1 == n && n < 300 {
        sym::choose(m as u64) as usize
    } else if i * 2 < n {
        i % m
    } else {
        n % m
    }
}
pub fn suback(n: usize, ver: u8, shape: u64, l: &mut Lens) -> SubackPacket {
    let (mut g5, mut g3) = (vec![], vec![]);
    for i in 0..n {
        if ver == 5 {
            g5.push(refm::suback_code(SUBACK_CODES[entry(i, n, 12)]).unwrap());
        } else {
            g3.push(refm::granted([0, 1, 2, 0x80][entry(i, n, 4)]).unwrap());
        }
    }
    SubackPacket { reason_code: None, message_id: sym::u16(), properties: ack_props(shape, l), granted_reason_codes: g5, granted: g3 }
}
pub fn unsuback(n: usize, shape: u64, l: &mut Lens) -> UnsubackPacket {
    let granted = (0..n).map(|i| refm::unsuback_code(UNSUBACK_CODES[entry(i, n, 7)]).unwrap()).collect();
    UnsubackPacket { message_id: sym::u16(), granted, properties: ack_props(shape, l) }
}
pub fn disconnect(shape: u64, l: &mut Lens) -> DisconnectPacket {
    let c = sym::pick(30) as usize;
    let reason_code = if c < 29 { refm::disconnect_code(DISCONNECT_CODES[c]) } else { None };
    let properties = if sym::flip() {
        Some(DisconnectProperties { session_expiry_interval: ou32(), server_reference: l.os(), reason_string: l.os(), user_properties: user(shape, l) })
    } else {
        None
    };
    DisconnectPacket { reason_code, properties }
}
pub fn auth(shape: u64, l: &mut Lens) -> AuthPacket {
    let reason_code = refm::auth_code([0, 0x18, 0x19][sym::pick(3) as usize]).unwrap();
    let properties = if sym::flip() {
        Some(AuthProperties { authentication_method: l.s(), authentication_data: l.os(), reason_string: l.os(), user_properties: user(shape, l) })
    } else {
        None
    };
    AuthPacket { reason_code, properties }
}

/// a valid packet of type nibble k for version ver
pub fn packet(k: u8, ver: u8, n: usize, shape: u64, l: &mut Lens) -> MqttPacket {
    match k {
        1 => MqttPacket::Connect(connect(ver, shape, l)),
        2 => MqttPacket::Connack(connack(shape, l)),
        3 => MqttPacket::Publish(publish(ver, shape, l)),
        4..=7 => wrap_ack(ack(k, ver, shape, l)),
        8 => MqttPacket::Subscribe(subscribe(n, shape, l)),
        9 => MqttPacket::Suback(suback(n, ver, shape, l)),
        10 => MqttPacket::Unsubscribe(unsubscribe(n, shape, l)),
        11 => MqttPacket::Unsuback(unsuback(n, shape, l)),
        12 => MqttPacket::Pingreq,
        13 => MqttPacket::Pingresp,
        14 => MqttPacket::Disconnect(disconnect(shape, l)),
        _ => MqttPacket::Auth(auth(shape, l)),
    }
}

fn user_norm(m: &UserProperties) -> UserProperties {
    m.iter().filter(|(_, v)| !v.is_empty()).map(|(k, v)| (k.clone(), v.clone())).collect()
}
fn ack_norm(p: &Option<ConfirmationProperties>) -> Option<ConfirmationProperties> {
    let p = p.as_ref()?;
    let user_properties = user_norm(&p.user_properties);
    if p.reason_string.is_none() && user_properties.is_empty() {
        return None;
    }
    Some(ConfirmationProperties { reason_string: p.reason_string.clone(), user_properties })
}

/// what a peer of version `ver` is meant to see: MQTT 5 only parts vanish before
/// version 5, empty property sections read as none
pub fn seen(p: &MqttPacket, ver: u8) -> MqttPacket {
    let v5 = ver == 5;
    let mut p = p.clone();
    match &mut p {
        MqttPacket::Connect(c) => {
            let v5 = c.protocol_version == 5;
            match &mut c.properties {
                Some(q) if v5 => q.user_properties = user_norm(&q.user_properties),
                x => *x = None,
            }
            if let Some(w) = &mut c.will {
                if w.payload.is_none() {
                    w.payload = Some(String::new());
                }
                match &mut w.properties {
                    Some(q) if v5 => q.user_properties = user_norm(&q.user_properties),
                    x => *x = None,
                }
            }
        }
        MqttPacket::Connack(c) => {
            if v5 {
                c.return_code = None
            } else {
                c.reason_code = None
            }
            match &mut c.properties {
                Some(q) if v5 => {
                    q.user_properties = user_norm(&q.user_properties);
                    q.is_default = false
                }
                x => *x = None,
            }
        }
        MqttPacket::Publish(c) => {
            if c.qos == 0 {
                c.message_id = None
            }
            match &mut c.properties {
                Some(q) if v5 => q.user_properties = user_norm(&q.user_properties),
                x => *x = None,
            }
        }
        MqttPacket::Puback(c) | MqttPacket::Pubrec(c) | MqttPacket::Pubrel(c) | MqttPacket::Pubcomp(c) => {
            c.properties = if v5 { ack_norm(&c.properties) } else { None };
            if !v5 {
                c.puback_reason_code = None;
                c.pubcomp_reason_code = None;
            }
        }
        MqttPacket::Subscribe(c) => {
            c.qos = 1;
            if !v5 {
                for s in &mut c.subscriptions {
                    s.nl = false;
                    s.rap = false;
                    s.rh = None;
                }
            }
            if let Some(q) = &mut c.properties {
                q.user_properties = user_norm(&q.user_properties);
                if !v5 || (q.subscription_identifier == 0 && q.user_properties.is_empty()) {
                    c.properties = None
                }
            }
        }
        MqttPacket::Suback(c) => {
            c.reason_code = None;
            c.properties = if v5 { ack_norm(&c.properties) } else { None };
            if v5 {
                c.granted = vec![]
            } else {
                c.granted_reason_codes = vec![]
            }
        }
        MqttPacket::Unsubscribe(c) => {
            c.qos = 1;
            if let Some(q) = &mut c.properties {
                q.user_properties = user_norm(&q.user_properties);
                if !v5 || q.user_properties.is_empty() {
                    c.properties = None
                }
            }
        }
        MqttPacket::Unsuback(c) => {
            c.properties = if v5 { ack_norm(&c.properties) } else { None };
            if !v5 {
                c.granted = vec![]
            }
        }
        MqttPacket::Disconnect(c) => {
            if v5 {
                if c.reason_code.is_none() {
                    c.reason_code = Some(DisconnectCode::NormalDisconnection)
                }
                if let Some(q) = &mut c.properties {
                    q.user_properties = user_norm(&q.user_properties);
                    if q.session_expiry_interval.is_none() && q.server_reference.is_none() && q.reason_string.is_none() && q.user_properties.is_empty() {
                        c.properties = None
                    }
                }
            } else {
                c.reason_code = None;
                c.properties = None
            }
        }
        MqttPacket::Auth(c) => {
            if let Some(q) = &mut c.properties {
                q.user_properties = user_norm(&q.user_properties);
            }
        }
        _ => {}
    }
    p
}

/// either code of a CONNACK may be missing (always forked)
pub fn drop_codes(c: &mut ConnackPacket) {
    let m = sym::choose(4);
    if m & 1 != 0 {
        c.return_code = None
    }
    if m & 2 != 0 {
        c.reason_code = None
    }
}

/// packets of type nibble k whose fields range over what the Rust types allow,
/// valid or not; string lengths stay small
pub fn any_packet(k: u8, n: usize, l: &mut Lens) -> MqttPacket {
    let shape = 0;
    match k {
        1 => {
            let mut c = connect(5, shape, l);
            c.protocol_version = sym::u8();
            c.client_id = sym::string(sym::pick(2) as usize);
            if let Some(w) = &mut c.will {
                w.topic = match sym::pick(3) {
                    0 => None,
                    1 => Some(String::new()),
                    _ => Some(sym::string(1)),
                };
                w.qos = sym::u8();
            }
            if c.user_name.is_none() {
                c.password = l.os();
            }
            MqttPacket::Connect(c)
        }
        2 => {
            let mut c = connack(shape, l);
            drop_codes(&mut c);
            MqttPacket::Connack(c)
        }
        3 => {
            let mut c = publish(5, shape, l);
            c.topic = sym::string(sym::pick(2) as usize);
            c.qos = sym::u8();
            c.message_id = ou16();
            if let Some(p) = &mut c.properties {
                for i in &mut p.subscription_identifiers {
                    *i = sym::u32()
                }
            }
            MqttPacket::Publish(c)
        }
        4..=7 => {
            let mut c = ack(k, 5, shape, l);
            c.cmd = PacketType::from_bits(sym::pick(16) as u8);
            c.puback_reason_code = if sym::flip() { refm::puback_code([0, 0x83, 0x99][sym::pick(3) as usize]) } else { None };
            c.pubcomp_reason_code = if sym::flip() { refm::pubcomp_code([0, 0x92][sym::pick(2) as usize]) } else { None };
            match c.cmd {
                PacketType::Puback => MqttPacket::Puback(c),
                PacketType::Pubrec => MqttPacket::Pubrec(c),
                PacketType::Pubrel => MqttPacket::Pubrel(c),
                PacketType::Pubcomp => MqttPacket::Pubcomp(c),
                _ => match k {
                    4 => MqttPacket::Puback(c),
                    5 => MqttPacket::Pubrec(c),
                    6 => MqttPacket::Pubrel(c),
                    _ => MqttPacket::Pubcomp(c),
                },
            }
        }
        8 => {
            let mut c = subscribe(n, shape, l);
            for s in &mut c.subscriptions {
                s.topic = sym::string(sym::pick(2) as usize);
                s.rh = if sym::flip() { Some(sym::u8()) } else { None };
            }
            if let Some(p) = &mut c.properties {
                p.subscription_identifier = sym::u32()
            }
            c.qos = sym::u8();
            MqttPacket::Subscribe(c)
        }
        9 => {
            let mut c = suback(n, 5, shape, l);
            for _ in 0..sym::pick(3) {
                c.granted.push(refm::granted([0, 1, 2, 0x80][sym::pick(4) as usize]).unwrap());
            }
            c.reason_code = if sym::flip() { Some(sym::u8()) } else { None };
            MqttPacket::Suback(c)
        }
        10 => {
            let mut c = unsubscribe(n, shape, l);
            for t in &mut c.unsubscriptions {
                *t = sym::string(sym::pick(2) as usize)
            }
            c.qos = sym::u8();
            MqttPacket::Unsubscribe(c)
        }
        _ => packet(k, 5, n, shape, l),
    }
}

/// can this packet be expressed in a session of version ver?
pub fn valid(p: &MqttPacket, ver: u8) -> bool {
    let short = |s: &Option<String>| match s {
        Some(s) => s.len() <= 65535,
        None => true,
    };
    let v5 = ver == 5;
    match p {
        MqttPacket::Connect(c) => {
            let v = c.protocol_version;
            if !(v == 3 || v == 4 || v == 5) {
                return false;
            }
            if c.client_id.is_empty() && (v == 3 || !c.clean_session) {
                return false;
            }
            if c.client_id.len() > 65535 || !short(&c.user_name) || !short(&c.password) {
                return false;
            }
            if c.password.is_some() && c.user_name.is_none() {
                return false;
            }
            match &c.will {
                Some(w) => w.qos <= 2 && w.topic.as_ref().map_or(false, |t| !t.is_empty() && t.len() <= 65535) && short(&w.payload),
                None => true,
            }
        }
        MqttPacket::Connack(c) => {
            if v5 {
                c.reason_code.is_some()
            } else {
                c.return_code.is_some()
            }
        }
        MqttPacket::Publish(c) => {
            let alias = v5 && c.properties.as_ref().map_or(false, |p| p.topic_alias.is_some());
            if (c.topic.is_empty() && !alias) || c.topic.len() > 65535 || c.qos > 2 || (c.qos > 0 && c.message_id.is_none()) {
                return false;
            }
            match &c.properties {
                Some(p) if v5 => p.subscription_identifiers.iter().all(|i| *i <= 268_435_455),
                _ => true,
            }
        }
        MqttPacket::Puback(c) | MqttPacket::Pubrec(c) | MqttPacket::Pubrel(c) | MqttPacket::Pubcomp(c) => match c.cmd {
            PacketType::Puback | PacketType::Pubrec => !v5 || (c.puback_reason_code.is_some() && c.pubcomp_reason_code.is_none()),
            PacketType::Pubrel | PacketType::Pubcomp => !v5 || (c.pubcomp_reason_code.is_some() && c.puback_reason_code.is_none()),
            _ => false,
        },
        MqttPacket::Subscribe(c) => {
            if c.subscriptions.is_empty() {
                return false;
            }
            for s in &c.subscriptions {
                if s.topic.is_empty() || s.topic.len() > 65535 {
                    return false;
                }
                if v5 {
                    match s.rh {
                        Some(r) => {
                            if r > 2 {
                                return false;
                            }
                        }
                        None => return false,
                    }
                }
            }
            match &c.properties {
                Some(p) if v5 => p.subscription_identifier <= 268_435_455,
                _ => true,
            }
        }
        MqttPacket::Suback(c) => {
            if v5 {
                !c.granted_reason_codes.is_empty()
            } else {
                !c.granted.is_empty()
            }
        }
        MqttPacket::Unsubscribe(c) => !c.unsubscriptions.is_empty() && c.unsubscriptions.iter().all(|t| !t.is_empty() && t.len() <= 65535),
        MqttPacket::Auth(_) => v5,
        _ => true,
    }
}
