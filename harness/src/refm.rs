//! Independent reference model of the MQTT 3.1 / 3.1.1 / 5.0 wire format,
//! written from the standard. It never calls the crate's reader or writer; it
//! only uses its public packet types as the vocabulary of results.
use mqtt_packet_3_5::*;
use std::collections::HashMap;

/// reference parser over one packet body
pub struct Cur<'a> {
    pub b: &'a [u8],
    pub i: usize,
    pub end: usize,
    /// strict: what a conforming encoder may emit (minimal integers, 0/1
    /// booleans, no repeated single properties, no trailing bytes, payloads present)
    pub strict: bool,
}
type O<T> = Option<T>;

#[derive(Default)]
pub struct Props {
    pub b: [Option<bool>; 7],   // 01 17 19 25 28 29 2A
    pub u32: [Option<u32>; 4],  // 02 11 18 27
    pub u16: [Option<u16>; 4],  // 13 21 22 23
    pub s: [Option<String>; 8], // 03 08 12 15 16 1A 1C 1F
    pub bin: Option<Vec<u8>>,   // 09
    pub u8: Option<u8>,         // 24
    pub ids: Vec<u32>,          // 0B
    pub user: Vec<(String, String)>,
}
pub const BOOL_IDS: [u8; 7] = [0x01, 0x17, 0x19, 0x25, 0x28, 0x29, 0x2A];
pub const U32_IDS: [u8; 4] = [0x02, 0x11, 0x18, 0x27];
pub const U16_IDS: [u8; 4] = [0x13, 0x21, 0x22, 0x23];
pub const STR_IDS: [u8; 8] = [0x03, 0x08, 0x12, 0x15, 0x16, 0x1A, 0x1C, 0x1F];

/// MQTT 5 table 2-4
pub const P_CONNECT: &[u8] = &[0x11, 0x15, 0x16, 0x17, 0x19, 0x21, 0x22, 0x26, 0x27];
pub const P_WILL: &[u8] = &[0x01, 0x02, 0x03, 0x08, 0x09, 0x18, 0x26];
pub const P_CONNACK: &[u8] =
    &[0x11, 0x12, 0x13, 0x15, 0x16, 0x1A, 0x1C, 0x1F, 0x21, 0x22, 0x24, 0x25, 0x26, 0x27, 0x28, 0x29, 0x2A];
pub const P_PUBLISH: &[u8] = &[0x01, 0x02, 0x03, 0x08, 0x09, 0x0B, 0x23, 0x26];
pub const P_ACK: &[u8] = &[0x1F, 0x26];
pub const P_SUBSCRIBE: &[u8] = &[0x0B, 0x26];
pub const P_UNSUBSCRIBE: &[u8] = &[0x26];
pub const P_DISCONNECT: &[u8] = &[0x11, 0x1C, 0x1F, 0x26];
pub const P_AUTH: &[u8] = &[0x15, 0x16, 0x1F, 0x26];

fn pos(ids: &[u8], id: u8) -> usize {
    let mut i = 0;
    while i < ids.len() {
        if ids[i] == id {
            return i;
        }
        i += 1;
    }
    usize::MAX
}

impl Props {
    pub fn bool(&self, id: u8) -> Option<bool> {
        self.b[pos(&BOOL_IDS, id)]
    }
    pub fn u32(&self, id: u8) -> Option<u32> {
        self.u32[pos(&U32_IDS, id)]
    }
    pub fn u16(&self, id: u8) -> Option<u16> {
        self.u16[pos(&U16_IDS, id)]
    }
    pub fn str(&mut self, id: u8) -> Option<String> {
        self.s[pos(&STR_IDS, id)].take()
    }
    pub fn map(&mut self) -> UserProperties {
        let mut m: HashMap<String, Vec<String>> = HashMap::new();
        for (k, v) in std::mem::take(&mut self.user) {
            m.entry(k).or_default().push(v);
        }
        m
    }
}

impl<'a> Cur<'a> {
    pub fn new(b: &'a [u8], strict: bool) -> Cur<'a> {
        Cur { b, i: 0, end: b.len(), strict }
    }
    pub fn left(&self) -> usize {
        self.end - self.i
    }
    pub fn u8(&mut self) -> O<u8> {
        if self.i < self.end {
            self.i += 1;
            Some(self.b[self.i - 1])
        } else {
            None
        }
    }
    pub fn u16(&mut self) -> O<u16> {
        if self.left() < 2 {
            return None;
        }
        let v = u16::from_be_bytes([self.b[self.i], self.b[self.i + 1]]);
        self.i += 2;
        Some(v)
    }
    pub fn u32(&mut self) -> O<u32> {
        if self.left() < 4 {
            return None;
        }
        let v = u32::from_be_bytes([self.b[self.i], self.b[self.i + 1], self.b[self.i + 2], self.b[self.i + 3]]);
        self.i += 4;
        Some(v)
    }
    pub fn take(&mut self, n: usize) -> O<&'a [u8]> {
        if n > self.left() {
            return None;
        }
        let s = &self.b[self.i..self.i + n];
        self.i += n;
        Some(s)
    }
    pub fn bin(&mut self) -> O<Vec<u8>> {
        let n = self.u16()? as usize;
        Some(self.take(n)?.to_vec())
    }
    pub fn str(&mut self) -> O<String> {
        let n = self.u16()? as usize;
        let s = self.take(n)?;
        match std::str::from_utf8(s) {
            Ok(s) => Some(s.to_string()),
            Err(_) => None,
        }
    }
    /// variable byte integer: 1 to 4 bytes, 7 bits each, least significant first
    pub fn var(&mut self) -> O<u32> {
        let mut v = 0u32;
        let mut k = 0;
        loop {
            let b = self.u8()?;
            v |= ((b & 0x7f) as u32) << (7 * k);
            k += 1;
            if b & 0x80 == 0 {
                if self.strict && k > 1 && b == 0 {
                    return None;
                }
                return Some(v);
            }
            if k == 4 {
                return None;
            }
        }
    }
    pub fn flag(&mut self) -> O<bool> {
        let b = self.u8()?;
        if self.strict && b > 1 {
            return None;
        }
        Some(b != 0)
    }
    /// property length and properties; Some(None) for length zero
    pub fn props(&mut self, allowed: &[u8]) -> O<Option<Props>> {
        let n = self.var()? as usize;
        if n == 0 {
            return Some(None);
        }
        if n > self.left() {
            return None;
        }
        let outer = self.end;
        self.end = self.i + n;
        let mut p = Props::default();
        while self.left() > 0 {
            let id = self.u8()?;
            if pos(allowed, id) == usize::MAX {
                return None;
            }
            let st = self.strict;
            match id {
                0x02 | 0x11 | 0x18 | 0x27 => {
                    let x = &mut p.u32[pos(&U32_IDS, id)];
                    if st && x.is_some() {
                        return None;
                    }
                    *x = Some(self.u32()?)
                }
                0x01 | 0x17 | 0x19 | 0x25 | 0x28 | 0x29 | 0x2A => {
                    let x = &mut p.b[pos(&BOOL_IDS, id)];
                    if st && x.is_some() {
                        return None;
                    }
                    *x = Some(self.flag()?)
                }
                0x13 | 0x21 | 0x22 | 0x23 => {
                    let x = &mut p.u16[pos(&U16_IDS, id)];
                    if st && x.is_some() {
                        return None;
                    }
                    *x = Some(self.u16()?)
                }
                0x03 | 0x08 | 0x12 | 0x15 | 0x16 | 0x1A | 0x1C | 0x1F => {
                    let v = self.str()?;
                    let x = &mut p.s[pos(&STR_IDS, id)];
                    if st && x.is_some() {
                        return None;
                    }
                    *x = Some(v)
                }
                0x09 => {
                    if st && p.bin.is_some() {
                        return None;
                    }
                    p.bin = Some(self.bin()?)
                }
                0x24 => {
                    if st && p.u8.is_some() {
                        return None;
                    }
                    p.u8 = Some(self.u8()?)
                }
                0x0B => p.ids.push(self.var()?),
                0x26 => {
                    let k = self.str()?;
                    let v = self.str()?;
                    p.user.push((k, v));
                }
                _ => return None,
            }
        }
        self.end = outer;
        Some(Some(p))
    }
}

pub fn puback_code(b: u8) -> O<PubackPubrecCode> {
    use PubackPubrecCode::*;
    Some(match b {
        0x00 => Success,
        0x10 => NoMatchingSubscribers,
        0x80 => UnspecifiedError,
        0x83 => ImplementationSpecificError,
        0x87 => NotAuthorized,
        0x90 => TopicNameInvalid,
        0x91 => PacketIdentifierInUse,
        0x97 => QuotaExceeded,
        0x99 => PayloadFormatInvalid,
        _ => return None,
    })
}
pub fn pubcomp_code(b: u8) -> O<PubcompPubrelCode> {
    Some(match b {
        0x00 => PubcompPubrelCode::Success,
        0x92 => PubcompPubrelCode::PacketIdentifierNotFound,
        _ => return None,
    })
}
pub fn suback_code(b: u8) -> O<SubscriptionReasonCode> {
    use SubscriptionReasonCode::*;
    Some(match b {
        0x00 => GrantedQoS0,
        0x01 => GrantedQoS1,
        0x02 => GrantedQoS2,
        0x80 => UnspecifiedError,
        0x83 => ImplementationSpecificError,
        0x87 => NotAuthorized,
        0x8F => TopicFilterInvalid,
        0x91 => PacketIdentifierInUse,
        0x97 => QuotaExceeded,
        0x9E => SharedSubscriptionsNotSupported,
        0xA1 => SubscriptionIdentifiersNotSupported,
        0xA2 => WildcardSubscriptionsNotSupported,
        _ => return None,
    })
}
pub fn unsuback_code(b: u8) -> O<UnsubackCode> {
    use UnsubackCode::*;
    Some(match b {
        0x00 => Success,
        0x11 => NoSubscriptionExisted,
        0x80 => UnspecifiedError,
        0x83 => ImplementationSpecificError,
        0x87 => NotAuthorized,
        0x8F => TopicFilterInvalid,
        0x91 => PacketIdentifierInUse,
        _ => return None,
    })
}
pub fn disconnect_code(b: u8) -> O<DisconnectCode> {
    use DisconnectCode::*;
    Some(match b {
        0x00 => NormalDisconnection,
        0x04 => DisconnectWithWillMessage,
        0x80 => UnspecifiedError,
        0x81 => MalformedPacket,
        0x82 => ProtocolError,
        0x83 => ImplementationSpecificError,
        0x87 => NotAuthorized,
        0x89 => ServerBusy,
        0x8B => ServerShuttingDown,
        0x8D => KeepAliveTimeout,
        0x8E => SessionTakenVver,
        0x8F => TopicFilterInvalid,
        0x90 => TopicNameInvalid,
        0x93 => ReceiveMaximumExceeded,
        0x94 => TopicAliasInvalid,
        0x95 => PacketTooLarge,
        0x96 => MessageRateTooHigh,
        0x97 => QuotaExceeded,
        0x98 => AdministrativeAction,
        0x99 => PayloadFormatInvalid,
        0x9A => RetainNotSupported,
        0x9B => QoSNotSupported,
        0x9C => UseAnotherServer,
        0x9D => ServerMoved,
        0x9E => SharedSubscriptionsNotSupported,
        0x9F => ConnectionRateExceeded,
        0xA0 => MaximumConnectTime,
        0xA1 => SubscriptionIdentifiersNotSupported,
        0xA2 => WildcardSubscriptionsNotSupported,
        _ => return None,
    })
}
pub fn auth_code(b: u8) -> O<AuthCode> {
    Some(match b {
        0x00 => AuthCode::Success,
        0x18 => AuthCode::ContinueAuthentication,
        0x19 => AuthCode::ReAuthenticate,
        _ => return None,
    })
}
pub fn granted(b: u8) -> O<Granted> {
    Some(match b {
        0 => Granted::QoS0,
        1 => Granted::QoS1,
        2 => Granted::QoS2,
        0x80 => Granted::Failure,
        _ => return None,
    })
}
pub fn qos(b: u8) -> O<QoS> {
    Some(match b {
        0 => QoS::QoS0,
        1 => QoS::QoS1,
        2 => QoS::QoS2,
        _ => return None,
    })
}

fn ack_props(c: &mut Cur) -> O<Option<ConfirmationProperties>> {
    Some(c.props(P_ACK)?.map(|mut p| ConfirmationProperties { reason_string: p.str(0x1F), user_properties: p.map() }))
}

pub fn kind(first: u8) -> u8 {
    first >> 4
}

/// legal first bytes: flags are 0 except PUBREL/SUBSCRIBE/UNSUBSCRIBE (0b0010)
/// and PUBLISH (DUP, QoS 0..2, RETAIN)
pub fn header_ok(first: u8) -> bool {
    let f = first & 15;
    match first >> 4 {
        3 => (f >> 1) & 3 != 3,
        6 | 8 | 10 => f == 2,
        _ => f == 0,
    }
}

/// what decoding one packet with this first byte and body must yield for a
/// session of version `ver`; None: it must be refused
pub fn decode(first: u8, body: &[u8], ver: u8, strict: bool) -> O<MqttPacket> {
    if !header_ok(first) {
        return None;
    }
    let mut c = Cur::new(body, strict);
    let p = decode_body(first, &mut c, ver)?;
    if strict && c.left() != 0 {
        return None;
    }
    Some(p)
}

fn decode_body(first: u8, c: &mut Cur, ver: u8) -> O<MqttPacket> {
    let v5 = ver == 5;
    Some(match first >> 4 {
        1 => MqttPacket::Connect(connect(c)?),
        2 => {
            let f = c.u8()?;
            if f > 1 {
                return None;
            }
            let mut p = ConnackPacket { return_code: None, reason_code: None, session_present: f == 1, properties: None };
            if v5 {
                if c.strict && c.left() == 0 {
                    return None;
                }
                p.reason_code = Some(if c.left() > 0 { c.u8()? } else { 0 });
                if c.left() > 0 || c.strict {
                    p.properties = c.props(P_CONNACK)?.map(|mut r| {
                        ConnackProperties {
                            session_expiry_interval: r.u32(0x11).unwrap_or(0),
                            assigned_client_identifier: r.str(0x12),
                            server_keep_alive: r.u16(0x13),
                            authentication_method: r.str(0x15),
                            authentication_data: r.str(0x16),
                            response_information: r.str(0x1A),
                            server_reference: r.str(0x1C),
                            reason_string: r.str(0x1F),
                            receive_maximum: r.u16(0x21).unwrap_or(65535),
                            topic_alias_maximum: r.u16(0x22).unwrap_or(0),
                            maximum_qos: r.u8.unwrap_or(2),
                            retain_available: r.bool(0x25).unwrap_or(true),
                            user_properties: r.map(),
                            maximum_packet_size: r.u32(0x27),
                            wildcard_subscription_available: r.bool(0x28).unwrap_or(true),
                            subscription_identifiers_available: r.bool(0x29).unwrap_or(true),
                            shared_subscription_available: r.bool(0x2A).unwrap_or(true),
                            is_default: false,
                        }
                    });
                }
            } else {
                p.return_code = Some(c.u8()?);
            }
            MqttPacket::Connack(p)
        }
        3 => {
            let q = (first >> 1) & 3;
            let topic = c.str()?;
            let message_id = if q > 0 { Some(c.u16()?) } else { None };
            let properties = if v5 {
                c.props(P_PUBLISH)?.map(|mut r| PublishProperties {
                    payload_format_indicator: r.bool(0x01).unwrap_or(false),
                    message_expiry_interval: r.u32(0x02),
                    content_type: r.str(0x03),
                    response_topic: r.str(0x08),
                    correlation_data: r.bin.take().unwrap_or_default(),
                    subscription_identifiers: std::mem::take(&mut r.ids),
                    topic_alias: r.u16(0x23),
                    user_properties: r.map(),
                })
            } else {
                None
            };
            let n = c.left();
            let payload = c.take(n)?.to_vec();
            MqttPacket::Publish(PublishPacket { dup: first & 8 != 0, qos: q, retain: first & 1 != 0, topic, message_id, payload, properties })
        }
        k @ 4..=7 => {
            let message_id = c.u16()?;
            let (mut pa, mut pc, mut properties) = (None, None, None);
            if v5 {
                let code = if c.left() > 0 { c.u8()? } else { 0 };
                if k == 4 || k == 5 {
                    pa = Some(puback_code(code)?)
                } else {
                    pc = Some(pubcomp_code(code)?)
                }
                if c.left() > 0 {
                    properties = ack_props(c)?;
                }
            }
            let mk = |cmd| ConfirmationPacket { cmd, puback_reason_code: pa, pubcomp_reason_code: pc, properties, message_id };
            match k {
                4 => MqttPacket::Puback(mk(PacketType::Puback)),
                5 => MqttPacket::Pubrec(mk(PacketType::Pubrec)),
                6 => MqttPacket::Pubrel(mk(PacketType::Pubrel)),
                _ => MqttPacket::Pubcomp(mk(PacketType::Pubcomp)),
            }
        }
        8 => {
            let message_id = c.u16()?;
            let properties = if v5 {
                c.props(P_SUBSCRIBE)?.map(|mut r| SubscribeProperties {
                    subscription_identifier: r.ids.last().copied().unwrap_or(0),
                    user_properties: r.map(),
                })
            } else {
                None
            };
            if c.left() == 0 {
                return None;
            }
            let mut subscriptions = vec![];
            while c.left() > 0 {
                let topic = c.str()?;
                let o = c.u8()?;
                if v5 {
                    if o >> 6 != 0 || (o >> 4) & 3 == 3 {
                        return None;
                    }
                } else if o >> 2 != 0 {
                    return None;
                }
                subscriptions.push(Subscription {
                    topic,
                    qos: qos(o & 3)?,
                    nl: v5 && o & 4 != 0,
                    rap: v5 && o & 8 != 0,
                    rh: if v5 { Some((o >> 4) & 3) } else { None },
                });
            }
            MqttPacket::Subscribe(SubscribePacket { qos: 1, subscriptions, properties, message_id })
        }
        9 => {
            let message_id = c.u16()?;
            let properties = if v5 { ack_props(c)? } else { None };
            if c.left() == 0 {
                return None;
            }
            let (mut g5, mut g3) = (vec![], vec![]);
            while c.left() > 0 {
                let b = c.u8()?;
                if v5 {
                    g5.push(suback_code(b)?)
                } else {
                    g3.push(granted(b)?)
                }
            }
            MqttPacket::Suback(SubackPacket { reason_code: None, message_id, properties, granted_reason_codes: g5, granted: g3 })
        }
        10 => {
            let message_id = c.u16()?;
            let properties = if v5 {
                c.props(P_UNSUBSCRIBE)?.map(|mut r| UnsubscribeProperties { user_properties: r.map() })
            } else {
                None
            };
            if c.left() == 0 {
                return None;
            }
            let mut unsubscriptions = vec![];
            while c.left() > 0 {
                unsubscriptions.push(c.str()?);
            }
            MqttPacket::Unsubscribe(UnsubscribePacket { qos: 1, message_id, properties, unsubscriptions })
        }
        11 => {
            let message_id = c.u16()?;
            let mut g = vec![];
            let mut properties = None;
            if v5 {
                properties = ack_props(c)?;
                while c.left() > 0 {
                    g.push(unsuback_code(c.u8()?)?);
                }
            } else if (ver == 3 || ver == 4) && c.left() != 0 {
                return None;
            }
            MqttPacket::Unsuback(UnsubackPacket { message_id, granted: g, properties })
        }
        12 => MqttPacket::Pingreq,
        13 => MqttPacket::Pingresp,
        14 => {
            let (mut reason_code, mut properties) = (None, None);
            if v5 {
                let b = if c.left() > 0 { c.u8()? } else { 0 };
                reason_code = Some(disconnect_code(b)?);
                if c.left() > 0 {
                    properties = c.props(P_DISCONNECT)?.map(|mut r| DisconnectProperties {
                        session_expiry_interval: r.u32(0x11),
                        server_reference: r.str(0x1C),
                        reason_string: r.str(0x1F),
                        user_properties: r.map(),
                    });
                }
            }
            MqttPacket::Disconnect(DisconnectPacket { reason_code, properties })
        }
        15 => {
            if !v5 {
                return None;
            }
            // reason code and property length may be omitted together
            if c.left() == 0 {
                return Some(MqttPacket::Auth(AuthPacket { reason_code: AuthCode::Success, properties: None }));
            }
            let reason_code = auth_code(c.u8()?)?;
            let properties = c.props(P_AUTH)?.map(|mut r| AuthProperties {
                authentication_method: r.str(0x15).unwrap_or_default(),
                authentication_data: r.str(0x16),
                reason_string: r.str(0x1F),
                user_properties: r.map(),
            });
            MqttPacket::Auth(AuthPacket { reason_code, properties })
        }
        _ => return None,
    })
}

fn connect(c: &mut Cur) -> O<ConnectPacket> {
    let n = c.u16()? as usize;
    let name = c.take(n)?;
    let protocol_id = if name == b"MQTT" {
        Protocol::Mqtt
    } else if name == b"MQIsdp" {
        Protocol::MQIsdp
    } else {
        return None;
    };
    let v = c.u8()?;
    // bit 7 marks a bridge connection (mosquitto convention), accepted on input only
    if c.strict && v & 0x80 != 0 {
        return None;
    }
    let ver = v & 0x7f;
    if !(3..=5).contains(&ver) {
        return None;
    }
    let f = c.u8()?;
    let will_flag = f & 4 != 0;
    let wq = (f >> 3) & 3;
    if f & 1 != 0 || wq == 3 || (!will_flag && (wq != 0 || f & 0x20 != 0)) {
        return None;
    }
    let keep_alive = c.u16()?;
    let properties = if ver == 5 {
        c.props(P_CONNECT)?.map(|mut r| ConnectProperties {
            session_expiry_interval: r.u32(0x11).unwrap_or(0),
            receive_maximum: r.u16(0x21).unwrap_or(65535),
            maximum_packet_size: r.u32(0x27),
            topic_alias_maximum: r.u16(0x22).unwrap_or(0),
            request_response_information: r.bool(0x19).unwrap_or(false),
            request_problem_information: r.bool(0x17).unwrap_or(true),
            user_properties: r.map(),
            authentication_method: r.str(0x15),
            authentication_data: r.str(0x16),
        })
    } else {
        None
    };
    let client_id = c.str()?;
    let will = if will_flag {
        let properties = if ver == 5 {
            c.props(P_WILL)?.map(|mut r| WillProperties {
                payload_format_indicator: r.bool(0x01).unwrap_or(false),
                message_expiry_interval: r.u32(0x02),
                content_type: r.str(0x03),
                response_topic: r.str(0x08),
                correlation_data: r.bin.take().unwrap_or_default(),
                will_delay_interval: r.u32(0x18).unwrap_or(0),
                user_properties: r.map(),
            })
        } else {
            None
        };
        let topic = Some(c.str()?);
        let payload = Some(c.str()?);
        Some(LastWill { topic, payload, qos: wq, retain: f & 0x20 != 0, properties })
    } else {
        None
    };
    let user_name = if f & 0x80 != 0 { Some(c.str()?) } else { None };
    let password = if f & 0x40 != 0 { Some(c.str()?) } else { None };
    Some(ConnectPacket { client_id, protocol_version: ver, protocol_id, clean_session: f & 2 != 0, keep_alive, user_name, password, will, properties })
}

/// reference variable byte integer encoding
pub fn var_bytes(mut n: u32) -> Vec<u8> {
    let mut v = vec![];
    loop {
        let b = (n & 0x7f) as u8;
        n >>= 7;
        if n == 0 {
            v.push(b);
            return v;
        }
        v.push(b | 0x80);
    }
}

/// splits an encoder's output into (first byte, body) if its fixed header is
/// well formed and the remaining length is exactly the number of bytes that follow
pub fn frame(b: &[u8]) -> O<(u8, &[u8])> {
    let mut c = Cur::new(b, true);
    let f = c.u8()?;
    let n = c.var()? as usize;
    if c.left() != n {
        return None;
    }
    Some((f, &b[c.i..]))
}
