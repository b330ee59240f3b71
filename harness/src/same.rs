//! Equality and copies of packet values against a comparison of their public fields.
use crate::gen::{any_packet, packet, Lens};
use crate::sym::{self, check, cover, param};
use mqtt_packet_3_5::connect::ConnectFlags;
use mqtt_packet_3_5::*;
use std::collections::HashMap;
use std::mem::discriminant;

/// equal in every public field
pub trait Same {
    fn same(&self, o: &Self) -> bool;
    /// copies of this and of all its parts, also over another value
    fn copies(&self, _: &Self) {}
}
macro_rules! plain { ($($t:ty),*) => { $(impl Same for $t { fn same(&self, o: &Self) -> bool { *self == *o } })* } }
macro_rules! tags { ($($t:ty),*) => { $(impl Same for $t { fn same(&self, o: &Self) -> bool { discriminant(self) == discriminant(o) } })* } }
macro_rules! fields { ($($t:ty: $($f:ident)*;)*) => { $(impl Same for $t {
    fn same(&self, o: &Self) -> bool { true $(& self.$f.same(&o.$f))* }
    fn copies(&self, o: &Self) {
        over(self, o);
        $(self.$f.copies(&o.$f);)*
    }
})* } }
fn over<T: Same + Clone>(a: &T, b: &T) {
    check(a.clone().same(a), "a copy differs");
    let mut d = b.clone();
    d.clone_from(a);
    check(d.same(a), "a copy over another value differs");
    check(b.clone().same(b), "a copy differs");
}
plain!(bool, u8, u16, u32);
tags!(Protocol, QoS, Granted, PacketType, SubscriptionReasonCode, DisconnectCode, UnsubackCode, AuthCode, PubcompPubrelCode, PubackPubrecCode);
impl Same for String {
    fn same(&self, o: &Self) -> bool {
        self.as_bytes() == o.as_bytes()
    }
}
impl<T: Same> Same for Option<T> {
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (None, None) => true,
            (Some(a), Some(b)) => a.same(b),
            _ => false,
        }
    }
    fn copies(&self, o: &Self) {
        if let (Some(a), Some(b)) = (self, o) {
            a.copies(b)
        }
    }
}
impl<T: Same> Same for Vec<T> {
    fn same(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().zip(o).all(|(a, b)| a.same(b))
    }
    fn copies(&self, o: &Self) {
        if let (Some(a), Some(b)) = (self.first(), o.last()) {
            a.copies(b)
        }
    }
}
impl Same for HashMap<String, Vec<String>> {
    fn same(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().all(|(k, v)| o.iter().any(|(l, w)| k.same(l) && v.same(w)))
    }
}
fields! {
    AuthProperties: authentication_method authentication_data reason_string user_properties;
    PublishProperties: payload_format_indicator message_expiry_interval content_type response_topic correlation_data subscription_identifiers topic_alias user_properties;
    SubscribeProperties: subscription_identifier user_properties;
    DisconnectProperties: session_expiry_interval server_reference reason_string user_properties;
    ConfirmationProperties: reason_string user_properties;
    UnsubscribeProperties: user_properties;
    WillProperties: payload_format_indicator message_expiry_interval content_type response_topic correlation_data will_delay_interval user_properties;
    ConnackProperties: session_expiry_interval assigned_client_identifier server_keep_alive authentication_method authentication_data response_information server_reference reason_string receive_maximum topic_alias_maximum maximum_qos retain_available user_properties maximum_packet_size wildcard_subscription_available subscription_identifiers_available shared_subscription_available is_default;
    ConnectProperties: session_expiry_interval receive_maximum maximum_packet_size topic_alias_maximum request_response_information request_problem_information user_properties authentication_method authentication_data;
    ConfirmationPacket: cmd puback_reason_code pubcomp_reason_code properties message_id;
    AuthPacket: reason_code properties;
    LastWill: topic payload qos retain properties;
    ConnectPacket: client_id protocol_version protocol_id clean_session keep_alive user_name password will properties;
    ConnackPacket: return_code reason_code session_present properties;
    DisconnectPacket: reason_code properties;
    PublishPacket: dup qos retain topic message_id payload properties;
    Subscription: topic qos nl rap rh;
    SubscribePacket: qos subscriptions properties message_id;
    SubackPacket: reason_code message_id properties granted_reason_codes granted;
    UnsubscribePacket: qos message_id properties unsubscriptions;
    UnsubackPacket: message_id granted properties;
    FixedHeader: cmd qos dup retain;
    ConnectFlags: user_name password will_retain will_qos will clean_session;
}
impl Same for MqttPacket {
    fn same(&self, o: &Self) -> bool {
        use MqttPacket::*;
        match (self, o) {
            (Connect(a), Connect(b)) => a.same(b),
            (Connack(a), Connack(b)) => a.same(b),
            (Publish(a), Publish(b)) => a.same(b),
            (Puback(a), Puback(b)) | (Pubrec(a), Pubrec(b)) | (Pubrel(a), Pubrel(b)) | (Pubcomp(a), Pubcomp(b)) => a.same(b),
            (Subscribe(a), Subscribe(b)) => a.same(b),
            (Suback(a), Suback(b)) => a.same(b),
            (Unsubscribe(a), Unsubscribe(b)) => a.same(b),
            (Unsuback(a), Unsuback(b)) => a.same(b),
            (Disconnect(a), Disconnect(b)) => a.same(b),
            (Auth(a), Auth(b)) => a.same(b),
            (Pingreq, Pingreq) | (Pingresp, Pingresp) => true,
            _ => false,
        }
    }
    fn copies(&self, o: &Self) {
        over(self, o);
        use MqttPacket::*;
        match (self, o) {
            (Connect(a), Connect(b)) => a.copies(b),
            (Connack(a), Connack(b)) => a.copies(b),
            (Publish(a), Publish(b)) => a.copies(b),
            (Puback(a), Puback(b)) | (Pubrec(a), Pubrec(b)) | (Pubrel(a), Pubrel(b)) | (Pubcomp(a), Pubcomp(b)) => a.copies(b),
            (Subscribe(a), Subscribe(b)) => a.copies(b),
            (Suback(a), Suback(b)) => a.copies(b),
            (Unsubscribe(a), Unsubscribe(b)) => a.copies(b),
            (Unsuback(a), Unsuback(b)) => a.copies(b),
            (Disconnect(a), Disconnect(b)) => a.copies(b),
            (Auth(a), Auth(b)) => a.copies(b),
            _ => {}
        }
    }
}

fn equal<T: Same + PartialEq>(a: &T, b: &T, what: &str) {
    let s = a.same(b);
    cover(s as u64 + 1);
    check((a == b) == s, what);
    check((b == a) == s, "equality depends on the order");
    #[allow(clippy::nonminimal_bool)]
    let n = a != b;
    check(n != s, "!= is not the opposite of ==");
}

/// two packets, equal or not: p0 and p1 types, p2 entries, p3 user property shape, p4..
/// string lengths, p8 and p9 presence modes, p10 1: any value of the type, p11 how much
/// longer the strings of the second are, p12 how many more entries it has and p13 how
/// many more its user property shape is
pub fn eq() {
    sym::same_picks();
    let make = |k: u64, at: u64, more: usize, n: u64, shape: u64| {
        let mut l = Lens::params(4);
        l.k += more;
        sym::set_mode(param(at));
        if param(10) == 1 {
            any_packet(k as u8, n as usize, &mut l)
        } else {
            packet(k as u8, 5, n as usize, shape, &mut l)
        }
    };
    let a = make(param(0), 8, 0, param(2), param(3));
    let b = make(param(1), 9, param(11) as usize, param(2) + param(12), param(3) + param(13));
    equal(&a, &b, "equality of packets is not equality of their fields");
    // a packet equals itself and its copy
    #[allow(clippy::eq_op)]
    let this = a == a;
    check(this, "a packet is not equal to itself");
    check(a.clone() == a, "a copy is not equal");
    a.copies(&b);
    b.copies(&a);
}

/// codes and headers: p0 which
pub fn eqcode() {
    let (x, y) = (sym::u8(), sym::u8());
    macro_rules! codes {
        ($t:ty) => {{
            let (a, b) = (<$t as MqttCode<$t>>::from_byte(x), <$t as MqttCode<$t>>::from_byte(y));
            if let (Ok(a), Ok(b)) = (a, b) {
                equal(&a, &b, "equality of codes");
                check((a == b) == (x == y), "two codes are taken for one");
                check(a.clone().same(&a), "a copied code differs");
            }
        }};
    }
    match param(0) {
        0 => codes!(SubscriptionReasonCode),
        1 => codes!(DisconnectCode),
        2 => codes!(UnsubackCode),
        3 => codes!(AuthCode),
        4 => codes!(PubcompPubrelCode),
        5 => codes!(PubackPubrecCode),
        6 => {
            let (a, b) = (PacketType::from_bits(x & 15), PacketType::from_bits(y & 15));
            equal(&a, &b, "equality of packet types");
        }
        7 => {
            if let (Ok(a), Ok(b)) = (FixedHeader::from_byte(x), FixedHeader::from_byte(y)) {
                equal(&a, &b, "equality of headers");
                check(a.clone().same(&a), "a copied header differs");
            }
        }
        _ => {
            let (a, b) = (ConnectFlags::new(x), ConnectFlags::new(y));
            equal(&a, &b, "equality of flags");
            check(a.clone().same(&a), "copied flags differ");
        }
    }
}
