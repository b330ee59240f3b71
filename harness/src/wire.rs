//! Raw wire bytes with the structure of a packet and arbitrary contents,
//! well-formed or not (string bytes need not be UTF-8, codes need not exist).
use crate::gen::Lens;
use crate::refm;
use crate::sym;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

pub fn put16(w: &mut Vec<u8>, n: u16) {
    w.extend_from_slice(&n.to_be_bytes())
}
pub fn raw(w: &mut Vec<u8>, n: usize) {
    w.extend_from_slice(&sym::bytes(n))
}
/// length-prefixed string or binary of arbitrary bytes
pub fn str(w: &mut Vec<u8>, l: &mut Lens) {
    let n = l.next();
    put16(w, n as u16);
    if n > 32 {
        w.extend_from_slice(&sym::big_bytes(n, 2));
    } else {
        raw(w, n);
    }
}
/// variable byte integer of 1 to 4 bytes with arbitrary value, also non-minimal
pub fn var(w: &mut Vec<u8>) {
    let n = sym::pick(4);
    for i in 0..=n {
        let b = sym::u8();
        if i < n {
            w.push(b | 0x80)
        } else {
            w.push(b & 0x7f)
        }
    }
}
/// one property of identifier id with an arbitrary value
pub fn prop(w: &mut Vec<u8>, id: u8, l: &mut Lens) {
    w.push(id);
    match id {
        0x02 | 0x11 | 0x18 | 0x27 => raw(w, 4),
        0x01 | 0x17 | 0x19 | 0x25 | 0x28 | 0x29 | 0x2A | 0x24 => raw(w, 1),
        0x13 | 0x21 | 0x22 | 0x23 => raw(w, 2),
        0x0B => var(w),
        0x26 => {
            str(w, l);
            str(w, l);
        }
        _ => str(w, l),
    }
}
/// property lists by target: packet type nibble, 16 for will properties
pub fn allowed(k: u8) -> &'static [u8] {
    match k {
        1 => refm::P_CONNECT,
        2 => refm::P_CONNACK,
        3 => refm::P_PUBLISH,
        8 => refm::P_SUBSCRIBE,
        10 => refm::P_UNSUBSCRIBE,
        14 => refm::P_DISCONNECT,
        15 => refm::P_AUTH,
        16 => refm::P_WILL,
        _ => refm::P_ACK,
    }
}
/// which entries of a list are symbolic
pub fn few(i: usize, n: usize) -> bool {
    n <= 4 || i == 0 || i + 1 == n
}
/// reason codes are success instead of arbitrary
static PLAIN: AtomicBool = AtomicBool::new(false);
pub fn plain_codes(p: bool) {
    PLAIN.store(p, Relaxed)
}
fn code(w: &mut Vec<u8>) {
    if PLAIN.load(Relaxed) {
        w.push(0)
    } else {
        raw(w, 1)
    }
}
fn section(w: &mut Vec<u8>, props: &[u8]) {
    w.extend_from_slice(&refm::var_bytes(props.len() as u32));
    w.extend_from_slice(props);
}

/// (first byte, body) of a packet of type nibble k for version ver with n list
/// entries (or payload bytes); `props` is its property section, `will` the will's
pub fn body(k: u8, ver: u8, n: usize, props: &[u8], will: &[u8], l: &mut Lens) -> (u8, Vec<u8>) {
    let mut w = vec![];
    let mut flags = 0;
    let v5 = ver == 5;
    match k {
        1 => {
            w.extend_from_slice(if sym::flip() { b"\0\x04MQTT" } else { b"\0\x06MQIsdp" });
            w.push(ver);
            // which parts are present is forked, the other flag bits are free
            let (user, pass, has_will) = (sym::flip(), sym::flip(), sym::flip());
            let f = sym::u8();
            w.push(f & 0x3b | (user as u8) << 7 | (pass as u8) << 6 | (has_will as u8) << 2);
            raw(&mut w, 2);
            if v5 {
                section(&mut w, props);
            }
            str(&mut w, l);
            if has_will {
                if v5 {
                    section(&mut w, will);
                }
                str(&mut w, l);
                str(&mut w, l);
            } else {
                l.skip();
                l.skip();
            }
            if user {
                str(&mut w, l);
            } else {
                l.skip();
            }
            if pass {
                str(&mut w, l);
            }
        }
        2 => {
            raw(&mut w, 1);
            raw(&mut w, 1);
            if v5 {
                section(&mut w, props);
            }
        }
        3 => {
            flags = sym::u8() & 15;
            str(&mut w, l);
            let q = sym::pick(4) as u8;
            flags = flags & 9 | q << 1;
            if q > 0 {
                raw(&mut w, 2);
            }
            if v5 {
                section(&mut w, props);
            }
            if n > 32 {
                w.extend_from_slice(&sym::big_bytes(n, 2));
            } else {
                raw(&mut w, n);
            }
        }
        4..=7 => {
            if k == 6 {
                flags = 2;
            }
            raw(&mut w, 2);
            if v5 {
                code(&mut w);
                section(&mut w, props);
            }
        }
        8..=11 => {
            if k & 1 == 0 {
                flags = 2;
            }
            raw(&mut w, 2);
            if v5 {
                section(&mut w, props);
            }
            for i in 0..n {
                if k & 1 == 0 {
                    if few(i, n) {
                        str(&mut w, l);
                    } else {
                        let m = l.next();
                        put16(&mut w, m as u16);
                        w.extend_from_slice(&sym::big_bytes(m, 0));
                    }
                }
                if k != 10 {
                    // long lists: arbitrary codes at both ends only
                    if few(i, n) {
                        raw(&mut w, 1);
                    } else {
                        w.push(if k == 8 { [0, 1, 2][i % 3] } else { 0 });
                    }
                }
            }
        }
        14 | 15 => {
            code(&mut w);
            if v5 {
                section(&mut w, props);
            }
        }
        _ => {}
    }
    (k << 4 | flags, w)
}
