pub mod dec;
pub mod enc;
pub mod gen;
pub mod misc;
pub mod reader;
pub mod refm;
pub mod same;
#[cfg(feature = "ser")]
pub mod ser;
pub mod sym;
pub mod wire;
use mqtt_packet_3_5::*;
use std::io::Read;

/// delivers everything it has, up to the caller's buffer
pub struct Feed {
    pub data: Vec<u8>,
    pub pos: usize,
}
impl Read for Feed {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = buf.len().min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

pub fn decoder(data: Vec<u8>) -> PacketDecoder<Feed> {
    PacketDecoder::from_stream(Feed { data, pos: 0 })
}

macro_rules! harnesses {
    ($table:ident: $($name:ident => $f:path),* $(,)?) => {
        $(#[no_mangle] pub extern "C" fn $name() { $f() })*
        pub const $table: &[(&str, fn())] = &[$((stringify!($name), $f)),*];
    };
}

harnesses! {
    TABLE:
    harness_frame => dec::frame,
    harness_connect => dec::connect,
    harness_props => dec::props,
    harness_allprops => dec::allprops,
    harness_wire => dec::wire,
    harness_stream => dec::stream,
    harness_pair => dec::pair,
    harness_cut => dec::cut,
    harness_short => dec::short,
    harness_header => dec::header,
    harness_chunk => dec::chunk,
    harness_fault => dec::fault,
    harness_session => dec::session,
    harness_seq => dec::seq,
    harness_twice => dec::twice,
    harness_many => dec::many,
    harness_later => dec::later,
    harness_hist => enc::hist,
    harness_keys => dec::keys,
    harness_split => dec::split,
    harness_huge => enc::huge,
    harness_direct => enc::direct,
    harness_enc => enc::enc,
    harness_any => enc::any,
    harness_iso => enc::iso,
    harness_long => enc::long,
    harness_varint => misc::varint,
    harness_varread => misc::varread,
    harness_codes => misc::codes,
    harness_fixed => misc::fixed,
    harness_flags => misc::flags,
    harness_make => misc::make,
    harness_prim => misc::prim,
    harness_propio => misc::propio,
    harness_eq => same::eq,
    harness_eqcode => same::eqcode,
    harness_limits => reader::limits,
}

#[cfg(feature = "ser")]
harnesses! {
    SER:
    harness_ser => ser::ser,
    harness_serpart => ser::serpart,
}
#[cfg(not(feature = "ser"))]
pub const SER: &[(&str, fn())] = &[];
