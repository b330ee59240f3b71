//! Hash-consed bit-vector expression DAG (widths 1..=128), simplified on construction.
use std::collections::HashMap;

pub type Id = u32;
/// symbolic byte variables occurring in a node (at most 64*VW variables per path)
pub const VW: usize = 5;
pub type VSet = [u64; VW];


#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Op {
    Const, Var, Add, Sub, Mul, UDiv, URem, SDiv, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle, ZExt, SExt, Extract, Concat, Ite,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: Id,
    pub b: Id,
    pub c: Id,
    pub k: u128,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    map: HashMap<Node, Id, std::hash::BuildHasherDefault<Fx>>,
    /// unsigned range per node
    pub rng: Vec<(u128, u128)>,
    varsets: Vec<VSet>,
    // evaluation scratch
    stamp: Vec<u32>,
    evalv: Vec<u128>,
    gen: u32,
}

#[derive(Default, Clone)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64) } }
    fn write_u8(&mut self, i: u8) { self.write_u64(i as u64) }
    fn write_u32(&mut self, i: u32) { self.write_u64(i as u64) }
    fn write_u64(&mut self, i: u64) { self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95); }
    fn write_u128(&mut self, i: u128) { self.write_u64(i as u64); self.write_u64((i >> 64) as u64) }
    fn write_usize(&mut self, i: usize) { self.write_u64(i as u64) }
    fn write_isize(&mut self, i: isize) { self.write_u64(i as u64) }
}
pub type FxMap<K, V> = HashMap<K, V, std::hash::BuildHasherDefault<Fx>>;

pub fn mask(w: u8) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn sext(v: u128, w: u8) -> i128 {
    if w >= 128 { return v as i128; }
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

static mut CTX: Option<Ctx> = None;
#[allow(static_mut_refs)]
pub fn cx() -> &'static mut Ctx {
    // single-threaded by construction
    unsafe { CTX.get_or_insert_with(Ctx::new) }
}

pub fn fold(op: Op, w: u8, x: u128, y: u128) -> Option<u128> {
    // w: operand width
    let m = mask(w);
    Some(match op {
        Op::Add => x.wrapping_add(y) & m,
        Op::Sub => x.wrapping_sub(y) & m,
        Op::Mul => x.wrapping_mul(y) & m,
        Op::UDiv => if y == 0 { m } else { x / y },
        Op::URem => if y == 0 { x } else { x % y },
        Op::SDiv => if y == 0 { return None } else { (sext(x, w).wrapping_div(sext(y, w))) as u128 & m },
        Op::SRem => if y == 0 { return None } else { (sext(x, w).wrapping_rem(sext(y, w))) as u128 & m },
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Shl => if y >= w as u128 { 0 } else { (x << y) & m },
        Op::LShr => if y >= w as u128 { 0 } else { x >> y },
        Op::AShr => { let s = if y >= w as u128 { w as u32 - 1 } else { y as u32 }; ((sext(x, w) >> s) as u128) & m }
        Op::Eq => (x == y) as u128,
        Op::Ult => (x < y) as u128,
        Op::Ule => (x <= y) as u128,
        Op::Slt => (sext(x, w) < sext(y, w)) as u128,
        Op::Sle => (sext(x, w) <= sext(y, w)) as u128,
        _ => return None,
    })
}

impl Ctx {
    fn new() -> Ctx {
        Ctx { nodes: vec![], map: Default::default(), rng: vec![], varsets: vec![], stamp: vec![], evalv: vec![], gen: 0 }
    }
    fn intern(&mut self, n: Node) -> Id {
        if let Some(&i) = self.map.get(&n) { return i; }
        let id = self.nodes.len() as Id;
        let r = self.range_of(&n);
        self.nodes.push(n);
        self.rng.push(r);
        let vs = match n.op {
            Op::Const => [0; VW],
            Op::Var => { let mut v = [0; VW]; v[n.k as usize / 64] |= 1 << (n.k % 64); v }
            Op::ZExt | Op::SExt | Op::Extract => self.varsets[n.a as usize],
            Op::Ite => or(&or(&self.varsets[n.a as usize], &self.varsets[n.b as usize]), &self.varsets[n.c as usize]),
            _ => or(&self.varsets[n.a as usize], &self.varsets[n.b as usize]),
        };
        self.varsets.push(vs);
        self.stamp.push(0);
        self.evalv.push(0);
        self.map.insert(n, id);
        id
    }
    pub fn w(&self, i: Id) -> u8 { self.nodes[i as usize].w }
    pub fn is_const(&self, i: Id) -> Option<u128> {
        let n = &self.nodes[i as usize];
        if n.op == Op::Const { Some(n.k) } else { None }
    }
    pub fn konst(&mut self, w: u8, k: u128) -> Id {
        self.intern(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: k & mask(w) })
    }
    pub fn var(&mut self, idx: u32) -> Id {
        self.intern(Node { op: Op::Var, w: 8, a: 0, b: 0, c: 0, k: idx as u128 })
    }
    fn range_of(&self, n: &Node) -> (u128, u128) {
        let m = mask(n.w);
        let r = |i: Id| self.rng[i as usize];
        match n.op {
            Op::Const => (n.k, n.k),
            Op::ZExt => r(n.a),
            Op::And => (0, r(n.a).1.min(r(n.b).1)),
            Op::Or | Op::Xor => {
                let hi = r(n.a).1 | r(n.b).1;
                let bits = 128 - hi.leading_zeros();
                let up = if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 };
                let lo = if n.op == Op::Or { r(n.a).0.max(r(n.b).0) } else { 0 };
                (lo, up & m)
            }
            Op::LShr => {
                if let Some(k) = self.is_const(n.b) { if k < n.w as u128 { return (r(n.a).0 >> k, r(n.a).1 >> k); } else { return (0, 0); } }
                (0, r(n.a).1)
            }
            Op::Shl => {
                if let Some(k) = self.is_const(n.b) {
                    if k < n.w as u128 { let h = r(n.a).1; if h <= (m >> k) { return (r(n.a).0 << k, h << k); } }
                }
                (0, m)
            }
            Op::Add => {
                let (al, ah) = r(n.a); let (bl, bh) = r(n.b);
                match ah.checked_add(bh) { Some(h) if h <= m => (al + bl, h), _ => (0, m) }
            }
            Op::Sub => {
                let (al, ah) = r(n.a); let (bl, bh) = r(n.b);
                if al >= bh { (al - bh, ah - bl) } else { (0, m) }
            }
            Op::Mul => {
                let (al, ah) = r(n.a); let (bl, bh) = r(n.b);
                match ah.checked_mul(bh) { Some(h) if h <= m => (al * bl, h), _ => (0, m) }
            }
            Op::URem => { let (bl, bh) = r(n.b); if bl > 0 { (0, (bh - 1).min(r(n.a).1)) } else { (0, m) } }
            Op::UDiv => { let (bl, bh) = r(n.b); if bl > 0 { (r(n.a).0 / bh, r(n.a).1 / bl) } else { (0, m) } }
            Op::Ite => { let (bl, bh) = r(n.b); let (cl, ch) = r(n.c); (bl.min(cl), bh.max(ch)) }
            Op::Extract => if n.k == 0 { let (al, ah) = r(n.a); if ah <= m { (al, ah) } else { (0, m) } } else { let (al, ah) = r(n.a); let l = al >> n.k; let h = ah >> n.k; if h <= m { (l, h) } else { (0, m) } },
            Op::Concat => { let wb = self.w(n.b); let (al, ah) = r(n.a); let (bl, bh) = r(n.b); ((al << wb) | bl, (ah << wb) | bh) }
            _ => (0, m),
        }
    }
    pub fn not1(&mut self, a: Id) -> Id {
        debug_assert!(self.w(a) == 1);
        if let Some(k) = self.is_const(a) { return self.konst(1, k ^ 1); }
        let n = self.nodes[a as usize];
        // !(x ^ 1) = x
        if n.op == Op::Xor && self.is_const(n.b) == Some(1) { return n.a; }
        if n.op == Op::Ult { return self.bin(Op::Ule, n.b, n.a); }
        if n.op == Op::Ule { return self.bin(Op::Ult, n.b, n.a); }
        let one = self.konst(1, 1);
        self.intern(Node { op: Op::Xor, w: 1, a, b: one, c: 0, k: 0 })
    }
    pub fn bin(&mut self, op: Op, mut a: Id, mut b: Id) -> Id {
        let w = self.w(a);
        debug_assert!(w == self.w(b), "width mismatch {:?} {} {}", op, w, self.w(b));
        let cmp = matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle);
        let rw = if cmp { 1 } else { w };
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
            if let Some(r) = fold(op, w, x, y) { return self.konst(rw, r); }
        }
        let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq);
        if comm {
            let ac = self.is_const(a).is_some();
            let bc = self.is_const(b).is_some();
            if ac || (!bc && a > b) { std::mem::swap(&mut a, &mut b); }
        }
        let m = mask(w);
        let kb = self.is_const(b);
        let na = self.nodes[a as usize];
        match op {
            Op::Add | Op::Sub | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr if kb == Some(0) => return a,
            Op::And if kb == Some(m) => return a,
            Op::And if kb == Some(0) => return b,
            Op::Or if kb == Some(m) => return b,
            Op::Mul if kb == Some(1) => return a,
            Op::Mul if kb == Some(0) => return b,
            Op::UDiv if kb == Some(1) => return a,
            Op::And | Op::Or if a == b => return a,
            Op::Xor | Op::Sub if a == b => return self.konst(w, 0),
            Op::Eq | Op::Ule | Op::Sle if a == b => return self.konst(1, 1),
            Op::Ult | Op::Slt if a == b => return self.konst(1, 0),
            _ => {}
        }
        if w == 1 && op == Op::Xor && kb == Some(1) { return self.not1(a); }
        if w == 1 && op == Op::Eq {
            if kb == Some(1) { return a; }
            if kb == Some(0) { return self.not1(a); }
        }
        let (ra, rb) = (self.rng[a as usize], self.rng[b as usize]);
        match op {
            Op::Sub => if let Some(k) = kb {
                // a - k = a + (-k)
                let nk = self.konst(w, (0u128).wrapping_sub(k));
                // keep sub form when the range is known not to wrap (better ranges)
                if !(ra.0 >= k) { return self.bin(Op::Add, a, nk); }
            },
            Op::Add => if let Some(k) = kb {
                if na.op == Op::Add { if let Some(k2) = self.is_const(na.b) { let kk = self.konst(w, k.wrapping_add(k2)); return self.bin(Op::Add, na.a, kk); } }
                if na.op == Op::Sub { if let Some(k2) = self.is_const(na.b) { let kk = self.konst(w, k.wrapping_sub(k2)); return self.bin(Op::Add, na.a, kk); } }
            },
            Op::And => if let Some(k) = kb {
                if ra.1 <= k && (k + 1).is_power_of_two() { return a; }
                if na.op == Op::And { if let Some(k2) = self.is_const(na.b) { let kk = self.konst(w, k & k2); return self.bin(Op::And, na.a, kk); } }
                if na.op == Op::ZExt {
                    let iw = self.w(na.a);
                    let kk = self.konst(iw, k);
                    let x = self.bin(Op::And, na.a, kk);
                    return self.zext(x, w);
                }
                if na.op == Op::Ite { if let Some(r) = self.lift_ite(op, na, b) { return r; } }
            },
            Op::LShr => if let Some(k) = kb {
                if ra.1 < (1u128 << k.min(127)) { return self.konst(w, 0); }
                if na.op == Op::ZExt && k < self.w(na.a) as u128 {
                    let iw = self.w(na.a);
                    let kk = self.konst(iw, k);
                    let x = self.bin(Op::LShr, na.a, kk);
                    return self.zext(x, w);
                }
            },
            Op::Eq => if let Some(k) = kb {
                if k < ra.0 || k > ra.1 { return self.konst(1, 0); }
                match na.op {
                    Op::ZExt => { let iw = self.w(na.a); let kk = self.konst(iw, k); return self.bin(Op::Eq, na.a, kk); }
                    Op::Ite => { if let Some(r) = self.lift_ite(op, na, b) { return r; } }
                    Op::Xor => if let Some(k2) = self.is_const(na.b) { let kk = self.konst(w, k ^ k2); return self.bin(Op::Eq, na.a, kk); },
                    Op::Add => if let Some(k2) = self.is_const(na.b) { let kk = self.konst(w, k.wrapping_sub(k2)); return self.bin(Op::Eq, na.a, kk); },
                    Op::Concat => {
                        let wb = self.w(na.b);
                        let wa = self.w(na.a);
                        let k1 = self.konst(wa, k >> wb);
                        let k2 = self.konst(wb, k);
                        let e1 = self.bin(Op::Eq, na.a, k1);
                        let e2 = self.bin(Op::Eq, na.b, k2);
                        return self.bin(Op::And, e1, e2);
                    }
                    _ => {}
                }
            } else {
                if ra.1 < rb.0 || rb.1 < ra.0 { return self.konst(1, 0); }
                let nb = self.nodes[b as usize];
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { return self.bin(Op::Eq, na.a, nb.a); }
            },
            Op::Ult => {
                if ra.1 < rb.0 { return self.konst(1, 1); }
                if ra.0 >= rb.1 { return self.konst(1, 0); }
                let nb = self.nodes[b as usize];
                if na.op == Op::ZExt { if let Some(k) = kb { let iw = self.w(na.a); if k <= mask(iw) { let kk = self.konst(iw, k); return self.bin(Op::Ult, na.a, kk); } } }
                if nb.op == Op::ZExt { if let Some(k) = self.is_const(a) { let iw = self.w(nb.a); if k <= mask(iw) { let kk = self.konst(iw, k); return self.bin(Op::Ult, kk, nb.a); } } }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { return self.bin(Op::Ult, na.a, nb.a); }
                if na.op == Op::Ite && kb.is_some() { if let Some(r) = self.lift_ite(op, na, b) { return r; } }
                if kb == Some(1) { let z = self.konst(w, 0); return self.bin(Op::Eq, a, z); }
            }
            Op::Ule => {
                if ra.1 <= rb.0 { return self.konst(1, 1); }
                if ra.0 > rb.1 { return self.konst(1, 0); }
                let nb = self.nodes[b as usize];
                if na.op == Op::ZExt { if let Some(k) = kb { let iw = self.w(na.a); if k <= mask(iw) { let kk = self.konst(iw, k); return self.bin(Op::Ule, na.a, kk); } } }
                if nb.op == Op::ZExt { if let Some(k) = self.is_const(a) { let iw = self.w(nb.a); if k <= mask(iw) { let kk = self.konst(iw, k); return self.bin(Op::Ule, kk, nb.a); } } }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { return self.bin(Op::Ule, na.a, nb.a); }
                if na.op == Op::Ite && kb.is_some() { if let Some(r) = self.lift_ite(op, na, b) { return r; } }
            }
            Op::Slt | Op::Sle => {
                // both known non-negative: unsigned compare
                let half = 1u128 << (w - 1);
                if ra.1 < half && rb.1 < half { return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b); }
            }
            Op::Or if w == 1 => {}
            _ => {}
        }
        self.intern(Node { op, w: rw, a, b, c: 0, k: 0 })
    }
    /// op(ite(c, k1, k2), k) -> ite(c, op(k1,k), op(k2,k)) when an arm is constant (kept small)
    fn lift_ite(&mut self, op: Op, n: Node, b: Id) -> Option<Id> {
        if self.is_const(n.b).is_some() || self.is_const(n.c).is_some() {
            let x = self.bin(op, n.b, b);
            let y = self.bin(op, n.c, b);
            return Some(self.ite(n.a, x, y));
        }
        None
    }
    pub fn ite(&mut self, c: Id, a: Id, b: Id) -> Id {
        if let Some(k) = self.is_const(c) { return if k == 1 { a } else { b }; }
        if a == b { return a; }
        if self.w(a) == 1 {
            match (self.is_const(a), self.is_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not1(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => { let nc = self.not1(c); return self.bin(Op::And, nc, b); }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => { let nc = self.not1(c); return self.bin(Op::Or, nc, a); }
                _ => {}
            }
        }
        let nc = self.nodes[c as usize];
        if nc.op == Op::Xor && self.is_const(nc.b) == Some(1) && nc.w == 1 { return self.ite(nc.a, b, a); }
        let w = self.w(a);
        self.intern(Node { op: Op::Ite, w, a: c, b: a, c: b, k: 0 })
    }
    pub fn zext(&mut self, a: Id, w: u8) -> Id {
        let aw = self.w(a);
        if aw == w { return a; }
        if let Some(k) = self.is_const(a) { return self.konst(w, k); }
        let n = self.nodes[a as usize];
        if n.op == Op::ZExt { return self.zext(n.a, w); }
        self.intern(Node { op: Op::ZExt, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn sext(&mut self, a: Id, w: u8) -> Id {
        let aw = self.w(a);
        if aw == w { return a; }
        if let Some(k) = self.is_const(a) { return self.konst(w, sext(k, aw) as u128); }
        if self.rng[a as usize].1 < (1u128 << (aw - 1)) { return self.zext(a, w); }
        self.intern(Node { op: Op::SExt, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn extract(&mut self, a: Id, lo: u8, w: u8) -> Id {
        let aw = self.w(a);
        if lo == 0 && w == aw { return a; }
        if let Some(k) = self.is_const(a) { return self.konst(w, k >> lo); }
        if self.rng[a as usize].1 >> lo == 0 { return self.konst(w, 0); }
        let n = self.nodes[a as usize];
        match n.op {
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw { return self.konst(w, 0); }
                if lo + w <= iw { return self.extract(n.a, lo, w); }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::SExt => { let iw = self.w(n.a); if lo + w <= iw { return self.extract(n.a, lo, w); } }
            Op::Extract => return self.extract(n.a, lo + n.k as u8, w),
            Op::Concat => {
                let wb = self.w(n.b);
                if lo + w <= wb { return self.extract(n.b, lo, w); }
                if lo >= wb { return self.extract(n.a, lo - wb, w); }
            }
            Op::Ite => {
                if self.is_const(n.b).is_some() || self.is_const(n.c).is_some() {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                // bytewise ops distribute
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Shl => if let Some(k) = self.is_const(n.b) {
                let k = k as u8;
                if lo >= k { return self.extract(n.a, lo - k, w); }
                if lo + w <= k { return self.konst(w, 0); }
            },
            Op::LShr => if let Some(k) = self.is_const(n.b) {
                let k = k as u8;
                if lo as u32 + k as u32 + w as u32 <= aw as u32 { return self.extract(n.a, lo + k, w); }
            },
            Op::Add | Op::Mul | Op::Sub if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            _ => {}
        }
        self.intern(Node { op: Op::Extract, w, a, b: 0, c: 0, k: lo as u128 })
    }
    /// a is the high part
    pub fn concat(&mut self, a: Id, b: Id) -> Id {
        let (wa, wb) = (self.w(a), self.w(b));
        let w = wa + wb;
        if let Some(k) = self.is_const(a) {
            if k == 0 { return self.zext(b, w); }
            if let Some(k2) = self.is_const(b) { return self.konst(w, (k << wb) | k2); }
        }
        let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
        if na.op == Op::ZExt { let x = self.concat(na.a, b); return self.zext(x, w); }
        if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a && na.k == nb.k + wb as u128 {
            return self.extract(na.a, nb.k as u8, w);
        }
        self.intern(Node { op: Op::Concat, w, a, b, c: 0, k: 0 })
    }
    pub fn vars(&self, i: Id) -> Vec<u32> {
        let b = &self.varsets[i as usize];
        let mut v = vec![];
        for (k, w) in b.iter().enumerate() { let mut w = *w; while w != 0 { v.push(k as u32 * 64 + w.trailing_zeros()); w &= w - 1; } }
        v
    }
    pub fn vset(&self, i: Id) -> VSet { self.varsets[i as usize] }
    pub fn eval_begin(&mut self) { self.gen += 1; }
    /// evaluate under an assignment of the byte variables (missing = 0); call eval_begin first
    pub fn eval(&mut self, i: Id, m: &[u8]) -> u128 {
        if self.stamp[i as usize] == self.gen { return self.evalv[i as usize]; }
        let n = self.nodes[i as usize];
        let r = match n.op {
            Op::Const => n.k,
            Op::Var => *m.get(n.k as usize).unwrap_or(&0) as u128,
            Op::ZExt => self.eval(n.a, m),
            Op::SExt => { let aw = self.w(n.a); sext(self.eval(n.a, m), aw) as u128 & mask(n.w) }
            Op::Extract => (self.eval(n.a, m) >> n.k) & mask(n.w),
            Op::Concat => { let wb = self.w(n.b); (self.eval(n.a, m) << wb) | self.eval(n.b, m) }
            Op::Ite => if self.eval(n.a, m) == 1 { self.eval(n.b, m) } else { self.eval(n.c, m) },
            _ => {
                let x = self.eval(n.a, m);
                let y = self.eval(n.b, m);
                let w = self.w(n.a);
                fold(n.op, w, x, y).unwrap_or(0)
            }
        };
        self.stamp[i as usize] = self.gen;
        self.evalv[i as usize] = r;
        r
    }
    pub fn show(&self, i: Id, depth: u32) -> String {
        let n = &self.nodes[i as usize];
        if depth == 0 { return "..".into(); }
        match n.op {
            Op::Const => format!("{:#x}:{}", n.k, n.w),
            Op::Var => format!("b{}", n.k),
            Op::ZExt | Op::SExt => format!("({:?}{} {})", n.op, n.w, self.show(n.a, depth - 1)),
            Op::Extract => format!("{}[{}+{}]", self.show(n.a, depth - 1), n.k, n.w),
            Op::Ite => format!("(ite {} {} {})", self.show(n.a, depth - 1), self.show(n.b, depth - 1), self.show(n.c, depth - 1)),
            _ => format!("({:?} {} {})", n.op, self.show(n.a, depth - 1), self.show(n.b, depth - 1)),
        }
    }
}

fn or(a: &VSet, b: &VSet) -> VSet { let mut r = *a; for i in 0..VW { r[i] |= b[i]; } r }
