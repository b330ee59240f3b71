//! Path-wise symbolic execution of the IR.
use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Obj {
    size: u64,
    data: Vec<u8>,
    sym: BTreeMap<u64, Id>,
}

/// an address is an object number and an offset
const SH: u32 = 40;
const OFF: u64 = (1 << SH) - 1;

#[derive(Clone)]
pub struct Frame {
    f: Rc<Func>,
    block: u32,
    ip: u32,
    regs: Vec<Val>,
    allocas: Vec<u32>,
    ret: Option<u32>,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Rc<Frame>>,
    mem: Vec<Option<Rc<Obj>>>,
    free: Vec<u32>,
    globals: FxMap<u32, Rc<Obj>>,
    pc: Vec<Id>,
    known: FxMap<Id, bool>,
    fixed: VSet,
    model: Rc<Vec<u8>>,
    nvars: u32,
    outs: Vec<Val>,
    covers: Vec<u64>,
    instrs: u64,
    depth: u32,
    alloc_hi: Option<Id>,
}

#[derive(Debug)]
pub enum Stop {
    /// path ended normally
    Done,
    /// assumption false on the whole path
    Pruned,
    Bug(String, String),
    Err(String),
    Budget(String),
}
type X<T> = Result<T, Stop>;
fn err<T>(s: impl Into<String>) -> X<T> { Err(Stop::Err(s.into())) }

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind { Normal, Intr, Panic, Redirect(u32, u8), Harness, Ext }

pub struct Violation { pub kind: String, pub msg: String, pub model: Vec<u8>, pub trace: Vec<String> }
pub struct Witness { pub model: Vec<u8>, pub outs: Vec<u64>, pub covers: Vec<u64>, pub instrs: u64 }

pub struct Cfg {
    pub params: Vec<u64>,
    pub max_path_instrs: u64,
    pub deadline: Instant,
    pub max_violations: usize,
    pub max_paths: u64,
    pub witness_every: u64,
    pub verbose: bool,
    pub concrete: Option<Vec<u8>>,
}

pub struct Eng {
    pub m: Module,
    pub solver: Solver,
    pub cfg: Cfg,
    work: Vec<State>,
    kinds: Vec<Option<Kind>>,
    gaddr: Vec<(u64, u32)>,
    base_globals: Vec<Rc<Obj>>,
    pub violations: Vec<Violation>,
    pub witnesses: Vec<Witness>,
    pub covers: BTreeMap<u64, u64>,
    pub paths: u64,
    pub pruned: u64,
    pub forks: u64,
    pub instrs: u64,
    pub max_instrs: u64,
    pub asserts: u64,
    pub asserts_symbolic: u64,
    pub max_depth: usize,
    pub max_vars: u32,
    pub executed: BTreeSet<u32>,
    pub redirected: BTreeMap<String, u64>,
    seen_bugs: BTreeMap<String, usize>,
    opseen: FxMap<u32, u64>,
}

fn subset(a: &VSet, b: &VSet) -> bool { (0..VW).all(|i| a[i] & !b[i] == 0) }
fn meets(a: &VSet, b: &VSet) -> bool { (0..VW).any(|i| a[i] & b[i] != 0) }

impl Eng {
    pub fn new(m: Module, cfg: Cfg, solver_ms: u32) -> Eng {
        let gaddr: Vec<(u64, u32)> = m.globals.iter().enumerate().map(|(i, g)| (g.addr, i as u32)).collect();
        let base_globals = m.globals.iter().map(|g| Rc::new(Obj { size: g.size, data: g.data.clone(), sym: BTreeMap::new() })).collect();
        let n = m.fns.len();
        Eng {
            m, solver: Solver::new(solver_ms), cfg, work: vec![], kinds: vec![None; n], gaddr, base_globals, violations: vec![], witnesses: vec![],
            covers: BTreeMap::new(), paths: 0, pruned: 0, forks: 0, instrs: 0, max_instrs: 0, asserts: 0, asserts_symbolic: 0, max_depth: 0, max_vars: 0,
            executed: BTreeSet::new(), redirected: BTreeMap::new(), seen_bugs: BTreeMap::new(), opseen: Default::default(),
        }
    }

    pub fn run(&mut self, entry: &str) -> Result<(), String> {
        let f = *self.m.fidx.get(entry).ok_or(format!("no function {}", entry))?;
        let fun = self.m.func(f)?;
        let st = State {
            frames: vec![Rc::new(Frame { regs: vec![Val::C(0); fun.nregs], f: fun, block: 0, ip: 0, allocas: vec![], ret: None })],
            mem: vec![None], free: vec![], globals: Default::default(), pc: vec![], known: Default::default(), fixed: [0; VW], model: Rc::new(vec![]),
            nvars: 0, outs: vec![], covers: vec![], instrs: 0, depth: 0, alloc_hi: None,
        };
        self.executed.insert(f);
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            let r = self.run_path(&mut st);
            self.max_instrs = self.max_instrs.max(st.instrs);
            self.max_vars = self.max_vars.max(st.nvars);
            match r {
                Ok(()) => unreachable!(),
                Err(Stop::Done) => self.finish(&st),
                Err(Stop::Pruned) => self.pruned += 1,
                Err(Stop::Bug(k, msg)) => {
                    self.paths += 1;
                    self.bug(&st, &k, &msg, st.model.to_vec());
                    if self.violations.len() >= self.cfg.max_violations || self.seen_bugs.values().sum::<usize>() >= 40 { return Ok(()); }
                }
                Err(Stop::Err(e)) => return Err(format!("{}\n{}", e, self.backtrace(&st).join("\n"))),
                Err(Stop::Budget(e)) => return Err(format!("budget: {}", e)),
            }
            if self.paths + self.pruned > self.cfg.max_paths { return Err("budget: paths".into()); }
        }
        Ok(())
    }

    fn bug(&mut self, st: &State, kind: &str, msg: &str, model: Vec<u8>) {
        let key = format!("{} {}", kind, msg);
        let n = self.seen_bugs.entry(key).or_insert(0);
        *n += 1;
        if *n > 3 { return; }
        let trace = self.backtrace(st);
        let mut model = model;
        model.resize(st.nvars as usize, 0);
        self.violations.push(Violation { kind: kind.into(), msg: msg.into(), model, trace });
    }

    fn finish(&mut self, st: &State) {
        self.paths += 1;
        for c in &st.covers { *self.covers.entry(*c).or_insert(0) += 1; }
        let p = self.paths;
        if p <= 8 || (self.cfg.witness_every > 0 && p % self.cfg.witness_every == 0) {
            cx().eval_begin();
            let outs = st.outs.iter().map(|v| match v { Val::C(k) => *k as u64, Val::E(i) => cx().eval(*i, &st.model) as u64, _ => 0 }).collect();
            let mut model = st.model.to_vec();
            model.resize(st.nvars as usize, 0);
            self.witnesses.push(Witness { model, outs, covers: st.covers.clone(), instrs: st.instrs });
        }
    }

    fn backtrace(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(12).map(|f| format!("{} block {} ip {}", f.f.name, f.f.blocks[f.block as usize].name, f.ip)).collect()
    }

    // ---------- path condition ----------
    fn add(&mut self, st: &mut State, c: Id) {
        if cx().is_const(c).is_some() { return; }
        st.pc.push(c);
        self.learn(st, c, true);
    }
    fn learn(&mut self, st: &mut State, c: Id, truth: bool) {
        st.known.insert(c, truth);
        let n = cx().nodes[c as usize];
        if n.w == 1 && n.op == Op::Xor && cx().is_const(n.b) == Some(1) { self.learn(st, n.a, !truth); return; }
        if truth && n.op == Op::And { self.learn(st, n.a, true); self.learn(st, n.b, true); }
        if !truth && n.op == Op::Or { self.learn(st, n.a, false); self.learn(st, n.b, false); }
        if truth && n.op == Op::Eq && cx().is_const(n.b).is_some() {
            let x = cx().nodes[n.a as usize];
            if x.op == Op::Var { st.fixed[x.k as usize / 64] |= 1 << (x.k % 64); }
        }
        if truth && n.op == Op::Ule && cx().is_const(n.b) == Some(0) {
            let x = cx().nodes[n.a as usize];
            if x.op == Op::Var { st.fixed[x.k as usize / 64] |= 1 << (x.k % 64); }
        }
    }
    fn slice(&self, st: &State, c: Id) -> Vec<Id> {
        let mut vs = cx().vset(c);
        let mut used = vec![false; st.pc.len()];
        let mut out = vec![c];
        loop {
            let mut ch = false;
            for (i, &k) in st.pc.iter().enumerate() {
                if used[i] { continue; }
                let kv = cx().vset(k);
                if meets(&kv, &vs) {
                    used[i] = true;
                    out.push(k);
                    if !subset(&kv, &vs) { for j in 0..VW { vs[j] |= kv[j]; } ch = true; }
                }
            }
            if !ch { break; }
        }
        out
    }
    /// truth of c on this path if already settled without the solver
    fn settled(&self, st: &State, c: Id) -> Option<bool> {
        let mut fuel = 400;
        self.settled_in(st, c, &mut fuel)
    }
    fn settled_in(&self, st: &State, c: Id, fuel: &mut u32) -> Option<bool> {
        if let Some(k) = cx().is_const(c) { return Some(k == 1); }
        if let Some(&k) = st.known.get(&c) { return Some(k); }
        if subset(&cx().vset(c), &st.fixed) { cx().eval_begin(); return Some(cx().eval(c, &st.model) == 1); }
        // shared subterms: bounded walk, giving up is always sound
        if *fuel == 0 { return None; }
        *fuel -= 1;
        let n = cx().nodes[c as usize];
        match n.op {
            Op::And | Op::Or if n.w == 1 => {
                let dom = n.op == Op::Or;
                let x = self.settled_in(st, n.a, fuel);
                if x == Some(dom) { return x; }
                let y = self.settled_in(st, n.b, fuel);
                if y == Some(dom) { return y; }
                if x.is_some() && y.is_some() { Some(!dom) } else { None }
            }
            Op::Xor if n.w == 1 && cx().is_const(n.b) == Some(1) => self.settled_in(st, n.a, fuel).map(|x| !x),
            _ => None,
        }
    }
    fn with_model(model: &Rc<Vec<u8>>, m: &[(u32, u8)]) -> Rc<Vec<u8>> {
        let mut v = model.to_vec();
        for &(i, x) in m { if v.len() <= i as usize { v.resize(i as usize + 1, 0); } v[i as usize] = x; }
        Rc::new(v)
    }
    /// Decide a branch: both feasible sides are explored (the other one from a copy that re-executes this instruction).
    fn decide(&mut self, st: &mut State, c: Id) -> X<bool> {
        if let Some(b) = self.settled(st, c) { return Ok(b); }
        cx().eval_begin();
        let v = cx().eval(c, &st.model) == 1;
        let nc = cx().not1(c);
        let (lit, other) = if v { (c, nc) } else { (nc, c) };
        match self.solver.check(self.slice(st, other)) {
            Res::Sat(m) => {
                let mut sib = st.clone();
                sib.model = Self::with_model(&st.model, &m);
                self.add(&mut sib, other);
                sib.depth += 1;
                self.forks += 1;
                if self.cfg.verbose { let f = st.frames.last().unwrap(); eprintln!("fork {} in {} {}/{}", cx().show(c, 5), f.f.name, f.f.blocks[f.block as usize].name, f.ip); }
                self.work.push(sib);
                self.add(st, lit);
            }
            Res::Unsat => { self.learn(st, lit, true); }
            Res::Unknown => return Err(Stop::Budget("solver timeout on a branch".into())),
        }
        Ok(v)
    }
    fn concretize(&mut self, st: &mut State, e: Id) -> X<u128> {
        if let Some(k) = cx().is_const(e) { return Ok(k); }
        let w = cx().w(e);
        loop {
            cx().eval_begin();
            let v = cx().eval(e, &st.model);
            if subset(&cx().vset(e), &st.fixed) { return Ok(v); }
            let k = cx().konst(w, v);
            let c = cx().bin(Op::Eq, e, k);
            if self.decide(st, c)? { return Ok(v); }
        }
    }
    fn conc(&mut self, st: &mut State, v: &Val) -> X<u128> {
        match v { Val::C(k) => Ok(*k), Val::E(i) => self.concretize(st, *i), Val::A(_) => err("concretize aggregate") }
    }

    // ---------- values ----------
    fn simp(&self, st: &State, v: Val) -> Val {
        if let Val::E(i) = v {
            if let Some(k) = cx().is_const(i) { return Val::C(k); }
            if subset(&cx().vset(i), &st.fixed) { cx().eval_begin(); return Val::C(cx().eval(i, &st.model)); }
        }
        v
    }
    #[inline]
    fn op(&self, st: &State, o: &Opd) -> Val {
        match o {
            Opd::K(v) => v.clone(),
            Opd::R(r) => {
                let v = &st.frames.last().unwrap().regs[*r as usize];
                match v { Val::C(k) => Val::C(*k), Val::E(_) => self.simp(st, v.clone()), v => v.clone() }
            }
        }
    }
    #[inline]
    fn set(&self, st: &mut State, d: u32, v: Val) {
        if d == u32::MAX { return; }
        let v = match v { Val::E(i) => match cx().is_const(i) { Some(k) => Val::C(k), None => Val::E(i) }, v => v };
        Rc::make_mut(st.frames.last_mut().unwrap()).regs[d as usize] = v;
    }
    fn id(v: &Val, w: u8) -> Id { match v { Val::C(k) => cx().konst(w, *k), Val::E(i) => *i, Val::A(_) => panic!("aggregate as scalar") } }

    fn bin(&self, op: BinOp, w: u8, a: &Val, b: &Val) -> X<Val> {
        let o = match op { BinOp::Add => Op::Add, BinOp::Sub => Op::Sub, BinOp::Mul => Op::Mul, BinOp::UDiv => Op::UDiv, BinOp::SDiv => Op::SDiv, BinOp::URem => Op::URem, BinOp::SRem => Op::SRem, BinOp::And => Op::And, BinOp::Or => Op::Or, BinOp::Xor => Op::Xor, BinOp::Shl => Op::Shl, BinOp::LShr => Op::LShr, BinOp::AShr => Op::AShr };
        if let (Val::C(x), Val::C(y)) = (a, b) {
            if matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) && *y == 0 { return Err(Stop::Bug("ub".into(), "division by zero".into())); }
            return Ok(Val::C(fold(o, w, *x, *y).unwrap_or(0)));
        }
        Ok(Val::E(cx().bin(o, Self::id(a, w), Self::id(b, w))))
    }
    fn cmp(&self, p: Pred, w: u8, a: &Val, b: &Val) -> Val {
        let (o, sw, neg) = match p {
            Pred::Eq => (Op::Eq, false, false), Pred::Ne => (Op::Eq, false, true),
            Pred::Ult => (Op::Ult, false, false), Pred::Ule => (Op::Ule, false, false), Pred::Ugt => (Op::Ult, true, false), Pred::Uge => (Op::Ule, true, false),
            Pred::Slt => (Op::Slt, false, false), Pred::Sle => (Op::Sle, false, false), Pred::Sgt => (Op::Slt, true, false), Pred::Sge => (Op::Sle, true, false),
        };
        let (x, y) = if sw { (b, a) } else { (a, b) };
        if let (Val::C(x), Val::C(y)) = (x, y) { let r = fold(o, w, *x, *y).unwrap(); return Val::C(r ^ neg as u128); }
        let mut e = cx().bin(o, Self::id(x, w), Self::id(y, w));
        if neg { e = cx().not1(e); }
        Val::E(e)
    }

    // ---------- memory ----------
    fn alloc(&mut self, st: &mut State, size: u64) -> u64 {
        let o = Rc::new(Obj { size, data: vec![], sym: BTreeMap::new() });
        let id = if let Some(i) = st.free.pop() { st.mem[i as usize] = Some(o); i } else { st.mem.push(Some(o)); st.mem.len() as u32 - 1 };
        (id as u64) << SH
    }
    fn release(&mut self, st: &mut State, addr: u64) -> X<()> {
        let id = (addr >> SH) as usize;
        if addr & OFF != 0 || id == 0 || id >= st.mem.len() || st.mem[id].is_none() { return Err(Stop::Bug("ub".into(), "free of a bad pointer".into())); }
        st.mem[id] = None;
        st.free.push(id as u32);
        Ok(())
    }
    /// (object key, offset, size)
    fn find(&self, st: &State, addr: u64) -> Option<(u64, u64, u64)> {
        let id = addr >> SH;
        if id == 0 {
            let i = self.gaddr.partition_point(|g| g.0 <= addr);
            if i == 0 { return None; }
            let (a, g) = self.gaddr[i - 1];
            let sz = self.m.globals[g as usize].size;
            if addr - a > sz { return None; }
            return Some((g as u64, addr - a, sz));
        }
        match st.mem.get(id as usize) { Some(Some(o)) => Some((id << SH, addr & OFF, o.size)), _ => None }
    }
    fn obj<'a>(&'a self, st: &'a State, key: u64) -> &'a Obj {
        if key >> SH == 0 { match st.globals.get(&(key as u32)) { Some(o) => o, None => &self.base_globals[key as usize] } }
        else { st.mem[(key >> SH) as usize].as_ref().unwrap() }
    }
    fn obj_mut<'a>(&self, st: &'a mut State, key: u64) -> &'a mut Obj {
        if key >> SH == 0 {
            let b = &self.base_globals[key as usize];
            Rc::make_mut(st.globals.entry(key as u32).or_insert_with(|| b.clone()))
        } else { Rc::make_mut(st.mem[(key >> SH) as usize].as_mut().unwrap()) }
    }
    fn loc(&self, st: &State, addr: u64, n: u64) -> X<(u64, u64)> {
        match self.find(st, addr) {
            Some((k, off, size)) if off.checked_add(n).map_or(false, |e| e <= size) => Ok((k, off)),
            Some((_, off, size)) => Err(Stop::Bug("ub".into(), format!("out-of-bounds access of {} bytes at offset {} of an object of {} bytes", n, off, size))),
            None => Err(Stop::Bug("ub".into(), format!("access through invalid pointer {:#x}", addr))),
        }
    }
    fn load_obj(&self, st: &State, key: u64, off: u64, ty: &Ty) -> Val {
        match ty {
            Ty::Struct(..) | Ty::Array(..) | Ty::Vec(..) => {
                if let Ty::Vec(n, t) = ty { if **t == Ty::Int(1) {
                    let v = self.load_obj(st, key, off, &Ty::Int((*n as u8).next_power_of_two().max(8)));
                    return Val::A(Rc::new((0..*n).map(|i| match &v { Val::C(k) => Val::C((k >> i) & 1), Val::E(e) => Val::E(cx().extract(*e, i as u8, 1)), _ => Val::C(0) }).collect()));
                } }
                let n = match ty { Ty::Struct(_, fs) => fs.len() as u64, Ty::Array(n, _) | Ty::Vec(n, _) => *n, _ => 0 };
                Val::A(Rc::new((0..n).map(|i| { let (o, f) = ty.field(i); self.load_obj(st, key, off + o, &f) }).collect()))
            }
            _ => {
                let n = ((ty.bits() as u64) + 7) / 8;
                let o = self.obj(st, key);
                if o.sym.is_empty() || o.sym.range(off..off + n).next().is_none() {
                    let mut k = 0u128;
                    for i in 0..n { let b = o.data.get((off + i) as usize).copied().unwrap_or(0); k |= (b as u128) << (8 * i); }
                    return Val::C(k & mask(ty.bits()));
                }
                let mut acc: Option<Id> = None;
                for i in (0..n).rev() {
                    let b = match o.sym.get(&(off + i)) { Some(&e) => e, None => cx().konst(8, o.data.get((off + i) as usize).copied().unwrap_or(0) as u128) };
                    acc = Some(match acc { None => b, Some(h) => cx().concat(h, b) });
                }
                let mut e = acc.unwrap();
                if ty.bits() as u64 != n * 8 { e = cx().extract(e, 0, ty.bits()); }
                self.simp(st, Val::E(e))
            }
        }
    }
    fn store_obj(&self, st: &mut State, key: u64, off: u64, ty: &Ty, v: &Val) {
        match (ty, v) {
            // vectors of bits are stored packed
            (Ty::Vec(n, t), Val::A(_)) if **t == Ty::Int(1) => {
                let w = (*n as u8).next_power_of_two().max(8);
                let b = match self.cast(Cast::Bitcast, ty, &Ty::Int(*n as u8), v.clone()) { Ok(b) => b, Err(_) => return };
                let b = match b { Val::E(e) if (*n as u8) < w => Val::E(cx().zext(e, w)), b => b };
                self.store_obj(st, key, off, &Ty::Int(w), &b);
            }
            (_, Val::A(xs)) => for (i, x) in xs.iter().enumerate() { let (o, f) = ty.field(i as u64); self.store_obj(st, key, off + o, &f, x); },
            (_, Val::C(k)) => {
                let n = (ty.bits() as usize + 7) / 8;
                let o = self.obj_mut(st, key);
                let e = off as usize + n;
                if o.data.len() < e { o.data.resize(e, 0); }
                for i in 0..n { o.data[off as usize + i] = (k >> (8 * i)) as u8; }
                if !o.sym.is_empty() { for i in 0..n { o.sym.remove(&(off + i as u64)); } }
            }
            (_, Val::E(id)) => {
                let w = ty.bits();
                let n = (w as usize + 7) / 8;
                let mut id = *id;
                if w as usize != n * 8 { id = cx().zext(id, (n * 8) as u8); }
                let parts: Vec<Id> = (0..n).map(|i| cx().extract(id, (8 * i) as u8, 8)).collect();
                let o = self.obj_mut(st, key);
                let e = off as usize + n;
                if o.data.len() < e { o.data.resize(e, 0); }
                for (i, p) in parts.into_iter().enumerate() {
                    let at = off + i as u64;
                    match cx().is_const(p) { Some(k) => { o.data[at as usize] = k as u8; o.sym.remove(&at); } None => { o.sym.insert(at, p); } }
                }
            }
        }
    }
    /// split a symbolic address into object and offset expression
    fn split(&self, st: &State, e: Id) -> Option<(u64, u64, Id)> {
        // returns (object key, size, offset id (64 bit))
        let n = cx().nodes[e as usize];
        let (rest, k) = match n.op {
            Op::Add => match cx().is_const(n.b) { Some(k) => (n.a, k as u64), None => return None },
            _ => return None,
        };
        // the constant may carry a small displacement before/after the base
        let (key, off, size) = self.find(st, k)?;
        let off = cx().konst(64, off as u128);
        Some((key, size, cx().bin(Op::Add, rest, off)))
    }
    fn load(&mut self, st: &mut State, p: &Val, ty: &Ty) -> X<Val> {
        let n = ty.size();
        match p {
            Val::C(a) => {
                let (k, off) = self.loc(st, *a as u64, n)?;
                Ok(self.load_obj(st, k, off, ty))
            }
            Val::E(e) => {
                if matches!(ty, Ty::Int(_) | Ty::Ptr) {
                    if let Some((key, size, off)) = self.split(st, *e) {
                        if size >= n && size <= 4096 {
                            let lim = cx().konst(64, (size - n) as u128);
                            let oob = cx().bin(Op::Ult, lim, off);
                            let inb = match self.settled(st, oob) {
                                Some(b) => !b,
                                None => match self.solver.check(self.slice(st, oob)) { Res::Unsat => true, Res::Sat(_) => false, Res::Unknown => return Err(Stop::Budget("solver timeout".into())) },
                            };
                            if inb {
                                let (lo, hi) = cx().rng[off as usize];
                                let hi = hi.min((size - n) as u128);
                                let stride = 1u128 << tz(off).min(6);
                                if (hi - lo) / stride <= 300 && ty != &Ty::Ptr {
                                    let w = ty.bits();
                                    let mut acc: Option<Id> = None;
                                    let mut o = lo + (stride - lo % stride) % stride;
                                    while o <= hi {
                                        let v = self.load_obj(st, key, o as u64, ty);
                                        let v = Self::id(&v, w);
                                        acc = Some(match acc { None => v, Some(a) => { let k = cx().konst(64, o); let c = cx().bin(Op::Eq, off, k); cx().ite(c, v, a) } });
                                        o += stride;
                                    }
                                    if let Some(a) = acc { return Ok(Val::E(a)); }
                                }
                            }
                        }
                    }
                }
                let a = self.concretize(st, *e)?;
                self.load(st, &Val::C(a), ty)
            }
            _ => err("load pointer"),
        }
    }
    fn store(&mut self, st: &mut State, p: &Val, ty: &Ty, v: &Val) -> X<()> {
        let a = self.conc(st, p)? as u64;
        let (k, off) = self.loc(st, a, ty.size())?;
        self.store_obj(st, k, off, ty, v);
        Ok(())
    }
    fn get_bytes(&self, st: &State, a: u64, n: u64) -> X<Vec<(u8, Option<Id>)>> {
        if n == 0 { return Ok(vec![]); }
        let (k, off) = self.loc(st, a, n)?;
        let o = self.obj(st, k);
        let mut v: Vec<(u8, Option<Id>)> = (0..n).map(|i| (o.data.get((off + i) as usize).copied().unwrap_or(0), None)).collect();
        if !o.sym.is_empty() { for (&at, &e) in o.sym.range(off..off + n) {
            if subset(&cx().vset(e), &st.fixed) { cx().eval_begin(); v[at as usize - off as usize] = (cx().eval(e, &st.model) as u8, None); }
            else { v[at as usize - off as usize].1 = Some(e); }
        } }
        Ok(v)
    }
    fn put_bytes(&self, st: &mut State, a: u64, v: &[(u8, Option<Id>)]) -> X<()> {
        if v.is_empty() { return Ok(()); }
        let (k, off) = self.loc(st, a, v.len() as u64)?;
        let o = self.obj_mut(st, k);
        let e = off as usize + v.len();
        if o.data.len() < e { o.data.resize(e, 0); }
        for (i, (b, s)) in v.iter().enumerate() {
            o.data[off as usize + i] = *b;
            match s { Some(x) => { o.sym.insert(off + i as u64, *x); } None => { if !o.sym.is_empty() { o.sym.remove(&(off + i as u64)); } } }
        }
        Ok(())
    }
    fn byte_ids(v: &[(u8, Option<Id>)]) -> Vec<Id> { v.iter().map(|(b, s)| s.unwrap_or_else(|| cx().konst(8, *b as u128))).collect() }

    // ---------- calls ----------
    fn kind(&mut self, f: u32) -> Kind {
        if let Some(k) = self.kinds[f as usize] { return k; }
        let d = &self.m.fns[f as usize];
        let n = d.name.as_str();
        let has_body = d.lines.is_some();
        let sret = |m: &Module| { let l = &m.text[m.fns[f as usize].lines.unwrap().0]; l.contains(" void @") };
        let redirect = |m: &Module, target: &str, mode: u8| m.fidx.get(target).map(|&t| Kind::Redirect(t, mode));
        let k = if n.starts_with("llvm.") { Kind::Intr }
            else if n.starts_with("sym_") { Kind::Harness }
            else if n.contains("4core9panicking") || n.contains("begin_panic") || n.contains("rust_begin_unwind") || n.contains("handle_alloc_error") || n.contains("16slice_error_fail") || n.contains("17rust_panic_") || n.ends_with("_11___rustc10rust_panic") { Kind::Panic }
            else if has_body && n.contains("5alloc3fmt6format12format_inner") && sret(&self.m) { redirect(&self.m, "stub_format_inner", 0).unwrap_or(Kind::Normal) }
            else if has_body && n.contains("converts9from_utf8") && !n.contains("lossy") && !n.contains("unchecked") && sret(&self.m) { redirect(&self.m, "stub_from_utf8", 1).unwrap_or(Kind::Normal) }
            else if has_body && n.contains("8hash_one") && self.m.text[d.lines.unwrap().0].contains(" i64 @") { Kind::Redirect(u32::MAX, 2) }
            else if has_body { Kind::Normal }
            else { Kind::Ext };
        self.kinds[f as usize] = Some(k);
        k
    }

    fn jump(&mut self, st: &mut State, to: u32) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        let from = fr.block;
        let f = fr.f.clone();
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for (d, inc) in &b.phis {
                let o = &inc.iter().find(|(p, _)| *p == from).expect("phi edge").1;
                let v = match o { Opd::K(v) => v.clone(), Opd::R(r) => fr.regs[*r as usize].clone() };
                vals.push((*d, v));
            }
            for (d, v) in vals { fr.regs[d as usize] = v; }
        }
        fr.block = to;
        fr.ip = 0;
    }

    fn run_path(&mut self, st: &mut State) -> X<()> {
        loop {
            let (f, b, ip) = { let fr = st.frames.last().unwrap(); (fr.f.clone(), fr.block, fr.ip) };
            // run within this block until control leaves it
            let blk = &f.blocks[b as usize];
            let mut ip = ip as usize;
            let depth = st.frames.len();
            if depth > self.max_depth { self.max_depth = depth; }
            loop {
                let ins = &blk.ins[ip];
                st.instrs += 1;
                self.instrs += 1;
                if st.instrs & 0xfff == 0 {
                    if st.instrs > self.cfg.max_path_instrs { return Err(Stop::Bug("nontermination".into(), format!("no end after {} instructions", st.instrs))); }
                    if self.instrs & 0xffff == 0 {
                        if Instant::now() > self.cfg.deadline { return Err(Stop::Budget("time".into())); }
                        if self.instrs & 0xfffff == 0 && resident() > MAX_RESIDENT { return Err(Stop::Budget("memory".into())); }
                    }
                }
                let left = self.step(st, ins)?;
                if left { break; }
                ip += 1;
                Rc::make_mut(st.frames.last_mut().unwrap()).ip = ip as u32;
            }
            if self.forks & 0xff == 0 {
                if Instant::now() > self.cfg.deadline { return Err(Stop::Budget("time".into())); }
                if resident() > MAX_RESIDENT { return Err(Stop::Budget("memory".into())); }
            }
        }
    }

    /// execute one instruction; true when control moved to another block or frame
    fn step(&mut self, st: &mut State, ins: &Ins) -> X<bool> {
        match ins {
            Ins::Bin { op, ty, a, b, d } => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                let r = match ty {
                    Ty::Vec(_, t) => match (&x, &y) {
                        (Val::A(p), Val::A(q)) => { let w = t.bits(); let mut v = vec![]; for (i, j) in p.iter().zip(q.iter()) { v.push(self.bin(*op, w, i, j)?); } Val::A(Rc::new(v)) }
                        _ => return err("vector op"),
                    },
                    _ => self.bin(*op, ty.bits(), &x, &y)?,
                };
                self.set(st, *d, r);
            }
            Ins::Icmp { p, ty, a, b, d } => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                let r = match ty {
                    Ty::Vec(_, t) => match (&x, &y) {
                        (Val::A(u), Val::A(v)) => Val::A(Rc::new(u.iter().zip(v.iter()).map(|(i, j)| self.cmp(*p, t.bits(), i, j)).collect())),
                        _ => return err("vector cmp"),
                    },
                    _ => self.cmp(*p, ty.bits(), &x, &y),
                };
                self.set(st, *d, r);
            }
            Ins::Cast { k, from, to, a, d } => {
                let x = self.op(st, a);
                let r = self.cast(*k, from, to, x)?;
                self.set(st, *d, r);
            }
            Ins::Gep { base, off, dynv, d } => {
                let mut v = self.op(st, base);
                if *off != 0 || dynv.is_empty() { v = self.bin(BinOp::Add, 64, &v, &Val::C(*off as u64 as u128))?; }
                for (o, w, stride) in dynv {
                    let i = self.op(st, o);
                    let i = match i { Val::C(k) => Val::C(sext(k, *w) as u64 as u128), Val::E(e) => Val::E(if *w < 64 { cx().sext(e, 64) } else { e }), _ => return err("gep idx") };
                    let t = self.bin(BinOp::Mul, 64, &i, &Val::C(*stride as u64 as u128))?;
                    v = self.bin(BinOp::Add, 64, &v, &t)?;
                }
                // keep a constant base outermost: (x + k1) handled by the expression constructor
                self.set(st, *d, v);
            }
            Ins::Load { ty, p, d } => {
                let p = self.op(st, p);
                let v = self.load(st, &p, ty)?;
                self.set(st, *d, v);
            }
            Ins::Store { ty, v, p } => {
                let v = self.op(st, v);
                let p = self.op(st, p);
                self.store(st, &p, ty, &v)?;
            }
            Ins::Alloca { size, d } => {
                let a = self.alloc(st, *size);
                Rc::make_mut(st.frames.last_mut().unwrap()).allocas.push((a >> SH) as u32);
                self.set(st, *d, Val::C(a as u128));
            }
            Ins::Select { c, ty, a, b, d, vecc } => {
                let c = self.op(st, c);
                let (x, y) = (self.op(st, a), self.op(st, b));
                if *vecc {
                    match (&c, &x, &y, ty) {
                        (Val::A(c), Val::A(x), Val::A(y), Ty::Vec(_, t)) => {
                            let w = t.bits();
                            let v = c.iter().zip(x.iter().zip(y.iter())).map(|(c, (x, y))| match c { Val::C(1) => x.clone(), Val::C(_) => y.clone(), Val::E(c) => Val::E(cx().ite(*c, Self::id(x, w), Self::id(y, w))), _ => Val::C(0) }).collect();
                            self.set(st, *d, Val::A(Rc::new(v)));
                        }
                        _ => return err("vector select"),
                    }
                    return Ok(false);
                }
                let r = match c {
                    Val::C(1) => x,
                    Val::C(_) => y,
                    Val::E(e) => {
                        let scalar = matches!(ty, Ty::Int(_));
                        if scalar { Val::E(cx().ite(e, Self::id(&x, ty.bits()), Self::id(&y, ty.bits()))) }
                        else if self.decide(st, e)? { x } else { y }
                    }
                    _ => return err("select"),
                };
                self.set(st, *d, r);
            }
            Ins::Extract { a, idx, d, .. } => {
                let mut v = self.op(st, a);
                for i in idx { v = match &v { Val::A(x) => x[*i as usize].clone(), _ => return err("extractvalue") }; }
                let v = self.simp(st, v);
                self.set(st, *d, v);
            }
            Ins::Insert { a, v, idx, d, .. } => {
                let x = self.op(st, a);
                let y = self.op(st, v);
                fn ins(x: &Val, idx: &[u32], y: Val) -> Val {
                    if idx.is_empty() { return y; }
                    match x { Val::A(v) => { let mut n = (**v).clone(); n[idx[0] as usize] = ins(&v[idx[0] as usize], &idx[1..], y); Val::A(Rc::new(n)) } _ => panic!("insertvalue") }
                }
                let r = ins(&x, idx, y);
                self.set(st, *d, r);
            }
            Ins::ExtractEl { a, i, d } => {
                let v = self.op(st, a);
                let i = self.op(st, i);
                let i = self.conc(st, &i)? as usize;
                let r = match &v { Val::A(x) => x[i].clone(), _ => return err("extractelement") };
                self.set(st, *d, r);
            }
            Ins::InsertEl { a, v, i, d } => {
                let x = self.op(st, a);
                let y = self.op(st, v);
                let i = self.op(st, i);
                let i = self.conc(st, &i)? as usize;
                let r = match x { Val::A(x) => { let mut n = (*x).clone(); n[i] = y; Val::A(Rc::new(n)) } _ => return err("insertelement") };
                self.set(st, *d, r);
            }
            Ins::Shuffle { n, a, b, m, d } => {
                let (x, y, m) = (self.op(st, a), self.op(st, b), self.op(st, m));
                let r = match (&x, &y, &m) {
                    (Val::A(x), Val::A(y), Val::A(m)) => Val::A(Rc::new(m.iter().map(|k| match k { Val::C(k) if (*k as u64) < *n => x[*k as usize].clone(), Val::C(k) if (*k as usize - *n as usize) < y.len() => y[*k as usize - *n as usize].clone(), _ => Val::C(0) }).collect())),
                    _ => return err("shuffle"),
                };
                self.set(st, *d, r);
            }
            Ins::Copy { a, d } => { let v = self.op(st, a); self.set(st, *d, v); }
            Ins::Rmw { op, ty, p, v, d } => {
                let p = self.op(st, p);
                let v = self.op(st, v);
                let p = Val::C(self.conc(st, &p)?);
                let old = self.load(st, &p, ty)?;
                let w = ty.bits();
                let new = match op.as_str() {
                    "add" => self.bin(BinOp::Add, w, &old, &v)?, "sub" => self.bin(BinOp::Sub, w, &old, &v)?, "xchg" => v,
                    "and" => self.bin(BinOp::And, w, &old, &v)?, "or" => self.bin(BinOp::Or, w, &old, &v)?, "xor" => self.bin(BinOp::Xor, w, &old, &v)?,
                    o => return err(format!("atomicrmw {}", o)),
                };
                self.store(st, &p, ty, &new)?;
                self.set(st, *d, old);
            }
            Ins::CmpXchg { ty, p, a, b, d } => {
                let p = self.op(st, p);
                let p = Val::C(self.conc(st, &p)?);
                let (a, b) = (self.op(st, a), self.op(st, b));
                let old = self.load(st, &p, ty)?;
                let eq = match self.cmp(Pred::Eq, ty.bits(), &old, &a) { Val::C(k) => k == 1, Val::E(e) => self.decide(st, e)?, _ => false };
                if eq { self.store(st, &p, ty, &b)?; }
                self.set(st, *d, Val::A(Rc::new(vec![old, Val::C(eq as u128)])));
            }
            Ins::Fence => {}
            Ins::Br(t) => { self.jump(st, *t); return Ok(true); }
            Ins::CondBr { c, t, f } => {
                let c = self.op(st, c);
                let v = match c { Val::C(k) => k & 1 == 1, Val::E(e) => if t == f { true } else { self.decide(st, e)? }, _ => return err("br") };
                self.jump(st, if v { *t } else { *f });
                return Ok(true);
            }
            Ins::Switch { ty, v, def, cases } => {
                let v = self.op(st, v);
                let target = match v {
                    Val::C(k) => cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def),
                    Val::E(e) => {
                        let w = ty.bits();
                        let mut groups: Vec<(u32, Id)> = vec![];
                        for (k, t) in cases {
                            let kk = cx().konst(w, *k);
                            let c = cx().bin(Op::Eq, e, kk);
                            if let Some(g) = groups.iter_mut().find(|g| g.0 == *t) { g.1 = cx().bin(Op::Or, g.1, c); } else { groups.push((*t, c)); }
                        }
                        // follow the current model first, so that one query per other target suffices
                        cx().eval_begin();
                        groups.sort_by_key(|g| cx().eval(g.1, &st.model) != 1);
                        let mut t = *def;
                        for (bt, c) in groups { if self.decide(st, c)? { t = bt; break; } }
                        t
                    }
                    _ => return err("switch"),
                };
                self.jump(st, target);
                return Ok(true);
            }
            Ins::Ret(v) => {
                let v = v.as_ref().map(|o| self.op(st, o));
                let fr = st.frames.pop().unwrap();
                for &a in &fr.allocas { if st.mem[a as usize].take().is_some() { st.free.push(a); } }
                if st.frames.is_empty() { return Err(Stop::Done); }
                if let (Some(d), Some(v)) = (fr.ret, v) { self.set(st, d, v); }
                Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1;
                return Ok(true);
            }
            Ins::Unreachable => return Err(Stop::Bug("ub".into(), "unreachable code reached".into())),
            Ins::Unsupported(s) => return err(format!("unsupported instruction: {}", s)),
            Ins::Call { f, args, ret, d } => return self.call(st, f, args, ret, *d),
        }
        Ok(false)
    }

    fn cast(&self, k: Cast, from: &Ty, to: &Ty, x: Val) -> X<Val> {
        if let Val::A(xs) = &x {
            match (from, to) {
                (Ty::Vec(_, f), Ty::Vec(_, t)) if k != Cast::Bitcast || f.bits() == t.bits() => {
                    let mut v = vec![];
                    for x in xs.iter() { v.push(self.cast(k, f, t, x.clone())?); }
                    return Ok(Val::A(Rc::new(v)));
                }
                (Ty::Vec(_, f), _) if k == Cast::Bitcast => {
                    let w = f.bits();
                    let mut acc: Option<Id> = None;
                    if xs.iter().all(|v| matches!(v, Val::C(_))) {
                        let mut r = 0u128;
                        for (i, v) in xs.iter().enumerate() { if let Val::C(k) = v { r |= k << (i as u32 * w as u32); } }
                        return self.from_bits(Val::C(r), to);
                    }
                    for v in xs.iter().rev() { let b = Self::id(v, w); acc = Some(match acc { None => b, Some(h) => cx().concat(h, b) }); }
                    return self.from_bits(Val::E(acc.unwrap()), to);
                }
                _ => return err("vector cast"),
            }
        }
        if let Ty::Vec(..) = to { return self.from_bits(x, to); }
        let (fw, tw) = (from.bits(), to.bits());
        Ok(match x {
            Val::C(v) => Val::C(match k { Cast::SExt => sext(v, fw) as u128 & mask(tw), _ => v & mask(tw) }),
            Val::E(e) => Val::E(match k {
                Cast::SExt => cx().sext(e, tw),
                _ => if tw < fw { cx().extract(e, 0, tw) } else { cx().zext(e, tw) },
            }),
            _ => unreachable!(),
        })
    }
    fn from_bits(&self, v: Val, to: &Ty) -> X<Val> {
        match to {
            Ty::Vec(n, t) => {
                let w = t.bits();
                Ok(Val::A(Rc::new((0..*n).map(|i| match &v { Val::C(k) => Val::C((k >> (i as u32 * w as u32)) & mask(w)), Val::E(e) => Val::E(cx().extract(*e, i as u8 * w, w)), _ => Val::C(0) }).collect())))
            }
            _ => Ok(v),
        }
    }

    fn panic_info(&self, st: &State, name: &str, args: &[Val]) -> String {
        let short = name.rfind("panicking").map(|i| name[i + 9..].trim_start_matches(|c: char| c.is_ascii_digit()).to_string()).unwrap_or_else(|| name.to_string());
        let mut s = String::new();
        let rd = |a: u64, n: u64| -> Option<String> { if n > 300 { return None; } self.get_bytes(st, a, n).ok().map(|v| v.iter().map(|(b, _)| *b as char).collect()) };
        if args.len() >= 2 {
            if let (Val::C(p), Val::C(n)) = (&args[0], &args[1]) {
                let n = if name.contains("fmt") { if n & 1 == 1 { *n as u64 >> 1 } else { 0 } } else { *n as u64 };
                if n > 0 && n < 200 { if let Some(t) = rd(*p as u64, n) { if t.bytes().all(|b| b.is_ascii_graphic() || b == b' ') { s = t; } } }
            }
        }
        let mut at = String::new();
        if let Some(Val::C(l)) = args.last() {
            if let Ok(v) = self.get_bytes(st, *l as u64, 24) {
                let g = |o: usize, n: usize| -> u64 { (0..n).map(|i| (v[o + i].0 as u64) << (8 * i)).sum() };
                let (p, n, line) = (g(0, 8), g(8, 8), g(16, 4));
                if let Some(f) = rd(p, n) { at = format!("{}:{}", f.trim_end_matches('\0'), line); }
            }
        }
        format!("{} {} at {}", short, s, at)
    }

    fn call(&mut self, st: &mut State, f: &Callee, args: &[(Ty, Opd)], ret: &Ty, d: Option<u32>) -> X<bool> {
        let fid = match f {
            Callee::Direct(i) => *i,
            Callee::Reg(o) => {
                let p = self.op(st, o);
                let a = self.conc(st, &p)? as u64;
                if a < FN_BASE || ((a - FN_BASE) >> 8) as usize >= self.m.fns.len() { return Err(Stop::Bug("ub".into(), format!("call through bad pointer {:#x}", a))); }
                ((a - FN_BASE) >> 8) as u32
            }
        };
        let mut fid = fid;
        let kind = self.kind(fid);
        if kind == Kind::Intr {
            let name = self.m.fns[fid as usize].name.clone();
            if name.starts_with("llvm.lifetime") || name.starts_with("llvm.experimental.noalias") || name.starts_with("llvm.assume") || name.starts_with("llvm.dbg") || name.starts_with("llvm.x86.sse2.pause") || name.starts_with("llvm.donothing") || name.starts_with("llvm.prefetch") { return Ok(false); }
            let a: Vec<Val> = args.iter().map(|(_, o)| self.op(st, o)).collect();
            let r = self.intrinsic(st, &name, &a, args, ret)?;
            if let (Some(d), Some(r)) = (d, r) { self.set(st, d, r); }
            return Ok(false);
        }
        let a: Vec<Val> = args.iter().map(|(_, o)| self.op(st, o)).collect();
        match kind {
            Kind::Panic => { let n = self.m.fns[fid as usize].name.clone(); let s = self.panic_info(st, &n, &a); return Err(Stop::Bug("panic".into(), s)); }
            Kind::Harness => { let n = self.m.fns[fid as usize].name.clone(); let r = self.harness(st, &n, &a)?; if let (Some(d), Some(r)) = (d, r) { self.set(st, d, r); } return Ok(false); }
            Kind::Ext => {
                let n = self.m.fns[fid as usize].name.clone();
                let r = self.external(st, &n, &a)?;
                if let (Some(d), Some(r)) = (d, r) { self.set(st, d, r); }
                return Ok(false);
            }
            Kind::Redirect(t, mode) => {
                let mut go = true;
                if mode == 1 {
                    // from_utf8(sret, ptr, len): only for symbolic contents
                    if a.len() != 3 { go = false; } else {
                        let p = self.conc(st, &a[1])? as u64;
                        let n = self.conc(st, &a[2])? as u64;
                        go = n > 0 && self.get_bytes(st, p, n)?.iter().any(|b| b.1.is_some());
                    }
                }
                if go {
                    let n = self.m.fns[fid as usize].name.clone();
                    *self.redirected.entry(n).or_insert(0) += 1;
                    if mode == 2 { if let Some(d) = d { self.set(st, d, Val::C(0)); } return Ok(false); }
                    fid = t;
                }
            }
            _ => {}
        }
        let fun = self.m.func(fid).map_err(Stop::Err)?;
        if self.executed.insert(fid) {}
        if st.frames.len() > 200 { return Err(Stop::Bug("nontermination".into(), "recursion deeper than 200 frames".into())); }
        let mut regs = vec![Val::C(0); fun.nregs];
        for (i, p) in fun.params.iter().enumerate() { if let Some(v) = a.get(i) { regs[*p as usize] = v.clone(); } }
        st.frames.push(Rc::new(Frame { f: fun, block: 0, ip: 0, regs, allocas: vec![], ret: d }));
        Ok(true)
    }

    fn copy(&mut self, st: &mut State, dst: &Val, src: &Val, n: &Val) -> X<()> {
        let n = self.conc(st, n)? as u64;
        if n == 0 { return Ok(()); }
        let d = self.conc(st, dst)? as u64;
        let s = self.conc(st, src)? as u64;
        if n >= 4096 {
            // plain bytes: only the part that is not known to be zero
            if let Some(v) = self.plain(st, s, n)? {
                let (k, off) = self.loc(st, d, n)?;
                let o = self.obj_mut(st, k);
                Self::clear(o, off, n);
                if !v.is_empty() {
                    let e = off as usize + v.len();
                    if o.data.len() < e { o.data.resize(e, 0); }
                    o.data[off as usize..e].copy_from_slice(&v);
                }
                return Ok(());
            }
        }
        let b = self.get_bytes(st, s, n)?;
        self.put_bytes(st, d, &b)
    }
    /// n bytes without symbolic ones, the zeros at the end left out
    fn plain(&self, st: &State, a: u64, n: u64) -> X<Option<Vec<u8>>> {
        let (k, off) = self.loc(st, a, n)?;
        let o = self.obj(st, k);
        if !o.sym.is_empty() && o.sym.range(off..off + n).next().is_some() { return Ok(None); }
        let len = o.data.len() as u64;
        Ok(Some(o.data[off.min(len) as usize..(off + n).min(len) as usize].to_vec()))
    }
    /// zero fill without materialising
    fn clear(o: &mut Obj, off: u64, len: u64) {
        if off + len >= o.data.len() as u64 { o.data.truncate(off as usize); } else { for i in off..off + len { o.data[i as usize] = 0; } }
        if !o.sym.is_empty() { let ks: Vec<u64> = o.sym.range(off..off + len).map(|x| *x.0).collect(); for k in ks { o.sym.remove(&k); } }
    }

    fn intrinsic(&mut self, st: &mut State, name: &str, a: &[Val], args: &[(Ty, Opd)], ret: &Ty) -> X<Option<Val>> {
        let n = &name[5..];
        let base = n.split('.').next().unwrap();
        let w = args.get(0).map(|t| match &t.0 { Ty::Int(w) => *w, _ => 64 }).unwrap_or(64);
        if matches!(ret, Ty::Vec(..)) || matches!(args.get(0).map(|t| &t.0), Some(Ty::Vec(..))) { return err(format!("vector intrinsic {}", name)); }
        Ok(match base {
            "memcpy" | "memmove" => { self.copy(st, &a[0], &a[1], &a[2])?; None }
            "memset" => {
                let len = self.conc(st, &a[2])? as u64;
                if len == 0 { return Ok(None); }
                let d = self.conc(st, &a[0])? as u64;
                let e = match &a[1] { Val::C(k) => (*k as u8, None), Val::E(i) => (0, Some(*i)), _ => return err("memset") };
                let (k, off) = self.loc(st, d, len)?;
                if e == (0, None) {
                    Self::clear(self.obj_mut(st, k), off, len);
                } else { self.put_bytes(st, d, &vec![e; len as usize])?; }
                None
            }
            "umax" | "umin" | "smax" | "smin" => {
                let p = match base { "umax" => Pred::Ugt, "umin" => Pred::Ult, "smax" => Pred::Sgt, _ => Pred::Slt };
                Some(match self.cmp(p, w, &a[0], &a[1]) { Val::C(1) => a[0].clone(), Val::C(_) => a[1].clone(), Val::E(c) => Val::E(cx().ite(c, Self::id(&a[0], w), Self::id(&a[1], w))), _ => unreachable!() })
            }
            "uadd" | "usub" | "sadd" | "ssub" | "umul" | "smul" if n.contains("with.overflow") => {
                let s = base.starts_with('s');
                let op = match &base[1..] { "add" => BinOp::Add, "sub" => BinOp::Sub, _ => BinOp::Mul };
                let r = self.bin(op, w, &a[0], &a[1])?;
                let o = match op {
                    BinOp::Sub if !s => self.cmp(Pred::Ult, w, &a[0], &a[1]),
                    BinOp::Add if !s => self.cmp(Pred::Ult, w, &r, &a[0]),
                    _ => {
                        let ww = if op == BinOp::Mul { if w > 64 { return err("wide mul overflow"); } w * 2 } else { w + 1 };
                        let ext = |v: &Val| match v { Val::C(k) => Val::C(if s { sext(*k, w) as u128 & mask(ww) } else { *k }), Val::E(e) => Val::E(if s { cx().sext(*e, ww) } else { cx().zext(*e, ww) }), _ => unreachable!() };
                        let x = self.bin(op, ww, &ext(&a[0]), &ext(&a[1]))?;
                        self.cmp(Pred::Ne, ww, &x, &ext(&r))
                    }
                };
                Some(Val::A(Rc::new(vec![r, o])))
            }
            "usub" | "uadd" => {
                // saturating
                if base == "usub" {
                    let r = self.bin(BinOp::Sub, w, &a[0], &a[1])?;
                    Some(match self.cmp(Pred::Ult, w, &a[0], &a[1]) { Val::C(1) => Val::C(0), Val::C(_) => r, Val::E(c) => { let z = cx().konst(w, 0); Val::E(cx().ite(c, z, Self::id(&r, w))) } _ => unreachable!() })
                } else {
                    let r = self.bin(BinOp::Add, w, &a[0], &a[1])?;
                    Some(match self.cmp(Pred::Ult, w, &r, &a[0]) { Val::C(1) => Val::C(mask(w)), Val::C(_) => r, Val::E(c) => { let z = cx().konst(w, mask(w)); Val::E(cx().ite(c, z, Self::id(&r, w))) } _ => unreachable!() })
                }
            }
            "ucmp" | "scmp" => {
                let rw = ret.bits();
                let (lt, gt) = if base == "ucmp" { (self.cmp(Pred::Ult, w, &a[0], &a[1]), self.cmp(Pred::Ugt, w, &a[0], &a[1])) } else { (self.cmp(Pred::Slt, w, &a[0], &a[1]), self.cmp(Pred::Sgt, w, &a[0], &a[1])) };
                let (l, g) = (Self::id(&lt, 1), Self::id(&gt, 1));
                let (m1, z, p1) = (cx().konst(rw, mask(rw)), cx().konst(rw, 0), cx().konst(rw, 1));
                let t = cx().ite(g, p1, z);
                Some(Val::E(cx().ite(l, m1, t)))
            }
            "abs" => Some(match self.cmp(Pred::Slt, w, &a[0], &Val::C(0)) { Val::C(0) => a[0].clone(), Val::C(_) => self.bin(BinOp::Sub, w, &Val::C(0), &a[0])?, Val::E(c) => { let m = self.bin(BinOp::Sub, w, &Val::C(0), &a[0])?; Val::E(cx().ite(c, Self::id(&m, w), Self::id(&a[0], w))) } _ => unreachable!() }),
            "ctpop" => Some(match &a[0] { Val::C(k) => Val::C(k.count_ones() as u128), Val::E(e) => { let mut s = cx().konst(w, 0); for i in 0..w { let b = cx().extract(*e, i, 1); let b = cx().zext(b, w); s = cx().bin(Op::Add, s, b); } Val::E(s) } _ => unreachable!() }),
            "cttz" | "ctlz" => Some(match &a[0] {
                Val::C(k) => Val::C(if base == "cttz" { if *k == 0 { w as u128 } else { k.trailing_zeros() as u128 } } else { if *k == 0 { w as u128 } else { (k.leading_zeros() - (128 - w as u32)) as u128 } }),
                Val::E(e) => {
                    let mut r = cx().konst(w, w as u128);
                    for j in 0..w {
                        // last assignment wins: lowest bit for cttz, highest for ctlz
                        let i = if base == "cttz" { w - 1 - j } else { j };
                        let b = cx().extract(*e, i, 1);
                        let k = cx().konst(w, if base == "cttz" { i as u128 } else { (w - 1 - i) as u128 });
                        r = cx().ite(b, k, r);
                    }
                    Val::E(r)
                }
                _ => unreachable!(),
            }),
            "fshl" | "fshr" => {
                let s = self.conc(st, &a[2])? as u32 % w as u32;
                if s == 0 { return Ok(Some(if base == "fshl" { a[0].clone() } else { a[1].clone() })); }
                let (l, r) = if base == "fshl" { (s, w as u32 - s) } else { (w as u32 - s, s) };
                let x = self.bin(BinOp::Shl, w, &a[0], &Val::C(l as u128))?;
                let y = self.bin(BinOp::LShr, w, &a[1], &Val::C(r as u128))?;
                Some(self.bin(BinOp::Or, w, &x, &y)?)
            }
            "bswap" => {
                let nb = w / 8;
                Some(match &a[0] {
                    Val::C(k) => { let mut r = 0; for i in 0..nb { r |= ((k >> (8 * i)) & 0xff) << (8 * (nb - 1 - i)); } Val::C(r) }
                    Val::E(e) => { let mut acc = cx().extract(*e, 0, 8); for i in 1..nb { let b = cx().extract(*e, 8 * i, 8); acc = cx().concat(acc, b); } Val::E(acc) }
                    _ => unreachable!(),
                })
            }
            "bitreverse" => Some(match &a[0] {
                Val::C(k) => { let mut r = 0; for i in 0..w { r |= ((k >> i) & 1) << (w - 1 - i); } Val::C(r) }
                Val::E(e) => { let mut acc = cx().extract(*e, 0, 1); for i in 1..w { let b = cx().extract(*e, i, 1); acc = cx().concat(acc, b); } Val::E(acc) }
                _ => unreachable!(),
            }),
            "is" => Some(Val::C(0)),
            "expect" | "launder" | "strip" | "ssa" => Some(a[0].clone()),
            "threadlocal" => Some(a[0].clone()),
            "objectsize" => Some(Val::C(mask(64))),
            "load" => {
                // llvm.load.relative
                let p = self.bin(BinOp::Add, 64, &a[0], &a[1])?;
                let p = Val::C(self.conc(st, &p)?);
                let o = self.load(st, &p, &Ty::Int(32))?;
                let o = match o { Val::C(k) => Val::C(sext(k, 32) as u64 as u128), Val::E(e) => Val::E(cx().sext(e, 64)), v => v };
                Some(self.bin(BinOp::Add, 64, &a[0], &o)?)
            }
            "trap" | "ubsantrap" | "debugtrap" => return Err(Stop::Bug("panic".into(), "trap".into())),
            _ => return err(format!("intrinsic {}", name)),
        })
    }

    /// largest single allocation request since the last reset, as an expression
    fn note_alloc(&mut self, st: &mut State, s: &Val) {
        if let Some(cur) = st.alloc_hi {
            let e = match s { Val::C(k) => cx().konst(64, *k), Val::E(e) => *e, _ => return };
            let l = cx().bin(Op::Ult, cur, e);
            st.alloc_hi = Some(cx().ite(l, e, cur));
        }
    }

    fn external(&mut self, st: &mut State, name: &str, a: &[Val]) -> X<Option<Val>> {
        let hi = |v: &Val| -> u128 { match v { Val::C(k) => *k, Val::E(i) => cx().rng[*i as usize].1, _ => 0 } };
        Ok(match name {
            "malloc" | "calloc" => {
                let s = if name == "malloc" { a[0].clone() } else { match (&a[0], &a[1]) { (x, Val::C(1)) => x.clone(), (Val::C(1), y) => y.clone(), _ => self.bin(BinOp::Mul, 64, &a[0], &a[1])? } };
                let mut h = hi(&s);
                if h > 1 << 36 {
                    // interval too coarse: ask the solver
                    if let Val::E(e) = &s {
                        let k = cx().konst(64, 1 << 29);
                        let big = cx().bin(Op::Ult, k, *e);
                        if let Res::Unsat = self.solver.check(self.slice(st, big)) { h = 1 << 29; } else { h = self.conc(st, &s)?; }
                    }
                }
                self.note_alloc(st, &s);
                if h > 1 << 36 { return err(format!("allocation of up to {} bytes", h)); }
                let p = self.alloc(st, h as u64);
                Some(Val::C(p as u128))
            }
            "posix_memalign" => {
                let n = hi(&a[2]);
                let p0 = self.conc(st, &a[0])?;
                let p = self.alloc(st, n as u64);
                self.store(st, &Val::C(p0), &Ty::Ptr, &Val::C(p as u128))?;
                Some(Val::C(0))
            }
            "realloc" => {
                let p = self.conc(st, &a[0])? as u64;
                let mut n = hi(&a[1]) as u64;
                self.note_alloc(st, &a[1]);
                if n > 1 << 36 { n = self.conc(st, &a[1])? as u64; }
                if n > 1 << 36 { return err("huge realloc"); }
                if p == 0 { return Ok(Some(Val::C(self.alloc(st, n) as u128))); }
                let id = (p >> SH) as usize;
                let mut o = match st.mem.get(id) { Some(Some(o)) if p & OFF == 0 => (**o).clone(), _ => return Err(Stop::Bug("ub".into(), "realloc of bad pointer".into())) };
                o.size = n;
                o.data.truncate(n as usize);
                let _ = o.sym.split_off(&n);
                st.mem[id] = None;
                let q = self.alloc(st, n);
                st.mem[(q >> SH) as usize] = Some(Rc::new(o));
                st.free.push(id as u32);
                Some(Val::C(q as u128))
            }
            "free" => { let p = self.conc(st, &a[0])? as u64; if p != 0 { self.release(st, p)?; } None }
            "bcmp" | "memcmp" => {
                let n = self.conc(st, &a[2])? as u64;
                if n == 0 { return Ok(Some(Val::C(0))); }
                let p = self.conc(st, &a[0])? as u64;
                let q = self.conc(st, &a[1])? as u64;
                if n >= 4096 {
                    if let (Some(mut x), Some(mut y)) = (self.plain(st, p, n)?, self.plain(st, q, n)?) {
                        let m = x.len().max(y.len());
                        x.resize(m, 0);
                        y.resize(m, 0);
                        return Ok(Some(Val::C(match x.cmp(&y) { std::cmp::Ordering::Equal => 0, std::cmp::Ordering::Less => mask(32), _ => 1 })));
                    }
                }
                let x = self.get_bytes(st, p, n)?;
                let y = self.get_bytes(st, q, n)?;
                if x.iter().chain(y.iter()).all(|b| b.1.is_none()) {
                    let o = x.iter().map(|b| b.0).cmp(y.iter().map(|b| b.0));
                    return Ok(Some(Val::C(match o { std::cmp::Ordering::Equal => 0, std::cmp::Ordering::Less => mask(32), _ => 1 })));
                }
                let (x, y) = (Self::byte_ids(&x), Self::byte_ids(&y));
                let zero = cx().konst(32, 0);
                let one = cx().konst(32, 1);
                let m1 = cx().konst(32, mask(32));
                if name == "bcmp" {
                    let mut c = cx().konst(1, 1);
                    for (i, j) in x.iter().zip(y.iter()) { let e = cx().bin(Op::Eq, *i, *j); c = cx().bin(Op::And, c, e); }
                    Some(Val::E(cx().ite(c, zero, one)))
                } else {
                    let mut r = zero;
                    for (i, j) in x.iter().zip(y.iter()).rev() {
                        let e = cx().bin(Op::Eq, *i, *j);
                        let l = cx().bin(Op::Ult, *i, *j);
                        let d = cx().ite(l, m1, one);
                        r = cx().ite(e, r, d);
                    }
                    Some(Val::E(r))
                }
            }
            "strlen" => {
                let p = self.conc(st, &a[0])? as u64;
                let mut n = 0;
                loop { let b = self.load(st, &Val::C((p + n) as u128), &Ty::Int(8))?; if self.conc(st, &b)? == 0 { break; } n += 1; }
                Some(Val::C(n as u128))
            }
            "getrandom" => {
                let p = self.conc(st, &a[0])? as u64;
                let n = self.conc(st, &a[1])? as u64;
                self.put_bytes(st, p, &vec![(0x5a, None); n as usize])?;
                Some(Val::C(n as u128))
            }
            "syscall" => {
                // getrandom(2) only
                if self.conc(st, &a[0])? != 318 { return err("system call"); }
                let p = self.conc(st, &a[1])? as u64;
                let n = self.conc(st, &a[2])? as u64;
                self.put_bytes(st, p, &vec![(0x5a, None); n as usize])?;
                Some(Val::C(n as u128))
            }
            "abort" => return Err(Stop::Bug("panic".into(), "abort".into())),
            "write" => Some(a[2].clone()),
            "__cxa_thread_atexit_impl" => Some(Val::C(0)),
            // destructors of thread locals are registered but never run within a harness
            "pthread_key_create" => {
                let p = self.conc(st, &a[0])? as u64;
                self.put_bytes(st, p, &vec![(1, None), (0, None), (0, None), (0, None)])?;
                Some(Val::C(0))
            }
            "pthread_setspecific" | "pthread_getspecific" | "pthread_key_delete" => Some(Val::C(0)),
            _ => return err(format!("external function {}", name)),
        })
    }

    fn harness(&mut self, st: &mut State, name: &str, a: &[Val]) -> X<Option<Val>> {
        Ok(match name {
            "sym_bytes" => {
                let p = self.conc(st, &a[0])? as u64;
                let n = self.conc(st, &a[1])? as u64;
                if st.nvars as u64 + n > 64 * VW as u64 { return err("too many symbolic bytes"); }
                if let Some(c) = &self.cfg.concrete {
                    let v: Vec<_> = (0..n).map(|i| (c.get(st.nvars as usize + i as usize).copied().unwrap_or(0), None)).collect();
                    self.put_bytes(st, p, &v)?;
                    st.nvars += n as u32;
                    return Ok(None);
                }
                let v: Vec<_> = (0..n).map(|i| (0u8, Some(cx().var(st.nvars + i as u32)))).collect();
                st.nvars += n as u32;
                let m = Rc::make_mut(&mut st.model);
                m.resize(st.nvars as usize, 0);
                self.put_bytes(st, p, &v)?;
                None
            }
            "sym_assume" => {
                match &a[0] {
                    Val::C(k) => if k & 1 == 0 { return Err(Stop::Pruned); },
                    Val::E(e) => {
                        let e = if cx().w(*e) == 1 { *e } else { cx().extract(*e, 0, 1) };
                        if let Some(b) = self.settled(st, e) { return if b { Ok(None) } else { Err(Stop::Pruned) }; }
                        cx().eval_begin();
                        if cx().eval(e, &st.model) != 1 {
                            match self.solver.check(self.slice(st, e)) {
                                Res::Sat(m) => st.model = Self::with_model(&st.model, &m),
                                Res::Unsat => return Err(Stop::Pruned),
                                Res::Unknown => return Err(Stop::Budget("solver timeout on an assumption".into())),
                            }
                        }
                        self.add(st, e);
                    }
                    _ => return err("assume"),
                }
                None
            }
            "sym_assert" => {
                let msg = {
                    let p = self.conc(st, &a[1])? as u64;
                    let n = self.conc(st, &a[2])? as u64;
                    self.get_bytes(st, p, n)?.iter().map(|b| b.0 as char).collect::<String>()
                };
                self.asserts += 1;
                match &a[0] {
                    Val::C(k) => if k & 1 == 0 { return Err(Stop::Bug("assert".into(), msg)); },
                    Val::E(e) => {
                        let e = if cx().w(*e) == 1 { *e } else { cx().extract(*e, 0, 1) };
                        match self.settled(st, e) {
                            Some(true) => return Ok(None),
                            Some(false) => return Err(Stop::Bug("assert".into(), msg)),
                            None => {}
                        }
                        self.asserts_symbolic += 1;
                        let ne = cx().not1(e);
                        match self.solver.check(self.slice(st, ne)) {
                            Res::Sat(m) => {
                                let model = Self::with_model(&st.model, &m).to_vec();
                                self.bug(st, "assert", &msg, model);
                                // continue on the side where it holds
                                cx().eval_begin();
                                if cx().eval(e, &st.model) != 1 {
                                    match self.solver.check(self.slice(st, e)) { Res::Sat(m) => st.model = Self::with_model(&st.model, &m), Res::Unsat => return Err(Stop::Done), Res::Unknown => return Err(Stop::Budget("solver timeout".into())) }
                                }
                                self.add(st, e);
                            }
                            Res::Unsat => { self.solver.asserts_discharged += 1; self.learn(st, e, true); }
                            Res::Unknown => return Err(Stop::Budget(format!("solver timeout on assertion: {}", msg))),
                        }
                    }
                    _ => return err("assert"),
                }
                None
            }
            "sym_cover" => { let k = self.conc(st, &a[0])? as u64; st.covers.push(k); None }
            "sym_out" => { st.outs.push(a[0].clone()); None }
            "sym_param" => { let i = self.conc(st, &a[0])? as usize; Some(Val::C(self.cfg.params.get(i).copied().unwrap_or(0) as u128)) }
            "sym_concretize" => Some(Val::C(self.conc(st, &a[0])?)),
            "sym_utf8_valid" => {
                let p = self.conc(st, &a[0])? as u64;
                let n = self.conc(st, &a[1])? as u64;
                let b = self.get_bytes(st, p, n)?;
                Some(Val::E(utf8_valid(&Self::byte_ids(&b))))
            }
            "sym_alloc_peak" => Some(match st.alloc_hi { Some(e) => match cx().is_const(e) { Some(k) => Val::C(k), None => Val::E(e) }, None => Val::C(0) }),
            "sym_alloc_reset" => { st.alloc_hi = Some(cx().konst(64, 0)); None }
            "sym_log" => {
                if self.cfg.verbose {
                    let p = self.conc(st, &a[0])? as u64;
                    let n = self.conc(st, &a[1])? as u64;
                    let s: String = self.get_bytes(st, p, n)?.iter().map(|b| if b.1.is_some() { '?' } else { b.0 as char }).collect();
                    eprintln!("log {}", s);
                }
                None
            }
            _ => return err(format!("harness intrinsic {}", name)),
        })
    }
    #[allow(dead_code)]
    pub fn note(&mut self, k: u32) { *self.opseen.entry(k).or_insert(0) += 1; }
}

const MAX_RESIDENT: u64 = 3 << 30;
/// bytes of memory this process has
fn resident() -> u64 {
    std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').nth(1).and_then(|n| n.parse::<u64>().ok())).unwrap_or(0) * 4096
}

/// known trailing zero bits
fn tz(e: Id) -> u32 {
    let n = cx().nodes[e as usize];
    match n.op {
        Op::Const => if n.k == 0 { 64 } else { n.k.trailing_zeros() },
        Op::Shl => match cx().is_const(n.b) { Some(k) => tz(n.a) + k as u32, None => 0 },
        Op::Mul => tz(n.a) + tz(n.b),
        Op::Add | Op::Sub => tz(n.a).min(tz(n.b)),
        Op::ZExt => tz(n.a),
        Op::Ite => tz(n.b).min(tz(n.c)),
        Op::And => tz(n.a).max(tz(n.b)),
        _ => 0,
    }
}

/// a byte whose form shows that its top bit is 0
fn ascii(c: &Ctx, x: Id) -> bool {
    match c.is_const(x) {
        Some(v) => v < 0x80,
        None => {
            let n = c.nodes[x as usize];
            n.op == Op::And && [n.a, n.b].iter().any(|&k| c.is_const(k).map_or(false, |v| v < 0x80))
        }
    }
}

/// RFC 3629 / std::str::from_utf8 validity as one formula
fn utf8_valid(b: &[Id]) -> Id {
    let n = b.len();
    let c = cx();
    let rng = |c: &mut Ctx, x: Id, lo: u128, hi: u128| -> Id {
        let (l, h) = (c.konst(8, lo), c.konst(8, hi));
        let a = c.bin(Op::Ule, l, x);
        let d = c.bin(Op::Ule, x, h);
        c.bin(Op::And, a, d)
    };
    let mut ok: Vec<Id> = vec![c.konst(1, 0); n + 5];
    ok[n] = c.konst(1, 1);
    for i in (0..n).rev() {
        let x = b[i];
        if ascii(c, x) {
            ok[i] = ok[i + 1];
            continue;
        }
        let asc = rng(c, x, 0, 0x7f);
        let mut r = c.bin(Op::And, asc, ok[i + 1]);
        let alts: [(u128, u128, u128, u128, usize); 8] = [
            (0xc2, 0xdf, 0x80, 0xbf, 2), (0xe0, 0xe0, 0xa0, 0xbf, 3), (0xe1, 0xec, 0x80, 0xbf, 3), (0xed, 0xed, 0x80, 0x9f, 3),
            (0xee, 0xef, 0x80, 0xbf, 3), (0xf0, 0xf0, 0x90, 0xbf, 4), (0xf1, 0xf3, 0x80, 0xbf, 4), (0xf4, 0xf4, 0x80, 0x8f, 4),
        ];
        for (lo, hi, l2, h2, len) in alts {
            if i + len > n { continue; }
            let mut t = rng(c, x, lo, hi);
            let s = rng(c, b[i + 1], l2, h2);
            t = c.bin(Op::And, t, s);
            for j in 2..len { let s = rng(c, b[i + j], 0x80, 0xbf); t = c.bin(Op::And, t, s); }
            t = c.bin(Op::And, t, ok[i + len]);
            r = c.bin(Op::Or, r, t);
        }
        ok[i] = r;
    }
    ok[0]
}
