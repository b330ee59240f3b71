//! Textual LLVM IR: module index, lazy per-function parsing.
use crate::expr::{mask, FxMap};
use std::collections::HashMap;
use std::rc::Rc;

pub type R<T> = Result<T, String>;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u8),
    Ptr,
    Float(u8),
    Array(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(bool, Rc<Vec<Ty>>),
    Meta,
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Meta => 0,
            Ty::Int(w) => { let b = (*w as u64 + 7) / 8; b.next_power_of_two() }
            Ty::Float(w) => *w as u64 / 8,
            Ty::Ptr => 8,
            Ty::Array(n, t) => n * t.size(),
            Ty::Vec(n, t) => if **t == Ty::Int(1) { (n + 7) / 8 } else { n * t.size() },
            Ty::Struct(p, fs) => {
                let mut o = 0;
                let mut al = 1;
                for f in fs.iter() { if !p { let a = f.align(); al = al.max(a); o = (o + a - 1) / a * a; } o += f.size(); }
                if !p { o = (o + al - 1) / al * al; }
                o
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Meta => 1,
            Ty::Int(_) | Ty::Float(_) | Ty::Ptr => self.size().max(1).min(16),
            Ty::Array(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Struct(p, fs) => if *p { 1 } else { fs.iter().map(|f| f.align()).max().unwrap_or(1) },
        }
    }
    pub fn field(&self, i: u64) -> (u64, Ty) {
        match self {
            Ty::Array(_, t) | Ty::Vec(_, t) => (i * t.size(), (**t).clone()),
            Ty::Struct(p, fs) => {
                let mut o = 0;
                for (j, f) in fs.iter().enumerate() {
                    if !p { let a = f.align(); o = (o + a - 1) / a * a; }
                    if j as u64 == i { return (o, f.clone()); }
                    o += f.size();
                }
                panic!("field index")
            }
            _ => panic!("field of scalar"),
        }
    }
    pub fn bits(&self) -> u8 {
        match self { Ty::Int(w) => *w, Ty::Ptr => 64, Ty::Float(w) => *w, t => panic!("bits of {:?}", t) }
    }
}

#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    E(u32),
    A(Rc<Vec<Val>>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Trunc, ZExt, SExt, PtrToInt, IntToPtr, Bitcast }

pub type Jump = u32;

#[derive(Clone, Debug)]
pub enum Ins {
    Bin { op: BinOp, ty: Ty, a: Opd, b: Opd, d: u32 },
    Icmp { p: Pred, ty: Ty, a: Opd, b: Opd, d: u32 },
    Cast { k: Cast, from: Ty, to: Ty, a: Opd, d: u32 },
    Gep { base: Opd, off: i64, dynv: Vec<(Opd, u8, i64)>, d: u32 },
    Load { ty: Ty, p: Opd, d: u32 },
    Store { ty: Ty, v: Opd, p: Opd },
    Alloca { size: u64, d: u32 },
    Select { c: Opd, ty: Ty, a: Opd, b: Opd, d: u32, vecc: bool },
    Call { f: Callee, args: Vec<(Ty, Opd)>, ret: Ty, d: Option<u32> },
    Extract { ty: Ty, a: Opd, idx: Vec<u32>, d: u32 },
    Insert { ty: Ty, a: Opd, v: Opd, idx: Vec<u32>, d: u32 },
    ExtractEl { a: Opd, i: Opd, d: u32 },
    InsertEl { a: Opd, v: Opd, i: Opd, d: u32 },
    Shuffle { n: u64, a: Opd, b: Opd, m: Opd, d: u32 },
    Copy { a: Opd, d: u32 },
    Rmw { op: String, ty: Ty, p: Opd, v: Opd, d: u32 },
    CmpXchg { ty: Ty, p: Opd, a: Opd, b: Opd, d: u32 },
    Fence,
    Br(Jump),
    CondBr { c: Opd, t: Jump, f: Jump },
    Switch { ty: Ty, v: Opd, def: Jump, cases: Vec<(u128, Jump)> },
    Ret(Option<Opd>),
    Unreachable,
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub enum Callee { Direct(u32), Reg(Opd) }

pub struct Block {
    pub name: String,
    /// (destination, incoming (pred block, value))
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub ins: Vec<Ins>,
}

pub struct Func {
    pub name: String,
    pub params: Vec<u32>,
    pub nregs: usize,
    pub blocks: Vec<Block>,
}

pub struct FnDecl {
    pub name: String,
    pub lines: Option<(usize, usize)>,
    pub body: Option<Rc<Func>>,
    pub weak: bool,
}

pub struct Global {
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub data: Vec<u8>,
}

pub const FN_BASE: u64 = 0x7000_0000_0000_0000;

pub struct Module {
    pub text: Vec<String>,
    pub fns: Vec<FnDecl>,
    pub fidx: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<String, u32>,
    pub named_ty: HashMap<String, Ty>,
}

// ---------- tokenizer ----------
#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Id(String),
    Loc(String),
    Glob(String),
    Meta(String),
    Num(String),
    Str(Vec<u8>),
    CStr(Vec<u8>),
    P(u8),
    Hash(String),
}

fn lex(s: &str) -> R<Vec<Tok>> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    let idc = |c: u8| c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-');
    let quoted = |mut i: usize| -> R<(Vec<u8>, usize)> {
        let mut v = vec![];
        i += 1;
        loop {
            if i >= b.len() { return Err("unterminated string".into()); }
            if b[i] == b'"' { return Ok((v, i + 1)); }
            if b[i] == b'\\' && i + 2 < b.len() && b[i + 1].is_ascii_hexdigit() && b[i + 2].is_ascii_hexdigit() {
                v.push(u8::from_str_radix(std::str::from_utf8(&b[i + 1..i + 3]).unwrap(), 16).unwrap());
                i += 3;
            } else if b[i] == b'\\' && i + 1 < b.len() && b[i + 1] == b'\\' { v.push(b'\\'); i += 2; }
            else { v.push(b[i]); i += 1; }
        }
    };
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' => i += 1,
            b';' => { while i < b.len() && b[i] != b'\n' { i += 1 } }
            b'%' | b'@' => {
                let (name, j) = if i + 1 < b.len() && b[i + 1] == b'"' {
                    let (v, j) = quoted(i + 1)?;
                    (String::from_utf8_lossy(&v).into_owned(), j)
                } else {
                    let mut j = i + 1;
                    while j < b.len() && idc(b[j]) { j += 1 }
                    (s[i + 1..j].to_string(), j)
                };
                out.push(if c == b'%' { Tok::Loc(name) } else { Tok::Glob(name) });
                i = j;
            }
            b'!' => {
                let mut j = i + 1;
                while j < b.len() && (idc(b[j]) || b[j] == b'\\') { j += 1 }
                out.push(Tok::Meta(s[i + 1..j].to_string()));
                i = j;
            }
            b'#' => {
                let mut j = i + 1;
                while j < b.len() && idc(b[j]) { j += 1 }
                out.push(Tok::Hash(s[i + 1..j].to_string()));
                i = j;
            }
            b'"' => { let (v, j) = quoted(i)?; out.push(Tok::Str(v)); i = j; }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => { let (v, j) = quoted(i + 1)?; out.push(Tok::CStr(v)); i = j; }
            b'-' | b'0'..=b'9' => {
                let mut j = i + 1;
                while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'.' || b[j] == b'+' || b[j] == b'-') { j += 1 }
                out.push(Tok::Num(s[i..j].to_string()));
                i = j;
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'.' || c == b'$' => {
                let mut j = i + 1;
                while j < b.len() && idc(b[j]) { j += 1 }
                out.push(Tok::Id(s[i..j].to_string()));
                i = j;
            }
            _ => { out.push(Tok::P(c)); i += 1; }
        }
    }
    Ok(out)
}

struct Cur<'a> {
    t: &'a [Tok],
    i: usize,
}

impl<'a> Cur<'a> {
    fn peek(&self) -> Option<&Tok> { self.t.get(self.i) }
    fn peek_at(&self, k: usize) -> Option<&Tok> { self.t.get(self.i + k) }
    fn next(&mut self) -> R<Tok> { let t = self.t.get(self.i).cloned().ok_or("unexpected end")?; self.i += 1; Ok(t) }
    fn is_p(&self, c: u8) -> bool { self.peek() == Some(&Tok::P(c)) }
    fn is_id(&self, s: &str) -> bool { matches!(self.peek(), Some(Tok::Id(x)) if x == s) }
    fn eat_p(&mut self, c: u8) -> bool { if self.is_p(c) { self.i += 1; true } else { false } }
    fn eat_id(&mut self, s: &str) -> bool { if self.is_id(s) { self.i += 1; true } else { false } }
    fn want_p(&mut self, c: u8) -> R<()> { if self.eat_p(c) { Ok(()) } else { Err(format!("expected '{}' got {:?} at {}", c as char, self.peek(), self.i)) } }
    fn skip_group(&mut self) -> R<()> {
        // at an opening bracket: skip to its match
        let mut d = 0;
        loop {
            match self.next()? {
                Tok::P(b'(') | Tok::P(b'[') | Tok::P(b'{') => d += 1,
                Tok::P(b')') | Tok::P(b']') | Tok::P(b'}') => { d -= 1; if d == 0 { return Ok(()); } }
                _ => {}
            }
        }
    }
    fn is_type_start(&self) -> bool {
        match self.peek() {
            Some(Tok::Id(s)) => is_type_id(s),
            Some(Tok::P(b'[')) | Some(Tok::P(b'{')) | Some(Tok::P(b'<')) | Some(Tok::Loc(_)) => true,
            _ => false,
        }
    }
}

fn is_type_id(s: &str) -> bool {
    s == "ptr" || s == "void" || s == "float" || s == "double" || s == "metadata" || s == "label" || s == "half" || s == "fp128" || s == "x86_fp80"
        || (s.len() > 1 && s.starts_with('i') && s[1..].bytes().all(|c| c.is_ascii_digit()))
}

fn is_value_id(s: &str) -> bool {
    matches!(s, "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "trunc" | "sub" | "add" | "xor" | "splat" | "asm" | "blockaddress" | "mul" | "shl")
}

impl Module {
    pub fn load(path: &str) -> R<Module> {
        let text = std::fs::read_to_string(path).map_err(|e| e.to_string())?;
        let lines: Vec<String> = text.lines().map(|s| s.to_string()).collect();
        let mut m = Module { text: vec![], fns: vec![], fidx: HashMap::new(), globals: vec![], gidx: HashMap::new(), named_ty: HashMap::new() };
        let mut gl = vec![];
        let mut i = 0;
        while i < lines.len() {
            let l = &lines[i];
            if l.starts_with("define ") {
                let mut j = i;
                while lines[j] != "}" { j += 1; }
                let name = fn_name(l)?;
                m.fidx.insert(name.clone(), m.fns.len() as u32);
                m.fns.push(FnDecl { name, lines: Some((i, j)), body: None, weak: false });
                i = j + 1;
                continue;
            }
            if l.starts_with("declare ") {
                let name = fn_name(l)?;
                let weak = l.contains("extern_weak");
                m.fidx.insert(name.clone(), m.fns.len() as u32);
                m.fns.push(FnDecl { name, lines: None, body: None, weak });
            } else if l.starts_with('@') {
                gl.push(i);
            } else if l.starts_with('%') {
                let t = lex(l)?;
                let mut c = Cur { t: &t, i: 0 };
                if let Tok::Loc(n) = c.next()? {
                    c.want_p(b'=')?;
                    c.next()?;
                    if !c.is_id("opaque") { let ty = m.ty(&mut c)?; m.named_ty.insert(n, ty); }
                }
            }
            i += 1;
        }
        // pass 1: addresses
        let mut next = 0x10000u64;
        let mut parsed = vec![];
        for &gi in &gl {
            let t = lex(&lines[gi])?;
            let mut c = Cur { t: &t, i: 0 };
            let name = match c.next()? { Tok::Glob(n) => n, _ => return Err("global".into()) };
            c.want_p(b'=')?;
            let mut external = false;
            let mut alias = false;
            // attributes up to 'global' / 'constant' / 'alias'
            loop {
                match c.next()? {
                    Tok::Id(s) if s == "global" || s == "constant" => break,
                    Tok::Id(s) if s == "alias" || s == "ifunc" => { alias = true; break; }
                    Tok::Id(s) if s == "external" || s == "extern_weak" => external = true,
                    Tok::P(b'(') => { c.i -= 1; c.skip_group()?; }
                    _ => {}
                }
            }
            if alias { continue; }
            let ty = m.ty(&mut c)?;
            let size = ty.size().max(1);
            next = (next + 31) / 32 * 32 + 32;
            let addr = next;
            next += size;
            m.gidx.insert(name.clone(), m.globals.len() as u32);
            m.globals.push(Global { name, addr, size, data: vec![] });
            let ci = c.i;
            parsed.push((t, ci, ty, external));
        }
        for (k, (t, ci, ty, external)) in parsed.into_iter().enumerate() {
            let mut data = vec![0u8; m.globals[k].size as usize];
            if !external {
                let mut c = Cur { t: &t, i: ci };
                if let Err(e) = m.init(&mut c, &ty, &mut data, 0) { return Err(format!("global {}: {}", m.globals[k].name, e)); }
            }
            m.globals[k].data = data;
        }
        m.text = lines;
        Ok(m)
    }

    fn init(&self, c: &mut Cur, ty: &Ty, out: &mut [u8], at: usize) -> R<()> {
        let v = self.constant(c, ty)?;
        write_const(&v, ty, out, at);
        Ok(())
    }

    fn ty(&self, c: &mut Cur) -> R<Ty> {
        match c.next()? {
            Tok::Id(s) => {
                if s == "void" { Ok(Ty::Void) }
                else if s == "ptr" {
                    if c.eat_id("addrspace") { c.skip_group()?; }
                    Ok(Ty::Ptr)
                } else if s == "metadata" || s == "label" { Ok(Ty::Meta) }
                else if s == "float" { Ok(Ty::Float(32)) }
                else if s == "double" { Ok(Ty::Float(64)) }
                else if s == "half" { Ok(Ty::Float(16)) }
                else if s == "fp128" || s == "x86_fp80" { Ok(Ty::Float(128)) }
                else if s.starts_with('i') { s[1..].parse::<u32>().ok().filter(|w| *w <= 128).map(|w| Ty::Int(w as u8)).ok_or(format!("type {}", s)) }
                else { Err(format!("type {}", s)) }
            }
            Tok::Loc(n) => self.named_ty.get(&n).cloned().ok_or(format!("named type {}", n)),
            Tok::P(b'[') => {
                let n = num(c)?;
                c.next()?;
                let t = self.ty(c)?;
                c.want_p(b']')?;
                Ok(Ty::Array(n as u64, Rc::new(t)))
            }
            Tok::P(b'<') => {
                if c.eat_p(b'{') {
                    let mut fs = vec![];
                    while !c.eat_p(b'}') { fs.push(self.ty(c)?); c.eat_p(b','); }
                    c.want_p(b'>')?;
                    Ok(Ty::Struct(true, Rc::new(fs)))
                } else {
                    let n = num(c)?;
                    c.next()?;
                    let t = self.ty(c)?;
                    c.want_p(b'>')?;
                    Ok(Ty::Vec(n as u64, Rc::new(t)))
                }
            }
            Tok::P(b'{') => {
                let mut fs = vec![];
                while !c.eat_p(b'}') { fs.push(self.ty(c)?); c.eat_p(b','); }
                Ok(Ty::Struct(false, Rc::new(fs)))
            }
            t => Err(format!("type at {:?}", t)),
        }
    }

    pub fn zero(&self, ty: &Ty) -> Val { zero(ty) }

    fn constant(&self, c: &mut Cur, ty: &Ty) -> R<Val> {
        match c.next()? {
            Tok::Num(s) => {
                match ty {
                    Ty::Float(w) => {
                        if let Some(h) = s.strip_prefix("0x") {
                            let v = u128::from_str_radix(h.trim_start_matches(|c: char| !c.is_ascii_hexdigit()), 16).map_err(|e| e.to_string())?;
                            if *w == 32 { return Ok(Val::C((f64::from_bits(v as u64) as f32).to_bits() as u128)); }
                            return Ok(Val::C(v));
                        }
                        let f: f64 = s.parse().map_err(|_| format!("float {}", s))?;
                        Ok(Val::C(if *w == 32 { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 }))
                    }
                    Ty::Int(w) => {
                        let v = if let Some(n) = s.strip_prefix('-') { (n.parse::<u128>().map_err(|e| e.to_string())?).wrapping_neg() } else { s.parse::<u128>().map_err(|e| format!("{} {}", s, e))? };
                        Ok(Val::C(v & mask(*w)))
                    }
                    t => Err(format!("number for {:?}", t)),
                }
            }
            Tok::Glob(n) => self.glob_addr(&n).map(|a| Val::C(a as u128)),
            Tok::CStr(v) => Ok(Val::A(Rc::new(v.into_iter().map(|b| Val::C(b as u128)).collect()))),
            Tok::P(b'[') => self.agg(c, b']'),
            Tok::P(b'{') => self.agg(c, b'}'),
            Tok::P(b'<') => {
                if c.eat_p(b'{') { let v = self.agg(c, b'}')?; c.want_p(b'>')?; Ok(v) } else { self.agg(c, b'>') }
            }
            Tok::Id(s) => match s.as_str() {
                "true" => Ok(Val::C(1)),
                "false" => Ok(Val::C(0)),
                "null" | "undef" | "poison" | "zeroinitializer" | "none" => Ok(zero(ty)),
                "splat" => {
                    c.want_p(b'(')?;
                    let t = self.ty(c)?;
                    let v = self.constant(c, &t)?;
                    c.want_p(b')')?;
                    match ty { Ty::Vec(n, _) => Ok(Val::A(Rc::new(vec![v; *n as usize]))), _ => Err("splat".into()) }
                }
                "getelementptr" => {
                    loop {
                        if c.is_p(b'(') { break; }
                        c.next()?;
                        if c.is_p(b'(') && matches!(c.t.get(c.i - 1), Some(Tok::Id(x)) if x == "inrange") { c.skip_group()?; }
                    }
                    c.want_p(b'(')?;
                    let t = self.ty(c)?;
                    c.want_p(b',')?;
                    let pt = self.ty(c)?;
                    let base = match self.constant(c, &pt)? { Val::C(v) => v as u64, _ => return Err("gep base".into()) };
                    let mut off = 0i64;
                    let mut cur = t;
                    let mut first = true;
                    while c.eat_p(b',') {
                        let it = self.ty(c)?;
                        let v = match self.constant(c, &it)? { Val::C(v) => crate::expr::sext(v, it.bits()) as i64, _ => return Err("gep idx".into()) };
                        if first { off += v * cur.size() as i64; first = false; } else { let (o, f) = cur.field_signed(v); off += o; cur = f; }
                    }
                    c.want_p(b')')?;
                    Ok(Val::C(base.wrapping_add(off as u64) as u128))
                }
                "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "trunc" => {
                    c.want_p(b'(')?;
                    let t = self.ty(c)?;
                    let v = self.constant(c, &t)?;
                    if !c.eat_id("to") { return Err("cast".into()); }
                    let to = self.ty(c)?;
                    c.want_p(b')')?;
                    match v { Val::C(k) => Ok(Val::C(k & mask(to.bits()))), v => Ok(v) }
                }
                "sub" | "add" | "xor" | "mul" | "shl" => {
                    while !c.is_p(b'(') { c.next()?; }
                    c.want_p(b'(')?;
                    let t = self.ty(c)?;
                    let a = self.constant(c, &t)?;
                    c.want_p(b',')?;
                    let t2 = self.ty(c)?;
                    let b = self.constant(c, &t2)?;
                    c.want_p(b')')?;
                    match (a, b) {
                        (Val::C(a), Val::C(b)) => Ok(Val::C(match s.as_str() { "sub" => a.wrapping_sub(b), "add" => a.wrapping_add(b), "mul" => a.wrapping_mul(b), "shl" => a << b, _ => a ^ b } & mask(t.bits()))),
                        _ => Err("const arith".into()),
                    }
                }
                o => Err(format!("constant {}", o)),
            },
            t => Err(format!("constant {:?}", t)),
        }
    }
    fn agg(&self, c: &mut Cur, close: u8) -> R<Val> {
        let mut v = vec![];
        while !c.eat_p(close) {
            let t = self.ty(c)?;
            v.push(self.constant(c, &t)?);
            c.eat_p(b',');
        }
        Ok(Val::A(Rc::new(v)))
    }
    pub fn glob_addr(&self, n: &str) -> R<u64> {
        if let Some(&g) = self.gidx.get(n) { return Ok(self.globals[g as usize].addr); }
        if let Some(&f) = self.fidx.get(n) {
            if self.fns[f as usize].weak { return Ok(0); }
            return Ok(FN_BASE + ((f as u64) << 8));
        }
        Err(format!("unknown global @{}", n))
    }

    pub fn func(&mut self, f: u32) -> R<Rc<Func>> {
        if let Some(b) = &self.fns[f as usize].body { return Ok(b.clone()); }
        let (a, z) = self.fns[f as usize].lines.ok_or_else(|| format!("no body for {}", self.fns[f as usize].name))?;
        let fun = self.parse_fn(a, z, f).map_err(|e| format!("in {}: {}", self.fns[f as usize].name, e))?;
        let r = Rc::new(fun);
        self.fns[f as usize].body = Some(r.clone());
        Ok(r)
    }

    fn parse_fn(&self, a: usize, z: usize, f: u32) -> R<Func> {
        let mut regs: FxMap<String, u32> = Default::default();
        let mut slot = |n: &str| -> u32 { let k = regs.len() as u32; *regs.entry(n.to_string()).or_insert(k) };
        // header
        let t = lex(&self.text[a])?;
        let mut c = Cur { t: &t, i: 0 };
        while !matches!(c.peek(), Some(Tok::Glob(_))) { c.next()?; }
        c.next()?;
        c.want_p(b'(')?;
        let mut params = vec![];
        let mut unnamed = 0;
        while !c.eat_p(b')') {
            if c.is_p(b'.') || c.is_id("...") { c.next()?; continue; }
            let _t = self.ty(&mut c)?;
            let mut named = false;
            loop {
                match c.peek() {
                    Some(Tok::P(b',')) => { c.next()?; break; }
                    Some(Tok::P(b')')) => break,
                    Some(Tok::P(b'(')) => c.skip_group()?,
                    Some(Tok::Loc(n)) => { let n = n.clone(); params.push(slot(&n)); named = true; if n.bytes().all(|b| b.is_ascii_digit()) { unnamed += 1; } c.next()?; }
                    _ => { c.next()?; }
                }
            }
            if !named { params.push(slot(&unnamed.to_string())); unnamed += 1; }
        }
        // block labels
        let mut blocks: Vec<Block> = vec![];
        let mut bidx: FxMap<String, u32> = Default::default();
        let mut spans: Vec<(usize, usize)> = vec![];
        let mut i = a + 1;
        let entry_name = unnamed.to_string();
        let label_of = |l: &str| -> Option<String> {
            if l.starts_with(' ') || l.is_empty() { return None; }
            if l.starts_with('"') { let e = l[1..].find('"')?; return Some(l[1..1 + e].to_string()); }
            let e = l.find(':')?;
            Some(l[..e].to_string())
        };
        while i < z {
            let l = &self.text[i];
            if l.is_empty() { i += 1; continue; }
            let name = match label_of(l) { Some(n) => { i += 1; n } None => entry_name.clone() };
            let s = i;
            while i < z && label_of(&self.text[i]).is_none() { i += 1; }
            bidx.insert(name.clone(), blocks.len() as u32);
            blocks.push(Block { name, phis: vec![], ins: vec![] });
            spans.push((s, i));
        }
        for (bi, (s, e)) in spans.iter().enumerate() {
            let mut i = *s;
            while i < *e {
                let l = self.text[i].trim();
                i += 1;
                if l.is_empty() || l.starts_with(';') { continue; }
                let mut full = l.to_string();
                // multi-line instructions: switch tables and invoke tails
                if full.starts_with("switch ") && !full.contains(']') {
                    while i < *e { let x = self.text[i].trim(); i += 1; full.push(' '); full.push_str(x); if x.starts_with(']') { break; } }
                }
                if full.contains("invoke ") && i < *e && self.text[i].trim().starts_with("to label") { full.push(' '); full.push_str(self.text[i].trim()); i += 1; }
                let toks = match lex(&full) { Ok(t) => t, Err(er) => { blocks[bi].ins.push(Ins::Unsupported(format!("{}: {}", er, full))); continue; } };
                let mut c = Cur { t: &toks, i: 0 };
                match self.parse_ins(&mut c, &mut slot, &bidx) {
                    Ok(Parsed::Phi(d, v)) => blocks[bi].phis.push((d, v)),
                    Ok(Parsed::Ins(x)) => blocks[bi].ins.push(x),
                    Ok(Parsed::Skip) => {}
                    Err(er) => blocks[bi].ins.push(Ins::Unsupported(format!("{}: {}", er, full))),
                }
            }
        }
        let nregs = regs.len();
        Ok(Func { name: self.fns[f as usize].name.clone(), params, nregs, blocks })
    }

    fn opd(&self, c: &mut Cur, ty: &Ty, slot: &mut dyn FnMut(&str) -> u32) -> R<Opd> {
        if let Some(Tok::Loc(n)) = c.peek() { let n = n.clone(); c.i += 1; return Ok(Opd::R(slot(&n))); }
        Ok(Opd::K(self.constant(c, ty)?))
    }

    fn label(&self, c: &mut Cur, b: &FxMap<String, u32>) -> R<u32> {
        c.eat_id("label");
        match c.next()? { Tok::Loc(n) => b.get(&n).copied().ok_or(format!("label {}", n)), t => Err(format!("label {:?}", t)) }
    }

    fn parse_ins(&self, c: &mut Cur, slot: &mut dyn FnMut(&str) -> u32, bidx: &FxMap<String, u32>) -> R<Parsed> {
        let mut d: Option<u32> = None;
        if let (Some(Tok::Loc(n)), Some(Tok::P(b'='))) = (c.peek(), c.peek_at(1)) {
            let n = n.clone();
            d = Some(slot(&n));
            c.i += 2;
        }
        if let Some(Tok::Hash(_)) = c.peek() { return Ok(Parsed::Skip); }
        let mut op = match c.next()? { Tok::Id(s) => s, t => return Err(format!("opcode {:?}", t)) };
        if op == "tail" || op == "musttail" || op == "notail" { op = match c.next()? { Tok::Id(s) => s, t => return Err(format!("opcode {:?}", t)) }; }
        let dd = d.unwrap_or(u32::MAX);
        let flags = |c: &mut Cur| { while matches!(c.peek(), Some(Tok::Id(s)) if matches!(s.as_str(), "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "fast" | "nnan" | "ninf" | "volatile" | "atomic" | "weak")) { c.i += 1; } };
        let ins = match op.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                flags(c);
                let ty = self.ty(c)?;
                let a = self.opd(c, &ty, slot)?;
                c.want_p(b',')?;
                let b = self.opd(c, &ty, slot)?;
                let k = match op.as_str() { "add" => BinOp::Add, "sub" => BinOp::Sub, "mul" => BinOp::Mul, "udiv" => BinOp::UDiv, "sdiv" => BinOp::SDiv, "urem" => BinOp::URem, "srem" => BinOp::SRem, "and" => BinOp::And, "or" => BinOp::Or, "xor" => BinOp::Xor, "shl" => BinOp::Shl, "lshr" => BinOp::LShr, _ => BinOp::AShr };
                Ins::Bin { op: k, ty, a, b, d: dd }
            }
            "icmp" => {
                flags(c);
                let p = match c.next()? { Tok::Id(s) => s, _ => return Err("pred".into()) };
                let p = match p.as_str() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ult" => Pred::Ult, "ule" => Pred::Ule, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "slt" => Pred::Slt, "sle" => Pred::Sle, "sgt" => Pred::Sgt, "sge" => Pred::Sge, _ => return Err("pred".into()) };
                let ty = self.ty(c)?;
                let a = self.opd(c, &ty, slot)?;
                c.want_p(b',')?;
                let b = self.opd(c, &ty, slot)?;
                Ins::Icmp { p, ty, a, b, d: dd }
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" => {
                flags(c);
                let from = self.ty(c)?;
                let a = self.opd(c, &from, slot)?;
                if !c.eat_id("to") { return Err("cast to".into()); }
                let to = self.ty(c)?;
                let k = match op.as_str() { "trunc" => Cast::Trunc, "zext" => Cast::ZExt, "sext" => Cast::SExt, "ptrtoint" | "ptrtoaddr" => Cast::PtrToInt, "inttoptr" => Cast::IntToPtr, _ => Cast::Bitcast };
                Ins::Cast { k, from, to, a, d: dd }
            }
            "getelementptr" => {
                flags(c);
                if c.eat_id("inrange") { c.skip_group()?; }
                let mut cur = self.ty(c)?;
                c.want_p(b',')?;
                let pt = self.ty(c)?;
                if pt != Ty::Ptr { return Err("vector gep".into()); }
                let base = self.opd(c, &Ty::Ptr, slot)?;
                let mut off = 0i64;
                let mut dynv = vec![];
                let mut first = true;
                while c.is_p(b',') {
                    if let Some(Tok::Meta(_)) = c.peek_at(1) { break; }
                    c.i += 1;
                    let it = self.ty(c)?;
                    let o = self.opd(c, &it, slot)?;
                    match o {
                        Opd::K(Val::C(v)) => {
                            let v = crate::expr::sext(v, it.bits()) as i64;
                            if first { off += v * cur.size() as i64 } else { let (o2, f) = cur.field_signed(v); off += o2; cur = f; }
                        }
                        o => {
                            if first { dynv.push((o, it.bits(), cur.size() as i64)); }
                            else { let (_, f) = cur.field(0); dynv.push((o, it.bits(), f.size() as i64)); cur = f; }
                        }
                    }
                    first = false;
                }
                Ins::Gep { base, off, dynv, d: dd }
            }
            "load" => {
                flags(c);
                let ty = self.ty(c)?;
                c.want_p(b',')?;
                self.ty(c)?;
                let p = self.opd(c, &Ty::Ptr, slot)?;
                Ins::Load { ty, p, d: dd }
            }
            "store" => {
                flags(c);
                let ty = self.ty(c)?;
                let v = self.opd(c, &ty, slot)?;
                c.want_p(b',')?;
                self.ty(c)?;
                let p = self.opd(c, &Ty::Ptr, slot)?;
                Ins::Store { ty, v, p }
            }
            "alloca" => {
                let ty = self.ty(c)?;
                let mut n = 1u64;
                if c.is_p(b',') && matches!(c.peek_at(1), Some(Tok::Id(s)) if is_type_id(s)) {
                    c.i += 1;
                    let it = self.ty(c)?;
                    n = match self.constant(c, &it)? { Val::C(v) => v as u64, _ => return Err("alloca n".into()) };
                }
                Ins::Alloca { size: (ty.size() * n).max(1), d: dd }
            }
            "select" => {
                flags(c);
                let ct = self.ty(c)?;
                let cond = self.opd(c, &ct, slot)?;
                c.want_p(b',')?;
                let ty = self.ty(c)?;
                let a = self.opd(c, &ty, slot)?;
                c.want_p(b',')?;
                self.ty(c)?;
                let b = self.opd(c, &ty, slot)?;
                Ins::Select { c: cond, ty, a, b, d: dd, vecc: ct != Ty::Int(1) }
            }
            "freeze" => { let ty = self.ty(c)?; let a = self.opd(c, &ty, slot)?; Ins::Copy { a, d: dd } }
            "phi" => {
                flags(c);
                let ty = self.ty(c)?;
                let mut v = vec![];
                loop {
                    c.want_p(b'[')?;
                    let o = self.opd(c, &ty, slot)?;
                    c.want_p(b',')?;
                    let b = self.label(c, bidx)?;
                    c.want_p(b']')?;
                    v.push((b, o));
                    if c.is_p(b',') && c.peek_at(1) == Some(&Tok::P(b'[')) { c.i += 1; } else { break; }
                }
                return Ok(Parsed::Phi(dd, v));
            }
            "extractvalue" => {
                let ty = self.ty(c)?;
                let a = self.opd(c, &ty, slot)?;
                let mut idx = vec![];
                while c.is_p(b',') && matches!(c.peek_at(1), Some(Tok::Num(_))) { c.i += 1; idx.push(num(c)? as u32); }
                Ins::Extract { ty, a, idx, d: dd }
            }
            "insertvalue" => {
                let ty = self.ty(c)?;
                let a = self.opd(c, &ty, slot)?;
                c.want_p(b',')?;
                let vt = self.ty(c)?;
                let v = self.opd(c, &vt, slot)?;
                let mut idx = vec![];
                while c.is_p(b',') && matches!(c.peek_at(1), Some(Tok::Num(_))) { c.i += 1; idx.push(num(c)? as u32); }
                Ins::Insert { ty, a, v, idx, d: dd }
            }
            "extractelement" => {
                let ty = self.ty(c)?;
                let a = self.opd(c, &ty, slot)?;
                c.want_p(b',')?;
                let it = self.ty(c)?;
                let i = self.opd(c, &it, slot)?;
                Ins::ExtractEl { a, i, d: dd }
            }
            "insertelement" => {
                let ty = self.ty(c)?;
                let a = self.opd(c, &ty, slot)?;
                c.want_p(b',')?;
                let vt = self.ty(c)?;
                let v = self.opd(c, &vt, slot)?;
                c.want_p(b',')?;
                let it = self.ty(c)?;
                let i = self.opd(c, &it, slot)?;
                Ins::InsertEl { a, v, i, d: dd }
            }
            "shufflevector" => {
                let ty = self.ty(c)?;
                let a = self.opd(c, &ty, slot)?;
                c.want_p(b',')?;
                self.ty(c)?;
                let b = self.opd(c, &ty, slot)?;
                c.want_p(b',')?;
                let mt = self.ty(c)?;
                let m = self.opd(c, &mt, slot)?;
                let n = match ty { Ty::Vec(n, _) => n, _ => return Err("shuffle".into()) };
                Ins::Shuffle { n, a, b, m, d: dd }
            }
            "fence" => Ins::Fence,
            "atomicrmw" => {
                flags(c);
                let k = match c.next()? { Tok::Id(s) => s, _ => return Err("rmw".into()) };
                self.ty(c)?;
                let p = self.opd(c, &Ty::Ptr, slot)?;
                c.want_p(b',')?;
                let ty = self.ty(c)?;
                let v = self.opd(c, &ty, slot)?;
                Ins::Rmw { op: k, ty, p, v, d: dd }
            }
            "cmpxchg" => {
                flags(c);
                self.ty(c)?;
                let p = self.opd(c, &Ty::Ptr, slot)?;
                c.want_p(b',')?;
                let ty = self.ty(c)?;
                let a = self.opd(c, &ty, slot)?;
                c.want_p(b',')?;
                self.ty(c)?;
                let b = self.opd(c, &ty, slot)?;
                Ins::CmpXchg { ty, p, a, b, d: dd }
            }
            "br" => {
                if c.is_id("label") { Ins::Br(self.label(c, bidx)?) }
                else {
                    let t = self.ty(c)?;
                    let v = self.opd(c, &t, slot)?;
                    c.want_p(b',')?;
                    let x = self.label(c, bidx)?;
                    c.want_p(b',')?;
                    let y = self.label(c, bidx)?;
                    Ins::CondBr { c: v, t: x, f: y }
                }
            }
            "switch" => {
                let ty = self.ty(c)?;
                let v = self.opd(c, &ty, slot)?;
                c.want_p(b',')?;
                let def = self.label(c, bidx)?;
                c.want_p(b'[')?;
                let mut cases = vec![];
                while !c.eat_p(b']') {
                    let t = self.ty(c)?;
                    let k = match self.constant(c, &t)? { Val::C(k) => k, _ => return Err("case".into()) };
                    c.want_p(b',')?;
                    cases.push((k, self.label(c, bidx)?));
                }
                Ins::Switch { ty, v, def, cases }
            }
            "ret" => {
                let ty = self.ty(c)?;
                if ty == Ty::Void { Ins::Ret(None) } else { Ins::Ret(Some(self.opd(c, &ty, slot)?)) }
            }
            "unreachable" => Ins::Unreachable,
            "call" | "invoke" => {
                let inv = op == "invoke";
                // cc, flags, return attributes
                loop {
                    if c.is_type_start() { break; }
                    match c.next()? {
                        Tok::Id(s) => { if (s == "align" || s == "cc") && matches!(c.peek(), Some(Tok::Num(_))) { c.i += 1; } if c.is_p(b'(') { c.skip_group()?; } }
                        Tok::Str(_) | Tok::P(b'=') => {}
                        t => return Err(format!("call at {:?}", t)),
                    }
                }
                let ret = self.ty(c)?;
                if c.is_p(b'(') { c.skip_group()?; }
                let f = match c.peek() {
                    Some(Tok::Glob(n)) => { let n = n.clone(); c.i += 1; Callee::Direct(*self.fidx.get(&n).ok_or(format!("callee {}", n))?) }
                    Some(Tok::Id(s)) if s == "asm" => return self.asm_call(c),
                    _ => Callee::Reg(self.opd(c, &Ty::Ptr, slot)?),
                };
                c.want_p(b'(')?;
                let mut args = vec![];
                while !c.eat_p(b')') {
                    let t = self.ty(c)?;
                    if t == Ty::Meta { let mut depth = 0; loop { match c.peek() { Some(Tok::P(b'(')) | Some(Tok::P(b'{')) => { depth += 1; c.i += 1; } Some(Tok::P(b')')) | Some(Tok::P(b'}')) if depth > 0 => { depth -= 1; c.i += 1; } Some(Tok::P(b',')) | Some(Tok::P(b')')) if depth == 0 => break, None => return Err("meta".into()), _ => c.i += 1 } } }
                    else {
                        loop {
                            match c.peek() {
                                Some(Tok::Id(s)) if !is_value_id(s) => {
                                    let al = s == "align";
                                    c.i += 1;
                                    if al && matches!(c.peek(), Some(Tok::Num(_))) { c.i += 1; }
                                    if c.is_p(b'(') { c.skip_group()?; }
                                }
                                Some(Tok::Str(_)) | Some(Tok::P(b'=')) => c.i += 1,
                                _ => break,
                            }
                        }
                        let o = self.opd(c, &t, slot)?;
                        args.push((t, o));
                    }
                    c.eat_p(b',');
                }
                if inv { return Err("invoke".into()); }
                Ins::Call { f, args, ret, d }
            }
            o => return Err(format!("opcode {}", o)),
        };
        Ok(Parsed::Ins(ins))
    }
    fn asm_call(&self, c: &mut Cur) -> R<Parsed> {
        // empty inline assembly (black_box / optimisation barriers) is a no-op when it returns nothing
        while let Ok(t) = c.next() { if let Tok::Str(s) = t { if s.is_empty() { return Ok(Parsed::Skip); } break; } }
        Err("inline asm".into())
    }
}

impl Ty {
    fn field_signed(&self, i: i64) -> (i64, Ty) {
        match self {
            Ty::Array(_, t) | Ty::Vec(_, t) => (i * t.size() as i64, (**t).clone()),
            _ => { let (o, f) = self.field(i as u64); (o as i64, f) }
        }
    }
}

enum Parsed {
    Phi(u32, Vec<(u32, Opd)>),
    Ins(Ins),
    Skip,
}

pub fn zero(ty: &Ty) -> Val {
    match ty {
        Ty::Array(n, t) | Ty::Vec(n, t) => Val::A(Rc::new(vec![zero(t); *n as usize])),
        Ty::Struct(_, fs) => Val::A(Rc::new(fs.iter().map(zero).collect())),
        _ => Val::C(0),
    }
}

fn num(c: &mut Cur) -> R<u128> {
    match c.next()? { Tok::Num(s) => s.parse().map_err(|_| format!("num {}", s)), t => Err(format!("num {:?}", t)) }
}

fn write_const(v: &Val, ty: &Ty, out: &mut [u8], at: usize) {
    match (v, ty) {
        (Val::C(k), _) => { let n = ty.size() as usize; for i in 0..n.min(16) { out[at + i] = (k >> (8 * i)) as u8; } }
        (Val::A(xs), _) => for (i, x) in xs.iter().enumerate() { let (o, f) = ty.field(i as u64); write_const(x, &f, out, at + o as usize); },
        (Val::E(_), _) => {}
    }
}

fn fn_name(l: &str) -> R<String> {
    let i = l.find('@').ok_or("fn name")?;
    let r = &l[i + 1..];
    if r.starts_with('"') { let e = r[1..].find('"').ok_or("q")?; return Ok(r[1..1 + e].to_string()); }
    let e = r.find('(').ok_or("(")?;
    Ok(r[..e].to_string())
}
