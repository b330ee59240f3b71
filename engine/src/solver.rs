//! z3 through its C API: bit-vector queries over slices of the path condition.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_err(_c: P, e: c_int) {
    eprintln!("z3 API error {}", e);
    std::process::exit(3);
}

pub enum Res {
    Sat(Vec<(u32, u8)>),
    Unsat,
    Unknown,
}

pub struct Solver {
    c: P,
    s: P,
    ast: Vec<P>,
    cache: FxMap<Vec<Id>, Option<Vec<(u32, u8)>>>,
    pub timeout_ms: u32,
    pub queries: u64,
    pub cached: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max_time: f64,
    pub asserts_discharged: u64,
    /// dump every n-th query as SMT-LIB (for a second solver)
    pub dump_every: u64,
    pub dumped: Vec<(String, bool)>,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let mut r = Solver {
                c, s, ast: vec![], cache: Default::default(), timeout_ms, queries: 0, cached: 0, sat: 0, unsat: 0, unknown: 0,
                time: 0.0, max_time: 0.0, asserts_discharged: 0, dump_every: 0, dumped: vec![],
            };
            r.set_timeout(s, timeout_ms);
            r
        }
    }
    pub fn version() -> String {
        unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
    }
    fn set_timeout(&mut self, s: P, ms: u32) {
        unsafe {
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), ms);
            Z3_solver_set_params(self.c, s, p);
        }
    }
    fn bv(&mut self, i: Id) -> P {
        // bit-vector form of a node (1-bit nodes are z3 Bools internally)
        let a = self.tr(i);
        if cx().w(i) == 1 {
            unsafe {
                let t = Z3_mk_bv_sort(self.c, 1);
                let one = Z3_mk_unsigned_int64(self.c, 1, t);
                let zero = Z3_mk_unsigned_int64(self.c, 0, t);
                let r = Z3_mk_ite(self.c, a, one, zero);
                Z3_inc_ref(self.c, r);
                r
            }
        } else { a }
    }
    fn tr(&mut self, i: Id) -> P {
        if (i as usize) < self.ast.len() && !self.ast[i as usize].is_null() { return self.ast[i as usize]; }
        let n = cx().nodes[i as usize];
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if n.w == 1 { if n.k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) } }
                    else {
                        let t = Z3_mk_bv_sort(c, n.w as c_uint);
                        if n.w <= 64 { Z3_mk_unsigned_int64(c, n.k as u64, t) }
                        else { let s = CString::new(n.k.to_string()).unwrap(); Z3_mk_numeral(c, s.as_ptr(), t) }
                    }
                }
                Op::Var => {
                    let s = CString::new(format!("b{}", n.k)).unwrap();
                    Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), Z3_mk_bv_sort(c, 8))
                }
                Op::Ite => { let x = self.tr(n.a); let y = self.tr(n.b); let z = self.tr(n.c); Z3_mk_ite(c, x, y, z) }
                Op::ZExt => { let x = self.bv(n.a); Z3_mk_zero_ext(c, (n.w - cx().w(n.a)) as c_uint, x) }
                Op::SExt => { let x = self.bv(n.a); Z3_mk_sign_ext(c, (n.w - cx().w(n.a)) as c_uint, x) }
                Op::Extract => {
                    let x = self.bv(n.a);
                    let e = Z3_mk_extract(c, (n.k as u32) + n.w as u32 - 1, n.k as u32, x);
                    if n.w == 1 { let t = Z3_mk_bv_sort(c, 1); Z3_inc_ref(c, e); Z3_mk_eq(c, e, Z3_mk_unsigned_int64(c, 1, t)) } else { e }
                }
                Op::Concat => { let x = self.bv(n.a); let y = self.bv(n.b); Z3_mk_concat(c, x, y) }
                _ => {
                    let ow = cx().w(n.a);
                    if ow == 1 && matches!(n.op, Op::And | Op::Or | Op::Xor | Op::Eq) {
                        let x = self.tr(n.a);
                        let y = self.tr(n.b);
                        if n.op == Op::Xor && cx().is_const(n.b) == Some(1) { Z3_mk_not(c, x) } else {
                            let v = [x, y];
                            match n.op { Op::And => Z3_mk_and(c, 2, v.as_ptr()), Op::Or => Z3_mk_or(c, 2, v.as_ptr()), Op::Xor => Z3_mk_xor(c, x, y), _ => Z3_mk_eq(c, x, y) }
                        }
                    } else {
                        let x = self.bv(n.a);
                        let y = self.bv(n.b);
                        let f: unsafe extern "C" fn(P, P, P) -> P = match n.op {
                            Op::Add => Z3_mk_bvadd, Op::Sub => Z3_mk_bvsub, Op::Mul => Z3_mk_bvmul, Op::UDiv => Z3_mk_bvudiv, Op::URem => Z3_mk_bvurem,
                            Op::SDiv => Z3_mk_bvsdiv, Op::SRem => Z3_mk_bvsrem, Op::And => Z3_mk_bvand, Op::Or => Z3_mk_bvor, Op::Xor => Z3_mk_bvxor,
                            Op::Shl => Z3_mk_bvshl, Op::LShr => Z3_mk_bvlshr, Op::AShr => Z3_mk_bvashr, Op::Eq => Z3_mk_eq,
                            Op::Ult => Z3_mk_bvult, Op::Ule => Z3_mk_bvule, Op::Slt => Z3_mk_bvslt, Op::Sle => Z3_mk_bvsle,
                            _ => unreachable!(),
                        };
                        let r = f(c, x, y);
                        // 1-bit arithmetic results are bit-vectors in z3; bring them back to Bool
                        if n.w == 1 && ow == 1 && !matches!(n.op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle) {
                            Z3_inc_ref(c, r);
                            let t = Z3_mk_bv_sort(c, 1);
                            Z3_mk_eq(c, r, Z3_mk_unsigned_int64(c, 1, t))
                        } else { r }
                    }
                }
            }
        };
        unsafe { Z3_inc_ref(c, r) };
        if self.ast.len() <= i as usize { self.ast.resize(i as usize + 1024, std::ptr::null_mut()); }
        self.ast[i as usize] = r;
        r
    }
    /// satisfiability of a conjunction
    pub fn check(&mut self, mut cs: Vec<Id>) -> Res {
        cs.sort_unstable();
        cs.dedup();
        if let Some(r) = self.cache.get(&cs) {
            self.cached += 1;
            return match r { Some(m) => Res::Sat(m.clone()), None => Res::Unsat };
        }
        let t0 = Instant::now();
        self.queries += 1;
        let asts: Vec<P> = cs.iter().map(|&i| self.tr(i)).collect();
        let c = self.c;
        let mut vs: Vec<u32> = vec![];
        for &i in &cs { vs.extend(cx().vars(i).iter()); }
        vs.sort_unstable();
        vs.dedup();
        let res = unsafe {
            Z3_solver_push(c, self.s);
            for &a in &asts { Z3_solver_assert(c, self.s, a); }
            if self.dump_every > 0 && self.queries % self.dump_every == 1 {
                let txt = CStr::from_ptr(Z3_solver_to_string(c, self.s)).to_string_lossy().into_owned();
                self.dumped.push((txt, false));
            }
            let mut r = Z3_solver_check(c, self.s);
            let mut out = None;
            if r == 1 { out = Some(self.model(self.s, &vs)); }
            Z3_solver_pop(c, self.s, 1);
            if r == 0 {
                // undecided by the incremental core: try the bit-blasting strategy
                let l = CString::new("QF_BV").unwrap();
                let s2 = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
                Z3_solver_inc_ref(c, s2);
                self.set_timeout(s2, self.timeout_ms * 4);
                for &a in &asts { Z3_solver_assert(c, s2, a); }
                r = Z3_solver_check(c, s2);
                if r == 1 { out = Some(self.model(s2, &vs)); }
                Z3_solver_dec_ref(c, s2);
            }
            if self.dump_every > 0 && self.queries % self.dump_every == 1 { self.dumped.last_mut().unwrap().1 = r == 1; if r == 0 { self.dumped.pop(); } }
            match r { 1 => Res::Sat(out.unwrap()), -1 => Res::Unsat, _ => Res::Unknown }
        };
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_time { self.max_time = dt; }
        match &res {
            Res::Sat(m) => {
                self.sat += 1;
                // the model must satisfy the query under our own evaluator
                let mut b = vec![0u8; 1 + *vs.last().unwrap_or(&0) as usize];
                for &(v, x) in m { b[v as usize] = x; }
                cx().eval_begin();
                for &i in &cs {
                    if cx().eval(i, &b) != 1 {
                        eprintln!("engine: z3 model does not satisfy the constraint under the engine's evaluator: {}", cx().show(i, 6));
                        std::process::exit(3);
                    }
                }
                self.cache.insert(cs, Some(m.clone()));
            }
            Res::Unsat => { self.unsat += 1; self.cache.insert(cs, None); }
            Res::Unknown => { self.unknown += 1; }
        }
        res
    }
    unsafe fn model(&mut self, s: P, vs: &[u32]) -> Vec<(u32, u8)> {
        let c = self.c;
        let m = Z3_solver_get_model(c, s);
        Z3_model_inc_ref(c, m);
        let mut out = Vec::with_capacity(vs.len());
        for &v in vs {
            let id = cx().var(v);
            let a = self.tr(id);
            let mut r: P = std::ptr::null_mut();
            if !Z3_model_eval(c, m, a, true, &mut r) { panic!("model_eval") }
            Z3_inc_ref(c, r);
            let mut u = 0u64;
            if !Z3_get_numeral_uint64(c, r, &mut u) { panic!("numeral") }
            out.push((v, u as u8));
        }
        Z3_model_dec_ref(c, m);
        out
    }
}
