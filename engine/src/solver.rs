//! Queries to z3 (libz3, C API), with a cache.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

type P = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_interrupt(c: P);
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_int));
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, comp: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
}

extern "C" fn on_error(_c: P, e: c_int) {
    if late() {
        // canceled by the watchdog; whatever was asked has no answer
        CANCELED.with(|c| c.set(true));
        return;
    }
    eprintln!("z3 error {}", e);
    std::process::exit(3);
}

/// live z3 contexts, and the time at which their work is to stop
static LIVE: Mutex<Vec<(usize, Arc<AtomicBool>)>> = Mutex::new(vec![]);
static STOP_AT: Mutex<Option<Instant>> = Mutex::new(None);

pub fn stop_at(t: Option<Instant>) {
    *STOP_AT.lock().unwrap() = t;
}
fn late() -> bool {
    STOP_AT.lock().unwrap().map_or(false, |t| Instant::now() > t)
}
thread_local! {
    static CANCELED: std::cell::Cell<bool> = std::cell::Cell::new(false);
}
/// ends queries that run past the deadline (z3's own limit does not cover everything it does)
pub fn watchdog() {
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_millis(300));
        if late() {
            for c in LIVE.lock().unwrap().iter() {
                if c.1.load(Ordering::SeqCst) {
                    unsafe { Z3_interrupt(c.0 as P) };
                }
            }
        }
    });
}

#[derive(Clone, Debug)]
pub enum Sat {
    Sat(std::rc::Rc<Vec<(u32, u8)>>),
    Unsat,
    Unknown,
}

#[derive(Default, Clone, Debug)]
pub struct SStats {
    pub queries: u64,
    pub cache_hits: u64,
    pub z3_sat: u64,
    pub z3_unsat: u64,
    pub z3_unknown: u64,
    pub time: f64,
    pub max: f64,
    pub hard: u64,
}

pub struct Solver {
    c: P,
    s: P,
    s2: P,
    bv: HashMap<u32, P>,
    ast: Vec<P>,  // bit-vector sort
    bast: Vec<P>, // bool sort, for width-1 expressions
    cache: HashMap<Vec<E>, Sat, Fx>,
    pub st: SStats,
    timeout: u32,
    busy: Arc<AtomicBool>,
    // constraints currently asserted (prefix reuse)
    stack: Vec<E>,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        let mut s = Solver {
            c: std::ptr::null_mut(),
            s: std::ptr::null_mut(),
            s2: std::ptr::null_mut(),
            bv: HashMap::new(),
            ast: vec![],
            bast: vec![],
            cache: HashMap::default(),
            st: SStats::default(),
            timeout: timeout_ms,
            busy: Arc::default(),
            stack: vec![],
        };
        s.init();
        s
    }
    fn limit(&mut self, s: P, ms: u32) {
        unsafe {
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), ms);
            Z3_solver_set_params(self.c, s, p);
        }
    }
    fn init(&mut self) {
        unsafe {
            let cfg = Z3_mk_config();
            self.c = Z3_mk_context_rc(cfg);
            LIVE.lock().unwrap().push((self.c as usize, self.busy.clone()));
            Z3_del_config(cfg);
            Z3_set_error_handler(self.c, on_error);
            // an incremental solver answers the many small queries; what it does not answer
            // within half a second goes to the bit-vector tactic solver with the full limit
            self.s = Z3_mk_simple_solver(self.c);
            Z3_solver_inc_ref(self.c, self.s);
            let l = CString::new("QF_BV").unwrap();
            self.s2 = Z3_mk_solver_for_logic(self.c, Z3_mk_string_symbol(self.c, l.as_ptr()));
            Z3_solver_inc_ref(self.c, self.s2);
        }
        let (s, s2, t) = (self.s, self.s2, self.timeout);
        self.limit(s, 500.min(t));
        self.limit(s2, t);
    }
    pub fn reset(&mut self) {
        let c = self.c as usize;
        LIVE.lock().unwrap().retain(|x| x.0 != c);
        unsafe { Z3_del_context(self.c) };
        self.bv.clear();
        self.ast = vec![];
        self.bast = vec![];
        self.cache.clear();
        self.stack.clear();
        self.init();
    }
    fn sort(&mut self, w: u32) -> P {
        let c = self.c;
        *self.bv.entry(w).or_insert_with(|| unsafe {
            let s = Z3_mk_bv_sort(c, w);
            Z3_inc_ref(c, s);
            s
        })
    }
    fn num(&mut self, v: u128, w: u32) -> P {
        unsafe {
            if w <= 64 {
                let s = self.sort(w);
                let a = Z3_mk_unsigned_int64(self.c, v as u64, s);
                Z3_inc_ref(self.c, a);
                a
            } else {
                let h = self.sort(w - 64);
                let l = self.sort(64);
                let a = Z3_mk_unsigned_int64(self.c, (v >> 64) as u64, h);
                Z3_inc_ref(self.c, a);
                let b = Z3_mk_unsigned_int64(self.c, v as u64, l);
                Z3_inc_ref(self.c, b);
                let r = Z3_mk_concat(self.c, a, b);
                Z3_inc_ref(self.c, r);
                r
            }
        }
    }
    /// bool-sorted term of a width-1 expression
    fn b(&mut self, ar: &Arena, e: E) -> P {
        let i = e as usize;
        if self.bast.len() <= i {
            self.bast.resize(ar.n.len(), std::ptr::null_mut());
        }
        if !self.bast[i].is_null() {
            return self.bast[i];
        }
        let n = ar.n[i];
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if ar.cv(e) == Some(1) {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Not => {
                    let a = self.b(ar, n.a);
                    Z3_mk_not(c, a)
                }
                Op::And => {
                    let v = [self.b(ar, n.a), self.b(ar, n.b)];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                Op::Or => {
                    let v = [self.b(ar, n.a), self.b(ar, n.b)];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
                Op::Xor => {
                    let (x, y) = (self.b(ar, n.a), self.b(ar, n.b));
                    Z3_mk_xor(c, x, y)
                }
                Op::Eq => {
                    let (x, y) = if ar.w(n.a) == 1 { (self.b(ar, n.a), self.b(ar, n.b)) } else { (self.t(ar, n.a), self.t(ar, n.b)) };
                    Z3_mk_eq(c, x, y)
                }
                Op::Ult => {
                    let (x, y) = (self.t(ar, n.a), self.t(ar, n.b));
                    Z3_mk_bvult(c, x, y)
                }
                Op::Slt => {
                    let (x, y) = (self.t(ar, n.a), self.t(ar, n.b));
                    Z3_mk_bvslt(c, x, y)
                }
                Op::Ite => {
                    let (p, x, y) = (self.b(ar, n.a), self.b(ar, n.b), self.b(ar, n.c));
                    Z3_mk_ite(c, p, x, y)
                }
                _ => {
                    let x = self.t(ar, e);
                    let o = self.num(1, 1);
                    Z3_mk_eq(c, x, o)
                }
            }
        };
        unsafe { Z3_inc_ref(c, r) };
        self.bast[i] = r;
        r
    }
    /// bit-vector-sorted term
    fn t(&mut self, ar: &Arena, e: E) -> P {
        let i = e as usize;
        if self.ast.len() <= i {
            self.ast.resize(ar.n.len(), std::ptr::null_mut());
        }
        if !self.ast[i].is_null() {
            return self.ast[i];
        }
        let n = ar.n[i];
        let c = self.c;
        let w = n.w as u32;
        let boolish = w == 1 && matches!(n.op, Op::Not | Op::And | Op::Or | Op::Xor | Op::Eq | Op::Ult | Op::Slt | Op::Ite);
        let r = unsafe {
            if boolish {
                let b = self.b(ar, e);
                let o = self.num(1, 1);
                let z = self.num(0, 1);
                Z3_mk_ite(c, b, o, z)
            } else {
                match n.op {
                    Op::Const => self.num(ar.cv(e).unwrap(), w),
                    Op::Var => {
                        let s = self.sort(8);
                        Z3_mk_const(c, Z3_mk_int_symbol(c, n.a as c_int), s)
                    }
                    Op::Not => {
                        let a = self.t(ar, n.a);
                        Z3_mk_bvnot(c, a)
                    }
                    Op::Extract => {
                        let a = self.t(ar, n.a);
                        Z3_mk_extract(c, n.b + w - 1, n.b, a)
                    }
                    Op::ZExt => {
                        let a = self.t(ar, n.a);
                        Z3_mk_zero_ext(c, w - ar.w(n.a), a)
                    }
                    Op::SExt => {
                        let a = self.t(ar, n.a);
                        Z3_mk_sign_ext(c, w - ar.w(n.a), a)
                    }
                    Op::Ite => {
                        let (p, x, y) = (self.b(ar, n.a), self.t(ar, n.b), self.t(ar, n.c));
                        Z3_mk_ite(c, p, x, y)
                    }
                    _ => {
                        let (x, y) = (self.t(ar, n.a), self.t(ar, n.b));
                        match n.op {
                            Op::Add => Z3_mk_bvadd(c, x, y),
                            Op::Sub => Z3_mk_bvsub(c, x, y),
                            Op::Mul => Z3_mk_bvmul(c, x, y),
                            Op::UDiv => Z3_mk_bvudiv(c, x, y),
                            Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                            Op::URem => Z3_mk_bvurem(c, x, y),
                            Op::SRem => Z3_mk_bvsrem(c, x, y),
                            Op::Shl => Z3_mk_bvshl(c, x, y),
                            Op::LShr => Z3_mk_bvlshr(c, x, y),
                            Op::AShr => Z3_mk_bvashr(c, x, y),
                            Op::And => Z3_mk_bvand(c, x, y),
                            Op::Or => Z3_mk_bvor(c, x, y),
                            Op::Xor => Z3_mk_bvxor(c, x, y),
                            Op::Concat => Z3_mk_concat(c, x, y),
                            _ => unreachable!(),
                        }
                    }
                }
            }
        };
        unsafe { Z3_inc_ref(c, r) };
        self.ast[i] = r;
        r
    }
    /// is the conjunction of `cs` satisfiable?
    pub fn check(&mut self, ar: &Arena, cs: &[E]) -> Sat {
        self.st.queries += 1;
        let mut key: Vec<E> = cs.to_vec();
        key.sort_unstable();
        key.dedup();
        if let Some(r) = self.cache.get(&key) {
            self.st.cache_hits += 1;
            return r.clone();
        }
        if late() {
            self.st.z3_unknown += 1;
            return Sat::Unknown;
        }
        let t0 = Instant::now();
        let mut sup: Vec<u64> = vec![];
        for &e in cs {
            let s = &ar.sets[ar.sup[e as usize] as usize];
            if sup.len() < s.len() {
                sup.resize(s.len(), 0);
            }
            for i in 0..s.len() {
                sup[i] |= s[i];
            }
        }
        let r = unsafe {
            // reuse the common prefix of asserted constraints
            let mut k = 0;
            while k < self.stack.len() && k < cs.len() && self.stack[k] == cs[k] {
                k += 1;
            }
            let drop = self.stack.len() - k;
            if drop > 0 {
                Z3_solver_pop(self.c, self.s, drop as c_uint);
                self.stack.truncate(k);
            }
            for &e in &cs[k..] {
                let b = self.b(ar, e);
                Z3_solver_push(self.c, self.s);
                Z3_solver_assert(self.c, self.s, b);
                self.stack.push(e);
            }
            let mut which = self.s;
            self.busy.store(true, Ordering::SeqCst);
            let mut ans = Z3_solver_check(self.c, self.s);
            self.busy.store(false, Ordering::SeqCst);
            if ans == 0 {
                which = self.s2;
                Z3_solver_reset(self.c, self.s2);
                for &e in cs {
                    let b = self.b(ar, e);
                    Z3_solver_assert(self.c, self.s2, b);
                }
                self.st.hard += 1;
                self.busy.store(true, Ordering::SeqCst);
                ans = Z3_solver_check(self.c, self.s2);
                self.busy.store(false, Ordering::SeqCst);
            }
            if CANCELED.with(|c| c.replace(false)) {
                ans = 0;
            }
            match ans {
                1 => 'ans: {
                    let m = Z3_solver_get_model(self.c, which);
                    if m.is_null() || CANCELED.with(|c| c.replace(false)) {
                        self.st.z3_unknown += 1;
                        break 'ans Sat::Unknown;
                    }
                    Z3_model_inc_ref(self.c, m);
                    let mut out = vec![];
                    let mut complete = true;
                    for (wi, word) in sup.iter().enumerate() {
                        let mut x = *word;
                        while x != 0 {
                            let v = wi as u32 * 64 + x.trailing_zeros();
                            x &= x - 1;
                            let s = self.sort(8);
                            let t = Z3_mk_const(self.c, Z3_mk_int_symbol(self.c, v as c_int), s);
                            Z3_inc_ref(self.c, t);
                            let mut r: P = std::ptr::null_mut();
                            let mut u = 0u64;
                            if Z3_model_eval(self.c, m, t, true, &mut r) {
                                Z3_inc_ref(self.c, r);
                                complete &= Z3_get_numeral_uint64(self.c, r, &mut u);
                            } else {
                                complete = false;
                            }
                            out.push((v, u as u8));
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                    if CANCELED.with(|c| c.replace(false)) || !complete {
                        self.st.z3_unknown += 1;
                        break 'ans Sat::Unknown;
                    }
                    self.st.z3_sat += 1;
                    Sat::Sat(std::rc::Rc::new(out))
                }
                -1 => {
                    self.st.z3_unsat += 1;
                    Sat::Unsat
                }
                _ => {
                    self.st.z3_unknown += 1;
                    Sat::Unknown
                }
            }
        };
        let dt = t0.elapsed().as_secs_f64();
        self.st.time += dt;
        if dt > self.st.max {
            self.st.max = dt;
        }
        self.cache.insert(key, r.clone());
        r
    }
}
impl Drop for Solver {
    fn drop(&mut self) {
        let c = self.c as usize;
        LIVE.lock().unwrap().retain(|x| x.0 != c);
        unsafe { Z3_del_context(self.c) };
    }
}
impl Solver {
    #[allow(dead_code)]
    fn unused(&self) -> P {
        unsafe { Z3_mk_bool_sort(self.c) }
    }
}
