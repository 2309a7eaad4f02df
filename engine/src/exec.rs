//! Symbolic executor: explores every feasible path of a harness function of the module.
use crate::expr::*;
use crate::ir::{self, BinOp, Callee, Cast, Module, Pred, Ty, I, K};
use crate::solver::*;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    E(E),
    Agg(Rc<Vec<Val>>),
}
use Val::{Agg, C};

#[derive(Clone)]
pub struct Obj {
    data: Vec<u8>,
    sym: Option<Vec<E>>, // 0 = concrete byte
}

impl Obj {
    fn new(n: usize, fill: u8) -> Self {
        Obj { data: vec![fill; n], sym: None }
    }
}

#[derive(Clone)]
struct Frame {
    f: u32,
    b: u32,
    ip: u32,
    regs: Vec<Val>,
    ret: Option<u32>,
    normal: Option<u32>,
    stack_base: u32,
}

/// decisions that determine a path
#[derive(Clone, Copy, Debug)]
pub enum D {
    Br(bool, bool), // side taken, forced
    Conc(u64, bool, bool),
    Val(u64),
}

struct H {
    d: D,
    prev: Option<Rc<H>>,
}
impl Drop for H {
    fn drop(&mut self) {
        // iterative: the lists are long
        let mut p = self.prev.take();
        while let Some(x) = p {
            match Rc::try_unwrap(x) {
                Ok(mut h) => p = h.prev.take(),
                Err(_) => break,
            }
        }
    }
}

struct Group {
    sup: u32,
    cons: Vec<E>,
}

struct Model {
    id: usize,
    v: Vec<u8>,
}

const HEAP: u32 = 0x0100_0000;
const STACK: u32 = 0x0400_0000;

#[derive(Clone)]
struct State {
    frames: Vec<Frame>,
    heap: Vec<Option<Rc<Obj>>>,
    stack: Vec<Rc<Obj>>,
    globals: HashMap<u32, Rc<Obj>, Fx>,
    groups: Vec<Rc<Group>>,
    fixed: Vec<u64>,
    model: Rc<Model>,
    nvars: u32,
    steps: u64,
    clock: u64,
    rnd: u64,
    hist: Option<Rc<H>>,
    hist_mark: Option<Rc<H>>,
    inst_dec: Vec<D>,
    replay: VecDeque<D>,
    decs: u32,
    allocated: u64,
    covers: u64,
    live: i64,
    nas: u32,
    trace: Vec<Val>,
}

/// one complete path: an input that takes it, and what it must show natively
#[derive(Clone, Debug)]
pub struct Sample {
    pub input: Vec<u8>,
    pub covers: u64,
    pub asserts: u32,
    pub trace: Vec<u64>,
}

pub struct Item {
    pub ds: Vec<D>,
    pub model: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub at: String,
    pub input: Vec<u8>,
}

#[derive(Default, Debug, Clone)]
pub struct Stats {
    pub paths: u64,
    pub assumed_away: u64,
    pub forks: u64,
    pub steps: u64,
    pub max_steps: u64,
    pub max_vars: u32,
    pub asserts: u64,
    pub covers: u64,
    pub want_covers: u64,
    pub funcs: Vec<u64>,
    pub lines: Vec<u64>,
    pub concretized: u64,
    pub solver: SStats,
    pub nodes: u64,
    pub samples: Vec<Sample>,
    pub inconclusive: BTreeMap<String, u64>,
    pub fork_sites: BTreeMap<(u32, u32), u64>,
    pub queries_by_site: BTreeMap<(u32, u32), u64>,
}

pub struct Shared<'a> {
    pub m: &'a Module,
    pub ext: Vec<Ext>,
    pub special: Vec<u8>,
    pub entry: u32,
    pub queue: Mutex<VecDeque<Item>>,
    pub cv: Condvar,
    pub idle: AtomicUsize,
    pub threads: usize,
    pub stop: AtomicBool,
    pub t0: Instant,
    /// milliseconds after t0
    pub deadline: AtomicU64,
    /// seconds to go on for after the first violation
    pub after_viol: u64,
    pub max_steps: u64,
    pub max_alloc: u64,
    pub max_depth: usize,
    pub timeout_ms: u32,
    pub max_viol: usize,
    pub viol: Mutex<Vec<Violation>>,
    pub verbose: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ext {
    Unknown,
    Nop,
    Sym,
    Assert,
    Assume,
    Cover,
    Covers,
    Conc,
    Trace,
    Scale,
    IsSym,
    Malloc,
    Calloc,
    Realloc,
    Free,
    Memalign,
    Memcmp,
    Strlen,
    Syscall,
    Getrandom,
    Clock,
    Getenv,
    Abort,
    Write,
    Zero,
    ErrnoLoc,
    Memcpy,
    Memset,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitrev,
    Fshl,
    Fshr,
    AddO(bool),
    SubO(bool),
    MulO(bool),
    AddSat(bool),
    SubSat(bool),
    UMin,
    UMax,
    SMin,
    SMax,
    Abs,
    Cmp(bool),
    Expect,
    IsConst,
    TlsAddr,
    Trap,
    FAbs,
    FOp1(u8),
    FMulAdd,
    Reduce(Op, u8),
    FPow(bool),
    FBin(u8),
    FpToSat(bool),
}

pub fn classify(n: &str) -> Ext {
    use Ext::*;
    let p = |s: &str| n.starts_with(s);
    match n {
        "vp_sym" => return Sym,
        "vp_assert" => return Assert,
        "vp_assume" => return Assume,
        "vp_cover" => return Cover,
        "vp_covers" => return Covers,
        "vp_conc" => return Conc,
        "vp_trace" => return Trace,
        "vp_scale" => return Scale,
        "vp_is_sym" => return IsSym,
        "malloc" => return Malloc,
        "calloc" => return Calloc,
        "realloc" => return Realloc,
        "free" => return Free,
        "posix_memalign" => return Memalign,
        "memcmp" | "bcmp" => return Memcmp,
        "strlen" => return Strlen,
        "syscall" => return Syscall,
        "getrandom" => return Getrandom,
        "clock_gettime" => return Clock,
        "getenv" => return Getenv,
        "abort" => return Abort,
        "write" | "writev" => return Write,
        "__errno_location" => return ErrnoLoc,
        "memcpy" | "memmove" => return Memcpy,
        "memset" => return Memset,
        "__cxa_thread_atexit_impl" | "pthread_key_create" | "pthread_setspecific" | "pthread_getspecific" | "pthread_self" | "sched_yield" => return Zero,
        _ => {}
    }
    if p("llvm.") {
        let n = &n[5..];
        let p = |s: &str| n.starts_with(s);
        if p("lifetime.") || p("dbg.") || p("assume") || p("experimental.noalias") || p("donothing") || p("x86.sse2.pause") || p("prefetch") {
            return Nop;
        }
        if p("memcpy.") || p("memmove.") {
            return Memcpy;
        }
        if p("memset.") {
            return Memset;
        }
        for (s, e) in [
            ("ctlz.", Ctlz),
            ("cttz.", Cttz),
            ("ctpop.", Ctpop),
            ("bswap.", Bswap),
            ("bitreverse.", Bitrev),
            ("fshl.", Fshl),
            ("fshr.", Fshr),
            ("uadd.with", AddO(false)),
            ("sadd.with", AddO(true)),
            ("usub.with", SubO(false)),
            ("ssub.with", SubO(true)),
            ("umul.with", MulO(false)),
            ("smul.with", MulO(true)),
            ("uadd.sat", AddSat(false)),
            ("sadd.sat", AddSat(true)),
            ("usub.sat", SubSat(false)),
            ("ssub.sat", SubSat(true)),
            ("umin.", UMin),
            ("umax.", UMax),
            ("smin.", SMin),
            ("smax.", SMax),
            ("abs.", Abs),
            ("ucmp.", Cmp(false)),
            ("scmp.", Cmp(true)),
            ("expect.", Expect),
            ("is.constant", IsConst),
            ("threadlocal.address", TlsAddr),
            ("trap", Trap),
            ("ubsantrap", Trap),
            ("fabs.", FAbs),
            ("floor.", FOp1(0)),
            ("ceil.", FOp1(1)),
            ("trunc.", FOp1(2)),
            ("sqrt.", FOp1(3)),
            ("log.", FOp1(4)),
            ("exp.", FOp1(5)),
            ("vector.reduce.or.", Reduce(Op::Or, 0)),
            ("vector.reduce.and.", Reduce(Op::And, 0)),
            ("vector.reduce.xor.", Reduce(Op::Xor, 0)),
            ("vector.reduce.add.", Reduce(Op::Add, 0)),
            ("vector.reduce.mul.", Reduce(Op::Mul, 0)),
            ("vector.reduce.umin.", Reduce(Op::Ult, 1)),
            ("vector.reduce.umax.", Reduce(Op::Ult, 2)),
            ("vector.reduce.smin.", Reduce(Op::Slt, 1)),
            ("vector.reduce.smax.", Reduce(Op::Slt, 2)),
            ("log2.", FOp1(6)),
            ("log10.", FOp1(7)),
            ("exp2.", FOp1(8)),
            ("round.", FOp1(9)),
            ("rint.", FOp1(10)),
            ("roundeven.", FOp1(10)),
            ("nearbyint.", FOp1(10)),
            ("powi.", FPow(true)),
            ("pow.", FPow(false)),
            ("copysign.", FBin(0)),
            ("minnum.", FBin(1)),
            ("maxnum.", FBin(2)),
            ("fptoui.sat", FpToSat(false)),
            ("fptosi.sat", FpToSat(true)),
            ("fmuladd", FMulAdd),
        ] {
            if p(s) {
                return e;
            }
        }
    }
    match n {
        "log" => FOp1(4),
        "exp" => FOp1(5),
        "log2" => FOp1(6),
        "log10" => FOp1(7),
        "exp2" => FOp1(8),
        "floor" => FOp1(0),
        "ceil" => FOp1(1),
        "trunc" => FOp1(2),
        "round" => FOp1(9),
        "log1p" => FOp1(11),
        "expm1" => FOp1(12),
        "pow" => FPow(false),
        _ => Unknown,
    }
}

enum Stop {
    Done,
    Kill,             // assumption false / infeasible
    Viol(String),     // property violation
    Incon(String),    // engine limit: the run decides nothing about this path
}
type X<T> = Result<T, Stop>;

pub struct Worker<'a> {
    sh: &'a Shared<'a>,
    ar: Arena,
    sol: Solver,
    local: Vec<State>,
    pub st: Stats,
    next_model: usize,
    cur: (u32, u32),
    seen_viol: BTreeMap<String, usize>,
    kmemo: HashMap<(usize, u32, u32), E, Fx>,
}

#[inline]
fn bit(v: &mut Vec<u64>, i: u32) {
    let w = i as usize / 64;
    if v.len() <= w {
        v.resize(w + 1, 0);
    }
    v[w] |= 1 << (i % 64);
}
fn m64(v: u128) -> u64 {
    v as u64
}

fn bop(o: BinOp) -> Option<Op> {
    Some(match o {
        BinOp::Add => Op::Add,
        BinOp::Sub => Op::Sub,
        BinOp::Mul => Op::Mul,
        BinOp::UDiv => Op::UDiv,
        BinOp::SDiv => Op::SDiv,
        BinOp::URem => Op::URem,
        BinOp::SRem => Op::SRem,
        BinOp::Shl => Op::Shl,
        BinOp::LShr => Op::LShr,
        BinOp::AShr => Op::AShr,
        BinOp::And => Op::And,
        BinOp::Or => Op::Or,
        BinOp::Xor => Op::Xor,
        _ => return None,
    })
}

fn kval(k: &K) -> Val {
    match k {
        K::Int(v) => C(*v),
        K::Undef => C(0),
        K::Agg(l) => Agg(Rc::new(l.iter().map(kval).collect())),
    }
}

impl<'a> Worker<'a> {
    pub fn new(sh: &'a Shared<'a>) -> Self {
        Worker {
            sh,
            ar: Arena::new(),
            sol: Solver::new(sh.timeout_ms),
            local: vec![],
            st: Stats::default(),
            next_model: 1,
            cur: (0, 0),
            seen_viol: BTreeMap::new(),
            kmemo: HashMap::default(),
        }
    }
    fn initial(&mut self, it: Item) -> State {
        let f = &self.sh.m.funcs[self.sh.entry as usize];
        let id = self.next_model;
        self.next_model += 1;
        State {
            frames: vec![Frame { f: self.sh.entry, b: 0, ip: 0, regs: vec![C(0); f.nregs as usize], ret: None, normal: None, stack_base: 0 }],
            heap: vec![],
            stack: vec![],
            globals: HashMap::default(),
            groups: vec![],
            fixed: vec![],
            model: Rc::new(Model { id, v: it.model }),
            nvars: 0,
            steps: 0,
            clock: 1_700_000_000,
            rnd: 0x9e3779b97f4a7c15,
            hist: None,
            hist_mark: None,
            inst_dec: vec![],
            replay: it.ds.into(),
            decs: 0,
            allocated: 0,
            covers: 0,
            live: 0,
            nas: 0,
            trace: vec![],
        }
    }
    pub fn run(&mut self) {
        loop {
            if self.sh.stop.load(Ordering::Relaxed) {
                break;
            }
            if let Some(st) = self.local.pop() {
                self.path(st);
                let big = self.ar.n.len() > 6_000_000;
                if big || (self.local.is_empty() && self.ar.n.len() > 2_000_000) {
                    let l = std::mem::take(&mut self.local);
                    for s in l {
                        self.give(s);
                    }
                    self.st.nodes += self.ar.n.len() as u64;
                    self.ar = Arena::new();
                    self.kmemo.clear();
                    self.sol.reset();
                }
                continue;
            }
            let mut q = self.sh.queue.lock().unwrap();
            let item = loop {
                if let Some(i) = q.pop_front() {
                    break Some(i);
                }
                let n = self.sh.idle.fetch_add(1, Ordering::SeqCst) + 1;
                if n == self.sh.threads {
                    self.sh.stop.store(true, Ordering::SeqCst);
                    self.sh.cv.notify_all();
                    break None;
                }
                q = self.sh.cv.wait_timeout(q, Duration::from_millis(200)).unwrap().0;
                if self.sh.stop.load(Ordering::Relaxed) {
                    break None;
                }
                self.sh.idle.fetch_sub(1, Ordering::SeqCst);
            };
            drop(q);
            match item {
                None => break,
                Some(i) => {
                    let s = self.initial(i);
                    self.local.push(s);
                }
            }
        }
        self.st.nodes += self.ar.n.len() as u64;
        self.st.solver = self.sol.st.clone();
    }
    fn give(&mut self, s: State) {
        let mut ds = vec![];
        let mut p = s.hist.clone();
        while let Some(h) = p {
            ds.push(h.d);
            p = h.prev.clone();
        }
        ds.reverse();
        ds.extend(s.replay.iter());
        let it = Item { ds, model: s.model.v.clone() };
        self.sh.queue.lock().unwrap().push_back(it);
        self.sh.cv.notify_one();
    }

    // ---------- constraints
    fn is_fixed(&self, st: &State, e: E) -> bool {
        let s = &self.ar.sets[self.ar.sup[e as usize] as usize];
        s.iter().enumerate().all(|(i, w)| w & !st.fixed.get(i).copied().unwrap_or(0) == 0)
    }
    fn ev(&mut self, st: &State, e: E) -> u128 {
        self.ar.eval(e, &st.model.v, st.model.id)
    }
    fn add(&mut self, st: &mut State, e: E) {
        if let Some(_) = self.ar.cv(e) {
            return;
        }
        let n = self.ar.n[e as usize];
        if n.op == Op::And && n.w == 1 {
            self.add(st, n.a);
            self.add(st, n.b);
            return;
        }
        if n.op == Op::Not {
            let i = self.ar.n[n.a as usize];
            if i.op == Op::Or && i.w == 1 {
                let x = self.ar.not(i.a);
                let y = self.ar.not(i.b);
                self.add(st, x);
                self.add(st, y);
                return;
            }
        }
        if n.op == Op::Eq && self.ar.cv(n.b).is_some() {
            let x = self.ar.n[n.a as usize];
            if x.op == Op::Var {
                let i = x.a as usize / 64;
                if st.fixed.len() <= i {
                    st.fixed.resize(i + 1, 0);
                }
                st.fixed[i] |= 1 << (x.a % 64);
            }
        }
        let mut sup = self.ar.sup[e as usize];
        let mut hit = vec![];
        for (i, g) in st.groups.iter().enumerate() {
            if self.ar.intersects(g.sup, sup) {
                hit.push(i);
            }
        }
        if hit.len() == 1 {
            let i = hit[0];
            if st.groups[i].cons.contains(&e) {
                return;
            }
            sup = self.ar.union(sup, st.groups[i].sup);
            let mut cons = st.groups[i].cons.clone();
            cons.push(e);
            st.groups[i] = Rc::new(Group { sup, cons });
            return;
        }
        let mut cons = vec![];
        for &i in hit.iter().rev() {
            let g = st.groups.remove(i);
            sup = self.ar.union(sup, g.sup);
            let mut c = g.cons.clone();
            c.extend(cons);
            cons = c;
        }
        cons.push(e);
        st.groups.push(Rc::new(Group { sup, cons }));
    }
    fn query(&mut self, st: &State, e: E) -> Sat {
        if let Some(v) = self.ar.cv(e) {
            return if v == 1 { Sat::Sat(Rc::new(vec![])) } else { Sat::Unsat };
        }
        let sup = self.ar.sup[e as usize];
        let mut cs = vec![];
        for g in &st.groups {
            if self.ar.intersects(g.sup, sup) {
                cs.extend_from_slice(&g.cons);
            }
        }
        cs.push(e);
        if self.sh.verbose {
            *self.st.queries_by_site.entry(self.cur).or_insert(0) += 1;
        }
        self.sol.check(&self.ar, &cs)
    }
    fn upd_model(&mut self, st: &mut State, m: &[(u32, u8)]) {
        let mut v = st.model.v.clone();
        for &(i, b) in m {
            if v.len() <= i as usize {
                v.resize(i as usize + 1, 0);
            }
            v[i as usize] = b;
        }
        let id = self.next_model;
        self.next_model += 1;
        st.model = Rc::new(Model { id, v });
    }
    fn record(&mut self, st: &mut State, d: D) {
        if st.inst_dec.is_empty() {
            st.hist_mark = st.hist.clone();
        }
        st.inst_dec.push(d);
        st.decs += 1;
        st.hist = Some(Rc::new(H { d, prev: st.hist.take() }));
    }
    /// pushes the state that takes the other side of the decision just about to be made
    fn push_other(&mut self, st: &State, d: D, m: &[(u32, u8)]) {
        let mut o = st.clone();
        let mut r: VecDeque<D> = o.inst_dec.iter().cloned().collect();
        r.push_back(d);
        o.replay = r;
        if !o.inst_dec.is_empty() {
            o.hist = o.hist_mark.clone();
        }
        o.inst_dec.clear();
        // the constraint itself is added when the decision is replayed
        self.upd_model(&mut o, m);
        self.st.forks += 1;
        if self.sh.verbose {
            *self.st.fork_sites.entry(self.cur).or_insert(0) += 1;
        }
        self.local.push(o);
        if self.sh.idle.load(Ordering::Relaxed) > 0 && self.local.len() > 1 {
            let s = self.local.remove(0);
            self.give(s);
        }
    }
    fn fork(&mut self, st: &mut State, c: E) -> X<bool> {
        if let Some(v) = self.ar.cv(c) {
            return Ok(v != 0);
        }
        if self.is_fixed(st, c) {
            return Ok(self.ev(st, c) != 0);
        }
        if let Some(d) = st.replay.pop_front() {
            if let D::Br(side, forced) = d {
                if !forced {
                    let k = if side { c } else { self.ar.not(c) };
                    self.add(st, k);
                }
                self.record(st, d);
                return Ok(side);
            }
            return Err(Stop::Incon("replay mismatch (branch)".into()));
        }
        let side = self.ev(st, c) != 0;
        let n = self.ar.not(c);
        let (mine, other) = if side { (c, n) } else { (n, c) };
        match self.query(st, other) {
            Sat::Unsat => {
                self.record(st, D::Br(side, true));
                Ok(side)
            }
            Sat::Sat(m) => {
                self.push_other(st, D::Br(!side, false), &m);
                self.add(st, mine);
                self.record(st, D::Br(side, false));
                Ok(side)
            }
            Sat::Unknown => Err(Stop::Incon("solver gave no answer on a branch".into())),
        }
    }
    fn conc_e(&mut self, st: &mut State, e: E) -> X<u64> {
        if let Some(v) = self.ar.cv(e) {
            return Ok(v as u64);
        }
        if self.is_fixed(st, e) {
            return Ok(self.ev(st, e) as u64);
        }
        let w = self.ar.w(e);
        if w > 64 {
            return Err(Stop::Incon("concretize wide".into()));
        }
        self.st.concretized += 1;
        loop {
            if let Some(d) = st.replay.pop_front() {
                if let D::Conc(v, eq, forced) = d {
                    let k = self.ar.k(v as u128, w);
                    let c = self.ar.eq(e, k);
                    if !forced {
                        let x = if eq { c } else { self.ar.not(c) };
                        self.add(st, x);
                    }
                    self.record(st, d);
                    if eq {
                        return Ok(v);
                    }
                    continue;
                }
                return Err(Stop::Incon("replay mismatch (value)".into()));
            }
            let v = self.ev(st, e) as u64;
            let k = self.ar.k(v as u128, w);
            let c = self.ar.eq(e, k);
            let n = self.ar.not(c);
            match self.query(st, n) {
                Sat::Unsat => {
                    self.record(st, D::Conc(v, true, true));
                }
                Sat::Sat(m) => {
                    self.push_other(st, D::Conc(v, false, false), &m);
                    self.add(st, c);
                    self.record(st, D::Conc(v, true, false));
                }
                Sat::Unknown => return Err(Stop::Incon("solver gave no answer on a value".into())),
            }
            return Ok(v);
        }
    }
    fn conc(&mut self, st: &mut State, v: &Val) -> X<u64> {
        match v {
            C(x) => Ok(*x as u64),
            Val::E(e) => self.conc_e(st, *e),
            Agg(_) => Err(Stop::Incon("aggregate as integer".into())),
        }
    }
    fn choice(&mut self, st: &mut State, e: E) -> X<u64> {
        if let Some(d) = st.replay.pop_front() {
            if let D::Val(v) = d {
                self.record(st, d);
                return Ok(v);
            }
            return Err(Stop::Incon("replay mismatch (choice)".into()));
        }
        let v = self.ev(st, e) as u64;
        self.record(st, D::Val(v));
        Ok(v)
    }
    fn bval(&mut self, st: &mut State, v: &Val) -> X<bool> {
        match v {
            C(x) => Ok(*x & 1 != 0),
            Val::E(e) => self.fork(st, *e),
            Agg(_) => Err(Stop::Incon("aggregate condition".into())),
        }
    }
    fn ex(&mut self, v: &Val, w: u32) -> X<E> {
        match v {
            C(x) => Ok(self.ar.k(*x, w)),
            Val::E(e) => Ok(*e),
            Agg(_) => Err(Stop::Incon("aggregate operand".into())),
        }
    }
    fn mkv(&self, e: E) -> Val {
        match self.ar.cv(e) {
            Some(v) => C(v),
            None => Val::E(e),
        }
    }

    // ---------- memory
    fn gbytes(&self, i: u32) -> Option<&'a ir::Global> {
        self.sh.m.globals.get(i as usize)
    }
    fn view<'b>(&self, st: &'b State, id: u32) -> Option<(&'b [u8], Option<&'b [E]>)>
    where
        'a: 'b,
    {
        if id >= STACK {
            let o = st.stack.get((id - STACK) as usize)?;
            Some((&o.data, o.sym.as_deref()))
        } else if id >= HEAP {
            let o = st.heap.get((id - HEAP) as usize)?.as_ref()?;
            Some((&o.data, o.sym.as_deref()))
        } else if id >= 16 {
            let g = id - 16;
            if let Some(o) = st.globals.get(&g) {
                return Some((&o.data, o.sym.as_deref()));
            }
            let gl = self.gbytes(g)?;
            if gl.external {
                return None;
            }
            Some((&gl.bytes, None))
        } else {
            None
        }
    }
    fn obj_mut<'b>(&self, st: &'b mut State, id: u32) -> Option<&'b mut Obj> {
        if id >= STACK {
            st.stack.get_mut((id - STACK) as usize).map(|o| Rc::make_mut(o))
        } else if id >= HEAP {
            st.heap.get_mut((id - HEAP) as usize)?.as_mut().map(|o| Rc::make_mut(o))
        } else if id >= 16 {
            let g = id - 16;
            let gl = self.gbytes(g)?;
            if gl.constant || gl.external {
                return None;
            }
            let o = st.globals.entry(g).or_insert_with(|| Rc::new(Obj { data: gl.bytes.clone(), sym: None }));
            Some(Rc::make_mut(o))
        } else {
            None
        }
    }
    fn badmem(&self, what: &str, a: u64) -> Stop {
        let id = (a >> 32) as u32;
        let k = if a == 0 {
            "null pointer"
        } else if id >= STACK && id < 0x7f00_0000 {
            "stack object"
        } else if id >= HEAP {
            "heap object"
        } else if id >= 16 {
            "global"
        } else {
            "invalid pointer"
        };
        Stop::Viol(format!("memory: {} outside its object or after free ({})", what, k))
    }
    fn ld_bytes(&mut self, st: &State, a: u64, n: usize) -> X<Val> {
        let id = (a >> 32) as u32;
        let o = (a & 0xffff_ffff) as usize;
        let (d, s) = match self.view(st, id) {
            Some(x) => x,
            None => return Err(self.badmem("read", a)),
        };
        if o + n > d.len() {
            return Err(self.badmem("read", a));
        }
        if let Some(s) = s {
            let s = &s[o..o + n];
            if s.iter().any(|x| *x != 0) {
                if n > 16 {
                    return Err(Stop::Incon("wide symbolic load".into()));
                }
                let mut acc: Option<E> = None;
                for i in 0..n {
                    let b = if s[i] != 0 { s[i] } else { self.ar.k(d[o + i] as u128, 8) };
                    acc = Some(match acc {
                        None => b,
                        Some(l) => self.ar.concat(b, l),
                    });
                }
                return Ok(self.mkv(acc.unwrap()));
            }
        }
        let mut v = 0u128;
        for i in (0..n).rev() {
            v = v << 8 | d[o + i] as u128;
        }
        Ok(C(v))
    }
    fn load_at(&mut self, st: &mut State, a: u64, ty: &Ty) -> X<Val> {
        match ty {
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                let n = ty.n_elems();
                if let Ty::Vec(_, t) = ty {
                    if t.bits() % 8 != 0 {
                        // vectors of bits are packed in memory
                        let it = Ty::Int((n as u32) * t.bits());
                        let x = self.load_at(st, a, &it)?;
                        return self.bitcast(&x, &it, ty);
                    }
                }
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.load_at(st, a + ty.field_off(i), &ty.elem(i))?);
                }
                Ok(Agg(Rc::new(v)))
            }
            _ => {
                let n = ty.store_size() as usize;
                let v = self.ld_bytes(st, a, n)?;
                let b = ty.bits();
                Ok(match v {
                    C(x) => C(x & mask(b)),
                    Val::E(e) => {
                        if b < n as u32 * 8 {
                            let x = self.ar.extract(e, 0, b);
                            self.mkv(x)
                        } else {
                            Val::E(e)
                        }
                    }
                    x => x,
                })
            }
        }
    }
    fn st_bytes(&mut self, st: &mut State, a: u64, v: &Val, n: usize) -> X<()> {
        let id = (a >> 32) as u32;
        let o = (a & 0xffff_ffff) as usize;
        let mut es = [0 as E; 16];
        let mut bs = [0u8; 16];
        let mut any = false;
        match v {
            C(x) => {
                for i in 0..n {
                    bs[i] = (x >> (8 * i)) as u8;
                }
            }
            Val::E(e) => {
                let w = self.ar.w(*e);
                let e = if w < n as u32 * 8 { self.ar.zext(*e, n as u32 * 8) } else { *e };
                for i in 0..n {
                    let b = self.ar.extract(e, 8 * i as u32, 8);
                    if let Some(k) = self.ar.cv(b) {
                        bs[i] = k as u8;
                    } else {
                        es[i] = b;
                        any = true;
                    }
                }
            }
            Agg(_) => return Err(Stop::Incon("aggregate store".into())),
        }
        let bad = self.badmem("write", a);
        let ob = match self.obj_mut(st, id) {
            Some(x) => x,
            None => return Err(bad),
        };
        if o + n > ob.data.len() {
            return Err(bad);
        }
        ob.data[o..o + n].copy_from_slice(&bs[..n]);
        if any && ob.sym.is_none() {
            ob.sym = Some(vec![0; ob.data.len()]);
        }
        if let Some(s) = &mut ob.sym {
            s[o..o + n].copy_from_slice(&es[..n]);
        }
        Ok(())
    }
    fn store_at(&mut self, st: &mut State, a: u64, v: &Val, ty: &Ty) -> X<()> {
        match (ty, v) {
            (Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..), Agg(l)) => {
                if let Ty::Vec(_, t) = ty {
                    if t.bits() % 8 != 0 {
                        let it = Ty::Int(l.len() as u32 * t.bits());
                        let x = self.bitcast(v, ty, &it)?;
                        return self.store_at(st, a, &x, &it);
                    }
                }
                for (i, x) in l.iter().enumerate() {
                    self.store_at(st, a + ty.field_off(i), x, &ty.elem(i))?;
                }
                Ok(())
            }
            (Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..), _) => {
                if ty.size() == 0 {
                    return Ok(());
                }
                Err(Stop::Incon("scalar stored as aggregate".into()))
            }
            _ => self.st_bytes(st, a, v, ty.store_size() as usize),
        }
    }
    /// resolves a symbolic address to one object: returns (object id, offset expression)
    fn resolve(&mut self, st: &mut State, p: E, n: usize, what: &str) -> X<(u32, E)> {
        for _ in 0..64 {
            let a = self.choice(st, p)?;
            let id = (a >> 32) as u32;
            let size = match self.view(st, id) {
                Some((d, _)) => d.len(),
                None => return Err(self.badmem(what, a)),
            };
            if size < n {
                return Err(self.badmem(what, a));
            }
            let base = self.ar.k((id as u128) << 32, 64);
            let off = self.ar.bin(Op::Sub, p, base);
            let lim = self.ar.k((size - n) as u128 + 1, 64);
            let inb = self.ar.ult(off, lim);
            if self.fork(st, inb)? {
                return Ok((id, off));
            }
        }
        Err(Stop::Incon("symbolic pointer over many objects".into()))
    }
    fn cands(&self, off: E, size: usize, n: usize) -> (u64, u64, u64) {
        let lo = self.ar.lo(off) as u64;
        let hi = (self.ar.hi(off) as u64).min((size - n) as u64);
        let z = self.ar.kz(off) as u64;
        let t = (!z).trailing_zeros().min(12);
        let stride = 1u64 << t;
        let lo = (lo + stride - 1) / stride * stride;
        if hi < lo {
            return (0, 0, 1);
        }
        (lo, hi / stride * stride, stride)
    }
    fn load(&mut self, st: &mut State, p: &Val, ty: &Ty) -> X<Val> {
        let e = match p {
            C(a) => return self.load_at(st, *a as u64, ty),
            Val::E(e) => *e,
            _ => return Err(Stop::Incon("aggregate pointer".into())),
        };
        if self.is_fixed(st, e) {
            let a = self.ev(st, e) as u64;
            return self.load_at(st, a, ty);
        }
        if matches!(ty, Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..)) {
            let a = self.conc_e(st, e)?;
            return self.load_at(st, a, ty);
        }
        let n = ty.store_size() as usize;
        let (id, off) = self.resolve(st, e, n, "read")?;
        let size = self.view(st, id).unwrap().0.len();
        let (lo, hi, stride) = self.cands(off, size, n);
        let cnt = (hi - lo) / stride + 1;
        if cnt > 1024 {
            let a = self.conc_e(st, e)?;
            return self.load_at(st, a, ty);
        }
        // runs of equal values
        let base = (id as u64) << 32;
        let w = ty.bits();
        let mut runs: Vec<(u64, E)> = vec![];
        let mut o = lo;
        loop {
            let v = self.load_at(st, base + o, ty)?;
            let x = self.ex(&v, w)?;
            if runs.last().map_or(true, |r| r.1 != x) {
                runs.push((o, x));
            }
            if o == hi {
                break;
            }
            o += stride;
        }
        if *ty == Ty::Ptr && runs.len() > 1 {
            // one path per distinct pointer
            let mut vals: Vec<E> = vec![];
            for r in &runs {
                if !vals.contains(&r.1) {
                    vals.push(r.1);
                }
            }
            let last = vals.len() - 1;
            for (vi, v) in vals.iter().enumerate() {
                if vi == last {
                    return Ok(self.mkv(*v));
                }
                let mut c = self.ar.k(0, 1);
                for i in 0..runs.len() {
                    if runs[i].1 == *v {
                        let mut r = self.ar.k(1, 1);
                        if i > 0 {
                            let k = self.ar.k(runs[i].0 as u128, 64);
                            let x = self.ar.ult(off, k);
                            r = self.ar.not(x);
                        }
                        if i + 1 < runs.len() {
                            let k = self.ar.k(runs[i + 1].0 as u128, 64);
                            let x = self.ar.ult(off, k);
                            r = self.ar.bin(Op::And, r, x);
                        }
                        c = self.ar.bin(Op::Or, c, r);
                    }
                }
                if self.fork(st, c)? {
                    return Ok(self.mkv(*v));
                }
            }
            unreachable!()
        }
        let r = self.tree(off, &runs);
        Ok(self.mkv(r))
    }
    fn tree(&mut self, off: E, runs: &[(u64, E)]) -> E {
        if runs.len() == 1 {
            return runs[0].1;
        }
        let h = runs.len() / 2;
        let l = self.tree(off, &runs[..h]);
        let r = self.tree(off, &runs[h..]);
        let w = self.ar.w(off);
        let k = self.ar.k(runs[h].0 as u128, w);
        let c = self.ar.ult(off, k);
        self.ar.ite(c, l, r)
    }
    fn store(&mut self, st: &mut State, p: &Val, v: &Val, ty: &Ty) -> X<()> {
        let e = match p {
            C(a) => return self.store_at(st, *a as u64, v, ty),
            Val::E(e) => *e,
            _ => return Err(Stop::Incon("aggregate pointer".into())),
        };
        if self.is_fixed(st, e) {
            let a = self.ev(st, e) as u64;
            return self.store_at(st, a, v, ty);
        }
        if matches!(ty, Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) | Ty::Ptr) {
            let a = self.conc_e(st, e)?;
            return self.store_at(st, a, v, ty);
        }
        let n = ty.store_size() as usize;
        let (id, off) = self.resolve(st, e, n, "write")?;
        let size = self.view(st, id).unwrap().0.len();
        let (lo, hi, stride) = self.cands(off, size, n);
        let cnt = (hi - lo) / stride + 1;
        if cnt > 256 {
            let a = self.conc_e(st, e)?;
            return self.store_at(st, a, v, ty);
        }
        let base = (id as u64) << 32;
        let w = ty.bits();
        let nv = self.ex(v, w)?;
        if n as u32 * 8 != w && cnt > 1 {
            let a = self.conc_e(st, e)?;
            return self.store_at(st, a, v, ty);
        }
        let mut o = lo;
        loop {
            let old = self.load_at(st, base + o, ty)?;
            let old = self.ex(&old, w)?;
            let k = self.ar.k(o as u128, 64);
            let c = self.ar.eq(off, k);
            let x = self.ar.ite(c, nv, old);
            let x = self.mkv(x);
            self.store_at(st, base + o, &x, ty)?;
            if o == hi {
                break;
            }
            o += stride;
        }
        Ok(())
    }
    fn alloc(&mut self, st: &mut State, n: u64, fill: u8) -> X<u64> {
        st.allocated += n;
        if n > self.sh.max_alloc || st.allocated > 16 * self.sh.max_alloc {
            return Err(Stop::Viol("alloc: allocation beyond the limit".into()));
        }
        st.live += 1;
        let id = HEAP + st.heap.len() as u32;
        st.heap.push(Some(Rc::new(Obj::new(n as usize, fill))));
        Ok((id as u64) << 32)
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: usize) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let (sid, so) = ((s >> 32) as u32, (s & 0xffff_ffff) as usize);
        let (did, d_o) = ((d >> 32) as u32, (d & 0xffff_ffff) as usize);
        let (data, sym) = match self.view(st, sid) {
            Some((x, y)) if so.checked_add(n).map_or(false, |e| e <= x.len()) => {
                let sy = y.map(|y| &y[so..so + n]).filter(|y| y.iter().any(|e| *e != 0)).map(|y| y.to_vec());
                (x[so..so + n].to_vec(), sy)
            }
            _ => return Err(self.badmem("read (copy)", s)),
        };
        let bad = self.badmem("write (copy)", d);
        let ob = match self.obj_mut(st, did) {
            Some(x) if d_o.checked_add(n).map_or(false, |e| e <= x.data.len()) => x,
            _ => return Err(bad),
        };
        ob.data[d_o..d_o + n].copy_from_slice(&data);
        match sym {
            Some(sy) => {
                if ob.sym.is_none() {
                    ob.sym = Some(vec![0; ob.data.len()]);
                }
                ob.sym.as_mut().unwrap()[d_o..d_o + n].copy_from_slice(&sy);
            }
            None => {
                if let Some(x) = &mut ob.sym {
                    for y in &mut x[d_o..d_o + n] {
                        *y = 0;
                    }
                }
            }
        }
        Ok(())
    }

    // ---------- path execution
    fn where_(&self, st: &State) -> String {
        for f in st.frames.iter().rev() {
            let n = &self.sh.m.funcs[f.f as usize].name;
            if !n.contains("4core") && !n.contains("3std") && !n.contains("5alloc") {
                let line = self.sh.m.loc_of(f.f, f.b, f.ip);
                return format!("{} {}", line, crate::demangle(n));
            }
        }
        String::new()
    }
    fn violation(&mut self, st: &State, kind: String, model: Option<Vec<u8>>) {
        let at = self.where_(st);
        let key = format!("{} {}", kind, at);
        let c = self.seen_viol.entry(key).or_insert(0);
        *c += 1;
        if *c > 3 {
            return;
        }
        let mut input = model.unwrap_or_else(|| st.model.v.clone());
        input.resize(st.nvars as usize, 0);
        if self.sh.verbose {
            eprintln!("violation {} at {} input {:?}", kind, at, input);
            for f in st.frames.iter().rev() {
                eprintln!("   in {} {}", crate::demangle(&self.sh.m.funcs[f.f as usize].name), self.sh.m.loc_of(f.f, f.b, f.ip));
            }
        }
        let mut v = self.sh.viol.lock().unwrap();
        if v.is_empty() {
            let t = (self.sh.t0.elapsed().as_millis() as u64).saturating_add(self.sh.after_viol.saturating_mul(1000));
            self.sh.deadline.fetch_min(t, Ordering::SeqCst);
        }
        v.push(Violation { kind, at, input });
        if v.len() >= self.sh.max_viol {
            self.sh.stop.store(true, Ordering::SeqCst);
        }
    }
    fn path(&mut self, mut st: State) {
        let r = self.exec(&mut st);
        self.st.steps += st.steps;
        self.st.max_steps = self.st.max_steps.max(st.steps);
        self.st.max_vars = self.st.max_vars.max(st.nvars);
        match r {
            Err(Stop::Done) => {
                self.st.paths += 1;
                self.st.covers |= st.covers;
                if self.st.paths.is_power_of_two() {
                    let mut input = st.model.v.clone();
                    input.resize(st.nvars as usize, 0);
                    let tr = std::mem::take(&mut st.trace);
                    let trace = tr.iter().map(|v| self.ev_val(&st, v)).collect();
                    self.st.samples.push(Sample { input, covers: st.covers, asserts: st.nas, trace });
                }
            }
            Err(Stop::Kill) => {
                self.st.assumed_away += 1;
            }
            Err(Stop::Viol(k)) => {
                self.st.paths += 1;
                self.violation(&st, k, None);
            }
            Err(Stop::Incon(k)) => {
                if k != "stopped" {
                    let w = self.where_(&st);
                    *self.st.inconclusive.entry(format!("{} at {}", k, w)).or_insert(0) += 1;
                }
            }
            Ok(()) => unreachable!(),
        }
    }
    fn ev_val(&mut self, st: &State, v: &Val) -> u64 {
        match v {
            C(x) => *x as u64,
            Val::E(e) => self.ar.eval(*e, &st.model.v, st.model.id) as u64,
            _ => 0,
        }
    }
    fn opv(&self, st: &State, o: &ir::Op) -> Val {
        match o {
            ir::Op::Reg(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
            ir::Op::K(k) => kval(k),
        }
    }
    fn set(&self, st: &mut State, d: u32, v: Val) {
        st.frames.last_mut().unwrap().regs[d as usize] = v;
    }
    fn jump(&mut self, st: &mut State, t: u32) {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.b;
        let blk = &self.sh.m.funcs[fr.f as usize].blocks[t as usize];
        if !blk.phis.is_empty() {
            let mut vals = Vec::with_capacity(blk.phis.len());
            for (d, q) in &blk.phis {
                for (l, o) in q {
                    if *l == from {
                        let v = match o {
                            ir::Op::Reg(r) => fr.regs[*r as usize].clone(),
                            ir::Op::K(k) => kval(k),
                        };
                        vals.push((*d, v));
                        break;
                    }
                }
            }
            for (d, v) in vals {
                fr.regs[d as usize] = v;
            }
        }
        fr.b = t;
        fr.ip = 0;
    }
    fn exec(&mut self, st: &mut State) -> X<()> {
        let sh = self.sh;
        loop {
            let fr = st.frames.last().unwrap();
            let (f, b, ip) = (fr.f, fr.b, fr.ip);
            let ins = &sh.m.funcs[f as usize].blocks[b as usize].insts[ip as usize];
            st.steps += 1;
            if !st.inst_dec.is_empty() {
                st.inst_dec.clear();
            }
            if st.steps & 0x3ff == 0 {
                if st.steps > sh.max_steps {
                    return Err(Stop::Viol("hang: step limit".into()));
                }
                if sh.stop.load(Ordering::Relaxed) {
                    return Err(Stop::Incon("stopped".into()));
                }
                if st.steps & 0xffff == 0 || self.st.forks & 0xff == 0 {
                    if sh.t0.elapsed().as_millis() as u64 > sh.deadline.load(Ordering::Relaxed) {
                        sh.stop.store(true, Ordering::SeqCst);
                        return Err(Stop::Incon("time limit of the run".into()));
                    }
                }
            }
            self.cur = (f, sh.m.dbg(f, b, ip));
            if self.cur.1 != 0 {
                bit(&mut self.st.lines, self.cur.1);
            }
            self.inst(st, ins)?;
        }
    }
    fn adv(&self, st: &mut State) {
        st.frames.last_mut().unwrap().ip += 1;
    }
    fn fin(&self, st: &mut State, d: u32, v: Val) {
        let fr = st.frames.last_mut().unwrap();
        fr.regs[d as usize] = v;
        fr.ip += 1;
    }
    fn bin_v(&mut self, op: BinOp, ty: &Ty, a: &Val, b: &Val) -> X<Val> {
        match (a, b) {
            (Agg(x), Agg(y)) => {
                let t = ty.elem(0);
                let mut v = vec![];
                for (p, q) in x.iter().zip(y.iter()) {
                    v.push(self.bin_v(op, &t, p, q)?);
                }
                return Ok(Agg(Rc::new(v)));
            }
            _ => {}
        }
        let o = match bop(op) {
            Some(o) => o,
            None => {
                let (x, y) = match (a, b) {
                    (C(x), C(y)) => (*x, *y),
                    _ => return Err(Stop::Incon("symbolic floating point".into())),
                };
                if *ty == Ty::F64 {
                    let (x, y) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
                    let r = match op {
                        BinOp::FAdd => x + y,
                        BinOp::FSub => x - y,
                        BinOp::FMul => x * y,
                        BinOp::FDiv => x / y,
                        _ => x % y,
                    };
                    return Ok(C(r.to_bits() as u128));
                }
                let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                let r = match op {
                    BinOp::FAdd => x + y,
                    BinOp::FSub => x - y,
                    BinOp::FMul => x * y,
                    BinOp::FDiv => x / y,
                    _ => x % y,
                };
                return Ok(C(r.to_bits() as u128));
            }
        };
        let w = ty.bits();
        if let (C(x), C(y)) = (a, b) {
            return Ok(C(cbin(o, *x, *y, w)));
        }
        let x = self.ex(a, w)?;
        let y = self.ex(b, w)?;
        let r = self.ar.bin(o, x, y);
        Ok(self.mkv(r))
    }
    fn icmp_v(&mut self, p: Pred, ty: &Ty, a: &Val, b: &Val) -> X<Val> {
        if let (Agg(x), Agg(y)) = (a, b) {
            let t = ty.elem(0);
            let mut v = vec![];
            for (p1, q) in x.iter().zip(y.iter()) {
                v.push(self.icmp_v(p, &t, p1, q)?);
            }
            return Ok(Agg(Rc::new(v)));
        }
        let w = ty.bits();
        if let (C(x), C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => sx(x, w) < sx(y, w),
                Pred::Sle => sx(x, w) <= sx(y, w),
                Pred::Sgt => sx(x, w) > sx(y, w),
                Pred::Sge => sx(x, w) >= sx(y, w),
            };
            return Ok(C(r as u128));
        }
        let x = self.ex(a, w)?;
        let y = self.ex(b, w)?;
        let r = match p {
            Pred::Eq => self.ar.eq(x, y),
            Pred::Ne => {
                let e = self.ar.eq(x, y);
                self.ar.not(e)
            }
            Pred::Ult => self.ar.ult(x, y),
            Pred::Ugt => self.ar.ult(y, x),
            Pred::Ule => {
                let e = self.ar.ult(y, x);
                self.ar.not(e)
            }
            Pred::Uge => {
                let e = self.ar.ult(x, y);
                self.ar.not(e)
            }
            Pred::Slt => self.ar.bin(Op::Slt, x, y),
            Pred::Sgt => self.ar.bin(Op::Slt, y, x),
            Pred::Sle => {
                let e = self.ar.bin(Op::Slt, y, x);
                self.ar.not(e)
            }
            Pred::Sge => {
                let e = self.ar.bin(Op::Slt, x, y);
                self.ar.not(e)
            }
        };
        Ok(self.mkv(r))
    }
    fn has_ptr(ty: &Ty) -> bool {
        match ty {
            Ty::Ptr => true,
            Ty::Struct(f, _) => f.iter().any(Self::has_ptr),
            Ty::Arr(_, t) | Ty::Vec(_, t) => Self::has_ptr(t),
            _ => false,
        }
    }
    fn ite_v(&mut self, c: E, ty: &Ty, a: &Val, b: &Val) -> X<Val> {
        match (a, b) {
            (Agg(x), Agg(y)) => {
                let mut v = vec![];
                for i in 0..x.len() {
                    v.push(self.ite_v(c, &ty.elem(i), &x[i], &y[i])?);
                }
                Ok(Agg(Rc::new(v)))
            }
            (C(x), C(y)) if x == y => Ok(C(*x)),
            _ => {
                let w = ty.bits();
                if w == 0 || w > 128 {
                    return Ok(a.clone());
                }
                let x = self.ex(a, w)?;
                let y = self.ex(b, w)?;
                let r = self.ar.ite(c, x, y);
                Ok(self.mkv(r))
            }
        }
    }
    /// packs a vector/scalar into bits (little end first)
    fn pack(&mut self, v: &Val, ty: &Ty) -> X<Vec<(Val, u32)>> {
        match (v, ty) {
            (Agg(l), Ty::Vec(_, t)) => Ok(l.iter().map(|x| (x.clone(), t.bits())).collect()),
            _ => Ok(vec![(v.clone(), ty.bits())]),
        }
    }
    fn bitcast(&mut self, v: &Val, from: &Ty, to: &Ty) -> X<Val> {
        if !matches!(from, Ty::Vec(..)) && !matches!(to, Ty::Vec(..)) {
            return Ok(v.clone());
        }
        let parts = self.pack(v, from)?;
        let total: u32 = parts.iter().map(|p| p.1).sum();
        let (n, ew) = match to {
            Ty::Vec(n, t) => (*n as u32, t.bits()),
            _ => (1, total),
        };
        let mut out = vec![];
        // cut: every output element gathers bits [i*ew, (i+1)*ew)
        for i in 0..n {
            let (lo, hi) = (i * ew, (i + 1) * ew);
            let mut acc: Option<E> = None;
            let mut pos = 0;
            for (p, w) in &parts {
                let (a, b) = (pos.max(lo), (pos + w).min(hi));
                if a < b {
                    let e = self.ex(p, *w)?;
                    let x = self.ar.extract(e, a - pos, b - a);
                    acc = Some(match acc {
                        None => x,
                        Some(l) => self.ar.concat(x, l),
                    });
                }
                pos += w;
            }
            let e = acc.ok_or(Stop::Incon("bitcast".into()))?;
            out.push(self.mkv(e));
        }
        Ok(match to {
            Ty::Vec(..) => Agg(Rc::new(out)),
            _ => out.pop().unwrap(),
        })
    }
    fn cast_v(&mut self, op: Cast, from: &Ty, v: &Val, to: &Ty) -> X<Val> {
        if op == Cast::Bitcast {
            return self.bitcast(v, from, to);
        }
        if let (Agg(l), Ty::Vec(..)) = (v, from) {
            let (f, t) = (from.elem(0), to.elem(0));
            let mut o = vec![];
            for x in l.iter() {
                o.push(self.cast_v(op, &f, x, &t)?);
            }
            return Ok(Agg(Rc::new(o)));
        }
        let (wf, wt) = (from.bits(), to.bits());
        match op {
            Cast::Trunc | Cast::PtrToInt | Cast::IntToPtr | Cast::ZExt => match v {
                C(x) => Ok(C(x & mask(wt))),
                Val::E(e) => {
                    let r = if wt < wf {
                        self.ar.extract(*e, 0, wt)
                    } else {
                        self.ar.zext(*e, wt)
                    };
                    Ok(self.mkv(r))
                }
                _ => Err(Stop::Incon("cast".into())),
            },
            Cast::SExt => match v {
                C(x) => Ok(C(sx(*x, wf) as u128 & mask(wt))),
                Val::E(e) => {
                    let r = self.ar.sext(*e, wt);
                    Ok(self.mkv(r))
                }
                _ => Err(Stop::Incon("cast".into())),
            },
            _ => {
                let x = match v {
                    C(x) => *x,
                    _ => return Err(Stop::Incon("symbolic floating point".into())),
                };
                let fl = |x: u128, t: &Ty| -> f64 {
                    if *t == Ty::F64 {
                        f64::from_bits(x as u64)
                    } else {
                        f32::from_bits(x as u32) as f64
                    }
                };
                let mk = |d: f64, t: &Ty| -> u128 {
                    if *t == Ty::F64 {
                        d.to_bits() as u128
                    } else {
                        (d as f32).to_bits() as u128
                    }
                };
                let r = match op {
                    Cast::UiToFp => {
                        if *to == Ty::F64 {
                            (x as f64).to_bits() as u128
                        } else {
                            (x as f32).to_bits() as u128
                        }
                    }
                    Cast::SiToFp => {
                        let s = sx(x, wf);
                        if *to == Ty::F64 {
                            (s as f64).to_bits() as u128
                        } else {
                            (s as f32).to_bits() as u128
                        }
                    }
                    Cast::FpToUi => fl(x, from) as u128 & mask(wt),
                    Cast::FpToSi => fl(x, from) as i128 as u128 & mask(wt),
                    Cast::FpExt | Cast::FpTrunc => mk(fl(x, from), to),
                    _ => return Err(Stop::Incon("cast".into())),
                };
                Ok(C(r))
            }
        }
    }
    fn inst(&mut self, st: &mut State, ins: &'a I) -> X<()> {
        match ins {
            I::Load { d, ty, p } => {
                let p = self.opv(st, p);
                let v = self.load(st, &p, ty)?;
                self.fin(st, *d, v);
            }
            I::Store { ty, v, p } => {
                let p = self.opv(st, p);
                let v = self.opv(st, v);
                self.store(st, &p, &v, ty)?;
                self.adv(st);
            }
            I::Gep { d, base, off, idx } => {
                let b = self.opv(st, base);
                let mut k = *off as u64;
                let mut acc: Option<E> = match b {
                    C(x) => {
                        k = k.wrapping_add(x as u64);
                        None
                    }
                    Val::E(e) => Some(e),
                    _ => return Err(Stop::Incon("gep base".into())),
                };
                for (o, w, s) in idx {
                    match self.opv(st, o) {
                        C(x) => k = k.wrapping_add((sx(x, *w) as i64 as u64).wrapping_mul(*s as u64)),
                        Val::E(e) => {
                            let e = self.ar.sext(e, 64);
                            let sc = self.ar.k(*s as u64 as u128, 64);
                            let m = self.ar.bin(Op::Mul, e, sc);
                            acc = Some(match acc {
                                None => m,
                                Some(a) => self.ar.bin(Op::Add, a, m),
                            });
                        }
                        _ => return Err(Stop::Incon("gep index".into())),
                    }
                }
                let v = match acc {
                    None => C(k as u128),
                    Some(a) => {
                        let kk = self.ar.k(k as u128, 64);
                        let r = self.ar.bin(Op::Add, a, kk);
                        self.mkv(r)
                    }
                };
                self.fin(st, *d, v);
            }
            I::Bin { d, op, ty, a, b } => {
                let x = self.opv(st, a);
                let y = self.opv(st, b);
                if matches!(op, BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem) {
                    if let C(0) = y {
                        return Err(Stop::Viol("ub: division by zero".into()));
                    }
                }
                let (x, y) = if matches!(ty, Ty::F64 | Ty::F32) { (C(self.conc(st, &x)? as u128), C(self.conc(st, &y)? as u128)) } else { (x, y) };
                let v = self.bin_v(*op, ty, &x, &y)?;
                self.fin(st, *d, v);
            }
            I::Icmp { d, p, ty, a, b } => {
                let x = self.opv(st, a);
                let y = self.opv(st, b);
                let v = self.icmp_v(*p, ty, &x, &y)?;
                self.fin(st, *d, v);
            }
            I::Cast { d, op, from, a, to } => {
                let x = self.opv(st, a);
                let x = match (*op, &x) {
                    // floating point is concrete: one path per value
                    (Cast::UiToFp | Cast::SiToFp | Cast::FpToUi | Cast::FpToSi | Cast::FpExt | Cast::FpTrunc, Val::E(e)) if from.bits() <= 64 => C(self.conc_e(st, *e)? as u128),
                    _ => x,
                };
                let v = self.cast_v(*op, from, &x, to)?;
                self.fin(st, *d, v);
            }
            I::Select { d, cty, c, ty, a, b } => {
                let cv = self.opv(st, c);
                let x = self.opv(st, a);
                let y = self.opv(st, b);
                if let (Agg(cl), Ty::Vec(..)) = (&cv, cty) {
                    let (xl, yl) = match (&x, &y) {
                        (Agg(p), Agg(q)) => (p.clone(), q.clone()),
                        _ => return Err(Stop::Incon("vector select".into())),
                    };
                    let t = ty.elem(0);
                    let mut o = vec![];
                    for i in 0..cl.len() {
                        o.push(match &cl[i] {
                            C(v) => {
                                if *v & 1 != 0 {
                                    xl[i].clone()
                                } else {
                                    yl[i].clone()
                                }
                            }
                            Val::E(e) => self.ite_v(*e, &t, &xl[i], &yl[i])?,
                            _ => return Err(Stop::Incon("vector select".into())),
                        });
                    }
                    self.fin(st, *d, Agg(Rc::new(o)));
                    return Ok(());
                }
                let v = match &cv {
                    C(v) => {
                        if *v & 1 != 0 {
                            x
                        } else {
                            y
                        }
                    }
                    Val::E(e) => {
                        if Self::has_ptr(ty) {
                            if self.fork(st, *e)? {
                                x
                            } else {
                                y
                            }
                        } else {
                            self.ite_v(*e, ty, &x, &y)?
                        }
                    }
                    _ => return Err(Stop::Incon("select".into())),
                };
                self.fin(st, *d, v);
            }
            I::Br(t) => self.jump(st, *t),
            I::CondBr { c, t, f } => {
                let c = self.opv(st, c);
                let s = self.bval(st, &c)?;
                self.jump(st, if s { *t } else { *f });
            }
            I::Switch { ty, v, def, cases } => {
                let x = self.opv(st, v);
                let t = match x {
                    C(k) => cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def),
                    Val::E(e) => {
                        let w = ty.bits();
                        let mut targets: Vec<u32> = vec![];
                        for c in cases {
                            if c.1 != *def && !targets.contains(&c.1) {
                                targets.push(c.1);
                            }
                        }
                        let mut r = *def;
                        for t in targets {
                            let mut c = self.ar.k(0, 1);
                            for k in cases {
                                if k.1 == t {
                                    let kk = self.ar.k(k.0, w);
                                    let q = self.ar.eq(e, kk);
                                    c = self.ar.bin(Op::Or, c, q);
                                }
                            }
                            if self.fork(st, c)? {
                                r = t;
                                break;
                            }
                        }
                        r
                    }
                    _ => return Err(Stop::Incon("switch".into())),
                };
                self.jump(st, t);
            }
            I::Ret { v } => {
                let val = v.as_ref().map(|(_, o)| self.opv(st, o));
                let fr = st.frames.pop().unwrap();
                st.stack.truncate(fr.stack_base as usize);
                if st.frames.is_empty() {
                    // keep one frame for diagnostics
                    st.frames.push(fr);
                    return Err(Stop::Done);
                }
                if let (Some(d), Some(v)) = (fr.ret, val) {
                    self.set(st, d, v);
                }
                match fr.normal {
                    Some(b) => self.jump(st, b),
                    None => self.adv(st),
                }
            }
            I::Unreachable => return Err(Stop::Viol("ub: unreachable code reached".into())),
            I::Alloca { d, size, n } => {
                let n = self.opv(st, n);
                let n = self.conc(st, &n)?;
                let id = STACK + st.stack.len() as u32;
                st.stack.push(Rc::new(Obj::new((size * n) as usize, 0xAA)));
                self.fin(st, *d, C((id as u128) << 32));
            }
            I::Extract { d, a, path } => {
                let mut v = self.opv(st, a);
                for p in path {
                    v = match &v {
                        Agg(l) => l[*p as usize].clone(),
                        _ => C(0),
                    };
                }
                self.fin(st, *d, v);
            }
            I::Insert { d, agg, aty, v, path } => {
                let a = self.opv(st, agg);
                let x = self.opv(st, v);
                fn ins(a: &Val, ty: &Ty, path: &[u32], x: Val) -> Val {
                    if path.is_empty() {
                        return x;
                    }
                    let mut l: Vec<Val> = match a {
                        Agg(l) => (**l).clone(),
                        _ => vec![C(0); ty.n_elems()],
                    };
                    let i = path[0] as usize;
                    l[i] = ins(&l[i], &ty.elem(i), &path[1..], x);
                    Agg(Rc::new(l))
                }
                let r = ins(&a, aty, path, x);
                self.fin(st, *d, r);
            }
            I::ExtractElt { d, a, i } => {
                let a = self.opv(st, a);
                let i = self.opv(st, i);
                let i = self.conc(st, &i)? as usize;
                let v = match &a {
                    Agg(l) => l.get(i).cloned().unwrap_or(C(0)),
                    _ => C(0),
                };
                self.fin(st, *d, v);
            }
            I::InsertElt { d, ty, a, v, i } => {
                let a = self.opv(st, a);
                let v = self.opv(st, v);
                let i = self.opv(st, i);
                let i = self.conc(st, &i)? as usize;
                let mut l: Vec<Val> = match &a {
                    Agg(l) => (**l).clone(),
                    _ => vec![C(0); ty.n_elems()],
                };
                l[i] = v;
                self.fin(st, *d, Agg(Rc::new(l)));
            }
            I::Shuffle { d, ty, a, b, mask } => {
                let a = self.opv(st, a);
                let b = self.opv(st, b);
                let n = ty.n_elems();
                let get = |v: &Val, i: usize| match v {
                    Agg(l) => l[i].clone(),
                    _ => C(0),
                };
                let o: Vec<Val> = mask
                    .iter()
                    .map(|m| {
                        if *m < 0 {
                            C(0)
                        } else if (*m as usize) < n {
                            get(&a, *m as usize)
                        } else {
                            get(&b, *m as usize - n)
                        }
                    })
                    .collect();
                self.fin(st, *d, Agg(Rc::new(o)));
            }
            I::AtomicRmw { d, op, ty, p, v } => {
                let p = self.opv(st, p);
                let p = C(self.conc(st, &p)? as u128);
                let v = self.opv(st, v);
                let old = self.load(st, &p, ty)?;
                let new = match op.as_str() {
                    "xchg" => v,
                    "add" => self.bin_v(BinOp::Add, ty, &old, &v)?,
                    "sub" => self.bin_v(BinOp::Sub, ty, &old, &v)?,
                    "and" => self.bin_v(BinOp::And, ty, &old, &v)?,
                    "or" => self.bin_v(BinOp::Or, ty, &old, &v)?,
                    "xor" => self.bin_v(BinOp::Xor, ty, &old, &v)?,
                    _ => return Err(Stop::Incon("atomicrmw".into())),
                };
                self.store(st, &p, &new, ty)?;
                self.fin(st, *d, old);
            }
            I::CmpXchg { d, ty, p, c, n } => {
                let p = self.opv(st, p);
                let p = C(self.conc(st, &p)? as u128);
                let c = self.opv(st, c);
                let n = self.opv(st, n);
                let old = self.load(st, &p, ty)?;
                let eq = self.icmp_v(Pred::Eq, ty, &old, &c)?;
                let s = self.bval(st, &eq)?;
                if s {
                    self.store(st, &p, &n, ty)?;
                }
                self.fin(st, *d, Agg(Rc::new(vec![old, C(s as u128)])));
            }
            I::Fence => self.adv(st),
            I::Freeze { d, a } => {
                let v = self.opv(st, a);
                self.fin(st, *d, v);
            }
            I::FNeg { d, ty, a } => {
                let v = self.opv(st, a);
                let v = C(self.conc(st, &v)? as u128 ^ (1u128 << (ty.bits() - 1)));
                self.fin(st, *d, v);
            }
            I::Fcmp { d, p, ty, a, b } => {
                let (x, y) = (self.opv(st, a), self.opv(st, b));
                let (x, y) = (self.conc(st, &x)? as u128, self.conc(st, &y)? as u128);
                let g = |v: u128| if *ty == Ty::F64 { f64::from_bits(v as u64) } else { f32::from_bits(v as u32) as f64 };
                let (x, y) = (g(x), g(y));
                let un = x.is_nan() || y.is_nan();
                let r = match p.as_str() {
                    "oeq" => x == y,
                    "ogt" => x > y,
                    "oge" => x >= y,
                    "olt" => x < y,
                    "ole" => x <= y,
                    "one" => !un && x != y,
                    "ord" => !un,
                    "uno" => un,
                    "ueq" => un || x == y,
                    "ugt" => un || x > y,
                    "uge" => un || x >= y,
                    "ult" => un || x < y,
                    "ule" => un || x <= y,
                    "une" => un || x != y,
                    "true" => true,
                    _ => false,
                };
                self.fin(st, *d, C(r as u128));
            }
            I::Call { d, f, args, ret, normal } => self.call(st, d, f, args, ret, normal)?,
        }
        Ok(())
    }
    fn call(&mut self, st: &mut State, d: &Option<u32>, f: &Callee, args: &'a [(Ty, ir::Op)], ret: &'a Ty, normal: &Option<u32>) -> X<()> {
        let fid = match f {
            Callee::Func(i) => *i,
            Callee::Extern(i) => return self.ext_call(st, *i, d, args, ret, normal),
            Callee::Asm => {
                // optimisation barriers only
                if let Some(d) = d {
                    self.set(st, *d, C(0));
                }
                self.adv(st);
                return Ok(());
            }
            Callee::Indirect(o) => {
                let v = self.opv(st, o);
                let a = self.conc(st, &v)?;
                let base = ir::FUNC_BASE;
                if a >= base + 0x80_0000_0000 {
                    let i = (a - base - 0x80_0000_0000) / 64 - 1;
                    return self.ext_call(st, i as u32, d, args, ret, normal);
                }
                if a < base + 64 || (a - base) / 64 > self.sh.m.funcs.len() as u64 || a % 64 != 0 {
                    return Err(Stop::Viol("memory: call through an invalid function pointer".into()));
                }
                ((a - base) / 64 - 1) as u32
            }
        };
        let sp = self.sh.special[fid as usize];
        if sp != 0 {
            return self.special(st, sp, d, args, normal);
        }
        if st.frames.len() > self.sh.max_depth {
            return Err(Stop::Viol("stack: recursion depth limit".into()));
        }
        let func = &self.sh.m.funcs[fid as usize];
        bit(&mut self.st.funcs, fid);
        let mut regs = vec![C(0); func.nregs as usize];
        for (i, (_, o)) in args.iter().enumerate() {
            if i < func.params.len() {
                regs[func.params[i] as usize] = self.opv(st, o);
            }
        }
        let sb = st.stack.len() as u32;
        st.frames.push(Frame { f: fid, b: 0, ip: 0, regs, ret: *d, normal: *normal, stack_base: sb });
        Ok(())
    }
    fn special(&mut self, st: &mut State, sp: u8, _d: &Option<u32>, args: &'a [(Ty, ir::Op)], _normal: &Option<u32>) -> X<()> {
        match sp {
            1 => {
                // panic_fmt(pieces, args, &Location)
                let n = args.len();
                let p = self.opv(st, &args[n - 1].1);
                let mut where_ = String::new();
                if let C(a) = p {
                    if let (Ok(C(fp)), Ok(C(fl)), Ok(C(line))) = (self.ld_bytes(st, a as u64, 8), self.ld_bytes(st, a as u64 + 8, 8), self.ld_bytes(st, a as u64 + 16, 4)) {
                        if let Some((dd, _)) = self.view(st, (fp as u64 >> 32) as u32) {
                            let o = (fp as u64 & 0xffff_ffff) as usize;
                            let l = fl as usize;
                            if o + l <= dd.len() {
                                where_ = format!("{}:{}", String::from_utf8_lossy(&dd[o..o + l]), line);
                            }
                        }
                    }
                }
                Err(Stop::Viol(format!("panic: at {}", where_)))
            }
            2 => Err(Stop::Viol("panic: non-unwinding (undefined-behaviour check)".into())),
            _ => Err(Stop::Incon("special".into())),
        }
    }
    fn w_of(args: &[(Ty, ir::Op)], i: usize) -> u32 {
        match &args[i].0 {
            Ty::Vec(_, t) => t.bits(),
            t => t.bits(),
        }
    }
    fn map1(&mut self, v: &Val, f: &mut dyn FnMut(&mut Self, &Val) -> X<Val>) -> X<Val> {
        match v {
            Agg(l) => {
                let mut o = vec![];
                for x in l.iter() {
                    o.push(f(self, x)?);
                }
                Ok(Agg(Rc::new(o)))
            }
            _ => f(self, v),
        }
    }
    fn map2(&mut self, a: &Val, b: &Val, f: &mut dyn FnMut(&mut Self, &Val, &Val) -> X<Val>) -> X<Val> {
        match (a, b) {
            (Agg(x), Agg(y)) => {
                let mut o = vec![];
                for (p, q) in x.iter().zip(y.iter()) {
                    o.push(f(self, p, q)?);
                }
                Ok(Agg(Rc::new(o)))
            }
            _ => f(self, a, b),
        }
    }
    fn ext_call(&mut self, st: &mut State, id: u32, d: &Option<u32>, args: &'a [(Ty, ir::Op)], ret: &'a Ty, normal: &Option<u32>) -> X<()> {
        let x = self.sh.ext[id as usize];
        let a = |w: &Self, st: &State, i: usize| w.opv(st, &args[i].1);
        let mut rv: Val = C(0);
        let sh = self.sh;
        match x {
            Ext::Nop => {}
            Ext::Sym => {
                let p = a(self, st, 0);
                let p = self.conc(st, &p)?;
                let n = a(self, st, 1);
                let n = self.conc(st, &n)?;
                for i in 0..n {
                    let v = self.ar.var(st.nvars);
                    st.nvars += 1;
                    self.st_bytes(st, p + i, &Val::E(v), 1)?;
                }
                if st.nvars > 4096 {
                    return Err(Stop::Incon("too many inputs".into()));
                }
            }
            Ext::Assert => {
                st.nas += 1;
                let c = a(self, st, 0);
                let i = a(self, st, 1);
                let i = self.conc(st, &i)? as u32;
                if st.replay.is_empty() {
                    self.st.asserts += 1;
                }
                match c {
                    C(v) => {
                        if v & 1 == 0 {
                            return Err(Stop::Viol(format!("assert {}", i)));
                        }
                    }
                    Val::E(e) => {
                        if let Some(d) = st.replay.pop_front() {
                            match d {
                                D::Br(_, forced) => {
                                    if !forced {
                                        self.add(st, e);
                                    }
                                    self.record(st, d);
                                }
                                _ => return Err(Stop::Incon("replay mismatch (assert)".into())),
                            }
                        } else {
                            let n = self.ar.not(e);
                            match self.query(st, n) {
                                Sat::Unsat => self.record(st, D::Br(true, true)),
                                Sat::Sat(m) => {
                                    let keep = st.model.clone();
                                    self.upd_model(st, &m);
                                    self.violation(st, format!("assert {}", i), None);
                                    if self.ar.eval(e, &keep.v, keep.id) != 0 {
                                        st.model = keep;
                                    } else {
                                        match self.query(st, e) {
                                            Sat::Sat(m) => {
                                                self.upd_model(st, &m);
                                            }
                                            Sat::Unsat => return Err(Stop::Done),
                                            Sat::Unknown => return Err(Stop::Incon("solver gave no answer on an assertion".into())),
                                        }
                                    }
                                    self.add(st, e);
                                    self.record(st, D::Br(true, false));
                                }
                                Sat::Unknown => return Err(Stop::Incon(format!("solver gave no answer on assertion {}", i))),
                            }
                        }
                    }
                    _ => return Err(Stop::Incon("assert".into())),
                }
            }
            Ext::Assume => match a(self, st, 0) {
                C(v) => {
                    if v & 1 == 0 {
                        return Err(Stop::Kill);
                    }
                }
                Val::E(e) => {
                    if st.replay.is_empty() && self.ev(st, e) == 0 {
                        match self.query(st, e) {
                            Sat::Sat(m) => self.upd_model(st, &m),
                            Sat::Unsat => return Err(Stop::Kill),
                            Sat::Unknown => return Err(Stop::Incon("solver gave no answer on an assumption".into())),
                        }
                    }
                    self.add(st, e);
                }
                _ => return Err(Stop::Incon("assume".into())),
            },
            Ext::Cover => {
                if let C(i) = a(self, st, 0) {
                    st.covers |= 1 << i;
                }
            }
            Ext::Covers => {
                if let C(i) = a(self, st, 0) {
                    self.st.want_covers = (1u64 << i) - 1;
                }
            }
            Ext::Conc => {
                let v = a(self, st, 0);
                rv = C(self.conc(st, &v)? as u128);
            }
            Ext::IsSym => {
                rv = C(1);
            }
            Ext::Scale => {
                let v = a(self, st, 0);
                rv = C(self.conc(st, &v)? as u128);
            }
            Ext::Trace => {
                let v = a(self, st, 0);
                st.trace.push(v);
            }
            Ext::Malloc => {
                let n = a(self, st, 0);
                let n = self.conc(st, &n)?;
                rv = C(self.alloc(st, n, 0xAA)? as u128);
            }
            Ext::Calloc => {
                let n = a(self, st, 0);
                let m = a(self, st, 1);
                let n = self.conc(st, &n)?;
                let m = self.conc(st, &m)?;
                rv = C(self.alloc(st, n.saturating_mul(m), 0)? as u128);
            }
            Ext::Realloc => {
                let p = a(self, st, 0);
                let n = a(self, st, 1);
                let p = self.conc(st, &p)?;
                let n = self.conc(st, &n)?;
                let idx = ((p >> 32) as u32).wrapping_sub(HEAP) as usize;
                let old = match st.heap.get(idx) {
                    Some(Some(o)) => o.data.len(),
                    _ => return Err(Stop::Viol("memory: realloc of an invalid pointer".into())),
                };
                let q = self.alloc(st, n, 0xAA)?;
                self.copy(st, q, p, old.min(n as usize))?;
                st.heap[idx] = None;
                st.live -= 1;
                rv = C(q as u128);
            }
            Ext::Free => {
                let p = a(self, st, 0);
                let p = self.conc(st, &p)?;
                if p != 0 {
                    let idx = ((p >> 32) as u32).wrapping_sub(HEAP) as usize;
                    if p & 0xffff_ffff != 0 || !matches!(st.heap.get(idx), Some(Some(_))) {
                        return Err(Stop::Viol("memory: free of an invalid pointer".into()));
                    }
                    st.heap[idx] = None;
                    st.live -= 1;
                }
            }
            Ext::Memalign => {
                let p = a(self, st, 0);
                let n = a(self, st, 2);
                let n = self.conc(st, &n)?;
                let q = self.alloc(st, n, 0xAA)?;
                self.store(st, &p, &C(q as u128), &Ty::Ptr)?;
            }
            Ext::Memcmp => {
                let n = a(self, st, 2);
                let n = self.conc(st, &n)? as usize;
                if n > 0 {
                    let p = a(self, st, 0);
                    let q = a(self, st, 1);
                    let p = self.conc(st, &p)?;
                    let q = self.conc(st, &q)?;
                    let bc = sh.m.externs[id as usize] == "bcmp";
                    let mut bytes = vec![];
                    let mut conc = true;
                    for i in 0..n as u64 {
                        let x = self.ld_bytes(st, p + i, 1)?;
                        let y = self.ld_bytes(st, q + i, 1)?;
                        conc &= matches!((&x, &y), (C(_), C(_)));
                        bytes.push((x, y));
                    }
                    if conc {
                        let mut r = 0i32;
                        for (x, y) in &bytes {
                            if let (C(x), C(y)) = (x, y) {
                                if x != y {
                                    r = if x < y { -1 } else { 1 };
                                    break;
                                }
                            }
                        }
                        rv = C(r as u32 as u128);
                    } else {
                        let zero = self.ar.k(0, 32);
                        let one = self.ar.k(1, 32);
                        let neg = self.ar.k(u32::MAX as u128, 32);
                        let mut acc = zero;
                        if bc {
                            let mut c = self.ar.k(1, 1);
                            for (x, y) in &bytes {
                                let x = self.ex(x, 8)?;
                                let y = self.ex(y, 8)?;
                                let e = self.ar.eq(x, y);
                                c = self.ar.bin(Op::And, c, e);
                            }
                            acc = self.ar.ite(c, zero, one);
                        } else {
                            for (x, y) in bytes.iter().rev() {
                                let x = self.ex(x, 8)?;
                                let y = self.ex(y, 8)?;
                                let e = self.ar.eq(x, y);
                                let l = self.ar.ult(x, y);
                                let s = self.ar.ite(l, neg, one);
                                acc = self.ar.ite(e, acc, s);
                            }
                        }
                        rv = self.mkv(acc);
                    }
                }
            }
            Ext::Strlen => {
                let p = a(self, st, 0);
                let p = self.conc(st, &p)?;
                let mut n = 0u64;
                loop {
                    match self.ld_bytes(st, p + n, 1)? {
                        C(0) => break,
                        C(_) => n += 1,
                        Val::E(e) => {
                            let z = self.ar.k(0, 8);
                            let c = self.ar.eq(e, z);
                            if self.fork(st, c)? {
                                break;
                            }
                            n += 1;
                        }
                        _ => return Err(Stop::Incon("strlen".into())),
                    }
                }
                rv = C(n as u128);
            }
            Ext::Syscall | Ext::Getrandom => {
                let o = if x == Ext::Syscall { 1 } else { 0 };
                if x == Ext::Syscall {
                    let n = a(self, st, 0);
                    if self.conc(st, &n)? != 318 {
                        return Err(Stop::Incon("syscall".into()));
                    }
                }
                let p = a(self, st, o);
                let n = a(self, st, o + 1);
                let p = self.conc(st, &p)?;
                let n = self.conc(st, &n)?;
                for i in 0..n {
                    st.rnd = st.rnd.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    let b = (st.rnd >> 56) as u128;
                    self.st_bytes(st, p + i, &C(b), 1)?;
                }
                rv = C(n as u128);
            }
            Ext::Clock => {
                let p = a(self, st, 1);
                let p = self.conc(st, &p)?;
                st.clock += 1;
                let c = st.clock as u128;
                self.st_bytes(st, p, &C(c), 8)?;
                self.st_bytes(st, p + 8, &C(0), 8)?;
            }
            Ext::Getenv => {}
            Ext::Abort => return Err(Stop::Viol("abort: process abort".into())),
            Ext::Write => {
                let n = a(self, st, 2);
                rv = n;
            }
            Ext::Zero => {}
            Ext::ErrnoLoc => return Err(Stop::Incon("errno".into())),
            Ext::Memcpy => {
                let n = a(self, st, 2);
                let n = self.conc(st, &n)? as usize;
                if n > 0 {
                    let p = a(self, st, 0);
                    let q = a(self, st, 1);
                    let p = self.conc(st, &p)?;
                    let q = self.conc(st, &q)?;
                    self.copy(st, p, q, n)?;
                }
                rv = a(self, st, 0);
            }
            Ext::Memset => {
                let n = a(self, st, 2);
                let n = self.conc(st, &n)? as usize;
                if n > 0 {
                    let p = a(self, st, 0);
                    let p = self.conc(st, &p)?;
                    let v = a(self, st, 1);
                    let v = match v {
                        C(x) => C(x & 0xff),
                        Val::E(e) => {
                            let q = self.ar.extract(e, 0, 8);
                            self.mkv(q)
                        }
                        v => v,
                    };
                    let (did, o) = ((p >> 32) as u32, (p & 0xffff_ffff) as usize);
                    let bad = self.badmem("write (fill)", p);
                    let ob = match self.obj_mut(st, did) {
                        Some(x) if o.checked_add(n).map_or(false, |e| e <= x.data.len()) => x,
                        _ => return Err(bad),
                    };
                    match v {
                        C(b) => {
                            for y in &mut ob.data[o..o + n] {
                                *y = b as u8;
                            }
                            if let Some(s) = &mut ob.sym {
                                for y in &mut s[o..o + n] {
                                    *y = 0;
                                }
                            }
                        }
                        Val::E(e) => {
                            if ob.sym.is_none() {
                                ob.sym = Some(vec![0; ob.data.len()]);
                            }
                            for y in &mut ob.sym.as_mut().unwrap()[o..o + n] {
                                *y = e;
                            }
                        }
                        _ => {}
                    }
                }
                rv = a(self, st, 0);
            }
            Ext::Ctlz | Ext::Cttz | Ext::Ctpop | Ext::Bswap | Ext::Bitrev | Ext::Abs => {
                let w = Self::w_of(args, 0);
                let v = a(self, st, 0);
                rv = self.map1(&v, &mut |s, v| match v {
                    C(x) => {
                        let x = *x;
                        Ok(C(match x {
                            _ if matches!(sh.ext[id as usize], Ext::Ctlz) => (x.leading_zeros() - (128 - w)) as u128,
                            _ if matches!(sh.ext[id as usize], Ext::Cttz) => x.trailing_zeros().min(w) as u128,
                            _ if matches!(sh.ext[id as usize], Ext::Ctpop) => x.count_ones() as u128,
                            _ if matches!(sh.ext[id as usize], Ext::Bswap) => x.swap_bytes() >> (128 - w),
                            _ if matches!(sh.ext[id as usize], Ext::Bitrev) => x.reverse_bits() >> (128 - w),
                            _ => sx(x, w).unsigned_abs() & mask(w),
                        }))
                    }
                    Val::E(e) => {
                        let e = *e;
                        let r = match sh.ext[id as usize] {
                            Ext::Ctlz => {
                                let mut r = s.ar.k(w as u128, w);
                                for i in 0..w {
                                    let b = s.ar.extract(e, i, 1);
                                    let k = s.ar.k((w - 1 - i) as u128, w);
                                    r = s.ar.ite(b, k, r);
                                }
                                r
                            }
                            Ext::Cttz => {
                                let mut r = s.ar.k(w as u128, w);
                                for i in (0..w).rev() {
                                    let b = s.ar.extract(e, i, 1);
                                    let k = s.ar.k(i as u128, w);
                                    r = s.ar.ite(b, k, r);
                                }
                                r
                            }
                            Ext::Ctpop => {
                                let mut r = s.ar.k(0, w);
                                for i in 0..w {
                                    let b = s.ar.extract(e, i, 1);
                                    let z = s.ar.zext(b, w);
                                    r = s.ar.bin(Op::Add, r, z);
                                }
                                r
                            }
                            Ext::Bswap => {
                                let n = w / 8;
                                let mut acc: Option<E> = None;
                                for i in (0..n).rev() {
                                    let b = s.ar.extract(e, 8 * i, 8);
                                    acc = Some(match acc {
                                        None => b,
                                        Some(l) => s.ar.concat(b, l),
                                    });
                                }
                                acc.unwrap()
                            }
                            Ext::Bitrev => {
                                let mut acc: Option<E> = None;
                                for i in (0..w).rev() {
                                    let b = s.ar.extract(e, i, 1);
                                    acc = Some(match acc {
                                        None => b,
                                        Some(l) => s.ar.concat(b, l),
                                    });
                                }
                                acc.unwrap()
                            }
                            _ => {
                                let z = s.ar.k(0, w);
                                let n = s.ar.bin(Op::Sub, z, e);
                                let c = s.ar.bin(Op::Slt, e, z);
                                s.ar.ite(c, n, e)
                            }
                        };
                        Ok(s.mkv(r))
                    }
                    _ => Err(Stop::Incon("intrinsic".into())),
                })?;
            }
            Ext::Fshl | Ext::Fshr => {
                let w = Self::w_of(args, 0);
                let p = a(self, st, 0);
                let q = a(self, st, 1);
                let k = a(self, st, 2);
                let k = match k {
                    Val::E(e) if w <= 64 && !self.is_fixed(st, e) => {
                        // shift both as one number of twice the width
                        let h = self.ex(&p, w)?;
                        let l = self.ex(&q, w)?;
                        let m = self.ar.k(w as u128, w);
                        let k = if w.is_power_of_two() {
                            let m = self.ar.k(w as u128 - 1, w);
                            self.ar.bin(Op::And, e, m)
                        } else {
                            self.ar.bin(Op::URem, e, m)
                        };
                        let k = self.ar.zext(k, 2 * w);
                        let both = self.ar.concat(h, l);
                        let r = if x == Ext::Fshl {
                            let t = self.ar.bin(Op::Shl, both, k);
                            self.ar.extract(t, w, w)
                        } else {
                            let t = self.ar.bin(Op::LShr, both, k);
                            self.ar.extract(t, 0, w)
                        };
                        rv = self.mkv(r);
                        return self.ext_done(st, d, rv, normal);
                    }
                    Val::E(e) if w > 64 => {
                        let e = self.ar.extract(e, 0, 64);
                        self.conc_e(st, e)? as u32 % w
                    }
                    k => (self.conc(st, &k)? % w as u64) as u32,
                };
                let k = if x == Ext::Fshl { k } else { (w - k) % w };
                // result = high w bits of (p:q) << k ; for fshr by 0 the result is q
                let h = self.ex(&p, w)?;
                let l = self.ex(&q, w)?;
                let r = if k == 0 {
                    if x == Ext::Fshl {
                        h
                    } else {
                        l
                    }
                } else {
                    let a1 = self.ar.extract(h, 0, w - k);
                    let b1 = self.ar.extract(l, w - k, k);
                    self.ar.concat(a1, b1)
                };
                rv = self.mkv(r);
            }
            Ext::AddO(s) | Ext::SubO(s) | Ext::MulO(s) => {
                let w = Self::w_of(args, 0);
                let p = a(self, st, 0);
                let q = a(self, st, 1);
                if let (C(u), C(v)) = (&p, &q) {
                    let (u, v) = (*u, *v);
                    let (r, o) = if s {
                        let (u, v) = (sx(u, w), sx(v, w));
                        let (r, o) = match x {
                            Ext::AddO(_) => u.overflowing_add(v),
                            Ext::SubO(_) => u.overflowing_sub(v),
                            _ => u.overflowing_mul(v),
                        };
                        let t = r as u128 & mask(w);
                        (t, o || sx(t, w) != r)
                    } else {
                        let (r, o) = match x {
                            Ext::AddO(_) => u.overflowing_add(v),
                            Ext::SubO(_) => u.overflowing_sub(v),
                            _ => u.overflowing_mul(v),
                        };
                        let t = r & mask(w);
                        (t, o || t != r)
                    };
                    rv = Agg(Rc::new(vec![C(r), C(o as u128)]));
                } else {
                    let u = self.ex(&p, w)?;
                    let v = self.ex(&q, w)?;
                    let (r, o) = match x {
                        Ext::AddO(false) => {
                            let r = self.ar.bin(Op::Add, u, v);
                            // the interval domain decides most cases
                            let o = if self.ar.hi(u).checked_add(self.ar.hi(v)).map_or(false, |t| t <= mask(w)) {
                                self.ar.k(0, 1)
                            } else if let Some(kv) = self.ar.cv(v) {
                                // u + k overflows iff u > max - k
                                let m = self.ar.k(mask(w) - kv, w);
                                self.ar.ult(m, u)
                            } else {
                                self.ar.ult(r, u)
                            };
                            (r, o)
                        }
                        Ext::SubO(false) => {
                            let r = self.ar.bin(Op::Sub, u, v);
                            let o = self.ar.ult(u, v);
                            (r, o)
                        }
                        Ext::MulO(false) => {
                            let r = self.ar.bin(Op::Mul, u, v);
                            let o = if self.ar.hi(u).checked_mul(self.ar.hi(v)).map_or(false, |t| t <= mask(w)) {
                                self.ar.k(0, 1)
                            } else if let Some(kv) = self.ar.cv(v) {
                                let m = self.ar.k(mask(w) / kv.max(1), w);
                                self.ar.ult(m, u)
                            } else {
                                if w > 64 {
                                    // u * v overflows iff v != 0 and (u * v) / v != u
                                    let z = self.ar.k(0, w);
                                    let one = self.ar.k(1, w);
                                    let nz = self.ar.eq(v, z);
                                    let dv = self.ar.ite(nz, one, v);
                                    let t = self.ar.bin(Op::UDiv, r, dv);
                                    let same = self.ar.eq(t, u);
                                    let fine = self.ar.bin(Op::Or, nz, same);
                                    let o = self.ar.not(fine);
                                    rv = Agg(Rc::new(vec![self.mkv(r), self.mkv(o)]));
                                    return self.ext_done(st, d, rv, normal);
                                }
                                let uu = self.ar.zext(u, 2 * w);
                                let vv = self.ar.zext(v, 2 * w);
                                let rr = self.ar.bin(Op::Mul, uu, vv);
                                let h = self.ar.extract(rr, w, w);
                                let z = self.ar.k(0, w);
                                let e = self.ar.eq(h, z);
                                self.ar.not(e)
                            };
                            (r, o)
                        }
                        _ => {
                            let ww = match x {
                                Ext::MulO(_) => 2 * w,
                                _ => w + 1,
                            };
                            if ww > 128 && !matches!(x, Ext::MulO(_)) {
                                // by the signs of the operands and the result
                                let add = matches!(x, Ext::AddO(_));
                                let r = self.ar.bin(if add { Op::Add } else { Op::Sub }, u, v);
                                let t = self.ar.bin(Op::Xor, u, r);
                                let y = if add { r } else { u };
                                let t2 = self.ar.bin(Op::Xor, v, y);
                                let t = self.ar.bin(Op::And, t, t2);
                                let o = self.ar.extract(t, w - 1, 1);
                                rv = Agg(Rc::new(vec![self.mkv(r), self.mkv(o)]));
                                return self.ext_done(st, d, rv, normal);
                            }
                            if ww > 128 {
                                return Err(Stop::Incon("wide signed overflow".into()));
                            }
                            if let (Ext::MulO(_), Some(kv)) = (x, self.ar.cv(v)) {
                                // u * k with constant k > 0: overflow iff u outside [min/k, max/k]
                                let ks = sx(kv, w);
                                if ks > 0 {
                                    let r = self.ar.bin(Op::Mul, u, v);
                                    let mx = (mask(w) >> 1) as i128;
                                    let mn = -mx - 1;
                                    let hi = self.ar.k((mx / ks) as u128, w);
                                    let lo = self.ar.k((mn / ks) as u128, w);
                                    let o1 = self.ar.bin(Op::Slt, hi, u);
                                    let o2 = self.ar.bin(Op::Slt, u, lo);
                                    let o = self.ar.bin(Op::Or, o1, o2);
                                    rv = Agg(Rc::new(vec![self.mkv(r), self.mkv(o)]));
                                    return self.ext_done(st, d, rv, normal);
                                }
                            }
                            if !matches!(x, Ext::MulO(_)) && self.ar.hi(v) <= mask(w) >> 1 {
                                // v >= 0: u + v overflows iff max - v < u, u - v iff u < min + v
                                let add = matches!(x, Ext::AddO(_));
                                let r = self.ar.bin(if add { Op::Add } else { Op::Sub }, u, v);
                                let o = if add {
                                    if self.ar.hi(u) <= mask(w) >> 1 && self.ar.hi(u) + self.ar.hi(v) <= mask(w) >> 1 {
                                        self.ar.k(0, 1)
                                    } else {
                                        let m = self.ar.k(mask(w) >> 1, w);
                                        let t = self.ar.bin(Op::Sub, m, v);
                                        self.ar.bin(Op::Slt, t, u)
                                    }
                                } else {
                                    let m = self.ar.k(1u128 << (w - 1), w);
                                    let t = self.ar.bin(Op::Add, m, v);
                                    self.ar.bin(Op::Slt, u, t)
                                };
                                rv = Agg(Rc::new(vec![self.mkv(r), self.mkv(o)]));
                                return self.ext_done(st, d, rv, normal);
                            }
                            let uu = self.ar.sext(u, ww);
                            let vv = self.ar.sext(v, ww);
                            let o = match x {
                                Ext::AddO(_) => Op::Add,
                                Ext::SubO(_) => Op::Sub,
                                _ => Op::Mul,
                            };
                            let rr = self.ar.bin(o, uu, vv);
                            let r = self.ar.bin(o, u, v);
                            let rs = self.ar.sext(r, ww);
                            let e = self.ar.eq(rs, rr);
                            let o = self.ar.not(e);
                            (r, o)
                        }
                    };
                    rv = Agg(Rc::new(vec![self.mkv(r), self.mkv(o)]));
                }
            }
            Ext::AddSat(s) | Ext::SubSat(s) => {
                let w = Self::w_of(args, 0);
                let p = a(self, st, 0);
                let q = a(self, st, 1);
                let add = matches!(x, Ext::AddSat(_));
                rv = self.map2(&p, &q, &mut |z, p, q| {
                    let u = z.ex(p, w)?;
                    let v = z.ex(q, w)?;
                    let r = if s {
                        let r = z.ar.bin(if add { Op::Add } else { Op::Sub }, u, v);
                        let t = z.ar.bin(Op::Xor, u, r);
                        let y = if add { r } else { u };
                        let t2 = z.ar.bin(Op::Xor, v, y);
                        let t = z.ar.bin(Op::And, t, t2);
                        let o = z.ar.extract(t, w - 1, 1);
                        let neg = z.ar.extract(u, w - 1, 1);
                        let mn = z.ar.k(1u128 << (w - 1), w);
                        let mx = z.ar.k(mask(w) >> 1, w);
                        let lim = z.ar.ite(neg, mn, mx);
                        z.ar.ite(o, lim, r)
                    } else if add {
                        let r = z.ar.bin(Op::Add, u, v);
                        let o = z.ar.ult(r, u);
                        let m = z.ar.k(u128::MAX, w);
                        z.ar.ite(o, m, r)
                    } else {
                        let r = z.ar.bin(Op::Sub, u, v);
                        let o = z.ar.ult(u, v);
                        let m = z.ar.k(0, w);
                        z.ar.ite(o, m, r)
                    };
                    Ok(z.mkv(r))
                })?;
            }
            Ext::UMin | Ext::UMax | Ext::SMin | Ext::SMax => {
                let w = Self::w_of(args, 0);
                let p = a(self, st, 0);
                let q = a(self, st, 1);
                rv = self.map2(&p, &q, &mut |z, p, q| {
                    let u = z.ex(p, w)?;
                    let v = z.ex(q, w)?;
                    let c = match x {
                        Ext::UMin | Ext::UMax => z.ar.ult(u, v),
                        _ => z.ar.bin(Op::Slt, u, v),
                    };
                    let r = match x {
                        Ext::UMin | Ext::SMin => z.ar.ite(c, u, v),
                        _ => z.ar.ite(c, v, u),
                    };
                    Ok(z.mkv(r))
                })?;
            }
            Ext::Cmp(s) => {
                let w = Self::w_of(args, 0);
                let rw = ret.bits();
                let p = a(self, st, 0);
                let q = a(self, st, 1);
                let u = self.ex(&p, w)?;
                let v = self.ex(&q, w)?;
                let o = if s { Op::Slt } else { Op::Ult };
                let l = self.ar.bin(o, u, v);
                let e = self.ar.eq(u, v);
                let m1 = self.ar.k(u128::MAX, rw);
                let z = self.ar.k(0, rw);
                let one = self.ar.k(1, rw);
                let i = self.ar.ite(e, z, one);
                let r = self.ar.ite(l, m1, i);
                rv = self.mkv(r);
            }
            Ext::Expect | Ext::TlsAddr => rv = a(self, st, 0),
            Ext::IsConst => rv = C(0),
            Ext::Trap => return Err(Stop::Viol("abort: trap".into())),
            Ext::Reduce(o, pick) => {
                let w = Self::w_of(args, 0);
                if let Agg(l) = a(self, st, 0) {
                    let mut acc = self.ex(&l[0], w)?;
                    for v in &l[1..] {
                        let e = self.ex(v, w)?;
                        acc = match pick {
                            0 => self.ar.bin(o, acc, e),
                            _ => {
                                let c = self.ar.bin(o, acc, e);
                                if pick == 1 {
                                    self.ar.ite(c, acc, e)
                                } else {
                                    self.ar.ite(c, e, acc)
                                }
                            }
                        };
                    }
                    rv = self.mkv(acc);
                }
            }
            Ext::FPow(_) | Ext::FBin(_) => {
                if args[0].0 != Ty::F64 {
                    return Err(Stop::Incon("f32 intrinsic".into()));
                }
                let p = a(self, st, 0);
                let q = a(self, st, 1);
                let p = f64::from_bits(self.conc(st, &p)?);
                let q = self.conc(st, &q)?;
                let y = f64::from_bits(q);
                let r = match x {
                    Ext::FPow(true) => p.powi(q as u32 as i32),
                    Ext::FPow(false) => p.powf(y),
                    Ext::FBin(0) => p.copysign(y),
                    Ext::FBin(1) => p.min(y),
                    _ => p.max(y),
                };
                rv = C(r.to_bits() as u128);
            }
            Ext::FAbs | Ext::FOp1(_) | Ext::FMulAdd | Ext::FpToSat(_) => {
                let v = a(self, st, 0);
                let v = self.conc(st, &v)? as u128;
                if args[0].0 != Ty::F64 {
                    return Err(Stop::Incon("f32 intrinsic".into()));
                }
                let f = f64::from_bits(v as u64);
                rv = match x {
                    Ext::FAbs => C(f.abs().to_bits() as u128),
                    Ext::FOp1(0) => C(f.floor().to_bits() as u128),
                    Ext::FOp1(1) => C(f.ceil().to_bits() as u128),
                    Ext::FOp1(2) => C(f.trunc().to_bits() as u128),
                    Ext::FOp1(3) => C(f.sqrt().to_bits() as u128),
                    Ext::FOp1(4) => C(f.ln().to_bits() as u128),
                    Ext::FOp1(5) => C(f.exp().to_bits() as u128),
                    Ext::FOp1(6) => C(f.log2().to_bits() as u128),
                    Ext::FOp1(7) => C(f.log10().to_bits() as u128),
                    Ext::FOp1(8) => C(f.exp2().to_bits() as u128),
                    Ext::FOp1(9) => C(f.round().to_bits() as u128),
                    Ext::FOp1(10) => C(f.round_ties_even().to_bits() as u128),
                    Ext::FOp1(11) => C(f.ln_1p().to_bits() as u128),
                    Ext::FOp1(12) => C(f.exp_m1().to_bits() as u128),
                    Ext::FMulAdd => {
                        let y = a(self, st, 1);
                        let z = a(self, st, 2);
                        let y = f64::from_bits(self.conc(st, &y)?);
                        let z = f64::from_bits(self.conc(st, &z)?);
                        // not fused, as the targets without the instruction do it
                        C((f * y + z).to_bits() as u128)
                    }
                    Ext::FpToSat(false) => {
                        let w = ret.bits();
                        C((f as u128).min(mask(w)))
                    }
                    Ext::FpToSat(true) => {
                        let w = ret.bits();
                        let mx = (mask(w) >> 1) as i128;
                        C((f as i128).max(-mx - 1).min(mx) as u128 & mask(w))
                    }
                    _ => return Err(Stop::Incon("fmuladd".into())),
                };
            }
            Ext::Unknown => return Err(Stop::Incon(format!("external function {}", sh.m.externs[id as usize]))),
        }
        self.ext_done(st, d, rv, normal)
    }
    fn ext_done(&mut self, st: &mut State, d: &Option<u32>, rv: Val, normal: &Option<u32>) -> X<()> {
        if let Some(d) = d {
            self.set(st, *d, rv);
        }
        match normal {
            Some(b) => self.jump(st, *b),
            None => self.adv(st),
        }
        Ok(())
    }
    #[allow(dead_code)]
    fn m(v: u128) -> u64 {
        m64(v)
    }
}
