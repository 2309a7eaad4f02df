//! Parser for the textual LLVM IR that rustc emits (whole program, post-LTO).
use std::collections::HashMap;
use std::sync::Arc as Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    F32,
    F64,
    Ptr,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}

fn align_to(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(n) => *n,
            Ty::F32 => 32,
            Ty::F64 => 64,
            Ty::Ptr => 64,
            Ty::Vec(n, t) => *n as u32 * t.bits(),
            _ => 0,
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(n) => match n {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.store_size().next_power_of_two(),
            Ty::Struct(f, p) => {
                if *p {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(n) => (*n as u64 + 7) / 8,
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => (n * t.bits() as u64 + 7) / 8,
            Ty::Struct(..) => self.size(),
            _ => 0,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Struct(f, p) => {
                let mut o = 0;
                for t in f.iter() {
                    if !*p {
                        o = align_to(o, t.align());
                    }
                    o += t.size();
                }
                align_to(o, self.align())
            }
            _ => align_to(self.store_size(), self.align()),
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, p) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !*p {
                        o = align_to(o, t.align());
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            Ty::Arr(_, t) => t.size() * i as u64,
            Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!("field_off of {:?}", self),
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("elem of {:?}", self),
        }
    }
    pub fn n_elems(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
}

/// Constant, fully evaluated (addresses of globals and functions are fixed before bodies are parsed).
#[derive(Clone, Debug)]
pub enum K {
    Int(u128),
    Undef,
    Agg(Rc<Vec<K>>),
}

#[derive(Clone, Debug)]
pub enum Op {
    Reg(u32),
    K(K),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    PtrToInt,
    IntToPtr,
    Bitcast,
    UiToFp,
    SiToFp,
    FpToUi,
    FpToSi,
    FpExt,
    FpTrunc,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Func(u32),
    Extern(u32),
    Indirect(Op),
    Asm,
}

#[derive(Clone, Debug)]
pub enum I {
    Alloca { d: u32, size: u64, n: Op },
    Load { d: u32, ty: Ty, p: Op },
    Store { ty: Ty, v: Op, p: Op },
    /// base + off + sum(idx * scale), idx sign-extended from its width
    Gep { d: u32, base: Op, off: i64, idx: Vec<(Op, u32, i64)> },
    Bin { d: u32, op: BinOp, ty: Ty, a: Op, b: Op },
    Icmp { d: u32, p: Pred, ty: Ty, a: Op, b: Op },
    Fcmp { d: u32, p: String, ty: Ty, a: Op, b: Op },
    FNeg { d: u32, ty: Ty, a: Op },
    Cast { d: u32, op: Cast, from: Ty, a: Op, to: Ty },
    Select { d: u32, cty: Ty, c: Op, ty: Ty, a: Op, b: Op },
    Call { d: Option<u32>, f: Callee, args: Vec<(Ty, Op)>, ret: Ty, normal: Option<u32> },
    Br(u32),
    CondBr { c: Op, t: u32, f: u32 },
    Switch { ty: Ty, v: Op, def: u32, cases: Vec<(u128, u32)> },
    Ret { v: Option<(Ty, Op)> },
    Unreachable,
    Extract { d: u32, a: Op, path: Vec<u32> },
    Insert { d: u32, agg: Op, aty: Ty, v: Op, path: Vec<u32> },
    ExtractElt { d: u32, a: Op, i: Op },
    InsertElt { d: u32, ty: Ty, a: Op, v: Op, i: Op },
    Shuffle { d: u32, ty: Ty, a: Op, b: Op, mask: Vec<i64> },
    AtomicRmw { d: u32, op: String, ty: Ty, p: Op, v: Op },
    CmpXchg { d: u32, ty: Ty, p: Op, c: Op, n: Op },
    Fence,
    Freeze { d: u32, a: Op },
}

#[derive(Clone, Debug)]
pub struct Block {
    pub name: String,
    pub phis: Vec<(u32, Vec<(u32, Op)>)>, // dst, (pred block, value)
    pub insts: Vec<I>,
    pub dbg: Vec<u32>,
}

#[derive(Clone, Debug)]
pub struct Func {
    pub name: String,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
}

pub struct Global {
    pub name: String,
    pub size: u64,
    pub bytes: Vec<u8>,
    pub constant: bool,
    pub external: bool,
}

pub struct Module {
    pub funcs: Vec<Func>,
    pub externs: Vec<String>,
    pub globals: Vec<Global>,
    pub func_by_name: HashMap<String, u32>,
    pub locs: HashMap<u32, (u32, u32, u32)>,       // line, scope, inlinedAt
    pub scopes: HashMap<u32, (u32, u32, String)>, // parent, file, function name (empty for blocks)
    pub files: HashMap<u32, String>,
}

impl Module {
    pub fn dbg(&self, f: u32, b: u32, ip: u32) -> u32 {
        self.funcs[f as usize].blocks[b as usize].dbg.get(ip as usize).copied().unwrap_or(0)
    }
    /// (file, line, function) of a debug location
    pub fn src(&self, d: u32) -> Option<(String, u32, String)> {
        let (line, sc, _) = self.locs.get(&d)?;
        let mut s = *sc;
        let mut file = None;
        for _ in 0..100 {
            let (p, f, n) = self.scopes.get(&s)?;
            if file.is_none() && *f != 0 {
                file = self.files.get(f).cloned();
            }
            if !n.is_empty() {
                return Some((file.unwrap_or_default(), *line, n.clone()));
            }
            s = *p;
        }
        None
    }
    pub fn loc_of(&self, f: u32, b: u32, ip: u32) -> String {
        let mut d = self.dbg(f, b, ip);
        let mut first = String::new();
        for _ in 0..64 {
            if let Some((file, line, _)) = self.src(d) {
                let s = format!("{}:{}", file, line);
                if !file.starts_with("/rustc/") && !file.contains("/library/") && !file.starts_with("/rust/deps") {
                    return s;
                }
                if first.is_empty() {
                    first = s;
                }
            }
            match self.locs.get(&d) {
                Some((_, _, ia)) if *ia != 0 => d = *ia,
                _ => break,
            }
        }
        first
    }
}

fn field<'b>(l: &'b str, k: &str) -> Option<&'b str> {
    let i = l.find(k)? + k.len();
    let r = &l[i..];
    let e = r.find(|c| c == ',' || c == ')').unwrap_or(r.len());
    Some(r[..e].trim())
}
fn mref(s: Option<&str>) -> u32 {
    s.and_then(|x| x.strip_prefix('!')).and_then(|x| x.parse().ok()).unwrap_or(0)
}
fn quoted_field(l: &str, k: &str) -> String {
    field(l, k).map(|s| s.trim_matches('"').to_string()).unwrap_or_default()
}

pub const FUNC_BASE: u64 = 0x7f00_0000_0000_0000;
pub fn func_addr(i: u32) -> u64 {
    FUNC_BASE + (i as u64 + 1) * 64
}
pub fn extern_addr(i: u32) -> u64 {
    FUNC_BASE + 0x80_0000_0000 + (i as u64 + 1) * 64
}
pub fn global_addr(i: u32) -> u64 {
    (i as u64 + 16) << 32
}

#[derive(Clone, Debug, PartialEq)]
enum T {
    Id(String),   // keyword / identifier
    Loc(String),  // %x
    Glob(String), // @x
    Num(String),
    Str(Vec<u8>),
    CStr(Vec<u8>),
    P(char),
    Bang,
    Hash(String),
    Dots,
    Eof,
}

struct Lex<'a> {
    s: &'a [u8],
    p: usize,
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lex<'a> {
    fn ws(&mut self) {
        loop {
            while self.p < self.s.len() && (self.s[self.p] as char).is_ascii_whitespace() {
                self.p += 1;
            }
            if self.p < self.s.len() && self.s[self.p] == b';' {
                while self.p < self.s.len() && self.s[self.p] != b'\n' {
                    self.p += 1;
                }
            } else {
                return;
            }
        }
    }
    fn quoted(&mut self) -> Vec<u8> {
        // at opening quote
        self.p += 1;
        let mut v = vec![];
        while self.s[self.p] != b'"' {
            if self.s[self.p] == b'\\' {
                if self.s[self.p + 1] == b'\\' {
                    v.push(b'\\');
                    self.p += 2;
                } else {
                    let h = std::str::from_utf8(&self.s[self.p + 1..self.p + 3]).unwrap();
                    v.push(u8::from_str_radix(h, 16).unwrap());
                    self.p += 3;
                }
            } else {
                v.push(self.s[self.p]);
                self.p += 1;
            }
        }
        self.p += 1;
        v
    }
    fn name(&mut self) -> String {
        if self.s[self.p] == b'"' {
            let q = self.quoted();
            return String::from_utf8_lossy(&q).into_owned();
        }
        let b = self.p;
        while self.p < self.s.len() && is_id(self.s[self.p]) {
            self.p += 1;
        }
        String::from_utf8_lossy(&self.s[b..self.p]).into_owned()
    }
    fn next(&mut self) -> T {
        self.ws();
        if self.p >= self.s.len() {
            return T::Eof;
        }
        let c = self.s[self.p];
        match c {
            b'%' => {
                self.p += 1;
                T::Loc(self.name())
            }
            b'@' => {
                self.p += 1;
                T::Glob(self.name())
            }
            b'"' => T::Str(self.quoted()),
            b'c' if self.s.get(self.p + 1) == Some(&b'"') => {
                self.p += 1;
                T::CStr(self.quoted())
            }
            b'!' => {
                self.p += 1;
                T::Bang
            }
            b'#' => {
                self.p += 1;
                T::Hash(self.name())
            }
            b'.' if self.s[self.p..].starts_with(b"...") => {
                self.p += 3;
                T::Dots
            }
            b'0'..=b'9' | b'-' | b'+' => {
                let b = self.p;
                self.p += 1;
                while self.p < self.s.len() && (is_id(self.s[self.p]) || self.s[self.p] == b'+') {
                    self.p += 1;
                }
                T::Num(String::from_utf8_lossy(&self.s[b..self.p]).into_owned())
            }
            c if is_id(c) => T::Id(self.name()),
            c => {
                self.p += 1;
                T::P(c as char)
            }
        }
    }
}

pub struct Parser<'a> {
    lx: Lex<'a>,
    tok: T,
    types: HashMap<String, Ty>,
    glob_addr: HashMap<String, u64>,
    func_id: HashMap<String, u32>,
    extern_id: HashMap<String, u32>,
    externs: Vec<String>,
    // per function
    regs: HashMap<String, u32>,
    nregs: u32,
    blocks: HashMap<String, u32>,
    last_dbg: u32,
}

type R<X> = Result<X, String>;

impl<'a> Parser<'a> {
    fn new(s: &'a [u8]) -> Self {
        let mut p = Parser {
            lx: Lex { s, p: 0 },
            tok: T::Eof,
            types: HashMap::new(),
            glob_addr: HashMap::new(),
            func_id: HashMap::new(),
            extern_id: HashMap::new(),
            externs: vec![],
            regs: HashMap::new(),
            nregs: 0,
            blocks: HashMap::new(),
            last_dbg: 0,
        };
        p.tok = p.lx.next();
        p
    }
    fn sub(&mut self, s: &'a [u8]) {
        self.lx = Lex { s, p: 0 };
        self.tok = self.lx.next();
    }
    fn adv(&mut self) -> T {
        let n = self.lx.next();
        std::mem::replace(&mut self.tok, n)
    }
    fn err<X>(&self, m: &str) -> R<X> {
        let p = self.lx.p;
        let a = p.saturating_sub(120);
        let b = (p + 60).min(self.lx.s.len());
        Err(format!("{} at token {:?} near: {}", m, self.tok, String::from_utf8_lossy(&self.lx.s[a..b])))
    }
    fn is_p(&self, c: char) -> bool {
        self.tok == T::P(c)
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.adv();
            true
        } else {
            false
        }
    }
    fn exp(&mut self, c: char) -> R<()> {
        if self.eat_p(c) {
            Ok(())
        } else {
            self.err(&format!("expected '{}'", c))
        }
    }
    fn is_id(&self, s: &str) -> bool {
        matches!(&self.tok, T::Id(x) if x == s)
    }
    fn eat_id(&mut self, s: &str) -> bool {
        if self.is_id(s) {
            self.adv();
            true
        } else {
            false
        }
    }
    fn exp_id(&mut self, s: &str) -> R<()> {
        if self.eat_id(s) {
            Ok(())
        } else {
            self.err(&format!("expected {}", s))
        }
    }
    fn num(&mut self) -> R<i128> {
        match self.adv() {
            T::Num(s) => s.parse().map_err(|_| format!("bad number {}", s)),
            t => Err(format!("number expected, got {:?}", t)),
        }
    }
    fn skip_balanced(&mut self) {
        // at '(' ; skip through the matching ')'
        let mut d = 0;
        loop {
            match self.adv() {
                T::P('(') => d += 1,
                T::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                T::Eof => return,
                _ => {}
            }
        }
    }
    fn at_type(&self) -> bool {
        match &self.tok {
            T::Id(s) => {
                matches!(s.as_str(), "void" | "ptr" | "float" | "double" | "half" | "label" | "metadata" | "token" | "x86_fp80" | "fp128" | "bfloat")
                    || (s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            T::P('{') | T::P('[') | T::P('<') => true,
            T::Loc(_) => true,
            _ => false,
        }
    }
    fn ty(&mut self) -> R<Ty> {
        match self.adv() {
            T::Id(s) => Ok(match s.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if self.is_id("addrspace") {
                        self.adv();
                        self.skip_balanced();
                    }
                    Ty::Ptr
                }
                "float" => Ty::F32,
                "double" => Ty::F64,
                "label" | "metadata" | "token" | "half" | "x86_fp80" | "fp128" | "bfloat" => Ty::Other,
                _ => {
                    if s.starts_with('i') {
                        if let Ok(n) = s[1..].parse() {
                            return Ok(Ty::Int(n));
                        }
                    }
                    return self.err(&format!("type expected, got {}", s));
                }
            }),
            T::P('{') => {
                let f = self.ty_list('}')?;
                Ok(Ty::Struct(Rc::new(f), false))
            }
            T::P('[') => {
                let n = self.num()? as u64;
                self.exp_id("x")?;
                let t = self.ty()?;
                self.exp(']')?;
                Ok(Ty::Arr(n, Rc::new(t)))
            }
            T::P('<') => {
                if self.eat_p('{') {
                    let f = self.ty_list('}')?;
                    self.exp('>')?;
                    Ok(Ty::Struct(Rc::new(f), true))
                } else {
                    let n = self.num()? as u64;
                    self.exp_id("x")?;
                    let t = self.ty()?;
                    self.exp('>')?;
                    Ok(Ty::Vec(n, Rc::new(t)))
                }
            }
            T::Loc(n) => match self.types.get(&n) {
                Some(t) => Ok(t.clone()),
                None => self.err(&format!("unknown type %{}", n)),
            },
            t => self.err(&format!("type expected, got {:?}", t)),
        }
    }
    fn ty_list(&mut self, close: char) -> R<Vec<Ty>> {
        let mut v = vec![];
        while !self.is_p(close) {
            v.push(self.ty()?);
            if !self.eat_p(',') {
                break;
            }
        }
        self.exp(close)?;
        Ok(v)
    }
    fn at_operand(&self) -> bool {
        match &self.tok {
            T::Loc(_) | T::Glob(_) | T::Num(_) | T::CStr(_) => true,
            T::P('{') | T::P('[') | T::P('<') => true,
            T::Id(s) => matches!(
                s.as_str(),
                "null" | "undef" | "poison" | "true" | "false" | "zeroinitializer" | "none" | "getelementptr" | "inttoptr" | "ptrtoint" | "ptrtoaddr" | "trunc" | "zext" | "sext"
                    | "bitcast" | "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" | "lshr" | "asm" | "dso_local_equivalent" | "no_cfi" | "addrspacecast" | "splat" | "icmp" | "select"
            ),
            _ => false,
        }
    }
    /// skips attributes up to something an operand (or ',' / ')') can start with
    fn skip_attrs(&mut self) {
        loop {
            match &self.tok {
                T::Id(s) if !self.at_operand() => {
                    let al = s == "align";
                    self.adv();
                    if self.is_p('(') {
                        self.skip_balanced();
                    } else if al {
                        self.adv();
                    }
                }
                T::Str(_) => {
                    self.adv();
                    if self.eat_p('=') {
                        self.adv();
                    }
                }
                T::Hash(_) => {
                    self.adv();
                }
                _ => return,
            }
        }
    }
    /// skips return attributes up to a type
    fn skip_ret_attrs(&mut self) {
        loop {
            if self.at_type() {
                return;
            }
            match &self.tok {
                T::Id(s) => {
                    let al = s == "align" || s == "cc";
                    self.adv();
                    if self.is_p('(') {
                        self.skip_balanced();
                    } else if al {
                        self.adv();
                    }
                }
                T::Str(_) => {
                    self.adv();
                    if self.eat_p('=') {
                        self.adv();
                    }
                }
                T::Hash(_) => {
                    self.adv();
                }
                _ => return,
            }
        }
    }
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn block(&mut self, n: &str) -> u32 {
        let l = self.blocks.len() as u32;
        *self.blocks.entry(n.to_string()).or_insert(l)
    }
    fn glob(&mut self, n: &str) -> R<u64> {
        if let Some(a) = self.glob_addr.get(n) {
            return Ok(*a);
        }
        if let Some(f) = self.func_id.get(n) {
            return Ok(func_addr(*f));
        }
        if let Some(f) = self.extern_id.get(n) {
            return Ok(extern_addr(*f));
        }
        self.err(&format!("unknown global @{}", n))
    }
    fn zero(ty: &Ty) -> K {
        match ty {
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                let n = ty.n_elems();
                K::Agg(Rc::new((0..n).map(|i| Self::zero(&ty.elem(i))).collect()))
            }
            _ => K::Int(0),
        }
    }
    fn mask(v: u128, bits: u32) -> u128 {
        if bits >= 128 {
            v
        } else {
            v & ((1u128 << bits) - 1)
        }
    }
    fn const_op(&mut self, ty: &Ty) -> R<K> {
        match self.operand(ty)? {
            Op::K(k) => Ok(k),
            Op::Reg(_) => self.err("constant expected"),
        }
    }
    fn kint(k: K) -> u128 {
        match k {
            K::Int(v) => v,
            _ => 0,
        }
    }
    fn typed_const(&mut self) -> R<(Ty, K)> {
        let t = self.ty()?;
        self.skip_attrs();
        let k = self.const_op(&t)?;
        Ok((t, k))
    }
    fn operand(&mut self, ty: &Ty) -> R<Op> {
        let t = self.adv();
        Ok(Op::K(match t {
            T::Loc(n) => return Ok(Op::Reg(self.reg(&n))),
            T::Glob(n) => K::Int(self.glob(&n)? as u128),
            T::Num(s) => match ty {
                Ty::F64 | Ty::F32 => {
                    let d: f64 = if let Some(h) = s.strip_prefix("0x") {
                        f64::from_bits(u64::from_str_radix(h, 16).map_err(|e| e.to_string())?)
                    } else {
                        s.parse().map_err(|_| format!("bad float {}", s))?
                    };
                    K::Int(if *ty == Ty::F64 { d.to_bits() as u128 } else { (d as f32).to_bits() as u128 })
                }
                _ => {
                    let v: u128 = if s.starts_with('-') {
                        s.parse::<i128>().map_err(|_| format!("bad int {}", s))? as u128
                    } else {
                        s.parse::<u128>().map_err(|_| format!("bad int {}", s))?
                    };
                    K::Int(Self::mask(v, ty.bits()))
                }
            },
            T::CStr(b) => K::Agg(Rc::new(b.into_iter().map(|c| K::Int(c as u128)).collect())),
            T::P('{') => K::Agg(Rc::new(self.const_list('}')?)),
            T::P('[') => K::Agg(Rc::new(self.const_list(']')?)),
            T::P('<') => {
                if self.eat_p('{') {
                    let l = self.const_list('}')?;
                    self.exp('>')?;
                    K::Agg(Rc::new(l))
                } else {
                    K::Agg(Rc::new(self.const_list('>')?))
                }
            }
            T::Id(s) if s.starts_with("f0x") => {
                // the exact bits, half to quad by their number of digits
                let b = u64::from_str_radix(&s[3..], 16).map_err(|e| e.to_string())?;
                match (ty, s.len() - 3) {
                    (Ty::F64, 16) | (Ty::F32, 8) => K::Int(b as u128),
                    (Ty::F32, 16) => K::Int((f64::from_bits(b) as f32).to_bits() as u128),
                    _ => return Err(format!("float constant {}", s)),
                }
            }
            T::Id(s) => match s.as_str() {
                "null" | "false" | "none" => K::Int(0),
                "true" => K::Int(1),
                "undef" | "poison" => match ty {
                    Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                        let n = ty.n_elems();
                        K::Agg(Rc::new(vec![K::Undef; n]))
                    }
                    _ => K::Undef,
                },
                "zeroinitializer" => Self::zero(ty),
                "splat" => {
                    self.exp('(')?;
                    let (_, k) = self.typed_const()?;
                    self.exp(')')?;
                    K::Agg(Rc::new(vec![k; ty.n_elems()]))
                }
                "inttoptr" | "ptrtoint" | "ptrtoaddr" | "trunc" | "zext" | "bitcast" | "addrspacecast" => {
                    self.exp('(')?;
                    let (_, k) = self.typed_const()?;
                    self.exp_id("to")?;
                    let to = self.ty()?;
                    self.exp(')')?;
                    K::Int(Self::mask(Self::kint(k), to.bits()))
                }
                "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" => {
                    while let T::Id(x) = &self.tok {
                        if x == "nuw" || x == "nsw" || x == "disjoint" {
                            self.adv();
                        } else {
                            break;
                        }
                    }
                    self.exp('(')?;
                    let (t, a) = self.typed_const()?;
                    self.exp(',')?;
                    let (_, b) = self.typed_const()?;
                    self.exp(')')?;
                    let (a, b) = (Self::kint(a), Self::kint(b));
                    let v = match s.as_str() {
                        "add" => a.wrapping_add(b),
                        "sub" => a.wrapping_sub(b),
                        "mul" => a.wrapping_mul(b),
                        "xor" => a ^ b,
                        "and" => a & b,
                        "or" => a | b,
                        _ => a << b,
                    };
                    K::Int(Self::mask(v, t.bits()))
                }
                "getelementptr" => {
                    while let T::Id(x) = &self.tok {
                        if self.at_type() {
                            break;
                        }
                        let inr = x == "inrange";
                        self.adv();
                        if inr && self.is_p('(') {
                            self.skip_balanced();
                        }
                    }
                    self.exp('(')?;
                    let bt = self.ty()?;
                    self.exp(',')?;
                    let (_, base) = self.typed_const()?;
                    let mut a = Self::kint(base) as u64;
                    let mut cur = bt;
                    let mut first = true;
                    while self.eat_p(',') {
                        let (it, k) = self.typed_const()?;
                        let v = Self::kint(k);
                        let sv = if it.bits() == 64 { v as u64 as i64 } else { v as u32 as i32 as i64 };
                        if first {
                            a = a.wrapping_add((sv as u64).wrapping_mul(cur.size()));
                            first = false;
                        } else {
                            match &cur {
                                Ty::Struct(..) => {
                                    a = a.wrapping_add(cur.field_off(sv as usize));
                                    cur = cur.elem(sv as usize);
                                }
                                _ => {
                                    let e = cur.elem(0);
                                    a = a.wrapping_add((sv as u64).wrapping_mul(e.size()));
                                    cur = e;
                                }
                            }
                        }
                    }
                    self.exp(')')?;
                    K::Int(a as u128)
                }
                _ => return self.err(&format!("operand keyword {}", s)),
            },
            t => return self.err(&format!("operand expected, got {:?}", t)),
        }))
    }
    fn const_list(&mut self, close: char) -> R<Vec<K>> {
        let mut v = vec![];
        while !self.is_p(close) {
            let (_, k) = self.typed_const()?;
            v.push(k);
            if !self.eat_p(',') {
                break;
            }
        }
        self.exp(close)?;
        Ok(v)
    }
    fn tyop(&mut self) -> R<(Ty, Op)> {
        let t = self.ty()?;
        self.skip_attrs();
        let o = self.operand(&t)?;
        Ok((t, o))
    }
    fn label(&mut self) -> R<u32> {
        self.exp_id("label")?;
        match self.adv() {
            T::Loc(n) => Ok(self.block(&n)),
            t => Err(format!("label expected, got {:?}", t)),
        }
    }
    fn skip_meta(&mut self) {
        // , !dbg !12, !range !3 ... and ", align 8"
        while self.is_p(',') {
            self.adv();
            if self.tok == T::Bang {
                self.adv();
                let nm = self.adv(); // name
                if self.tok == T::Bang {
                    self.adv();
                    if nm == T::Id("dbg".into()) {
                        if let T::Num(n) = &self.tok {
                            self.last_dbg = n.parse().unwrap_or(0);
                        }
                    }
                    // !12 or !{}
                    if self.is_p('{') {
                        while !self.is_p('}') {
                            self.adv();
                        }
                    }
                    self.adv();
                }
            } else if self.eat_id("align") {
                self.adv();
            } else {
                self.adv();
            }
        }
    }
    fn flags(&mut self) {
        while let T::Id(x) = &self.tok {
            if matches!(
                x.as_str(),
                "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "inbounds" | "nusw"
            ) {
                self.adv();
            } else {
                return;
            }
        }
    }
    fn ordering(&mut self) {
        while let T::Id(x) = &self.tok {
            if matches!(x.as_str(), "monotonic" | "acquire" | "release" | "acq_rel" | "seq_cst" | "unordered") {
                self.adv();
            } else if x == "syncscope" {
                self.adv();
                self.skip_balanced();
            } else {
                return;
            }
        }
    }

    fn func(&mut self, f: &mut Func) -> R<()> {
        // after "define": linkage etc up to type
        self.regs.clear();
        self.blocks.clear();
        self.nregs = 0;
        self.skip_ret_attrs();
        self.ty()?;
        self.adv(); // name
        self.exp('(')?;
        let mut k = 0;
        while !self.is_p(')') {
            if self.tok == T::Dots {
                self.adv();
                break;
            }
            self.ty()?;
            loop {
                match &self.tok {
                    T::Id(s) => {
                        let al = s == "align";
                        self.adv();
                        if self.is_p('(') {
                            self.skip_balanced();
                        } else if al {
                            self.adv();
                        }
                    }
                    T::Str(_) => {
                        self.adv();
                        if self.eat_p('=') {
                            self.adv();
                        }
                    }
                    _ => break,
                }
            }
            let n = match &self.tok {
                T::Loc(n) => {
                    let n = n.clone();
                    self.adv();
                    n
                }
                _ => format!("{}", k),
            };
            k += 1;
            let r = self.reg(&n);
            f.params.push(r);
            if !self.eat_p(',') {
                break;
            }
        }
        self.exp(')')?;
        while !self.is_p('{') {
            self.adv();
        }
        self.adv();
        // body
        let mut order: Vec<(u32, Block)> = vec![];
        while !self.is_p('}') {
            // label?
            let save = (self.lx.p, self.tok.clone());
            let name = match &self.tok {
                T::Id(s) | T::Num(s) => Some(s.clone()),
                T::Str(s) => Some(String::from_utf8_lossy(s).into_owned()),
                _ => None,
            };
            if let Some(n) = name {
                if self.lx.s.get(self.lx.p) == Some(&b':') {
                    self.adv();
                    self.adv();
                    let id = self.block(&n);
                    order.push((id, Block { name: n, phis: vec![], insts: vec![], dbg: vec![] }));
                    continue;
                }
            }
            let _ = save;
            if order.is_empty() {
                let n = format!("{}", f.params.len());
                let id = self.block(&n);
                order.push((id, Block { name: n, phis: vec![], insts: vec![], dbg: vec![] }));
            }
            // debug records
            if let T::Hash(s) = &self.tok {
                if s.starts_with("dbg") {
                    self.adv();
                    self.skip_balanced();
                    continue;
                }
            }
            let mut d: Option<u32> = None;
            if let T::Loc(n) = &self.tok {
                let n = n.clone();
                self.adv();
                self.exp('=')?;
                d = Some(self.reg(&n));
            }
            let b = &mut order.last_mut().unwrap().1;
            // phi
            if self.is_id("phi") {
                self.adv();
                let mut q = vec![];
                // need self while b borrowed: collect first
                self.flags();
                let t = self.ty()?;
                loop {
                    self.exp('[')?;
                    let o = self.operand(&t)?;
                    self.exp(',')?;
                    let l = match self.adv() {
                        T::Loc(n) => self.block(&n),
                        t => return Err(format!("phi label {:?}", t)),
                    };
                    self.exp(']')?;
                    q.push((l, o));
                    if self.is_p(',') {
                        // another incoming or metadata
                        let save = (self.lx.p, self.tok.clone());
                        self.adv();
                        if self.is_p('[') {
                            continue;
                        }
                        self.lx.p = save.0;
                        self.tok = save.1;
                    }
                    break;
                }
                self.skip_meta();
                let b = &mut order.last_mut().unwrap().1;
                b.phis.push((d.unwrap(), q));
                continue;
            }
            let _ = b;
            self.last_dbg = 0;
            let ins = self.inst(d)?;
            if let Some(i) = ins {
                let b = &mut order.last_mut().unwrap().1;
                b.insts.push(i);
                b.dbg.push(self.last_dbg);
            }
        }
        self.adv();
        let nb = self.blocks.len();
        let mut blocks: Vec<Block> = (0..nb).map(|_| Block { name: String::new(), phis: vec![], insts: vec![], dbg: vec![] }).collect();
        // entry must be block index of the first in order; keep indices and swap entry to 0 by construction
        let entry = order[0].0;
        for (id, b) in order {
            blocks[id as usize] = b;
        }
        if entry != 0 {
            // remap: swap 0 and entry
            blocks.swap(0, entry as usize);
            let m = |x: &mut u32| {
                if *x == 0 {
                    *x = entry
                } else if *x == entry {
                    *x = 0
                }
            };
            for b in blocks.iter_mut() {
                for (_, q) in b.phis.iter_mut() {
                    for (l, _) in q.iter_mut() {
                        m(l);
                    }
                }
                for i in b.insts.iter_mut() {
                    match i {
                        I::Br(x) => m(x),
                        I::CondBr { t, f, .. } => {
                            m(t);
                            m(f)
                        }
                        I::Switch { def, cases, .. } => {
                            m(def);
                            for c in cases.iter_mut() {
                                m(&mut c.1)
                            }
                        }
                        I::Call { normal: Some(x), .. } => m(x),
                        _ => {}
                    }
                }
            }
        }
        f.blocks = blocks;
        f.nregs = self.nregs;
        Ok(())
    }

    fn inst(&mut self, d: Option<u32>) -> R<Option<I>> {
        let kw = match self.adv() {
            T::Id(s) => s,
            t => return self.err(&format!("instruction expected, got {:?}", t)),
        };
        let dd = d.unwrap_or(u32::MAX);
        let bin = match kw.as_str() {
            "add" => Some(BinOp::Add),
            "sub" => Some(BinOp::Sub),
            "mul" => Some(BinOp::Mul),
            "udiv" => Some(BinOp::UDiv),
            "sdiv" => Some(BinOp::SDiv),
            "urem" => Some(BinOp::URem),
            "srem" => Some(BinOp::SRem),
            "shl" => Some(BinOp::Shl),
            "lshr" => Some(BinOp::LShr),
            "ashr" => Some(BinOp::AShr),
            "and" => Some(BinOp::And),
            "or" => Some(BinOp::Or),
            "xor" => Some(BinOp::Xor),
            "fadd" => Some(BinOp::FAdd),
            "fsub" => Some(BinOp::FSub),
            "fmul" => Some(BinOp::FMul),
            "fdiv" => Some(BinOp::FDiv),
            "frem" => Some(BinOp::FRem),
            _ => None,
        };
        if let Some(op) = bin {
            self.flags();
            let (ty, a) = self.tyop()?;
            self.exp(',')?;
            let b = self.operand(&ty)?;
            self.skip_meta();
            return Ok(Some(I::Bin { d: dd, op, ty, a, b }));
        }
        let cast = match kw.as_str() {
            "trunc" => Some(Cast::Trunc),
            "zext" => Some(Cast::ZExt),
            "sext" => Some(Cast::SExt),
            "ptrtoint" | "ptrtoaddr" => Some(Cast::PtrToInt),
            "inttoptr" => Some(Cast::IntToPtr),
            "bitcast" => Some(Cast::Bitcast),
            "uitofp" => Some(Cast::UiToFp),
            "sitofp" => Some(Cast::SiToFp),
            "fptoui" => Some(Cast::FpToUi),
            "fptosi" => Some(Cast::FpToSi),
            "fpext" => Some(Cast::FpExt),
            "fptrunc" => Some(Cast::FpTrunc),
            _ => None,
        };
        if let Some(op) = cast {
            self.flags();
            let (from, a) = self.tyop()?;
            self.exp_id("to")?;
            let to = self.ty()?;
            self.skip_meta();
            return Ok(Some(I::Cast { d: dd, op, from, a, to }));
        }
        let r = match kw.as_str() {
            "alloca" => {
                self.eat_id("inalloca");
                let t = self.ty()?;
                let mut n = Op::K(K::Int(1));
                if self.is_p(',') {
                    let save = (self.lx.p, self.tok.clone());
                    self.adv();
                    if self.at_type() {
                        n = self.tyop()?.1;
                    } else {
                        self.lx.p = save.0;
                        self.tok = save.1;
                    }
                }
                I::Alloca { d: dd, size: t.size(), n }
            }
            "load" => {
                self.eat_id("atomic");
                self.eat_id("volatile");
                let ty = self.ty()?;
                self.exp(',')?;
                let (_, p) = self.tyop()?;
                self.ordering();
                I::Load { d: dd, ty, p }
            }
            "store" => {
                self.eat_id("atomic");
                self.eat_id("volatile");
                let (ty, v) = self.tyop()?;
                self.exp(',')?;
                let (_, p) = self.tyop()?;
                self.ordering();
                I::Store { ty, v, p }
            }
            "getelementptr" => {
                self.flags();
                let bt = self.ty()?;
                self.exp(',')?;
                let (pt, base) = self.tyop()?;
                if let Ty::Vec(..) = pt {
                    return self.err("vector gep");
                }
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur = bt;
                let mut first = true;
                while self.is_p(',') {
                    let save = (self.lx.p, self.tok.clone());
                    self.adv();
                    if self.tok == T::Bang {
                        self.lx.p = save.0;
                        self.tok = save.1;
                        break;
                    }
                    let (it, o) = self.tyop()?;
                    let scale;
                    if first {
                        scale = cur.size() as i64;
                        first = false;
                    } else if let Ty::Struct(..) = &cur {
                        match o {
                            Op::K(K::Int(i)) => {
                                off = off.wrapping_add(cur.field_off(i as usize) as i64);
                                cur = cur.elem(i as usize);
                                continue;
                            }
                            _ => return self.err("struct gep"),
                        }
                    } else {
                        let e = cur.elem(0);
                        scale = e.size() as i64;
                        cur = e;
                    }
                    match o {
                        Op::K(K::Int(v)) => {
                            let b = it.bits();
                            let sv = if b >= 64 { v as u64 as i64 } else { ((v as u64) << (64 - b)) as i64 >> (64 - b) };
                            off = off.wrapping_add(sv.wrapping_mul(scale));
                        }
                        Op::K(_) => {}
                        o => idx.push((o, it.bits(), scale)),
                    }
                }
                I::Gep { d: dd, base, off, idx }
            }
            "icmp" => {
                self.flags();
                let p = match self.adv() {
                    T::Id(s) => match s.as_str() {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        _ => return self.err("icmp pred"),
                    },
                    _ => return self.err("icmp pred"),
                };
                let (ty, a) = self.tyop()?;
                self.exp(',')?;
                let b = self.operand(&ty)?;
                I::Icmp { d: dd, p, ty, a, b }
            }
            "fcmp" => {
                self.flags();
                let p = match self.adv() {
                    T::Id(s) => s,
                    _ => return self.err("fcmp pred"),
                };
                let (ty, a) = self.tyop()?;
                self.exp(',')?;
                let b = self.operand(&ty)?;
                I::Fcmp { d: dd, p, ty, a, b }
            }
            "fneg" => {
                self.flags();
                let (ty, a) = self.tyop()?;
                I::FNeg { d: dd, ty, a }
            }
            "select" => {
                self.flags();
                let (cty, c) = self.tyop()?;
                self.exp(',')?;
                let (ty, a) = self.tyop()?;
                self.exp(',')?;
                let (_, b) = self.tyop()?;
                I::Select { d: dd, cty, c, ty, a, b }
            }
            "tail" | "musttail" | "notail" => {
                self.exp_id("call")?;
                return self.call(d, false);
            }
            "call" => return self.call(d, false),
            "invoke" => return self.call(d, true),
            "br" => {
                if self.is_id("label") {
                    I::Br(self.label()?)
                } else {
                    let (_, c) = self.tyop()?;
                    self.exp(',')?;
                    let t = self.label()?;
                    self.exp(',')?;
                    let f = self.label()?;
                    I::CondBr { c, t, f }
                }
            }
            "switch" => {
                let (ty, v) = self.tyop()?;
                self.exp(',')?;
                let def = self.label()?;
                self.exp('[')?;
                let mut cases = vec![];
                while !self.is_p(']') {
                    let (_, k) = self.typed_const()?;
                    self.exp(',')?;
                    let l = self.label()?;
                    cases.push((Self::kint(k), l));
                }
                self.adv();
                I::Switch { ty, v, def, cases }
            }
            "ret" => {
                let t = self.ty()?;
                if t == Ty::Void {
                    I::Ret { v: None }
                } else {
                    let o = self.operand(&t)?;
                    I::Ret { v: Some((t, o)) }
                }
            }
            "unreachable" => I::Unreachable,
            "resume" => {
                let _ = self.tyop()?;
                I::Unreachable
            }
            "landingpad" => {
                self.ty()?;
                loop {
                    if self.eat_id("cleanup") {
                    } else if self.eat_id("catch") || self.eat_id("filter") {
                        let _ = self.tyop()?;
                    } else {
                        break;
                    }
                }
                I::Unreachable
            }
            "extractvalue" => {
                let (_, a) = self.tyop()?;
                let mut path = vec![];
                while self.is_p(',') {
                    let save = (self.lx.p, self.tok.clone());
                    self.adv();
                    if let T::Num(_) = self.tok {
                        path.push(self.num()? as u32);
                    } else {
                        self.lx.p = save.0;
                        self.tok = save.1;
                        break;
                    }
                }
                I::Extract { d: dd, a, path }
            }
            "insertvalue" => {
                let (aty, agg) = self.tyop()?;
                self.exp(',')?;
                let (_, v) = self.tyop()?;
                let mut path = vec![];
                while self.is_p(',') {
                    let save = (self.lx.p, self.tok.clone());
                    self.adv();
                    if let T::Num(_) = self.tok {
                        path.push(self.num()? as u32);
                    } else {
                        self.lx.p = save.0;
                        self.tok = save.1;
                        break;
                    }
                }
                I::Insert { d: dd, agg, aty, v, path }
            }
            "extractelement" => {
                let (_, a) = self.tyop()?;
                self.exp(',')?;
                let (_, i) = self.tyop()?;
                I::ExtractElt { d: dd, a, i }
            }
            "insertelement" => {
                let (ty, a) = self.tyop()?;
                self.exp(',')?;
                let (_, v) = self.tyop()?;
                self.exp(',')?;
                let (_, i) = self.tyop()?;
                I::InsertElt { d: dd, ty, a, v, i }
            }
            "shufflevector" => {
                let (ty, a) = self.tyop()?;
                self.exp(',')?;
                let (_, b) = self.tyop()?;
                self.exp(',')?;
                let (_, m) = self.typed_const()?;
                let mask = match m {
                    K::Agg(l) => l
                        .iter()
                        .map(|k| match k {
                            K::Int(v) => *v as i64,
                            _ => -1,
                        })
                        .collect(),
                    _ => return self.err("shuffle mask"),
                };
                I::Shuffle { d: dd, ty, a, b, mask }
            }
            "atomicrmw" => {
                self.eat_id("volatile");
                let op = match self.adv() {
                    T::Id(s) => s,
                    _ => return self.err("rmw op"),
                };
                let (_, p) = self.tyop()?;
                self.exp(',')?;
                let (ty, v) = self.tyop()?;
                self.ordering();
                I::AtomicRmw { d: dd, op, ty, p, v }
            }
            "cmpxchg" => {
                self.eat_id("weak");
                self.eat_id("volatile");
                let (_, p) = self.tyop()?;
                self.exp(',')?;
                let (ty, c) = self.tyop()?;
                self.exp(',')?;
                let (_, n) = self.tyop()?;
                self.ordering();
                I::CmpXchg { d: dd, ty, p, c, n }
            }
            "fence" => {
                self.ordering();
                I::Fence
            }
            "freeze" => {
                let (_, a) = self.tyop()?;
                I::Freeze { d: dd, a }
            }
            _ => return self.err(&format!("instruction {}", kw)),
        };
        self.skip_meta();
        Ok(Some(r))
    }

    fn call(&mut self, d: Option<u32>, invoke: bool) -> R<Option<I>> {
        self.skip_ret_attrs();
        let ret = self.ty()?;
        if self.is_p('(') {
            self.skip_balanced();
        }
        let f = match self.adv() {
            T::Glob(n) => {
                if let Some(f) = self.func_id.get(&n) {
                    Callee::Func(*f)
                } else {
                    let l = self.externs.len() as u32;
                    let id = match self.extern_id.get(&n) {
                        Some(x) => *x,
                        None => {
                            self.extern_id.insert(n.clone(), l);
                            self.externs.push(n);
                            l
                        }
                    };
                    Callee::Extern(id)
                }
            }
            T::Loc(n) => Callee::Indirect(Op::Reg(self.reg(&n))),
            T::Id(s) if s == "asm" => {
                while !self.is_p('(') {
                    self.adv();
                }
                Callee::Asm
            }
            T::Id(s) if s == "inttoptr" => {
                self.skip_balanced();
                Callee::Indirect(Op::K(K::Int(0)))
            }
            t => return self.err(&format!("callee {:?}", t)),
        };
        self.exp('(')?;
        let mut args = vec![];
        while !self.is_p(')') {
            let t = self.ty()?;
            if t == Ty::Other {
                // metadata argument
                let mut depth = 0;
                loop {
                    match &self.tok {
                        T::P(',') if depth == 0 => break,
                        T::P(')') if depth == 0 => break,
                        T::P('(') | T::P('{') => depth += 1,
                        T::P(')') | T::P('}') => depth -= 1,
                        T::Eof => return self.err("eof"),
                        _ => {}
                    }
                    self.adv();
                }
                args.push((Ty::Other, Op::K(K::Undef)));
            } else {
                self.skip_attrs();
                let o = self.operand(&t)?;
                args.push((t, o));
            }
            if !self.eat_p(',') {
                break;
            }
        }
        self.exp(')')?;
        let mut normal = None;
        // fn attrs / bundles
        loop {
            match &self.tok {
                T::Hash(s) if !s.starts_with("dbg") => {
                    self.adv();
                }
                T::P('[') => {
                    while !self.is_p(']') {
                        self.adv();
                    }
                    self.adv();
                }
                T::Id(s) if !invoke || s != "to" => {
                    // attribute keyword on the same line only
                    if matches!(s.as_str(), "nounwind" | "noreturn" | "cold" | "noinline" | "alwaysinline" | "willreturn" | "builtin" | "nobuiltin" | "mustprogress" | "memory") {
                        self.adv();
                        if self.is_p('(') {
                            self.skip_balanced();
                        }
                    } else {
                        break;
                    }
                }
                _ => break,
            }
        }
        if invoke {
            self.exp_id("to")?;
            normal = Some(self.label()?);
            self.exp_id("unwind")?;
            self.label()?;
        }
        self.skip_meta();
        Ok(Some(I::Call { d, f, args, ret, normal }))
    }
}

fn fill(ty: &Ty, k: &K, out: &mut [u8]) {
    match ty {
        Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
            if let K::Agg(l) = k {
                for i in 0..ty.n_elems() {
                    let o = ty.field_off(i) as usize;
                    fill(&ty.elem(i), &l[i], &mut out[o..]);
                }
            }
        }
        _ => {
            if let K::Int(v) = k {
                let n = ty.store_size() as usize;
                for i in 0..n {
                    out[i] = (v >> (8 * i)) as u8;
                }
            }
        }
    }
}

pub fn parse(text: &[u8]) -> R<Module> {
    // split into top-level items by line starts
    let mut items: Vec<(&[u8], u8)> = vec![];
    let mut pos = 0;
    let n = text.len();
    while pos < n {
        let eol = text[pos..].iter().position(|&c| c == b'\n').map(|x| pos + x).unwrap_or(n);
        let line = &text[pos..eol];
        if line.starts_with(b"define ") {
            // until a line that is exactly "}"
            let mut q = eol + 1;
            loop {
                let e = text[q..].iter().position(|&c| c == b'\n').map(|x| q + x).unwrap_or(n);
                let l = &text[q..e];
                q = e + 1;
                if l == b"}" || q >= n {
                    break;
                }
            }
            items.push((&text[pos..q.min(n)], b'f'));
            pos = q;
            continue;
        } else if line.starts_with(b"declare ") {
            items.push((line, b'd'));
        } else if line.starts_with(b"@") {
            items.push((line, b'g'));
        } else if line.starts_with(b"%") {
            items.push((line, b't'));
        }
        pos = eol + 1;
    }
    let mut p = Parser::new(b"");
    let mut funcs = vec![];
    let mut func_by_name = HashMap::new();
    let name_of = |l: &[u8]| -> String {
        let at = l.iter().position(|&c| c == b'@').unwrap();
        let mut lx = Lex { s: l, p: at + 1 };
        lx.name()
    };
    // types (may refer to each other: iterate)
    let mut pending: Vec<&[u8]> = items.iter().filter(|x| x.1 == b't').map(|x| x.0).collect();
    for _ in 0..20 {
        let mut rest = vec![];
        for l in pending {
            p.sub(l);
            let n = match p.adv() {
                T::Loc(n) => n,
                _ => continue,
            };
            p.adv();
            p.adv(); // = type
            match p.ty() {
                Ok(t) => {
                    p.types.insert(n, t);
                }
                Err(_) => rest.push(l),
            }
        }
        pending = rest;
        if pending.is_empty() {
            break;
        }
    }
    for (s, k) in &items {
        match k {
            b'f' => {
                let n = name_of(s);
                let id = funcs.len() as u32;
                funcs.push(Func { name: n.clone(), params: vec![], nregs: 0, blocks: vec![] });
                p.func_id.insert(n.clone(), id);
                func_by_name.insert(n, id);
            }
            b'd' => {
                let n = name_of(s);
                let id = p.externs.len() as u32;
                p.externs.push(n.clone());
                p.extern_id.insert(n, id);
            }
            _ => {}
        }
    }
    let mut globals: Vec<Global> = vec![];
    let mut aliases = vec![];
    let mut gl = vec![];
    for (s, k) in &items {
        if *k != b'g' {
            continue;
        }
        let n = name_of(s);
        // find whether alias
        p.sub(s);
        p.adv();
        p.adv();
        let mut external = false;
        let mut kind = "";
        loop {
            match &p.tok {
                T::Id(x) => match x.as_str() {
                    "global" => {
                        kind = "g";
                        break;
                    }
                    "constant" => {
                        kind = "c";
                        break;
                    }
                    "alias" => {
                        kind = "a";
                        break;
                    }
                    "ifunc" => break,
                    "external" | "extern_weak" => {
                        external = true;
                        p.adv();
                    }
                    _ => {
                        p.adv();
                        if p.is_p('(') {
                            p.skip_balanced();
                        }
                    }
                },
                T::Eof => break,
                _ => {
                    p.adv();
                }
            }
        }
        if kind == "a" {
            aliases.push((n, *s));
            continue;
        }
        let id = globals.len() as u32;
        p.glob_addr.insert(n.clone(), if external { 0 } else { global_addr(id) });
        globals.push(Global { name: n, size: 0, bytes: vec![], constant: kind == "c", external });
        gl.push((id, *s));
    }
    for (n, s) in aliases {
        let last_at = s.iter().rposition(|&c| c == b'@').unwrap();
        let mut lx = Lex { s, p: last_at + 1 };
        let target = lx.name();
        if let Some(f) = p.func_id.get(&target).cloned() {
            p.func_id.insert(n.clone(), f);
            func_by_name.insert(n, f);
        } else if let Some(a) = p.glob_addr.get(&target).cloned() {
            p.glob_addr.insert(n, a);
        }
    }
    for (id, s) in gl {
        p.sub(s);
        while !(p.is_id("global") || p.is_id("constant")) {
            p.adv();
        }
        p.adv();
        let t = p.ty()?;
        let size = t.size();
        let mut bytes = vec![0u8; size as usize];
        if !globals[id as usize].external {
            let k = p.const_op(&t)?;
            fill(&t, &k, &mut bytes);
        }
        globals[id as usize].size = size;
        globals[id as usize].bytes = bytes;
    }
    let mut fi = 0;
    for (s, k) in &items {
        if *k != b'f' {
            continue;
        }
        p.sub(s);
        p.adv(); // define
        let mut f = std::mem::replace(&mut funcs[fi], Func { name: String::new(), params: vec![], nregs: 0, blocks: vec![] });
        let nm = f.name.clone();
        p.func(&mut f).map_err(|e| format!("in {}: {}", nm, e))?;
        funcs[fi] = f;
        fi += 1;
    }
    let mut locs = HashMap::new();
    let mut scopes = HashMap::new();
    let mut files = HashMap::new();
    for l in text.split(|c| *c == b'\n') {
        if l.first() != Some(&b'!') {
            continue;
        }
        let l = String::from_utf8_lossy(l);
        let l: &str = &l;
        let (id, rest) = match l.split_once(" = ") {
            Some(x) => x,
            None => continue,
        };
        let id: u32 = match id[1..].parse() {
            Ok(i) => i,
            Err(_) => continue,
        };
        let rest = rest.strip_prefix("distinct ").unwrap_or(rest);
        if rest.starts_with("!DILocation(") {
            let line = field(rest, "line: ").and_then(|x| x.parse().ok()).unwrap_or(0);
            locs.insert(id, (line, mref(field(rest, "scope: ")), mref(field(rest, "inlinedAt: "))));
        } else if rest.starts_with("!DISubprogram(") {
            let ln = quoted_field(rest, "linkageName: ");
            let n = if ln.is_empty() { quoted_field(rest, "name: ") } else { ln };
            scopes.insert(id, (0, mref(field(rest, "file: ")), n));
        } else if rest.starts_with("!DILexicalBlock") {
            scopes.insert(id, (mref(field(rest, "scope: ")), mref(field(rest, "file: ")), String::new()));
        } else if rest.starts_with("!DIFile(") {
            let f = quoted_field(rest, "filename: ");
            let d = quoted_field(rest, "directory: ");
            files.insert(id, if f.starts_with('/') { f } else { format!("{}/{}", d, f) });
        }
    }
    Ok(Module { funcs, externs: p.externs, globals, func_by_name, locs, scopes, files })
}
