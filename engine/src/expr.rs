//! Hash-consed bit-vector expressions (width 1..=128) over 8-bit input variables.
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Dummy,
    Const, // a = index into consts
    Var,   // a = index
    Not,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Eq,
    Ult,
    Slt,
    Concat,  // a = high, b = low
    Extract, // a, b = low bit
    ZExt,
    SExt,
    Ite,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: E,
    pub b: E,
    pub c: E,
}

pub struct Arena {
    pub n: Vec<Node>,
    pub consts: Vec<u128>,
    lo: Vec<u128>,
    hi: Vec<u128>,
    kz: Vec<u128>, // bits known to be zero
    pub sup: Vec<u32>,
    map: HashMap<Node, E, Fx>,
    cmap: HashMap<(u128, u8), E, Fx>,
    pub sets: Vec<Vec<u64>>,
    smap: HashMap<Vec<u64>, u32, Fx>,
    umemo: HashMap<(u32, u32), u32, Fx>,
    xmemo: HashMap<(E, u32, u32), E, Fx>,
    // evaluation memo
    ev: Vec<(u32, u128)>,
    gen: u32,
    ev_key: usize,
}

#[derive(Default, Clone, Copy)]
pub struct FxH(u64);
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64)
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
    fn write_isize(&mut self, v: isize) {
        self.write_u64(v as u64)
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95);
    }
}
pub type Fx = std::hash::BuildHasherDefault<FxH>;

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}
/// concrete semantics shared by the executor and the simplifier
pub fn cbin(op: Op, a: u128, b: u128, w: u32) -> u128 {
    let m = mask(w);
    let r = match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            if b == 0 {
                if sx(a, w) < 0 {
                    1
                } else {
                    m
                }
            } else {
                sx(a, w).wrapping_div(sx(b, w)) as u128
            }
        }
        Op::SRem => {
            if b == 0 {
                a
            } else {
                sx(a, w).wrapping_rem(sx(b, w)) as u128
            }
        }
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            (sx(a, w) >> s) as u128
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Slt => (sx(a, w) < sx(b, w)) as u128,
        _ => unreachable!(),
    };
    match op {
        Op::Eq | Op::Ult | Op::Slt => r,
        _ => r & m,
    }
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena {
            n: vec![],
            consts: vec![],
            lo: vec![],
            hi: vec![],
            kz: vec![],
            sup: vec![],
            map: HashMap::default(),
            cmap: HashMap::default(),
            sets: vec![vec![]],
            smap: HashMap::default(),
            umemo: HashMap::default(),
            xmemo: HashMap::default(),
            ev: vec![],
            gen: 1,
            ev_key: 0,
        };
        a.smap.insert(vec![], 0);
        a.n.push(Node { op: Op::Dummy, w: 0, a: 0, b: 0, c: 0 });
        a.lo.push(0);
        a.hi.push(0);
        a.kz.push(0);
        a.sup.push(0);
        a.ev.push((0, 0));
        a
    }
    pub fn w(&self, e: E) -> u32 {
        self.n[e as usize].w as u32
    }
    pub fn cv(&self, e: E) -> Option<u128> {
        let n = &self.n[e as usize];
        if n.op == Op::Const {
            Some(self.consts[n.a as usize])
        } else {
            None
        }
    }
    pub fn k(&mut self, v: u128, w: u32) -> E {
        let v = v & mask(w);
        if let Some(e) = self.cmap.get(&(v, w as u8)) {
            return *e;
        }
        let ci = self.consts.len() as u32;
        self.consts.push(v);
        let e = self.push(Node { op: Op::Const, w: w as u8, a: ci, b: 0, c: 0 }, v, v, !v & mask(w), 0);
        self.cmap.insert((v, w as u8), e);
        e
    }
    fn push(&mut self, n: Node, lo: u128, hi: u128, kz: u128, sup: u32) -> E {
        let e = self.n.len() as E;
        self.n.push(n);
        self.lo.push(lo);
        self.hi.push(hi);
        self.kz.push(kz);
        self.sup.push(sup);
        self.ev.push((0, 0));
        e
    }
    pub fn set_id(&mut self, s: Vec<u64>) -> u32 {
        if let Some(i) = self.smap.get(&s) {
            return *i;
        }
        let i = self.sets.len() as u32;
        self.sets.push(s.clone());
        self.smap.insert(s, i);
        i
    }
    pub fn union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let k = if a < b { (a, b) } else { (b, a) };
        if let Some(u) = self.umemo.get(&k) {
            return *u;
        }
        let (x, y) = (&self.sets[a as usize], &self.sets[b as usize]);
        let n = x.len().max(y.len());
        let mut v = vec![0u64; n];
        for i in 0..x.len() {
            v[i] |= x[i];
        }
        for i in 0..y.len() {
            v[i] |= y[i];
        }
        let r = self.set_id(v);
        self.umemo.insert(k, r);
        r
    }
    pub fn intersects(&self, a: u32, b: u32) -> bool {
        self.sets[a as usize].iter().zip(self.sets[b as usize].iter()).any(|(x, y)| x & y != 0)
    }
    pub fn var(&mut self, i: u32) -> E {
        let n = Node { op: Op::Var, w: 8, a: i, b: 0, c: 0 };
        if let Some(e) = self.map.get(&n) {
            return *e;
        }
        let mut s = vec![0u64; i as usize / 64 + 1];
        s[i as usize / 64] |= 1 << (i % 64);
        let sid = self.set_id(s);
        let e = self.push(n, 0, 255, 0, sid);
        self.map.insert(n, e);
        e
    }
    fn mk(&mut self, op: Op, w: u32, a: E, b: E, c: E) -> E {
        let n = Node { op, w: w as u8, a, b, c };
        if let Some(e) = self.map.get(&n) {
            return *e;
        }
        let m = mask(w);
        let has_b = !matches!(op, Op::Not | Op::Extract | Op::ZExt | Op::SExt);
        let mut sup = self.sup[a as usize];
        if has_b {
            sup = self.union(sup, self.sup[b as usize]);
        }
        if op == Op::Ite {
            sup = self.union(sup, self.sup[c as usize]);
        }
        let (ai, bi, ci) = (a as usize, b as usize, c as usize);
        let (la, ha, za) = (self.lo[ai], self.hi[ai], self.kz[ai]);
        let (lb, hb, zb) = if has_b { (self.lo[bi], self.hi[bi], self.kz[bi]) } else { (0, 0, 0) };
        let wa = self.w(a);
        let (mut lo, mut hi, mut kz) = (0u128, m, 0u128);
        match op {
            Op::Not => {
                lo = !ha & m;
                hi = !la & m;
            }
            Op::Add => {
                if let Some(s) = ha.checked_add(hb) {
                    if s <= m {
                        lo = la + lb;
                        hi = s;
                    } else if w < 127 && la + lb > m {
                        // wraps in every case
                        lo = la + lb - m - 1;
                        hi = s - m - 1;
                    }
                }
                // trailing zeros
                let t = (!za & m).trailing_zeros().min((!zb & m).trailing_zeros());
                if t > 0 {
                    kz = mask(t.min(w)) & m;
                }
            }
            Op::Sub => {
                if la >= hb {
                    lo = la - hb;
                    hi = ha - lb;
                } else if ha < lb && w < 127 {
                    lo = la + m + 1 - hb;
                    hi = ha + m + 1 - lb;
                }
                let t = (!za & m).trailing_zeros().min((!zb & m).trailing_zeros());
                if t > 0 {
                    kz = mask(t.min(w)) & m;
                }
            }
            Op::Mul => {
                if let Some(s) = ha.checked_mul(hb) {
                    if s <= m {
                        lo = la * lb;
                        hi = s;
                    }
                }
                let t = (!za & m).trailing_zeros().min(w) + (!zb & m).trailing_zeros().min(w);
                if t > 0 {
                    kz = mask(t.min(w)) & m;
                }
            }
            Op::UDiv => {
                if lb > 0 {
                    lo = la / hb;
                    hi = ha / lb;
                }
            }
            Op::URem => {
                if lb > 0 {
                    hi = ha.min(hb - 1);
                }
            }
            Op::LShr => {
                if self.cv(b).is_none() {
                    hi = ha;
                }
            }
            Op::And => {
                kz = (za | zb) & m;
                hi = ha.min(hb);
            }
            Op::Or => {
                kz = za & zb;
                lo = la.max(lb);
            }
            Op::Xor => {
                kz = za & zb;
            }
            Op::Eq | Op::Ult | Op::Slt => {}
            Op::Concat => {
                let wb = self.w(b);
                lo = la << wb | lb;
                hi = ha << wb | hb;
                kz = za << wb | zb;
            }
            Op::Extract => {
                let l = b;
                kz = (za >> l) & m;
                if ha >> l <= m {
                    hi = ha >> l;
                    lo = la >> l;
                }
            }
            Op::ZExt => {
                lo = la;
                hi = ha;
                kz = za | (m & !mask(wa));
            }
            Op::SExt => {
                if ha >> (wa - 1) == 0 {
                    lo = la;
                    hi = ha;
                    kz = za | (m & !mask(wa));
                } else {
                    kz = za & mask(wa);
                }
            }
            Op::Ite => {
                lo = lb.min(self.lo[ci]);
                hi = hb.max(self.hi[ci]);
                kz = zb & self.kz[ci];
            }
            _ => {}
        }
        // combine
        hi = hi.min(m & !kz);
        let topz = 128 - hi.leading_zeros();
        kz |= m & !mask(topz);
        let e = self.push(n, lo, hi, kz, sup);
        self.map.insert(n, e);
        e
    }
    pub fn lo(&self, e: E) -> u128 {
        self.lo[e as usize]
    }
    pub fn hi(&self, e: E) -> u128 {
        self.hi[e as usize]
    }
    pub fn kz(&self, e: E) -> u128 {
        self.kz[e as usize]
    }
    fn nd(&self, e: E) -> Node {
        self.n[e as usize]
    }

    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        if let Some(v) = self.cv(a) {
            return self.k(!v, w);
        }
        let n = self.nd(a);
        if n.op == Op::Not {
            return n.a;
        }
        if n.op == Op::Ite && w == 1 && (self.cv(n.b).is_some() || self.cv(n.c).is_some()) {
            let x = self.not(n.b);
            let y = self.not(n.c);
            return self.ite(n.a, x, y);
        }
        self.mk(Op::Not, w, a, 0, 0)
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        // these are pushed down: once for each shared term
        if matches!(self.n[a as usize].op, Op::And | Op::Or | Op::Xor | Op::Not | Op::Add | Op::Sub | Op::Mul | Op::Ite) {
            if let Some(e) = self.xmemo.get(&(a, lo, w)) {
                return *e;
            }
            let e = self.extract_new(a, lo, w);
            self.xmemo.insert((a, lo, w), e);
            return e;
        }
        self.extract_new(a, lo, w)
    }
    fn extract_new(&mut self, a: E, lo: u32, w: u32) -> E {
        let wa = self.w(a);
        debug_assert!(lo + w <= wa);
        if w == wa {
            return a;
        }
        if let Some(v) = self.cv(a) {
            return self.k(v >> lo, w);
        }
        if (self.kz(a) >> lo) & mask(w) == mask(w) {
            return self.k(0, w);
        }
        let n = self.nd(a);
        match n.op {
            Op::Extract => return self.extract(n.a, n.b + lo, w),
            Op::Concat => {
                let wb = self.w(n.b);
                if lo >= wb {
                    return self.extract(n.a, lo - wb, w);
                }
                if lo + w <= wb {
                    return self.extract(n.b, lo, w);
                }
                let l = self.extract(n.b, lo, wb - lo);
                let h = self.extract(n.a, 0, lo + w - wb);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let wi = self.w(n.a);
                if lo >= wi {
                    return self.k(0, w);
                }
                if lo + w <= wi {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, wi - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let wi = self.w(n.a);
                if lo + w <= wi {
                    return self.extract(n.a, lo, w);
                }
                if lo < wi {
                    let x = self.extract(n.a, lo, wi - lo);
                    return self.sext(x, w);
                }
                let x = self.extract(n.a, wi - 1, 1);
                return self.sext(x, w);
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Not => {
                let x = self.extract(n.a, lo, w);
                return self.not(x);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            Op::Ite => {
                let x = self.extract(n.b, lo, w);
                let y = self.extract(n.c, lo, w);
                return self.ite(n.a, x, y);
            }
            _ => {}
        }
        self.mk(Op::Extract, w, a, lo, 0)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if w == wa {
            return a;
        }
        debug_assert!(w > wa);
        if let Some(v) = self.cv(a) {
            return self.k(v, w);
        }
        let n = self.nd(a);
        match n.op {
            Op::ZExt => return self.zext(n.a, w),
            Op::Ite if self.cv(n.b).is_some() || self.cv(n.c).is_some() => {
                let x = self.zext(n.b, w);
                let y = self.zext(n.c, w);
                return self.ite(n.a, x, y);
            }
            _ => {}
        }
        self.mk(Op::ZExt, w, a, 0, 0)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if w == wa {
            return a;
        }
        if let Some(v) = self.cv(a) {
            return self.k(sx(v, wa) as u128, w);
        }
        if self.kz(a) >> (wa - 1) & 1 == 1 {
            return self.zext(a, w);
        }
        let n = self.nd(a);
        if n.op == Op::SExt {
            return self.sext(n.a, w);
        }
        if n.op == Op::Ite && (self.cv(n.b).is_some() || self.cv(n.c).is_some()) {
            let x = self.sext(n.b, w);
            let y = self.sext(n.c, w);
            return self.ite(n.a, x, y);
        }
        if wa == 1 {
            let x = self.k(u128::MAX, w);
            let y = self.k(0, w);
            return self.ite(a, x, y);
        }
        self.mk(Op::SExt, w, a, 0, 0)
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (wh, wl) = (self.w(h), self.w(l));
        let w = wh + wl;
        debug_assert!(w <= 128);
        if let (Some(x), Some(y)) = (self.cv(h), self.cv(l)) {
            return self.k(x << wl | y, w);
        }
        if self.cv(h) == Some(0) {
            return self.zext(l, w);
        }
        let nh = self.nd(h);
        let nl = self.nd(l);
        if nh.op == Op::ZExt {
            // concat(zext(x), l) = zext(concat(x, l))
            let c = self.concat(nh.a, l);
            return self.zext(c, w);
        }
        if nh.op == Op::Concat {
            let c = self.concat(nh.b, l);
            return self.concat(nh.a, c);
        }
        if nh.op == Op::Extract {
            if nl.op == Op::Extract && nl.a == nh.a && nh.b == nl.b + wl {
                return self.extract(nh.a, nl.b, w);
            }
            if nh.b == wl && nh.a == l {
                return self.extract(l, 0, w);
            }
            if nl.op == Op::Concat {
                let nlh = self.nd(nl.a);
                let wlh = self.w(nl.a);
                if nlh.op == Op::Extract && nlh.a == nh.a && nh.b == nlh.b + wlh {
                    let m = self.extract(nh.a, nlh.b, wh + wlh);
                    return self.concat(m, nl.b);
                }
            }
        }
        // adjacent extracts where the low one was simplified to the whole low part cannot be seen; constants merge
        if let Some(x) = self.cv(h) {
            if nl.op == Op::Concat {
                if let Some(y) = self.cv(nl.a) {
                    let wy = self.w(nl.a);
                    let c = self.k(x << wy | y, wh + wy);
                    return self.concat(c, nl.b);
                }
            }
        }
        // concat(ite(c,a,b), ite(c,d,e)) = ite(c, concat, concat): keeps stored aggregates recombined
        if nh.op == Op::Ite && nl.op == Op::Ite && nh.a == nl.a {
            let x = self.concat(nh.b, nl.b);
            let y = self.concat(nh.c, nl.c);
            return self.ite(nh.a, x, y);
        }
        if nh.op == Op::Ite && self.cv(l).is_some() && self.cv(nh.b).is_some() && self.cv(nh.c).is_some() {
            let x = self.concat(nh.b, l);
            let y = self.concat(nh.c, l);
            return self.ite(nh.a, x, y);
        }
        self.mk(Op::Concat, w, h, l, 0)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(v) = self.cv(c) {
            return if v != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let nc = self.nd(c);
        if nc.op == Op::Not {
            return self.ite(nc.a, b, a);
        }
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(_)) => return c,
                (Some(0), Some(_)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(Op::And, n, b);
                }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(Op::Or, n, a);
                }
                _ => {}
            }
        }
        let na = self.nd(a);
        let nb = self.nd(b);
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        if nb.op == Op::Ite && nb.b == a {
            // ite(c, a, ite(d, a, x)) = ite(c|d, a, x)
            let o = self.bin(Op::Or, c, nb.a);
            return self.ite(o, a, nb.c);
        }
        self.mk(Op::Ite, w, c, a, b)
    }
    fn contig(v: u128) -> Option<(u32, u32)> {
        // v = ones on [lo, lo+n)
        if v == 0 {
            return None;
        }
        let lo = v.trailing_zeros();
        let x = v >> lo;
        if x & x.wrapping_add(1) == 0 {
            Some((lo, 128 - x.leading_zeros()))
        } else {
            None
        }
    }
    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let (ca, cb) = (self.cv(a), self.cv(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let r = cbin(op, x, y, w);
            return match op {
                Op::Eq | Op::Ult | Op::Slt => self.k(r, 1),
                _ => self.k(r, w),
            };
        }
        let m = mask(w);
        match op {
            Op::Add => {
                if ca.is_some() {
                    return self.bin(op, b, a);
                }
                let na = self.nd(a);
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if na.op == Op::Add {
                        if let Some(x) = self.cv(na.b) {
                            let s = self.k(x.wrapping_add(y), w);
                            return self.bin(Op::Add, na.a, s);
                        }
                    }
                    if w == 1 {
                        return self.not(a);
                    }
                    if na.op == Op::Sub {
                        if let Some(x) = self.cv(na.a) {
                            let s = self.k(x.wrapping_add(y), w);
                            return self.bin(Op::Sub, s, na.b);
                        }
                    }
                    if na.op == Op::Ite && self.cv(na.b).is_some() && self.cv(na.c).is_some() {
                        let x = self.bin(Op::Add, na.b, b);
                        let y = self.bin(Op::Add, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                } else {
                    // pull constants out
                    if na.op == Op::Add {
                        if let Some(_) = self.cv(na.b) {
                            let s = self.bin(Op::Add, na.a, b);
                            return self.bin(Op::Add, s, na.b);
                        }
                    }
                    let nb = self.nd(b);
                    if nb.op == Op::Add {
                        if let Some(_) = self.cv(nb.b) {
                            let s = self.bin(Op::Add, a, nb.a);
                            return self.bin(Op::Add, s, nb.b);
                        }
                    }
                    if na.op == Op::Sub && na.b == b {
                        return na.a;
                    }
                    if nb.op == Op::Sub && nb.b == a {
                        return nb.a;
                    }
                    if self.kz(a) | self.kz(b) == m {
                        return self.bin(Op::Or, a, b);
                    }
                }
            }
            Op::Sub => {
                if a == b {
                    return self.k(0, w);
                }
                if let Some(y) = cb {
                    let nb = self.k(y.wrapping_neg(), w);
                    return self.bin(Op::Add, a, nb);
                }
                let na = self.nd(a);
                let nb = self.nd(b);
                if na.op == Op::Add && self.cv(na.b).is_some() {
                    let s = self.bin(Op::Sub, na.a, b);
                    return self.bin(Op::Add, s, na.b);
                }
                if nb.op == Op::Add {
                    if let Some(y) = self.cv(nb.b) {
                        let s = self.bin(Op::Sub, a, nb.a);
                        let k = self.k(y.wrapping_neg(), w);
                        return self.bin(Op::Add, s, k);
                    }
                }
                if na.op == Op::Add {
                    if na.a == b {
                        return na.b;
                    }
                    if na.b == b {
                        return na.a;
                    }
                }
                if w == 1 {
                    return self.bin(Op::Xor, a, b);
                }
            }
            Op::Mul => {
                if ca.is_some() {
                    return self.bin(op, b, a);
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return b;
                    }
                    if y == 1 {
                        return a;
                    }
                    if y.is_power_of_two() {
                        let s = self.k(y.trailing_zeros() as u128, w);
                        return self.bin(Op::Shl, a, s);
                    }
                }
            }
            Op::UDiv => {
                if let Some(y) = cb {
                    if y == 1 {
                        return a;
                    }
                    if y != 0 && y.is_power_of_two() {
                        let s = self.k(y.trailing_zeros() as u128, w);
                        return self.bin(Op::LShr, a, s);
                    }
                    if y != 0 && self.hi(a) < y {
                        return self.k(0, w);
                    }
                    if y != 0 && self.hi(a) / y - self.lo(a) / y <= 1 {
                        // the range of the dividend leaves one or two quotients
                        let (q0, q1) = (self.lo(a) / y, self.hi(a) / y);
                        let k0 = self.k(q0, w);
                        if q0 == q1 {
                            return k0;
                        }
                        let k1 = self.k(q1, w);
                        let t = self.k(q1 * y, w);
                        let c = self.ult(a, t);
                        return self.ite(c, k0, k1);
                    }
                    // narrow
                    if y != 0 {
                        let nbits = (128 - self.hi(a).leading_zeros()).max(128 - y.leading_zeros());
                        if nbits < w {
                            let x = self.extract(a, 0, nbits);
                            let k = self.k(y, nbits);
                            let r = self.bin(Op::UDiv, x, k);
                            return self.zext(r, w);
                        }
                    }
                }
            }
            Op::URem => {
                if let Some(y) = cb {
                    if y == 1 {
                        return self.k(0, w);
                    }
                    if y != 0 && y.is_power_of_two() {
                        let s = self.k(y - 1, w);
                        return self.bin(Op::And, a, s);
                    }
                    if y != 0 && self.hi(a) < y {
                        return a;
                    }
                    if y != 0 && self.hi(a) / y - self.lo(a) / y <= 1 {
                        let (q0, q1) = (self.lo(a) / y, self.hi(a) / y);
                        let k0 = self.k(q0 * y, w);
                        let r0 = self.bin(Op::Sub, a, k0);
                        if q0 == q1 {
                            return r0;
                        }
                        let k1 = self.k(q1 * y, w);
                        let r1 = self.bin(Op::Sub, a, k1);
                        let c = self.ult(a, k1);
                        return self.ite(c, r0, r1);
                    }
                    if y != 0 {
                        let nbits = (128 - self.hi(a).leading_zeros()).max(128 - y.leading_zeros());
                        if nbits < w {
                            let x = self.extract(a, 0, nbits);
                            let k = self.k(y, nbits);
                            let r = self.bin(Op::URem, x, k);
                            return self.zext(r, w);
                        }
                    }
                }
            }
            Op::Shl => {
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y >= w as u128 {
                        return self.k(0, w);
                    }
                    let y = y as u32;
                    let x = self.extract(a, 0, w - y);
                    let z = self.k(0, y);
                    return self.concat(x, z);
                }
            }
            Op::LShr => {
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y >= w as u128 {
                        return self.k(0, w);
                    }
                    let y = y as u32;
                    let x = self.extract(a, y, w - y);
                    return self.zext(x, w);
                }
            }
            Op::AShr => {
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    let y = if y >= w as u128 { w - 1 } else { y as u32 };
                    let x = self.extract(a, y, w - y);
                    return self.sext(x, w);
                }
                if self.kz(a) >> (w - 1) & 1 == 1 {
                    return self.bin(Op::LShr, a, b);
                }
            }
            Op::And => {
                if ca.is_some() {
                    return self.bin(op, b, a);
                }
                if a == b {
                    return a;
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return b;
                    }
                    if y == m || (!y & m) & !self.kz(a) == 0 {
                        return a;
                    }
                    if y & !self.kz(a) & m == 0 {
                        return self.k(0, w);
                    }
                    if w > 1 {
                        // split into runs of the mask
                        let mut runs = vec![];
                        let mut i = 0;
                        while i < w {
                            let bit = y >> i & 1;
                            let s = i;
                            while i < w && y >> i & 1 == bit {
                                i += 1;
                            }
                            runs.push((s, i - s, bit));
                        }
                        if runs.len() <= 5 {
                            let mut acc: Option<E> = None;
                            for (s, n, bit) in runs {
                                let p = if bit == 1 { self.extract(a, s, n) } else { self.k(0, n) };
                                acc = Some(match acc {
                                    None => p,
                                    Some(l) => self.concat(p, l),
                                });
                            }
                            return acc.unwrap();
                        }
                    }
                } else {
                    if self.kz(a) | self.kz(b) == m {
                        return self.k(0, w);
                    }
                    if w == 1 {
                        let na = self.nd(a);
                        let nb = self.nd(b);
                        if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
                            return self.k(0, 1);
                        }
                    }
                    let (na, nb) = (self.nd(a), self.nd(b));
                    if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                        let x = self.bin(op, na.a, nb.a);
                        return self.zext(x, w);
                    }
                }
            }
            Op::Or => {
                if ca.is_some() {
                    return self.bin(op, b, a);
                }
                if a == b {
                    return a;
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y == m {
                        return b;
                    }
                }
                if w == 1 {
                    let na = self.nd(a);
                    let nb = self.nd(b);
                    if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
                        return self.k(1, 1);
                    }
                } else {
                    // disjoint or -> concatenation
                    let (za, zb) = (self.kz(a), self.kz(b));
                    let ones = cb.unwrap_or(0);
                    if za | zb == m || cb.is_some() {
                        let mut acc: Option<E> = None;
                        let mut i = 0;
                        let mut cnt = 0;
                        let kind = |i: u32| -> u8 {
                            if ones >> i & 1 == 1 {
                                2
                            } else if zb >> i & 1 == 1 {
                                0
                            } else {
                                1
                            }
                        };
                        while i < w {
                            let k = kind(i);
                            let s = i;
                            while i < w && kind(i) == k {
                                i += 1;
                            }
                            cnt += 1;
                            let p = match k {
                                2 => self.k(u128::MAX, i - s),
                                0 => self.extract(a, s, i - s),
                                _ => self.extract(b, s, i - s),
                            };
                            acc = Some(match acc {
                                None => p,
                                Some(l) => self.concat(p, l),
                            });
                        }
                        let _ = cnt;
                        return acc.unwrap();
                    }
                    let (na, nb) = (self.nd(a), self.nd(b));
                    if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                        let x = self.bin(op, na.a, nb.a);
                        return self.zext(x, w);
                    }
                }
            }
            Op::Xor => {
                if ca.is_some() {
                    return self.bin(op, b, a);
                }
                if a == b {
                    return self.k(0, w);
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y == m {
                        return self.not(a);
                    }
                    let na = self.nd(a);
                    if na.op == Op::Xor {
                        if let Some(x) = self.cv(na.b) {
                            let k = self.k(x ^ y, w);
                            return self.bin(Op::Xor, na.a, k);
                        }
                    }
                    if na.op == Op::ZExt {
                        let wi = self.w(na.a);
                        if y & !mask(wi) == 0 {
                            let k = self.k(y, wi);
                            let x = self.bin(Op::Xor, na.a, k);
                            return self.zext(x, w);
                        }
                    }
                }
                let (na, nb) = (self.nd(a), self.nd(b));
                if na.op == Op::Xor {
                    if na.a == b {
                        return na.b;
                    }
                    if na.b == b {
                        return na.a;
                    }
                }
                if nb.op == Op::Xor {
                    if nb.a == a {
                        return nb.b;
                    }
                    if nb.b == a {
                        return nb.a;
                    }
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    let x = self.bin(op, na.a, nb.a);
                    return self.zext(x, w);
                }
            }
            Op::Eq => return self.eq(a, b),
            Op::Ult => return self.ult(a, b),
            Op::Slt => {
                if a == b {
                    return self.k(0, 1);
                }
                let s = w - 1;
                if self.kz(a) >> s & 1 == 1 && self.kz(b) >> s & 1 == 1 {
                    return self.ult(a, b);
                }
                // x <s 0  ->  top bit
                if cb == Some(0) {
                    return self.extract(a, s, 1);
                }
                if ca == Some(m) {
                    // -1 <s x
                    let t = self.extract(b, s, 1);
                    return self.not(t);
                }
                if self.kz(b) >> s & 1 == 1 && ca.map_or(false, |x| x >> s & 1 == 1) {
                    return self.k(1, 1);
                }
                if self.kz(a) >> s & 1 == 1 && cb.map_or(false, |x| x >> s & 1 == 1) {
                    return self.k(0, 1);
                }
                let (na, nb) = (self.nd(a), self.nd(b));
                if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(Op::Slt, na.a, nb.a);
                }
                if na.op == Op::SExt {
                    if let Some(y) = cb {
                        let wi = self.w(na.a);
                        let sy = sx(y, w);
                        let (mn, mx) = (-(1i128 << (wi - 1)), (1i128 << (wi - 1)) - 1);
                        if sy > mx {
                            return self.k(1, 1);
                        }
                        if sy <= mn {
                            return self.k(0, 1);
                        }
                        let k = self.k(y, wi);
                        return self.bin(Op::Slt, na.a, k);
                    }
                }
                if nb.op == Op::SExt {
                    if let Some(x) = ca {
                        let wi = self.w(nb.a);
                        let sv = sx(x, w);
                        let (mn, mx) = (-(1i128 << (wi - 1)), (1i128 << (wi - 1)) - 1);
                        if sv >= mx {
                            return self.k(0, 1);
                        }
                        if sv < mn {
                            return self.k(1, 1);
                        }
                        let k = self.k(x, wi);
                        return self.bin(Op::Slt, k, nb.a);
                    }
                }
                if na.op == Op::Ite && cb.is_some() && self.cv(na.b).is_some() && self.cv(na.c).is_some() {
                    let x = self.bin(op, na.b, b);
                    let y = self.bin(op, na.c, b);
                    return self.ite(na.a, x, y);
                }
                return self.mk(Op::Slt, 1, a, b, 0);
            }
            _ => {}
        }
        self.mk(op, w, a, b, 0)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.k(1, 1);
        }
        let w = self.w(a);
        let (ca, cb) = (self.cv(a), self.cv(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.k((x == y) as u128, 1);
        }
        if ca.is_some() {
            return self.eq(b, a);
        }
        if self.hi(a) < self.lo(b) || self.hi(b) < self.lo(a) {
            return self.k(0, 1);
        }
        let na = self.nd(a);
        if let Some(y) = cb {
            if y & self.kz(a) != 0 {
                return self.k(0, 1);
            }
            if w == 1 {
                return if y == 1 { a } else { self.not(a) };
            }
            match na.op {
                Op::ZExt => {
                    let wi = self.w(na.a);
                    let k = self.k(y, wi);
                    return self.eq(na.a, k);
                }
                Op::SExt => {
                    let wi = self.w(na.a);
                    if sx(y & mask(wi), wi) as u128 & mask(w) != y {
                        return self.k(0, 1);
                    }
                    let k = self.k(y, wi);
                    return self.eq(na.a, k);
                }
                Op::Concat => {
                    let wl = self.w(na.b);
                    let kh = self.k(y >> wl, w - wl);
                    let kl = self.k(y, wl);
                    let x = self.eq(na.a, kh);
                    if self.cv(x) == Some(0) {
                        return x;
                    }
                    let z = self.eq(na.b, kl);
                    return self.bin(Op::And, x, z);
                }
                Op::Add => {
                    if let Some(x) = self.cv(na.b) {
                        let k = self.k(y.wrapping_sub(x), w);
                        return self.eq(na.a, k);
                    }
                }
                Op::Sub => {
                    if y == 0 {
                        return self.eq(na.a, na.b);
                    }
                    if let Some(x) = self.cv(na.a) {
                        let k = self.k(x.wrapping_sub(y), w);
                        return self.eq(na.b, k);
                    }
                }
                Op::Xor => {
                    if let Some(x) = self.cv(na.b) {
                        let k = self.k(x ^ y, w);
                        return self.eq(na.a, k);
                    }
                    if y == 0 {
                        return self.eq(na.a, na.b);
                    }
                }
                Op::Not => {
                    let k = self.k(!y, w);
                    return self.eq(na.a, k);
                }
                Op::Ite => {
                    let tb = self.cv(na.b).is_some();
                    let tc = self.cv(na.c).is_some();
                    if tb || tc {
                        let x = self.eq(na.b, b);
                        let z = self.eq(na.c, b);
                        return self.ite(na.a, x, z);
                    }
                }
                Op::Or if y == 0 => {
                    let x = self.eq(na.a, b);
                    let z = self.eq(na.b, b);
                    return self.bin(Op::And, x, z);
                }
                _ => {}
            }
        } else {
            let nb = self.nd(b);
            if w == 1 {
                let x = self.bin(Op::Xor, a, b);
                return self.not(x);
            }
            match (na.op, nb.op) {
                (Op::ZExt, Op::ZExt) => {
                    let (wa, wb) = (self.w(na.a), self.w(nb.a));
                    let mw = wa.max(wb);
                    let x = self.zext(na.a, mw);
                    let y = self.zext(nb.a, mw);
                    return self.eq(x, y);
                }
                (Op::SExt, Op::SExt) if self.w(na.a) == self.w(nb.a) => return self.eq(na.a, nb.a),
                (Op::Concat, Op::Concat) if self.w(na.a) == self.w(nb.a) => {
                    let x = self.eq(na.a, nb.a);
                    let y = self.eq(na.b, nb.b);
                    return self.bin(Op::And, x, y);
                }
                (Op::Add, Op::Add) if na.b == nb.b => return self.eq(na.a, nb.a),
                (Op::Add, _) if na.a == b => {
                    let k = self.k(0, w);
                    return self.eq(na.b, k);
                }
                _ => {}
            }
        }
        self.mk(Op::Eq, 1, a, b, 0)
    }
    /// the operands of a sum that cannot wrap around
    fn no_wrap(&self, a: E) -> Option<(E, E)> {
        let n = self.nd(a);
        if n.op != Op::Add {
            return None;
        }
        let m = mask(self.w(a));
        match self.hi(n.a).checked_add(self.hi(n.b)) {
            Some(s) if s <= m => Some((n.a, n.b)),
            _ => None,
        }
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.k(0, 1);
        }
        let w = self.w(a);
        let (ca, cb) = (self.cv(a), self.cv(b));
        if self.hi(a) < self.lo(b) {
            return self.k(1, 1);
        }
        if self.lo(a) >= self.hi(b) {
            return self.k(0, 1);
        }
        // sums that cannot wrap around: drop the common part
        let (xa, xb) = (self.no_wrap(a), self.no_wrap(b));
        if let Some((p, q)) = xa {
            if p == b || q == b {
                return self.k(0, 1);
            }
        }
        if let Some((p, q)) = xb {
            if p == a || q == a {
                let r = if p == a { q } else { p };
                let z = self.k(0, w);
                return self.ult(z, r);
            }
        }
        if let (Some((p, q)), Some((r, s))) = (xa, xb) {
            if p == r {
                return self.ult(q, s);
            } else if p == s {
                return self.ult(q, r);
            } else if q == r {
                return self.ult(p, s);
            } else if q == s {
                return self.ult(p, r);
            }
        }
        if w == 1 {
            let n = self.not(a);
            return self.bin(Op::And, n, b);
        }
        let (na, nb) = (self.nd(a), self.nd(b));
        if let Some(y) = cb {
            if y == 1 {
                let k = self.k(0, w);
                return self.eq(a, k);
            }
            if y == mask(w) {
                let e = self.eq(a, b);
                return self.not(e);
            }
            match na.op {
                Op::ZExt => {
                    // y <= mask(wi) because of the interval test above
                    let wi = self.w(na.a);
                    if y <= mask(wi) {
                        let k = self.k(y, wi);
                        return self.ult(na.a, k);
                    }
                }
                Op::Ite if self.cv(na.b).is_some() || self.cv(na.c).is_some() => {
                    let x = self.ult(na.b, b);
                    let z = self.ult(na.c, b);
                    return self.ite(na.a, x, z);
                }
                Op::Concat => {
                    // high part decides when the low part of y is zero
                    let wl = self.w(na.b);
                    if y & mask(wl) == 0 {
                        let k = self.k(y >> wl, w - wl);
                        return self.ult(na.a, k);
                    }
                }
                _ => {}
            }
        }
        if let Some(x) = ca {
            if x == 0 {
                let e = self.eq(b, a);
                return self.not(e);
            }
            match nb.op {
                Op::ZExt => {
                    let wi = self.w(nb.a);
                    if x <= mask(wi) {
                        let k = self.k(x, wi);
                        return self.ult(k, nb.a);
                    }
                }
                Op::Ite if self.cv(nb.b).is_some() || self.cv(nb.c).is_some() => {
                    let y = self.ult(a, nb.b);
                    let z = self.ult(a, nb.c);
                    return self.ite(nb.a, y, z);
                }
                _ => {}
            }
        }
        if na.op == Op::ZExt && nb.op == Op::ZExt {
            let mw = self.w(na.a).max(self.w(nb.a));
            let x = self.zext(na.a, mw);
            let y = self.zext(nb.a, mw);
            return self.ult(x, y);
        }
        self.mk(Op::Ult, 1, a, b, 0)
    }

    // ---- evaluation under a model (bytes per variable, missing = 0)
    pub fn new_model(&mut self) {
        self.gen = self.gen.wrapping_add(1);
        if self.gen == 0 {
            self.gen = 1;
            for x in self.ev.iter_mut() {
                x.0 = 0;
            }
        }
        self.ev_key = 0;
    }
    /// `key` identifies the model (its address); the memo is kept between calls with the same key
    pub fn eval(&mut self, e: E, model: &[u8], key: usize) -> u128 {
        if key == 0 || key != self.ev_key {
            self.new_model();
            self.ev_key = key;
        }
        self.ev_rec(e, model)
    }
    fn ev_rec(&mut self, e: E, m: &[u8]) -> u128 {
        let n = self.n[e as usize];
        match n.op {
            Op::Const => return self.consts[n.a as usize],
            Op::Var => return *m.get(n.a as usize).unwrap_or(&0) as u128,
            _ => {}
        }
        let (g, v) = self.ev[e as usize];
        if g == self.gen {
            return v;
        }
        let w = n.w as u32;
        let r = match n.op {
            Op::Not => !self.ev_rec(n.a, m) & mask(w),
            Op::Extract => (self.ev_rec(n.a, m) >> n.b) & mask(w),
            Op::ZExt => self.ev_rec(n.a, m),
            Op::SExt => {
                let wa = self.w(n.a);
                sx(self.ev_rec(n.a, m), wa) as u128 & mask(w)
            }
            Op::Concat => {
                let wl = self.w(n.b);
                self.ev_rec(n.a, m) << wl | self.ev_rec(n.b, m)
            }
            Op::Ite => {
                if self.ev_rec(n.a, m) != 0 {
                    self.ev_rec(n.b, m)
                } else {
                    self.ev_rec(n.c, m)
                }
            }
            _ => {
                let wa = self.w(n.a);
                let x = self.ev_rec(n.a, m);
                let y = self.ev_rec(n.b, m);
                cbin(n.op, x, y, wa)
            }
        };
        self.ev[e as usize] = (self.gen, r);
        r
    }
    pub fn show(&self, e: E, d: u32) -> String {
        let n = self.n[e as usize];
        if d == 0 {
            return "..".into();
        }
        match n.op {
            Op::Const => format!("{:#x}:{}", self.consts[n.a as usize], n.w),
            Op::Var => format!("v{}", n.a),
            Op::Extract => format!("({})[{}+{}]", self.show(n.a, d - 1), n.b, n.w),
            Op::Not | Op::ZExt | Op::SExt => format!("{:?}{}({})", n.op, n.w, self.show(n.a, d - 1)),
            Op::Ite => format!("Ite({}, {}, {})", self.show(n.a, d - 1), self.show(n.b, d - 1), self.show(n.c, d - 1)),
            _ => format!("{:?}({}, {})", n.op, self.show(n.a, d - 1), self.show(n.b, d - 1)),
        }
    }
    #[allow(dead_code)]
    pub fn contig_mask(v: u128) -> Option<(u32, u32)> {
        Self::contig(v)
    }
}
