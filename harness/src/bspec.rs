//! A reference model of bencode, written from BEP 3 and independent of the
//! code under test: trees, encoder, parser, canonical form, depth and count.
use crate::vp;
use bencode::{Value, ValueRef};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub enum S {
    I(i64),
    B(Vec<u8>),
    L(Vec<S>),
    D(Vec<(Vec<u8>, S)>),
}

impl S {
    pub fn value(&self) -> Value {
        match self {
            S::I(n) => Value::Int(*n),
            S::B(b) => Value::Bytes(b.clone()),
            S::L(l) => Value::List(l.iter().map(|x| x.value()).collect()),
            S::D(d) => {
                let mut m = BTreeMap::new();
                for (k, v) in d {
                    // keys of a tree are UTF-8 by construction
                    m.insert(String::from_utf8(k.clone()).unwrap(), v.value());
                }
                Value::Dict(m)
            }
        }
    }
    pub fn value_ref(&self) -> ValueRef<'_> {
        match self {
            S::I(n) => ValueRef::Int(*n),
            S::B(b) => ValueRef::Bytes(b),
            S::L(l) => ValueRef::List(l.iter().map(|x| x.value_ref()).collect()),
            S::D(d) => {
                let mut m = BTreeMap::new();
                for (k, v) in d {
                    m.insert(std::str::from_utf8(k).unwrap(), v.value_ref());
                }
                ValueRef::Dict(m)
            }
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            S::I(_) | S::B(_) => 0,
            S::L(l) => l.iter().map(|x| 1 + x.depth()).max().unwrap_or(0),
            S::D(d) => d.iter().map(|(_, x)| 1 + x.depth()).max().unwrap_or(0),
        }
    }
    /// items written in the document, dictionary keys included
    pub fn items(&self) -> usize {
        match self {
            S::I(_) | S::B(_) => 1,
            S::L(l) => 1 + l.iter().map(|x| x.items()).sum::<usize>(),
            S::D(d) => 1 + d.iter().map(|(_, x)| 1 + x.items()).sum::<usize>(),
        }
    }
}

fn digits(out: &mut Vec<u8>, mut n: u64) {
    let mut b = vec![];
    loop {
        b.push(b'0' + (n % 10) as u8);
        n /= 10;
        if n == 0 {
            break;
        }
    }
    b.reverse();
    out.extend_from_slice(&b);
}

/// the one canonical encoding
pub fn encode(s: &S, out: &mut Vec<u8>) {
    match s {
        S::I(n) => {
            out.push(b'i');
            if *n < 0 {
                out.push(b'-');
            }
            digits(out, n.unsigned_abs());
            out.push(b'e');
        }
        S::B(b) => {
            digits(out, b.len() as u64);
            out.push(b':');
            out.extend_from_slice(b);
        }
        S::L(l) => {
            out.push(b'l');
            for x in l {
                encode(x, out);
            }
            out.push(b'e');
        }
        S::D(d) => {
            let mut idx: Vec<usize> = (0..d.len()).collect();
            idx.sort_by(|a, b| d[*a].0.cmp(&d[*b].0));
            out.push(b'd');
            for i in idx {
                digits(out, d[i].0.len() as u64);
                out.push(b':');
                out.extend_from_slice(&d[i].0);
                encode(&d[i].1, out);
            }
            out.push(b'e');
        }
    }
}

pub struct Parsed {
    pub tree: S,
    pub canonical: bool,
    pub dup_keys: bool,
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
    canonical: bool,
    dup: bool,
}

/// the grammar: exactly one item, nothing after it
pub fn parse(b: &[u8]) -> Option<Parsed> {
    let mut p = P { b, i: 0, canonical: true, dup: false };
    let tree = item(&mut p)?;
    if p.i != b.len() {
        return None;
    }
    Some(Parsed { tree, canonical: p.canonical, dup_keys: p.dup })
}

fn item(p: &mut P) -> Option<S> {
    let c = *p.b.get(p.i)?;
    match c {
        b'0'..=b'9' => Some(S::B(string(p)?)),
        b'i' => {
            p.i += 1;
            Some(S::I(integer(p)?))
        }
        b'l' => {
            p.i += 1;
            let mut l = vec![];
            while *p.b.get(p.i)? != b'e' {
                l.push(item(p)?);
            }
            p.i += 1;
            Some(S::L(l))
        }
        b'd' => {
            p.i += 1;
            let mut d: Vec<(Vec<u8>, S)> = vec![];
            while *p.b.get(p.i)? != b'e' {
                let k = match item(p)? {
                    S::B(k) => k,
                    _ => return None,
                };
                if std::str::from_utf8(&k).is_err() {
                    return None;
                }
                let v = item(p)?;
                if let Some((last, _)) = d.last() {
                    if *last >= k {
                        p.canonical = false;
                    }
                }
                if d.iter().any(|(o, _)| *o == k) {
                    p.dup = true;
                }
                d.push((k, v));
            }
            p.i += 1;
            Some(S::D(d))
        }
        _ => None,
    }
}

fn string(p: &mut P) -> Option<Vec<u8>> {
    let start = p.i;
    let mut n: u64 = 0;
    loop {
        let c = *p.b.get(p.i)?;
        if c == b':' {
            break;
        }
        if !(b'0'..=b'9').contains(&c) {
            return None;
        }
        n = n.saturating_mul(10).saturating_add((c - b'0') as u64);
        p.i += 1;
    }
    if p.i - start > 1 && p.b[start] == b'0' {
        p.canonical = false;
    }
    p.i += 1;
    let rest = p.b.len() - p.i;
    if n > rest as u64 {
        return None;
    }
    let s = p.b[p.i..p.i + n as usize].to_vec();
    p.i += n as usize;
    Some(s)
}

/// decimal with an optional sign, up to the closing 'e', within 64 bits
fn integer(p: &mut P) -> Option<i64> {
    let mut neg = false;
    match *p.b.get(p.i)? {
        b'-' => {
            neg = true;
            p.i += 1;
        }
        b'+' => {
            p.canonical = false;
            p.i += 1;
        }
        _ => {}
    }
    let start = p.i;
    loop {
        let c = *p.b.get(p.i)?;
        if c == b'e' {
            break;
        }
        if !(b'0'..=b'9').contains(&c) {
            return None;
        }
        p.i += 1;
    }
    let d = &p.b[start..p.i];
    if d.is_empty() {
        return None;
    }
    if d[0] == b'0' && (d.len() > 1 || neg) {
        p.canonical = false;
    }
    p.i += 1;
    // 64 bits: the significant digits are fewer than 19, or 19 that do not
    // exceed the largest magnitude (digit strings of equal length compare as
    // the numbers do)
    let mut z = 0;
    while d.len() - z > 19 {
        if d[z] != b'0' {
            return None;
        }
        z += 1;
    }
    if d.len() - z == 19 {
        let max: &[u8; 19] = if neg { b"9223372036854775808" } else { b"9223372036854775807" };
        if &d[z..] > &max[..] {
            return None;
        }
    }
    let mut n: i64 = 0;
    for c in &d[z..] {
        let k = (*c - b'0') as i64;
        n = n.wrapping_mul(10);
        n = if neg { n.wrapping_sub(k) } else { n.wrapping_add(k) };
    }
    Some(n)
}

/// Does the value equal the tree? With repeated keys, the entry must be one of
/// those written.
pub fn same(s: &S, v: &Value) -> bool {
    match (s, v) {
        (S::I(a), Value::Int(b)) => a == b,
        (S::B(a), Value::Bytes(b)) => a == b,
        (S::L(a), Value::List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y)),
        (S::D(a), Value::Dict(b)) => {
            let keys: Vec<&Vec<u8>> = a.iter().map(|x| &x.0).collect();
            b.iter().all(|(k, v)| a.iter().any(|(ak, av)| ak.as_slice() == k.as_bytes() && same(av, v)))
                && keys.iter().all(|k| b.keys().any(|bk| bk.as_bytes() == k.as_slice()))
        }
        _ => false,
    }
}
pub fn same_ref(s: &S, v: &ValueRef) -> bool {
    match (s, v) {
        (S::I(a), ValueRef::Int(b)) => a == b,
        (S::B(a), ValueRef::Bytes(b)) => a == b,
        (S::L(a), ValueRef::List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_ref(x, y)),
        (S::D(a), ValueRef::Dict(b)) => {
            let keys: Vec<&Vec<u8>> = a.iter().map(|x| &x.0).collect();
            b.iter().all(|(k, v)| a.iter().any(|(ak, av)| ak.as_slice() == k.as_bytes() && same_ref(av, v)))
                && keys.iter().all(|k| b.keys().any(|bk| bk.as_bytes() == k.as_slice()))
        }
        _ => false,
    }
}

/// how leaves of a generated tree look
#[derive(Clone, Copy)]
pub struct Gen {
    /// integers: 0 = two arbitrary bytes (signed), 1 = one digit
    pub small_int: bool,
    /// longest byte string
    pub max_bytes: usize,
    /// longest dictionary key
    pub max_key: usize,
}

/// An arbitrary tree of at most `budget` nodes below and including this one and
/// at most `depth` levels of containers.
pub fn tree(g: Gen, budget: &mut usize, depth: usize) -> S {
    *budget -= 1;
    let kinds = if depth > 0 { 4 } else { 2 };
    match vp::pick(kinds) {
        0 => S::I(if g.small_int { (vp::u8() % 10) as i64 } else { vp::u16() as i16 as i64 }),
        1 => S::B(vp::vec(vp::range(0, g.max_bytes))),
        2 => {
            let n = vp::range(0, (*budget).min(3));
            let mut l = vec![];
            for _ in 0..n {
                if *budget == 0 {
                    break;
                }
                l.push(tree(g, budget, depth - 1));
            }
            S::L(l)
        }
        _ => {
            let n = vp::range(0, (*budget).min(3));
            let mut d: Vec<(Vec<u8>, S)> = vec![];
            for _ in 0..n {
                if *budget == 0 {
                    break;
                }
                let k = vp::vec(vp::range(0, g.max_key));
                vp::assume(std::str::from_utf8(&k).is_ok());
                for (o, _) in &d {
                    vp::assume(*o != k);
                }
                let v = tree(g, budget, depth - 1);
                d.push((k, v));
            }
            S::D(d)
        }
    }
}
