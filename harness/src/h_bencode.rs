//! C01-C07: the bencode crate.
use crate::bspec::{self, Gen, S};
use crate::pieces::Pieces;
use crate::{chk, vp};
use bencode::{Error, Value, ValueRef};
use std::collections::BTreeMap;

harnesses! {
    h_c01_tree4 => c01_tree(4, 2, Gen { small_int: true, max_bytes: 2, max_key: 1 });
    h_c01_tree5 => c01_tree(5, 3, Gen { small_int: true, max_bytes: 1, max_key: 1 });
    h_c01_int16 => c01_int(vp::u16() as i16 as i64);
    h_c01_int_edges => c01_int_edges(false);
    h_c01_int_all_edges => c01_int_edges(true);
    h_c01_bytes => c01_leaf(S::B(vp::vec(vp::range(0, 12))));
    h_c01_key => c01_key(4);
    h_c01_long => c01_long();
    h_c01_wide => c01_wide();
    h_c01_huge => c01_leaf(huge().0);
    h_c01_deep => c01_deep();
    h_c01_int_pow2 => c01_int_pow2();

    h_c02_free6 => c02_free(6);
    h_c02_free8 => c02_free(8);
    h_c02_number => c02_number(false);
    h_c02_digits => c02_number(true);
    h_c02_window => c02_window(1);
    h_c02_window2 => c02_window(2);

    h_c03_free6 => c03(&free(6));
    h_c03_free8 => c03(&free(8));
    h_c03_int => c03_int(6);
    h_c03_int_edge => c03_int_edge();
    h_c03_len => c03_len();
    h_c03_dict => c03_dict(false);
    h_c03_dict_long => c03_dict(true);
    h_c03_window => c03(&window(1));
    h_c03_window2 => c03(&window(2));

    h_c04_free6 => c04_free(6);
    h_c04_free8 => c04_free(8);
    h_c04_dict => c04_dict();
    h_c04_tree4 => c04_tree(4, 2);
    h_c04_window => c04_doc(&window(1));
    h_c04_window2 => c04_doc(&window(2));

    h_c05_free6 => c05(&free(6));
    h_c05_free8 => c05(&free(8));
    h_c05_deep => c05_deep(7);
    h_c05_deep9 => c05_deep(9);
    h_c05_dict => c05_dict();
    h_c05_wide => c05_wide();
    h_c05_huge => c05_huge();
    h_c05_vast => c05_vast();

    h_c06_free6 => c06(&free(6), limit(), limit());
    h_c06_free8 => c06(&free(8), limit(), limit());
    h_c06_tree4 => c06_tree(4, 2);
    h_c06_dup => c06_dup();
    h_c06_window => c06_window(1);
    h_c06_window2 => c06_window(2);
    h_c06_wide => c06_wide();
    h_c06_huge => c06_huge();

    h_c07_owned => c07_owned(3);
    h_c07_ref => c07_ref(3);
    h_c07_owned4 => c07_owned(4);
    h_c07_ref4 => c07_ref(4);
    h_c07_owned_wide => c07_owned_of(wide());
    h_c07_ref_wide => c07_ref_of(wide());
    h_c07_owned_huge => c07_owned_of(huge());
    h_c07_ref_huge => c07_ref_of(huge());

    h_c39_tree => c39_tree();
    h_c39_long => c39_long();

    h_c40_pair => c40_pair(2);
    h_c40_pair3 => c40_pair(3);
    h_c40_leaf => c40_leaf();
    h_c40_triple => c40_triple();
    h_c40_wide => c40_wide();

    h_c41_make => c41_make();
    h_c41_text => c41_text(5);
    h_c41_text7 => c41_text(7);
    h_c41_show => c41_show();
    h_c41_error => c41_error();

    h_c35_decode => c35_decode(false);
    h_c35_decode_ref => c35_decode(true);
    h_c35_cut => c35_cut();
    h_c35_encode => c35_encode();
    h_c35_encode_ref => c35_encode_ref();
    h_c35_walk => c35_walk();
    h_c35_walk_ref => c35_walk_ref();
    h_c35_drop => drop(c35_deep());
    h_c35_drop_ref => c35_drop_ref();
    h_c35_error => c35_error(false);
    h_c35_error_ref => c35_error(true);
    h_c35_clone => c35_clone();
    h_c35_clone_ref => c35_clone_ref();
    h_c35_to_owned => c35_to_owned();
    h_c35_as_ref => c35_as_ref();
    h_c35_eq => c35_eq();
    h_c35_eq_ref => c35_eq_ref();
    h_c35_cmp => c35_cmp();
}

/// every document of 0..=n arbitrary bytes
fn free(n: usize) -> Vec<u8> {
    vp::vec(vp::range(0, n))
}

/// a digit may be (part of) a number or length: a path for each
fn digits_apart(c: u8) -> u8 {
    if c.is_ascii_digit() {
        vp::conc(c as u64) as u8
    } else {
        c
    }
}

/// no limit, or an arbitrary one
fn limit() -> Option<usize> {
    if vp::pick(2) == 0 {
        None
    } else {
        Some(vp::usize())
    }
}

// ---- C01

fn c01_leaf(s: S) {
    vp::covers(1);
    let mut want = vec![];
    bspec::encode(&s, &mut want);

    let v = s.value();
    let e = v.to_vec();
    chk!(e == want);
    match Value::decode(&e) {
        Ok(d) => {
            chk!(d == v);
            chk!(bspec::same(&s, &d));
        }
        Err(_) => chk!(false),
    }

    let r = s.value_ref();
    let er = r.to_vec();
    chk!(er == want);
    match ValueRef::decode(&er) {
        Ok(d) => {
            chk!(d == r);
            chk!(bspec::same_ref(&s, &d));
        }
        Err(_) => chk!(false),
    }
    vp::cover(0);
}

fn c01_tree(mut budget: usize, depth: usize, g: Gen) {
    let s = bspec::tree(g, &mut budget, depth);
    c01_leaf(s);
}

/// formatting and parsing of an arbitrary integer
fn c01_int(n: i64) {
    vp::covers(2);
    let v = Value::Int(n);
    let e = v.to_vec();
    // shortest form
    chk!(e[0] == b'i' && e[e.len() - 1] == b'e');
    let body = &e[1..e.len() - 1];
    let d = if n < 0 {
        chk!(body[0] == b'-');
        vp::cover(0);
        &body[1..]
    } else {
        vp::cover(1);
        body
    };
    chk!(!d.is_empty());
    chk!(d.len() == 1 || d[0] != b'0');
    let mut acc: i64 = 0;
    for c in d {
        chk!(*c >= b'0' && *c <= b'9');
        acc = acc.wrapping_mul(10).wrapping_sub((*c - b'0') as i64);
    }
    // accumulated negatively, so that i64::MIN is covered
    chk!(if n < 0 { acc == n } else { acc.wrapping_neg() == n });
    chk!(ValueRef::Int(n).to_vec() == e);
    chk!(Value::decode(&e) == Ok(Value::Int(n)));
    chk!(ValueRef::decode(&e) == Ok(ValueRef::Int(n)));
}

/// integers around powers of ten and at both ends of the range
fn c01_int_edges(all: bool) {
    let (base, off) = if all {
        let base: i64 = match vp::pick(22) {
            0 => i64::MIN,
            1 => i64::MAX - 15,
            k => 10i64.wrapping_pow(k as u32 - 2).wrapping_sub(8),
        };
        (base, (vp::u8() & 15) as i64)
    } else {
        let base = [i64::MIN, i64::MAX - 7, 999_996, 9_999_999_996, 999_999_999_999_999_996][vp::pick(5)];
        (base, (vp::u8() & 7) as i64)
    };
    let n = base.wrapping_add(off);
    let neg = vp::pick(2) == 1;
    c01_int(if neg { n.wrapping_neg() } else { n });
}

/// two keys of arbitrary UTF-8
fn c01_key(n: usize) {
    let la = vp::range(0, n);
    let lb = vp::range(0, 2);
    let a = vp::vec(la);
    let b = vp::vec(lb);
    vp::assume(std::str::from_utf8(&a).is_ok());
    vp::assume(std::str::from_utf8(&b).is_ok());
    vp::assume(a != b);
    c01_leaf(S::D(vec![(a, S::I(1)), (b, S::B(vec![]))]));
}

/// integers around powers of two
fn c01_int_pow2() {
    let k = vp::range(4, 62);
    let n = (1i64 << k) - 2 + vp::pick(4) as i64;
    c01_int(if vp::pick(2) == 1 { -n } else { n });
}

/// n bytes of which one is arbitrary
fn filled(n: usize) -> Vec<u8> {
    let mut b: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
    if n > 0 {
        let at = [0, n / 2, n - 1][vp::pick(3)];
        b[at] = vp::u8();
    }
    b
}

const LENGTHS: [usize; 18] = [15, 16, 31, 63, 64, 99, 100, 127, 128, 255, 256, 257, 999, 1000, 1024, 9999, 65535, 65536];

/// long strings, as a value and as a key
fn c01_long() {
    let n = LENGTHS[vp::pick(18)];
    let b = filled(n);
    if vp::pick(2) == 0 {
        c01_leaf(S::L(vec![S::B(b), S::I(1)]));
    } else {
        vp::assume(std::str::from_utf8(&b).is_ok());
        c01_leaf(S::D(vec![(b"abc".to_vec(), S::I(1)), (b, S::I(2))]));
    }
}

const WIDTHS: [usize; 10] = [5, 6, 11, 12, 13, 24, 40, 90, 260, 520];

/// a list or dictionary of many children, one of them arbitrary, and a key
/// that may be in it
fn wide() -> (S, Vec<u8>) {
    wide_of(WIDTHS[vp::pick(8)])
}

/// ... of more than 256 children
fn huge() -> (S, Vec<u8>) {
    wide_of(WIDTHS[8 + vp::pick(2)])
}

fn wide_of(n: usize) -> (S, Vec<u8>) {
    let at = [0, n / 2, n - 1][vp::pick(3)];
    let leaf = |i: usize| match i % 4 {
        _ if i == at => S::B(vec![vp::u8()]),
        0 => S::I(i as i64),
        1 => S::B(vec![b'v'; i % 3]),
        2 => S::L(vec![S::I(-1)]),
        _ => S::D(vec![]),
    };
    if vp::pick(2) == 0 {
        (S::L((0..n).map(leaf).collect()), vec![])
    } else {
        // 17 is coprime to all widths: the keys come in no order
        let key = |i: usize| {
            let k = i * 17 % n;
            let mut b = vec![b'a' + (k / 26) as u8, b'a' + (k % 26) as u8];
            if k == at {
                b.push(vp::u8() & 0x7f);
            }
            b
        };
        let mut kb = vec![b'a', vp::u8()];
        if vp::pick(2) == 1 {
            kb.push(vp::u8());
        }
        (S::D((0..n).map(|i| (key(i), leaf(i))).collect()), kb)
    }
}

fn c01_wide() {
    c01_leaf(wide().0);
}

/// many levels
fn nested(n: usize) -> S {
    let kinds = [vp::pick(2) == 1, vp::pick(2) == 1, vp::pick(2) == 1];
    let mut s = if vp::pick(2) == 0 { S::I((vp::u8() & 7) as i64) } else { S::B(vec![vp::u8()]) };
    for k in 0..n {
        s = if kinds[k % 3] { S::D(vec![(vec![b'k'; k % 2], s), (b"z".to_vec(), S::I(0))]) } else { S::L(vec![s, S::I(k as i64)]) };
    }
    s
}

fn c01_deep() {
    c01_leaf(nested([5, 9, 20, 33, 130, 260][vp::pick(6)]));
}

// ---- documents with an arbitrary window

const DOCS: [&[u8]; 5] = [
    b"d8:announce10:http://a/b4:infod5:filesld6:lengthi12e4:pathl1:a2:bceed6:lengthi0e4:pathl1:zeee4:name3:abcee",
    b"lli1ei-20eel0:ed1:ai3e1:bl4:spamee10:0123456789e",
    b"d0:i0e1:ai-1e2:bbld1:xldeeee1:cd1:d1:e1:fi9223372036854775807eee",
    b"llllllllllldeeeeeeeeeeeei5e",
    b"12:\xff\x00\xc3\xa9abcdefghi",
];

/// a document with up to w arbitrary bytes anywhere in place of up to 2
fn window(w: usize) -> Vec<u8> {
    let d = DOCS[vp::pick(5)];
    let p = vp::pick(d.len() as u8);
    let k = vp::range(0, w);
    let r = vp::range(0, 2);
    vp::assume(p + r <= d.len());
    let mut b = d[..p].to_vec();
    b.extend(vp::vec(k).into_iter().map(digits_apart));
    b.extend_from_slice(&d[p + r..]);
    b
}

fn c02_window(w: usize) {
    vp::covers(2);
    c02_doc(&window(w), None, None);
}

fn c06_window(w: usize) {
    c06(&window(w), None, None);
}

fn c06_of(s: &S) {
    c06_with(s, limit(), limit());
}

fn c06_with(s: &S, d: Option<usize>, n: Option<usize>) {
    let v = s.value();
    let r = s.value_ref();
    chk!(bspec::same(s, &r.to_owned()));
    chk!(bspec::same_ref(s, &v.as_ref()));
    chk!(r.to_owned() == v);
    chk!(v.as_ref() == r);
    chk!(v.as_ref().to_owned() == v);
    let e = v.to_vec();
    chk!(e == r.to_vec());
    c06(&e, d, n);
}

fn c06_wide() {
    match vp::pick(3) {
        0 => c06_of(&wide().0),
        1 => c06_of(&nested([5, 9, 20, 33][vp::pick(4)])),
        _ => c06_of(&S::L(vec![S::B(filled(LENGTHS[vp::pick(18)]))])),
    }
}

fn c05_wide() {
    let s = match vp::pick(2) {
        0 => wide().0,
        _ => nested([5, 9, 20][vp::pick(3)]),
    };
    let mut b = vec![];
    bspec::encode(&s, &mut b);
    vp::covers(2);
    c05_doc(&b);
}

/// many items or levels, and a limit that fits, or is one or two too low
fn c05_huge() {
    vp::covers(2);
    let s = match vp::pick(2) {
        0 => huge().0,
        _ => nested([130, 260][vp::pick(2)]),
    };
    let mut b = vec![];
    bspec::encode(&s, &mut b);
    let off = vp::range(0, 4);
    let (d, n) = match vp::pick(2) {
        0 => (Some(s.depth() + off - 2), None),
        _ => (None, Some(s.items() - 1 + off - 2)),
    };
    c05_limits(&b, d, n);
}

/// more than 65536 items or levels
fn c05_vast() {
    vp::covers(3);
    const N: usize = 65_600;
    let limit = [65_534, 65_535, 65_536, N - 1, N, N + 1][vp::pick(6)];
    let borrowed = vp::pick(2) == 1;
    if vp::pick(2) == 1 {
        // lists that are never closed
        let b = vec![b'l'; N + 1];
        let e = if borrowed {
            ValueRef::decode_with_limits(&b, Some(limit), None).err()
        } else {
            Value::decode_with_limits(&b, Some(limit), None).err()
        };
        vp::cover(0);
        // the deepest has N around it
        chk!(match e {
            Some(Error::DepthLimit) => limit < N,
            Some(Error::EOF) => limit >= N,
            _ => false,
        });
        return;
    }
    // a list of N empty strings
    let mut b = b"l".to_vec();
    for _ in 0..N {
        b.extend_from_slice(b"0:");
    }
    b.push(b'e');
    let r = if borrowed {
        ValueRef::decode_with_limits(&b, None, Some(limit)).map(|v| v.as_list().unwrap().len())
    } else {
        Value::decode_with_limits(&b, None, Some(limit)).map(|v| v.as_list().unwrap().len())
    };
    match r {
        Ok(n) => {
            vp::cover(1);
            chk!(limit >= N && n == N);
        }
        Err(e) => {
            vp::cover(2);
            chk!(limit < N && e == Error::ItemLimit);
        }
    }
}

/// the same in both forms
fn c06_huge() {
    let s = match vp::pick(2) {
        0 => wide_of(260).0,
        _ => nested([130, 260][vp::pick(2)]),
    };
    let off = vp::range(0, 4);
    let (d, n) = match vp::pick(3) {
        0 => (Some(s.depth() + off - 2), None),
        1 => (None, Some(s.items() - 1 + off - 2)),
        _ => (None, None),
    };
    c06_with(&s, d, n);
}

// ---- C02

fn exercise_err(e: &Error) {
    let s = e.to_string();
    chk!(!s.is_empty());
}

fn c02_doc(b: &[u8], d: Option<usize>, n: Option<usize>) {
    match Value::decode_with_limits(b, d, n) {
        Ok(v) => {
            vp::cover(0);
            let e = v.to_vec();
            chk!(!e.is_empty());
            let r = v.as_ref();
            let o = r.to_owned();
            chk!(o == v);
            let _ = v.clone();
            let _ = v.to_string();
        }
        Err(e) => {
            vp::cover(1);
            exercise_err(&e);
            let io: std::io::Error = e.into();
            let _ = io.kind();
        }
    }
    match ValueRef::decode_with_limits(b, d, n) {
        Ok(v) => {
            let e = v.to_vec();
            chk!(!e.is_empty());
            let _ = v.to_string();
            let _ = v.clone();
        }
        Err(e) => {
            let _ = e.to_string();
        }
    }
}

fn c02_free(n: usize) {
    vp::covers(2);
    let b = free(n);
    c02_doc(&b, limit(), limit());
}

/// a number in every position one can have: up to 4 arbitrary characters, or
/// (long) a run of equal digits that reaches the 64-bit range and 2 of them
fn c02_number(long: bool) {
    vp::covers(2);
    let lead: &[u8] = match vp::pick(6) {
        0 => b"i",
        1 => b"",
        2 => b"l",
        3 => b"d",
        4 => b"d1:k",
        _ => b"li",
    };
    let mut b = lead.to_vec();
    if long {
        b.push(vp::u8());
        let d = [b'0', b'1', b'9'][vp::pick(3)];
        for _ in 0..vp::range(14, 20) {
            b.push(d);
        }
        b.extend_from_slice(&vp::vec(vp::range(1, 2)));
    } else {
        b.extend_from_slice(&vp::vec(vp::range(1, 4)));
    }
    if vp::pick(2) == 1 {
        b.extend_from_slice(b"e1:");
    }
    match Value::decode(&b) {
        Ok(v) => {
            vp::cover(0);
            if !long {
                let _ = v.to_string();
            }
        }
        Err(e) => {
            vp::cover(1);
            exercise_err(&e);
        }
    }
    let _ = ValueRef::decode(&b);
}

// ---- C03

fn c03(b: &[u8]) {
    vp::covers(2);
    let want = bspec::parse(b);
    let got = Value::decode(b);
    let got_ref = ValueRef::decode(b);
    match &want {
        Some(p) => {
            vp::cover(0);
            match &got {
                Ok(v) => chk!(bspec::same(&p.tree, v)),
                Err(_) => chk!(false),
            }
            match &got_ref {
                Ok(v) => chk!(bspec::same_ref(&p.tree, v)),
                Err(_) => chk!(false),
            }
        }
        None => {
            vp::cover(1);
            chk!(got.is_err());
            chk!(got_ref.is_err());
        }
    }
}

/// i, up to n arbitrary characters, e
fn c03_int(n: usize) {
    let mut b = vec![b'i'];
    b.extend_from_slice(&vp::vec(vp::range(1, n)));
    b.push(b'e');
    c03(&b);
}

/// integers at the ends of the 64-bit range: an arbitrary sign character, up
/// to two zeros, the first 15 digits of 2^63 and up to 5 arbitrary characters
fn c03_int_edge() {
    let mut b = vec![b'i'];
    if vp::pick(2) == 1 {
        b.push(vp::u8());
    }
    for _ in 0..vp::pick(3) {
        b.push(b'0');
    }
    b.extend_from_slice(b"922337203685477");
    b.extend_from_slice(&vp::vec(vp::range(1, 5)));
    b.push(b'e');
    c03(&b);
}

/// a string with an arbitrary three-character length field
fn c03_len() {
    let k = vp::range(1, 3);
    let mut b = vp::vec(k);
    // the rest of the document starts like a string or it is junk
    vp::assume(b[0] >= b'0' && b[0] <= b'9');
    b.push(b':');
    b.extend_from_slice(&vec![b'x'; vp::range(0, 14)]);
    c03(&b);
}

fn piece(i: usize) -> Vec<u8> {
    match i {
        0 => vec![b'i', vp::u8(), b'e'],
        1 => b"0:".to_vec(),
        2 => vec![b'1', b':', vp::u8()],
        3 => vec![b'2', b':', vp::u8(), vp::u8()],
        4 => b"le".to_vec(),
        5 => b"de".to_vec(),
        _ => vec![vp::u8()],
    }
}

/// dictionaries of up to two (three) pairs and damaged versions of them
fn c03_dict(long: bool) {
    let n = vp::range(1, if long { 6 } else { 5 });
    let mut b = vec![b'd'];
    for i in 0..n {
        let k = if i % 2 == 0 { 1 + vp::pick(3) } else { vp::pick(if long { 4 } else { 3 }) };
        b.extend_from_slice(&piece(k));
    }
    b.push(b'e');
    c03(&b);
}

// ---- C04

fn c04_doc(b: &[u8]) {
    vp::covers(3);
    let p = bspec::parse(b);
    match Value::decode(b) {
        Ok(v) => {
            let e = v.to_vec();
            if let Some(p) = &p {
                if p.canonical {
                    vp::cover(0);
                    chk!(e == b);
                } else {
                    vp::cover(1);
                }
            }
            match Value::decode(&e) {
                Ok(w) => {
                    chk!(w == v);
                    chk!(w.to_vec() == e);
                }
                Err(_) => chk!(false),
            }
            match bspec::parse(&e) {
                Some(q) => chk!(q.canonical),
                None => chk!(false),
            }
        }
        Err(_) => vp::cover(2),
    }
    if let Ok(v) = ValueRef::decode(b) {
        let e = v.to_vec();
        if let Some(p) = &p {
            if p.canonical {
                chk!(e == b);
            }
        }
        match ValueRef::decode(&e) {
            Ok(w) => {
                chk!(w == v);
                chk!(w.to_vec() == e);
            }
            Err(_) => chk!(false),
        };
    }
}

fn c04_free(n: usize) {
    let b = free(n);
    c04_doc(&b);
}

/// dictionaries of two or three pairs in any key order
fn c04_dict() {
    let n = vp::range(2, 3);
    let mut b = vec![b'd'];
    for _ in 0..n {
        b.extend_from_slice(&piece(1 + vp::pick(2)));
        b.extend_from_slice(&piece(vp::pick(3)));
    }
    b.push(b'e');
    if vp::pick(2) == 0 {
        b.push(vp::u8());
    }
    c04_doc(&b);
}

/// the canonical encoding of an arbitrary tree
fn c04_tree(mut budget: usize, depth: usize) {
    vp::covers(1);
    let s = bspec::tree(Gen { small_int: true, max_bytes: 2, max_key: 2 }, &mut budget, depth);
    let mut b = vec![];
    bspec::encode(&s, &mut b);
    chk!(Value::decode(&b).map(|v| v.to_vec()) == Ok(b.clone()));
    chk!(ValueRef::decode(&b).map(|v| v.to_vec()) == Ok(b.clone()));
    vp::cover(0);
}

// ---- C05

fn c05(b: &[u8]) {
    vp::covers(3);
    c05_doc(b);
}

fn c05_doc(b: &[u8]) {
    c05_limits(b, limit(), limit());
}

fn c05_limits(b: &[u8], d: Option<usize>, n: Option<usize>) {
    let free = Value::decode(b);
    let fits = match bspec::parse(b) {
        None => false,
        Some(p) => {
            (match d {
                None => true,
                Some(d) => p.tree.depth() <= d,
            }) && (match n {
                None => true,
                Some(n) => p.tree.items() - 1 <= n,
            })
        }
    };
    let got = Value::decode_with_limits(b, d, n);
    let got_ref = ValueRef::decode_with_limits(b, d, n);
    if fits {
        vp::cover(0);
        // accepted with and without limits, as the same value
        match (&free, &got) {
            (Ok(f), Ok(g)) => chk!(f == g),
            _ => chk!(false),
        }
        match (&free, &got_ref) {
            (Ok(f), Ok(g)) => chk!(f.as_ref() == *g),
            _ => chk!(false),
        }
    } else {
        chk!(got.is_err());
        chk!(got_ref.is_err());
        if free.is_ok() {
            vp::cover(1);
        } else {
            vp::cover(2);
        }
    }
}

/// n characters out of l, e, d and 0: -- deep and wide documents
fn c05_deep(n: usize) {
    let l = vp::range(0, n);
    let mut b = vec![b'l'];
    for _ in 0..l {
        match vp::pick(3) {
            0 => b.push(b'l'),
            1 => b.push(b'e'),
            _ => b.extend_from_slice(b"i1e"),
        }
    }
    b.push(b'e');
    c05(&b);
}

fn c05_dict() {
    let mut b = vec![b'd'];
    let n = vp::range(0, 2);
    for _ in 0..n {
        b.extend_from_slice(&piece(2));
        match vp::pick(5) {
            0 => b.extend_from_slice(b"de"),
            1 => b.extend_from_slice(b"le"),
            2 => b.extend_from_slice(b"i1e"),
            3 => b.extend_from_slice(b"ld0:leee"),
            _ => b.extend_from_slice(b"d1:ad0:i1eee"),
        }
    }
    b.push(b'e');
    c05(&b);
}

// ---- C06

fn c06(b: &[u8], d: Option<usize>, n: Option<usize>) {
    vp::covers(2);
    let v = Value::decode_with_limits(b, d, n);
    let r = ValueRef::decode_with_limits(b, d, n);
    match (&v, &r) {
        (Ok(v), Ok(r)) => {
            vp::cover(0);
            chk!(r.to_owned() == *v);
            chk!(v.as_ref() == *r);
            chk!(v.as_ref().to_owned() == *v);
            chk!(v.to_vec() == r.to_vec());
        }
        (Err(a), Err(b)) => {
            vp::cover(1);
            chk!(a == b);
        }
        _ => chk!(false),
    }
}

fn c06_tree(mut budget: usize, depth: usize) {
    vp::covers(1);
    let s = bspec::tree(Gen { small_int: true, max_bytes: 2, max_key: 2 }, &mut budget, depth);
    let v = s.value();
    let r = s.value_ref();
    chk!(bspec::same(&s, &r.to_owned()));
    chk!(bspec::same_ref(&s, &v.as_ref()));
    chk!(r.to_owned() == v);
    chk!(v.as_ref() == r);
    chk!(v.as_ref().to_owned() == v);
    chk!(v.to_vec() == r.to_vec());
    vp::cover(0);
}

/// dictionaries with keys that may repeat or come in any order
fn c06_dup() {
    let n = vp::range(1, 3);
    let mut b = vec![b'd'];
    for _ in 0..n {
        b.extend_from_slice(&piece(2));
        b.extend_from_slice(&piece(vp::pick(2)));
    }
    b.push(b'e');
    c06(&b, None, None);
}

// ---- C07

fn small_tree(mut budget: usize) -> S {
    bspec::tree(Gen { small_int: true, max_bytes: 2, max_key: 1 }, &mut budget, 2)
}

/// Some and the very element meant
fn is_at<T>(a: Option<&T>, b: Option<&T>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(x), Some(y)) => std::ptr::eq(x, y),
        _ => false,
    }
}
/// the same part of memory
fn is_slice<T>(a: Option<&[T]>, b: Option<&[T]>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(x), Some(y)) => x.len() == y.len() && (x.is_empty() || std::ptr::eq(x.as_ptr(), y.as_ptr())),
        _ => false,
    }
}
fn text(b: Option<&[u8]>) -> Option<&str> {
    match b {
        Some(b) => std::str::from_utf8(b).ok(),
        None => None,
    }
}
fn is_str(a: Option<&str>, b: Option<&str>) -> bool {
    is_slice(a.map(|s| s.as_bytes()), b.map(|s| s.as_bytes()))
}

macro_rules! c07 {
    ($name:ident, $name_of:ident, $ty:ident, $of:ident) => {
        fn $name(budget: usize) {
            vp::covers(8);
            let s = small_tree(budget);
            let key = vp::vec(vp::range(0, 1));
            $name_of((s, key));
        }
        fn $name_of((s, kb): (S, Vec<u8>)) {
            let v = s.$of();
            let (int, bytes, list, dict) = match &v {
                $ty::Int(n) => (Some(*n), None, None, None),
                $ty::Bytes(b) => (None, Some(&b[..]), None, None),
                $ty::List(l) => (None, None, Some(l), None),
                $ty::Dict(d) => (None, None, None, Some(d)),
            };
            chk!(v.is_int() == int.is_some());
            chk!(v.is_string() == bytes.is_some());
            chk!(v.is_list() == list.is_some());
            chk!(v.is_dict() == dict.is_some());
            chk!(v.as_int() == int);
            chk!(is_slice(v.as_bytes(), bytes));
            chk!(is_str(v.as_str(), text(bytes)));
            chk!(is_slice(v.as_list(), list.map(|l| &l[..])));
            chk!(is_at(v.as_dict(), dict));
            chk!(v.list_len() == list.map(|l| l.len()));
            chk!(v.dict_len() == dict.map(|d| d.len()));

            let i = vp::usize();
            let at = match list {
                Some(l) if i < l.len() => Some(&l[i]),
                _ => None,
            };
            chk!(is_at(v.list_at(i), at));
            let (at_int, at_bytes) = match at {
                Some($ty::Int(n)) => (Some(*n), None),
                Some($ty::Bytes(b)) => (None, Some(&b[..])),
                _ => (None, None),
            };
            chk!(v.list_int_value_at(i) == at_int);
            chk!(is_str(v.list_string_value_at(i), text(at_bytes)));
            if at.is_some() {
                vp::cover(0);
            } else {
                vp::cover(1);
            }

            let key = match std::str::from_utf8(&kb) {
                Ok(k) => k,
                Err(_) => return,
            };
            let mut found = None;
            if let Some(d) = dict {
                for (k, e) in d {
                    if k.as_bytes() == key.as_bytes() {
                        found = Some(e);
                    }
                }
            }
            chk!(is_at(v.dict_find(key), found));
            let none = None;
            let (i, b, l, d) = match found {
                Some($ty::Int(_)) => (found, none, none, none),
                Some($ty::Bytes(_)) => (none, found, none, none),
                Some($ty::List(_)) => (none, none, found, none),
                Some($ty::Dict(_)) => (none, none, none, found),
                None => (none, none, none, none),
            };
            for (k, x) in [i, b, l, d].iter().enumerate() {
                if x.is_some() {
                    vp::cover(2 + k as u32);
                }
            }
            if found.is_none() {
                vp::cover(6);
            }
            chk!(is_at(v.dict_find_int(key), i));
            chk!(is_at(v.dict_find_str(key), b));
            chk!(is_at(v.dict_find_list(key), l));
            chk!(is_at(v.dict_find_dict(key), d));
            chk!(v.dict_find_int_value(key) == match found { Some($ty::Int(n)) => Some(*n), _ => None });
            chk!(is_str(v.dict_find_str_value(key), match found { Some($ty::Bytes(b)) => text(Some(&b[..])), _ => None }));
            chk!(is_slice(v.dict_find_list_value(key), match found { Some($ty::List(l)) => Some(&l[..]), _ => None }));

            // mutable and consuming access
            let mut w = v.clone();
            chk!(w.as_list_mut().map(|l| l.len()) == list.map(|l| l.len()));
            chk!(w.as_dict_mut().map(|l| l.len()) == dict.map(|l| l.len()));
            chk!(w == v);
            chk!(v.clone().into_list().as_ref() == list);
            chk!(v.clone().into_dict().as_ref() == dict);
            if let Some(l) = w.as_list_mut() {
                l.push($ty::Int(7));
                chk!(w.list_len() == list.map(|l| l.len() + 1));
                vp::cover(7);
            }
        }
    };
}
c07!(c07_owned, c07_owned_of, Value, value);
c07!(c07_ref, c07_ref_of, ValueRef, value_ref);

#[allow(unused)]
fn constructors() {
    let _ = (Value::with_int(1), ValueRef::with_int(1));
}

// ---- C35

/// nesting: few levels in the engine, whose frame limit is low as well, and
/// many when a violation is replayed
fn c35_levels() -> usize {
    vp::scale(80, 400_000)
}

/// which of the levels are dictionaries: a pattern of three
fn c35_kinds() -> [bool; 3] {
    [vp::pick(2) == 1, vp::pick(2) == 1, vp::pick(2) == 1]
}

fn c35_leaf() -> Vec<u8> {
    match vp::pick(3) {
        0 => {
            let d = vp::u8();
            vp::assume(d >= b'0' && d <= b'9');
            vec![b'i', d, b'e']
        }
        1 => vec![b'1', b':', vp::u8()],
        _ => vec![],
    }
}

/// a document of many levels: what opens them, a leaf, and what closes them
fn c35_doc(kinds: [bool; 3], leaf: &[u8], close: bool) -> Vec<u8> {
    let n = c35_levels();
    let mut v = vec![];
    for k in 0..n {
        if kinds[k % 3] && (k + 1 < n || !leaf.is_empty()) {
            v.extend_from_slice(b"d0:");
        } else if kinds[k % 3] {
            v.push(b'd');
        } else {
            v.push(b'l');
        }
    }
    v.extend_from_slice(leaf);
    if close {
        v.resize(v.len() + n, b'e');
    }
    v
}

fn c35_any_doc() -> Vec<u8> {
    c35_doc(c35_kinds(), &c35_leaf(), true)
}

fn c35_decode(borrowed: bool) {
    vp::covers(1);
    let d = c35_any_doc();
    if borrowed {
        let v = ValueRef::decode(&d);
        chk!(v.is_ok());
        std::mem::forget(v);
    } else {
        let v = Value::decode(&d);
        chk!(v.is_ok());
        std::mem::forget(v);
    }
    vp::cover(0);
}

/// a document that ends too early, or goes on with anything
fn c35_cut() {
    vp::covers(1);
    let mut d = c35_doc(c35_kinds(), &c35_leaf(), false);
    if vp::pick(2) == 1 {
        let c = vp::u8();
        // a container may not be complete when the error comes: see c35_error
        vp::assume(c != b'e');
        d.push(c);
    }
    chk!(Value::decode(&d).is_err());
    chk!(ValueRef::decode(&d).is_err());
    vp::cover(0);
}

fn c35_deep() -> Value {
    let kinds = c35_kinds();
    let mut v = match vp::pick(3) {
        0 => Value::Int(vp::i64()),
        1 => Value::Bytes(vec![vp::u8()]),
        _ => Value::List(vec![]),
    };
    for k in 0..c35_levels() {
        v = if kinds[k % 3] {
            let mut m = BTreeMap::new();
            m.insert(String::new(), v);
            Value::Dict(m)
        } else {
            Value::List(vec![v])
        };
    }
    v
}

fn c35_deep_ref() -> ValueRef<'static> {
    let kinds = c35_kinds();
    let mut v = match vp::pick(3) {
        0 => ValueRef::Int(vp::i64()),
        1 => ValueRef::Bytes(b"x"),
        _ => ValueRef::List(vec![]),
    };
    for k in 0..c35_levels() {
        v = if kinds[k % 3] {
            let mut m = BTreeMap::new();
            m.insert("", v);
            ValueRef::Dict(m)
        } else {
            ValueRef::List(vec![v])
        };
    }
    v
}

fn c35_encode() {
    vp::covers(1);
    let d = c35_any_doc();
    let v = Value::decode(&d);
    match &v {
        Ok(v) => chk!(v.to_vec() == d),
        Err(_) => chk!(false),
    }
    vp::cover(0);
    std::mem::forget(v);
}

fn c35_encode_ref() {
    vp::covers(1);
    let d = c35_any_doc();
    let v = ValueRef::decode(&d);
    match &v {
        Ok(v) => chk!(v.to_vec() == d),
        Err(_) => chk!(false),
    }
    vp::cover(0);
    std::mem::forget(v);
}

fn c35_walk() {
    vp::covers(1);
    let v = c35_deep();
    let mut n = 0;
    let mut x = &v;
    loop {
        x = match x.list_at(0).or_else(|| x.dict_find("")) {
            Some(y) => y,
            None => break,
        };
        n += 1;
    }
    chk!(n == c35_levels());
    vp::cover(0);
    std::mem::forget(v);
}

fn c35_walk_ref() {
    vp::covers(1);
    let v = c35_deep_ref();
    let mut n = 0;
    let mut x = &v;
    loop {
        x = match x.list_at(0).or_else(|| x.dict_find("")) {
            Some(y) => y,
            None => break,
        };
        n += 1;
    }
    chk!(n == c35_levels());
    vp::cover(0);
    std::mem::forget(v);
}

fn c35_drop_ref() {
    drop(c35_deep_ref());
}

/// an error after a complete deep value
fn c35_error(borrowed: bool) {
    let mut d = c35_any_doc();
    d.push(b'x');
    if borrowed {
        chk!(ValueRef::decode(&d).is_err());
    } else {
        chk!(Value::decode(&d).is_err());
    }
}

fn c35_clone() {
    let v = c35_deep();
    std::mem::forget(v.clone());
    std::mem::forget(v);
}

fn c35_clone_ref() {
    let v = c35_deep_ref();
    std::mem::forget(v.clone());
    std::mem::forget(v);
}

fn c35_to_owned() {
    let v = c35_deep_ref();
    std::mem::forget(v.to_owned());
    std::mem::forget(v);
}

fn c35_as_ref() {
    let v = c35_deep();
    std::mem::forget(v.as_ref());
    std::mem::forget(v);
}

fn c35_eq() {
    let kinds = c35_kinds();
    let d = c35_doc(kinds, b"i1e", true);
    let (a, b) = (Value::decode(&d), Value::decode(&d));
    chk!(a.is_ok() && a.as_ref().ok() == b.as_ref().ok());
    std::mem::forget((a, b));
}

fn c35_eq_ref() {
    let kinds = c35_kinds();
    let d = c35_doc(kinds, b"i1e", true);
    let (a, b) = (ValueRef::decode(&d), ValueRef::decode(&d));
    chk!(a.is_ok() && a.as_ref().ok() == b.as_ref().ok());
    std::mem::forget((a, b));
}

fn c35_cmp() {
    let kinds = c35_kinds();
    let d = c35_doc(kinds, b"i1e", true);
    let (a, b) = (Value::decode(&d), Value::decode(&d));
    chk!(a.is_ok() && a.as_ref().ok().partial_cmp(&b.as_ref().ok()) == Some(std::cmp::Ordering::Equal));
    std::mem::forget((a, b));
}

// ---- C39

fn c39_run(s: &S, borrowed: bool) {
    let mut want = vec![];
    bspec::encode(s, &mut want);
    let room = if want.len() < 40 {
        vp::range(0, want.len() + 1)
    } else {
        // the ends, and around every change of length field and content
        let n = want.len();
        [0, 1, 2, 3, 4, 5, 6, n / 2, n - 2, n - 1, n, n + 1][vp::pick(12)]
    };
    let mut w = Pieces::any(b"x".to_vec(), room);
    if want.len() >= 40 {
        w.step = [w.step, 64, 100_000][vp::pick(3)];
    }
    let quiet = w.quiet;
    let r = if borrowed { s.value_ref().encode(&mut w) } else { s.value().encode(&mut w) };
    chk!(w.buf[0] == b'x');
    match r {
        Ok(()) => {
            vp::cover(0);
            chk!(room >= want.len());
            chk!(w.buf[1..] == want);
        }
        Err(e) => {
            vp::cover(1);
            chk!(room < want.len());
            chk!(w.buf[1..] == want[..room]);
            chk!(e.kind() == if quiet { std::io::ErrorKind::WriteZero } else { std::io::ErrorKind::TimedOut });
        }
    }
}

fn c39_tree() {
    vp::covers(2);
    let s = match vp::pick(6) {
        0 => S::I([0, -1, 42, i64::MIN, i64::MAX][vp::pick(5)]),
        1 => S::B(vp::vec(vp::range(0, 3))),
        2 => S::L(vec![]),
        3 => S::D(vec![]),
        4 => S::L(vec![S::I(7), S::B(vp::vec(2)), S::D(vec![])]),
        _ => S::D(vec![(b"b".to_vec(), S::L(vec![S::I(-3)])), (b"a".to_vec(), S::B(vp::vec(1)))]),
    };
    c39_run(&s, vp::pick(2) == 1);
}

fn c39_long() {
    vp::covers(2);
    let b = filled([99, 300, 5000][vp::pick(3)]);
    let s = match vp::pick(2) {
        0 => S::L(vec![S::B(b), S::I(1)]),
        _ => S::D(vec![(vec![b'k'; 120], S::B(b))]),
    };
    c39_run(&s, vp::pick(2) == 1);
}

// ---- C40

use std::cmp::Ordering;

fn rank(s: &S) -> usize {
    match s {
        S::I(_) => 0,
        S::B(_) => 1,
        S::L(_) => 2,
        S::D(_) => 3,
    }
}

/// what two values of the same kind say about each other
fn c40_of(a: &S, b: &S) {
    let (va, vb) = (a.value(), b.value());
    let (ra, rb) = (a.value_ref(), b.value_ref());
    let (mut ea, mut eb) = (vec![], vec![]);
    bspec::encode(a, &mut ea);
    bspec::encode(b, &mut eb);
    let eq = ea == eb;
    chk!((va == vb) == eq);
    chk!((vb == va) == eq);
    chk!((ra == rb) == eq);
    chk!((va != vb) != eq);
    chk!((ra != rb) != eq);
    let o = va.partial_cmp(&vb);
    chk!(o.is_some());
    chk!((o == Some(Ordering::Equal)) == eq);
    chk!(vb.partial_cmp(&va) == o.map(|o| o.reverse()));
    chk!(ra.partial_cmp(&rb) == o);
    chk!((va < vb) == (o == Some(Ordering::Less)));
    chk!((va > vb) == (o == Some(Ordering::Greater)));
    chk!((va <= vb) == (o != Some(Ordering::Greater)));
    if let (S::I(x), S::I(y)) = (a, b) {
        chk!(o == Some(x.cmp(y)));
    }
    if let (S::B(x), S::B(y)) = (a, b) {
        chk!(o == Some(x.cmp(y)));
    }
    if rank(a) != rank(b) {
        // kinds are never mixed up
        chk!(!eq);
    }
    // copies are equal to their originals
    let (ca, cr) = (va.clone(), ra.clone());
    chk!(ca == va && cr == ra);
    chk!(bspec::same(a, &ca) && bspec::same_ref(a, &cr));
    if eq {
        vp::cover(0);
    } else {
        vp::cover(1);
    }
}

fn c40_pair(n: usize) {
    vp::covers(2);
    let g = Gen { small_int: true, max_bytes: 1, max_key: 1 };
    let (mut x, mut y) = (n, n);
    let a = bspec::tree(g, &mut x, 2);
    let b = bspec::tree(g, &mut y, 2);
    c40_of(&a, &b);
}

fn c40_leaf() {
    vp::covers(2);
    let a = vp::pick(2) == 0;
    // integers alone: the text of an arbitrary one is C01
    if a {
        let (x, y) = (vp::i64(), vp::i64());
        let (va, vb) = (Value::Int(x), Value::Int(y));
        chk!((va == vb) == (x == y));
        chk!(va.partial_cmp(&vb) == Some(x.cmp(&y)));
        chk!((ValueRef::Int(x) == ValueRef::Int(y)) == (x == y));
        chk!(ValueRef::Int(x).partial_cmp(&ValueRef::Int(y)) == Some(x.cmp(&y)));
        chk!(va.clone() == va);
    } else {
        let x = S::B(vp::vec(vp::range(0, 6)));
        let y = S::B(vp::vec(vp::range(0, 6)));
        c40_of(&x, &y);
    }
    if a {
        vp::cover(0);
    } else {
        vp::cover(1);
    }
}

/// one of a few shapes with arbitrary content
fn shape() -> S {
    match vp::pick(5) {
        0 => S::I((vp::u8() & 3) as i64),
        1 => S::B(vp::vec(vp::range(0, 1))),
        2 => S::L(vec![S::I((vp::u8() & 3) as i64)]),
        3 => S::L(vec![]),
        _ => S::D(vec![(vec![vp::u8() & 1], S::I((vp::u8() & 3) as i64))]),
    }
}

fn c40_triple() {
    vp::covers(1);
    let (a, b, c) = (shape(), shape(), shape());
    let (a, b, c) = (a.value(), b.value(), c.value());
    if a <= b && b <= c {
        vp::cover(0);
        chk!(a <= c);
        chk!((a == c) == (a == b && b == c));
    }
    chk!(!(a < b && b < a));
}

fn c40_wide() {
    vp::covers(2);
    let (s, _) = wide();
    let mut t = s.clone();
    // one place differs, or nothing
    match &mut t {
        S::L(l) => {
            let n = l.len();
            match vp::pick(4) {
                0 => {}
                1 => l[n - 1] = S::B(vec![vp::u8()]),
                2 => l[0] = S::I(vp::range(0, 1) as i64),
                _ => {
                    l.pop();
                }
            }
        }
        S::D(d) => {
            let n = d.len();
            match vp::pick(4) {
                0 => {}
                1 => d[n - 1].1 = S::B(vec![vp::u8()]),
                2 => d[0].0.push(b'z'),
                _ => {
                    d.pop();
                }
            }
        }
        _ => {}
    }
    c40_of(&s, &t);
}

// ---- C41

fn c41_make() {
    vp::covers(5);
    match vp::pick(5) {
        0 => {
            let n = vp::i64();
            chk!(matches!(Value::with_int(n), Value::Int(m) if m == n));
            chk!(matches!(ValueRef::with_int(n), ValueRef::Int(m) if m == n));
            vp::cover(0);
        }
        1 => {
            let b = vp::vec(vp::range(0, 5));
            if let Ok(s) = std::str::from_utf8(&b) {
                chk!(matches!(Value::with_str(s), Value::Bytes(x) if x == b));
                chk!(matches!(Value::with_string(s.to_string()), Value::Bytes(x) if x == b));
                chk!(matches!(ValueRef::with_str(s), ValueRef::Bytes(x) if x == &b[..]));
                vp::cover(1);
            }
        }
        2 => {
            let b = vp::vec(vp::range(0, 20));
            chk!(matches!(Value::from(&b[..]), Value::Bytes(x) if x == b));
            chk!(matches!(Value::from(b.clone()), Value::Bytes(x) if x == b));
            chk!(matches!(ValueRef::from(&b[..]), ValueRef::Bytes(x) if x == &b[..]));
            vp::cover(2);
        }
        k => {
            let g = Gen { small_int: true, max_bytes: 1, max_key: 1 };
            let mut n = 3;
            let s = bspec::tree(g, &mut n, 2);
            match (&s, k) {
                (S::L(_), 3) => {
                    let l = s.value().into_list().unwrap();
                    chk!(bspec::same(&s, &Value::with_list(l)));
                    let l = s.value_ref().into_list().unwrap();
                    chk!(bspec::same_ref(&s, &ValueRef::with_list(l)));
                    vp::cover(3);
                }
                (S::D(_), 4) => {
                    let l = s.value().into_dict().unwrap();
                    chk!(bspec::same(&s, &Value::with_dict(l)));
                    let l = s.value_ref().into_dict().unwrap();
                    chk!(bspec::same_ref(&s, &ValueRef::with_dict(l)));
                    vp::cover(4);
                }
                _ => {}
            }
        }
    }
}

/// a text is read like its bytes
fn c41_text(n: usize) {
    vp::covers(2);
    let b = free(n);
    if let Ok(s) = std::str::from_utf8(&b) {
        let t: std::result::Result<Value, Error> = s.parse();
        let d = Value::decode(&b);
        match (t, d) {
            (Ok(t), Ok(d)) => {
                vp::cover(0);
                chk!(t == d);
            }
            (Err(t), Err(d)) => {
                vp::cover(1);
                chk!(t == d);
            }
            _ => chk!(false),
        }
    }
}

/// the text of a value is its encoding, with anything that is not UTF-8 replaced
fn c41_show() {
    vp::covers(2);
    let s = match vp::pick(6) {
        0 => S::B(vp::vec(vp::range(0, 4))),
        1 => S::L(vec![S::I((vp::u8() % 10) as i64), S::B(vp::vec(2))]),
        2 => S::D(vec![(b"k".to_vec(), S::B(vp::vec(vp::range(0, 2))))]),
        3 => S::L(vec![S::B(filled([99, 300, 1030, 5000][vp::pick(4)])), S::I(7)]),
        4 => wide_of(260).0,
        _ => wide().0,
    };
    let mut want = vec![];
    bspec::encode(&s, &mut want);
    match std::str::from_utf8(&want) {
        Ok(w) => {
            vp::cover(0);
            chk!(s.value().to_string() == w);
            chk!(s.value_ref().to_string() == w);
        }
        Err(_) => {
            vp::cover(1);
            let w = String::from_utf8_lossy(&want).into_owned();
            chk!(s.value().to_string() == w);
            chk!(s.value_ref().to_string() == w);
        }
    }
}

fn c41_error() {
    vp::covers(1);
    let b = vp::u8();
    let all = || {
        [
            Error::IO,
            Error::EOF,
            Error::ParseInt,
            Error::ParseBytes,
            Error::ParseString,
            Error::ParseList,
            Error::ParseDict,
            Error::InvalidChar(b),
            Error::ExpectedChar(b),
            Error::DepthLimit,
            Error::ItemLimit,
        ]
    };
    let k = vp::pick(11);
    let e = all().into_iter().nth(k).unwrap();
    for (i, o) in all().iter().enumerate() {
        chk!((&e == o) == (i == k));
    }
    chk!(!e.to_string().is_empty());
    let io: std::io::Error = e.into();
    let want = match k {
        0 => std::io::ErrorKind::Other,
        1 => std::io::ErrorKind::UnexpectedEof,
        _ => std::io::ErrorKind::InvalidData,
    };
    chk!(io.kind() == want);
    chk!(!io.to_string().is_empty());
    vp::cover(0);
}
