//! C26-C33: the torrent-rs crate.
use crate::{chk, vp};
use torrent_rs::vp_hooks::*;
use std::str::FromStr;

harnesses! {
    h_c26_bytes => c26_bytes(6);
    h_c26_bytes8 => c26_bytes(8);
    h_c26_bytes10 => c26_bytes(10);
    h_c26_text => c26_text(5);
    h_c26_text7 => c26_text(7);
    h_c26_back => c26_back(3);
    h_c26_back4 => c26_back(4);
    h_c26_long => c26_long(1);
    h_c26_long2 => c26_long(2);

    h_c27_back => c27_back(11, 2);
    h_c27_back20 => c27_back(20, 3);
    h_c27_text => c27_text(4, 0);
    h_c27_text6 => c27_text(6, 0);
    h_c27_text8 => c27_text(8, 0);
    h_c27_group => c27_text(3, 6);
    h_c27_group5 => c27_text(5, 6);
    h_c27_long => c27_long();
    h_c27_long_text => c27_long_text();

    h_c28_split => c28_split(7);
    h_c28_split9 => c28_split(9);
    h_c28_split13 => c28_split(13);
    h_c28_trim => c28_trim(7);
    h_c28_trim9 => c28_trim(9);
    h_c28_trim13 => c28_trim(13);
    h_c28_int => c28_int(4);
    h_c28_int_edge => c28_int_edge();
    h_c28_long => c28_long();
    h_c28_trim_long => c28_trim_long();
    h_c28_int_long => c28_int_long();

    h_c29_url => c29(b"", 4, b"");
    h_c29_scheme => c29_scheme();
    h_c29_query => c29(b"magnet:?", 3, b"");
    h_c29_field2 => c29_field(2, 0);
    h_c29_field3 => c29_field(3, 0);
    h_c29_two => c29_field(1, 1);
    h_c29_so => c29_so(3, b'9');
    h_c29_so5 => c29_so(5, b'1');
    h_c29_so4 => c29_so(4, b'9');
    h_c29_so6 => c29_so(6, b'1');

    h_c29_window => c29_window(1);
    h_c29_window2 => c29_window(2);
    h_c29_long => c29_long();
    h_c30_hex => c30_hex(2);
    h_c30_hex3 => c30_hex(3);
    h_c30_base32 => c30_base32();
    h_c30_text32 => c30_text32(2);
    h_c30_length => c30_length();
    h_c30_among3 => c30_among(3);
    h_c30_among4 => c30_among(4);
    h_c30_back => c30_back(2);

    h_c31_so => c31_so(3, b'9');
    h_c31_so4 => c31_so(4, b'9');
    h_c31_so5 => c31_so(5, b'1');
    h_c31_so6 => c31_so(6, b'1');
    h_c31_so7 => c31_so(7, b'1');
    h_c31_so_limit => c31_so_limit();
    h_c31_so_two => c31_so_two();
    h_c31_order => c31_order(3);
    h_c31_order4 => c31_order(4);
    h_c31_order5 => c31_order(5);
    h_c31_text => c31_text(2);
    h_c31_text3 => c31_text(3);
    h_c31_peer => c31_peer();
    h_c31_node => c31_node();
    h_c31_many => c31_many();
    h_c31_into => c31_into();
    h_c31_so_many => c31_so_many();

    h_c32_fields => c32_fields();
    h_c32_int => c32_int();
    h_c32_edge => c32_edge();
    h_c32_files => c32_files(2, 2);
    h_c32_files3 => c32_files(3, 2);
    h_c32_name => c32_name(4);
    h_c32_url => c32_url(2);
    h_c32_free => c32_free(5);
    h_c32_cut => c32_cut();
    h_c32_types => c32_types();
    h_c32_extra => c32_extra();
    h_c32_many => c32_many();
    h_c32_long => c32_long();

    h_c33_name => c33_name(5);
    h_c33_name7 => c33_name(7);
    h_c33_name10 => c33_name(10);
    h_c33_dir => c33_dir(3, 2);
    h_c33_dir4 => c33_dir(4, 3);
    h_c33_path => c33_path(3, 2);
    h_c33_path3 => c33_path(3, 3);
    h_c33_path4 => c33_path(4, 3);
    h_c33_long => c33_long(2);
    h_c33_long3 => c33_long(3);
    h_c33_many => c33_many(2);
    h_c33_many3 => c33_many(3);
}

// ---- C26

fn hexv(c: u8) -> Option<u8> {
    match c {
        b'0'..=b'9' => Some(c - b'0'),
        b'a'..=b'f' => Some(c - b'a' + 10),
        b'A'..=b'F' => Some(c - b'A' + 10),
        _ => None,
    }
}

/// what unescaping means
fn unescaped(s: &[u8]) -> Option<Vec<u8>> {
    let mut out = vec![];
    let mut k = 0;
    while k < s.len() {
        if s[k] == b'%' {
            if k + 2 >= s.len() {
                return None;
            }
            match (hexv(s[k + 1]), hexv(s[k + 2])) {
                (Some(h), Some(l)) => out.push(h << 4 | l),
                _ => return None,
            }
            k += 3;
        } else {
            out.push(if s[k] == b'+' { b' ' } else { s[k] });
            k += 1;
        }
    }
    Some(out)
}

fn c26_bytes(n: usize) {
    vp::covers(3);
    let s = vp::vec(vp::range(0, n));
    let r = unescape_bytes(&s);
    match unescaped(&s) {
        Some(w) => {
            if w.len() < s.len() {
                vp::cover(0);
            } else {
                vp::cover(1);
            }
            let r = r.ok();
            chk!(r.is_some());
            let r = r.unwrap();
            chk!(r.len() == w.len());
            chk!(r == w);
        }
        None => {
            vp::cover(2);
            chk!(r.is_err());
        }
    }
}

fn c26_text(n: usize) {
    vp::covers(3);
    let s = vp::vec(vp::range(0, n));
    let r = unescape_string(&s);
    match unescaped(&s) {
        Some(w) => match String::from_utf8(w) {
            Ok(w) => {
                vp::cover(0);
                let r = r.ok();
                chk!(r.is_some());
                chk!(r.unwrap() == w);
            }
            Err(_) => {
                vp::cover(1);
                chk!(r.is_err());
            }
        },
        None => {
            vp::cover(2);
            chk!(r.is_err());
        }
    }
}

/// escaping in any style and back
fn c26_back(n: usize) {
    vp::covers(3);
    let b = vp::vec(vp::range(0, n));
    let mut s = vec![];
    for &c in &b {
        match vp::pick(3) {
            0 => {
                vp::cover(0);
                let up = vp::u8();
                let dig = |d: u8, low: bool| {
                    if d < 10 {
                        b'0' + d
                    } else if low {
                        b'a' + d - 10
                    } else {
                        b'A' + d - 10
                    }
                };
                s.push(b'%');
                s.push(dig(c >> 4, up & 1 == 1));
                s.push(dig(c & 15, up & 2 == 2));
            }
            1 => {
                vp::cover(1);
                vp::assume(c == b' ');
                s.push(b'+');
            }
            _ => {
                vp::cover(2);
                vp::assume(c != b'%' && c != b'+');
                s.push(c);
            }
        }
    }
    let r = unescape_bytes(&s);
    chk!(r.is_ok());
    chk!(r.ok() == Some(b));
}

// ---- C27

/// the value of a base32 digit; 32 for padding, 255 for anything else
fn b32(c: u8) -> u8 {
    match c {
        b'A'..=b'Z' => c - b'A',
        b'a'..=b'z' => c - b'a',
        b'2'..=b'7' => c - b'2' + 26,
        b'1' => 8,
        b'=' => 32,
        _ => 255,
    }
}

/// encode bytes (two of them arbitrary) and decode
fn c27_back(n: usize, window: usize) {
    vp::covers(4);
    let len = vp::range(0, n);
    let mut b: Vec<u8> = (0..len).map(|k| (k as u8).wrapping_mul(83) ^ 0x5a).collect();
    if len > 0 {
        let at = vp::pick(len as u8);
        let w = window.min(len - at);
        vp::fill(&mut b[at..at + w]);
    }
    let style = vp::pick(4);
    let mut s = vec![];
    let chars = (len * 8 + 4) / 5;
    for k in 0..chars {
        let bit = |i: usize| if i / 8 < len { b[i / 8] >> (7 - i % 8) & 1 } else { 0 };
        let mut d = 0u8;
        for j in 0..5 {
            d = d << 1 | bit(5 * k + j);
        }
        s.push(digit(d, style, k));
    }
    let pad = vp::pick(2) == 1;
    if pad {
        vp::cover(0);
        while s.len() % 8 != 0 {
            s.push(b'=');
        }
    } else {
        vp::cover(1);
    }
    if len % 5 == 0 {
        vp::cover(2);
    } else {
        vp::cover(3);
    }
    let r = base32_decode(&s);
    chk!(r.len() == b.len());
    chk!(r == b);
}

/// a character for a digit: upper case, lower case, mixed, or '1' for 8
fn digit(d: u8, style: usize, k: usize) -> u8 {
    if style == 3 && d == 8 {
        return b'1';
    }
    let low = style == 1 || style == 2 && k % 2 == 1;
    if d < 26 {
        (if low { b'a' } else { b'A' }) + d
    } else {
        b'2' + (d - 26)
    }
}

/// any text: nothing unless all characters are digits or padding; each group
/// of eight gives the bytes of its digits before the first padding
fn c27_text(n: usize, lead: usize) {
    vp::covers(3);
    let mut s = b"MZXW6YTBOI"[..lead].to_vec();
    if lead > 0 && vp::pick(2) == 1 {
        s.extend_from_slice(b"CD");
    }
    s.extend(vp::vec(vp::range(0, n)));
    let r = base32_decode(&s);
    if s.iter().any(|c| b32(*c) == 255) {
        vp::cover(0);
        chk!(r.is_empty());
        return;
    }
    let mut at = 0;
    let mut loose = 0;
    for g in s.chunks(8) {
        let k = g.iter().position(|c| *c == b'=').unwrap_or(g.len());
        if k < g.len() {
            vp::cover(1);
        } else {
            vp::cover(2);
        }
        let full = k * 5 / 8;
        for i in 0..full {
            let mut v = 0u8;
            for j in 8 * i..8 * i + 8 {
                v = v << 1 | (b32(g[j / 5]) >> (4 - j % 5) & 1);
            }
            chk!(loose > 0 || r.get(at + i) == Some(&v));
        }
        at += full;
        // a group that no encoder writes may show the rest of its last digit
        if k == 1 || k == 3 || k == 6 {
            loose += 1;
        }
    }
    chk!(r.len() >= at && r.len() <= at + loose);
}

// ---- C28

fn c28_split(n: usize) {
    vp::covers(4);
    let s = vp::vec(vp::range(0, n));
    split_check(&s, vp::u8());
}

fn split_check(s: &[u8], sep: u8) {
    let (a, b) = split_string(s, sep);
    chk!(a.len() + b.len() <= s.len() && a.len() + b.len() + 1 >= s.len());
    chk!(s.starts_with(a) && s.ends_with(b));
    if s.is_empty() {
        return;
    }
    chk!(b.len() < s.len());
    let gone = s.len() - a.len() - b.len();
    if gone == 1 {
        vp::cover(0);
        chk!(s[a.len()] == sep);
    } else {
        // nothing is split off: there is no rest
        vp::cover(1);
        chk!(b.is_empty());
    }
    // the leading quoted section
    let mut q = 0;
    if s[0] == b'"' && sep != b'"' {
        match s[1..].iter().position(|c| *c == b'"') {
            Some(p) => {
                vp::cover(2);
                q = p + 2;
                chk!(a.len() >= q);
            }
            None => {
                vp::cover(3);
                chk!(a.len() + 1 >= s.len());
                return;
            }
        }
    }
    chk!(!a[q..].contains(&sep));
}

fn c28_trim(n: usize) {
    vp::covers(2);
    let s = vp::vec(vp::range(0, n));
    let r = trim(&s);
    let w = |c: u8| c == b' ' || c == b'\t' || c == b'\r' || c == b'\n';
    let mut i = 0;
    let mut j = s.len();
    while i < j && w(s[i]) {
        i += 1;
    }
    while j > i && w(s[j - 1]) {
        j -= 1;
    }
    chk!(r.len() == j - i);
    chk!(r == &s[i..j]);
    if r.is_empty() {
        vp::cover(0);
    } else {
        vp::cover(1);
    }
}

fn int_spec(s: &[u8]) -> Option<isize> {
    let (neg, d) = match s.first() {
        Some(b'-') => (true, &s[1..]),
        Some(b'+') => (false, &s[1..]),
        _ => (false, s),
    };
    if d.is_empty() || !d.iter().all(|c| *c >= b'0' && *c <= b'9') {
        return None;
    }
    let z = d.iter().position(|c| *c != b'0').unwrap_or(d.len());
    let d = &d[z..];
    if d.len() > 19 {
        return None;
    }
    // at most 19 digits: no overflow
    let mut v = 0u64;
    for c in d {
        v = v.wrapping_mul(10).wrapping_add((*c - b'0') as u64);
    }
    if neg {
        if v > 1 << 63 {
            return None;
        }
        Some((v as i64).wrapping_neg() as isize)
    } else {
        if v >= 1 << 63 {
            return None;
        }
        Some(v as isize)
    }
}

fn int_check(s: &[u8]) {
    vp::covers(2);
    let r = parse_int(s);
    match int_spec(s) {
        Some(v) => {
            vp::cover(0);
            chk!(r.is_ok());
            chk!(r.unwrap_or(v.wrapping_add(1)) == v);
        }
        None => {
            vp::cover(1);
            chk!(r.is_err());
        }
    }
}

fn c28_int(n: usize) {
    let s = vp::vec(vp::range(0, n));
    int_check(&s);
}

/// around the ends of the range: a sign, a fixed run and three arbitrary characters
fn c28_int_edge() {
    const MID: [&[u8]; 5] = [b"9223372036854775", b"92233720368547758", b"99999999999999999", b"0000000000000000000", b"1"];
    let mut s = vec![];
    match vp::pick(4) {
        0 => s.push(b'-'),
        1 => s.push(b'+'),
        2 => s.push(vp::u8()),
        _ => {}
    }
    s.extend_from_slice(MID[vp::pick(5)]);
    let k = vp::range(1, 3);
    s.extend(vp::vec(k));
    int_check(&s);
}

// ---- C29-C31

/// assume that the bytes are UTF-8
fn text(b: &[u8]) -> &str {
    let r = std::str::from_utf8(b);
    vp::assume(r.is_ok());
    r.unwrap_or("")
}

const HEX40: &str = "0123456789abcdefABCDEF6789abcdef01234567";

fn parses(s: &str) -> Option<TorrentParams> {
    match TorrentParams::from_str(s) {
        Ok(p) => {
            chk!(p.file_priorities.len() <= 10_001);
            chk!(p.trackers.len() == p.tracker_tiers.len());
            Some(p)
        }
        Err(_) => None,
    }
}

fn c29(before: &[u8], n: usize, after: &[u8]) {
    vp::covers(1);
    let mut b = before.to_vec();
    b.extend(vp::vec(vp::range(0, n)));
    b.extend_from_slice(after);
    let s = text(&b);
    vp::cover(0);
    parses(s);
}

/// other schemes and other parts before the query
fn c29_scheme() {
    const HEAD: [&str; 4] = ["magnet:", "m", "magnet:x?xt=urn:btih:", "x:?tr="];
    let mut b = HEAD[vp::pick(4)].as_bytes().to_vec();
    b.extend(vp::vec(vp::range(0, 3)));
    parses(text(&b));
}

const FIELD: [&str; 10] = ["dn", "tr", "ws", "xt", "xt=urn:btih:", "so", "x.pe", "dht", "x", ""];

/// one or two fields with arbitrary values, and a good info-hash before or after
fn c29_field(n: usize, m: usize) {
    vp::covers(3);
    let mut b = b"magnet:?".to_vec();
    let first = vp::pick(2) == 0;
    if first {
        b.extend_from_slice(b"xt=urn:btih:");
        b.extend_from_slice(HEX40.as_bytes());
        b.push(b'&');
    }
    for k in [n, m] {
        if k == 0 {
            continue;
        }
        let f = FIELD[vp::pick(10)];
        b.extend_from_slice(f.as_bytes());
        if !f.ends_with(':') {
            b.push(b'=');
        }
        b.extend(vp::vec(vp::range(0, k)));
        b.push(b'&');
    }
    if !first {
        b.extend_from_slice(b"xt=urn:btih:");
        b.extend_from_slice(HEX40.as_bytes());
    }
    match parses(text(&b)) {
        Some(p) => {
            vp::cover(0);
            chk!(p.info_hash[0] == 1 && p.info_hash[19] == 0x67);
            if !p.trackers.is_empty() || !p.url_seeds.is_empty() {
                vp::cover(1);
            }
        }
        None => vp::cover(2),
    }
}

const LINK: [&str; 4] = [
    "magnet:?xt=urn:btih:",
    "magnet:?dn=a+b&tr=http%3A%2F%2Ft&xt=urn:btih:",
    "magnet:?so=1-3,5&x.pe=1.2.3.4:5&xt=urn:btih:",
    "magnet:?x.pe=[::1]:5&dht=h:1&ws=u&xt=urn:btih:",
];

/// a good link in which a character before the hash is replaced by any one of
/// one byte or by one of two, three or four, or w bytes by any others, with or
/// without the hash
fn c29_window(w: usize) {
    vp::covers(2);
    let mut b = LINK[vp::pick(4)].as_bytes().to_vec();
    let at = 6 + vp::pick((b.len() - 5 - w) as u8);
    let k = vp::pick(4);
    if k == 0 {
        vp::fill(&mut b[at..at + w]);
        for c in &mut b[at..at + w] {
            // a digit may be part of an index, the length of a loop
            if c.is_ascii_digit() {
                *c = vp::conc(*c as u64) as u8;
            }
        }
    } else {
        let c = ["\u{e9}", "\u{20ac}", "\u{1f600}"][k - 1];
        b.splice(at..at + 1, c.bytes());
    }
    if vp::pick(2) == 0 {
        b.extend_from_slice(HEX40.as_bytes());
    }
    match parses(text(&b)) {
        Some(_) => vp::cover(0),
        None => vp::cover(1),
    }
}

/// a file selection of the characters that it may have
fn so_text(n: usize, top: u8) -> Vec<u8> {
    let mut v = vp::vec(vp::range(0, n));
    for c in &mut v {
        vp::assume((*c >= b'0' && *c <= top) | (*c == b'-') | (*c == b','));
        // an index is the length of a loop: one path for each
        *c = vp::conc(*c as u64) as u8;
    }
    v
}

fn link(fields: &[(&str, &[u8])]) -> Vec<u8> {
    let mut b = b"magnet:?xt=urn:btih:".to_vec();
    b.extend_from_slice(HEX40.as_bytes());
    for (k, v) in fields {
        b.push(b'&');
        b.extend_from_slice(k.as_bytes());
        b.push(b'=');
        b.extend_from_slice(v);
    }
    b
}

fn c29_so(n: usize, top: u8) {
    vp::covers(2);
    let v = so_text(n, top);
    let b = link(&[("so", &v)]);
    match parses(text(&b)) {
        Some(_) => vp::cover(0),
        None => vp::cover(1),
    }
}

// ---- C30

fn hash_of(p: &TorrentParams) -> [u8; 20] {
    let mut h = [0; 20];
    h.copy_from_slice(&p.info_hash[..]);
    h
}

/// 40 characters of which a few are arbitrary
fn c30_hex(n: usize) {
    vp::covers(2);
    let mut h = HEX40.as_bytes().to_vec();
    let at = vp::pick((41 - n) as u8);
    vp::fill(&mut h[at..at + n]);
    let mut b = b"magnet:?xt=urn:btih:".to_vec();
    b.extend_from_slice(&h);
    if vp::pick(2) == 1 {
        b.extend_from_slice(b"&dn=x");
    }
    let r = parses(text(&b));
    let mut w = [0u8; 20];
    let mut good = true;
    for k in 0..20 {
        match (hexv(h[2 * k]), hexv(h[2 * k + 1])) {
            (Some(a), Some(c)) => w[k] = a << 4 | c,
            _ => good = false,
        }
    }
    if good {
        vp::cover(0);
        chk!(r.is_some());
        chk!(hash_of(&r.unwrap()) == w);
    } else {
        vp::cover(1);
        chk!(r.is_none());
    }
}

/// any hash in base32
fn c30_base32() {
    vp::covers(1);
    let mut h = [0u8; 20];
    for k in 0..20 {
        h[k] = (k as u8).wrapping_mul(83) ^ 0x5a;
    }
    let at = vp::pick(19);
    vp::fill(&mut h[at..at + 2]);
    let style = vp::pick(4);
    let mut b = b"magnet:?xt=urn:btih:".to_vec();
    for k in 0..32 {
        let mut d = 0u8;
        for i in 5 * k..5 * k + 5 {
            d = d << 1 | (h[i / 8] >> (7 - i % 8) & 1);
        }
        b.push(digit(d, style, k));
    }
    let r = parses(text(&b));
    chk!(r.is_some());
    chk!(hash_of(&r.unwrap()) == h);
    vp::cover(0);
}

/// 32 characters of which a few are arbitrary
fn c30_text32(n: usize) {
    vp::covers(2);
    let mut h = b"MZXW6YTBOI2345672ABCDEFGHIJKLMNO".to_vec();
    let at = vp::pick((33 - n) as u8);
    vp::fill(&mut h[at..at + n]);
    let mut b = b"magnet:?xt=urn:btih:".to_vec();
    b.extend_from_slice(&h);
    let r = parses(text(&b));
    if h.iter().all(|c| b32(*c) < 32) {
        vp::cover(0);
        chk!(r.is_some());
        let got = hash_of(&r.unwrap());
        for i in 0..20 {
            let mut v = 0u8;
            for j in 8 * i..8 * i + 8 {
                v = v << 1 | (b32(h[j / 5]) >> (4 - j % 5) & 1);
            }
            chk!(got[i] == v);
        }
    } else {
        vp::cover(1);
        chk!(r.is_none());
    }
}

/// hashes of other lengths, and none at all
fn c30_length() {
    vp::covers(3);
    let n = vp::range(0, 50);
    let c = [b'a', b'7', b'Z', b'0'][vp::pick(4)];
    let mut b = b"magnet:?".to_vec();
    let kind = vp::pick(4);
    b.extend_from_slice([&b"xt=urn:btih:"[..], b"xt=urn:sha1:", b"xt=", b"x.t=urn:btih:"][kind]);
    for _ in 0..n {
        b.push(c);
    }
    let r = TorrentParams::from_str(text(&b));
    if kind == 0 && n == 40 && c != b'Z' {
        vp::cover(0);
        chk!(r.is_ok());
    } else if kind == 0 && n == 32 && c != b'0' {
        vp::cover(1);
        chk!(r.is_ok());
    } else {
        vp::cover(2);
        chk!(r.is_err());
    }
}

/// up to n fields of 7 kinds: the hash is one of those given, whatever is
/// around it
fn c30_among(n: usize) {
    vp::covers(3);
    const FIELDS: [&str; 7] = [
        "xt=urn:btih:0123456789abcdefABCDEF6789abcdef01234567",
        "xt=urn:btih:0000000000000000000000000000000000000000",
        "xt=urn:btih:77777777777777777777777777777777",
        "xt=urn:btmh:1220aa",
        "xt=",
        "dn=urn:btih:0123",
        "xt=urn:btih:0123",
    ];
    let mut b = b"magnet:?".to_vec();
    let mut given = vec![];
    let mut bad = false;
    for i in 0..vp::range(1, n) {
        if i > 0 {
            b.push(b'&');
        }
        let k = vp::pick(7);
        b.extend_from_slice(FIELDS[k].as_bytes());
        let mut h = [0u8; 20];
        match k {
            0 => {
                common::hex::from_hex(HEX40.as_bytes(), &mut h);
                given.push(h);
            }
            1 => given.push(h),
            2 => given.push([0xff; 20]),
            6 => bad = true,
            _ => {}
        }
    }
    let r = TorrentParams::from_str(text(&b));
    if bad || given.is_empty() {
        vp::cover(bad as u32);
        chk!(r.is_err());
    } else {
        vp::cover(2);
        chk!(r.is_ok());
        chk!(given.contains(&hash_of(&r.unwrap())));
    }
}

/// printed and parsed back
fn c30_back(n: usize) {
    vp::covers(1);
    let mut p = TorrentParams::default();
    for k in 0..20 {
        p.info_hash[k] = (k as u8).wrapping_mul(83) ^ 0x5a;
    }
    let at = vp::pick((21 - n) as u8);
    let w = vp::vec(n);
    for k in 0..n {
        p.info_hash[at + k] = w[k];
    }
    let s = p.to_string();
    let r = parses(&s);
    chk!(r.is_some());
    chk!(hash_of(&r.unwrap()) == hash_of(&p));
    vp::cover(0);
}

// ---- C31

const MAX_FILE: usize = 10_000;

/// what a selection means: the files from 0 to the highest one; `None` if an
/// element is no number (the link may then be rejected)
fn so_spec(v: &[u8], sel: &mut Vec<bool>) -> bool {
    let mut clean = true;
    for t in v.split(|c| *c == b',') {
        let (a, b) = match t.iter().position(|c| *c == b'-') {
            Some(p) => (&t[..p], &t[p + 1..]),
            None => (t, t),
        };
        if a.is_empty() || b.is_empty() {
            continue;
        }
        if b.contains(&b'-') {
            // the end "-0" may be read as 0
            vp::assume(!(b[0] == b'-' && b.len() > 1 && b[1..].iter().all(|c| *c == b'0') && a.iter().all(|c| *c == b'0')));
            clean = false;
            continue;
        }
        let num = |d: &[u8]| {
            let mut n = 0usize;
            for c in d {
                n = (n * 10 + (*c - b'0') as usize).min(1_000_000_000);
            }
            n
        };
        if a.len() > 18 || b.len() > 18 {
            clean = false;
        }
        let (a, b) = (vp::conc(num(a) as u64) as usize, vp::conc(num(b) as u64) as usize);
        if a > b || b > MAX_FILE {
            continue;
        }
        while sel.len() <= b {
            sel.push(false);
        }
        for k in a..=b {
            sel[k] = true;
        }
    }
    clean
}

fn so_check(r: Option<TorrentParams>, clean: bool, sel: &[bool]) {
    match r {
        Some(p) => {
            chk!(p.file_priorities.len() == sel.len());
            for (k, s) in sel.iter().enumerate() {
                let ok = match p.file_priorities[k] {
                    DownloadPriority::DefaultPriority => *s,
                    DownloadPriority::DontDownload => !*s,
                    _ => false,
                };
                if !ok {
                    chk!(false);
                }
            }
        }
        None => chk!(!clean),
    }
}

fn c31_so(n: usize, top: u8) {
    vp::covers(3);
    let v = so_text(n, top);
    let b = link(&[("so", &v)]);
    let r = parses(text(&b));
    let mut sel = vec![];
    let clean = so_spec(&v, &mut sel);
    if sel.is_empty() {
        vp::cover(0);
    } else if sel.contains(&false) {
        vp::cover(1);
    } else {
        vp::cover(2);
    }
    so_check(r, clean, &sel);
}

/// numbers around the limit and beyond the range of integers
fn c31_so_limit() {
    vp::covers(3);
    let mut v = vec![];
    const NUM: [&str; 8] = ["3", "999", "1000", "1001", "9223372036854775807", "9223372036854775808", "18446744073709551616", "00000000000000000000"];
    let one = |v: &mut Vec<u8>| {
        let k = vp::pick(8);
        v.extend_from_slice(NUM[k].as_bytes());
        if k == 1 || k == 2 {
            let d = vp::u8();
            vp::assume(d >= b'0' && d <= b'9');
            v.push(d);
        }
    };
    one(&mut v);
    match vp::pick(3) {
        0 => {}
        1 => {
            v.push(b'-');
            one(&mut v);
        }
        _ => {
            v.push(b',');
            one(&mut v);
        }
    }
    let b = link(&[("so", &v)]);
    let r = parses(text(&b));
    let mut sel = vec![];
    let clean = so_spec(&v, &mut sel);
    match sel.len() {
        0 => vp::cover(0),
        10_001 => vp::cover(1),
        _ => vp::cover(2),
    }
    so_check(r, clean, &sel);
}

/// two selections add up; one with another character is ignored
fn c31_so_two() {
    vp::covers(2);
    let mut sel = vec![];
    let mut clean = true;
    let mut vs = vec![];
    for _ in 0..2 {
        let mut v = vp::vec(1);
        vp::assume(v[0] >= b'0' && v[0] <= b'9');
        match vp::pick(4) {
            0 => {}
            1 => {
                v.push(b'-');
                let d = vp::u8();
                vp::assume(d >= b'0' && d <= b'9');
                v.push(d);
            }
            2 => v.extend_from_slice(b",,7-6,4,"),
            _ => {
                let d = vp::u8();
                vp::assume(d >= b'.' && d <= b'~' && !(d >= b'0' && d <= b'9'));
                v.push(d);
                v.extend_from_slice(b",2");
            }
        }
        if v.iter().all(|c| (*c >= b'0' && *c <= b'9') || *c == b'-' || *c == b',') {
            vp::cover(0);
            clean &= so_spec(&v, &mut sel);
        } else {
            vp::cover(1);
        }
        vs.push(v);
    }
    let b = link(&[("so", &vs[0]), ("so", &vs[1])]);
    let r = parses(text(&b));
    so_check(r, clean, &sel);
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Dn,
    Tr,
    Ws,
    Pe,
    Node,
}

/// fields of every kind in every order
fn c31_order(n: usize) {
    vp::covers(2);
    let n = vp::range(1, n);
    let mut b = b"magnet:?".to_vec();
    let hash_at = vp::pick(n as u8 + 1);
    let (mut name, mut tr, mut ws, mut pe, mut dht) = (String::new(), vec![], vec![], vec![], vec![]);
    for k in 0..=n {
        if k > 0 {
            b.push(b'&');
        }
        if k == hash_at {
            b.extend_from_slice(b"xt=urn:btih:");
            b.extend_from_slice(HEX40.as_bytes());
        }
        if k == n {
            break;
        }
        if k == hash_at {
            b.push(b'&');
        }
        let d = vp::u8();
        vp::assume(d >= b'1' && d <= b'9');
        match [Kind::Dn, Kind::Tr, Kind::Ws, Kind::Pe, Kind::Node][vp::pick(5)] {
            Kind::Dn => {
                b.extend_from_slice(b"dn=name");
                b.push(d);
                name = format_d("name", d, "");
            }
            Kind::Tr => {
                b.extend_from_slice(b"tr=http%3A%2F%2Ft");
                b.push(d);
                b.extend_from_slice(b"%2fannounce");
                tr.push(format_d("http://t", d, "/announce"));
            }
            Kind::Ws => {
                b.extend_from_slice(b"ws=http:/w");
                b.push(d);
                b.extend_from_slice(b"/f+%26");
                ws.push(format_d("http:/w", d, "/f &"));
            }
            Kind::Pe => {
                b.extend_from_slice(b"x.pe=10.0.0.");
                b.push(d);
                b.extend_from_slice(b":6881");
                pe.push(std::net::SocketAddr::from(([10, 0, 0, d - b'0'], 6881)));
            }
            Kind::Node => {
                b.extend_from_slice(b"dht=node.");
                b.push(d);
                b.extend_from_slice(b":99");
                dht.push((format_d("node.", d, ""), 99u16));
            }
        }
    }
    let r = parses(text(&b));
    chk!(r.is_some());
    let p = r.unwrap();
    chk!(p.name == name);
    chk!(p.trackers == tr);
    chk!(p.tracker_tiers.len() == tr.len());
    for k in 0..tr.len() {
        chk!(p.tracker_tiers[k] == k as isize);
    }
    chk!(p.url_seeds == ws);
    chk!(p.peers == pe);
    chk!(p.dht_nodes == dht);
    chk!(p.file_priorities.is_empty());
    if tr.len() > 1 {
        vp::cover(0);
    }
    if ws.len() + pe.len() + dht.len() == n {
        vp::cover(1);
    }
}

fn format_d(a: &str, d: u8, b: &str) -> String {
    let mut s = String::from(a);
    s.push(d as char);
    s.push_str(b);
    s
}

/// any text, percent-encoded or not, as a name, tracker or web seed
fn c31_text(n: usize) {
    vp::covers(4);
    let raw = vp::vec(vp::range(0, n));
    let want = text(&raw).to_owned();
    let mut v = vec![];
    let style = vp::pick(3);
    for &c in &raw {
        let dig = |d: u8| if d < 10 { b'0' + d } else { (if style == 1 { b'a' } else { b'A' }) + d - 10 };
        if style == 2 {
            // written as it is where that is possible
            vp::assume(c >= 0x80 || c > b' ' && c != b'%' && c != b'+' && c != b'&' && c != b'#' && c != 0x7f);
            v.push(c);
        } else if c == b' ' && style == 0 {
            vp::cover(0);
            v.push(b'+');
        } else {
            v.push(b'%');
            v.push(dig(c >> 4));
            v.push(dig(c & 15));
        }
    }
    let f = ["dn", "tr", "ws"][vp::pick(3)];
    let b = link(&[(f, &v)]);
    let r = parses(text(&b));
    chk!(r.is_some());
    let p = r.unwrap();
    match f {
        "dn" => {
            vp::cover(1);
            chk!(p.name == want);
            chk!(p.trackers.is_empty() && p.url_seeds.is_empty());
        }
        "tr" => {
            vp::cover(2);
            chk!(p.trackers.len() == 1 && p.trackers[0] == want);
            chk!(p.name.is_empty() && p.url_seeds.is_empty());
        }
        _ => {
            vp::cover(3);
            chk!(p.url_seeds.len() == 1 && p.url_seeds[0] == want);
            chk!(p.name.is_empty() && p.trackers.is_empty());
        }
    }
}

/// a number of up to 5 digits, the last ones arbitrary
fn number(first: &[u8], n: usize) -> (Vec<u8>, u32) {
    let mut v = first.to_vec();
    for _ in 0..n {
        let d = vp::u8();
        vp::assume(d >= b'0' && d <= b'9');
        v.push(d);
    }
    let mut x = 0;
    for c in &v {
        x = x * 10 + (*c - b'0') as u32;
    }
    (v, x)
}

/// peer endpoints of both families
fn c31_peer() {
    vp::covers(3);
    let (port, p) = number([&b""[..], b"655", b"6"][vp::pick(3)], 2);
    let v6 = vp::pick(2) == 1;
    let mut v = vec![];
    let (a, x) = number([&b""[..], b"2"][vp::pick(2)], if v6 { 1 } else { 2 });
    if v6 {
        v.extend_from_slice(b"[2001:db8::");
        v.extend_from_slice(&a);
        v.extend_from_slice(b"]:");
    } else {
        v.extend_from_slice(b"1.2.");
        v.extend_from_slice(&a);
        v.extend_from_slice(b".4:");
    }
    v.extend_from_slice(&port);
    let b = link(&[("x.pe", &v)]);
    let r = parses(text(&b));
    match r {
        Some(q) => {
            chk!(p <= 65535 && q.peers.len() == 1);
            chk!(q.peers[0].port() as u32 == p);
            if v6 {
                vp::cover(0);
                // the digits are hexadecimal
                let h = x / 10 * 16 + x % 10;
                chk!(q.peers[0].ip() == std::net::IpAddr::from([0x2001, 0xdb8, 0, 0, 0, 0, 0, h as u16]));
            } else {
                vp::cover(1);
                chk!(x < 256);
                chk!(q.peers[0].ip() == std::net::IpAddr::from([1, 2, x as u8, 4]));
            }
        }
        None => {
            vp::cover(2);
            // out of range, or an octet with a leading zero
            chk!(p > 65535 || !v6 && (x > 255 || a[0] == b'0'));
        }
    }
}

/// host and port of a DHT node: split at the last colon
fn c31_node() {
    vp::covers(3);
    let mut host = vec![];
    for _ in 0..vp::range(0, 2) {
        let c = vp::u8();
        vp::assume(c > b' ' && c < 0x7f && c != b'%' && c != b'+' && c != b'&' && c != b'#');
        host.push(c);
    }
    let (port, p) = number([&b""[..], b"655", b"6"][vp::pick(3)], 2);
    let mut v = host.clone();
    let colon = vp::pick(2) == 1;
    if colon {
        v.push(b':');
    } else {
        for c in &host {
            vp::assume(*c != b':');
        }
    }
    v.extend_from_slice(&port);
    let b = link(&[("dht", &v)]);
    let r = parses(text(&b));
    match r {
        Some(q) => {
            if colon {
                vp::cover(0);
                chk!(q.dht_nodes.len() == 1);
                chk!(q.dht_nodes[0].0.as_bytes() == &host[..]);
                chk!(q.dht_nodes[0].1 as u32 == p);
            } else {
                vp::cover(1);
                chk!(q.dht_nodes.is_empty());
            }
        }
        None => {
            vp::cover(2);
            chk!(colon && p > 65535);
        }
    }
}

// ---- C32

#[derive(Clone)]
struct Doc {
    announce: Option<Vec<u8>>,
    name: Option<Vec<u8>>,
    piece_len: Option<Vec<u8>>,
    pieces: Option<Vec<u8>>,
    length: Option<Vec<u8>>,
    files: Option<Vec<u8>>,
    info: Option<Vec<u8>>,
}

fn bstr(b: &[u8]) -> Vec<u8> {
    let mut v = b.len().to_string().into_bytes();
    v.push(b':');
    v.extend_from_slice(b);
    v
}

fn good() -> Doc {
    Doc {
        announce: Some(bstr(b"http://t.org/a")),
        name: Some(bstr(b"file")),
        piece_len: Some(b"i16384e".to_vec()),
        pieces: Some(bstr(b"aaaaaaaaaaaaaaaaaaaabbbbbbbbbbbbbbbbbbbb")),
        length: Some(b"i20000e".to_vec()),
        files: None,
        info: None,
    }
}

fn put(v: &mut Vec<u8>, k: &str, x: &Option<Vec<u8>>) {
    if let Some(x) = x {
        v.extend(bstr(k.as_bytes()));
        v.extend_from_slice(x);
    }
}

impl Doc {
    fn info_bytes(&self) -> Vec<u8> {
        let mut i = b"d".to_vec();
        put(&mut i, "files", &self.files);
        put(&mut i, "length", &self.length);
        put(&mut i, "name", &self.name);
        put(&mut i, "piece length", &self.piece_len);
        put(&mut i, "pieces", &self.pieces);
        i.push(b'e');
        i
    }
    fn bytes(&self) -> Vec<u8> {
        let mut v = b"d".to_vec();
        put(&mut v, "announce", &self.announce);
        let info = match &self.info {
            Some(i) => i.clone(),
            None => self.info_bytes(),
        };
        if !info.is_empty() {
            put(&mut v, "info", &Some(info));
        }
        v.push(b'e');
        v
    }
}

/// the good document, of a single file or of a directory
fn good_kind() -> Doc {
    let mut d = good();
    if vp::pick(2) == 1 {
        with_files(&mut d, FILES.to_vec());
    }
    d
}

const FILES: &[u8] = b"ld6:lengthi5e4:pathl1:a1:beed6:lengthi6e4:pathl1:ceee";

fn with_files(d: &mut Doc, files: Vec<u8>) {
    d.length = None;
    d.files = Some(files);
}

fn check_rest(t: &Torrent, d: &Doc) {
    let g = good();
    if d.announce == g.announce {
        chk!(t.vp_announce().as_str() == "http://t.org/a");
    }
    if d.name == g.name {
        chk!(t.vp_name() == Some("file"));
    }
    let (l, p) = t.vp_pieces();
    if d.piece_len == g.piece_len {
        chk!(l == 16384);
    }
    if d.pieces == g.pieces {
        chk!(p == b"aaaaaaaaaaaaaaaaaaaabbbbbbbbbbbbbbbbbbbb");
    }
    if d.length == g.length && d.name == g.name {
        chk!(!t.vp_is_dir());
        let f = t.vp_files();
        chk!(f.len() == 1 && f[0].1 == 20000 && f[0].0.to_str() == Some("file"));
    }
    if d.length.is_none() && d.files.as_deref() == Some(FILES) {
        chk!(t.vp_is_dir());
        let f = t.vp_files();
        chk!(f.len() == 2 && f[0].1 == 5 && f[1].1 == 6);
        chk!(f[0].0.to_str() == Some("a/b") && f[1].0.to_str() == Some("c"));
    }
}

/// fields that are missing, of another type, or pieces of any length
fn c32_fields() {
    vp::covers(3);
    let mut d = good_kind();
    let other = |k: usize| -> Option<Vec<u8>> {
        match k {
            0 => None,
            1 => Some(b"i7e".to_vec()),
            2 => Some(b"le".to_vec()),
            3 => Some(b"de".to_vec()),
            _ => Some(bstr(b"xy")),
        }
    };
    // whether the two files that have both or none of length and files matter
    let ok = match vp::pick(9) {
        0 => {
            d.announce = other(vp::pick(5)); // "xy" is no URL
            false
        }
        1 => {
            d.name = other(vp::pick(4));
            false
        }
        2 => {
            let k = vp::pick(5);
            d.piece_len = other(k);
            if k == 1 {
                let t = Torrent::vp_parse(&d.bytes());
                chk!(t.is_some());
                chk!(t.as_ref().unwrap().vp_pieces().0 == 7);
                check_rest(&t.unwrap(), &d);
                return;
            }
            false
        }
        3 => {
            d.pieces = other(vp::pick(5));
            false
        }
        4 => {
            let b = vp::vec([0, 1, 19, 20, 21, 40, 41][vp::pick(7)]);
            d.pieces = Some(bstr(&b));
            let t = Torrent::vp_parse(&d.bytes());
            if b.len() % 20 == 0 {
                vp::cover(0);
                chk!(t.is_some());
                let t = t.unwrap();
                chk!(t.vp_pieces().1 == &b[..]);
                check_rest(&t, &d);
            } else {
                chk!(t.is_none());
            }
            return;
        }
        5 => {
            // the length of another type, or along with files
            let k = vp::pick(5);
            let dir = d.files.is_some();
            d.length = other(k);
            vp::assume(k != 1 || dir);
            k == 0 && dir
        }
        6 => {
            // files of another type; together with a length nothing is accepted
            let k = vp::pick(5);
            d.files = other(k);
            d.length = good().length;
            if vp::pick(2) == 0 {
                d.length = None;
                if k == 2 {
                    let t = Torrent::vp_parse(&d.bytes());
                    chk!(t.is_some());
                    let t = t.unwrap();
                    chk!(t.vp_is_dir() && t.vp_files().is_empty());
                    check_rest(&t, &d);
                    return;
                }
                false
            } else {
                k == 0
            }
        }
        7 => {
            d.info = Some(other(vp::pick(5)).unwrap_or_default());
            false
        }
        _ => true,
    };
    let t = Torrent::vp_parse(&d.bytes());
    if ok {
        vp::cover(1);
        chk!(t.is_some());
        check_rest(&t.unwrap(), &d);
    } else {
        vp::cover(2);
        chk!(t.is_none());
    }
}

/// documents that are no dictionary, and dictionaries with other entries
fn c32_types() {
    vp::covers(2);
    match vp::pick(6) {
        0 => chk!(Torrent::vp_parse(b"i1e").is_none()),
        1 => chk!(Torrent::vp_parse(b"le").is_none()),
        2 => chk!(Torrent::vp_parse(b"8:announce").is_none()),
        3 => chk!(Torrent::vp_parse(b"de").is_none()),
        4 => {
            let mut b = b"l".to_vec();
            b.extend(good().bytes());
            b.push(b'e');
            chk!(Torrent::vp_parse(&b).is_none());
            vp::cover(0);
        }
        _ => {
            // other entries do not matter
            let mut b = good().bytes();
            b.pop();
            let k = vp::u8();
            vp::assume(k < 0x80);
            let mut e = b"1:?3:any".to_vec();
            e[2] = k;
            b.extend_from_slice(&e);
            b.push(b'e');
            let t = Torrent::vp_parse(&b);
            chk!(t.is_some());
            check_rest(&t.unwrap(), &good());
            vp::cover(1);
        }
    }
}

/// an unknown entry of any key of up to 12 bytes: nothing changes
fn c32_extra() {
    vp::covers(3);
    let key = vp::vec(vp::range(0, 12));
    for c in &key {
        vp::assume(*c < 0x80);
    }
    let place = vp::pick(3);
    const KNOWN: [&[&str]; 3] = [
        &["announce", "info"],
        &["name", "piece length", "pieces", "length", "files"],
        &["length", "path"],
    ];
    for k in KNOWN[place] {
        vp::assume(key != k.as_bytes());
    }
    let mut e = bstr(&key);
    e.extend_from_slice([&b"3:any"[..], b"i7e", b"l1:xe", b"de"][vp::pick(4)]);
    let mut d = good_kind();
    let mut b = match place {
        1 => {
            let mut i = d.info_bytes();
            i.pop();
            i.extend(e);
            i.push(b'e');
            d.info = Some(i);
            d.bytes()
        }
        2 => {
            with_files(&mut d, {
                let mut f = b"ld6:lengthi5e4:pathl1:a1:bee".to_vec();
                f.pop();
                f.extend(e);
                f.extend_from_slice(b"ed6:lengthi6e4:pathl1:ceee");
                f
            });
            d.bytes()
        }
        _ => {
            let mut b = d.bytes();
            b.pop();
            b.extend(e);
            b.push(b'e');
            b
        }
    };
    let t = Torrent::vp_parse(&b);
    b.clear();
    chk!(t.is_some());
    if place == 2 {
        with_files(&mut d, FILES.to_vec());
    }
    check_rest(&t.unwrap(), &d);
    vp::cover(place as u32);
}

/// numbers: a sign or digit, and arbitrary digits
fn c32_num() -> (Vec<u8>, Option<u64>) {
    let mut v = vec![b'i'];
    let neg = vp::pick(2) == 1;
    if neg {
        v.push(b'-');
    }
    let (d, x) = number(b"", vp::range(1, 3));
    v.extend_from_slice(&d);
    v.push(b'e');
    (v, if neg && x > 0 { None } else { Some(x as u64) })
}

fn c32_place(v: Vec<u8>, want: Option<u64>) {
    vp::covers(4);
    let mut d = good();
    let place = vp::pick(3);
    match place {
        0 => d.piece_len = Some(v),
        1 => d.length = Some(v),
        _ => {
            let mut f = b"ld6:length".to_vec();
            f.extend_from_slice(&v);
            f.extend_from_slice(b"4:pathl1:aeee");
            with_files(&mut d, f);
        }
    }
    let t = Torrent::vp_parse(&d.bytes());
    match want {
        None => {
            vp::cover(0);
            chk!(t.is_none());
        }
        Some(x) => {
            // a piece length of zero may be refused
            if t.is_none() {
                chk!(place == 0 && x == 0);
                return;
            }
            vp::cover(1 + place as u32);
            let t = t.unwrap();
            match place {
                0 => chk!(t.vp_pieces().0 as u64 == x),
                _ => chk!(t.vp_files().len() == 1 && t.vp_files()[0].1 as u64 == x),
            }
            check_rest(&t, &d);
        }
    }
}

fn c32_int() {
    let (v, want) = c32_num();
    c32_place(v, want);
}

/// around the ends of the 64-bit range
fn c32_edge() {
    let d = vp::u8();
    vp::assume(d >= b'0' && d <= b'9');
    let neg = vp::pick(2) == 1;
    let mut v = if neg { b"i-".to_vec() } else { b"i".to_vec() };
    v.extend_from_slice(b"922337203685477580");
    v.push(d);
    v.push(b'e');
    let x = 9223372036854775800u64 + (d - b'0') as u64;
    let want = if neg || x > i64::MAX as u64 { None } else { Some(x) };
    c32_place(v, want);
}

/// an ordinary name of up to n characters, all but one of them fixed
fn plain(n: usize) -> Vec<u8> {
    let mut v = b"abcdefgh"[..vp::range(1, n)].to_vec();
    let at = vp::pick(v.len() as u8);
    let c = vp::u8();
    vp::assume(c >= b'0' && c < 0x7f);
    v[at] = c;
    v
}

/// lists of files
fn c32_files(n: usize, segs: usize) {
    vp::covers(3);
    let mut f = b"l".to_vec();
    let mut want = vec![];
    let mut bad = false;
    for _ in 0..vp::range(0, n) {
        f.push(b'd');
        let (d, x) = number(b"", 1);
        let mut path = vec![];
        let mut p = b"l".to_vec();
        for k in 0..vp::range(1, segs) {
            let s = if k == 0 { plain(2) } else { plain(1) };
            p.extend(bstr(&s));
            if k > 0 {
                path.push(b'/');
            }
            path.extend_from_slice(&s);
        }
        // at most one thing is wrong
        match if bad { 0 } else { vp::pick(7) } {
            1 => {
                bad = true;
                p.extend_from_slice(b"i1e");
            }
            2 => {
                bad = true;
                p.extend_from_slice(b"1:\xff");
            }
            3 => {
                bad = true;
                p = vec![];
            }
            4 => {
                bad = true;
                f.extend_from_slice(b"4:path1:ae");
                continue;
            }
            5 => {
                bad = true;
                f.extend_from_slice(b"6:length1:ae");
                continue;
            }
            6 => {
                bad = true;
                f.pop();
                f.extend_from_slice(b"i5e");
                continue;
            }
            _ => {}
        }
        f.extend_from_slice(b"6:lengthi");
        f.extend_from_slice(&d);
        f.push(b'e');
        if !p.is_empty() {
            f.extend_from_slice(b"4:path");
            f.extend_from_slice(&p);
            f.push(b'e');
        }
        f.push(b'e');
        want.push((path, x));
    }
    f.push(b'e');
    let mut d = good();
    with_files(&mut d, f);
    let t = Torrent::vp_parse(&d.bytes());
    if bad {
        vp::cover(0);
        chk!(t.is_none());
        return;
    }
    chk!(t.is_some());
    let t = t.unwrap();
    chk!(t.vp_is_dir());
    let got = t.vp_files();
    chk!(got.len() == want.len());
    for (g, w) in got.iter().zip(&want) {
        chk!(g.1 == w.1 as usize);
        chk!(g.0.to_str().map(|s| s.as_bytes() == &w.0[..]) == Some(true));
    }
    check_rest(&t, &d);
    if want.is_empty() {
        vp::cover(1);
    } else {
        vp::cover(2);
    }
}

/// names: text that is an ordinary file name
fn c32_name(n: usize) {
    vp::covers(2);
    let b = vp::vec(vp::range(1, n));
    let mut d = good();
    d.name = Some(bstr(&b));
    let t = Torrent::vp_parse(&d.bytes());
    match std::str::from_utf8(&b) {
        Ok(s) => {
            vp::assume(!s.contains('/') && s != "." && s != ".." && !s.contains('\0'));
            vp::cover(0);
            chk!(t.is_some());
            let t = t.unwrap();
            chk!(t.vp_name() == Some(s));
            let f = t.vp_files();
            chk!(f.len() == 1 && f[0].0.to_str() == Some(s) && f[0].1 == 20000);
        }
        Err(_) => {
            vp::cover(1);
            chk!(t.is_none());
        }
    }
}

/// announce URLs with arbitrary characters
fn c32_url(n: usize) {
    vp::covers(2);
    let mut u = [&b""[..], b"http://t/", b"udp://h/"][vp::pick(3)].to_vec();
    u.extend(vp::vec(vp::range(0, n)));
    let mut d = good();
    d.announce = Some(bstr(&u));
    match Torrent::vp_parse(&d.bytes()) {
        Some(t) => {
            vp::cover(0);
            chk!(std::str::from_utf8(&u).is_ok());
            // what is kept starts with the scheme that was written
            check_rest(&t, &d);
            let s = t.vp_announce().as_str().as_bytes();
            chk!(s.contains(&b':'));
            if u.starts_with(b"udp://h/") || u.starts_with(b"http://t/") {
                chk!(s.starts_with(&u[..8]));
            }
        }
        None => {
            vp::cover(1);
            if u.starts_with(b"udp://h/") || u.starts_with(b"http://t/") {
                // any path is fine
                chk!(std::str::from_utf8(&u).is_err());
            }
        }
    }
}

/// any short document
fn c32_free(n: usize) {
    vp::covers(1);
    let b = vp::vec(vp::range(0, n));
    chk!(Torrent::vp_parse(&b).is_none());
    vp::cover(0);
}

/// a good document in which any bytes are arbitrary, or cut off anywhere
fn c32_cut() {
    vp::covers(2);
    let d = good_kind();
    let mut b = d.bytes();
    chk!(b.len() < 256);
    let at = vp::pick(b.len() as u8);
    if vp::pick(2) == 0 {
        b.truncate(at);
        chk!(Torrent::vp_parse(&b).is_none());
        vp::cover(0);
    } else {
        let w = 1.min(b.len() - at);
        vp::fill(&mut b[at..at + w]);
        // a digit may be part of a length
        if w == 1 && b[at].is_ascii_digit() {
            b[at] = vp::conc(b[at] as u64) as u8;
        }
        if let Some(t) = Torrent::vp_parse(&b) {
            vp::cover(1);
            chk!(t.vp_pieces().1.len() % 20 == 0);
            chk!(t.vp_files().len() == 1 || t.vp_is_dir());
        }
    }
}

// ---- C33

fn inside(t: &Torrent) -> bool {
    for (p, _) in t.vp_files() {
        for c in p.components() {
            if !matches!(c, std::path::Component::Normal(_)) {
                return false;
            }
        }
        let s = p.to_str().unwrap_or("/").as_bytes();
        if s.first() == Some(&b'/') {
            return false;
        }
        if s.split(|c| *c == b'/').any(|x| x == b"..") {
            return false;
        }
    }
    true
}

/// any name of a single file
fn c33_name(n: usize) {
    vp::covers(2);
    let b = vp::vec(vp::range(0, n));
    for c in &b {
        vp::assume(*c < 0x80);
    }
    let mut d = good();
    d.name = Some(bstr(&b));
    match Torrent::vp_parse(&d.bytes()) {
        Some(t) => {
            vp::cover(0);
            chk!(inside(&t));
        }
        None => vp::cover(1),
    }
}

/// any path segments
fn c33_path(segs: usize, n: usize) {
    vp::covers(2);
    let mut p = b"ld6:lengthi1e4:pathl".to_vec();
    for _ in 0..vp::range(1, segs) {
        let b = vp::vec(vp::range(0, n));
        for c in &b {
            vp::assume(*c < 0x80);
        }
        p.extend(bstr(&b));
    }
    p.extend_from_slice(b"eee");
    let mut d = good();
    with_files(&mut d, p);
    match Torrent::vp_parse(&d.bytes()) {
        Some(t) => {
            vp::cover(0);
            chk!(inside(&t));
        }
        None => vp::cover(1),
    }
}

/// a directory of any name, with two files of one of which any path
fn c33_dir(n: usize, m: usize) {
    vp::covers(2);
    let name = vp::vec(vp::range(0, n));
    let seg = vp::vec(vp::range(0, m));
    for c in name.iter().chain(&seg) {
        vp::assume(*c < 0x80);
    }
    let one = [&b"d6:lengthi1e4:pathl"[..], &bstr(&seg), &bstr(b"x"), b"ee"].concat();
    let two = b"d6:lengthi1e4:pathl1:yee".to_vec();
    let l = if vp::pick(2) == 0 { [one, two] } else { [two, one] };
    let mut d = good();
    d.name = Some(bstr(&name));
    with_files(&mut d, [&b"l"[..], &l.concat(), b"e"].concat());
    match Torrent::vp_parse(&d.bytes()) {
        Some(t) => {
            vp::cover(0);
            chk!(inside(&t));
        }
        None => vp::cover(1),
    }
}

// ---- long texts

/// a text of length n with escapes, plus signs and other characters
fn escaped(n: usize) -> Vec<u8> {
    const UNIT: [&[u8]; 3] = [b"ab%41+", b"%c3%A9%2Bz", b"+%25%00\xc3\xa9q"];
    let u = UNIT[vp::pick(3)];
    let mut v = vec![];
    while v.len() < n {
        v.extend_from_slice(u);
    }
    v.truncate(n);
    v
}

fn places(n: usize) -> usize {
    let p = [0, 1, 2, n / 2, n / 2 + 1, n / 2 + 2, n - 4, n - 3, n - 2, n - 1];
    p[vp::pick(10)]
}

fn c26_long(w: usize) {
    vp::covers(3);
    let n = [11, 30, 64, 129, 400][vp::pick(5)];
    let mut s = escaped(n);
    let at = places(n).min(n - w);
    vp::fill(&mut s[at..at + w]);
    let r = unescape_bytes(&s);
    let t = unescape_string(&s);
    match unescaped(&s) {
        Some(want) => {
            vp::cover(0);
            chk!(r.is_ok());
            chk!(r.ok().as_deref() == Some(&want[..]));
            match String::from_utf8(want) {
                Ok(u) => chk!(t.ok() == Some(u)),
                Err(_) => {
                    vp::cover(1);
                    chk!(t.is_err());
                }
            }
        }
        None => {
            vp::cover(2);
            chk!(r.is_err());
            chk!(t.is_err());
        }
    }
}

fn b32_of(b: &[u8], style: usize, pad: bool) -> Vec<u8> {
    let len = b.len();
    let mut s = vec![];
    for k in 0..(len * 8 + 4) / 5 {
        let mut d = 0u8;
        for i in 5 * k..5 * k + 5 {
            d = d << 1 | if i / 8 < len { b[i / 8] >> (7 - i % 8) & 1 } else { 0 };
        }
        s.push(digit(d, style, k));
    }
    while pad && s.len() % 8 != 0 {
        s.push(b'=');
    }
    s
}

fn c27_long() {
    vp::covers(1);
    let len = [21, 24, 25, 39, 41, 64, 128, 255, 513][vp::pick(9)];
    let mut b: Vec<u8> = (0..len).map(|k| (k as u8).wrapping_mul(83) ^ 0x5a).collect();
    let at = [0, 1, len / 2, len - 6, len - 2, len - 1][vp::pick(6)];
    b[at] = vp::u8();
    let s = b32_of(&b, vp::pick(4), vp::pick(2) == 1);
    let r = base32_decode(&s);
    chk!(r.len() == b.len());
    chk!(r == b);
    vp::cover(0);
}

/// one arbitrary character in the encoding of many bytes
fn c27_long_text() {
    vp::covers(3);
    let len = [20, 34, 80, 200][vp::pick(4)];
    let b: Vec<u8> = (0..len).map(|k| (k as u8).wrapping_mul(91) ^ 0xa5).collect();
    let mut s = b32_of(&b, vp::pick(2), true);
    let n = s.len();
    let at = [0, 3, 8, n / 2, n / 2 + 1, n - 9, n - 8, n - 3, n - 1][vp::pick(9)];
    s[at] = vp::u8();
    let v = b32(s[at]);
    let r = base32_decode(&s);
    if v == 255 {
        vp::cover(0);
        chk!(r.is_empty());
    } else if v == 32 {
        // all groups but this one are unharmed
        vp::cover(1);
        let g = at / 8;
        chk!(r.len() <= len);
        chk!(r.len() + 5 >= len);
        chk!(r[..5 * g] == b[..5 * g]);
        let rest = if 5 * g + 5 < len { &b[5 * g + 5..] } else { &[][..] };
        chk!(r.ends_with(rest));
    } else {
        vp::cover(2);
        let mut want = b.clone();
        for k in 0..5 {
            let i = 5 * at + k;
            if i / 8 < len {
                want[i / 8] &= !(128 >> (i % 8));
                want[i / 8] |= (v >> (4 - k) & 1) << (7 - i % 8);
            }
        }
        if at < (len * 8 + 4) / 5 {
            chk!(r == want);
        } else {
            // in place of padding: at most one more byte
            chk!(r.len() == len || r.len() == len + 1);
            chk!(r[..len] == b[..]);
        }
    }
}

fn c28_long() {
    vp::covers(4);
    const PARTS: [&[u8]; 5] = [b"alpha beta", b"\"a b\" c", b"\"", b"x,y,\"z,w\",", b"  "];
    let n = [12, 40, 200][vp::pick(3)];
    let u = PARTS[vp::pick(5)];
    let lead = PARTS[vp::pick(5)];
    let mut s = lead.to_vec();
    while s.len() < n {
        s.extend_from_slice(u);
    }
    let n = s.len();
    let at = [0, 1, lead.len(), n / 2, n - 1][vp::pick(5)].min(n - 1);
    s[at] = vp::u8();
    split_check(&s, [b' ', b',', b'"'][vp::pick(3)]);
    // everything is taken apart, and put together again
    let mut rest = &s[..];
    let mut back = 0;
    while !rest.is_empty() {
        let (a, b) = split_string(rest, b' ');
        back += a.len();
        chk!(b.len() < rest.len());
        if a.len() + b.len() < rest.len() {
            back += 1;
        }
        rest = b;
    }
    chk!(back == s.len());
}

fn c28_trim_long() {
    vp::covers(1);
    let (a, n, z) = (vp::pick(20), [0, 1, 2, 30, 100][vp::pick(5)], vp::pick(20));
    const W: [u8; 4] = [b' ', b'\t', b'\r', b'\n'];
    let mut s: Vec<u8> = (0..a).map(|i| W[i % 4]).collect();
    let mut body: Vec<u8> = (0..n).map(|i| if i % 5 == 3 { b' ' } else { b'a' + (i % 26) as u8 }).collect();
    if n > 0 {
        // one arbitrary character that is not white, at either end
        let at = [0, n - 1][vp::pick(2)];
        let c = vp::u8();
        vp::assume(!W.contains(&c));
        body[at] = c;
        let o = n - 1 - at;
        if o != at {
            body[o] = b'.';
        }
    }
    s.extend_from_slice(&body);
    s.extend((0..z).map(|i| W[(i / 2) % 4]));
    chk!(trim(&s) == &body[..]);
    vp::cover(0);
}

fn c28_int_long() {
    let mut s = match vp::pick(3) {
        0 => b"-".to_vec(),
        1 => b"+".to_vec(),
        _ => vec![],
    };
    let z = [0, 5, 30, 100][vp::pick(4)];
    s.extend(std::iter::repeat(b'0').take(z));
    let d = vp::pick(20);
    s.extend_from_slice(&b"12345678909876543211"[..d]);
    if vp::pick(2) == 1 && !s.is_empty() {
        let at = s.len() - 1;
        s[at] = vp::u8();
    }
    int_check(&s);
}

/// links with long values and many fields
fn c29_long() {
    vp::covers(2);
    let mut b = b"magnet:?".to_vec();
    let f = FIELD[vp::pick(10)];
    b.extend_from_slice(f.as_bytes());
    if !f.ends_with(':') {
        b.push(b'=');
    }
    let n = [50, 300, 2000][vp::pick(3)];
    let unit: &[u8] = [&b"a"[..], b"%20", b"1,", b"1-2,", b":", b"=", b"0", b"-", b"\xc3\xa9", b"[::1]:"][vp::pick(10)];
    let from = b.len();
    while b.len() < from + n {
        b.extend_from_slice(unit);
    }
    let at = [from, from + n / 2, b.len() - 1][vp::pick(3)];
    if b[at] < 0x80 {
        let c = vp::u8();
        vp::assume(c < 0x80 && !(c >= b'0' && c <= b'9'));
        b[at] = c;
    }
    if vp::pick(2) == 0 {
        b.extend_from_slice(b"&xt=urn:btih:");
        b.extend_from_slice(HEX40.as_bytes());
    }
    match parses(text(&b)) {
        Some(_) => vp::cover(0),
        None => vp::cover(1),
    }
}

// ---- C31 at length

fn num(v: &mut Vec<u8>, n: usize) {
    v.extend_from_slice(n.to_string().as_bytes());
}

fn c31_many() {
    vp::covers(1);
    let n = [5, 12, 40, 150][vp::pick(4)];
    let other = vp::pick(5);
    let d = vp::u8();
    vp::assume(d >= b'a' && d <= b'z');
    let mut b = link(&[]);
    let mut tr = vec![];
    let (mut ws, mut pe, mut dht) = (vec![], vec![], vec![]);
    for k in 0..n {
        b.extend_from_slice(b"&tr=http%3a//t");
        num(&mut b, k % 7);
        b.push(d);
        tr.push(format_d(&format!("http://t{}", k % 7), d, ""));
        match (k + other) % 5 {
            0 => {
                b.extend_from_slice(b"&ws=w");
                num(&mut b, k);
                ws.push(format!("w{}", k));
            }
            1 => {
                b.extend_from_slice(b"&x.pe=10.0.0.");
                num(&mut b, k);
                b.extend_from_slice(b":6881");
                pe.push(std::net::SocketAddr::from(([10, 0, 0, k as u8], 6881)));
            }
            2 => {
                b.extend_from_slice(b"&dht=n:");
                num(&mut b, 1000 + k);
                dht.push(("n".to_string(), 1000 + k as u16));
            }
            _ => b.extend_from_slice(b"&unknown=1&"),
        }
    }
    let r = parses(text(&b));
    chk!(r.is_some());
    let p = r.unwrap();
    chk!(p.trackers == tr);
    chk!(p.tracker_tiers.len() == n);
    for k in 0..n {
        chk!(p.tracker_tiers[k] == k as isize);
    }
    chk!(p.url_seeds == ws);
    chk!(p.peers == pe);
    chk!(p.dht_nodes == dht);
    vp::cover(0);
}

/// parameters that are not empty: what is there stays, in front
fn c31_into() {
    vp::covers(1);
    let mut p = TorrentParams::default();
    let (a, t) = (vp::pick(4), vp::pick(6));
    for k in 0..a {
        p.trackers.push(format!("old{}", k));
        p.url_seeds.push(format!("seed{}", k));
        p.peers.push(std::net::SocketAddr::from(([10, 0, 1, k as u8], 1)));
        p.dht_nodes.push((format!("h{}", k), 7));
    }
    for k in 0..t {
        p.tracker_tiers.push(10 + k as isize);
    }
    p.name = "before".to_string();
    let n = vp::pick(4);
    let mut b = link(&[("ws", b"w"), ("x.pe", b"1.2.3.4:5"), ("dht", b"d:6")]);
    for k in 0..n {
        b.extend_from_slice(b"&tr=t");
        num(&mut b, k);
    }
    let named = vp::pick(2) == 1;
    if named {
        b.extend_from_slice(b"&dn=after");
    }
    chk!(parse_magnet_uri(text(&b), &mut p).is_ok());
    chk!(p.trackers.len() == a + n);
    for k in 0..a {
        chk!(p.trackers[k] == format!("old{}", k));
        chk!(p.url_seeds[k] == format!("seed{}", k));
        chk!(p.dht_nodes[k].0 == format!("h{}", k));
        chk!(p.peers[k] == std::net::SocketAddr::from(([10, 0, 1, k as u8], 1)));
    }
    for k in 0..n {
        chk!(p.trackers[a + k] == format!("t{}", k));
    }
    if n > 0 {
        chk!(p.tracker_tiers.len() == a + n);
        for k in 0..a {
            chk!(p.tracker_tiers[k] == if k < t { 10 + k as isize } else { 0 });
        }
        for k in 0..n {
            chk!(p.tracker_tiers[a + k] == k as isize);
        }
    }
    chk!(p.url_seeds.len() == a + 1 && p.url_seeds[a] == "w");
    chk!(p.peers.len() == a + 1 && p.peers[a].port() == 5);
    chk!(p.dht_nodes.len() == a + 1 && p.dht_nodes[a] == ("d".to_string(), 6));
    chk!(p.name == if named { "after" } else { "before" });
    vp::cover(0);
}

/// long selections
fn c31_so_many() {
    vp::covers(2);
    let n = [5, 10, 40][vp::pick(3)];
    let step = 1 + vp::pick(2);
    let odd = vp::pick(5);
    let mut v = vec![];
    for k in 0..n {
        if k > 0 {
            v.push(b',');
        }
        // in no order
        let x = (k * 7 % n) * step;
        num(&mut v, x);
        if k % 3 == 1 {
            v.push(b'-');
            num(&mut v, x + k % 4);
        }
        if k % 5 == 4 {
            v.extend_from_slice([&b",,"[..], b",-3", b",3-", b",9-2", b",10001"][(odd + k) % 5]);
        }
    }
    let at = v.len() / 2;
    v[at] = so_char();
    let r = parses(text(&link(&[("so", &v)])));
    let mut sel = vec![];
    let clean = so_spec(&v, &mut sel);
    if clean {
        vp::cover(0);
    } else {
        vp::cover(1);
    }
    so_check(r, clean, &sel);
}

fn so_char() -> u8 {
    let c = vp::u8();
    vp::assume((c >= b'0' && c <= b'9') | (c == b'-') | (c == b','));
    vp::conc(c as u64) as u8
}

// ---- C32, C33 at length

fn c32_many() {
    vp::covers(2);
    let n = [4, 10, 60][vp::pick(3)];
    let at = [0, n / 2, n - 1][vp::pick(3)];
    let bad = vp::pick(5);
    let c = vp::u8();
    vp::assume(c >= b'0' && c <= b'z');
    let mut f = b"l".to_vec();
    let mut want = vec![];
    for k in 0..n {
        let mut p = vec![];
        p.extend_from_slice(b"4:pathl");
        let mut path = vec![];
        for j in 0..k % 4 {
            p.extend(bstr(&[b'a' + j as u8, b'a' + (k % 26) as u8]));
            path.extend_from_slice(&[b'a' + j as u8, b'a' + (k % 26) as u8, b'/']);
        }
        let last = [b'f', if k == at { c } else { b'g' }];
        match if k == at { bad } else { 0 } {
            1 => p.extend_from_slice(b"i1e"),
            2 => p.extend_from_slice(b"2:\xff\xfe"),
            3 => p.extend_from_slice(b"le"),
            _ => p.extend(bstr(&last)),
        }
        path.extend_from_slice(&last);
        p.push(b'e');
        f.push(b'd');
        f.extend_from_slice(b"6:lengthi");
        if k == at && bad == 4 {
            f.push(b'-');
        }
        num(&mut f, 1000 + k);
        f.push(b'e');
        f.extend_from_slice(&p);
        f.push(b'e');
        want.push((path, 1000 + k));
    }
    f.push(b'e');
    let mut d = good();
    with_files(&mut d, f);
    let t = Torrent::vp_parse(&d.bytes());
    if bad > 0 {
        vp::cover(0);
        chk!(t.is_none());
        return;
    }
    vp::cover(1);
    chk!(t.is_some());
    let t = t.unwrap();
    chk!(t.vp_is_dir());
    let got = t.vp_files();
    chk!(got.len() == n);
    for (g, w) in got.iter().zip(&want) {
        chk!(g.1 == w.1);
        chk!(g.0.to_str().map(|s| s.as_bytes() == &w.0[..]) == Some(true));
    }
    check_rest(&t, &d);
}

/// many pieces, long names and announce URLs
fn c32_long() {
    vp::covers(2);
    let mut d = good_kind();
    let n = [60, 61, 79, 200, 1000, 5000, 5019][vp::pick(7)];
    let mut pieces: Vec<u8> = (0..n).map(|i| (i * 31) as u8).collect();
    let at = [0, n / 2, n - 1][vp::pick(3)];
    pieces[at] = vp::u8();
    d.pieces = Some(bstr(&pieces));
    let m = [20, 100, 256, 3000][vp::pick(4)];
    let mut name: Vec<u8> = (0..m).map(|i| b'a' + (i % 26) as u8).collect();
    name[m / 2] = vp::u8();
    vp::assume(name[m / 2] >= b'0' && name[m / 2] < 0x80);
    d.name = Some(bstr(&name));
    let mut url = b"http://t.org/".to_vec();
    url.extend(std::iter::repeat(b'u').take(m));
    d.announce = Some(bstr(&url));
    let t = Torrent::vp_parse(&d.bytes());
    if n % 20 != 0 {
        vp::cover(0);
        chk!(t.is_none());
        return;
    }
    vp::cover(1);
    chk!(t.is_some());
    let t = t.unwrap();
    chk!(t.vp_pieces().1 == &pieces[..]);
    chk!(t.vp_pieces().0 == 16384);
    chk!(t.vp_name().map(|s| s.as_bytes()) == Some(&name[..]));
    chk!(t.vp_announce().as_str().as_bytes() == &url[..]);
    if d.length.is_some() {
        let f = t.vp_files();
        chk!(f.len() == 1 && f[0].1 == 20000);
        chk!(f[0].0.to_str().map(|s| s.as_bytes()) == Some(&name[..]));
    }
    check_rest(&t, &d);
}

/// long names with arbitrary bytes anywhere
fn c33_long(w: usize) {
    vp::covers(2);
    const UNIT: [&[u8]; 4] = [b"name", b"a/", b"\xc3\xa9.", b"./b"];
    let n = [5, 9, 30][vp::pick(3)];
    let u = UNIT[vp::pick(4)];
    let mut b = vec![];
    while b.len() < n {
        b.extend_from_slice(u);
    }
    let n = b.len();
    let at = [0, 1, n / 2, n - w][vp::pick(4)];
    let k = vp::vec(w);
    b.splice(at..at + w, k);
    let mut d = good();
    if vp::pick(2) == 0 {
        d.name = Some(bstr(&b));
    } else {
        let mut f = b"ld6:lengthi1e4:pathl".to_vec();
        f.extend(bstr(&b));
        f.extend_from_slice(b"eee");
        with_files(&mut d, f);
    }
    match Torrent::vp_parse(&d.bytes()) {
        Some(t) => {
            vp::cover(0);
            chk!(inside(&t));
        }
        None => vp::cover(1),
    }
}

/// one arbitrary segment among many, in one of many files
fn c33_many(w: usize) {
    vp::covers(2);
    let files = [1, 3, 20][vp::pick(3)];
    let segs = [1, 4, 9, 25][vp::pick(4)];
    let at = [0, files / 2, files - 1][vp::pick(3)];
    let seg = [0, segs / 2, segs - 1][vp::pick(3)];
    let b = vp::vec(vp::range(0, w));
    let mut f = b"l".to_vec();
    for k in 0..files {
        f.extend_from_slice(b"d6:lengthi1e4:pathl");
        for j in 0..segs {
            if k == at && j == seg {
                f.extend(bstr(&b));
            } else {
                f.extend_from_slice(b"3:dir");
            }
        }
        f.extend_from_slice(b"ee");
    }
    f.push(b'e');
    let mut d = good();
    with_files(&mut d, f);
    match Torrent::vp_parse(&d.bytes()) {
        Some(t) => {
            vp::cover(0);
            chk!(t.vp_files().len() == files);
            chk!(inside(&t));
        }
        None => vp::cover(1),
    }
}
