//! C08-C12: the common crate.
use crate::{chk, vp};
use common::bloom_filter::{BloomFilter128, BloomFilter256};
use common::sha1::Sha1Hash;
use common::{hex, random};

harnesses! {
    h_c08_shl => c08_shift(true);
    h_c08_shr => c08_shift(false);
    h_c08_twice => c08_twice();

    h_c09_ops => c09_ops();
    h_c09_order => c09_order();
    h_c09_zeros => c09_zeros();
    h_c09_build_long => c09_build_long();
    h_c09_build => c09_build();

    h_c10_bytes => c10_bytes(3);
    h_c10_bytes4 => c10_bytes(4);
    h_c10_text => c10_text(6);
    h_c10_text8 => c10_text(8);
    h_c10_hash => c10_hash();
    h_c10_long => c10_long();
    h_c10_digit => c10_digit();

    h_c11_set128 => c11_set128();
    h_c11_set256 => c11_set256();
    h_c11_many128 => c11_many128(2);
    h_c11_many256 => c11_many256(2);
    h_c11_three128 => c11_many128(3);
    h_c11_three256 => c11_many256(3);
    h_c11_build128 => c11_build128();
    h_c11_build256 => c11_build256();
    h_c11_size128 => c11_size128();
    h_c11_size256 => c11_size256();
    h_c11_mono128 => c11_mono128();
    h_c11_mono256 => c11_mono256();
    h_c11_grow128 => c11_grow128();
    h_c11_grow256 => c11_grow256();

    h_c12_clamp => c12_clamp();
    h_c12_random => c12_random();
    h_c12_fill => c12_fill();
    h_c12_fill_long => c12_fill_long();
    h_c12_seed => c12_seed();

    h_c37_seed => c37_seed();
    h_c37_pair => c37_pair();

    h_c38_update => c38_update();
    h_c38_address => c38_address();
    h_c38_known => c38_known();
}

fn hash() -> ([u8; 20], Sha1Hash) {
    let b = vp::bytes::<20>();
    (b, Sha1Hash::from(b))
}

// ---- C08

/// bit i of the 160-bit number, counted from the most significant one
fn bit(b: &[u8; 20], i: usize) -> u8 {
    b[i / 8] >> (7 - i % 8) & 1
}

/// the 160-bit number shifted by n, bit by bit
fn shifted(b: &[u8; 20], n: usize, left: bool) -> [u8; 20] {
    let mut out = [0u8; 20];
    for i in 0..160usize {
        let src = if left { i.checked_add(n) } else { i.checked_sub(n) };
        let v = match src {
            Some(j) if j < 160 => bit(b, j),
            _ => 0,
        };
        out[i / 8] |= v << (7 - i % 8);
    }
    out
}

fn c08_shift(left: bool) {
    vp::covers(3);
    let (b, mut h) = hash();
    let n = vp::usize();
    if left {
        h <<= n;
    } else {
        h >>= n;
    }
    if n >= 160 {
        vp::cover(0);
        chk!(h[..] == [0u8; 20][..]);
        return;
    }
    if n < 8 {
        vp::cover(1);
    } else {
        vp::cover(2);
    }
    let n = vp::conc(n as u64) as usize;
    chk!(h[..] == shifted(&b, n, left)[..]);
    vp::trace(vp::digest(&h));
}

/// two shifts in a row on the same hash
fn c08_twice() {
    vp::covers(1);
    let (b, mut h) = hash();
    let n = vp::range(0, 31);
    let m = vp::pick(20);
    h <<= n;
    h >>= m;
    let want = shifted(&shifted(&b, n, true), m, false);
    chk!(h[..] == want[..]);
    vp::cover(0);
}

// ---- C09

fn c09_ops() {
    vp::covers(1);
    let (a, x) = hash();
    let (b, y) = hash();
    let mut and = [0u8; 20];
    let mut or = [0u8; 20];
    let mut xor = [0u8; 20];
    let mut not = [0u8; 20];
    for i in 0..20 {
        and[i] = a[i] & b[i];
        or[i] = a[i] | b[i];
        xor[i] = a[i] ^ b[i];
        not[i] = !a[i];
    }
    macro_rules! forms {
        ($op:tt, $as:tt, $want:expr) => {
            let want = Sha1Hash::from($want);
            chk!(x.clone() $op y.clone() == want);
            chk!(x.clone() $op &y == want);
            chk!(&x $op &y == want);
            chk!(&x $op y.clone() == want);
            let mut z = x.clone();
            z $as y.clone();
            chk!(z == want);
            let mut z = x.clone();
            z $as &y;
            chk!(z == want);
            chk!(z[..] == $want[..]);
        };
    }
    forms!(&, &=, and);
    forms!(|, |=, or);
    forms!(^, ^=, xor);
    chk!((!x.clone())[..] == not[..]);
    chk!(x[..] == a[..]);
    chk!(y[..] == b[..]);
    vp::trace(vp::digest(&(x ^ y)));
    vp::cover(0);
}

fn c09_order() {
    vp::covers(3);
    let (a, x) = hash();
    let (b, y) = hash();
    // the numeric order, most significant byte first
    let mut want = std::cmp::Ordering::Equal;
    for i in (0..20).rev() {
        want = if a[i] < b[i] {
            std::cmp::Ordering::Less
        } else if a[i] > b[i] {
            std::cmp::Ordering::Greater
        } else {
            want
        };
    }
    vp::cover(match want {
        std::cmp::Ordering::Less => 0,
        std::cmp::Ordering::Equal => 1,
        std::cmp::Ordering::Greater => 2,
    });
    chk!(x.cmp(&y) == want);
    chk!(x.partial_cmp(&y) == Some(want));
    chk!((x == y) == (want == std::cmp::Ordering::Equal));
    chk!((x < y) == (want == std::cmp::Ordering::Less));
    chk!((x >= y) == (want != std::cmp::Ordering::Less));
    chk!(Sha1Hash::min() <= x && x <= Sha1Hash::max());
}

fn c09_zeros() {
    vp::covers(2);
    let (b, mut h) = hash();
    let n = h.leading_zeros();
    chk!(n <= 160);
    let mut zero = true;
    for i in 0..20 {
        zero &= b[i] == 0;
    }
    chk!(h.all_zeroes() == zero);
    chk!((n == 160) == zero);
    if zero {
        vp::cover(0);
    } else {
        vp::cover(1);
        let n = vp::conc(n as u64) as usize;
        chk!(bit(&b, n) == 1);
        for i in 0..n {
            chk!(bit(&b, i) == 0);
        }
    }
    h.clear();
    chk!(h.all_zeroes() && h.leading_zeros() == 160);
}

fn c09_build() {
    vp::covers(2);
    let v = vp::vec(vp::range(0, 24));
    match Sha1Hash::from_bytes(&v) {
        Some(h) => {
            vp::cover(0);
            chk!(v.len() == 20);
            chk!(h[..] == v[..]);
        }
        None => {
            vp::cover(1);
            chk!(v.len() != 20);
        }
    }
    let (b, mut h) = hash();
    chk!(h[..] == b[..]);
    chk!(Sha1Hash::from(&b) == h);
    chk!(h.iter().zip(b.iter()).all(|(x, y)| x == y));
    chk!(h.iter().count() == 20);
    let i = vp::pick(20);
    let x = vp::u8();
    h[i] = x;
    for j in 0..20 {
        chk!(h[j] == if i == j { x } else { b[j] });
    }
    for y in h.iter_mut() {
        *y ^= 0xff;
    }
    chk!(h[i] == !x);
    chk!(Sha1Hash::new().all_zeroes() && Sha1Hash::min().all_zeroes());
    chk!((!Sha1Hash::max()).all_zeroes());
    chk!(Sha1Hash::default() == Sha1Hash::min());
}

/// slices that are much too long
fn c09_build_long() {
    vp::covers(1);
    let n = [25, 32, 40, 64, 128, 160, 255, 256, 276, 532, 65556][vp::pick(11)];
    let mut v = vec![0x5a; n];
    v[0] = vp::u8();
    chk!(Sha1Hash::from_bytes(&v).is_none());
    vp::cover(0);
}

// ---- C10

fn digit(c: u8) -> Option<u8> {
    // from the definition of a hexadecimal digit
    if c >= 0x30 && c <= 0x39 {
        Some(c - 0x30)
    } else if c >= 0x41 && c <= 0x46 {
        Some(c - 0x41 + 10)
    } else if c >= 0x61 && c <= 0x66 {
        Some(c - 0x61 + 10)
    } else {
        None
    }
}

fn lower(n: u8) -> u8 {
    if n < 10 {
        0x30 + n
    } else {
        0x61 + (n - 10)
    }
}

fn c10_bytes(n: usize) {
    vp::covers(1);
    let n = vp::range(0, n);
    let b = vp::vec(n);
    let t = hex::to_hex(&b);
    chk!(t.len() == 2 * n);
    for i in 0..n {
        chk!(t.as_bytes()[2 * i] == lower(b[i] >> 4));
        chk!(t.as_bytes()[2 * i + 1] == lower(b[i] & 15));
    }
    let mut out = vec![0xEEu8; n];
    chk!(hex::from_hex(t.as_bytes(), &mut out).is_some());
    chk!(out == b);
    // upper case reads the same
    let up: Vec<u8> = t.bytes().map(|c| if c >= b'a' { c - 32 } else { c }).collect();
    let mut out = vec![0xEEu8; n];
    chk!(hex::from_hex(&up, &mut out).is_some());
    chk!(out == b);
    chk!(hex::is_hex(t.as_bytes()));
    vp::trace(vp::digest(t.as_bytes()));
    vp::cover(0);
}

fn c10_text(n: usize) {
    vp::covers(4);
    let n = vp::range(0, n);
    let t = vp::vec(n);
    let mut want = vec![];
    let mut all = true;
    for c in &t {
        match digit(*c) {
            Some(d) => want.push(d),
            None => {
                all = false;
                break;
            }
        }
    }
    chk!(hex::is_hex(&t) == all);
    let extra = vp::pick(2);
    let mut out = vec![0xEEu8; n / 2 + extra];
    let r = hex::from_hex(&t, &mut out);
    if all && n % 2 == 0 {
        vp::cover(0);
        chk!(r.is_some());
        for i in 0..n / 2 {
            chk!(out[i] == want[2 * i] << 4 | want[2 * i + 1]);
        }
        if extra == 1 {
            vp::cover(1);
            chk!(out[n / 2] == 0xEE);
        }
    } else {
        if all {
            vp::cover(2);
        } else {
            vp::cover(3);
        }
        chk!(r.is_none());
    }
}

/// 40 digits of a hash, two of them arbitrary
fn c10_hash() {
    vp::covers(2);
    let mut t = *b"0123456789abcdefABCDEF0123456789abcdefAB";
    let mut want = [0u8; 20];
    for i in 0..20 {
        want[i] = digit(t[2 * i]).unwrap() << 4 | digit(t[2 * i + 1]).unwrap();
    }
    let k = vp::pick(20);
    t[2 * k] = vp::u8();
    t[2 * k + 1] = vp::u8();
    let mut h = Sha1Hash::new();
    let r = hex::from_hex(&t, &mut h);
    match (digit(t[2 * k]), digit(t[2 * k + 1])) {
        (Some(a), Some(b)) => {
            vp::cover(0);
            want[k] = a << 4 | b;
            chk!(r.is_some());
            chk!(h[..] == want[..]);
            // shown in lower case
            let s = h.to_string();
            chk!(s.len() == 40);
            for i in 0..20 {
                chk!(s.as_bytes()[2 * i] == lower(want[i] >> 4));
                chk!(s.as_bytes()[2 * i + 1] == lower(want[i] & 15));
            }
        }
        _ => {
            vp::cover(1);
            chk!(r.is_none());
        }
    }
}

const LONG: [usize; 12] = [7, 15, 16, 20, 31, 32, 33, 64, 127, 128, 257, 1000];

/// longer strings with an arbitrary byte, and texts with an arbitrary digit
fn c10_long() {
    vp::covers(3);
    let n = LONG[vp::pick(12)];
    let at = [0, 1, n / 2, n - 2, n - 1][vp::pick(5)];
    let mut b: Vec<u8> = (0..n).map(|i| (i * 37) as u8 ^ (i >> 8) as u8).collect();
    b[at] = vp::u8();
    let t = hex::to_hex(&b);
    chk!(t.len() == 2 * n);
    let mut c = t.into_bytes();
    for i in 0..n {
        chk!(c[2 * i] == lower(b[i] >> 4));
        chk!(c[2 * i + 1] == lower(b[i] & 15));
    }
    let mut out = vec![0xEE; n];
    chk!(hex::from_hex(&c, &mut out).is_some());
    chk!(out == b);
    chk!(hex::is_hex(&c));
    let odd = vp::pick(2) == 1;
    if odd {
        c.pop();
    }
    let k = (2 * at + vp::pick(2)).min(c.len() - 1);
    c[k] = vp::u8();
    let r = hex::from_hex(&c, &mut out);
    let good = digit(c[k]).is_some();
    chk!(hex::is_hex(&c) == good);
    if odd {
        vp::cover(0);
        chk!(r.is_none());
    } else if good {
        vp::cover(1);
        chk!(r.is_some());
        for i in 0..n {
            chk!(out[i] == digit(c[2 * i]).unwrap() << 4 | digit(c[2 * i + 1]).unwrap());
        }
    } else {
        vp::cover(2);
        chk!(r.is_none());
    }
}

fn c10_digit() {
    vp::covers(2);
    let c = vp::u8();
    let d = digit(c);
    chk!(hex::hex_to_int(c) == d);
    chk!(hex::is_hex(&[c]) == d.is_some());
    if d.is_some() {
        vp::cover(1);
    } else {
        vp::cover(0);
    }
}

// ---- C11

/// an arbitrary key whose two bits lie in the given 256 bits of the filter
fn key_in(parts: usize, at: [usize; 2]) -> ([u8; 20], Sha1Hash) {
    let mut b = vp::bytes::<20>();
    b[1] = b[1] & !(parts as u8 - 1) | at[0] as u8;
    b[3] = b[3] & !(parts as u8 - 1) | at[1] as u8;
    (b, Sha1Hash::from(b))
}

/// an arbitrary key whose two bits lie in the given bytes of the filter
fn key_at(n: usize, at: [usize; 2]) -> Sha1Hash {
    let mut b = vp::bytes::<20>();
    for i in 0..2 {
        let k = at[i] << 3;
        b[2 * i] = b[2 * i] & 7 | k as u8;
        b[2 * i + 1] = b[2 * i + 1] & !((n / 32) as u8 - 1) | (k >> 8) as u8;
    }
    Sha1Hash::from(b)
}

macro_rules! c11 {
    ($ty:ident, $n:expr, $set:ident, $many:ident, $build:ident, $size:ident, $mono:ident, $grow:ident) => {
        /// inserting an arbitrary key into an arbitrary filter
        fn $set() {
            vp::covers(2);
            let bits = vp::bytes::<$n>();
            // case by case on where the bits lie
            const PARTS: usize = $n / 32;
            let (k, key) = key_in(PARTS, [vp::pick(PARTS as u8), vp::pick(PARTS as u8)]);
            let i1 = (k[0] as usize | (k[1] as usize) << 8) % ($n * 8);
            let i2 = (k[2] as usize | (k[3] as usize) << 8) % ($n * 8);
            let mut f = $ty::from(bits);
            // found exactly when both bits are set
            let has = |b: &[u8], i: usize| b[i >> 3] >> (i & 7) & 1 == 1;
            let before = has(&bits, i1) && has(&bits, i2);
            chk!(f.find(&key) == before);
            if before {
                vp::cover(0);
            } else {
                vp::cover(1);
            }
            f.set(&key);
            chk!(f.find(&key));
            // an arbitrary bit of the filter afterwards
            let j = vp::pick(PARTS as u8) << 8 | vp::u8() as usize;
            let want = has(&bits, j) || j == i1 || j == i2;
            chk!(has(f.as_bytes(), j) == want);
            chk!(f.as_bytes().len() == $n);
            f.clear();
            chk!(f.as_bytes().iter().all(|b| *b == 0));
        }
        /// several keys: none is lost, and nothing else is in the filter
        fn $many(max: usize) {
            vp::covers(1);
            let mut f = $ty::new();
            let n = vp::range(1, max);
            let at = [0, $n / 2 - 1, $n - 1];
            let byte = || at[vp::pick(3)];
            let k = key_at($n, [byte(), byte()]);
            chk!(!f.find(&k));
            let mut keys = vec![];
            for _ in 0..n {
                keys.push(key_at($n, [byte(), byte()]));
            }
            for k in &keys[..n] {
                f.set(k);
            }
            for k in &keys[..n] {
                chk!(f.find(k));
            }
            let j = [0, 1, $n / 2 - 1, $n - 1][vp::pick(4)] << 3 | (vp::u8() & 7) as usize;
            let mut want = false;
            for k in &keys[..n] {
                want |= (k[0] as usize | (k[1] as usize) << 8) % ($n * 8) == j;
                want |= (k[2] as usize | (k[3] as usize) << 8) % ($n * 8) == j;
            }
            chk!((f.as_bytes()[j >> 3] >> (j & 7) & 1 == 1) == want);
            f.clear();
            chk!(!f.find(&k));
            vp::cover(0);
        }
        /// the bytes of a filter rebuild it
        fn $build() {
            vp::covers(1);
            let bits = vp::bytes::<$n>();
            let f = $ty::from(bits);
            chk!(f.as_bytes() == &bits[..]);
            chk!($ty::from(&bits[..]).as_bytes() == &bits[..]);
            chk!($ty::from(bits.to_vec()).as_bytes() == &bits[..]);
            chk!($ty::from($ty::from(bits).as_bytes()).as_bytes() == &bits[..]);
            let text = "x".repeat($n);
            chk!($ty::from(&text[..]).as_bytes() == text.as_bytes());
            chk!($ty::from(text.clone()).as_bytes() == text.as_bytes());
            chk!($ty::default().as_bytes().iter().all(|b| *b == 0));
            vp::cover(0);
        }
        /// the estimate depends on nothing but the number of zero bits
        fn $size() {
            vp::covers(1);
            let fill = vp::pick(4);
            let i = vp::range(0, 15) * ($n / 16) + vp::pick(($n / 16) as u8);
            let mut bits = [0u8; $n];
            for (j, b) in bits.iter_mut().enumerate() {
                *b = [0, 0x11u8.rotate_left((j % 8) as u32), 0xf7, 0xff][fill];
            }
            bits[i] = vp::u8();
            let mut zeros = 0;
            for b in &bits {
                zeros += b.count_zeros();
            }
            let f = $ty::from(bits);
            let zeros = vp::conc(zeros as u64) as usize;
            chk!(f.size() == $ty::from(canonical::<$n>(zeros)).size());
            vp::cover(0);
        }
        /// and does not grow with it; a key inserted sets at least no fewer bits
        fn $mono() {
            vp::covers(1);
            let hi = vp::pick(($n / 8) as u8);
            for z in hi * 64..(hi + 1) * 64 {
                let (a, b) = ($ty::from(canonical::<$n>(z)), $ty::from(canonical::<$n>(z + 1)));
                chk!(a.size() >= b.size());
                chk!(b.size() >= 0.0);
            }
            vp::cover(0);
        }
        /// inserting a key into a filter never lowers its estimate
        fn $grow() {
            vp::covers(1);
            let fill = vp::pick(4);
            let bits = [[0, 0x11, 0xf7, 0xff][fill]; $n];
            let mut f = $ty::from(bits);
            let before = f.size();
            let mut k = [0u8; 20];
            vp::fill(&mut k[..4]);
            // anywhere in two bytes of the filter
            let (i, j) = (vp::pick(3) * ($n / 2 - 1), vp::pick(3) * ($n / 2 - 1));
            vp::assume((k[0] as usize | (k[1] as usize) << 8) % ($n * 8) / 8 == i);
            vp::assume((k[2] as usize | (k[3] as usize) << 8) % ($n * 8) / 8 == j);
            f.set(&Sha1Hash::from(k));
            chk!(f.size() >= before);
            vp::cover(0);
        }
    };
}

/// a filter of N bytes with z zero bits, in the last places
fn canonical<const N: usize>(z: usize) -> [u8; N] {
    let mut b = [0u8; N];
    let ones = N * 8 - z;
    for i in 0..N {
        b[i] = if ones >= (i + 1) * 8 { 0xff } else if ones > i * 8 { ((1u16 << (ones - i * 8)) - 1) as u8 } else { 0 };
    }
    b
}

c11!(BloomFilter128, 128, c11_set128, c11_many128, c11_build128, c11_size128, c11_mono128, c11_grow128);
c11!(BloomFilter256, 256, c11_set256, c11_many256, c11_build256, c11_size256, c11_mono256, c11_grow256);

// ---- C12

fn c12_clamp() {
    vp::covers(3);
    let (v, lo, hi) = (vp::i64(), vp::i64(), vp::i64());
    vp::assume(lo <= hi);
    let r = common::clamp(v, lo, hi);
    if v < lo {
        vp::cover(0);
        chk!(r == lo);
    } else if v > hi {
        vp::cover(1);
        chk!(r == hi);
    } else {
        vp::cover(2);
        chk!(r == v);
    }
    let (v, lo, hi) = (vp::usize(), vp::usize(), vp::usize());
    vp::assume(lo <= hi);
    chk!(common::clamp(v, lo, hi) == if v < lo { lo } else if v > hi { hi } else { v });
    let (v, lo, hi) = (vp::u8(), vp::u8(), vp::u8());
    vp::assume(lo <= hi);
    chk!(common::clamp(v, lo, hi) == if v < lo { lo } else if v > hi { hi } else { v });
    let (v, lo, hi) = (vp::u8() as i8, vp::u8() as i8, vp::u8() as i8);
    vp::assume(lo <= hi);
    chk!(common::clamp(v, lo, hi) == if v < lo { lo } else if v > hi { hi } else { v });
    let (v, lo, hi) = (vp::u16(), vp::u16(), vp::u16());
    vp::assume(lo <= hi);
    chk!(common::clamp(v, lo, hi) == if v < lo { lo } else if v > hi { hi } else { v });
    let (v, lo, hi) = (vp::u32() as i32, vp::u32() as i32, vp::u32() as i32);
    vp::assume(lo <= hi);
    chk!(common::clamp(v, lo, hi) == if v < lo { lo } else if v > hi { hi } else { v });
}

fn c12_random() {
    vp::covers(3);
    let max = vp::usize();
    vp::assume(max > 0);
    let r = random::random_usize(max);
    chk!(r < max);
    // every index can be drawn, the first and the last among them
    if r == 0 {
        vp::cover(0);
    }
    if max > 1 && r == max - 1 {
        vp::cover(1);
    }
    if max == 1 {
        vp::cover(2);
    }
}

/// every byte of the buffer comes from the random source
fn c12_fill() {
    vp::covers(33);
    let n = vp::range(0, 33);
    let mut b = vec![0u8; n];
    random::fill_bytes(&mut b);
    chk!(b.len() == n);
    // the last bytes of each length
    if n > 0 && b[n - 1] == 0xA5 {
        cover_n(n - 1);
    }
    if n == 33 {
        let k = vp::pick(33);
        vp::assume(b[k] == 0x5A);
    }
}

/// long buffers: bytes anywhere in them take any value
fn c12_fill_long() {
    vp::covers(25);
    let l = vp::pick(5);
    let n = [64, 100, 255, 256, 1000][l];
    let mut b = vec![0xEE; n];
    random::fill_bytes(&mut b);
    let a = vp::pick(5);
    let k = [0, 7, n / 2 + 1, n - 2, n - 1][a];
    if b[k] == 0xA5 && b[(k + 3) % n] == 0x5A {
        cover_n(5 * l + a);
    }
}

fn c12_seed() {
    vp::covers(32);
    let s = common::ed25519::create_seed();
    let k = vp::pick(32);
    if s[k] == 0x3C && s[(k + 1) % 32] == 0xC3 {
        cover_n(k);
    }
}

fn cover_n(k: usize) {
    macro_rules! go { ($($i:literal)*) => { match k { $($i => vp::cover($i),)* _ => {} } } }
    go!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32);
}

// ---- C37

/// both of two seeds take any value in any byte
fn c37_seed() {
    vp::covers(32);
    let a = common::ed25519::create_seed();
    let b = common::ed25519::create_seed();
    let k = vp::pick(32);
    if a[k] == 0x96 && b[k] == 0x69 && a[(k + 7) % 32] != b[(k + 11) % 32] {
        cover_n(k);
    }
}

/// two key pairs can differ
fn c37_pair() {
    vp::covers(2);
    let (p, s) = common::ed25519::create_keypair();
    let (q, t) = common::ed25519::create_keypair();
    if *p != *q {
        vp::cover(0);
    }
    if *s != *t {
        vp::cover(1);
    }
}

// ---- C38

fn sha(b: &[u8]) -> [u8; 20] {
    let mut h = sha1::Sha1::new();
    h.update(b);
    h.digest().bytes()
}

/// FIPS 180-4, written out
fn fips(b: &[u8]) -> [u8; 20] {
    let mut m = b.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend_from_slice(&(b.len() as u64 * 8).to_be_bytes());
    let mut h = [0x67452301u32, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0];
    for c in m.chunks(64) {
        let mut w = [0u32; 80];
        for t in 0..80 {
            w[t] = if t < 16 {
                u32::from_be_bytes([c[4 * t], c[4 * t + 1], c[4 * t + 2], c[4 * t + 3]])
            } else {
                (w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16]).rotate_left(1)
            };
        }
        let [mut a, mut b, mut c, mut d, mut e] = h;
        for (t, w) in w.iter().enumerate() {
            let (f, k) = match t / 20 {
                0 => (b & c | !b & d, 0x5A827999),
                1 => (b ^ c ^ d, 0x6ED9EBA1),
                2 => (b & c | b & d | c & d, 0x8F1BBCDC),
                _ => (b ^ c ^ d, 0xCA62C1D6u32),
            };
            let x = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(*w);
            e = d;
            d = c;
            c = b.rotate_left(30);
            b = a;
            a = x;
        }
        for (h, v) in h.iter_mut().zip([a, b, c, d, e]) {
            *h = h.wrapping_add(v);
        }
    }
    let mut out = [0; 20];
    for (i, v) in h.iter().enumerate() {
        out[4 * i..4 * i + 4].copy_from_slice(&v.to_be_bytes());
    }
    out
}

fn c38_update() {
    vp::covers(1);
    let n = [0, 1, 2, 3, 4, 16, 19, 20, 21, 55, 56, 57, 63, 64, 65, 119, 120, 127, 128, 129, 200][vp::pick(21)];
    let b = vp::vec(n);
    chk!(Sha1Hash::update(&b)[..] == sha(&b)[..]);
    vp::cover(0);
}

fn c38_address() {
    vp::covers(2);
    if vp::pick(2) == 0 {
        let b = vp::bytes::<4>();
        let a = std::net::IpAddr::V4(b.into());
        chk!(Sha1Hash::from_address(&a)[..] == sha(&b)[..]);
        vp::cover(0);
    } else {
        let b = vp::bytes::<16>();
        let s = |i: usize| (b[2 * i] as u16) << 8 | b[2 * i + 1] as u16;
        let a = std::net::IpAddr::V6(std::net::Ipv6Addr::new(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7)));
        chk!(Sha1Hash::from_address(&a)[..] == sha(&b)[..]);
        vp::cover(1);
    }
}

/// SHA-1 itself, on one content of each length and on addresses
fn c38_known() {
    vp::covers(2);
    if vp::pick(2) == 0 {
        let n = vp::pick(201);
        let n = if n == 200 { 5000 } else { n };
        let m = 1 + vp::pick(3);
        let b: Vec<u8> = (0..n).map(|i| (i * i * m + i * 7 + m) as u8).collect();
        chk!(Sha1Hash::update(&b)[..] == fips(&b)[..]);
        chk!(sha(&b) == fips(&b));
        vp::cover(0);
    } else {
        let k = vp::pick(64) as u8;
        let b = [k.wrapping_mul(7), 255 - k, k ^ 0x5a, k.wrapping_mul(61)];
        chk!(Sha1Hash::from_address(&std::net::IpAddr::V4(b.into()))[..] == fips(&b)[..]);
        let mut b = [0u8; 16];
        for i in 0..16 {
            b[i] = k.wrapping_mul(i as u8 + 1) ^ (17 * i as u8);
        }
        chk!(Sha1Hash::from_address(&std::net::IpAddr::V6(b.into()))[..] == fips(&b)[..]);
        vp::cover(1);
    }
}
