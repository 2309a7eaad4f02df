//! C13-C25, C34, C36: the dht crate.
use crate::pieces::Pieces;
use crate::{chk, vp};
use bencode::{Value, ValueRef};
use common::sha1::Sha1Hash;
use common::types::{PublicKey, Signature};
use dht::detail;
use dht::msg::{verify_message_impl, KeyDesc};
use dht::node::{distance_exp, min_distance_exp, NodeId};
use dht::settings::DhtSettings;
use dht::state::{extract_node_ids, DhtState};
use dht::storage::{DefaultDhtStorage, DhtStorage};
use std::collections::BTreeMap;
use std::io::Cursor;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr, SocketAddrV4, SocketAddrV6};

harnesses! {
    h_c13_write => c13_write();
    h_c13_read => c13_read();
    h_c13_pieces => c13_pieces();

    h_c14_ids => c14(2, 0, 0);
    h_c14_nodes => c14(0, 3, 1);
    h_c14_nodes6 => c14(1, 1, 2);
    h_c14_all => c14(2, 2, 2);
    h_c14_many => c14_many();

    h_c15_ids => c15_ids();
    h_c15_list => c15_list();
    h_c15_wrong => c15_wrong();
    h_c15_many => c15_many();

    h_c16_direct => c16_direct();
    h_c16_bytes => c16_bytes();

    h_c17_all => c17_all();
    h_c17_one => c17_one();

    h_c18_exp => c18_exp();
    h_c18_min => c18_min(3);
    h_c18_many => c18_many();

    h_c19_some => c19(3);
    h_c19_some4 => c19(4);
    h_c19_reply => c19_reply();
    h_c19_name => c19_name();
    h_c19_long => c19_long_name();
    h_c19_any => c19_any();
    h_c19_large => c19_large();
    h_c19_many => c19_many();
    h_c19_kept => c19_kept();

    h_c20_history => c20(3);
    h_c20_history4 => c20(4);
    h_c20_peers => c20_peers(3);
    h_c20_peers4 => c20_peers(4);
    h_c20_many => c20_many(&[4, 6]);
    h_c20_many12 => c20_many(&[9, 12]);
    h_c20_large => c20_large();
    h_c20_large_torrents => c20_large_torrents();
    h_c20_torrents => c20_torrents();
    h_c20_any => c20_any();

    h_c21_history => item_history(false, 5);
    h_c21_history6 => item_history(false, 6);
    h_c21_evict => item_evict(false, true);
    h_c21_announcers => item_evict(false, false);
    h_c21_content => c21_content();
    h_c21_large => item_large(false);
    h_c21_wide => item_wide(false);
    h_c21_many => item_many(false);

    h_c22_seq => c22_seq(4);
    h_c22_seq5 => c22_seq(5);
    h_c22_get => c22_get();
    h_c22_history => item_history(true, 5);
    h_c22_history6 => item_history(true, 6);
    h_c22_evict => item_evict(true, true);
    h_c22_announcers => item_evict(true, false);
    h_c22_large => item_large(true);
    h_c22_wide => item_wide(true);
    h_c22_many => item_many(true);

    h_c23_scrape => c23(5);
    h_c23_ports => c23_ports();
    h_c23_many => c23_many();

    h_c24_other => c24();
    h_c24_evict => c24_evict(3);
    h_c24_evict4 => c24_evict(4);

    h_c25_bytes => c25(9);
    h_c25_bytes14 => c25(14);
    h_c25_long => c25_long();

    h_c34_verify => c34();
    h_c34_many => c34_many();

    h_c36_pick3 => c36(3);
    h_c36_pick4 => c36(4);
    h_c36_pick5 => c36(5);
    h_c36_six => c36_in(4, true);
    h_c36_seeds => c36_seeds();
}

// ---- C13

fn any_v4() -> ([u8; 4], Ipv4Addr) {
    let b = vp::bytes::<4>();
    (b, Ipv4Addr::new(b[0], b[1], b[2], b[3]))
}

fn any_v6() -> ([u8; 16], Ipv6Addr) {
    let b = vp::bytes::<16>();
    (b, v6(&b))
}

fn v6(b: &[u8; 16]) -> Ipv6Addr {
    let s = |i: usize| (b[2 * i] as u16) << 8 | b[2 * i + 1] as u16;
    Ipv6Addr::new(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7))
}

fn any_addr() -> (Vec<u8>, IpAddr) {
    if vp::pick(2) == 0 {
        let (b, a) = any_v4();
        (b.to_vec(), IpAddr::V4(a))
    } else {
        let (b, a) = any_v6();
        (b.to_vec(), IpAddr::V6(a))
    }
}

fn c13_write() {
    vp::covers(2);
    let (b, ip) = any_addr();
    let port = vp::u16();
    let sock = SocketAddr::new(ip, port);
    let before = vp::vec(vp::pick(2));
    let mut out = before.clone();
    chk!(detail::write_address(&mut out, &ip).is_ok());
    chk!(out[..before.len()] == before[..] && out[before.len()..] == b[..]);
    let mut out = before.clone();
    chk!(detail::write_socket_addr(&mut out, &sock).is_ok());
    chk!(out.len() == before.len() + b.len() + 2);
    chk!(out[before.len()..before.len() + b.len()] == b[..]);
    let p = &out[before.len() + b.len()..];
    chk!(p[0] == (port >> 8) as u8 && p[1] == port as u8);
    // a writer that takes less than all of it reports an error
    let room = vp::range(0, b.len() + 1);
    let mut small = vec![0u8; room];
    let r = detail::write_socket_addr(&mut &mut small[..], &sock);
    chk!(r.is_err());
    let mut c = Cursor::new(&out[before.len()..]);
    if ip.is_ipv4() {
        vp::cover(0);
        chk!(detail::read_v4_socket_address(&mut c).unwrap() == sock);
        chk!(c.position() == 6);
        chk!(detail::read_v4_address(&mut Cursor::new(&b)).unwrap() == ip);
    } else {
        vp::cover(1);
        chk!(detail::read_v6_socket_address(&mut c).unwrap() == sock);
        chk!(c.position() == 18);
        chk!(detail::read_v6_address(&mut Cursor::new(&b)).unwrap() == ip);
    }
}

fn c13_read() {
    vp::covers(8);
    let v = vp::vec(vp::range(0, 20));
    let n = v.len();
    macro_rules! one {
        ($f:ident, $need:expr, $port:expr, $ok:expr, $err:expr) => {
            let mut c = Cursor::new(&v);
            match detail::$f(&mut c) {
                Ok(a) => {
                    vp::cover($ok);
                    chk!(n >= $need);
                    chk!(c.position() == $need as u64);
                    let ip = if $need - $port == 4 {
                        IpAddr::V4(Ipv4Addr::new(v[0], v[1], v[2], v[3]))
                    } else {
                        let mut b = [0; 16];
                        b.copy_from_slice(&v[..16]);
                        IpAddr::V6(v6(&b))
                    };
                    let port = if $port > 0 { (v[$need - 2] as u16) << 8 | v[$need - 1] as u16 } else { 0 };
                    chk!(same_addr(a.into_parts(), (ip, port)));
                }
                Err(_) => {
                    vp::cover($err);
                    chk!(n < $need);
                }
            }
        };
    }
    one!(read_v4_address, 4, 0, 0, 1);
    one!(read_v6_address, 16, 0, 2, 3);
    one!(read_v4_socket_address, 6, 2, 4, 5);
    one!(read_v6_socket_address, 18, 2, 6, 7);
}

trait Parts {
    fn into_parts(self) -> (IpAddr, u16);
}
impl Parts for IpAddr {
    fn into_parts(self) -> (IpAddr, u16) {
        (self, 0)
    }
}
impl Parts for SocketAddr {
    fn into_parts(self) -> (IpAddr, u16) {
        (self.ip(), self.port())
    }
}
fn same_addr(a: (IpAddr, u16), b: (IpAddr, u16)) -> bool {
    a == b
}

/// the same through streams that work in pieces, pause or fail
fn c13_pieces() {
    vp::covers(4);
    let (b, ip) = any_addr();
    let sock = SocketAddr::new(ip, vp::u16());
    let want = compact(&sock);
    let with_port = vp::pick(2) == 1;
    let want = if with_port { want } else { b };
    let room = vp::range(0, want.len() + 2);
    let mut w = Pieces::any(vec![], room);
    let quiet = w.quiet;
    let r = if with_port { detail::write_socket_addr(&mut w, &sock) } else { detail::write_address(&mut w, &ip) };
    if room >= want.len() {
        vp::cover(0);
        chk!(r.is_ok());
        chk!(w.buf == want);
    } else {
        vp::cover(1);
        chk!(w.buf == want[..room]);
        match r {
            Ok(_) => chk!(false),
            Err(e) => chk!(e.kind() == if quiet { std::io::ErrorKind::WriteZero } else { std::io::ErrorKind::TimedOut }),
        }
    }
    let mut long = want.clone();
    long.push(9);
    let mut c = Pieces::any(long, room);
    let quiet = c.quiet;
    let r = match (with_port, ip.is_ipv4()) {
        (true, true) => detail::read_v4_socket_address(&mut c),
        (true, false) => detail::read_v6_socket_address(&mut c),
        (false, true) => detail::read_v4_address(&mut c).map(|a| SocketAddr::new(a, 0)),
        (false, false) => detail::read_v6_address(&mut c).map(|a| SocketAddr::new(a, 0)),
    };
    if room >= want.len() {
        vp::cover(2);
        chk!(c.at == want.len());
        match r {
            Ok(a) => chk!(a.ip() == ip && (!with_port || a == sock)),
            Err(_) => chk!(false),
        }
    } else {
        vp::cover(3);
        match r {
            Ok(_) => chk!(false),
            Err(e) => chk!(e.kind() == if quiet { std::io::ErrorKind::UnexpectedEof } else { std::io::ErrorKind::TimedOut }),
        }
    }
}

// ---- C14

/// long lists with one arbitrary entry each
fn c14_many() {
    vp::covers(1);
    let n = [4, 8, 9, 31, 64, 100, 101, 200, 257][vp::pick(9)];
    let m = n / 2;
    let mut s = DhtState::default();
    let at = [0, m / 2, m - 1][vp::pick(3)];
    for i in 0..m {
        let ip = if i == at { any_addr().1 } else { endpoint(i % 2 == 0, i as u8, 0).ip() };
        s.nids.push((ip, if i == at { any_id() } else { far(i) }));
    }
    for i in 0..n {
        let e = endpoint(i % 5 == 4, (i / 2) as u8, 2000 + i as u16);
        s.nodes.push(if i == at { any_sock() } else { e });
        s.nodes6.push(if i == at { any_sock() } else { endpoint(i % 7 != 3, (i / 2) as u8, 3000 + i as u16) });
    }
    let saved = s.save();
    let direct = DhtState::read(&saved.as_ref()).unwrap();
    let bytes = saved.to_vec();
    let r = DhtState::read(&ValueRef::decode(&bytes).unwrap()).unwrap();
    for r in [&direct, &r] {
        chk!(same_ids(&r.nids, &s.nids));
        chk!(r.nodes == s.nodes);
        chk!(r.nodes6 == s.nodes6);
    }
    // clearing forgets everything
    s.clear();
    chk!(s.nids.is_empty() && s.nodes.is_empty() && s.nodes6.is_empty());
    chk!(s.save().dict_len() == Some(0));
    vp::cover(0);
}

/// ids that differ from each other and from the targets
fn far(i: usize) -> NodeId {
    let mut b = [0x40 ^ i as u8; 20];
    b[3] = 0xa0;
    b[5] = (i >> 8) as u8;
    NodeId::from(b)
}

fn any_id() -> NodeId {
    NodeId::from(vp::bytes::<20>())
}

fn any_sock() -> SocketAddr {
    let (_, ip) = any_addr();
    SocketAddr::new(ip, vp::u16())
}

fn same_ids(a: &[(IpAddr, NodeId)], b: &[(IpAddr, NodeId)]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0 == y.0 && x.1 == y.1)
}

fn c14(ids: usize, nodes: usize, nodes6: usize) {
    vp::covers(1);
    let mut s = DhtState::default();
    for _ in 0..vp::range(0, ids) {
        let (_, ip) = any_addr();
        s.nids.push((ip, any_id()));
    }
    for _ in 0..vp::range(0, nodes) {
        s.nodes.push(any_sock());
    }
    for _ in 0..vp::range(0, nodes6) {
        s.nodes6.push(any_sock());
    }
    let saved = s.save();
    let direct = DhtState::read(&saved.as_ref()).unwrap();
    let bytes = saved.to_vec();
    let r = DhtState::read(&ValueRef::decode(&bytes).unwrap()).unwrap();
    for r in [&direct, &r] {
        chk!(same_ids(&r.nids, &s.nids));
        chk!(r.nodes == s.nodes);
        chk!(r.nodes6 == s.nodes6);
    }
    vp::trace(vp::digest(&bytes));
    vp::cover(0);
}

// ---- C15

/// a value of the wrong kind for a list of entries
fn odd_value<'a>(b: &'a [u8]) -> ValueRef<'a> {
    match vp::pick(4) {
        0 => ValueRef::Int(vp::i64()),
        1 => ValueRef::Dict(BTreeMap::new()),
        2 => ValueRef::List(vec![]),
        _ => ValueRef::Bytes(b),
    }
}

fn ip_of(b: &[u8]) -> IpAddr {
    if b.len() == 4 {
        IpAddr::V4(Ipv4Addr::new(b[0], b[1], b[2], b[3]))
    } else {
        let mut x = [0; 16];
        x.copy_from_slice(b);
        IpAddr::V6(v6(&x))
    }
}

fn id_of(b: &[u8]) -> NodeId {
    let mut x = [0; 20];
    x.copy_from_slice(b);
    NodeId::from(x)
}

const LENS: [usize; 9] = [0, 5, 6, 7, 18, 20, 24, 36, 37];

fn c15_ids() {
    vp::covers(3);
    let n = vp::range(0, 3);
    let mut store = vec![];
    for _ in 0..n {
        store.push(if vp::pick(3) == 0 { None } else { Some(vp::vec([0, 20, 23, 24, 25, 36, 40][vp::pick(7)])) });
    }
    let list: Vec<ValueRef> = store
        .iter()
        .map(|s| match s {
            Some(b) => ValueRef::Bytes(b),
            None => ValueRef::Int(7),
        })
        .collect();
    let mut want = vec![];
    for s in store.iter().flatten() {
        if s.len() == 24 || s.len() == 36 {
            want.push((ip_of(&s[20..]), id_of(&s[..20])));
        }
    }
    let mut d = BTreeMap::new();
    d.insert("node-id", ValueRef::List(list));
    let v = ValueRef::Dict(d);
    let got = extract_node_ids(&v, "node-id").unwrap();
    chk!(same_ids(&got, &want));
    chk!(extract_node_ids(&v, "other").unwrap().is_empty());
    let st = DhtState::read(&v).unwrap();
    chk!(same_ids(&st.nids, &want));
    chk!(st.nodes.is_empty() && st.nodes6.is_empty());
    if want.len() == n && n > 0 {
        vp::cover(0);
    } else if want.is_empty() {
        vp::cover(1);
    } else {
        vp::cover(2);
    }
}

fn c15_list() {
    vp::covers(2);
    let mut want: [Vec<SocketAddr>; 2] = [vec![], vec![]];
    let mut store = [vec![], vec![]];
    for k in 0..2 {
        for _ in 0..vp::range(0, 2) {
            let b = vp::vec(LENS[vp::pick(8)]);
            if b.len() == 6 || b.len() == 18 {
                let m = b.len() - 2;
                want[k].push(SocketAddr::new(ip_of(&b[..m]), (b[m] as u16) << 8 | b[m + 1] as u16));
            }
            store[k].push(b);
        }
    }
    let odd = vp::pick(3);
    let lists: Vec<ValueRef> = store
        .iter()
        .map(|l| {
            let mut v: Vec<ValueRef> = l.iter().map(|b| ValueRef::Bytes(b)).collect();
            if odd > 0 {
                v.insert(if odd == 1 { 0 } else { v.len() }, ValueRef::List(vec![ValueRef::Int(1)]));
            }
            ValueRef::List(v)
        })
        .collect();
    let mut d = BTreeMap::new();
    let mut lists = lists.into_iter();
    d.insert("nodes", lists.next().unwrap());
    d.insert("nodes6", lists.next().unwrap());
    d.insert("zzz", ValueRef::Int(0));
    let st = DhtState::read(&ValueRef::Dict(d)).unwrap();
    chk!(st.nodes == want[0]);
    chk!(st.nodes6 == want[1]);
    chk!(st.nids.is_empty());
    if !want[0].is_empty() && !want[1].is_empty() {
        vp::cover(0);
    } else {
        vp::cover(1);
    }
}

/// the keys hold values of any kind, or are absent
fn c15_wrong() {
    vp::covers(3);
    let b = vp::vec([0, 19, 20, 21, 24, 36, 40][vp::pick(7)]);
    if vp::pick(8) == 0 {
        // not even a dictionary
        let v = match vp::pick(3) {
            0 => ValueRef::Int(vp::i64()),
            1 => ValueRef::Bytes(&b),
            _ => ValueRef::List(vec![ValueRef::Bytes(&b)]),
        };
        let st = DhtState::read(&v).unwrap();
        chk!(st.nids.is_empty() && st.nodes.is_empty() && st.nodes6.is_empty());
        vp::cover(0);
        return;
    }
    let mut d = BTreeMap::new();
    let mut old = false;
    for k in ["node-id", "nodes", "nodes6"] {
        if vp::pick(2) == 1 {
            let v = odd_value(&b);
            if k == "node-id" && b.len() == 20 {
                if let ValueRef::Bytes(_) = v {
                    old = true;
                }
            }
            d.insert(k, v);
        }
    }
    let st = DhtState::read(&ValueRef::Dict(d)).unwrap();
    chk!(st.nodes.is_empty() && st.nodes6.is_empty());
    if old {
        vp::cover(1);
        chk!(st.nids.len() == 1);
        chk!(st.nids[0].0 == IpAddr::V4(Ipv4Addr::new(127, 0, 0, 1)));
        chk!(st.nids[0].1 == id_of(&b));
    } else {
        vp::cover(2);
        chk!(st.nids.is_empty());
    }
}

/// long lists, of which entries at some places have a wrong form
fn c15_many() {
    vp::covers(1);
    let n = [5, 9, 40, 130][vp::pick(4)];
    let bad = [vp::pick(3), 1 + vp::pick(2)];
    let len = LENS[vp::pick(9)];
    let junk = vp::vec(len);
    let mut want = vec![];
    let mut ids = vec![];
    let mut store = vec![];
    for i in 0..n {
        let e = endpoint(i % 3 == 1, i as u8, 1000 + i as u16);
        let c = compact(&e);
        let mut x = far(i).to_vec();
        x.extend_from_slice(&c[..c.len() - 2]);
        store.push((c, x));
        if i % 3 != bad[0] && i % 4 != bad[1] {
            want.push(e);
            ids.push((e.ip(), far(i)));
        }
    }
    let list = |k: usize| -> Vec<ValueRef> {
        (0..n)
            .map(|i| {
                if i % 3 == bad[0] {
                    // no entry of its list has such a length
                    ValueRef::Bytes(if (k == 0) == (len == 24 || len == 36) { &junk } else { b"x" })
                } else if i % 4 == bad[1] {
                    ValueRef::Int(i as i64)
                } else {
                    ValueRef::Bytes(if k == 0 { &store[i].0 } else { &store[i].1 })
                }
            })
            .collect()
    };
    let mut d = BTreeMap::new();
    d.insert("nodes", ValueRef::List(list(0)));
    d.insert("nodes6", ValueRef::List(list(0)));
    d.insert("node-id", ValueRef::List(list(1)));
    let st = DhtState::read(&ValueRef::Dict(d)).unwrap();
    chk!(st.nodes == want);
    chk!(st.nodes6 == want);
    chk!(same_ids(&st.nids, &ids));
    vp::cover(0);
}

// ---- C16, C17

macro_rules! each_int {
    ($m:ident) => {
        $m!(max_peers_reply search_branching max_fail_count max_torrents max_dht_items max_peers
            max_torrent_search_reply block_timeout block_ratelimit item_lifetime upload_rate_limit
            sample_infohashes_interval max_infohashes_sample_count)
    };
}
macro_rules! each_bool {
    ($m:ident) => {
        $m!(restrict_routing_ips restrict_search_ips extended_routing_table aggressive_lookups
            privacy_lookups enforce_node_id ignore_dark_internet read_only)
    };
}
macro_rules! int_names {
    ($($f:ident)*) => { [$(stringify!($f)),*] };
}
const INTS: [&str; 13] = each_int!(int_names);
const BOOLS: [&str; 8] = each_bool!(int_names);

fn ints(s: &DhtSettings) -> [usize; 13] {
    macro_rules! go { ($($f:ident)*) => { [$(s.$f),*] } }
    each_int!(go)
}
fn bools(s: &DhtSettings) -> [bool; 8] {
    macro_rules! go { ($($f:ident)*) => { [$(s.$f),*] } }
    each_bool!(go)
}
fn set(s: &mut DhtSettings, i: &[usize; 13], b: &[bool; 8]) {
    let mut k = 0;
    macro_rules! go { ($($f:ident)*) => { $( s.$f = i[k]; k += 1; )* } }
    each_int!(go);
    let mut k2 = 0;
    macro_rules! gob { ($($f:ident)*) => { $( s.$f = b[k2]; k2 += 1; )* } }
    each_bool!(gob);
    let _ = (k, k2);
}

fn c16_direct() {
    vp::covers(1);
    let mut i = [0usize; 13];
    let mut b = [false; 8];
    for x in i.iter_mut() {
        *x = vp::usize();
    }
    for x in b.iter_mut() {
        *x = vp::boolean();
    }
    let mut s = DhtSettings::default();
    set(&mut s, &i, &b);
    let v = s.save();
    let r = DhtSettings::read(&v.as_ref());
    let (ri, rb) = (ints(&r), bools(&r));
    for k in 0..13 {
        chk!(ri[k] == i[k]);
    }
    for k in 0..8 {
        chk!(rb[k] == b[k]);
    }
    vp::cover(0);
}

/// through bytes: all settings differ from their defaults and from each
/// other, one of them is arbitrary
fn c16_bytes() {
    vp::covers(1);
    let mut i = [0usize; 13];
    let d = DhtSettings::default();
    let db = bools(&d);
    let mut b = [false; 8];
    for k in 0..13 {
        i[k] = 31_000 + 17 * k;
    }
    for k in 0..8 {
        b[k] = vp::boolean();
    }
    let flip = vp::pick(2) == 0;
    if flip {
        for k in 0..8 {
            b[k] = !db[k];
        }
    }
    let k = vp::pick(13);
    i[k] = vp::u8() as usize;
    let mut s = DhtSettings::default();
    set(&mut s, &i, &b);
    let bytes = s.save().to_vec();
    let v = ValueRef::decode(&bytes).unwrap();
    let r = DhtSettings::read(&v);
    let (ri, rb) = (ints(&r), bools(&r));
    for k in 0..13 {
        chk!(ri[k] == i[k]);
    }
    for k in 0..8 {
        chk!(rb[k] == b[k]);
    }
    vp::cover(0);
}

fn c17_check(doc: &ValueRef, given: &dyn Fn(&str) -> Option<i64>) {
    let r = DhtSettings::read(doc);
    let d = DhtSettings::default();
    let (ri, rb) = (ints(&r), bools(&r));
    let (di, db) = (ints(&d), bools(&d));
    for k in 0..13 {
        match given(INTS[k]) {
            // a negative number is no valid value of a count
            Some(n) => chk!(n < 0 || ri[k] == n as usize),
            None => chk!(ri[k] == di[k]),
        }
    }
    for k in 0..8 {
        match given(BOOLS[k]) {
            Some(n) => chk!(rb[k] == (n != 0)),
            None => chk!(rb[k] == db[k]),
        }
    }
}

/// every setting is present as an arbitrary integer
fn c17_all() {
    vp::covers(1);
    let mut vals = vec![];
    let mut d = BTreeMap::new();
    for k in INTS.iter().chain(BOOLS.iter()) {
        let n = vp::i64();
        vals.push((*k, n));
        d.insert(*k, ValueRef::Int(n));
    }
    d.insert("prefer_verified_node_ids", ValueRef::Int(vp::i64()));
    c17_check(&ValueRef::Dict(d), &|k| vals.iter().find(|x| x.0 == k).map(|x| x.1));
    vp::cover(0);
}

/// up to two settings are present, with a value of any kind
fn c17_one() {
    vp::covers(3);
    let mut d = BTreeMap::new();
    let mut vals = vec![];
    let text = vp::vec(2);
    let doc = vp::pick(4);
    if doc == 0 {
        let v = odd_value(&text);
        c17_check(&v, &|_| None);
        vp::cover(0);
        return;
    }
    for _ in 0..2 {
        let i = vp::pick(22);
        let k = if i < 13 {
            INTS[i]
        } else if i < 21 {
            BOOLS[i - 13]
        } else {
            "max_peers_"
        };
        if d.contains_key(k) {
            continue;
        }
        if vp::pick(2) == 0 {
            let n = vp::i64();
            d.insert(k, ValueRef::Int(n));
            vals.push((k, n));
        } else {
            d.insert(k, if doc == 1 { ValueRef::Bytes(&text) } else if doc == 2 { ValueRef::List(vec![ValueRef::Int(1)]) } else { ValueRef::Dict(BTreeMap::new()) });
        }
    }
    if vals.len() == 2 {
        vp::cover(1);
    } else {
        vp::cover(2);
    }
    c17_check(&ValueRef::Dict(d), &|k| vals.iter().find(|x| x.0 == k).map(|x| x.1));
}

// ---- C18

/// the position of the highest set bit of a xor b, 0 when they are equal
fn exp_spec(a: &[u8; 20], b: &[u8; 20]) -> usize {
    for i in 0..20 {
        let x = a[i] ^ b[i];
        for j in 0..8 {
            if x >> (7 - j) & 1 == 1 {
                return 159 - (8 * i + j);
            }
        }
    }
    0
}

fn c18_exp() {
    vp::covers(2);
    let (a, b) = (vp::bytes::<20>(), vp::bytes::<20>());
    let (x, y) = (NodeId::from(a), NodeId::from(b));
    let n = distance_exp(&x, &y);
    chk!(n == exp_spec(&a, &b));
    chk!(distance_exp(&y, &x) == n);
    if a == b {
        vp::cover(0);
    } else {
        vp::cover(1);
    }
}

fn c18_min(k: usize) {
    vp::covers(1);
    let t = any_few();
    let target = NodeId::from(t);
    let mut ids = vec![];
    let mut want = 160;
    for _ in 0..vp::range(1, k) {
        let b = any_few();
        ids.push(NodeId::from(b));
        want = want.min(exp_spec(&t, &b));
    }
    chk!(min_distance_exp(&target, &ids) == want);
    vp::cover(0);
}

/// many ids, one of them with arbitrary bytes
fn c18_many() {
    vp::covers(1);
    let t = *b"\x11\x11\x11\x11\x11\x11\x11\x11\x11\x11\x11\x11\x11\x11\x11\x11\x11\x11\x11\x11";
    let n = [4, 8, 17][vp::pick(3)];
    let at = [0, n / 2, n - 1][vp::pick(3)];
    let mut ids = vec![];
    let mut want = 160;
    for i in 0..n {
        let mut b = t;
        if i == at {
            let k = [0, 7, 8, 15, 16, 19][vp::pick(6)];
            b[k] = vp::u8();
        } else {
            b[i * 7 % 20] ^= 1 << (i % 8);
        }
        ids.push(NodeId::from(b));
        want = want.min(exp_spec(&t, &b));
    }
    chk!(min_distance_exp(&NodeId::from(t), &ids) == want);
    vp::cover(0);
}

/// an id with an arbitrary first, middle and last byte
fn any_few() -> [u8; 20] {
    let mut b = [0u8; 20];
    b[0] = vp::u8();
    b[9] = vp::u8();
    b[19] = vp::u8();
    b
}

// ---- storage

/// targets whose distances to each other differ
fn target(i: usize) -> Sha1Hash {
    let mut b = [0x11u8; 20];
    match i {
        0 => {}
        1 => b[0] = 0x91,
        2 => b[1] = 0x13,
        3 => b[19] = 0x10,
        _ => b[10] ^= 0x40,
    }
    Sha1Hash::from(b)
}

fn settings() -> DhtSettings {
    DhtSettings::default()
}

/// an endpoint in a small network: 10.0.0.x or fd00::x, with any port
fn endpoint(six: bool, x: u8, port: u16) -> SocketAddr {
    if six {
        SocketAddr::V6(SocketAddrV6::new(Ipv6Addr::new(0xfd00, 0, 0, 0, 0, 0, 0, x as u16), port, 0, 0))
    } else {
        SocketAddr::V4(SocketAddrV4::new(Ipv4Addr::new(10, 0, 0, x), port))
    }
}

fn compact(e: &SocketAddr) -> Vec<u8> {
    let mut v = match e.ip() {
        IpAddr::V4(a) => a.octets().to_vec(),
        IpAddr::V6(a) => a.octets().to_vec(),
    };
    v.push((e.port() >> 8) as u8);
    v.push(e.port() as u8);
    v
}

fn dict() -> Value {
    Value::with_dict(BTreeMap::new())
}

struct Peer {
    ep: SocketAddr,
    seed: bool,
}

fn upsert(l: &mut Vec<Peer>, ep: SocketAddr, seed: bool, max: usize) -> bool {
    for p in l.iter_mut() {
        if p.ep == ep {
            p.seed = seed;
            return true;
        }
    }
    if l.len() < max {
        l.push(Peer { ep, seed });
        return true;
    }
    false
}

/// the peers in a reply
fn values(v: &Value) -> &[Value] {
    v.dict_find_list_value("values").unwrap_or(&[])
}

/// a reply to a lookup against the peers it may hold
fn check_reply(reply: &Value, peers: &[Peer], six: bool, no_seed: bool, cap: usize) {
    let l = values(reply);
    let eligible = peers.iter().filter(|p| p.ep.is_ipv6() == six && !(no_seed && p.seed)).count();
    chk!(l.len() == eligible.min(cap));
    for (i, v) in l.iter().enumerate() {
        let b = v.as_bytes().unwrap();
        chk!(b.len() == if six { 18 } else { 6 });
        chk!(peers.iter().any(|p| p.ep.is_ipv6() == six && !(no_seed && p.seed) && compact(&p.ep) == b));
        for w in &l[..i] {
            chk!(w.as_bytes().unwrap() != b);
        }
    }
}

// ---- C19

fn c19(n: usize) {
    vp::covers(3);
    let mut s = settings();
    let cap = vp::pick(4);
    let six = vp::pick(2) == 1;
    s.max_peers_reply = if six { cap * 4 + vp::pick(4) } else { cap };
    let mut st = DefaultDhtStorage::new(&s);
    let mut peers = vec![];
    let t = target(0);
    for _ in 0..vp::range(0, n) {
        let ep = endpoint(six, vp::u8(), vp::u16());
        let seed = vp::boolean();
        st.announce_peer(&t, &ep, "", seed);
        upsert(&mut peers, ep, seed, usize::MAX);
    }
    // another torrent and the other family do not show up
    st.announce_peer(&target(1), &endpoint(six, 77, 1), "", false);
    st.announce_peer(&t, &endpoint(!six, 78, 1), "", false);
    let no_seed = vp::boolean();
    let mut reply = dict();
    let full = st.get_peers(&t, no_seed, false, &endpoint(six, 9, 9), &mut reply).unwrap();
    chk!(!full);
    check_reply(&reply, &peers, six, no_seed, cap);
    chk!(reply.dict_find("n").is_none());
    if values(&reply).is_empty() {
        vp::cover(0);
    } else if values(&reply).len() < peers.len() {
        vp::cover(1);
    } else {
        vp::cover(2);
    }
}

fn sock(six: bool) -> SocketAddr {
    let ip = if six { IpAddr::V6(any_v6().1) } else { IpAddr::V4(any_v4().1) };
    SocketAddr::new(ip, vp::u16())
}

/// addresses of any kind, of the peers and of the requester
fn c19_any() {
    vp::covers(2);
    let s = settings();
    let mut st = DefaultDhtStorage::new(&s);
    let t = target(0);
    let six = vp::pick(2) == 1;
    let mut peers = vec![];
    for _ in 0..2 {
        let ep = sock(six);
        let seed = vp::boolean();
        st.announce_peer(&t, &ep, "", seed);
        upsert(&mut peers, ep, seed, usize::MAX);
    }
    let other = sock(!six);
    st.announce_peer(&t, &other, "", false);
    let mut reply = dict();
    chk!(!st.get_peers(&t, false, false, &sock(six), &mut reply).unwrap());
    check_reply(&reply, &peers, six, false, 100);
    let mut reply = dict();
    chk!(!st.get_peers(&t, true, false, &sock(!six), &mut reply).unwrap());
    check_reply(&reply, &[Peer { ep: other, seed: false }], !six, true, 100);
    vp::cover(six as u32);
}

/// many peers: replies that hold all, all but one, one or none
fn c19_many() {
    vp::covers(1);
    let mut s = settings();
    let n = [6, 12, 25, 60][vp::pick(4)];
    let six = vp::pick(2) == 1;
    let no_seed = vp::pick(2) == 1;
    let seeds = vp::pick(4);
    let arbitrary = if n > 6 { n } else { [0, 1, 2, 3, 5][vp::pick(5)] };
    vp::draws(arbitrary, vp::range(1, 3));
    let mut peers = vec![];
    for i in 0..n {
        // announced in no order
        let ep = endpoint(six, (i * 7 % 64) as u8, 100 + (i % 3) as u16);
        peers.push(Peer { ep, seed: i % 4 < seeds });
    }
    let eligible = peers.iter().filter(|p| !(no_seed && p.seed)).count();
    let cap = [0, 1, eligible - 1, eligible, eligible + 1][vp::pick(5)];
    s.max_peers_reply = if six { 4 * cap } else { cap };
    let mut st = DefaultDhtStorage::new(&s);
    for p in &peers {
        st.announce_peer(&target(0), &p.ep, "", p.seed);
    }
    let mut reply = dict();
    chk!(!st.get_peers(&target(0), no_seed, false, &endpoint(six, 9, 9), &mut reply).unwrap());
    check_reply(&reply, &peers, six, no_seed, cap);
    vp::cover(0);
}

/// the reply dictionary as the caller gives it
fn c19_reply() {
    vp::covers(4);
    let s = settings();
    let mut st = DefaultDhtStorage::new(&s);
    let six = vp::pick(2) == 1;
    let ep = endpoint(six, vp::u8(), vp::u16());
    let known = vp::pick(2) == 1;
    if known {
        st.announce_peer(&target(0), &ep, "", false);
    }
    let mut m = BTreeMap::new();
    let given = vp::pick(4);
    match given {
        0 => {}
        1 => {
            m.insert("values".to_owned(), Value::with_list(vec![]));
        }
        2 => {
            m.insert("id".to_owned(), Value::with_int(5));
        }
        _ => {
            m.insert("values".to_owned(), Value::with_int(5));
        }
    }
    let mut reply = Value::with_dict(m);
    let r = st.get_peers(&target(0), false, false, &endpoint(six, 1, 2), &mut reply);
    if !known {
        vp::cover(0);
        chk!(r.unwrap() == false);
        chk!(values(&reply).is_empty());
        return;
    }
    match r {
        Ok(full) => {
            vp::cover(1);
            chk!(!full);
            chk!(given != 3);
            chk!(values(&reply).len() == 1);
            chk!(values(&reply)[0].as_bytes() == Some(&compact(&ep)[..]));
            chk!(reply.dict_len() == Some(if given == 2 { 2 } else { 1 }));
        }
        Err(_) => {
            vp::cover(2);
            chk!(given == 3);
        }
    }
    // not a dictionary: an error
    let mut odd = Value::with_int(3);
    chk!(st.get_peers(&target(0), false, false, &endpoint(six, 1, 2), &mut odd).is_err());
    vp::cover(3);
}

/// a reply that holds values already, those of another lookup for example
fn c19_kept() {
    vp::covers(2);
    let mut s = settings();
    let six = vp::pick(2) == 1;
    let cap = vp::range(1, 2);
    s.max_peers_reply = if six { 4 * cap } else { cap };
    let mut st = DefaultDhtStorage::new(&s);
    let mut peers = vec![];
    for i in 0..vp::range(1, 3) {
        let ep = endpoint(six, 7 * i as u8, vp::u16());
        st.announce_peer(&target(0), &ep, "", false);
        peers.push(Peer { ep, seed: false });
    }
    let old = vp::range(1, 3);
    let mut held = vec![];
    for i in 0..old {
        // of the other family
        held.push(Value::from(compact(&endpoint(!six, 200 + i as u8, 1))));
    }
    let before = held.clone();
    let mut m = BTreeMap::new();
    m.insert("values".to_owned(), Value::with_list(held));
    m.insert("nodes".to_owned(), Value::with_int(7));
    let mut reply = Value::with_dict(m);
    chk!(!st.get_peers(&target(0), false, false, &endpoint(six, 1, 2), &mut reply).unwrap());
    chk!(reply.dict_find_int_value("nodes") == Some(7));
    chk!(reply.dict_len() == Some(2));
    let l = values(&reply);
    for b in &before {
        chk!(l.iter().filter(|v| *v == b).count() == 1);
    }
    let new: Vec<_> = l.iter().filter(|v| !before.contains(v)).cloned().collect();
    chk!(new.len() + old == l.len());
    let mut only = dict();
    if let Value::Dict(d) = &mut only {
        d.insert("values".to_owned(), Value::with_list(new));
    }
    check_reply(&only, &peers, six, false, cap);
    vp::cover((peers.len() > cap) as u32);
}

const NAMES: [&str; 4] = ["", "a", "file", "\u{e9}\u{4e16}"];

fn c19_name() {
    vp::covers(2);
    let mut s = settings();
    s.max_peers = 1 + vp::pick(2);
    let mut st = DefaultDhtStorage::new(&s);
    let mut first = "";
    for i in 0..vp::range(1, 3) {
        let name = NAMES[vp::pick(4)];
        st.announce_peer(&target(0), &endpoint(false, i as u8, vp::u16()), name, vp::boolean());
        st.announce_peer(&target(1), &endpoint(false, 9, 9), NAMES[vp::pick(2)], false);
        // a dropped announce may still name the torrent
        if first.is_empty() {
            first = name;
        }
    }
    let six = vp::pick(2) == 1;
    let scrape = vp::boolean();
    let mut reply = dict();
    chk!(st.get_peers(&target(0), vp::boolean(), scrape, &endpoint(six, 1, 2), &mut reply).is_ok());
    if first.is_empty() {
        vp::cover(0);
        chk!(reply.dict_find("n").is_none());
    } else {
        vp::cover(1);
        chk!(reply.dict_find_str_value("n") == Some(first));
    }
}

/// names are cut to 100 characters
fn c19_long_name() {
    vp::covers(1);
    let s = settings();
    let mut st = DefaultDhtStorage::new(&s);
    let n = vp::range(98, 102);
    let c = ["x", "\u{e9}", "\u{1F600}"][vp::pick(3)];
    let name: String = (0..n).map(|_| c).collect();
    st.announce_peer(&target(0), &endpoint(false, 1, 1), &name, false);
    let mut reply = dict();
    chk!(st.get_peers(&target(0), false, false, &endpoint(false, 1, 2), &mut reply).is_ok());
    let got = reply.dict_find_str_value("n").unwrap();
    chk!(got.chars().count() == n.min(100));
    chk!(name.starts_with(got));
    vp::cover(0);
}

// ---- C20

struct Torrent {
    t: usize,
    peers: Vec<Peer>,
}

/// would the announce be dropped? (and if not, do it)
fn model_announce(m: &mut Vec<Torrent>, t: usize, ep: SocketAddr, seed: bool, s: &DhtSettings, act: bool) -> bool {
    let i = match m.iter().position(|x| x.t == t) {
        Some(i) => i,
        None => {
            if m.len() >= s.max_torrents {
                return true;
            }
            if !act {
                return false;
            }
            m.push(Torrent { t, peers: vec![] });
            m.len() - 1
        }
    };
    let l = &mut m[i].peers;
    for p in l.iter_mut() {
        if p.ep == ep {
            if act {
                p.seed = seed;
            }
            return false;
        }
    }
    if l.iter().filter(|p| p.ep.is_ipv6() == ep.is_ipv6()).count() >= s.max_peers {
        return true;
    }
    if act {
        l.push(Peer { ep, seed });
    }
    false
}

fn check_storage(st: &DefaultDhtStorage, m: &[Torrent], torrents: usize) {
    for t in 0..torrents {
        for six in [false, true] {
            for no_seed in [false, true] {
                let mut reply = dict();
                // the seeds that are left out have the newest flags
                chk!(st.get_peers(&target(t), no_seed, false, &endpoint(six, 200, 7), &mut reply).is_ok());
                let none = vec![];
                let peers = m.iter().find(|x| x.t == t).map(|x| &x.peers).unwrap_or(&none);
                check_reply(&reply, peers, six, no_seed, 100);
            }
        }
    }
}

fn c20(n: usize) {
    vp::covers(4);
    let mut s = settings();
    s.max_torrents = vp::pick(3);
    s.max_peers = 1 + vp::pick(2);
    s.max_peers_reply = 400;
    let mut st = DefaultDhtStorage::new(&s);
    vp::draws(0, 3);
    let mut m = vec![];
    for _ in 0..vp::range(0, n) {
        let t = vp::pick(3);
        let ep = endpoint(false, vp::pick(2) as u8, 80);
        let seed = vp::boolean();
        if model_announce(&mut m, t, ep, seed, &s, true) {
            vp::cover(0);
        } else {
            vp::cover(1);
        }
        st.announce_peer(&target(t), &ep, "", seed);
    }
    let t = vp::pick(3);
    let ep = endpoint(vp::pick(2) == 1, vp::pick(2) as u8, 80);
    let mut reply = dict();
    let full = st.get_peers(&target(t), false, false, &ep, &mut reply).unwrap();
    let dropped = model_announce(&mut m, t, ep, true, &s, false);
    if dropped {
        vp::cover(2);
    } else {
        vp::cover(3);
    }
    chk!(full == dropped);
    check_storage(&st, &m, 3);
    // the answer says whether the announce is dropped
    st.announce_peer(&target(t), &ep, "", true);
    model_announce(&mut m, t, ep, true, &s, true);
    check_storage(&st, &m, 3);
}

/// one torrent, any endpoints of both families
fn c20_peers(n: usize) {
    vp::covers(2);
    let mut s = settings();
    s.max_peers = vp::pick(3);
    s.max_peers_reply = 400;
    let mut st = DefaultDhtStorage::new(&s);
    vp::draws(0, 3);
    let mut m = vec![];
    for _ in 0..vp::range(1, n) {
        let six = vp::pick(2) == 1;
        let ep = endpoint(six, vp::u8() & 3, vp::u16() & 0x101);
        let seed = vp::boolean();
        if model_announce(&mut m, 0, ep, seed, &s, true) {
            vp::cover(0);
        } else {
            vp::cover(1);
        }
        st.announce_peer(&target(0), &ep, "", seed);
    }
    let ep = endpoint(vp::pick(2) == 1, vp::u8() & 3, vp::u16() & 0x101);
    let mut reply = dict();
    let full = st.get_peers(&target(0), false, false, &ep, &mut reply).unwrap();
    chk!(full == model_announce(&mut m, 0, ep, true, &s, false));
    check_storage(&st, &m, 1);
}

/// more peers, at and below the capacity, and one arbitrary peer
fn c20_many(sizes: &[usize]) {
    vp::covers(3);
    let mut s = settings();
    let n = sizes[vp::pick(2)];
    s.max_peers = n + vp::pick(3) - 1;
    s.max_peers_reply = 400;
    let mut st = DefaultDhtStorage::new(&s);
    vp::draws(0, 3);
    let mut m = vec![];
    let six = vp::pick(2) == 1;
    for i in 0..n {
        let ep = endpoint(six, 3 * (i * 5 % 37) as u8, 80 + (i % 2) as u16);
        let dropped = model_announce(&mut m, 0, ep, i % 2 == 0, &s, true);
        vp::cover(dropped as u32);
        st.announce_peer(&target(0), &ep, "", i % 2 == 0);
    }
    let ep = endpoint(six, vp::u8(), 80 + (vp::u8() & 1) as u16);
    let seed = vp::boolean();
    let mut reply = dict();
    let full = st.get_peers(&target(0), false, false, &ep, &mut reply).unwrap();
    chk!(full == model_announce(&mut m, 0, ep, seed, &s, false));
    st.announce_peer(&target(0), &ep, "", seed);
    model_announce(&mut m, 0, ep, seed, &s, true);
    for no_seed in [false, true] {
        let mut reply = dict();
        chk!(st.get_peers(&target(0), no_seed, false, &endpoint(six, 200, 7), &mut reply).is_ok());
        check_reply(&reply, &m[0].peers, six, no_seed, 100);
    }
    vp::cover(2);
}

/// one of many endpoints
fn nth(six: bool, i: usize) -> SocketAddr {
    let port = 1000 + (i % 7) as u16;
    if six {
        SocketAddr::V6(SocketAddrV6::new(Ipv6Addr::new(0xfd00, 0, 0, i as u16, 0, 0, 0, 3), port, 0, 0))
    } else {
        SocketAddr::V4(SocketAddrV4::new(Ipv4Addr::new(10, (i >> 8) as u8, i as u8, 3), port))
    }
}

/// which of them a compact endpoint is
fn which(b: &[u8]) -> usize {
    if b.len() == 18 {
        (b[6] as usize) << 8 | b[7] as usize
    } else {
        (b[1] as usize) << 8 | b[2] as usize
    }
}

/// how often each of n endpoints is in a reply
fn tally(reply: &Value, six: bool, n: usize) -> Vec<u8> {
    let mut t = vec![0; n];
    for v in values(reply) {
        let b = v.as_bytes().unwrap();
        let i = which(b);
        chk!(i < n && compact(&nth(six, i)) == b);
        t[i] += 1;
    }
    t
}

/// more than 256 peers, at or near the capacity, then an announce
fn c20_large() {
    vp::covers(2);
    let mut s = settings();
    let n = [256, 300, 500][vp::pick(3)];
    s.max_peers = n + vp::pick(2);
    s.max_peers_reply = 4 * n + 8;
    let room = s.max_peers > n;
    let mut st = DefaultDhtStorage::new(&s);
    vp::draws(4 * n, 3);
    let six = vp::pick(2) == 1;
    for i in 0..n {
        // 211 is coprime to all of n
        let i = i * 211 % n;
        st.announce_peer(&target(0), &nth(six, i), "", i % 3 == 0);
    }
    // a known peer, or a new one that comes last
    let at = [0, 1, n / 2, n - 1, n][vp::pick(5)];
    let seed = vp::pick(2) == 1;
    let mut reply = dict();
    let full = st.get_peers(&target(0), true, true, &nth(six, at), &mut reply).unwrap();
    chk!(full == (at == n && !room));
    vp::cover(full as u32);
    st.announce_peer(&target(0), &nth(six, at), "", seed);
    for no_seed in [false, true] {
        let mut reply = dict();
        chk!(st.get_peers(&target(0), no_seed, false, &nth(six, 0), &mut reply).is_ok());
        for (i, c) in tally(&reply, six, n + 1).iter().enumerate() {
            let known = i < n || (at == n && room);
            let is_seed = if i == at { seed } else { i % 3 == 0 };
            chk!(*c == (known && !(no_seed && is_seed)) as u8);
        }
    }
}

/// hundreds of torrents
fn c20_large_torrents() {
    vp::covers(2);
    let mut s = settings();
    s.max_torrents = [256, 300, 2000][vp::pick(3)];
    let max = s.max_torrents;
    let mut st = DefaultDhtStorage::new(&s);
    for i in 0..max + 2 {
        st.announce_peer(&far(i), &nth(false, i), "", false);
    }
    let i = [0, 255, 256, max - 1, max, max + 1][vp::pick(6)];
    let mut reply = dict();
    let full = st.get_peers(&far(i), false, false, &nth(false, 7), &mut reply).unwrap();
    let known = i < max;
    vp::cover(known as u32);
    chk!(full != known);
    chk!(values(&reply).len() == known as usize);
    if known {
        chk!(values(&reply)[0].as_bytes() == Some(&compact(&nth(false, i))[..]));
    }
}

/// replies of more than 256 peers, or all but one of them
fn c19_large() {
    vp::covers(1);
    let mut s = settings();
    let n = 300;
    let six = vp::pick(2) == 1;
    let no_seed = vp::pick(2) == 1;
    let mut eligible = 0;
    for i in 0..n {
        eligible += !(no_seed && i % 3 == 0) as usize;
    }
    let cap = [1, eligible / 2, eligible - 1, eligible, eligible + 1, 1000][vp::pick(6)];
    vp::draws(n, vp::range(1, 3));
    s.max_peers_reply = if six { 4 * cap + 1 } else { cap };
    let mut st = DefaultDhtStorage::new(&s);
    for i in 0..n {
        let i = i * 211 % n;
        st.announce_peer(&target(0), &nth(six, i), "", i % 3 == 0);
    }
    let mut reply = dict();
    chk!(!st.get_peers(&target(0), no_seed, false, &nth(six, 0), &mut reply).unwrap());
    chk!(values(&reply).len() == eligible.min(cap));
    for (i, c) in tally(&reply, six, n).iter().enumerate() {
        chk!(*c <= !(no_seed && i % 3 == 0) as u8);
    }
    vp::cover(0);
}

/// more torrents than fit
fn c20_torrents() {
    vp::covers(2);
    let mut s = settings();
    s.max_torrents = [1, 3, 8, 20][vp::pick(4)];
    let n = s.max_torrents + 2;
    let mut st = DefaultDhtStorage::new(&s);
    let port = vp::u16();
    for i in 0..n {
        st.announce_peer(&far(i), &endpoint(i % 2 == 1, 1, port), "", false);
        // known ones go on being updated
        if i > 0 {
            st.announce_peer(&far(0), &endpoint(false, 2, 2), "", true);
        }
    }
    for i in 0..n {
        let mut reply = dict();
        let six = i % 2 == 1;
        let full = st.get_peers(&far(i), false, false, &endpoint(six, 9, 9), &mut reply).unwrap();
        let l = values(&reply);
        if i < s.max_torrents {
            vp::cover(0);
            chk!(!full);
            chk!(l.len() == 1 + (i == 0) as usize);
            let first = compact(&endpoint(six, 1, port));
            chk!(l.iter().any(|v| v.as_bytes() == Some(&first[..])));
            let second = compact(&endpoint(false, 2, 2));
            chk!(i > 0 || l.iter().any(|v| v.as_bytes() == Some(&second[..])));
        } else {
            vp::cover(1);
            chk!(full);
            chk!(l.is_empty());
        }
    }
}

/// any endpoints, with room for one or two
fn c20_any() {
    vp::covers(2);
    let mut s = settings();
    s.max_peers = vp::range(1, 2);
    let mut st = DefaultDhtStorage::new(&s);
    let six = vp::pick(2) == 1;
    let mut m = vec![];
    for _ in 0..2 {
        let ep = sock(six);
        let seed = vp::boolean();
        model_announce(&mut m, 0, ep, seed, &s, true);
        st.announce_peer(&target(0), &ep, "", seed);
    }
    let ep = sock(six);
    let mut reply = dict();
    let full = st.get_peers(&target(0), false, false, &ep, &mut reply).unwrap();
    chk!(full == model_announce(&mut m, 0, ep, true, &s, false));
    if full {
        vp::cover(1);
    } else {
        vp::cover(0);
    }
    check_reply(&reply, &m[0].peers, six, false, 100);
}

// ---- C21, C22: items

fn ip(i: usize) -> IpAddr {
    if i % 3 == 2 {
        IpAddr::V6(Ipv6Addr::new(0x2001, 0xdb8, 0, 0, 0, 0, i as u16, 1))
    } else {
        IpAddr::V4(Ipv4Addr::new(192, 0, 2, (7 * i) as u8))
    }
}

#[derive(Clone)]
struct Item {
    t: usize,
    content: Vec<u8>,
    seq: i64,
    sig: u8,
    key: u8,
    ips: Vec<usize>,
}

impl Item {
    fn importance(&self, ids: &[[u8; 20]]) -> i64 {
        let mut b = [0u8; 20];
        b.copy_from_slice(&target(self.t)[..]);
        let d = ids.iter().map(|id| exp_spec(&b, id)).min().unwrap();
        (self.ips.len() / 5) as i64 - d as i64
    }
}

fn sig(x: u8) -> Signature {
    let mut s = Signature::default();
    for (i, b) in s.iter_mut().enumerate() {
        *b = x.wrapping_add(i as u8);
    }
    s
}

fn key(x: u8) -> PublicKey {
    let mut s = PublicKey::default();
    for (i, b) in s.iter_mut().enumerate() {
        *b = x ^ i as u8;
    }
    s
}

fn put(st: &mut DefaultDhtStorage, mutable: bool, it: &Item, from: usize) {
    if mutable {
        st.put_mutable_item(&target(it.t), &it.content, &sig(it.sig), it.seq, &key(it.key), b"salt", &ip(from));
    } else {
        st.put_immutable_item(&target(it.t), &it.content, &ip(from));
    }
}

/// what a lookup shows for a target: the item, or nothing
fn check_item(st: &DefaultDhtStorage, mutable: bool, t: usize, want: Option<&Item>) {
    let mut reply = dict();
    if mutable {
        let mut seq = 0x5555;
        let found = st.get_mutable_item_seq(&target(t), &mut seq);
        chk!(found == want.is_some());
        chk!(st.get_mutable_item(&target(t), -1, true, &mut reply) == want.is_some());
        match want {
            Some(w) => {
                chk!(seq == w.seq);
                chk!(reply.dict_find_int_value("seq") == Some(w.seq));
                chk!(reply.dict_find("sig").and_then(|v| v.as_bytes()) == Some(&sig(w.sig)[..]));
                chk!(reply.dict_find("k").and_then(|v| v.as_bytes()) == Some(&key(w.key)[..]));
            }
            None => {
                chk!(seq == 0x5555);
                chk!(reply.dict_len() == Some(0));
            }
        }
    } else {
        chk!(st.get_immutable_item(&target(t), &mut reply) == want.is_some());
        chk!(reply.dict_len() == Some(want.is_some() as usize));
    }
    if let Some(w) = want {
        // strings of one-digit length and one-digit integers
        match (w.content[0], reply.dict_find("v")) {
            (b'i', Some(v)) => chk!(v.as_int() == Some((w.content[1] - b'0') as i64)),
            (_, Some(v)) => chk!(v.as_bytes() == Some(&w.content[2..])),
            _ => chk!(false),
        }
    }
}

fn present(st: &DefaultDhtStorage, mutable: bool, t: usize) -> bool {
    let mut reply = dict();
    let mut seq = 0;
    if mutable {
        st.get_mutable_item_seq(&target(t), &mut seq)
    } else {
        st.get_immutable_item(&target(t), &mut reply)
    }
}

/// does the change of the table follow the rules? updates the model
fn model_put(st: &DefaultDhtStorage, mutable: bool, m: &mut Vec<Item>, it: &Item, from: usize, max: usize, ids: &[[u8; 20]]) {
    if let Some(o) = m.iter_mut().find(|o| o.t == it.t) {
        // an immutable item keeps its content, a mutable one its newest
        if mutable && it.seq > o.seq {
            o.content = it.content.clone();
            o.seq = it.seq;
            o.sig = it.sig;
        }
        if !o.ips.contains(&from) {
            o.ips.push(from);
        }
    } else {
        if m.len() >= max {
            let least = m.iter().map(|o| o.importance(ids)).min().unwrap();
            let mut gone = 0;
            let mut i = 0;
            while i < m.len() {
                if present(st, mutable, m[i].t) {
                    i += 1;
                } else {
                    chk!(m[i].importance(ids) == least);
                    m.remove(i);
                    gone += 1;
                }
            }
            chk!(gone == 1);
        }
        let mut n = it.clone();
        n.ips = vec![from];
        m.push(n);
    }
}

fn check_items(st: &DefaultDhtStorage, mutable: bool, m: &[Item], targets: usize) {
    for t in 0..targets {
        check_item(st, mutable, t, m.iter().find(|o| o.t == t));
    }
}

fn near_id() -> [u8; 20] {
    let mut b = [0x11u8; 20];
    b[0] = vp::u8();
    b[19] = vp::u8();
    b
}

fn item_history(mutable: bool, n: usize) {
    vp::covers(2);
    let mut s = settings();
    s.max_dht_items = 1 + vp::pick(2);
    let mut st = DefaultDhtStorage::new(&s);
    let id = near_id();
    st.update_node_ids(&[NodeId::from(id)]);
    let mut m: Vec<Item> = vec![];
    for k in 0..vp::range(1, n) {
        let t = vp::pick(3);
        let from = 0;
        let it = Item {
            t,
            content: vec![b'1', b':', b'a' + k as u8],
            seq: k as i64,
            sig: k as u8,
            key: t as u8,
            ips: vec![],
        };
        let old = m.len();
        put(&mut st, mutable, &it, from);
        model_put(&st, mutable, &mut m, &it, from, s.max_dht_items, &[id]);
        chk!(m.len() <= s.max_dht_items);
        if m.len() == old {
            vp::cover(0);
        } else {
            vp::cover(1);
        }
        check_items(&st, mutable, &m, 4);
    }
}

/// two items with so many announcers each, and a third that pushes one out
fn item_evict(mutable: bool, many_ids: bool) {
    vp::covers(2);
    let mut s = settings();
    s.max_dht_items = 2;
    let mut st = DefaultDhtStorage::new(&s);
    let mut ids = vec![near_id()];
    if many_ids && vp::pick(2) == 1 {
        ids.push(near_id());
    }
    if vp::pick(2) == 1 {
        // the set of ids in force is the last one
        st.update_node_ids(&[target(1), target(4)]);
    }
    st.update_node_ids(&ids.iter().map(|b| NodeId::from(*b)).collect::<Vec<_>>());
    const COUNTS: [usize; 6] = [1, 4, 5, 9, 10, 11];
    let mut m: Vec<Item> = vec![];
    let pair = [[0, 1], [1, 2], [0, 3]][vp::pick(3)];
    for t in pair {
        let it = Item { t, content: b"i7e".to_vec(), seq: 3, sig: 1, key: t as u8, ips: vec![] };
        let c = if many_ids { 1 } else { COUNTS[vp::pick(6)] };
        for from in 0..c {
            put(&mut st, mutable, &it, from);
            model_put(&st, mutable, &mut m, &it, from, 2, &ids);
        }
        // the same announcers again do not count
        for from in 0..c.min(5) {
            put(&mut st, mutable, &it, from);
        }
    }
    let before = [m[0].importance(&ids), m[1].importance(&ids)];
    if before[0] < before[1] {
        vp::cover(0);
    } else if before[1] < before[0] {
        vp::cover(1);
    }
    let it = Item { t: 4, content: b"3:new".to_vec(), seq: 1, sig: 9, key: 9, ips: vec![] };
    put(&mut st, mutable, &it, 1);
    model_put(&st, mutable, &mut m, &it, 1, 2, &ids);
    check_items(&st, mutable, &m, 5);
}

/// larger tables, with one item that more announcers keep, and two evictions
fn item_many(mutable: bool) {
    vp::covers(1);
    let mut s = settings();
    s.max_dht_items = vp::range(3, 4);
    let max = s.max_dht_items;
    let mut st = DefaultDhtStorage::new(&s);
    let id = near_id();
    st.update_node_ids(&[NodeId::from(id)]);
    let mut m: Vec<Item> = vec![];
    let kept = vp::pick(max as u8);
    for t in 0..max {
        let it = Item { t, content: b"i7e".to_vec(), seq: 3, sig: 1, key: t as u8, ips: vec![] };
        for from in 0..if t == kept { 10 } else { 1 } {
            put(&mut st, mutable, &it, from);
            model_put(&st, mutable, &mut m, &it, from, max, &[id]);
        }
    }
    for t in [4, max % 4] {
        let it = Item { t, content: b"3:new".to_vec(), seq: 1, sig: 9, key: 9, ips: vec![] };
        put(&mut st, mutable, &it, 1);
        model_put(&st, mutable, &mut m, &it, 1, max, &[id]);
        chk!(m.len() == max);
    }
    check_items(&st, mutable, &m, 5);
    vp::cover(0);
}

fn put_at(st: &mut DefaultDhtStorage, mutable: bool, t: &NodeId, content: &[u8], from: &IpAddr) {
    if mutable {
        st.put_mutable_item(t, content, &sig(1), 1, &key(1), b"", from);
    } else {
        st.put_immutable_item(t, content, from);
    }
}

fn number_at(st: &DefaultDhtStorage, mutable: bool, t: &NodeId) -> Option<i64> {
    let mut reply = dict();
    let found = if mutable {
        st.get_mutable_item(t, 0, true, &mut reply)
    } else {
        st.get_immutable_item(t, &mut reply)
    };
    let n = reply.dict_find_int_value("v");
    chk!(found == n.is_some());
    n
}

/// a full table of n items, one of which `many` addresses announced, and two
/// more; at most n remain, and the ones that go are the least important
fn item_table(mutable: bool, n: usize, many: usize, id: [u8; 20]) {
    let mut s = settings();
    s.max_dht_items = n;
    let mut st = DefaultDhtStorage::new(&s);
    st.update_node_ids(&[NodeId::from(id)]);
    let known = [0, n / 2, n - 1][vp::pick(3)];
    let content = |i: usize| format!("i{}e", i).into_bytes();
    // item, announcers
    let mut m: Vec<(usize, i64)> = vec![];
    for i in 0..n {
        for a in 0..if i == known { many } else { 1 } {
            put_at(&mut st, mutable, &far(i), &content(i), &spread(a));
        }
        m.push((i, if i == known { many as i64 } else { 1 }));
    }
    let importance = |(i, c): (usize, i64)| {
        let mut b = [0u8; 20];
        b.copy_from_slice(&far(i)[..]);
        c / 5 - exp_spec(&b, &id) as i64
    };
    for new in [n, n + 1] {
        put_at(&mut st, mutable, &far(new), &content(new), &spread(0));
        let least = m.iter().map(|x| importance(*x)).min().unwrap();
        let mut kept = vec![];
        for x in &m {
            match number_at(&st, mutable, &far(x.0)) {
                Some(v) => {
                    chk!(v == x.0 as i64);
                    kept.push(*x);
                }
                None => chk!(importance(*x) == least),
            }
        }
        chk!(kept.len() == n - 1);
        chk!(number_at(&st, mutable, &far(new)) == Some(new as i64));
        m = kept;
        m.push((new, 1));
    }
    vp::cover(0);
}

/// addresses whose filter bits do not cover each other
fn spread(a: usize) -> IpAddr {
    IpAddr::V4(Ipv4Addr::new(10, 0, (a >> 8) as u8, a as u8))
}

fn item_large(mutable: bool) {
    vp::covers(1);
    let n = [256, 300, 700][vp::pick(3)];
    let mut id = [0x45; 20];
    id[3] = 0xa1;
    item_table(mutable, n, 1, id);
}

fn item_wide(mutable: bool) {
    vp::covers(1);
    let mut id = [0x41; 20];
    id[0] = vp::u8();
    item_table(mutable, vp::range(9, 20), [1, 26, 90][vp::pick(3)], id);
}

/// any content comes back, and a later put does not replace it
fn c21_content() {
    vp::covers(1);
    let s = settings();
    let mut st = DefaultDhtStorage::new(&s);
    st.update_node_ids(&[target(2)]);
    let n = vp::range(0, 4);
    let mut content = vec![b'0' + n as u8, b':'];
    content.extend(vp::vec(n));
    let it = Item { t: 0, content: content.clone(), seq: 0, sig: 0, key: 0, ips: vec![] };
    check_item(&st, false, 0, None);
    put(&mut st, false, &it, 0);
    check_item(&st, false, 0, Some(&it));
    let other = Item { content: b"i1e".to_vec(), ..it.clone() };
    put(&mut st, false, &other, vp::pick(2));
    check_item(&st, false, 0, Some(&it));
    check_item(&st, false, 1, None);
    // the reply may hold other entries already
    let mut m = BTreeMap::new();
    m.insert("t".to_owned(), Value::with_int(1));
    let mut reply = Value::with_dict(m);
    chk!(st.get_immutable_item(&target(0), &mut reply));
    chk!(reply.dict_len() == Some(2) && reply.dict_find_int_value("t") == Some(1));
    vp::cover(0);
}

// ---- C22

fn c22_seq(n: usize) {
    vp::covers(3);
    let s = settings();
    let mut st = DefaultDhtStorage::new(&s);
    st.update_node_ids(&[target(2)]);
    let mut m: Vec<Item> = vec![];
    let mut last = None;
    for k in 0..vp::range(1, n) {
        let mut content = vec![b'1' + (vp::pick(2) as u8), b':'];
        let len = (content[0] - b'0') as usize;
        content.extend(vp::vec(len));
        let it = Item { t: vp::pick(2), content, seq: vp::i64(), sig: vp::u8(), key: 3 + k as u8, ips: vec![] };
        put(&mut st, true, &it, k);
        let new = !m.iter().any(|o| o.t == it.t);
        let ahead = m.iter().any(|o| o.t == it.t && o.seq < it.seq);
        model_put(&st, true, &mut m, &it, k, 100, &[]);
        if new {
            vp::cover(0);
        } else if ahead {
            vp::cover(1);
        } else {
            vp::cover(2);
        }
        if let Some(q) = last {
            let mut now = 0;
            if it.t == 0 && st.get_mutable_item_seq(&target(0), &mut now) {
                chk!(now >= q);
            }
        }
        let mut now = 0;
        if st.get_mutable_item_seq(&target(0), &mut now) {
            last = Some(now);
        }
    }
    check_items(&st, true, &m, 3);
}

fn c22_get() {
    vp::covers(3);
    let s = settings();
    let mut st = DefaultDhtStorage::new(&s);
    st.update_node_ids(&[target(2)]);
    let it = Item { t: 0, content: vec![b'1', b':', vp::u8()], seq: vp::i64(), sig: vp::u8(), key: vp::u8(), ips: vec![] };
    put(&mut st, true, &it, 0);
    let (seq, force) = (vp::i64(), vp::boolean());
    let mut reply = dict();
    chk!(!st.get_mutable_item(&target(1), seq, force, &mut reply));
    chk!(reply.dict_len() == Some(0));
    chk!(st.get_mutable_item(&target(0), seq, force, &mut reply));
    chk!(reply.dict_find_int_value("seq") == Some(it.seq));
    let full = force || (seq >= 0 && seq < it.seq);
    if full {
        if force {
            vp::cover(0);
        } else {
            vp::cover(1);
        }
        chk!(reply.dict_len() == Some(4));
        chk!(reply.dict_find("v").and_then(|v| v.as_bytes()) == Some(&it.content[2..]));
        chk!(reply.dict_find("sig").and_then(|v| v.as_bytes()) == Some(&sig(it.sig)[..]));
        chk!(reply.dict_find("k").and_then(|v| v.as_bytes()) == Some(&key(it.key)[..]));
    } else {
        vp::cover(2);
        chk!(reply.dict_len() == Some(1));
    }
}

// ---- C23

fn bit(f: &[u8], i: usize) -> bool {
    f[i >> 3] >> (i & 7) & 1 == 1
}

fn bits_of(ip: &IpAddr) -> [usize; 2] {
    let h = Sha1Hash::from_address(ip);
    [(h[0] as usize | (h[1] as usize) << 8) % 2048, (h[2] as usize | (h[3] as usize) << 8) % 2048]
}

fn c23_check(st: &DefaultDhtStorage, peers: &[Peer], six: bool, no_seed: bool) {
    let mut reply = dict();
    chk!(st.get_peers(&target(0), no_seed, true, &endpoint(six, 1, 1), &mut reply).is_ok());
    chk!(reply.dict_len() == Some(2));
    let pe = reply.dict_find("BFpe").and_then(|v| v.as_bytes()).unwrap();
    let sd = reply.dict_find("BFsd").and_then(|v| v.as_bytes()).unwrap();
    let mut want = [[0u8; 256]; 2];
    for p in peers {
        for b in bits_of(&p.ep.ip()) {
            want[p.seed as usize][b >> 3] |= 1 << (b & 7);
        }
    }
    chk!(pe == &want[0][..]);
    chk!(sd == &want[1][..]);
}

/// an address may announce several ports, as seed and as downloader
fn c23_ports() {
    vp::covers(1);
    let s = settings();
    let mut st = DefaultDhtStorage::new(&s);
    let six = vp::pick(2) == 1;
    let mut peers = vec![];
    for _ in 0..3 {
        let ep = endpoint(six, vp::pick(2) as u8, vp::pick(2) as u16);
        let seed = vp::pick(2) == 1;
        st.announce_peer(&target(0), &ep, "", seed);
        upsert(&mut peers, ep, seed, 500);
    }
    c23_check(&st, &peers, six, vp::boolean());
    vp::cover(0);
}

/// many peers, more than a reply holds
fn c23_many() {
    vp::covers(1);
    let mut s = settings();
    s.max_peers_reply = 4;
    let n = [6, 30, 120][vp::pick(3)];
    let mut st = DefaultDhtStorage::new(&s);
    let six = vp::pick(2) == 1;
    let seeds = vp::pick(4);
    let mut peers = vec![];
    for i in 0..n {
        let ep = endpoint(six, i as u8, 1000 + i as u16);
        let seed = i % 3 < seeds;
        st.announce_peer(&target(0), &ep, "", seed);
        upsert(&mut peers, ep, seed, 500);
    }
    c23_check(&st, &peers, six, vp::pick(2) == 1);
    vp::cover(0);
}

fn c23(n: usize) {
    vp::covers(3);
    let mut s = settings();
    s.max_peers = 3;
    let mut st = DefaultDhtStorage::new(&s);
    let mut peers = vec![];
    let six = vp::pick(2) == 1;
    for k in 0..vp::range(0, n) {
        let ep = endpoint(six, vp::pick(3) as u8, 6881);
        // one arbitrary flag, so that both filters are decided together
        let seed = if k == 0 { vp::boolean() } else { vp::pick(2) == 1 };
        st.announce_peer(&target(0), &ep, "", seed);
        upsert(&mut peers, ep, seed, 3);
    }
    st.announce_peer(&target(0), &endpoint(!six, 11, 1), "", vp::boolean());
    st.announce_peer(&target(1), &endpoint(six, 12, 1), "", vp::boolean());
    let mut reply = dict();
    chk!(st.get_peers(&target(0), vp::boolean(), true, &endpoint(six, 1, 1), &mut reply).is_ok());
    chk!(reply.dict_len() == Some(2));
    chk!(reply.dict_find("values").is_none());
    let pe = reply.dict_find("BFpe").and_then(|v| v.as_bytes()).unwrap();
    let sd = reply.dict_find("BFsd").and_then(|v| v.as_bytes()).unwrap();
    chk!(pe.len() == 256 && sd.len() == 256);
    let mut want = [[0u8; 256]; 2];
    for p in &peers {
        for b in bits_of(&p.ep.ip()) {
            if p.seed {
                want[1][b >> 3] |= 1 << (b & 7);
            } else {
                want[0][b >> 3] |= 1 << (b & 7);
            }
        }
    }
    chk!(pe == &want[0][..]);
    chk!(sd == &want[1][..]);
    for p in &peers {
        for b in bits_of(&p.ep.ip()) {
            chk!(bit(if p.seed { sd } else { pe }, b));
        }
    }
    if peers.is_empty() {
        vp::cover(0);
    } else if peers.iter().any(|p| p.seed) {
        vp::cover(1);
    } else {
        vp::cover(2);
    }
}

// ---- C24

/// everything a target shows
fn snapshot(st: &DefaultDhtStorage, t: usize) -> Vec<u8> {
    let mut out = vec![];
    for six in [false, true] {
        for scrape in [false, true] {
            let mut r = dict();
            let full = st.get_peers(&target(t), false, scrape, &endpoint(six, 1, 1), &mut r).unwrap();
            out.push(full as u8);
            out.extend(r.to_vec());
        }
    }
    let mut r = dict();
    out.push(st.get_immutable_item(&target(t), &mut r) as u8);
    out.extend(r.to_vec());
    let mut r = dict();
    let mut seq = 1;
    out.push(st.get_mutable_item_seq(&target(t), &mut seq) as u8);
    out.push(seq as u8);
    out.push(st.get_mutable_item(&target(t), 0, true, &mut r) as u8);
    out.extend(r.to_vec());
    out
}

fn operate(st: &mut DefaultDhtStorage, t: usize, x: u8) {
    match vp::pick(4) {
        0 => st.announce_peer(&target(t), &endpoint(false, 1, 6000 + x as u16), NAMES[vp::pick(2)], true),
        1 => st.announce_peer(&target(t), &endpoint(true, 1, 6000 + x as u16), "z", false),
        2 => st.put_immutable_item(&target(t), &[b'1', b':', x], &ip(1)),
        _ => st.put_mutable_item(&target(t), &[b'1', b':', x], &sig(x), 2, &key(x), b"", &ip(1)),
    }
}

fn c24() {
    vp::covers(2);
    let mut s = settings();
    s.max_torrents = 3;
    s.max_dht_items = 3;
    s.max_peers = 2;
    let mut st = DefaultDhtStorage::new(&s);
    st.update_node_ids(&[target(2)]);
    let (a, b) = [(0, 1), (1, 0), (0, 3)][vp::pick(3)];
    // some history, then operations on other targets
    for _ in 0..vp::pick(3) {
        operate(&mut st, a, vp::u8());
    }
    let before = snapshot(&st, a);
    for _ in 0..vp::range(1, 2) {
        if vp::pick(4) == 0 {
            vp::cover(0);
            st.update_node_ids(&[NodeId::from(near_id())]);
        } else {
            vp::cover(1);
            operate(&mut st, b, vp::u8());
        }
        chk!(snapshot(&st, a) == before);
    }
}

/// what a target shows, one part for each table
fn parts(st: &DefaultDhtStorage, t: usize) -> [Vec<u8>; 3] {
    let mut peers = vec![];
    for six in [false, true] {
        let mut r = dict();
        st.get_peers(&target(t), false, false, &endpoint(six, 1, 1), &mut r).unwrap();
        peers.extend(r.to_vec());
    }
    let mut r = dict();
    let mut imm = vec![st.get_immutable_item(&target(t), &mut r) as u8];
    imm.extend(r.to_vec());
    let mut r = dict();
    let mut seq = 1;
    let mut mutable = vec![st.get_mutable_item_seq(&target(t), &mut seq) as u8, seq as u8];
    mutable.push(st.get_mutable_item(&target(t), 0, true, &mut r) as u8);
    mutable.extend(r.to_vec());
    [peers, imm, mutable]
}

/// small tables: an operation changes its own table and nothing else, but for
/// the one item that it evicts from that table
fn c24_evict(n: usize) {
    vp::covers(3);
    let mut s = settings();
    s.max_torrents = 2;
    s.max_dht_items = vp::range(1, 2);
    s.max_peers = 2;
    let mut st = DefaultDhtStorage::new(&s);
    st.update_node_ids(&[target(2)]);
    let mut have = [[false; 3]; 3];
    for k in 0..n {
        let t = vp::pick(3);
        let kind = vp::pick(3);
        let before = [parts(&st, 0), parts(&st, 1), parts(&st, 2)];
        let x = b'a' + k as u8;
        match kind {
            0 => st.announce_peer(&target(t), &endpoint(false, 1, 6000 + k as u16), "", true),
            1 => st.put_immutable_item(&target(t), &[b'1', b':', x], &ip(1)),
            _ => st.put_mutable_item(&target(t), &[b'1', b':', x], &sig(x), k as i64, &key(x), b"", &ip(1)),
        }
        let count = (0..3).filter(|i| have[*i][kind]).count();
        let evicts = kind > 0 && !have[t][kind] && count == s.max_dht_items;
        let mut gone = 0;
        for i in 0..3 {
            let now = parts(&st, i);
            for j in 0..3 {
                if i == t && j == kind {
                    continue;
                }
                if j == kind && evicts && have[i][j] && now[j] != before[i][j] {
                    // evicted as a whole
                    gone += 1;
                    have[i][j] = false;
                    chk!(now[j][0] == 0);
                } else {
                    chk!(now[j] == before[i][j]);
                }
            }
        }
        chk!(gone == evicts as usize);
        if kind > 0 || have[t][kind] || count < s.max_torrents {
            have[t][kind] = true;
        }
        if evicts {
            vp::cover(kind as u32 - 1);
        } else {
            vp::cover(2);
        }
    }
}

// ---- C25

fn c25(n: usize) {
    vp::covers(4);
    let n = vp::range(0, n);
    let v = vp::vec(n);
    for i in 1..n {
        vp::assume(v[i - 1] <= v[i]);
    }
    let x = vp::u8();
    let r = detail::lower_bound(&v, &x);
    let smaller = v.iter().filter(|y| **y < x).count();
    chk!(r == smaller);
    if n == 0 {
        vp::cover(0);
    } else if r == 0 {
        vp::cover(1);
    } else if r == n {
        vp::cover(2);
    } else {
        vp::cover(3);
    }
    let mut w = v.clone();
    w.insert(r.min(n), x);
    for i in 1..n + 1 {
        chk!(w[i - 1] <= w[i]);
    }
    // other types, in descending use of the order
    let f: Vec<i64> = v.iter().map(|b| *b as i64 - 128).collect();
    chk!(detail::lower_bound(&f, &(x as i64 - 128)) == r);
}

/// long slices of numbers that may repeat, and any value
fn c25_long() {
    vp::covers(1);
    let n = [15, 16, 17, 64, 200][vp::pick(5)];
    let d = 1 + vp::pick(4);
    let v: Vec<u16> = (0..n).map(|i| 100 + 3 * (i / d) as u16).collect();
    let x = vp::u16();
    let r = detail::lower_bound(&v, &x);
    chk!(r <= n);
    chk!(r == 0 || v[r - 1] < x);
    chk!(r == n || v[r] >= x);
    vp::cover(0);
}

// ---- C34

/// longer descriptions, of which one key may be missing
fn c34_many() {
    vp::covers(2);
    let names: Vec<String> = (0..12).map(|i| "k".repeat(1 + i)).collect();
    let n = [4, 5, 6, 12][vp::pick(4)];
    let gone = vp::pick(n as u8 + 1);
    let mut d = BTreeMap::new();
    for (i, k) in names.iter().enumerate() {
        if i != gone || gone == n {
            d.insert(&k[..], ValueRef::Int(i as i64));
        }
    }
    let msg = ValueRef::Dict(d);
    let back = vp::pick(2) == 1;
    let order: Vec<usize> = (0..n).map(|i| if back { n - 1 - i } else { i }).collect();
    let desc: Vec<KeyDesc> = order.iter().map(|i| KeyDesc::vp_new(&names[*i])).collect();
    let nothing = ValueRef::Int(-1);
    let mut ret = vec![&nothing; n];
    let r = verify_message_impl(&msg, &desc, &mut ret);
    chk!(r.is_ok() == (gone == n));
    if r.is_ok() {
        vp::cover(0);
        for (x, i) in ret.iter().zip(&order) {
            chk!(x.as_int() == Some(*i as i64));
        }
    } else {
        vp::cover(1);
    }
}

const KEYS: [&str; 4] = ["y", "t", "a", "target"];

fn inner<'a>() -> BTreeMap<&'a str, ValueRef<'a>> {
    KEYS.iter().chain(["tt"].iter()).map(|k| (*k, ValueRef::Int(9))).collect()
}

fn c34() {
    vp::covers(3);
    let text = vp::vec(2);
    let mut d = BTreeMap::new();
    let mut has = [false; 4];
    for i in 0..4 {
        has[i] = vp::pick(2) == 1;
        if has[i] {
            d.insert(KEYS[i], match i {
                0 => ValueRef::Bytes(&text),
                1 => ValueRef::Int(vp::i64()),
                // with entries of their own
                2 => ValueRef::Dict(inner()),
                _ => ValueRef::List(vec![ValueRef::Dict(inner())]),
            });
        }
    }
    let odd = vp::pick(4);
    let msg = match odd {
        0 => ValueRef::Int(3),
        1 => ValueRef::List(vec![ValueRef::Bytes(b"y"), ValueRef::Int(1)]),
        2 => ValueRef::Bytes(&text),
        _ => ValueRef::Dict(d),
    };
    let n = vp::range(0, 3);
    let mut want = vec![];
    let mut desc = vec![];
    for _ in 0..n {
        let k = vp::pick(5);
        want.push(k);
        desc.push(KeyDesc::vp_new(if k < 4 { KEYS[k] } else { "tt" }));
    }
    let nothing = ValueRef::Int(-1);
    let mut ret = vec![&nothing; n];
    let r = verify_message_impl(&msg, &desc, &mut ret);
    let all = odd == 3 && want.iter().all(|k| *k < 4 && has[*k]);
    chk!(r.is_ok() == all);
    if odd != 3 {
        vp::cover(0);
    } else if all {
        vp::cover(1);
        for (i, k) in want.iter().enumerate() {
            chk!(std::ptr::eq(ret[i], msg.dict_find(KEYS[*k]).unwrap()));
        }
    } else {
        vp::cover(2);
    }
}

// ---- C36

/// every choice of peers can be returned
fn c36(n: usize) {
    c36_in(n, false)
}

fn c36_in(n: usize, six: bool) {
    // one marker for each subset of the peers of the right size
    vp::covers([7, 15, 31][n - 3]);
    let mut s = settings();
    let k = vp::range(1, n - 1);
    s.max_peers_reply = if six { 4 * k + 1 } else { k };
    let mut st = DefaultDhtStorage::new(&s);
    for i in 0..n {
        st.announce_peer(&target(0), &endpoint(six, i as u8, 1), "", false);
    }
    let mut reply = dict();
    chk!(st.get_peers(&target(0), false, false, &endpoint(six, 99, 9), &mut reply).is_ok());
    c36_mark(&reply, six);
}

fn c36_mark(reply: &Value, six: bool) {
    let mut set = 0;
    for v in values(reply) {
        set |= 1 << v.as_bytes().unwrap()[if six { 15 } else { 3 }];
    }
    macro_rules! go { ($($i:literal)*) => { match set { $($i => vp::cover($i),)* _ => {} } } }
    vp::cover(0);
    go!(1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30);
}

/// the same among downloaders only, with seeds before, between and after them
fn c36_seeds() {
    vp::covers(15);
    let mut s = settings();
    s.max_peers_reply = vp::range(1, 3);
    let mut st = DefaultDhtStorage::new(&s);
    for i in 0..4 {
        st.announce_peer(&target(0), &endpoint(false, i as u8, 1), "", false);
    }
    for i in 0..4 {
        st.announce_peer(&target(0), &endpoint(false, i as u8, if i % 2 == 0 { 0 } else { 2 }), "", true);
    }
    let mut reply = dict();
    chk!(st.get_peers(&target(0), true, false, &endpoint(false, 99, 9), &mut reply).is_ok());
    c36_mark(&reply, false);
}
