//! Conformance driver: executes a script of operations on the real crate and
//! records what can be observed as one JSON event per line.  It contains no
//! expectation about results: the TLA+ trace specification judges the events.
//!
//! usage: sdb-harness <script> <events> <scratch dir>
mod decode;
mod inter;
mod util;

use siamesedb::filedb::{CheckFileDbMap, FileBufSizeParam, FileDb, FileDbMap, FileDbParams};
use siamesedb::filedb::{FileDbMapDbBytes, FileDbMapDbInt, FileDbMapDbString};
use siamesedb::memdb::{MemoryDb, MemoryDbMapDbBytes, MemoryDbMapDbInt, MemoryDbMapDbString};
use siamesedb::{DbBytes, DbInt, DbMap, DbMapKeyType, DbString, DbXxx, DbXxxBase, HashValue};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;
use std::io::{Result, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug)]
enum Key {
    Str(String),
    Int(u64),
    Bytes(Vec<u8>),
}
impl Key {
    fn bytes(&self) -> Vec<u8> {
        match self {
            Key::Str(s) => s.as_bytes().to_vec(),
            Key::Int(i) => i.to_be_bytes().to_vec(),
            Key::Bytes(b) => b.clone(),
        }
    }
}

trait Kt:
    DbMapKeyType
    + for<'a> From<&'a [u8]>
    + for<'a> From<&'a str>
    + for<'a> From<&'a u64>
    + for<'a> From<&'a String>
    + for<'a> From<&'a [u8; 4]>
    + for<'a> From<&'a [u8; 8]>
    + for<'a> From<&'a Self>
    + From<String>
    + From<Vec<u8>>
    + From<u64>
    + std::fmt::Display
    + 'static
{
}
impl Kt for DbString {}
impl Kt for DbInt {}
impl Kt for DbBytes {}

enum H {
    S(FileDbMapDbString),
    I(FileDbMapDbInt),
    B(FileDbMapDbBytes),
    MS(MemoryDbMapDbString<'static>),
    MI(MemoryDbMapDbInt<'static>),
    MB(MemoryDbMapDbBytes<'static>),
}

macro_rules! all {
    ($h:expr, $m:ident => $e:expr) => {
        match $h {
            H::S($m) => $e,
            H::I($m) => $e,
            H::B($m) => $e,
            H::MS($m) => $e,
            H::MI($m) => $e,
            H::MB($m) => $e,
        }
    };
}
macro_rules! file {
    ($h:expr, $m:ident => $e:expr) => {
        match $h {
            H::S($m) => $e,
            H::I($m) => $e,
            H::B($m) => $e,
            _ => panic!("harness: not a file map"),
        }
    };
}

struct Ctx {
    keys: Vec<Key>,                   // by rank - 1
    rank: Vec<usize>,                 // script index -> rank
    by_bytes: HashMap<Vec<u8>, usize>, // key bytes -> rank
    vals: Vec<Vec<u8>>,               // script index -> bytes
    vid: Vec<usize>,                  // script index -> id
    by_val: HashMap<Vec<u8>, usize>,  // bytes -> id
}

impl Ctx {
    fn key(&self, i: usize) -> &Key {
        &self.keys[self.rank[i] - 1]
    }
    fn id_of(&self, v: &[u8]) -> i64 {
        self.by_val.get(v).map(|&x| x as i64).unwrap_or(-1)
    }
    fn opt(&self, v: Option<Vec<u8>>) -> i64 {
        v.map(|v| self.id_of(&v)).unwrap_or(0)
    }
    fn opts(&self, v: Option<String>) -> i64 {
        v.map(|v| self.id_of(v.as_bytes())).unwrap_or(0)
    }
    fn rank_of(&self, k: &[u8]) -> i64 {
        self.by_bytes.get(k).map(|&x| x as i64).unwrap_or(-1)
    }
    fn all_int(&self, ix: &[usize]) -> bool {
        ix.iter().all(|&i| matches!(self.key(i), Key::Int(_)))
    }
    fn all_str(&self, ix: &[usize]) -> bool {
        ix.iter().all(|&i| matches!(self.key(i), Key::Str(_)))
    }
}

fn list(v: &[i64]) -> String {
    let v: Vec<String> = v.iter().map(|x| x.to_string()).collect();
    format!("[{}]", v.join(","))
}

thread_local! {
    static CONV: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
/// a key is given in every form the crate converts from, one after the other:
/// by reference to any type that converts, or as a key object
macro_rules! conv {
    ($k:expr, $q:ident => $e:expr, $kt:ident => $ek:expr) => {{
        let n = CONV.with(|c| {
            c.set(c.get().wrapping_add(1));
            c.get()
        });
        let bytes = $k.bytes();
        match ($k, n % 7, bytes.len()) {
            (Key::Str(s), 0, _) => {
                let $q: &String = s;
                $e
            }
            (Key::Str(s), 1, _) => {
                let o = KT::from(s.clone());
                let $kt = &o;
                $ek
            }
            (Key::Int(i), 0 | 1, _) => {
                let o = KT::from(*i);
                let $kt = &o;
                $ek
            }
            (Key::Int(i), 2, _) => {
                let o = KT::from(i);
                let $q: &KT = &o;
                $e
            }
            (_, 3 | 4, 8) => {
                let mut a = [0u8; 8];
                a.copy_from_slice(&bytes);
                let $q: &[u8; 8] = &a;
                $e
            }
            (_, 3 | 4, 4) => {
                let mut a = [0u8; 4];
                a.copy_from_slice(&bytes);
                let $q: &[u8; 4] = &a;
                $e
            }
            (_, 5, _) => {
                let o = KT::from(bytes.as_slice());
                let $q: &KT = &o;
                $e
            }
            (_, 6, _) => {
                let $q: &[u8] = bytes.as_slice();
                $e
            }
            _ => {
                let o = KT::from(bytes);
                let $kt = &o;
                $ek
            }
        }
    }};
}

// ---- single operations in every API form ---------------------------------
fn do_put<KT: Kt, M: DbXxx<KT>>(m: &mut M, k: &Key, v: &[u8], form: &str) -> Result<()> {
    match (form, k) {
        ("puts", Key::Str(s)) => m.put_string(s.as_str(), std::str::from_utf8(v).unwrap()),
        ("puts", Key::Int(i)) => m.put_string(i, std::str::from_utf8(v).unwrap()),
        ("puts", Key::Bytes(b)) => m.put_string(b.as_slice(), std::str::from_utf8(v).unwrap()),
        ("putc", k) => conv!(k, q => m.put(q, v), kt => m.put_kt(kt, v)),
        ("putk", k) => m.put_kt(&KT::from_bytes(&k.bytes()), v),
        (_, Key::Str(s)) => m.put(s.as_str(), v),
        (_, Key::Int(i)) => m.put(i, v),
        (_, Key::Bytes(b)) => m.put(b.as_slice(), v),
    }
}
fn do_get<KT: Kt, M: DbXxx<KT>>(m: &mut M, k: &Key, form: &str, c: &Ctx) -> Result<i64> {
    Ok(match (form, k) {
        ("gets", Key::Str(s)) => c.opts(m.get_string(s.as_str())?),
        ("gets", Key::Int(i)) => c.opts(m.get_string(i)?),
        ("gets", Key::Bytes(b)) => c.opts(m.get_string(b.as_slice())?),
        ("getc", k) => c.opt(conv!(k, q => m.get(q), kt => m.get_kt(kt))?),
        ("getk", k) => c.opt(m.get_kt(&KT::from_bytes(&k.bytes()))?),
        (_, Key::Str(s)) => c.opt(m.get(s.as_str())?),
        (_, Key::Int(i)) => c.opt(m.get(i)?),
        (_, Key::Bytes(b)) => c.opt(m.get(b.as_slice())?),
    })
}
fn do_del<KT: Kt, M: DbXxx<KT>>(m: &mut M, k: &Key, form: &str, c: &Ctx) -> Result<i64> {
    Ok(match (form, k) {
        ("dels", Key::Str(s)) => c.opts(m.delete_string(s.as_str())?),
        ("dels", Key::Int(i)) => c.opts(m.delete_string(i)?),
        ("dels", Key::Bytes(b)) => c.opts(m.delete_string(b.as_slice())?),
        ("delc", k) => c.opt(conv!(k, q => m.delete(q), kt => m.del_kt(kt))?),
        ("delk", k) => c.opt(m.del_kt(&KT::from_bytes(&k.bytes()))?),
        (_, Key::Str(s)) => c.opt(m.delete(s.as_str())?),
        (_, Key::Int(i)) => c.opt(m.delete(i)?),
        (_, Key::Bytes(b)) => c.opt(m.delete(b.as_slice())?),
    })
}

fn bulk<KT: Kt, M: DbXxx<KT>>(
    m: &mut M,
    op: &str,
    ks: &[usize],
    vs: &[usize],
    c: &Ctx,
) -> Result<Vec<i64>> {
    fn run<'a, KT, M, Q>(
        m: &mut M,
        op: &str,
        q: &[&'a Q],
        vs: &[usize],
        c: &'a Ctx,
    ) -> Result<Vec<i64>>
    where
        KT: Kt + From<&'a Q>,
        M: DbXxx<KT>,
        Q: Ord + ?Sized,
    {
        Ok(match op {
            "bput" => {
                let a: Vec<(&'a Q, &[u8])> = q
                    .iter()
                    .zip(vs)
                    .map(|(k, v)| (*k, c.vals[*v].as_slice()))
                    .collect();
                m.bulk_put(&a)?;
                vec![]
            }
            "bputs" => {
                let a: Vec<(&'a Q, String)> = q
                    .iter()
                    .zip(vs)
                    .map(|(k, v)| (*k, String::from_utf8(c.vals[*v].clone()).unwrap()))
                    .collect();
                m.bulk_put_string(&a)?;
                vec![]
            }
            "bget" => m.bulk_get(q)?.into_iter().map(|v| c.opt(v)).collect(),
            "bgets" => m
                .bulk_get_string(q)?
                .into_iter()
                .map(|v| c.opts(v))
                .collect(),
            "bdel" => m.bulk_delete(q)?.into_iter().map(|v| c.opt(v)).collect(),
            "bdels" => m
                .bulk_delete_string(q)?
                .into_iter()
                .map(|v| c.opts(v))
                .collect(),
            _ => panic!("harness: bulk op {}", op),
        })
    }
    let conv = CONV.with(|c| {
        c.set(c.get().wrapping_add(1));
        c.get() % 6
    });
    if conv == 1 {
        let own: Vec<KT> = ks.iter().map(|&i| KT::from(c.key(i).bytes())).collect();
        let own: &'static [KT] = Box::leak(own.into_boxed_slice());
        let q: Vec<&KT> = own.iter().collect();
        run::<KT, M, KT>(m, op, &q, vs, c)
    } else if conv == 4 && c.all_str(ks) {
        let own: Vec<String> = ks
            .iter()
            .map(|&i| String::from_utf8(c.key(i).bytes()).unwrap())
            .collect();
        let own: &'static [String] = Box::leak(own.into_boxed_slice());
        let q: Vec<&String> = own.iter().collect();
        run::<KT, M, String>(m, op, &q, vs, c)
    } else if c.all_int(ks) {
        let own: Vec<u64> = ks
            .iter()
            .map(|&i| match c.key(i) {
                Key::Int(u) => *u,
                _ => 0,
            })
            .collect();
        // the keys must live as long as the context: leak, the scripts are small
        let own: &'static [u64] = Box::leak(own.into_boxed_slice());
        let q: Vec<&u64> = own.iter().collect();
        run::<KT, M, u64>(m, op, &q, vs, c)
    } else if c.all_str(ks) {
        let q: Vec<&str> = ks
            .iter()
            .map(|&i| match c.key(i) {
                Key::Str(s) => s.as_str(),
                _ => "",
            })
            .collect();
        run::<KT, M, str>(m, op, &q, vs, c)
    } else {
        let own: Vec<Vec<u8>> = ks.iter().map(|&i| c.key(i).bytes()).collect();
        let own: &'static [Vec<u8>] = Box::leak(own.into_boxed_slice());
        let q: Vec<&[u8]> = own.iter().map(|b| b.as_slice()).collect();
        run::<KT, M, [u8]>(m, op, &q, vs, c)
    }
}

fn collect<KT: Kt, I: Iterator<Item = (KT, Vec<u8>)>>(
    mut it: I,
    c: &Ctx,
    part: usize,
) -> (Vec<(i64, i64)>, bool) {
    let mut v = Vec::new();
    let limit = c.keys.len() * 4 + 1000;
    loop {
        if v.len() == part {
            return (v, true);
        }
        match it.next() {
            Some((k, val)) => v.push((c.rank_of(k.as_bytes()), c.id_of(&val))),
            None => break,
        }
        if v.len() > limit {
            return (v, false);
        }
    }
    // stays ended
    let fused = it.next().is_none() && it.next().is_none();
    (v, fused)
}

fn do_iter<KT: Kt>(m: &mut FileDbMap<KT>, form: &str, c: &Ctx) -> (Vec<(i64, i64)>, bool) {
    let mut part = usize::MAX;
    let mut f = form;
    if let Some(i) = form.find(':') {
        part = form[i + 1..].parse().unwrap();
        f = &form[..i];
    }
    match f {
        "it" => collect(m.iter(), c, part),
        "im" => collect(m.iter_mut(), c, part),
        "ri" => {
            let r: &FileDbMap<KT> = m;
            collect(r.into_iter(), c, part)
        }
        "rm" => {
            let r: &mut FileDbMap<KT> = m;
            collect(r.into_iter(), c, part)
        }
        "in" => collect(m.clone().into_iter(), c, part),
        _ => panic!("harness: iter form {}", form),
    }
}

fn pairs(v: &[(i64, i64)]) -> String {
    let v: Vec<String> = v.iter().map(|(a, b)| format!("[{},{}]", a, b)).collect();
    format!("[{}]", v.join(","))
}

/// "[(16, 3), (24, 1)]" -> "[[16,3],[24,1]]"
fn disp(s: String) -> String {
    s.replace('(', "[").replace(')', "]").replace(' ', "")
}
fn cps(v: &[(u32, u64)]) -> String {
    let v: Vec<String> = v.iter().map(|(a, b)| format!("[{},{}]", a, b)).collect();
    format!("[{}]", v.join(","))
}

fn do_stats<KT: Kt>(m: &FileDbMap<KT>, c: &Ctx, full: bool) -> Result<String> {
    let mut s = String::new();
    let _ = write!(
        s,
        "\"bal\":{},\"mst\":{},\"dense\":{},\"depth\":{}",
        m.is_balanced()?,
        m.is_mst_valid()?,
        m.is_dense()?,
        m.depth_of_node_tree()?
    );
    let _ = write!(s, ",\"fn\":{}", cps(&m.count_of_free_node()?));
    let _ = write!(s, ",\"fk\":{}", cps(&m.count_of_free_key_piece()?));
    let _ = write!(s, ",\"fv\":{}", cps(&m.count_of_free_value_piece()?));
    let (uk, uv, un) = m.count_of_used_node()?;
    let _ = write!(
        s,
        ",\"uk\":{},\"uv\":{},\"un\":{}",
        cps(&uk),
        cps(&uv),
        cps(&un)
    );
    let _ = write!(s, ",\"ks\":{}", disp(m.key_piece_size_stats()?.to_string()));
    let _ = write!(s, ",\"vs\":{}", disp(m.value_piece_size_stats()?.to_string()));
    let _ = write!(s, ",\"kc\":{}", disp(m.keys_count_stats()?.to_string()));
    let _ = write!(s, ",\"kl\":{}", disp(m.key_length_stats()?.to_string()));
    let _ = write!(s, ",\"vl\":{}", disp(m.value_length_stats()?.to_string()));
    // the dump lists the keys from the last to the first: the record offsets
    let g = m.graph_string()?;
    let mut offs: Vec<i64> = Vec::new();
    let mut nodes: Vec<i64> = Vec::new();
    for l in g.lines() {
        let l = l.trim();
        if let Some(h) = l.strip_prefix("^:") {
            nodes.push(i64::from_str_radix(h, 16).unwrap_or(-1));
        } else if l != "v" {
            offs.push(i64::from_str_radix(l, 16).unwrap_or(-1));
        }
    }
    offs.reverse();
    let _ = write!(s, ",\"gk\":{},\"gn\":{}", list(&offs), list(&nodes));
    // the same with the key texts; the rank is looked up by the displayed text
    let g = m.graph_string_with_key_string()?;
    let text: HashMap<String, usize> = c
        .keys
        .iter()
        .enumerate()
        .map(|(i, k)| {
            (
                format!("'{}'", KT::from_bytes(&k.bytes())),
                i + 1,
            )
        })
        .collect();
    let plain = c
        .keys
        .iter()
        .all(|k| matches!(k, Key::Str(s) if !s.contains('\n') && !s.contains(':')))
        && text.len() == c.keys.len();
    let mut ks: Vec<i64> = Vec::new();
    if plain {
        for l in g.lines() {
            if let Some(i) = l.find(":'") {
                ks.push(text.get(&l[i + 1..]).map(|&r| r as i64).unwrap_or(-1));
            }
        }
        ks.reverse();
    }
    let _ = write!(s, ",\"plain\":{},\"gr\":{}", plain, list(&ks));
    #[cfg(not(feature = "htx"))]
    let full = full && false;
    if full {
        #[cfg(feature = "htx")]
        let (sz, _cnt) = m.ht_size_and_count()?;
        #[cfg(feature = "htx")]
        let (n, rate) = m.htx_filling_rate_per_mill()?;
        #[cfg(feature = "htx")]
        let _ = write!(s, ",\"full\":true,\"hsz\":{},\"hn\":{},\"hr\":{}", sz, n, rate);
    } else {
        s.push_str(",\"full\":false");
    }
    Ok(s)
}

// ---- universes -------------------------------------------------------------
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

/// numbers of keys which share the hash slot of the empty key
const CE: [u64; 4] = [53498000, 53498809, 53698723, 58592104];
const HT_SIZE: u64 = 16 * 1024 * 1024;
/// numbers of keys of the first and of the last slot
const SL_S0: [u64; 3] = [19274060, 19274161, 19374256];
const SL_S1: [u64; 3] = [45246207, 45346011, 45346114];
const SL_B0: [u64; 3] = [19010240, 39096129, 57030402];
const SL_B1: [u64; 3] = [19062272, 39076737, 57080770];
const SL_I0: [u64; 3] = [389120, 389248, 18214923];
const SL_I1: [u64; 3] = [4066264539100371903, 18300194509651189807, 14306476957562849230];

/// groups of keys with the same hash slot, largest groups first
fn collision_groups<KT: DbMapKeyType, F: Fn(u64) -> Vec<u8>>(mk: F, n: u64) -> Vec<Vec<Vec<u8>>> {
    let mut v: Vec<(u64, u64)> = (0..n)
        .map(|i| (KT::from_bytes(&mk(i)).hash_value() % HT_SIZE, i))
        .collect();
    v.sort_unstable();
    let mut groups: Vec<Vec<u64>> = Vec::new();
    let mut i = 0;
    while i < v.len() {
        let mut j = i;
        while j < v.len() && v[j].0 == v[i].0 {
            j += 1;
        }
        if j - i >= 2 {
            groups.push(v[i..j].iter().map(|x| x.1).collect());
        }
        i = j;
    }
    groups.sort_by(|a, b| b.len().cmp(&a.len()).then(a.cmp(b)));
    groups
        .into_iter()
        .map(|g| g.into_iter().map(&mk).collect())
        .collect()
}

/// a member of a group; if there is no such member, a key of its own
fn member(pool: &[Vec<Vec<u8>>], g: u64, i: u64) -> Vec<u8> {
    match pool.get(g as usize).and_then(|p| p.get(i as usize)) {
        Some(b) => b.clone(),
        None => (0xee00_0000_0000u64 + g * 1000 + i).to_be_bytes().to_vec(),
    }
}

#[derive(Default)]
struct Pools {
    s: Option<Vec<Vec<Vec<u8>>>>,
    b: Option<Vec<Vec<Vec<u8>>>>,
    i: Option<Vec<Vec<Vec<u8>>>>,
    e: Vec<Vec<u8>>,
    enext: u64,
    ecand: usize,
    sl: std::collections::BTreeMap<String, (u64, Vec<u64>)>,
}

/// the number of the n-th key of a type in the first (0) or the last (1) slot
fn slot_key(ty: &str, edge: u64, n: usize, pools: &mut Pools) -> u64 {
    let want = if edge == 0 { 0 } else { HT_SIZE - 1 };
    let cand: &[u64] = match (ty, edge) {
        ("S", 0) => &SL_S0,
        ("S", _) => &SL_S1,
        ("B", 0) => &SL_B0,
        ("B", _) => &SL_B1,
        ("I", 0) => &SL_I0,
        _ => &SL_I1,
    };
    let h = |i: u64| match ty {
        "S" => DbString::from_bytes(&slot_bytes(ty, i)).hash_value(),
        "B" => DbBytes::from_bytes(&slot_bytes(ty, i)).hash_value(),
        _ => DbInt::from_bytes(&slot_bytes(ty, i)).hash_value(),
    };
    if n < cand.len() && cand[..=n].iter().all(|&i| h(i) % HT_SIZE == want) {
        return cand[n];
    }
    let e = pools.sl.entry(format!("{}{}", ty, edge)).or_default();
    while e.1.len() <= n {
        let i = e.0;
        e.0 += 1;
        if h(i) % HT_SIZE == want {
            eprintln!("note: slot key {} {} {}", ty, edge, i);
            e.1.push(i);
        } else if i > 50_000_000 {
            e.1.push(i); // no such key: any other one
        }
    }
    e.1[n]
}
fn slot_bytes(ty: &str, i: u64) -> Vec<u8> {
    match ty {
        "S" => format!("q{:09}", i).into_bytes(),
        "B" => {
            let mut v = (i as u32).to_be_bytes().to_vec();
            v.push(0xfe);
            v
        }
        _ => i.to_be_bytes().to_vec(),
    }
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}
fn as_key(b: Vec<u8>) -> Key {
    match String::from_utf8(b) {
        Ok(s) => Key::Str(s),
        Err(e) => Key::Bytes(e.into_bytes()),
    }
}

fn parse_key(spec: &str, pools: &mut Pools) -> Key {
    let p: Vec<&str> = spec.split(':').collect();
    let num = |i: usize| -> u64 { p[i].parse().unwrap() };
    match p[0] {
        "h" => as_key(unhex(p.get(1).unwrap_or(&""))),
        "x" => Key::Bytes(unhex(p.get(1).unwrap_or(&""))), // bytes form of the API
        "u" => Key::Int(num(1)),
        "r" => as_key(vec![num(1) as u8; num(2) as usize]),
        "s" => {
            // printable pseudo random key of a length
            let mut r = Rng(num(1));
            as_key((0..num(2)).map(|_| b'a' + (r.next() % 26) as u8).collect())
        }
        "c" => {
            let pool = pools.s.get_or_insert_with(|| {
                collision_groups::<DbString, _>(|i| format!("c{:06}", i).into_bytes(), 500_000)
            });
            as_key(member(pool, num(1), num(2)))
        }
        "cb" => {
            let pool = pools.b.get_or_insert_with(|| {
                collision_groups::<DbBytes, _>(
                    |i| {
                        let mut v = (i as u32).to_be_bytes().to_vec();
                        v.push(0xff);
                        v
                    },
                    500_000,
                )
            });
            Key::Bytes(member(pool, num(1), num(2)))
        }
        "ci" => {
            let pool = pools.i.get_or_insert_with(|| {
                collision_groups::<DbInt, _>(|i| i.to_be_bytes().to_vec(), 500_000)
            });
            let mut a = [0u8; 8];
            let b = member(pool, num(1), num(2));
            a[8 - b.len().min(8)..].copy_from_slice(&b[..b.len().min(8)]);
            Key::Int(u64::from_be_bytes(a))
        }
        "sl" => {
            // sl:<type>:<first 0, last 1>:<n>
            let i = slot_key(p[1], num(2), num(3) as usize, pools);
            match p[1] {
                "I" => Key::Int(i),
                "B" => Key::Bytes(slot_bytes("B", i)),
                _ => as_key(slot_bytes("S", i)),
            }
        }
        "ce" => {
            // the i-th key which shares the slot of the empty key
            let want = DbString::from_bytes(b"").hash_value() % HT_SIZE;
            let n = num(1) as usize;
            while pools.e.len() <= n {
                // candidates found once; a search only if the hash has changed
                if pools.ecand < CE.len() {
                    pools.enext = CE[pools.ecand];
                    pools.ecand += 1;
                }
                let k = format!("e{:09}", pools.enext).into_bytes();
                pools.enext += 1;
                if DbString::from_bytes(&k).hash_value() % HT_SIZE == want {
                    if pools.enext - 1 != CE[CE.len().min(pools.ecand) - 1] {
                        eprintln!("note: searched key {}", pools.enext - 1);
                    }
                    pools.e.push(k);
                }
                assert!(pools.enext < 400_000_000, "harness: no key found");
            }
            as_key(pools.e[n].clone())
        }
        _ => panic!("harness: key spec {}", spec),
    }
}

/// a:<len>:<seed> ascii, b:<len>:<seed> any bytes, z:<len> zero bytes, t: near twins
fn parse_val(spec: &str) -> Vec<u8> {
    let p: Vec<&str> = spec.split(':').collect();
    let len: usize = p[1].parse().unwrap();
    let seed: u64 = p.get(2).map(|s| s.parse().unwrap()).unwrap_or(0);
    let mut r = Rng(seed.wrapping_mul(0x1234567) ^ 0x55);
    match p[0] {
        "a" => {
            let head = format!("{:x}.", seed).into_bytes();
            let mut v: Vec<u8> = head.into_iter().take(len).collect();
            while v.len() < len {
                v.push(b'A' + (r.next() % 50) as u8);
            }
            v
        }
        "b" => (0..len).map(|_| (r.next() >> 24) as u8).collect(),
        // t:<len>:<pos>:<n> all the same but for one byte
        "t" => {
            let mut v = vec![b'm'; len];
            if len > 0 {
                v[seed as usize % len] = b'n' + p.get(3).map_or(0, |s| s.parse::<u8>().unwrap() % 12);
            }
            v
        }
        "z" => vec![0; len],
        "f" => vec![0xff; len],
        _ => panic!("harness: val spec {}", spec),
    }
}

fn parse_params(s: &str) -> FileDbParams {
    let mut p = FileDbParams::default();
    if s == "-" {
        return p;
    }
    for part in s.split(',') {
        let kv: Vec<&str> = part.splitn(2, '=').collect();
        let b = match &kv[1][..1] {
            "A" => FileBufSizeParam::Auto,
            "S" => FileBufSizeParam::Size(kv[1][1..].parse().unwrap()),
            "P" => FileBufSizeParam::PerMille(kv[1][1..].parse().unwrap()),
            _ => panic!("harness: params {}", s),
        };
        match kv[0] {
            "k" => p.key_buf_size = b,
            "v" => p.val_buf_size = b,
            "i" => p.idx_buf_size = b,
            "h" => p.htx_buf_size = b,
            _ => panic!("harness: params {}", s),
        }
    }
    p
}

// ---- the machine -----------------------------------------------------------
struct Machine {
    root: String,
    out: std::io::BufWriter<std::fs::File>,
    pools: Pools,
    ctx: Ctx,
    dir: String, // live directory of the scenario
    n_scen: usize,
    dbs: BTreeMap<usize, FileDb>,
    mems: BTreeMap<usize, &'static MemoryDb<'static>>,
    hs: BTreeMap<usize, H>,
    maps: Vec<(String, String, String)>, // (path, name, type) for images
    snap: Vec<(String, u64, u64)>,
    snap_wr: u64,
    n_img: usize,
    cap: Option<Vec<String>>, // the events of an "rd" command
    err: bool,                // the last operation returned an error
}

fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    let s = if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".to_string()
    };
    s.chars()
        .map(|c| if c == '"' || c == '\\' || c < ' ' { '\'' } else { c })
        .take(160)
        .collect()
}

fn open_map(db: &FileDb, name: &str, ty: &str, params: &str) -> Result<H> {
    let dflt = params == "=";
    Ok(match ty {
        "S" if dflt => H::S(db.db_map_string(name)?),
        "I" if dflt => H::I(db.db_map_int(name)?),
        "B" if dflt => H::B(db.db_map_bytes(name)?),
        "S" => H::S(db.db_map_string_with_params(name, parse_params(params))?),
        "I" => H::I(db.db_map_int_with_params(name, parse_params(params))?),
        "B" => H::B(db.db_map_bytes_with_params(name, parse_params(params))?),
        _ => panic!("harness: type {}", ty),
    })
}

fn live_writes(prefix: &str) -> u64 {
    inter::ST.with(|s| {
        s.borrow()
            .writes
            .iter()
            .filter(|(p, _)| p.starts_with(prefix))
            .map(|(_, n)| *n)
            .sum()
    })
}
fn fired() -> u64 {
    inter::ST.with(|s| s.borrow().fired)
}
fn unsynced(base: &str) -> Vec<String> {
    inter::ST.with(|s| {
        s.borrow()
            .unsynced
            .iter()
            .filter(|p| {
                p.rfind('.')
                    .map(|i| &p[..i] == base)
                    .unwrap_or(false)
            })
            .map(|p| p[p.rfind('.').unwrap() + 1..].to_string())
            .collect()
    })
}

impl Machine {
    fn ev(&mut self, s: String) {
        if let Some(c) = self.cap.as_mut() {
            c.push(s);
            return;
        }
        self.out.write_all(s.as_bytes()).unwrap();
        self.out.write_all(b"\n").unwrap();
    }
    fn set_live(&self, on: bool) {
        let live = format!("{}/live/", self.root);
        inter::ST.with(|s| {
            s.borrow_mut().live = if on { live } else { String::new() };
        });
    }
    fn forget_all(&mut self) {
        for (_, h) in std::mem::take(&mut self.hs) {
            std::mem::forget(h);
        }
        for (_, d) in std::mem::take(&mut self.dbs) {
            std::mem::forget(d);
        }
    }
    fn begin(&mut self, id: &str) {
        // what a previous scenario left open is closed
        self.hs.clear();
        self.dbs.clear();
        self.mems.clear();
        self.maps.clear();
        if !self.dir.is_empty() {
            let _ = std::fs::remove_dir_all(&self.dir);
            let _ = std::fs::remove_dir_all(self.shadow_dir());
        }
        self.n_scen += 1;
        self.dir = format!("{}/live/{}", self.root, self.n_scen);
        std::fs::create_dir_all(&self.dir).unwrap();
        inter::ST.with(|s| {
            let mut s = s.borrow_mut();
            s.unsynced.clear();
            s.writes.clear();
            s.fault = None;
            s.seen = 0;
            s.fired = 0;
            s.crash_to = String::new();
            s.busy = false;
        });
        self.set_live(true);
        self.ev(format!("{{\"e\":\"reset\",\"id\":\"{}\"}}", id));
    }
    fn shadow_dir(&self) -> String {
        self.dir.replacen("/live/", "/shadow/", 1)
    }
    fn img_dir(&mut self) -> String {
        self.n_img += 1;
        format!("{}/img/{}", self.root, self.n_img)
    }
    fn uni(&self) -> decode::Universe<'_> {
        decode::Universe {
            keys: &self.ctx.by_bytes,
            vals: &self.ctx.by_val,
        }
    }
    fn dump_of(&mut self, h: usize) -> Result<Vec<i64>> {
        let ctx = &self.ctx;
        let m = self.hs.get_mut(&h).expect("harness: handle");
        let mut v = Vec::new();
        for k in &ctx.keys {
            v.push(all!(m, m => do_get(m, k, "get", ctx))?);
        }
        Ok(v)
    }

    /// opens a copy of the files and reports what it shows. work: also use it.
    fn observe_image(&mut self, img: &str, extra: &str, work: bool) {
        let maps = self.maps.clone();
        for (p, name, ty) in maps {
            let dir = format!("{}/{}", img, p);
            let there = std::path::Path::new(&format!("{}/{}.key", dir, name)).exists();
            let ctx = &self.ctx;
            let head = format!(
                "{{\"e\":\"img\",{},\"p\":\"{}\",\"n\":\"{}\",\"t\":\"{}\",\"there\":{}",
                extra, p, name, ty, there
            );
            let look = || -> Result<(Vec<(i64, i64)>, Vec<i64>, bool)> {
                let db = siamesedb::open_file(&dir)?;
                let mut m = open_map(&db, &name, &ty, "=")?;
                let kv = file!(&mut m, m => do_iter(m, "it", ctx)).0;
                let mut d = Vec::new();
                for k in &ctx.keys {
                    d.push(all!(&mut m, m => do_get(m, k, "get", ctx))?);
                }
                let mut usable = true;
                if work {
                    // a new image must be usable: write, read back, close, reopen
                    for (i, k) in ctx.keys.iter().enumerate() {
                        let v = &ctx.vals[i % ctx.vals.len()];
                        all!(&mut m, m => do_put(m, k, v, "put"))?;
                    }
                    drop(m);
                    drop(db);
                    let db = siamesedb::open_file(&dir)?;
                    let mut m = open_map(&db, &name, &ty, "=")?;
                    for (i, k) in ctx.keys.iter().enumerate() {
                        let v = &ctx.vals[i % ctx.vals.len()];
                        let g = all!(&mut m, m => do_get(m, k, "get", ctx))?;
                        usable = usable && g == ctx.id_of(v);
                    }
                    for k in ctx.keys.iter() {
                        let _ = all!(&mut m, m => do_del(m, k, "del", ctx))?;
                    }
                    usable = usable && file!(&mut m, m => do_iter(m, "it", ctx)).0.is_empty();
                }
                Ok((kv, d, usable))
            };
            let bad = |msg: String| {
                format!(
                    "{},\"ok\":false,\"kv\":[],\"d\":[],\"use\":false,\"msg\":\"{}\"}}",
                    head, msg
                )
            };
            // an image which promises nothing may be torn: whatever happens
            // happens to a child process
            let line = util::in_child(20, || match catch_unwind(AssertUnwindSafe(look)) {
                Ok(Ok((kv, d, usable))) => format!(
                    "{},\"ok\":true,\"kv\":{},\"d\":{},\"use\":{}}}",
                    head,
                    pairs(&kv),
                    list(&d),
                    usable
                ),
                Ok(Err(e)) => bad(format!("{:?}", e.kind())),
                Err(e) => bad(panic_text(e)),
            })
            .unwrap_or_else(|| bad("died".into()));
            self.ev(line);
        }
        let _ = std::fs::remove_dir_all(img);
    }

    fn run(&mut self, t: &[&str]) -> std::result::Result<(), String> {
        let n = |i: usize| -> usize { t[i].parse().unwrap_or_else(|_| panic!("harness: {:?}", t)) };
        macro_rules! guard {
            ($what:expr, $body:expr) => {
                match catch_unwind(AssertUnwindSafe(|| $body)) {
                    Ok(r) => r,
                    Err(e) => {
                        let txt = panic_text(e);
                        if txt.starts_with("harness:") {
                            return Err(txt);
                        }
                        self.ev(format!(
                            "{{\"e\":\"panic\",\"op\":\"{}\",\"msg\":\"{}\"}}",
                            $what, txt
                        ));
                        return Err("panic".into());
                    }
                }
            };
        }
        match t[0] {
            "open" => {
                let p = t[2];
                let dir = format!("{}/{}", self.dir, p);
                match guard!("open", siamesedb::open_file(&dir)) {
                    Ok(db) => {
                        self.dbs.insert(n(1), db);
                        self.ev(format!(
                            "{{\"e\":\"open\",\"D\":{},\"p\":\"{}\",\"mem\":false,\"ok\":true}}",
                            t[1], p
                        ));
                    }
                    Err(_) => self.ev(format!(
                        "{{\"e\":\"open\",\"D\":{},\"p\":\"{}\",\"mem\":false,\"ok\":false}}",
                        t[1], p
                    )),
                }
            }
            "memopen" => {
                let db: &'static MemoryDb<'static> = Box::leak(Box::new(siamesedb::open_memory()));
                self.mems.insert(n(1), db);
                self.ev(format!("{{\"e\":\"open\",\"D\":{},\"p\":\"{}\",\"mem\":true,\"ok\":true}}", t[1], t[2]));
            }
            "mapopen" | "trymap" => {
                // mapopen h D name type params ; trymap: same, but drops the handle again
                let (h, d, name, ty, prm) = (n(1), n(2), t[3], t[4], t[5]);
                let ok = if let Some(mem) = self.mems.get(&d).copied() {
                    let m = match ty {
                        "S" => H::MS(mem.db_map_string(name)),
                        "I" => H::MI(mem.db_map_dbint(name)),
                        "B" => H::MB(mem.db_map_bytes(name)),
                        _ => return Err("harness: type".into()),
                    };
                    self.hs.insert(h, m);
                    "true".to_string()
                } else {
                    let db = self.dbs.get(&d).expect("harness: db").clone();
                    match catch_unwind(AssertUnwindSafe(|| open_map(&db, name, ty, prm))) {
                        Ok(Ok(m)) => {
                            if t[0] == "mapopen" {
                                self.hs.insert(h, m);
                            }
                            "true".to_string()
                        }
                        Ok(Err(e)) => format!("false,\"msg\":\"err {:?}\"", e.kind()),
                        Err(e) => format!("false,\"msg\":\"{}\"", panic_text(e)),
                    }
                };
                let e = if t[0] == "mapopen" { "mo" } else { "try" };
                self.ev(format!(
                    "{{\"e\":\"{}\",\"h\":{},\"D\":{},\"n\":\"{}\",\"t\":\"{}\",\"ok\":{}}}",
                    e, h, d, name, ty, ok
                ));
                if ok != "true" && t[0] == "mapopen" {
                    return Err("mapopen".into());
                }
            }
            "map" => {
                // declares a map for the images: path name type
                self.maps.push((t[1].into(), t[2].into(), t[3].into()));
            }
            "clone" => {
                let m = match &self.hs[&n(2)] {
                    H::S(m) => H::S(m.clone()),
                    H::I(m) => H::I(m.clone()),
                    H::B(m) => H::B(m.clone()),
                    H::MS(m) => H::MS(m.clone()),
                    H::MI(m) => H::MI(m.clone()),
                    H::MB(m) => H::MB(m.clone()),
                };
                self.hs.insert(n(1), m);
                self.ev(format!("{{\"e\":\"clone\",\"h\":{},\"o\":{}}}", t[1], t[2]));
            }
            "drop" => {
                let m = self.hs.remove(&n(1));
                guard!("drop", drop(m));
                self.ev(format!("{{\"e\":\"drop\",\"h\":{}}}", t[1]));
            }
            "dclone" => {
                if let Some(m) = self.mems.get(&n(2)).copied() {
                    let db: &'static MemoryDb<'static> = Box::leak(Box::new(m.clone()));
                    self.mems.insert(n(1), db);
                } else {
                    let d = self.dbs[&n(2)].clone();
                    self.dbs.insert(n(1), d);
                }
                self.ev(format!("{{\"e\":\"dclone\",\"D\":{},\"o\":{}}}", t[1], t[2]));
            }
            "ddrop" => {
                let d = self.dbs.remove(&n(1));
                guard!("ddrop", drop(d));
                self.ev(format!("{{\"e\":\"ddrop\",\"D\":{}}}", t[1]));
            }
            "close" => {
                // everything is dropped; the order is given by the flag
                if t.get(1) == Some(&"db") {
                    guard!("close", self.dbs.clear());
                }
                guard!("close", self.hs.clear());
                guard!("close", self.dbs.clear());
                self.mems.clear();
                self.ev("{\"e\":\"close\"}".into());
            }
            "put" | "puts" | "putk" | "putc" => {
                let (h, k, v) = (n(1), n(2), n(3));
                let r = guard!(t[0], {
                    let ctx = &self.ctx;
                    let m = self.hs.get_mut(&h).expect("harness: handle");
                    all!(m, m => do_put(m, ctx.key(k), &ctx.vals[v], t[0]))
                });
                self.err = r.is_err();
                self.ev(format!(
                    "{{\"e\":\"put\",\"h\":{},\"k\":{},\"v\":{},\"ok\":{}}}",
                    h,
                    self.ctx.rank[k],
                    self.ctx.vid[v],
                    r.is_ok()
                ));
            }
            "get" | "gets" | "getk" | "getc" => {
                let (h, k) = (n(1), n(2));
                let r = guard!(t[0], {
                    let ctx = &self.ctx;
                    let m = self.hs.get_mut(&h).expect("harness: handle");
                    all!(m, m => do_get(m, ctx.key(k), t[0], ctx))
                });
                self.err = r.is_err();
                self.ev(format!(
                    "{{\"e\":\"get\",\"h\":{},\"k\":{},\"r\":{}}}",
                    h,
                    self.ctx.rank[k],
                    r.unwrap_or(-8)
                ));
            }
            "del" | "dels" | "delk" | "delc" => {
                let (h, k) = (n(1), n(2));
                let r = guard!(t[0], {
                    let ctx = &self.ctx;
                    let m = self.hs.get_mut(&h).expect("harness: handle");
                    all!(m, m => do_del(m, ctx.key(k), t[0], ctx))
                });
                self.err = r.is_err();
                self.ev(format!(
                    "{{\"e\":\"del\",\"h\":{},\"k\":{},\"r\":{}}}",
                    h,
                    self.ctx.rank[k],
                    r.unwrap_or(-8)
                ));
            }
            "bput" | "bputs" | "bget" | "bgets" | "bdel" | "bdels" => {
                let h = n(1);
                let mut ks = Vec::new();
                let mut vs = Vec::new();
                for a in &t[2..] {
                    let p: Vec<&str> = a.split('=').collect();
                    ks.push(p[0].parse::<usize>().unwrap());
                    if p.len() > 1 {
                        vs.push(p[1].parse::<usize>().unwrap());
                    }
                }
                let r = guard!(t[0], {
                    let ctx = &self.ctx;
                    let m = self.hs.get_mut(&h).expect("harness: handle");
                    all!(m, m => bulk(m, t[0], &ks, &vs, ctx))
                });
                self.err = r.is_err();
                let rk: Vec<i64> = ks.iter().map(|&k| self.ctx.rank[k] as i64).collect();
                let rv: Vec<i64> = vs.iter().map(|&v| self.ctx.vid[v] as i64).collect();
                let ok = r.is_ok();
                self.ev(format!(
                    "{{\"e\":\"{}\",\"h\":{},\"ks\":{},\"vs\":{},\"r\":{},\"ok\":{}}}",
                    &t[0][..4],
                    h,
                    list(&rk),
                    list(&rv),
                    list(&r.unwrap_or_default()),
                    ok
                ));
            }
            "iter" => {
                let h = n(1);
                let r = guard!("iter", {
                    let ctx = &self.ctx;
                    let m = self.hs.get_mut(&h).expect("harness: handle");
                    file!(m, m => do_iter(m, t[2], ctx))
                });
                let part = t[2].split(':').nth(1).unwrap_or("-1");
                self.ev(format!(
                    "{{\"e\":\"iter\",\"h\":{},\"kv\":{},\"end\":{},\"part\":{}}}",
                    h,
                    pairs(&r.0),
                    r.1,
                    part
                ));
            }
            "dump" => {
                let h = n(1);
                let r = guard!("dump", self.dump_of(h));
                self.err = r.is_err();
                self.ev(format!(
                    "{{\"e\":\"dump\",\"h\":{},\"d\":{}}}",
                    h,
                    list(&r.unwrap_or_default())
                ));
            }
            "flush" | "sync" | "syncd" | "fill" => {
                let h = n(1);
                let f0 = fired();
                let r = guard!(t[0], {
                    let m = self.hs.get_mut(&h).expect("harness: handle");
                    all!(m, m => match t[0] {
                        "flush" => m.flush(),
                        "sync" => m.sync_all(),
                        "syncd" => m.sync_data(),
                        _ => m.read_fill_buffer(),
                    })
                });
                self.err = r.is_err();
                let base = if t.len() > 3 {
                    format!("{}/{}/{}", self.dir, t[2], t[3])
                } else {
                    "?".into()
                };
                let un: Vec<String> = unsynced(&base)
                    .iter()
                    .map(|x| format!("\"{}\"", x))
                    .collect();
                self.ev(format!(
                    "{{\"e\":\"{}\",\"h\":{},\"ok\":{},\"fired\":{},\"un\":[{}]}}",
                    if t[0] == "syncd" { "sync" } else { t[0] },
                    h,
                    r.is_ok(),
                    fired() - f0,
                    un.join(",")
                ));
            }
            "dsync" | "dsyncd" => {
                let d = n(1);
                let f0 = fired();
                let db = self.dbs[&d].clone();
                let r = guard!(t[0], if t[0] == "dsync" {
                    db.sync_all()
                } else {
                    db.sync_data()
                });
                let pre = format!("{}/{}/", self.dir, t[2]);
                let un = inter::ST.with(|s| {
                    s.borrow()
                        .unsynced
                        .iter()
                        .filter(|p| p.starts_with(&pre))
                        .map(|p| {
                            // [map, file]
                            let p = &p[pre.len()..];
                            let i = p.rfind('.').unwrap_or(p.len());
                            format!("[\"{}\",\"{}\"]", &p[..i], &p[i..])
                        })
                        .collect::<Vec<_>>()
                });
                self.ev(format!(
                    "{{\"e\":\"dsync\",\"D\":{},\"ok\":{},\"fired\":{},\"un\":[{}]}}",
                    d,
                    r.is_ok(),
                    fired() - f0,
                    un.join(",")
                ));
            }
            "dirty" => {
                let h = n(1);
                let m = self.hs.get(&h).expect("harness: handle");
                let r = file!(m, m => m.is_dirty());
                self.ev(format!("{{\"e\":\"dirty\",\"h\":{},\"r\":{}}}", h, r));
            }
            "kimg" | "pimg" => {
                // a process kill (files as the system has them), a power loss (storage)
                let img = self.img_dir();
                let from = if t[0] == "kimg" {
                    self.dir.clone()
                } else {
                    self.shadow_dir()
                };
                self.set_live(false);
                util::copy_tree(&from, &img);
                let kind = if t[0] == "kimg" { "os" } else { "disk" };
                self.observe_image(&img, &format!("\"kind\":\"{}\",\"i\":0", kind), false);
                self.set_live(true);
            }
            "kill" | "power" => {
                // the process is gone: nothing that it still held reaches the files.
                // power: the files are what storage has.
                self.forget_all();
                if t[0] == "power" {
                    self.set_live(false);
                    let _ = std::fs::remove_dir_all(&self.dir);
                    util::copy_tree(&self.shadow_dir(), &self.dir);
                    self.set_live(true);
                    inter::ST.with(|s| s.borrow_mut().unsynced.clear());
                }
                self.ev(format!("{{\"e\":\"{}\"}}", t[0]));
            }
            "rd" => {
                // rd <op ...>: with a fault armed; a failure is reported as such
                let f0 = fired();
                self.err = false;
                self.cap = Some(vec![]);
                let r = self.run(&t[1..]);
                let evs = self.cap.take().unwrap();
                let n = fired() - f0;
                let panicked = matches!(&r, Err(e) if e == "panic")
                    || evs.iter().any(|e| e.contains("\"ok\":false,\"msg\":") && !e.contains("\"msg\":\"err "));
                let failed = self.err || evs.iter().any(|e| e.starts_with("{\"e\":\"try\"") && e.contains("\"ok\":false"));
                if matches!(&r, Err(e) if e.starts_with("harness:")) || n == 0 || !(failed || r.is_err()) {
                    for e in evs {
                        self.ev(e);
                    }
                    return r;
                }
                let op = t[1].trim_end_matches(|c| matches!(c, 's' | 'k' | 'c'));
                let up = matches!(op, "put" | "del" | "bput" | "bdel");
                self.ev(format!(
                    "{{\"e\":\"rfail\",\"op\":\"{}\",\"h\":{},\"fired\":{},\"how\":\"{}\",\"up\":{}}}",
                    t[1], t[2], n, if panicked { "panic" } else { "err" }, up
                ));
                if up {
                    // what a failed change leaves is not promised
                    return Err("update failed".into());
                }
            }
            "mkcrash" => {
                // mkcrash h D p name type params: every prefix of the effects of opening a map
                let (h, d, p, name, ty, prm) = (n(1), n(2), t[3], t[4], t[5], t[6]);
                let base = self.img_dir();
                let to = format!("{}-c", base);
                let dir = self.dir.clone();
                inter::ST.with(|s| {
                    let mut s = s.borrow_mut();
                    s.crash_from = dir;
                    s.crash_to = to.clone();
                    s.crash_n = 0;
                });
                let db = self.dbs.get(&d).expect("harness: db").clone();
                let m = guard!("mkcrash", open_map(&db, name, ty, prm));
                inter::crash_copy_now();
                let cnt = inter::ST.with(|s| {
                    let mut s = s.borrow_mut();
                    s.crash_to = String::new();
                    s.crash_n
                });
                let ok = m.is_ok();
                if let Ok(m) = m {
                    self.hs.insert(h, m);
                }
                self.ev(format!(
                    "{{\"e\":\"mo\",\"h\":{},\"D\":{},\"n\":\"{}\",\"t\":\"{}\",\"ok\":{}}}",
                    h, d, name, ty, ok
                ));
                let _ = p;
                self.set_live(false);
                for i in 0..cnt {
                    let img = format!("{}/{}", to, i);
                    if t.get(7).map_or(false, |x| x.parse::<u64>().unwrap() % cnt == i) {
                        util::copy_tree(&img, &format!("{}-0", img));
                    }
                    self.observe_image(&img, &format!("\"kind\":\"create\",\"i\":{}", i), true);
                }
                if let Some(x) = t.get(7) {
                    // the kill happens there: the session goes on with this image
                    let i = x.parse::<u64>().unwrap() % cnt;
                    // (the image was used for looking: opening again makes a fresh one)
                    self.forget_all();
                    let _ = std::fs::remove_dir_all(&self.dir);
                    util::copy_tree(&format!("{}/{}-0", to, i), &self.dir);
                    self.ev("{\"e\":\"kill\"}".into());
                }
                let _ = std::fs::remove_dir_all(&to);
                self.set_live(true);
            }
            "fault" => {
                // fault ext op nth count errno short
                inter::ST.with(|s| {
                    let mut s = s.borrow_mut();
                    s.seen = 0;
                    s.fault = Some(inter::Fault {
                        ext: t[1].into(),
                        op: t[2].into(),
                        nth: t[3].parse().unwrap(),
                        count: t[4].parse().unwrap(),
                        errno: t[5].parse().unwrap(),
                        short: t.get(6) == Some(&"short"),
                    });
                });
            }
            "fclear" => {
                inter::ST.with(|s| s.borrow_mut().fault = None);
                self.ev(format!("{{\"e\":\"fclear\",\"fired\":{}}}", fired()));
            }
            "image" => {
                // image p name [htx]: decode the files as the system has them
                let base = format!("{}/{}/{}", self.dir, t[1], t[2]);
                let with_htx = t.get(3) == Some(&"htx");
                let s = decode::decode(&base, &self.uni(), with_htx);
                self.ev(format!(
                    "{{\"e\":\"image\",\"p\":\"{}\",\"n\":\"{}\",{},\"small\":{}}}",
                    t[1],
                    t[2],
                    s,
                    cfg!(feature = "small")
                ));
            }
            "len" => {
                let base = format!("{}/{}/{}", self.dir, t[1], t[2]);
                let l = |e: &str| {
                    std::fs::metadata(format!("{}.{}", base, e))
                        .map(|m| m.len() as i64)
                        .unwrap_or(-1)
                };
                let s = format!(
                    "{{\"e\":\"len\",\"p\":\"{}\",\"n\":\"{}\",\"as\":\"{}\",\"small\":{},\"key\":{},\"val\":{},\"idx\":{}}}",
                    t[1],
                    t[2],
                    t.get(3).unwrap_or(&""),
                    cfg!(feature = "small"),
                    l("key"),
                    l("val"),
                    l("idx")
                );
                self.ev(s);
            }
            "stats" | "statsx" => {
                let h = n(1);
                let r = guard!("stats", {
                    let ctx = &self.ctx;
                    let m = self.hs.get(&h).expect("harness: handle");
                    file!(m, m => do_stats(m, ctx, t[0] == "statsx"))
                });
                match r {
                    Ok(s) => self.ev(format!("{{\"e\":\"stats\",\"h\":{},\"ok\":true,{}}}", h, s)),
                    Err(_) => self.ev(format!("{{\"e\":\"stats\",\"h\":{},\"ok\":false}}", h)),
                }
            }
            "snap" => {
                let d = format!("{}/{}", self.dir, t[1]);
                self.snap = util::tree_hash(&d);
                self.snap_wr = live_writes(&d);
                self.ev(format!("{{\"e\":\"snap\",\"p\":\"{}\"}}", t[1]));
            }
            "cmp" => {
                let d = format!("{}/{}", self.dir, t[1]);
                let same = util::tree_hash(&d) == self.snap;
                let wr = live_writes(&d).wrapping_sub(self.snap_wr) as i64;
                self.ev(format!(
                    "{{\"e\":\"cmp\",\"p\":\"{}\",\"same\":{},\"wr\":{}}}",
                    t[1], same, wr
                ));
            }
            "fixture" => {
                // fixture p dir: installs the stored files of a database
                let to = format!("{}/{}", self.dir, t[1]);
                util::copy_tree(t[2], &to);
                self.ev(format!("{{\"e\":\"fixture\",\"p\":\"{}\"}}", t[1]));
            }
            "known" => {
                // known p name type k=v ...: the content the stored files must show
                let mut d = vec![0i64; self.ctx.keys.len()];
                for a in &t[4..] {
                    let p: Vec<&str> = a.split('=').collect();
                    let k: usize = p[0].parse().unwrap();
                    let v: usize = p[1].parse().unwrap();
                    d[self.ctx.rank[k] - 1] = self.ctx.vid[v] as i64;
                }
                self.ev(format!(
                    "{{\"e\":\"known\",\"p\":\"{}\",\"n\":\"{}\",\"t\":\"{}\",\"d\":{}}}",
                    t[1],
                    t[2],
                    t[3],
                    list(&d)
                ));
            }
            "save" => {
                // save p dir: stores the files of a closed database (for the fixtures)
                let from = format!("{}/{}", self.dir, t[1]);
                self.set_live(false);
                util::copy_tree(&from, t[2]);
                self.set_live(true);
            }
            "note" => {
                self.ev(format!("{{\"e\":\"note\",\"s\":\"{}\"}}", t[1..].join(" ")));
            }
            _ => return Err(format!("harness: command {:?}", t)),
        }
        Ok(())
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let script = std::fs::read_to_string(&args[1]).expect("script");
    let out = std::io::BufWriter::new(std::fs::File::create(&args[2]).expect("events"));
    let root = args[3].clone();
    let _ = std::fs::remove_dir_all(&root);
    std::fs::create_dir_all(format!("{}/live", root)).unwrap();
    let root = std::fs::canonicalize(&root)
        .unwrap()
        .to_string_lossy()
        .to_string();
    inter::ST.with(|s| s.borrow_mut().shadow = format!("{}/shadow/", root));
    let loud = std::env::var_os("SDB_PANIC").is_some();
    std::panic::set_hook(Box::new(move |i| {
        if loud {
            eprintln!("{}", i);
        }
    }));
    let mut m = Machine {
        root: root.clone(),
        out,
        pools: Pools::default(),
        ctx: Ctx {
            keys: vec![],
            rank: vec![],
            by_bytes: HashMap::new(),
            vals: vec![],
            vid: vec![],
            by_val: HashMap::new(),
        },
        dir: String::new(),
        n_scen: 0,
        dbs: BTreeMap::new(),
        mems: BTreeMap::new(),
        hs: BTreeMap::new(),
        maps: vec![],
        snap: vec![],
        snap_wr: 0,
        n_img: 0,
        cap: None,
        err: false,
    };
    let mut skip = false;
    for (ln, line) in script.lines().enumerate() {
        let t: Vec<String> = line.split_whitespace().map(|x| x.replace("%20", " ")).collect();
        let t: Vec<&str> = t.iter().map(|x| x.as_str()).collect();
        if t.is_empty() || t[0].starts_with('#') {
            continue;
        }
        match t[0] {
            "scenario" => {
                // so that a process abort leaves the events up to the last scenario start
                skip = false;
                m.begin(t[1]);
                m.out.flush().unwrap();
            }
            "keys" => {
                let ks: Vec<Key> = t[1..].iter().map(|s| parse_key(s, &mut m.pools)).collect();
                let mut ord: Vec<usize> = (0..ks.len()).collect();
                if ks.iter().all(|k| matches!(k, Key::Int(_))) {
                    // integers are ordered by number
                    ord.sort_by_key(|&i| match ks[i] {
                        Key::Int(u) => u,
                        _ => 0,
                    });
                } else {
                    ord.sort_by(|&a, &b| ks[a].bytes().cmp(&ks[b].bytes()));
                }
                m.ctx.rank = vec![0; ks.len()];
                m.ctx.by_bytes.clear();
                for (r, &i) in ord.iter().enumerate() {
                    m.ctx.rank[i] = r + 1;
                    let old = m.ctx.by_bytes.insert(ks[i].bytes(), r + 1);
                    if old.is_some() {
                        eprintln!("harness: duplicate key at line {}", ln + 1);
                        std::process::exit(3);
                    }
                }
                m.ctx.keys = ord.iter().map(|&i| ks[i].clone()).collect();
            }
            "vals" => {
                m.ctx.vals = t[1..].iter().map(|s| parse_val(s)).collect();
                m.ctx.by_val.clear();
                m.ctx.vid.clear();
                for (i, v) in m.ctx.vals.iter().enumerate() {
                    let id = *m.ctx.by_val.entry(v.clone()).or_insert(i + 1);
                    m.ctx.vid.push(id);
                }
            }
            "uni" => {
                let lens: Vec<i64> = m.ctx.keys.iter().map(|k| k.bytes().len() as i64).collect();
                let vl: Vec<i64> = m.ctx.vals.iter().map(|v| v.len() as i64).collect();
                let s = format!(
                    "{{\"e\":\"uni\",\"nk\":{},\"kl\":{},\"vl\":{}}}",
                    lens.len(),
                    list(&lens),
                    list(&vl)
                );
                m.ev(s);
            }
            _ if skip => {}
            _ => match m.run(&t) {
                Ok(()) => {}
                Err(s) if s.starts_with("harness:") => {
                    eprintln!("{} at line {}", s, ln + 1);
                    std::process::exit(3);
                }
                Err(_) => {
                    // the scenario ends here
                    m.forget_all();
                    skip = true;
                }
            },
        }
    }
    // close what is open, report, clean up
    let r = catch_unwind(AssertUnwindSafe(|| {
        m.hs.clear();
        m.dbs.clear();
    }));
    if r.is_err() {
        m.ev("{\"e\":\"panic\",\"op\":\"drop\",\"msg\":\"\"}".into());
    }
    m.ev("{\"e\":\"end\"}".into());
    m.out.flush().unwrap();
    m.set_live(false);
    let _ = std::fs::remove_dir_all(&root);
}
