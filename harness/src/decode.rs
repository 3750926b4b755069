//! Reader of the four files of a map, written from the documented layout only.
//! It does not judge: it reports what it finds, the specification decides.
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write;

pub struct Universe<'a> {
    pub keys: &'a HashMap<Vec<u8>, usize>, // bytes -> rank 1..
    pub vals: &'a HashMap<Vec<u8>, usize>, // bytes -> id 1..
}

fn u16_at(b: &[u8], o: u64) -> Option<u64> {
    let o = o as usize;
    b.get(o..o.checked_add(2)?)
        .map(|s| u16::from_le_bytes([s[0], s[1]]) as u64)
}
fn u32_at(b: &[u8], o: u64) -> Option<u64> {
    let o = o as usize;
    b.get(o..o.checked_add(4)?)
        .map(|s| u32::from_le_bytes([s[0], s[1], s[2], s[3]]) as u64)
}
fn u64_at(b: &[u8], o: u64) -> Option<u64> {
    let o = o as usize;
    let mut a = [0u8; 8];
    a.copy_from_slice(b.get(o..o.checked_add(8)?)?);
    Some(u64::from_le_bytes(a))
}
// numbers for TLC must fit in 32 bits
fn cap(v: u64) -> i64 {
    if v > 2_000_000_000 {
        -9
    } else {
        v as i64
    }
}

fn sig_json(b: &[u8], want: &[u8; 8]) -> (bool, String) {
    let ok = b.len() >= 16 && &b[0..8] == want;
    let t = if b.len() >= 16 {
        match &b[8..16] {
            b"string\0\0" => "S",
            b"uint64\0\0" => "I",
            b"bytes\0\0\0" => "B",
            _ => "?",
        }
    } else {
        "?"
    };
    (ok, t.to_string())
}

/// record start offset -> number of the record (1..)
type Starts = HashMap<u64, usize>;

fn num(starts: &Starts, off: u64) -> i64 {
    starts.get(&off).map(|&x| x as i64).unwrap_or(0)
}

/// free lists: one list of record numbers per list; 0: not the start of a
/// record, -1: the chain does not end.
fn free_lists(b: &[u8], at: u64, n: u64, starts: &Starts) -> String {
    let mut s = String::from("[");
    for i in 0..n {
        if i > 0 {
            s.push(',');
        }
        s.push('[');
        let mut off = u64_at(b, at + 8 * i).unwrap_or(0);
        let mut steps = 0;
        while off != 0 {
            if steps > 0 {
                s.push(',');
            }
            steps += 1;
            if steps > starts.len() + 2 {
                s.push_str("-1");
                break;
            }
            let _ = write!(s, "{}", num(starts, off));
            match u64_at(b, off.wrapping_add(8)) {
                Some(nx) => off = nx,
                None => break,
            }
        }
        s.push(']');
    }
    s.push(']');
    s
}

/// the records of a file in file order: (offset, size)
fn tiles(b: &[u8], from: u64, node: bool) -> Vec<(u64, u64)> {
    let mut v = Vec::new();
    let mut off = from;
    while off < b.len() as u64 {
        let size = if node { u16_at(b, off) } else { u32_at(b, off) }.unwrap_or(0);
        v.push((off, size));
        if size < 8 {
            break;
        }
        off += size;
    }
    v
}
fn starts(t: &[(u64, u64)]) -> Starts {
    t.iter().enumerate().map(|(i, x)| (x.0, i + 1)).collect()
}
fn ints(v: &[i64]) -> String {
    let v: Vec<String> = v.iter().map(|k| k.to_string()).collect();
    v.join(",")
}

/// the documented hash of a key: xorshift over 8 byte chunks of the length
/// and of the bytes.
pub fn hash(key: &[u8]) -> u64 {
    fn step(a: u64) -> u64 {
        let mut x = a;
        x ^= x >> 12;
        x ^= x << 25;
        x ^= x >> 27;
        x
    }
    let mut h = step(key.len() as u64);
    for c in key.chunks(8) {
        let a = if c.len() == 8 {
            u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]])
        } else {
            c.iter().fold(0u64, |a, b| (a << 8) | *b as u64)
        };
        h = step(h.wrapping_add(a));
    }
    h
}

pub fn decode(base: &str, uni: &Universe, with_htx: bool) -> String {
    let key = std::fs::read(format!("{}.key", base)).unwrap_or_default();
    let val = std::fs::read(format!("{}.val", base)).unwrap_or_default();
    let idx = std::fs::read(format!("{}.idx", base)).unwrap_or_default();
    let mut s = String::new();
    // value records, in file order: [off, size, len, id]
    let vt = tiles(&val, 192, false);
    let vstart = starts(&vt);
    let (ok, t) = sig_json(&val, b"siamdbV\0");
    let _ = write!(
        s,
        "\"val\":{{\"sig\":{},\"t\":\"{}\",\"len\":{},\"free\":{},\"rec\":[",
        ok,
        t,
        val.len(),
        free_lists(&val, 32, 16, &vstart)
    );
    for (i, &(off, size)) in vt.iter().enumerate() {
        let len = u32_at(&val, off + 4).unwrap_or(0);
        let id = val
            .get((off + 8) as usize..(off + 8 + len) as usize)
            .map(|d| uni.vals.get(d).copied().map(|x| x as i64).unwrap_or(-1))
            .unwrap_or(-2);
        let sep = if i > 0 { "," } else { "" };
        let _ = write!(s, "{}[{},{},{},{}]", sep, off, cap(size), cap(len), id);
    }
    s.push_str("]},");
    // key records: [off, size, len, rank, value record number]
    let kt = tiles(&key, 192, false);
    let kstart = starts(&kt);
    let (ok, t) = sig_json(&key, b"siamdbK\0");
    let _ = write!(
        s,
        "\"key\":{{\"sig\":{},\"t\":\"{}\",\"len\":{},\"free\":{},\"rec\":[",
        ok,
        t,
        key.len(),
        free_lists(&key, 32, 16, &kstart)
    );
    let mut khash: Vec<u64> = Vec::new();
    for (i, &(off, size)) in kt.iter().enumerate() {
        let len = u32_at(&key, off + 4).unwrap_or(0);
        let (rank, vi) = match key.get((off + 8) as usize..(off + 8 + len) as usize) {
            Some(d) => {
                khash.push(hash(d));
                (
                    uni.keys.get(d).copied().map(|x| x as i64).unwrap_or(-1),
                    u64_at(&key, off + 8 + len).map(|v| num(&vstart, v)).unwrap_or(0),
                )
            }
            None => {
                khash.push(0);
                (-2, 0)
            }
        };
        let sep = if i > 0 { "," } else { "" };
        let _ = write!(s, "{}[{},{},{},{},{}]", sep, off, cap(size), cap(len), rank, vi);
    }
    s.push_str("]},");
    // node records in file order: [off, size]; the tree from the top node in
    // preorder: [record number, leaf, depth, [key record numbers], [node record numbers]]
    let it = tiles(&idx, 128, true);
    let istart = starts(&it);
    let (ok, t) = sig_json(&idx, b"siamdbT\0");
    let top = u64_at(&idx, 16).unwrap_or(0);
    let tj: Vec<String> = it.iter().map(|x| format!("[{},{}]", x.0, cap(x.1))).collect();
    let _ = write!(
        s,
        "\"idx\":{{\"sig\":{},\"t\":\"{}\",\"len\":{},\"top\":{},\"free\":{},\"rec\":[{}],\"node\":[",
        ok,
        t,
        idx.len(),
        num(&istart, top),
        free_lists(&idx, 24, 8, &istart),
        tj.join(",")
    );
    let mut stack = vec![(top, 1u32)];
    let mut n = 0;
    while let Some((off, depth)) = stack.pop() {
        n += 1;
        let sep = if n > 1 { "," } else { "" };
        let leaf = u16_at(&idx, off.wrapping_add(2));
        let cnt = u16_at(&idx, off.wrapping_add(4));
        let mut ks = Vec::new();
        let mut ds = Vec::new();
        let mut bad = n > 2 * it.len() || depth > 40 || num(&istart, off) == 0;
        if let (Some(leaf), Some(cnt), false) = (leaf, cnt, bad) {
            for i in 0..cnt {
                match u64_at(&idx, off + 6 + 8 * i) {
                    Some(k) => ks.push(num(&kstart, k)),
                    None => bad = true,
                }
            }
            if leaf == 0 {
                for i in 0..cnt + 1 {
                    match u64_at(&idx, off + 6 + 8 * (cnt + i)) {
                        Some(d) => ds.push(d),
                        None => bad = true,
                    }
                }
            }
        } else {
            bad = true;
        }
        if bad {
            let _ = write!(s, "{}[0,-1,{},[],[]]", sep, depth);
            if n > 2 * it.len() {
                break;
            }
            continue;
        }
        let di: Vec<i64> = ds.iter().map(|d| num(&istart, *d)).collect();
        let _ = write!(
            s,
            "{}[{},{},{},[{}],[{}]]",
            sep,
            num(&istart, off),
            leaf.unwrap_or(9),
            depth,
            ints(&ks),
            ints(&di)
        );
        for d in ds.iter().rev() {
            stack.push((*d, depth + 1));
        }
    }
    s.push_str("]}");
    if with_htx {
        // non zero hash slots: [slot, key record number, slot of that record's key]
        let mut slots: BTreeMap<u64, u64> = BTreeMap::new();
        let mut head = [0u8; 128];
        let len = crate::util::for_data(&format!("{}.htx", base), |pos, data| {
            let mut i = 0usize;
            while i + 8 <= data.len() {
                let at = pos + i as u64;
                if at < 128 {
                    head[at as usize..at as usize + 8].copy_from_slice(&data[i..i + 8]);
                } else {
                    let mut a = [0u8; 8];
                    a.copy_from_slice(&data[i..i + 8]);
                    let v = u64::from_le_bytes(a);
                    if v != 0 {
                        slots.insert((at - 128) / 8, v);
                    }
                }
                i += 8;
            }
        })
        .unwrap_or(0);
        let (ok, t) = sig_json(&head, b"siamdbH\0");
        let sz = u64_at(&head, 16).unwrap_or(0);
        let sj: Vec<String> = slots
            .iter()
            .map(|(a, b)| {
                let k = num(&kstart, *b);
                let h = if k > 0 && sz > 0 {
                    (khash[k as usize - 1] % sz) as i64
                } else {
                    -1
                };
                format!("[{},{},{}]", cap(*a), k, h)
            })
            .collect();
        let _ = write!(
            s,
            ",\"htx\":{{\"sig\":{},\"t\":\"{}\",\"len\":{},\"n\":{},\"slot\":[{}]}}",
            ok,
            t,
            cap(len),
            cap(sz),
            sj.join(",")
        );
    } else {
        s.push_str(",\"htx\":{\"n\":0,\"slot\":[]}");
    }
    s
}
