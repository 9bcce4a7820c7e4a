//! An independent implementation of the documented wire format, written against the model:
//! a decoder and an encoder which share no code with the library.
use crate::model::*;
use std::collections::BTreeMap;

pub const MAGIC: &[u8] = b"SOURISDB";

#[derive(Debug)]
pub struct E(pub String);
type R<T> = Result<T, E>;
fn e<T>(s: &str) -> R<T> {
    Err(E(s.to_string()))
}

pub struct Rd<'a> {
    pub b: &'a [u8],
    pub p: usize,
}
impl<'a> Rd<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Self { b, p: 0 }
    }
    fn u8(&mut self) -> R<u8> {
        let v = *self.b.get(self.p).ok_or(E("end of input".into()))?;
        self.p += 1;
        Ok(v)
    }
    fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if self.b.len() - self.p < n {
            return e("end of input");
        }
        let s = &self.b[self.p..self.p + n];
        self.p += n;
        Ok(s)
    }
}

/// Integers: one byte up to 239, otherwise `239 + n` and `n` little-endian bytes; negative ones
/// are two's complement with the leading 0xFF bytes left out.
pub fn enc_int(n: Num) -> Vec<u8> {
    let full: [u8; 16] = if n.neg { n.as_i128().expect("range").to_le_bytes() } else { n.mag.to_le_bytes() };
    let pad = if n.neg { 0xff } else { 0 };
    let mut used = 16;
    while used > 1 && full[used - 1] == pad {
        used -= 1;
    }
    if used == 1 && full[0] <= 239 {
        vec![full[0]]
    } else {
        let mut v = vec![239 + used as u8];
        v.extend(&full[..used]);
        v
    }
}
pub fn dec_int(state: u8, r: &mut Rd) -> R<Num> {
    let first = r.u8()?;
    let neg = match state {
        0 | 1 => false,
        2 => true,
        _ => return e("signed state"),
    };
    let mut full = if neg { [0xff_u8; 16] } else { [0; 16] };
    if first <= 239 {
        full[0] = first;
    } else {
        let n = (first - 239) as usize;
        full[..n].copy_from_slice(r.take(n)?);
    }
    if neg {
        let v = i128::from_le_bytes(full);
        if v >= 0 {
            return e("negative state with a non-negative value");
        }
        Ok(Num::i(v))
    } else {
        Ok(Num::u(u128::from_le_bytes(full)))
    }
}
fn dec_usize(r: &mut Rd) -> R<usize> {
    let n = dec_int(0, r)?;
    usize::try_from(n.mag).map_err(|_| E("length".into()))
}

pub enum Tree<T> {
    Leaf(T),
    Branch(Box<Tree<T>>, Box<Tree<T>>),
}
impl<T: Copy> Tree<T> {
    pub fn decode(&self, bits: &[bool]) -> R<Vec<T>> {
        let mut out = vec![];
        let mut cur = self;
        for b in bits {
            match cur {
                Tree::Leaf(t) => {
                    // a lone leaf: every bit is one symbol
                    out.push(*t);
                    continue;
                }
                Tree::Branch(l, r) => {
                    cur = if *b { l } else { r };
                    if let Tree::Leaf(t) = cur {
                        out.push(*t);
                        cur = self;
                    }
                }
            }
        }
        if !std::ptr::eq(cur, self) {
            return e("bits end inside a symbol");
        }
        Ok(out)
    }
    pub fn codes(&self) -> Vec<(T, Vec<bool>)> {
        let mut out = vec![];
        match self {
            Tree::Leaf(t) => out.push((*t, vec![true])),
            Tree::Branch(..) => self.walk(&mut vec![], &mut out),
        }
        out
    }
    fn walk(&self, path: &mut Vec<bool>, out: &mut Vec<(T, Vec<bool>)>) {
        match self {
            Tree::Leaf(t) => out.push((*t, path.clone())),
            Tree::Branch(l, r) => {
                path.push(true);
                l.walk(path, out);
                path.pop();
                path.push(false);
                r.walk(path, out);
                path.pop();
            }
        }
    }
    /// A tree over the given symbols, shaped by `seed`.
    pub fn shaped(symbols: &[T], seed: u64) -> Option<Tree<T>> {
        let mut v: Vec<Tree<T>> = symbols.iter().map(|t| Tree::Leaf(*t)).collect();
        if v.is_empty() {
            return None;
        }
        let mut s = seed | 1;
        while v.len() > 1 {
            s ^= s << 13;
            s ^= s >> 7;
            s ^= s << 17;
            // mostly balanced: merge two neighbours picked by the seed
            let i = (s >> 20) as usize % (v.len() - 1);
            let a = v.remove(i);
            let b = v.remove(i);
            v.insert(0, Tree::Branch(Box::new(a), Box::new(b)));
            if seed % 3 != 0 {
                let x = v.remove(0);
                v.push(x);
            }
        }
        v.pop()
    }
    pub fn depth(&self) -> usize {
        match self {
            Tree::Leaf(_) => 0,
            Tree::Branch(l, r) => 1 + l.depth().max(r.depth()),
        }
    }
}
pub fn dec_char_tree(r: &mut Rd) -> R<Tree<char>> {
    if r.b.get(r.p) == Some(&0) {
        r.p += 1;
        let l = dec_char_tree(r)?;
        let rr = dec_char_tree(r)?;
        return Ok(Tree::Branch(Box::new(l), Box::new(rr)));
    }
    let n = dec_int(0, r)?.mag;
    let c = u32::try_from(n).ok().and_then(|n| n.checked_sub(1)).and_then(char::from_u32).ok_or(E("char leaf".into()))?;
    Ok(Tree::Leaf(c))
}
pub fn enc_char_tree(t: &Tree<char>, out: &mut Vec<u8>) {
    match t {
        Tree::Leaf(c) => out.extend(enc_int(Num::u(u128::from(*c as u32) + 1))),
        Tree::Branch(l, r) => {
            out.push(0);
            enc_char_tree(l, out);
            enc_char_tree(r, out);
        }
    }
}
pub fn dec_u8_tree(r: &mut Rd) -> R<Tree<u8>> {
    match r.u8()? {
        0 => {
            let l = dec_u8_tree(r)?;
            let rr = dec_u8_tree(r)?;
            Ok(Tree::Branch(Box::new(l), Box::new(rr)))
        }
        1 => Ok(Tree::Leaf(r.u8()?)),
        _ => e("u8 tree discriminant"),
    }
}
pub fn enc_u8_tree(t: &Tree<u8>, out: &mut Vec<u8>) {
    match t {
        Tree::Leaf(b) => out.extend([1, *b]),
        Tree::Branch(l, r) => {
            out.push(0);
            enc_u8_tree(l, out);
            enc_u8_tree(r, out);
        }
    }
}
pub fn dec_bits(r: &mut Rd) -> R<Vec<bool>> {
    let n = dec_usize(r)?;
    let bytes = r.take(n.div_ceil(8))?;
    Ok((0..n).map(|i| bytes[i / 8] >> (i % 8) & 1 == 1).collect())
}
pub fn enc_bits(bits: &[bool]) -> Vec<u8> {
    let mut out = enc_int(Num::u(bits.len() as u128));
    let mut bytes = vec![0_u8; bits.len().div_ceil(8)];
    for (i, b) in bits.iter().enumerate() {
        bytes[i / 8] |= u8::from(*b) << (i % 8);
    }
    out.extend(bytes);
    out
}

/// LZ4 block format.
pub fn lz4_decode(src: &[u8]) -> R<Vec<u8>> {
    let mut out = vec![];
    let mut r = Rd::new(src);
    loop {
        let tok = r.u8()?;
        let ext = |r: &mut Rd, base: usize| -> R<usize> {
            let mut n = base;
            if base == 15 {
                loop {
                    let b = r.u8()?;
                    n += b as usize;
                    if b != 255 {
                        break;
                    }
                }
            }
            Ok(n)
        };
        let lit = ext(&mut r, (tok >> 4) as usize)?;
        out.extend_from_slice(r.take(lit)?);
        if r.p == src.len() {
            return Ok(out);
        }
        let off = r.take(2)?;
        let off = u16::from_le_bytes([off[0], off[1]]) as usize;
        let m = ext(&mut r, (tok & 15) as usize)? + 4;
        if off == 0 || off > out.len() {
            return e("lz4 offset");
        }
        for _ in 0..m {
            out.push(out[out.len() - off]);
        }
    }
}
/// LZ4 block with literals only, and one match where the data is a long run.
pub fn lz4_encode_simple(data: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let push_len = |out: &mut Vec<u8>, mut n: usize| {
        while n >= 255 {
            out.push(255);
            n -= 255;
        }
        out.push(n as u8);
    };
    let run = data.iter().take_while(|b| Some(*b) == data.first()).count();
    let mut rest = data;
    // spec: the last match starts at least 12 bytes before the end, the last 5 bytes are literals
    if run >= 24 && data.len() >= 24 {
        let m = run.min(data.len() - 12) - 1;
        if m >= 4 {
            out.push(1 << 4 | (m - 4).min(15) as u8);
            out.push(data[0]);
            out.extend(1_u16.to_le_bytes());
            if m - 4 >= 15 {
                push_len(&mut out, m - 4 - 15);
            }
            rest = &data[m + 1..];
        }
    }
    out.push((rest.len().min(15) as u8) << 4);
    if rest.len() >= 15 {
        push_len(&mut out, rest.len() - 15);
    }
    out.extend(rest);
    out
}

pub fn dec_binary(ct: u8, r: &mut Rd) -> R<Vec<u8>> {
    match ct {
        0 => {
            let n = dec_usize(r)?;
            Ok(r.take(n)?.to_vec())
        }
        1 => {
            let n = dec_usize(r)?;
            let b = r.take(n)?;
            if n % 2 != 0 {
                return e("odd rle");
            }
            Ok(b.chunks(2).flat_map(|c| std::iter::repeat(c[1]).take(c[0] as usize)).collect())
        }
        2 => {
            let n = dec_usize(r)?;
            if n == 0 {
                return Ok(vec![]);
            }
            let c = dec_usize(r)?;
            let out = lz4_decode(r.take(c)?)?;
            if out.len() != n {
                return e("lz length");
            }
            Ok(out)
        }
        3 => match r.u8()? {
            0 => Ok(vec![]),
            1 => {
                let n = dec_usize(r)?;
                if n > 1 << 28 {
                    return e("too large for the reference");
                }
                let b = r.u8()?;
                Ok(vec![b; n])
            }
            _ => {
                let t = dec_u8_tree(r)?;
                let bits = dec_bits(r)?;
                t.decode(&bits)
            }
        },
        _ => e("compression"),
    }
}
pub fn enc_binary(data: &[u8], ct: u8, seed: u64) -> Vec<u8> {
    match ct {
        0 => {
            let mut v = enc_int(Num::u(data.len() as u128));
            v.extend(data);
            v
        }
        1 => {
            let mut c: Vec<u8> = vec![];
            for b in data {
                let n = c.len();
                if n >= 2 && c[n - 1] == *b && c[n - 2] < 255 {
                    c[n - 2] += 1;
                } else {
                    c.extend([1, *b]);
                }
            }
            let mut v = enc_int(Num::u(c.len() as u128));
            v.extend(c);
            v
        }
        2 => {
            let mut v = enc_int(Num::u(data.len() as u128));
            if data.is_empty() {
                return v;
            }
            let c = lz4_encode_simple(data);
            v.extend(enc_int(Num::u(c.len() as u128)));
            v.extend(c);
            v
        }
        _ => {
            if data.is_empty() {
                return vec![0];
            }
            if data.iter().all(|b| *b == data[0]) {
                let mut v = vec![1];
                v.extend(enc_int(Num::u(data.len() as u128)));
                v.push(data[0]);
                return v;
            }
            let mut syms = data.to_vec();
            syms.sort_unstable();
            syms.dedup();
            // a caterpillar over 256 symbols is deeper than any real tree: keep it bushy
            let t = Tree::shaped(&syms, seed.wrapping_mul(3).wrapping_add(1)).expect("non-empty");
            let codes: BTreeMap<u8, Vec<bool>> = t.codes().into_iter().collect();
            let mut v = vec![2];
            enc_u8_tree(&t, &mut v);
            v.extend(enc_bits(&data.iter().flat_map(|b| codes[b].clone()).collect::<Vec<_>>()));
            v
        }
    }
}

fn dec_str(tag: u8, r: &mut Rd, h: Option<&Tree<char>>) -> R<String> {
    if tag & 1 == 1 {
        let h = h.ok_or(E("no huffman".into()))?;
        let bits = dec_bits(r)?;
        Ok(h.decode(&bits)?.into_iter().collect())
    } else {
        let n = dec_usize(r)?;
        String::from_utf8(r.take(n)?.to_vec()).map_err(|_| E("utf8".into()))
    }
}
fn dec_tagged_str(r: &mut Rd, h: Option<&Tree<char>>) -> R<String> {
    let tag = r.u8()?;
    if tag >> 4 != 1 {
        return e("expected a string");
    }
    dec_str(tag, r, h)
}
fn dec_len(tag: u8, r: &mut Rd) -> R<usize> {
    if tag & 1 == 1 {
        dec_usize(r)
    } else {
        Ok((tag >> 1 & 7) as usize)
    }
}
pub fn dec_value(r: &mut Rd, h: Option<&Tree<char>>) -> R<MV> {
    let mint = |n: Num| MInt { w: 12, n };
    let tag = r.u8()?;
    Ok(match tag >> 4 {
        0 => MV::Ch(u32::try_from(dec_int(0, r)?.mag).ok().and_then(char::from_u32).ok_or(E("char".into()))?),
        1 => MV::Str(dec_str(tag, r, h)?),
        2 => MV::Bin(MBin::Bytes(dec_binary(tag & 15, r)?)),
        3 => MV::Bool(tag & 1 == 1),
        4 => MV::Int(mint(dec_int(tag & 3, r)?)),
        5 => {
            let s = match tag & 15 {
                0 => {
                    let m = u64::from_le_bytes(r.take(8)?.try_into().unwrap_or_default());
                    let a = u64::from_le_bytes(r.take(8)?.try_into().unwrap_or_default());
                    return Ok(MV::Polar(m, a));
                }
                1 => (0, 0),
                2 => (0, 1),
                3 => (1, 0),
                4 => (0, 2),
                5 => (2, 0),
                6 => (1, 1),
                7 => (1, 2),
                8 => (2, 1),
                9 => (2, 2),
                _ => return e("imaginary"),
            };
            let a = dec_int(s.0, r)?;
            MV::Cart(mint(a), mint(dec_int(s.1, r)?))
        }
        6 => {
            let y = dec_int(tag & 3, r)?.as_i128().and_then(|y| i32::try_from(y).ok()).ok_or(E("year".into()))?;
            let mut f = [0_u32; 6];
            for x in &mut f {
                *x = u32::try_from(dec_int(0, r)?.mag).map_err(|_| E("field".into()))?;
            }
            let d = sourisdb::chrono::NaiveDate::from_ymd_opt(y, f[0], f[1]).ok_or(E("date".into()))?;
            MV::Ts(MTs { y, ord: sourisdb::chrono::Datelike::ordinal(&d), secs: f[2] * 3600 + f[3] * 60 + f[4], ns: f[5] })
        }
        7 => {
            let s = dec_tagged_str(r, h)?;
            MV::Json(parse_json(&s)?)
        }
        8 => {
            let n = dec_len(tag, r)?;
            let mut m = BTreeMap::new();
            for _ in 0..n {
                let k = dec_tagged_str(r, h)?;
                let v = dec_value(r, h)?;
                if m.insert(k, v).is_some() {
                    return e("duplicate key");
                }
            }
            MV::Map(m)
        }
        9 => MV::Null,
        10 => MV::F64(u64::from_le_bytes(r.take(8)?.try_into().unwrap_or_default())),
        11 => {
            let n = dec_len(tag, r)?;
            let mut v = vec![];
            for _ in 0..n {
                v.push(dec_value(r, h)?);
            }
            MV::Arr(v)
        }
        12 => {
            let s = dec_tagged_str(r, h)?;
            let t: sourisdb::chrono_tz::Tz = s.parse().map_err(|_| E("tz".into()))?;
            MV::Tz(tz_index(t))
        }
        13 => MV::V4(r.take(4)?.try_into().unwrap_or_default()),
        14 => {
            let b = r.take(16)?;
            let mut s = [0_u16; 8];
            for (i, x) in s.iter_mut().enumerate() {
                *x = u16::from_le_bytes([b[2 * i], b[2 * i + 1]]);
            }
            MV::V6(s)
        }
        _ => MV::F32(u32::from_le_bytes(r.take(4)?.try_into().unwrap_or_default())),
    })
}

/// Encodes with the choices a writer is free to make taken from `seed`.
pub struct Enc<'a> {
    pub codes: Option<BTreeMap<char, Vec<bool>>>,
    pub seed: u64,
    pub _p: std::marker::PhantomData<&'a ()>,
}
impl Enc<'_> {
    pub fn new(tree: Option<&Tree<char>>, seed: u64) -> Self {
        Self { codes: tree.map(|t| t.codes().into_iter().collect()), seed: seed | 1, _p: std::marker::PhantomData }
    }
    fn rnd(&mut self) -> u64 {
        self.seed ^= self.seed << 13;
        self.seed ^= self.seed >> 7;
        self.seed ^= self.seed << 17;
        self.seed >> 11
    }
    fn string(&mut self, s: &str, out: &mut Vec<u8>) {
        let huff = self.rnd() % 4 != 0;
        if let Some(c) = self.codes.as_ref().filter(|_| huff) {
            if let Some(bits) = s.chars().map(|ch| c.get(&ch).cloned()).collect::<Option<Vec<_>>>() {
                out.push(0x11);
                out.extend(enc_bits(&bits.concat()));
                return;
            }
        }
        out.push(0x10);
        out.extend(enc_int(Num::u(s.len() as u128)));
        out.extend(s.as_bytes());
    }
    fn len(&mut self, ty: u8, n: usize, out: &mut Vec<u8>) {
        if n < 7 {
            out.push(ty << 4 | (n as u8) << 1);
        } else {
            out.push(ty << 4 | 1);
            out.extend(enc_int(Num::u(n as u128)));
        }
    }
    /// The state an integer carries depends on how it was made; for a non-negative one both are right.
    fn state(m: &MInt) -> u8 {
        if m.n.neg {
            2
        } else if m.w >= 6 && m.w < 12 {
            1
        } else {
            0
        }
    }
    pub fn value(&mut self, v: &MV, out: &mut Vec<u8>) {
        match v {
            MV::Ch(c) => {
                out.push(0);
                out.extend(enc_int(Num::u(u128::from(*c as u32))));
            }
            MV::Str(s) => self.string(s, out),
            MV::Bin(b) => {
                let b = b.bytes();
                let seed = self.rnd();
                let ct = (self.rnd() % 4) as u8;
                out.push(2 << 4 | ct);
                out.extend(enc_binary(&b, ct, seed >> 8));
            }
            MV::Bool(b) => out.push(3 << 4 | u8::from(*b)),
            MV::Int(i) => {
                out.push(4 << 4 | Self::state(i));
                out.extend(enc_int(i.n));
            }
            MV::Polar(a, b) => {
                out.push(5 << 4);
                out.extend(a.to_le_bytes());
                out.extend(b.to_le_bytes());
            }
            MV::Cart(a, b) => {
                let k = match (Self::state(a), Self::state(b)) {
                    (0, 0) => 1,
                    (0, 1) => 2,
                    (1, 0) => 3,
                    (0, 2) => 4,
                    (2, 0) => 5,
                    (1, 1) => 6,
                    (1, 2) => 7,
                    (2, 1) => 8,
                    _ => 9,
                };
                out.push(5 << 4 | k);
                out.extend(enc_int(a.n));
                out.extend(enc_int(b.n));
            }
            MV::Ts(t) => {
                use sourisdb::chrono::Datelike;
                let d = sourisdb::chrono::NaiveDate::from_yo_opt(t.y, t.ord).expect("valid");
                out.push(6 << 4 | if t.y < 0 { 2 } else { 1 });
                out.extend(enc_int(Num::i(t.y.into())));
                for f in [d.month(), d.day(), t.secs / 3600, t.secs / 60 % 60, t.secs % 60, t.ns] {
                    out.extend(enc_int(Num::u(f.into())));
                }
            }
            MV::Json(j) => {
                out.push(7 << 4);
                let s = j.build().to_string();
                self.string(&s, out);
            }
            MV::Map(m) => {
                self.len(8, m.len(), out);
                for (k, v) in m {
                    self.string(k, out);
                    self.value(v, out);
                }
            }
            MV::Null => out.push(9 << 4),
            MV::F64(b) => {
                out.push(10 << 4);
                out.extend(b.to_le_bytes());
            }
            MV::Arr(a) => {
                self.len(11, a.len(), out);
                for v in a {
                    self.value(v, out);
                }
            }
            MV::Tz(i) => {
                out.push(12 << 4);
                let n = sourisdb::chrono_tz::TZ_VARIANTS[*i as usize % sourisdb::chrono_tz::TZ_VARIANTS.len()].name();
                self.string(n, out);
            }
            MV::V4(o) => {
                out.push(13 << 4);
                out.extend(o);
            }
            MV::V6(s) => {
                out.push(14 << 4);
                for x in s {
                    out.extend(x.to_le_bytes());
                }
            }
            MV::F32(b) => {
                out.push(15 << 4);
                out.extend(b.to_le_bytes());
            }
            MV::Rep(..) | MV::MapN(..) | MV::Deep(..) => self.value(&v.expand(), out),
        }
    }
}
pub fn chars_of(v: &MV, out: &mut std::collections::BTreeSet<char>) {
    match v {
        MV::Str(s) => out.extend(s.chars()),
        MV::Json(j) => out.extend(j.build().to_string().chars()),
        MV::Map(m) => {
            for (k, v) in m {
                out.extend(k.chars());
                chars_of(v, out);
            }
        }
        MV::Arr(a) => a.iter().for_each(|v| chars_of(v, out)),
        MV::Tz(i) => out.extend(sourisdb::chrono_tz::TZ_VARIANTS[*i as usize % sourisdb::chrono_tz::TZ_VARIANTS.len()].name().chars()),
        MV::Rep(..) | MV::MapN(..) | MV::Deep(..) => chars_of(&v.expand(), out),
        _ => {}
    }
}
pub fn enc_store(m: &MStore, seed: u64) -> Vec<u8> {
    let root = MV::Map(m.clone()).expand();
    let mut set = std::collections::BTreeSet::new();
    chars_of(&root, &mut set);
    let syms: Vec<char> = set.into_iter().take(if seed % 5 == 0 { 10 } else { 100_000 }).collect();
    let tree = if seed % 7 == 0 { None } else { Tree::shaped(&syms, seed / 7 * 3 + 1) }.filter(|t| t.depth() < 60);
    let mut body = vec![];
    if let Some(t) = &tree {
        enc_char_tree(t, &mut body);
    }
    Enc::new(tree.as_ref(), seed >> 3).value(&root, &mut body);
    let ct = (seed >> 9) % 4;
    let mut out = MAGIC.to_vec();
    out.push(u8::from(tree.is_some()) << 7 | ct as u8);
    out.extend(enc_binary(&body, ct as u8, seed >> 17));
    out
}
pub fn dec_store(b: &[u8]) -> R<MStore> {
    let mut r = Rd::new(b);
    if r.take(8)? != MAGIC {
        return e("magic");
    }
    let t = r.u8()?;
    let body = dec_binary(t & 0x7f, &mut r)?;
    if r.p != b.len() {
        return e("trailing bytes after the store");
    }
    let mut r = Rd::new(&body);
    let tree = if t & 0x80 != 0 { Some(dec_char_tree(&mut r)?) } else { None };
    let v = dec_value(&mut r, tree.as_ref())?;
    if r.p != body.len() {
        return e("trailing bytes inside the store");
    }
    match v {
        MV::Map(m) => Ok(m),
        _ => e("not a map"),
    }
}

/// A JSON reader of its own: exact on floats, unlike serde_json's default.
pub fn parse_json(s: &str) -> Result<MJ, E> {
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    let v = json_value(&b, &mut i)?;
    json_ws(&b, &mut i);
    if i != b.len() {
        return Err(E("json: trailing text".into()));
    }
    Ok(v)
}
fn json_ws(b: &[char], i: &mut usize) {
    while *i < b.len() && matches!(b[*i], ' ' | '\n' | '\t' | '\r') {
        *i += 1;
    }
}
fn json_lit(b: &[char], i: &mut usize, lit: &str, v: MJ) -> Result<MJ, E> {
    for c in lit.chars() {
        if b.get(*i) != Some(&c) {
            return Err(E("json: literal".into()));
        }
        *i += 1;
    }
    Ok(v)
}
fn json_str(b: &[char], i: &mut usize) -> Result<String, E> {
    let e = || E("json: string".into());
    if b.get(*i) != Some(&'"') {
        return Err(e());
    }
    *i += 1;
    let mut out = String::new();
    loop {
        let c = *b.get(*i).ok_or_else(e)?;
        *i += 1;
        match c {
            '"' => return Ok(out),
            '\\' => {
                let c = *b.get(*i).ok_or_else(e)?;
                *i += 1;
                out.push(match c {
                    '"' | '\\' | '/' => c,
                    'b' => '\u{8}',
                    'f' => '\u{c}',
                    'n' => '\n',
                    'r' => '\r',
                    't' => '\t',
                    'u' => {
                        let unit = |i: &mut usize| -> Result<u32, E> {
                            let h: String = b.get(*i..*i + 4).ok_or_else(e)?.iter().collect();
                            *i += 4;
                            u32::from_str_radix(&h, 16).map_err(|_| e())
                        };
                        let mut u = unit(i)?;
                        if (0xD800..0xDC00).contains(&u) {
                            if b.get(*i) != Some(&'\\') || b.get(*i + 1) != Some(&'u') {
                                return Err(e());
                            }
                            *i += 2;
                            u = 0x10000 + ((u - 0xD800) << 10) + unit(i)?.checked_sub(0xDC00).ok_or_else(e)?;
                        }
                        char::from_u32(u).ok_or_else(e)?
                    }
                    _ => return Err(e()),
                });
            }
            c if (c as u32) < 0x20 => return Err(e()),
            c => out.push(c),
        }
    }
}
fn json_value(b: &[char], i: &mut usize) -> Result<MJ, E> {
    json_ws(b, i);
    match b.get(*i) {
        Some('n') => json_lit(b, i, "null", MJ::Null),
        Some('t') => json_lit(b, i, "true", MJ::Bool(true)),
        Some('f') => json_lit(b, i, "false", MJ::Bool(false)),
        Some('"') => Ok(MJ::S(json_str(b, i)?)),
        Some('[') => {
            *i += 1;
            let mut a = vec![];
            json_ws(b, i);
            if b.get(*i) == Some(&']') {
                *i += 1;
                return Ok(MJ::A(a));
            }
            loop {
                a.push(json_value(b, i)?);
                json_ws(b, i);
                *i += 1;
                match b.get(*i - 1) {
                    Some(',') => {}
                    Some(']') => return Ok(MJ::A(a)),
                    _ => return Err(E("json: array".into())),
                }
            }
        }
        Some('{') => {
            *i += 1;
            let mut o = BTreeMap::new();
            json_ws(b, i);
            if b.get(*i) == Some(&'}') {
                *i += 1;
                return Ok(MJ::O(o));
            }
            loop {
                json_ws(b, i);
                let k = json_str(b, i)?;
                json_ws(b, i);
                if b.get(*i) != Some(&':') {
                    return Err(E("json: colon".into()));
                }
                *i += 1;
                let v = json_value(b, i)?;
                if o.insert(k, v).is_some() {
                    return Err(E("json: duplicate key".into()));
                }
                json_ws(b, i);
                *i += 1;
                match b.get(*i - 1) {
                    Some(',') => {}
                    Some('}') => return Ok(MJ::O(o)),
                    _ => return Err(E("json: object".into())),
                }
            }
        }
        Some('-' | '0'..='9') => {
            let start = *i;
            while matches!(b.get(*i), Some('-' | '+' | '.' | 'e' | 'E' | '0'..='9')) {
                *i += 1;
            }
            let t: String = b[start..*i].iter().collect();
            if t.contains(['.', 'e', 'E']) {
                return t.parse::<f64>().map(|f| MJ::F(f.to_bits())).map_err(|_| E("json: float".into()));
            }
            if let Ok(u) = t.parse::<u64>() {
                return Ok(MJ::U(u));
            }
            if let Ok(n) = t.parse::<i64>() {
                return Ok(MJ::I(n));
            }
            t.parse::<f64>().map(|f| MJ::F(f.to_bits())).map_err(|_| E("json: number".into()))
        }
        _ => Err(E("json: value".into())),
    }
}
