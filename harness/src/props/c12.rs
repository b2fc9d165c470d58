//! C12: matrix text, cell for cell, against an exact renderer.
use crate::ctx::{Ctx, Fail, Res};
use crate::gen;
use crate::props::c08;
use graphrox::matrix::{CsrAdjacencyMatrix, CsrSquareMatrix, MatrixRepresentation};
use graphrox::GraphRepresentation;
use std::collections::BTreeMap;

/// The text that a dim x dim matrix of already formatted cells must have.
pub fn render(dim: u64, zero: &str, cells: &BTreeMap<(u64, u64), String>) -> String {
    let width = cells.values().map(|c| c.len()).chain((cells.len() as u128 != dim as u128 * dim as u128).then_some(zero.len())).max().unwrap_or(0);
    let mut lines = vec![];
    for r in 0..dim {
        let row: Vec<String> = (0..dim)
            .map(|c| {
                let s = cells.get(&(c, r)).map(|s| s.as_str()).unwrap_or(zero);
                format!("{}{}", " ".repeat(width - s.len()), s)
            })
            .collect();
        lines.push(format!("[ {} ]", row.join(", ")));
    }
    lines.join("\r\n")
}

fn differ(what: &str, got: &str, want: &str) -> Res {
    if got != want {
        let at = got.bytes().zip(want.bytes()).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        bad!("{}: text differs at byte {}: got {:?}, expected {:?}", what, at, clip(got, at), clip(want, at));
    }
    Ok(())
}
fn clip(s: &str, at: usize) -> String {
    let lo = at.saturating_sub(30);
    s.bytes().skip(lo).take(90).map(|b| b as char).collect()
}

fn coords(cx: &mut Ctx) -> (u64, Vec<(u64, u64)>) {
    if cx.big() {
        // full, or nearly: more than 2^16 cells
        let dim = cx.rng.range(256, 270);
        let hole = cx.rng.below(dim * dim + 1);
        let v = (0..dim * dim).filter(|k| *k != hole).map(|k| (k / dim, k % dim)).collect();
        cx.count("large matrices rendered", 1);
        return (dim, v);
    }
    if cx.rng.chance(1, 300) {
        // large: around powers of two and numbers in the sources
        let dim = match cx.rng.below(4) {
            0 if !cx.dict.is_empty() => cx.rng.pick(cx.dict).wrapping_add(cx.rng.below(4)).clamp(2, 600),
            1 => cx.rng.range(60, 140),
            2 => cx.rng.range(254, 300),
            _ => *cx.rng.pick(&[64u64, 65, 127, 128, 129, 257, 511, 512, 513, 520]),
        };
        let mut v: Vec<(u64, u64)> = (0..cx.rng.range(1, 400)).map(|_| (cx.rng.below(dim), cx.rng.below(dim))).collect();
        v.push((dim - 1, cx.rng.below(dim)));
        v.push((cx.rng.below(dim), dim - 1));
        v.sort_unstable();
        v.dedup();
        cx.count("large matrices rendered", 1);
        return (dim, v);
    }
    let dim = match cx.rng.below(8) {
        0 => 1,
        1 => 2,
        2 => cx.rng.range(12, 40),
        _ => cx.rng.range(1, 9),
    };
    let k = match cx.rng.below(6) {
        0 => 0,
        1 => 1,
        2 => dim * dim,
        _ => cx.rng.range(1, dim * dim),
    };
    let mut v: Vec<(u64, u64)> = (0..dim).flat_map(|a| (0..dim).map(move |b| (a, b))).collect();
    cx.rng.shuffle(&mut v);
    v.truncate(k as usize);
    (dim, v)
}

fn digits(cx: &mut Ctx, dim: u64) -> usize {
    match cx.rng.below(12) {
        0..=2 => 0,
        3 => 1,
        4 => 2,
        5..=7 => cx.rng.range(0, 6) as usize,
        8..=9 => cx.rng.range(0, 25) as usize,
        _ if dim > 60 => 3,
        10 => cx.rng.range(30, 400) as usize,
        _ if dim <= 2 => *cx.rng.pick(&[255usize, 256, 600, 1000, 1074, 1075, 1100, 2000, 4096, 65535]),
        _ => 40,
    }
}

fn adjacency(cx: &mut Ctx) -> Res {
    let (dim, cells) = coords(cx);
    let und = cx.rng.bool();
    let empty = cx.rng.chance(1, 20);
    let s = if empty { gen::Spec { und, n: 0, edges: vec![], shape: "empty" } } else { gen::Spec { und, n: dim, edges: cells, shape: "text" } };
    let (g, m) = gen::graph_of(cx, &s)?;
    let want = render(m.n, "0", &m.e.iter().map(|k| (*k, "1".to_string())).collect());
    match g.matrix_string() {
        Ok(t) => differ("graph matrix_string", &t, &want)?,
        Err(e) => bad!("graph matrix_string failed for {} vertices: {}", m.n, e),
    }
    let mut a = CsrAdjacencyMatrix::new();
    cx.setup(|_| {
        if m.n > 0 {
            a.set_entry(0, m.n - 1, m.n - 1);
        }
        for (c, r) in &m.e {
            a.set_entry(1, *c, *r);
        }
    });
    match a.try_to_string() {
        Ok(t) => differ("adjacency matrix try_to_string", &t, &want)?,
        Err(e) => bad!("adjacency matrix try_to_string failed: {}", e),
    }
    differ("adjacency matrix Display", &a.to_string(), &want)?;
    cx.count("cells rendered", 3 * m.n * m.n);
    Ok(())
}

fn compressed(cx: &mut Ctx) -> Res {
    let (c, m) = c08::compressed(cx)?;
    let bd = crate::codec::block_dim(m.n);
    if bd > 60 && (bd > 600 || cx.rng.chance(39, 40)) {
        return Ok(());
    }
    let want = render(bd, "0", &m.w.iter().map(|(k, w)| (*k, format!("{}", w))).collect());
    match c.matrix_string() {
        Ok(t) => differ("compressed matrix_string", &t, &want)?,
        Err(e) => bad!("compressed matrix_string failed for {} vertices: {}", m.n, e),
    }
    cx.count("cells rendered", bd * bd);
    Ok(())
}

fn pooled(cx: &mut Ctx) -> Res {
    let (g, m) = gen::graph(cx)?;
    let b = cx.rng.range(1, 9);
    let p = cx.setup(|_| g.find_avg_pool_matrix(b));
    if m.n == 0 || p.dimension() > 600 || (p.dimension() > 60 && cx.rng.chance(39, 40)) {
        return Ok(());
    }
    let d = digits(cx, p.dimension());
    cx.say(|| format!("pooled by {}, {} decimals", b, d));
    let cells: BTreeMap<(u64, u64), f64> = (&p).into_iter().map(|(v, c, r)| ((c, r), v)).collect();
    let f = |d: usize| render(p.dimension(), &format!("{:.*}", d, 0.0), &cells.iter().map(|(k, v)| (*k, format!("{:.*}", d, v))).collect());
    match p.to_string_with_precision(d) {
        Ok(t) => differ("pooled matrix text", &t, &f(d))?,
        Err(e) => bad!("pooled matrix text failed: {}", e),
    }
    differ("pooled matrix Display", &p.to_string(), &f(2))?;
    cx.count("cells rendered", 2 * p.dimension() * p.dimension());
    Ok(())
}

macro_rules! text {
    ($name:ident, $t:ty, $float:expr, $signed:expr) => {
        fn $name(cx: &mut Ctx) -> Res {
            let (dim, at) = coords(cx);
            let mut a: CsrSquareMatrix<$t> = CsrSquareMatrix::new();
            let mut cells: BTreeMap<(u64, u64), $t> = BTreeMap::new();
            let d = digits(cx, dim);
            let kind = cx.rng.below(7);
            for k in at {
                let v: $t = value!(cx, $t, $float, $signed, kind);
                if v != 0 as $t {
                    cells.insert(k, v);
                }
            }
            cx.say(|| format!("CsrSquareMatrix<{}> dim {} decimals {} cells {:?}", stringify!($t), dim, d, cells));
            cx.feed(dim);
            cx.feed(d as u64);
            cx.feed(stringify!($t).len() as u64 * 7 + stringify!($t).as_bytes()[0] as u64);
            for (k, v) in &cells {
                cx.feed(k.0 * 1024 + k.1);
                cx.feed(*v as f64 as u64);
                cx.feed((*v as f64).to_bits());
            }
            cx.nontrivial = !cells.is_empty();
            let emptied = cx.rng.chance(1, 4);
            let ok = cx.setup(|_| {
                a.set_entry(0 as $t, dim - 1, 0);
                if emptied {
                    // written and zeroed again: leaves an empty column behind
                    a.set_entry(1 as $t, dim - 1, 0);
                    a.zero_entry(dim - 1, 0);
                }
                for (k, v) in &cells {
                    a.set_entry(*v, k.0, k.1);
                }
                (0..dim).all(|c| (0..dim).all(|r| a.get_entry(c, r) == cells.get(&(c, r)).copied().unwrap_or(0 as $t))) && a.dimension() == dim
            });
            if !ok {
                return Err(Fail::Skip("matrix does not hold what was written"));
            }
            let f = |d: usize| {
                let show = |v: &$t| if $float { format!("{:.*}", d, *v) } else if d == 0 { format!("{}", v) } else { format!("{}.{}", v, "0".repeat(d)) };
                render(dim, &show(&(0 as $t)), &cells.iter().map(|(k, v)| (*k, show(v))).collect())
            };
            let what = concat!("CsrSquareMatrix<", stringify!($t), ">");
            match a.to_string_with_precision(d) {
                Ok(t) => differ(&format!("{} with {} decimals", what, d), &t, &f(d))?,
                Err(e) => bad!("{} of dimension {} with {} decimals failed: {}", what, dim, d, e),
            }
            differ(&format!("{} Display", what), &a.to_string(), &f(if $float { 2 } else { 0 }))?;
            cx.count("cells rendered", 2 * dim * dim);
            Ok(())
        }
    };
}
macro_rules! value {
    ($cx:expr, $t:ty, $float:expr, $signed:expr, $kind:expr) => {{
        // stay away from values whose rounded text could be a negative zero
        let r = &mut $cx.rng;
        let v = match $kind {
            0 => r.below(10) as f64 + *r.pick(&[0.0, 0.5, 0.25, 0.999, 0.995, 0.9999999, 0.04999]),
            1 => *r.pick(&[9.99, 9.999, 99.95, 0.96, 9.5, 99.5, 0.5, 1.5, 2.5, 999.9999, 0.9999]),
            2 => r.unit() * *r.pick(&[1.0, 10.0, 1e3, 1e6]),
            3 => *r.pick(&[1e15, 1e18, 1e20, 1e30, 123456789.125, 4294967296.0, 1.7e38]),
            4 => r.below(100) as f64,
            // of any size, down to the smallest and up to the largest
            6 => match r.below(8) {
                0 => *r.pick(&[5e-324, 1e-320, 1.4e-45, 1e-40, f64::MIN_POSITIVE, f32::MIN_POSITIVE as f64, 1e-300, f64::EPSILON]),
                1 => *r.pick(&[1e308, f64::MAX, 1e300, f32::MAX as f64, 1e38, 9.9e307]),
                2 => r.unit() * 10f64.powi(r.below(300) as i32),
                _ => r.unit() * 10f64.powi(-(r.below(323) as i32)),
            },
            _ => r.unit(),
        };
        let v = if $kind != 5 && v >= 1.0 && r.chance(1, 4) { (-v) as $t } else { v as $t };
        if v.is_finite() { v } else { 1 as $t }
    }};
}
macro_rules! ints {
    ($($name:ident $t:ident $s:expr;)*) => { $(mod $name { use super::*;
        #[allow(unused_comparisons)]
        pub fn go(cx: &mut Ctx) -> Res { inner(cx) }
        macro_rules! value { ($cx:expr, $tt:ty, $f:expr, $sg:expr, $kind:expr) => {{
            let r = &mut $cx.rng;
            match $kind {
                0 => r.below(10) as $t,
                1 => *r.pick(&[9 as $t, 10, 99, 100, 101, 11, 127]),
                2 => (if r.bool() { <$t>::MAX } else { <$t>::MAX / 10 }) - r.below(3) as $t,
                3 if $sg => <$t>::MIN + r.below(3) as $t,
                4 if $sg => (r.below(20) as i8 - 10) as $t,
                _ => (r.u64() as $t) >> r.below(<$t>::BITS as u64),
            }
        }}; }
        text!(inner, $t, false, $s);
    })* };
}
ints! { tu8 u8 false; tu16 u16 false; tu32 u32 false; tu64 u64 false; tu128 u128 false;
        ti8 i8 true; ti16 i16 true; ti32 i32 true; ti64 i64 true; ti128 i128 true; }
mod tf32 {
    use super::*;
    text!(inner, f32, true, true);
    pub fn go(cx: &mut Ctx) -> Res { inner(cx) }
}
mod tf64 {
    use super::*;
    text!(inner, f64, true, true);
    pub fn go(cx: &mut Ctx) -> Res { inner(cx) }
}

/// `render` for wide matrices with few cells.
fn render_wide(dim: u64, zero: &str, cells: &BTreeMap<(u64, u64), String>) -> String {
    let width = cells.values().map(|c| c.len()).max().unwrap_or(0).max(zero.len());
    let mut rows: BTreeMap<u64, Vec<(u64, &str)>> = BTreeMap::new();
    for ((c, r), s) in cells {
        rows.entry(*r).or_default().push((*c, s));
    }
    let blank = format!("{}{}, ", " ".repeat(width - zero.len()), zero).repeat(dim as usize);
    let mut o = String::with_capacity((blank.len() + 6) * dim as usize);
    for r in 0..dim {
        let mut line = blank.clone().into_bytes();
        for (c, s) in rows.get(&r).into_iter().flatten() {
            let at = *c as usize * (width + 2);
            line[at..at + width].copy_from_slice(format!("{:>w$}", s, w = width).as_bytes());
        }
        line.truncate(line.len() - 2);
        o.push_str("[ ");
        o.push_str(std::str::from_utf8(&line).unwrap());
        o.push_str(" ]");
        if r + 1 < dim {
            o.push_str("\r\n");
        }
    }
    o
}

/// Texts of many megabytes.
fn wide(cx: &mut Ctx) -> Res {
    let top = if cx.tier == crate::ctx::Tier::Thorough { 9000 } else { 4200 };
    let dim = match cx.rng.below(3) {
        0 if !cx.dict.is_empty() => cx.rng.pick(cx.dict).wrapping_add(cx.rng.below(4)).clamp(600, top),
        1 => *cx.rng.pick(&[1023u64, 1024, 1025, 1449, 2048, 2049, 4095, 4096, 4097]),
        _ => cx.rng.range(600, top),
    };
    let k = cx.rng.range(0, 300);
    let mut at: Vec<(u64, u64)> = (0..k).map(|_| (cx.rng.below(dim), cx.rng.below(dim))).collect();
    for _ in 0..3 {
        let (x, y) = (cx.rng.below(dim), dim - 1 - cx.rng.below(3));
        at.extend([(x, y), (y, x)]);
    }
    cx.feed(dim);
    cx.feed(at[0].0);
    cx.nontrivial = true;
    cx.count("texts of many megabytes", 1);
    match cx.rng.below(3) {
        0 => {
            let s = gen::Spec { und: cx.rng.bool(), n: dim, edges: at, shape: "wide text" };
            let (g, m) = gen::graph_of(cx, &s)?;
            let want = render_wide(m.n, "0", &m.e.iter().map(|k| (*k, "1".to_string())).collect());
            match g.matrix_string() {
                Ok(t) => differ("graph matrix_string", &t, &want)?,
                Err(e) => bad!("graph matrix_string failed for {} vertices: {}", m.n, e),
            }
        }
        1 => {
            let dim = dim.min(2000);
            let d = cx.rng.below(4) as usize;
            let mut a = CsrSquareMatrix::<f32>::new();
            let mut cells = BTreeMap::new();
            for (c, r) in at {
                let (c, r) = (c % dim, r % dim);
                let v = (cx.rng.below(4000) as f32 + 1.0) / 8.0;
                cx.setup(|_| a.set_entry(v, c, r));
                cells.insert((c, r), v);
            }
            cx.setup(|_| a.set_entry(0.0, dim - 1, dim - 1));
            cells.remove(&(dim - 1, dim - 1));
            let want = render_wide(dim, &format!("{:.*}", d, 0.0), &cells.iter().map(|(k, v)| (*k, format!("{:.*}", d, v))).collect());
            match a.to_string_with_precision(d) {
                Ok(t) => differ("wide matrix of f32", &t, &want)?,
                Err(e) => bad!("the text of a matrix of dimension {} with {} decimals failed: {}", dim, d, e),
            }
        }
        _ => {
            let n = dim * 4;
            let s = gen::Spec { und: cx.rng.bool(), n, edges: at.iter().map(|e| (e.0 * 4, e.1 * 4)).collect(), shape: "wide text" };
            let (g, m) = gen::graph_of(cx, &s)?;
            let c = cx.setup(|_| g.compress(1));
            let want = render_wide(crate::codec::block_dim(m.n), "0", &m.words().iter().map(|(k, w)| (*k, w.to_string())).collect());
            match c.matrix_string() {
                Ok(t) => differ("compressed matrix_string", &t, &want)?,
                Err(e) => bad!("compressed matrix_string failed for {} vertices: {}", m.n, e),
            }
        }
    }
    Ok(())
}

pub fn case(cx: &mut Ctx) -> Res {
    if cx.big() && cx.rng.bool() {
        return wide(cx);
    }
    match cx.rng.below(22) {
        0 => tu8::go(cx),
        1 => tu16::go(cx),
        2 => tu32::go(cx),
        3 => tu64::go(cx),
        4 => tu128::go(cx),
        5 => ti8::go(cx),
        6 => ti16::go(cx),
        7 => ti32::go(cx),
        8 => ti64::go(cx),
        9 => ti128::go(cx),
        10 | 11 => tf32::go(cx),
        12..=14 => tf64::go(cx),
        15 | 16 => pooled(cx),
        17 | 18 => compressed(cx),
        _ => adjacency(cx),
    }
}
