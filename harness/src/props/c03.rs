//! C03: sparse matrices equal the mathematical matrix their writes describe.
use crate::ctx::{viol, Ctx, Res};
use crate::model::iteration;
use crate::gen;
use graphrox::matrix::{CsrAdjacencyMatrix, CsrSquareMatrix, MatrixRepresentation};
use std::collections::BTreeMap;

/// More than 2^16 cells: in one column, one row, on a diagonal or in a full square; some go again.
fn large(cx: &mut Ctx) -> Res {
    use std::collections::HashSet;
    let d = *cx.rng.pick(&[65_535u64, 65_536, 65_537, 66_049, 70_000]);
    let shape = cx.rng.below(4);
    let far = if cx.rng.bool() { 0 } else { gen::id(&mut cx.rng, cx.dict).min(u64::MAX - 200_000) };
    let at = move |k: u64| match shape {
        0 => (far, k),
        1 => (k, far),
        2 => (far + k, far + k * 7 % d),
        _ => (far + k / 270, k % 270),
    };
    cx.feed(d);
    cx.feed(shape);
    cx.feed(far);
    cx.nontrivial = true;
    cx.say(|| format!("{} cells, shape {}, from {}", d, shape, far));
    let mut a = CsrAdjacencyMatrix::new();
    let mut f: CsrSquareMatrix<f64> = CsrSquareMatrix::new();
    let mut b: CsrSquareMatrix<u8> = CsrSquareMatrix::new();
    for k in 0..d {
        let (c, r) = at(k);
        a.set_entry(1, c, r);
        f.set_entry(k as f64 + 0.5, c, r);
        b.increment_entry(c, r);
    }
    let gone: HashSet<u64> = (0..cx.rng.below(3) * 1000).map(|_| cx.rng.below(d)).collect();
    for k in &gone {
        let (c, r) = at(*k);
        a.zero_entry(c, r);
        f.set_entry(0.0, c, r);
        b.zero_entry(c, r);
        b.zero_entry(c, r);
    }
    cx.count("writes", 3 * d + 4 * gone.len() as u64);
    let left = d - gone.len() as u64;
    let (mc, mr) = (0..d).map(at).fold((0, 0), |m, x| (m.0.max(x.0), m.1.max(x.1)));
    let dim = mc.max(mr) + 1;
    ensure!(a.dimension() == dim && f.dimension() == dim && b.dimension() == dim, "dimensions {} {} {} instead of {}", a.dimension(), f.dimension(), b.dimension(), dim);
    ensure!(a.entry_count() == left && f.entry_count() == left && b.entry_count() == left, "entry counts {} {} {} instead of {}", a.entry_count(), f.entry_count(), b.entry_count(), left);
    for k in 0..d {
        let (c, r) = at(k);
        let there = !gone.contains(&k);
        ensure!(a.get_entry(c, r) == there as u8 && b.get_entry(c, r) == there as u8 && f.get_entry(c, r) == if there { k as f64 + 0.5 } else { 0.0 }, "cell #{} at ({},{}) reads {} {} {}", k, c, r, a.get_entry(c, r), b.get_entry(c, r), f.get_entry(c, r));
    }
    cx.count("reads compared", 3 * d);
    let want: HashSet<(u64, u64)> = (0..d).filter(|k| !gone.contains(k)).map(at).collect();
    let (mut na, mut nb, mut nf) = (0, 0, 0);
    for x in &a {
        na += want.contains(&x) as u64;
    }
    for (v, c, r) in &b {
        nb += (want.contains(&(c, r)) && v == 1) as u64;
    }
    for (v, c, r) in &f {
        nf += (want.contains(&(c, r)) && v == f.get_entry(c, r)) as u64;
    }
    let sizes = ((&a).into_iter().take(100_000).count() as u64, (&b).into_iter().take(100_000).count() as u64, (&f).into_iter().take(100_000).count() as u64);
    ensure!((na, nb, nf) == (left, left, left) && sizes == (left, left, left), "iteration lists {:?} cells, {:?} of them right, instead of {}", sizes, (na, nb, nf), left);
    for x in [far, 0, 1, far.wrapping_add(d - 1), far.wrapping_add(1)] {
        let mut col = a.get_sparse_col_vector(x);
        col.sort_unstable();
        let mut w: Vec<u64> = want.iter().filter(|k| k.0 == x).map(|k| k.1).collect();
        w.sort_unstable();
        ensure!(col == w && a.col_nonzero_entry_count(x) == w.len() as u64, "column {} lists {} ones and counts {}, expected {}", x, col.len(), a.col_nonzero_entry_count(x), w.len());
        let mut row = a.get_sparse_row_vector(x);
        row.sort_unstable();
        let mut w: Vec<u64> = want.iter().filter(|k| k.1 == x).map(|k| k.0).collect();
        w.sort_unstable();
        ensure!(row == w && a.row_nonzero_entry_count(x) == w.len() as u64, "row {} lists {} ones and counts {}, expected {}", x, row.len(), a.row_nonzero_entry_count(x), w.len());
    }
    // one cell counted up many times
    let (c, r) = at(d / 2);
    let mut q: CsrSquareMatrix<u32> = CsrSquareMatrix::new();
    let mut h: CsrSquareMatrix<f64> = CsrSquareMatrix::new();
    let start = *cx.rng.pick(&[0u32, 1, 65_530, u32::MAX - 70_000]);
    q.set_entry(start, c, r);
    for _ in 0..d.min(69_000) {
        q.increment_entry(c, r);
        h.increment_entry(c, r);
    }
    let n = d.min(69_000);
    ensure!(q.get_entry(c, r) == start + n as u32 && h.get_entry(c, r) == n as f64 && h.entry_count() == 1, "{} increments from {} make {} (and {:e} from nothing)", n, start, q.get_entry(c, r), h.get_entry(c, r));
    cx.count("large matrices", 1);
    Ok(())
}

/// Very many columns, all emptied again but a few.
fn emptied(cx: &mut Ctx) -> Res {
    let d = cx.rng.range(200_000, 500_000);
    let base = if cx.rng.bool() { 0 } else { gen::id(&mut cx.rng, cx.dict).min(u64::MAX - 1_000_000) };
    let keep: Vec<u64> = (0..cx.rng.below(3)).map(|_| cx.rng.below(d)).collect();
    let row = gen::id(&mut cx.rng, cx.dict);
    cx.feed(d);
    cx.feed(base);
    cx.nontrivial = true;
    cx.say(|| format!("{} columns from {}, emptied but {:?}", d, base, keep));
    let mut a = CsrAdjacencyMatrix::new();
    let mut b: CsrSquareMatrix<i32> = CsrSquareMatrix::new();
    for k in 0..d {
        a.set_entry(1, base + k, row);
        b.set_entry(5, base + k, row);
    }
    for k in (0..d).filter(|k| !keep.contains(k)) {
        a.zero_entry(base + k, row);
        if k % 2 == 0 {
            b.set_entry(0, base + k, row);
        } else {
            b.zero_entry(base + k, row);
        }
    }
    cx.count("writes", 4 * d);
    let want: std::collections::BTreeSet<u64> = keep.iter().map(|k| base + k).collect();
    let dim = (base + d).max(row + 1);
    ensure!(a.dimension() == dim && b.dimension() == dim, "dimensions {} and {} instead of {}", a.dimension(), b.dimension(), dim);
    ensure!(a.entry_count() == want.len() as u64 && b.entry_count() == want.len() as u64, "entry counts {} and {} instead of {}", a.entry_count(), b.entry_count(), want.len());
    let x: std::collections::BTreeSet<u64> = (&a).into_iter().take(1000).map(|e| e.0).collect();
    let y: std::collections::BTreeSet<u64> = (&b).into_iter().take(1000).map(|e| e.1).collect();
    ensure!(x == want && y == want, "iteration lists {:.100?} and {:.100?}, expected {:?}", x, y, want);
    for k in [0, d / 2, d - 1] {
        let there = keep.contains(&k);
        ensure!(a.get_entry(base + k, row) == there as u8 && b.get_entry(base + k, row) == 5 * there as i32, "column {} reads {} and {}", base + k, a.get_entry(base + k, row), b.get_entry(base + k, row));
    }
    cx.count("large matrices", 1);
    Ok(())
}

pub fn case(cx: &mut Ctx) -> Res {
    if cx.big() {
        return if cx.rng.chance(1, 4) { emptied(cx) } else { large(cx) };
    }
    match cx.rng.below(16) {
        0 => ty_u8(cx),
        1 => ty_u16(cx),
        2 => ty_u32(cx),
        3 => ty_u64(cx),
        4 => ty_u128(cx),
        5 => ty_i8(cx),
        6 => ty_i16(cx),
        7 => ty_i32(cx),
        8 => ty_i64(cx),
        9 => ty_i128(cx),
        10 => ty_f32(cx),
        11 => ty_f64(cx),
        _ => adjacency(cx),
    }
}

/// Where in its life a matrix of many columns is: it grows, is emptied, and grows again.
#[derive(Clone, Copy, PartialEq)]
enum Life {
    Plain,
    Grow,
    Empty,
}
/// The number of cells to reach before the matrix is emptied again; 0 for an ordinary history.
fn tide(cx: &mut Ctx) -> usize {
    if cx.rng.chance(1, 12) {
        let top = if !cx.dict.is_empty() && cx.rng.chance(1, 3) { cx.rng.pick(cx.dict).wrapping_add(2).clamp(2, 700) } else { cx.rng.range(2, if cfg!(miri) { 20 } else { 300 }) };
        top as usize
    } else {
        0
    }
}

fn pool(cx: &mut Ctx, tide: usize) -> Vec<u64> {
    let k = if tide > 0 { cx.rng.range(1, tide as u64 + 1) } else { cx.rng.range(1, 6) };
    let small = cx.rng.bool();
    let mut p: Vec<u64> = (0..k).map(|i| if small { i } else { gen::id(&mut cx.rng, cx.dict) }).collect();
    p.sort_unstable();
    p.dedup();
    p
}

fn adjacency(cx: &mut Ctx) -> Res {
    let top = tide(cx);
    let p = pool(cx, top);
    let len = if top > 0 { 2 * top as u64 + cx.rng.below(3 * top as u64 + 60) } else if cx.rng.chance(1, 10) { cx.rng.range(60, 500) } else { cx.rng.range(1, 40) };
    let mut life = if top > 0 { Life::Grow } else { Life::Plain };
    let mut a = CsrAdjacencyMatrix::new();
    if cx.rng.bool() {
        a = CsrAdjacencyMatrix::default();
    }
    let mut m: BTreeMap<(u64, u64), u8> = BTreeMap::new();
    let mut dim = 0u64;
    cx.nontrivial = len > 1;
    cx.say(|| format!("adjacency matrix, {} writes at {:?}", len, p));
    let wide = cx.rng.chance(1, 30);
    let every = if top > 0 { cx.rng.range(20, 80) } else { cx.rng.range(1, 10) };
    for step in 0..len {
        let (mut c, mut r) = (*cx.rng.pick(&p), *cx.rng.pick(&p));
        let mut k = cx.rng.below(8);
        if top > 0 {
            life = if life == Life::Grow && m.len() >= top { Life::Empty } else if m.is_empty() { Life::Grow } else { life };
            k = match life {
                Life::Empty => {
                    // mostly what is there, now and then what is not
                    let at = *m.range((c, r)..).next().or(m.iter().next()).unwrap().0;
                    if cx.rng.chance(19, 20) {
                        (c, r) = at;
                    }
                    4 + cx.rng.below(4)
                }
                _ => cx.rng.below(5),
            };
        }
        if wide {
            // long columns / rows
            let far = cx.rng.below(2000);
            if cx.rng.bool() { c = far } else { r = far }
        }
        cx.feed(k);
        cx.feed(c);
        cx.feed(r);
        cx.count("writes", 1);
        match k {
            0..=3 => {
                cx.say(|| format!("set 1 ({},{})", c, r));
                a.set_entry(1, c, r);
                m.insert((c, r), 1);
                dim = dim.max(c + 1).max(r + 1);
            }
            4 | 5 => {
                cx.say(|| format!("set 0 ({},{})", c, r));
                a.set_entry(0, c, r);
                m.remove(&(c, r));
                dim = dim.max(c + 1).max(r + 1);
            }
            _ => {
                // zeroing below the present dimension (whether zeroing beyond it grows the
                // matrix is nobody's promise)
                if c >= dim || r >= dim {
                    continue;
                }
                cx.say(|| format!("zero ({},{})", c, r));
                a.zero_entry(c, r);
                m.remove(&(c, r));
            }
        }
        // now and then very many writes between the same questions
        let burst = if !cfg!(miri) && top == 0 && cx.rng.chance(1, 3000) { crate::props::c01::round_trip(&mut cx.rng) } else { 0 };
        for i in 0..burst as usize {
            let (c, r) = (p[0], p[i % 3 % p.len()]);
            if m.remove(&(c, r)).is_some() {
                if i & 8 == 0 { a.zero_entry(c, r) } else { a.set_entry(0 as u8, c, r) }
            } else {
                m.insert((c, r), 1 as u8);
                a.set_entry(1, c, r);
                dim = dim.max(c + 1).max(r + 1);
            }
        }
        cx.count("writes", burst);
        if step % every != 0 && step + 1 != len && !(top > 0 && m.len() <= 2) {
            continue;
        }
        if cx.rng.chance(1, 16) {
            a = a.clone();
        }
        ensure!(a.dimension() == dim, "dimension {} after writes up to {}", a.dimension(), dim);
        ensure!(a.entry_count() == m.len() as u64, "entry_count {} but {} ones were left", a.entry_count(), m.len());
        let mut seen: Vec<(u64, u64)> = (&a).into_iter().collect();
        seen.sort_unstable();
        ensure!(seen.len() == m.len() && seen.iter().all(|x| m.contains_key(x)) && seen.windows(2).all(|w| w[0] != w[1]), "iteration lists {:.300?}, expected {:.300?}", seen, m.keys().collect::<Vec<_>>());
        if cx.rng.chance(1, 4) {
            let want = m.keys().copied().collect();
            viol(iteration(&mut cx.rng, || (&a).into_iter(), &want))?;
            cx.count("iterations driven by skips, counts, folds and past the end", 1);
        }
        let mut vs = p.clone();
        if top > 0 {
            cx.rng.shuffle(&mut vs);
            vs.truncate(12);
        }
        vs.push(dim);
        vs.push(u64::MAX);
        if wide {
            vs.push(cx.rng.below(2000));
        }
        for &x in &vs {
            for &y in &vs {
                let want = m.contains_key(&(x, y)) as u8;
                ensure!(a.get_entry(x, y) == want, "entry ({},{}) reads {} instead of {}", x, y, a.get_entry(x, y), want);
            }
            let mut cv = a.get_sparse_col_vector(x);
            cv.sort_unstable();
            let want: Vec<u64> = m.keys().filter(|k| k.0 == x).map(|k| k.1).collect();
            ensure!(cv == want, "column {} is {:.200?}, expected {:.200?}", x, cv, want);
            ensure!(a.col_nonzero_entry_count(x) == want.len() as u64, "column {} counts {}, expected {}", x, a.col_nonzero_entry_count(x), want.len());
            let mut rv = a.get_sparse_row_vector(x);
            rv.sort_unstable();
            let mut want: Vec<u64> = m.keys().filter(|k| k.1 == x).map(|k| k.0).collect();
            want.sort_unstable();
            ensure!(rv == want, "row {} is {:.200?}, expected {:.200?}", x, rv, want);
            ensure!(a.row_nonzero_entry_count(x) == want.len() as u64, "row {} counts {}, expected {}", x, a.row_nonzero_entry_count(x), want.len());
            cx.count("reads compared", vs.len() as u64 + 4);
        }
    }
    cx.count("matrices", 1);
    Ok(())
}

macro_rules! square {
    ($name:ident, $t:ty, $signed:expr, $extra:expr) => {
        fn $name(cx: &mut Ctx) -> Res {
            let top = tide(cx);
            let p = pool(cx, top);
            let len = if top > 0 { 2 * top as u64 + cx.rng.below(3 * top as u64 + 60) } else if cx.rng.chance(1, 10) { cx.rng.range(60, 400) } else { cx.rng.range(1, 40) };
            let mut life = if top > 0 { Life::Grow } else { Life::Plain };
            let mut a: CsrSquareMatrix<$t> = CsrSquareMatrix::new();
            if cx.rng.bool() {
                a = CsrSquareMatrix::default();
            }
            let mut m: BTreeMap<(u64, u64), $t> = BTreeMap::new();
            let mut dim = 0u64;
            let zero = 0 as $t;
            cx.nontrivial = len > 1;
            cx.feed(stringify!($t).len() as u64 * 7 + stringify!($t).as_bytes()[0] as u64);
            cx.say(|| format!("CsrSquareMatrix<{}>, {} writes at {:?}", stringify!($t), len, p));
            let extra: &[$t] = &$extra;
            let every = if top > 0 { cx.rng.range(20, 80) } else { cx.rng.range(1, 10) };
            for step in 0..len {
                let (mut c, mut r) = (*cx.rng.pick(&p), *cx.rng.pick(&p));
                let mut k = cx.rng.below(12);
                if top > 0 {
                    life = if life == Life::Grow && m.len() >= top { Life::Empty } else if m.is_empty() { Life::Grow } else { life };
                    k = match life {
                        Life::Empty => {
                            let at = *m.range((c, r)..).next().or(m.iter().next()).unwrap().0;
                            if cx.rng.chance(19, 20) {
                                (c, r) = at;
                            }
                            *cx.rng.pick(&[5, 6, 10, 11])
                        }
                        _ => *cx.rng.pick(&[0, 1, 2, 3, 4, 5, 7, 8]),
                    };
                }
                cx.feed(k);
                cx.feed(c);
                cx.feed(r);
                cx.count("writes", 1);
                match k {
                    0..=4 => {
                        let v: $t = match cx.rng.below(8) {
                            0 => <$t>::MAX,
                            1 => <$t>::MIN,
                            2 => zero,
                            3 => 1 as $t,
                            4 if $signed => -1i8 as $t,
                            5 => *cx.rng.pick(extra),
                            _ => cx.rng.below(100) as $t,
                        };
                        cx.say(|| format!("set {:?} ({},{})", v, c, r));
                        a.set_entry(v, c, r);
                        dim = dim.max(c + 1).max(r + 1);
                        if v == zero {
                            m.remove(&(c, r));
                        } else {
                            m.insert((c, r), v);
                        }
                    }
                    5 | 6 => {
                        cx.say(|| format!("set 0 ({},{})", c, r));
                        a.set_entry(zero, c, r);
                        dim = dim.max(c + 1).max(r + 1);
                        m.remove(&(c, r));
                    }
                    7..=9 => {
                        let old = m.get(&(c, r)).copied().unwrap_or(zero);
                        if old == <$t>::MAX {
                            continue;
                        }
                        cx.say(|| format!("increment ({},{})", c, r));
                        a.increment_entry(c, r);
                        dim = dim.max(c + 1).max(r + 1);
                        let v = old + 1 as $t;
                        if v == zero {
                            m.remove(&(c, r));
                        } else {
                            m.insert((c, r), v);
                        }
                    }
                    _ => {
                        if c >= dim || r >= dim {
                            continue;
                        }
                        cx.say(|| format!("zero ({},{})", c, r));
                        a.zero_entry(c, r);
                        m.remove(&(c, r));
                    }
                }
                // now and then very many writes between the same questions
                let burst = if !cfg!(miri) && top == 0 && cx.rng.chance(1, 3000) { crate::props::c01::round_trip(&mut cx.rng) } else { 0 };
                for i in 0..burst as usize {
                    let (c, r) = (p[0], p[i % 3 % p.len()]);
                    if m.remove(&(c, r)).is_some() {
                        if i & 8 == 0 { a.zero_entry(c, r) } else { a.set_entry(0 as $t, c, r) }
                    } else {
                        m.insert((c, r), 1 as $t);
                        if i & 4 == 0 { a.increment_entry(c, r) } else { a.set_entry(1 as $t, c, r) }
                        dim = dim.max(c + 1).max(r + 1);
                    }
                }
                cx.count("writes", burst);
                if step % every != 0 && step + 1 != len && !(top > 0 && m.len() <= 2) {
                    continue;
                }
                if cx.rng.chance(1, 16) {
                    a = a.clone();
                }
                ensure!(a.dimension() == dim, "{}: dimension {} after writes up to {}", stringify!($t), a.dimension(), dim);
                ensure!(a.entry_count() == m.len() as u64, "{}: entry_count {} but {} cells are non-zero", stringify!($t), a.entry_count(), m.len());
                let mut seen: BTreeMap<(u64, u64), $t> = BTreeMap::new();
                for (n, (v, x, y)) in (&a).into_iter().enumerate() {
                    ensure!(n <= m.len(), "{}: iteration lists more than the {} non-zero cells", stringify!($t), m.len());
                    ensure!(seen.insert((x, y), v).is_none(), "{}: iteration lists ({},{}) twice", stringify!($t), x, y);
                }
                ensure!(seen == m, "{}: iteration lists {:.300?}, expected {:.300?}", stringify!($t), seen, m);
                if cx.rng.chance(1, 4) {
                    let want = m.keys().copied().collect();
                    // (an adaptor would answer with its own defaults, so the keys are taken at the end of the chain)
                    struct Cells<I>(I);
                    impl<I: Iterator<Item = ($t, u64, u64)>> Iterator for Cells<I> {
                        type Item = (u64, u64);
                        fn next(&mut self) -> Option<(u64, u64)> { self.0.next().map(|x| (x.1, x.2)) }
                        fn nth(&mut self, n: usize) -> Option<(u64, u64)> { self.0.nth(n).map(|x| (x.1, x.2)) }
                        fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
                        fn count(self) -> usize { self.0.count() }
                        fn last(self) -> Option<(u64, u64)> { self.0.last().map(|x| (x.1, x.2)) }
                        fn fold<B, F: FnMut(B, (u64, u64)) -> B>(self, b: B, mut f: F) -> B { self.0.fold(b, |b, x| f(b, (x.1, x.2))) }
                    }
                    viol(iteration(&mut cx.rng, || Cells((&a).into_iter()), &want)).map_err(|e| crate::props::c01::note(e, || stringify!($t).to_string()))?;
                    cx.count("iterations driven by skips, counts, folds and past the end", 1);
                }
                let mut vs = p.clone();
                if top > 0 {
                    cx.rng.shuffle(&mut vs);
                    vs.truncate(24);
                }
                vs.push(dim);
                vs.push(u64::MAX);
                for &x in &vs {
                    for &y in &vs {
                        let want = m.get(&(x, y)).copied().unwrap_or(zero);
                        ensure!(a.get_entry(x, y) == want, "{}: entry ({},{}) reads {:?} instead of {:?}", stringify!($t), x, y, a.get_entry(x, y), want);
                    }
                }
                cx.count("reads compared", (vs.len() * vs.len()) as u64);
            }
            cx.count("matrices", 1);
            Ok(())
        }
    };
}
square!(ty_u8, u8, false, [127, 128, 200]);
square!(ty_u16, u16, false, [255, 256, 32768]);
square!(ty_u32, u32, false, [65535, 65536, 1 << 31]);
square!(ty_u64, u64, false, [u32::MAX as u64, 1 << 32, 1 << 63, 1 << 53]);
square!(ty_u128, u128, false, [u64::MAX as u128, 1 << 64, 1 << 127]);
square!(ty_i8, i8, true, [-2, -127, 127]);
square!(ty_i16, i16, true, [-2, -256, 256]);
square!(ty_i32, i32, true, [-2, -65536, 65536]);
square!(ty_i64, i64, true, [-2, -(1 << 32), 1 << 32]);
square!(ty_i128, i128, true, [-2, -(1 << 64), 1 << 64]);
square!(ty_f32, f32, true, [-0.0, 0.1, 0.5, -2.0, f32::MIN_POSITIVE, 1e-45, f32::INFINITY, f32::EPSILON, 1e-6]);
square!(ty_f64, f64, true, [-0.0, 0.1, 0.5, -2.0, f64::MIN_POSITIVE, 5e-324, f64::INFINITY, f64::EPSILON, 1e-12, 1e-300]);
