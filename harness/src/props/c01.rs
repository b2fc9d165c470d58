//! C01: mutation history = edge set. The model runs in lock-step; every query is compared.
use crate::ctx::{viol, Ctx, Res, Tier};
use crate::gen;
use crate::model::{iteration, observe, queries, Model};
use graphrox::{Graph, GraphRepresentation};

#[derive(Clone, Debug)]
pub enum Op {
    Add(u64, u64),
    Del(u64, u64),
    Vertex(u64, Option<Vec<u64>>),
}

pub fn apply(g: &mut Graph, op: &Op) {
    match op {
        Op::Add(a, b) => g.add_edge(*a, *b),
        Op::Del(a, b) => g.delete_edge(*a, *b),
        Op::Vertex(v, None) => g.add_vertex(*v, None),
        Op::Vertex(v, Some(l)) => g.add_vertex(*v, Some(l)),
    }
}
pub fn mirror(m: &mut Model, op: &Op) {
    match op {
        Op::Add(a, b) => m.add_edge(*a, *b),
        Op::Del(a, b) => m.delete_edge(*a, *b),
        Op::Vertex(v, None) => m.add_vertex(*v, None),
        Op::Vertex(v, Some(l)) => m.add_vertex(*v, Some(l)),
    }
}
pub fn new(und: bool) -> Graph {
    if und {
        Graph::new_undirected()
    } else {
        Graph::new_directed()
    }
}

fn check(cx: &mut Ctx, g: &Graph, m: &Model, vs: &[u64]) -> Res {
    let n = viol(queries(g, m, vs))?;
    cx.count("query answers compared", n);
    let o = viol(observe(g))?;
    if let Some(d) = o.diff(m) {
        bad!("after the history, {}", d);
    }
    cx.count("full edge-set comparisons", 1);
    if m.e.len() < 2000 && cx.rng.chance(1, 4) {
        let n = viol(iteration(&mut cx.rng, || g.into_iter(), &m.e))?;
        cx.count("iterations driven by skips, counts, folds and past the end", 1);
        cx.count("elements of driven iterations", n);
    }
    Ok(())
}

fn alphabet() -> Vec<Op> {
    let mut v = vec![];
    for a in 0..3 {
        for b in 0..3 {
            v.push(Op::Add(a, b));
            v.push(Op::Del(a, b));
        }
        v.push(Op::Vertex(a, None));
    }
    v.push(Op::Vertex(0, Some(vec![1, 2])));
    v.push(Op::Vertex(1, Some(vec![1])));
    v.push(Op::Vertex(2, Some(vec![0, 0])));
    v.push(Op::Vertex(1, Some(vec![])));
    v
}

/// A random mutation over a pool of ids.
pub fn random_op(cx: &mut Ctx, m: &Model, pool: &[u64]) -> Op {
    let r = &mut cx.rng;
    let p = |r: &mut crate::rng::Rng| *r.pick(pool);
    match r.below(16) {
        0..=6 => Op::Add(p(r), p(r)),
        7 | 8 => {
            let v = p(r);
            Op::Add(v, v)
        }
        9..=11 => {
            // delete something that is there, in either orientation
            if m.e.is_empty() {
                return Op::Del(p(r), p(r));
            }
            let at = (p(r), p(r));
            let (a, b) = *m.e.range(at..).next().or(m.e.iter().next()).unwrap();
            if r.chance(1, 4) {
                Op::Del(b, a)
            } else {
                Op::Del(a, b)
            }
        }
        12 => Op::Del(p(r), p(r)),
        13 => Op::Vertex(p(r), None),
        14 => Op::Vertex(p(r), if r.bool() { Some(vec![]) } else { None }),
        _ => {
            let k = r.below(6);
            let mut l: Vec<u64> = (0..k).map(|_| p(r)).collect();
            if r.chance(1, 3) && !l.is_empty() {
                l.push(l[0]);
            }
            let v = p(r);
            if r.chance(1, 12) {
                // a long list: a run of ids, some twice, the vertex itself, in any order
                let k = if cx.dict.is_empty() || r.bool() { r.range(6, 200) } else { r.pick(cx.dict).wrapping_add(r.below(3)).clamp(1, 1500) };
                let base = p(r).min(u64::MAX - 10_000);
                l.extend((0..k).map(|i| base + i));
                for _ in 0..r.below(4) {
                    let x = l[r.us(l.len())];
                    l.push(x);
                }
                if r.bool() {
                    l.push(v);
                }
                if r.bool() {
                    r.shuffle(&mut l);
                }
            }
            Op::Vertex(v, Some(l))
        }
    }
}

pub fn case(cx: &mut Ctx) -> Res {
    let alpha = alphabet();
    let k = alpha.len() as u64;
    if cx.idx < 2 * k * k {
        // every history of three operations (four in the thorough tier) on three vertices
        let und = cx.idx % 2 == 1;
        let (a, b) = ((cx.idx / 2 / k) as usize, (cx.idx / 2 % k) as usize);
        cx.feed(cx.idx);
        cx.nontrivial = true;
        cx.say(|| format!("all continuations of {:?}, {:?} ({})", alpha[a], alpha[b], und));
        let vs = [0, 1, 2, 3, u64::MAX - 1];
        let last: Vec<usize> = if cx.tier == Tier::Thorough { (0..alpha.len()).collect() } else { vec![usize::MAX] };
        for c in 0..alpha.len() {
            for &d in &last {
                let (mut g, mut m) = (new(und), Model::new(und));
                let mut hist = vec![&alpha[a], &alpha[b], &alpha[c]];
                if d != usize::MAX {
                    hist.push(&alpha[d]);
                }
                for op in &hist {
                    apply(&mut g, op);
                    mirror(&mut m, op);
                }
                cx.count("histories replayed", 1);
                cx.count("mutations applied", hist.len() as u64);
                check(cx, &g, &m, &vs).map_err(|e| note(e, || format!("{} {:?}", if und { "undirected" } else { "directed" }, hist)))?;
            }
        }
        return Ok(());
    }
    let und = cx.rng.bool();
    if cx.rng.chance(1, 40) {
        return match cx.rng.below(4) {
            0 => tide(cx, und),
            1 if !cfg!(miri) => marathon(cx),
            _ => hub(cx, und),
        };
    }
    // a random history; sometimes it continues a graph obtained some other way
    // a large graph may come; its history stays short
    let few = (1..97).contains(&(cx.idx.wrapping_sub(2 * k * k)));
    let (mut g, mut m) = if few || cx.rng.chance(1, 4) {
        if few && cx.rng.chance(1, 8) {
            return emptied(cx);
        }
        let (g, m) = if few && cx.rng.chance(1, 4) {
            let s = gen::big(&mut cx.rng).0;
            cx.count("large graphs", 1);
            gen::graph_of(cx, &s)?
        } else {
            gen::graph(cx)?
        };
        if m.e.len() > 400 && !few {
            cx.nontrivial = false;
            return Ok(());
        }
        (g, m)
    } else {
        (new(und), Model::new(und))
    };
    let und = m.und;
    let npool = cx.rng.range(1, 9);
    let small = cx.rng.chance(1, 3);
    let mut pool: Vec<u64> = (0..npool).map(|i| if small { i } else { gen::id(&mut cx.rng, cx.dict) }).collect();
    pool.extend(m.e.iter().take(2).map(|x| x.0));
    pool.sort_unstable();
    pool.dedup();
    let len = match cx.rng.below(10) {
        _ if m.e.len() > 400 => cx.rng.range(1, 6),
        0..=5 => cx.rng.range(1, 20),
        6..=8 => cx.rng.range(20, 120),
        _ => cx.rng.range(120, 600),
    };
    let every = if len <= 20 { 1 } else { cx.rng.range(1, 40) };
    cx.say(|| format!("history of {} on ids {:?} ({})", len, pool, if und { "undirected" } else { "directed" }));
    for step in 0..len {
        let op = random_op(cx, &m, &pool);
        let before = m.n;
        match &op {
            Op::Add(a, b) => { cx.feed(1); cx.feed(*a); cx.feed(*b) }
            Op::Del(a, b) => { cx.feed(2); cx.feed(*a); cx.feed(*b) }
            Op::Vertex(v, l) => { cx.feed(3); cx.feed(*v); for x in l.iter().flatten() { cx.feed(*x) } }
        }
        cx.say(|| format!("{:?}", op));
        apply(&mut g, &op);
        mirror(&mut m, &op);
        cx.count("mutations applied", 1);
        if let Op::Del(..) = op {
            ensure!(g.vertex_count() == before, "step {}: {:?} changed the vertex count from {} to {}", step, op, before, g.vertex_count());
        }
        if step % every == 0 || step + 1 == len {
            let mut vs = pool.clone();
            vs.push(m.n);
            vs.push(m.n.saturating_add(1));
            vs.push(u64::MAX);
            let r = cx.rng.below(m.n.max(1));
            vs.push(r);
            check(cx, &g, &m, &vs).map_err(|e| note(e, || format!("step {} ({:?})", step, op)))?;
        }
    }
    cx.count("histories replayed", 1);
    cx.nontrivial = len > 2;
    Ok(())
}

/// Very many vertices lose all their edges again.
pub fn emptied(cx: &mut Ctx) -> Res {
    if cfg!(miri) {
        return Ok(());
    }
    let d = cx.rng.range(200_000, 500_000);
    let base = if cx.rng.bool() { 0 } else { gen::id(&mut cx.rng, cx.dict).min(u64::MAX - 1_000_000) };
    let und = cx.rng.chance(1, 3);
    let keep: Vec<u64> = (0..cx.rng.below(3)).map(|_| cx.rng.below(d)).collect();
    let to = match cx.rng.below(3) {
        0 => 0,
        1 => base + d / 2,
        _ => gen::id(&mut cx.rng, cx.dict),
    };
    cx.feed(d);
    cx.feed(base);
    cx.feed(to);
    cx.nontrivial = true;
    cx.say(|| format!("{} vertices from {} (undirected {}) with one edge to {}, all deleted but {:?}", d, base, und, to, keep));
    let (mut g, mut m) = (new(und), Model::new(und));
    for k in 0..d {
        g.add_edge(base + k, to);
    }
    for k in (0..d).filter(|k| !keep.contains(k)) {
        g.delete_edge(base + k, to);
    }
    m.add_vertex(to.max(base + d - 1), None);
    for k in &keep {
        m.add_edge(base + k, to);
    }
    cx.count("mutations applied", 2 * d);
    let mut vs = vec![base, base + d - 1, base + d / 2, to];
    vs.extend(keep.iter().map(|k| base + k));
    check(cx, &g, &m, &vs)?;
    let c = g.clone();
    check(cx, &c, &m, &vs)?;
    let p = cx.rng.range(2, 100_000);
    let a = g.approximate(p, 0.0);
    ensure!(a.edge_count() as usize == m.census(p.min(m.n)).len(), "approximation of the emptied graph has {} edges", a.edge_count());
    let l = viol(observe(&g.compress(1).decompress()))?;
    if let Some(d) = l.diff(&m) {
        bad!("compressed and decompressed: {}", d);
    }
    ensure!(g.to_bytes().map(|b| b.len()).ok() == Some(26 + 16 * m.e.len()), "the emptied graph does not save");
    cx.count("graphs emptied of very many edges", 1);
    Ok(())
}

/// A graph that grows to many vertices, loses everything, and grows again.
fn tide(cx: &mut Ctx, und: bool) -> Res {
    let top = if !cx.dict.is_empty() && cx.rng.chance(1, 3) { cx.rng.pick(cx.dict).wrapping_add(2).clamp(2, 900) } else { cx.rng.range(2, if cfg!(miri) { 12 } else { 400 }) };
    let far = cx.rng.chance(1, 3);
    let pool: Vec<u64> = (0..cx.rng.range(1, top + 1)).map(|k| if far { gen::id(&mut cx.rng, cx.dict) } else { k }).collect();
    cx.say(|| format!("tides of {} edges on {} vertices (und {})", top, pool.len(), und));
    cx.feed(top);
    cx.feed(pool.len() as u64);
    cx.nontrivial = true;
    let (mut g, mut m) = (new(und), Model::new(und));
    for _ in 0..cx.rng.range(2, 4) {
        for _ in 0..top {
            let (x, y, z) = (*cx.rng.pick(&pool), *cx.rng.pick(&pool), *cx.rng.pick(&pool));
            let op = if cx.rng.chance(1, 8) { Op::Vertex(x, Some(vec![y, z])) } else { Op::Add(x, y) };
            apply(&mut g, &op);
            mirror(&mut m, &op);
        }
        let vs: Vec<u64> = (0..6).map(|_| *cx.rng.pick(&pool)).chain([m.n, 0]).collect();
        check(cx, &g, &m, &vs)?;
        let mut order: Vec<_> = m.e.iter().copied().collect();
        match cx.rng.below(3) {
            0 => order.reverse(),
            1 => {}
            _ => cx.rng.shuffle(&mut order),
        }
        // down to nothing, or nearly
        let left = if cx.rng.bool() { 0 } else { cx.rng.us(4) };
        for (k, (a, b)) in order.iter().enumerate().take(order.len().saturating_sub(left)) {
            g.delete_edge(*a, *b);
            m.delete_edge(*a, *b);
            cx.count("mutations applied", 1);
            if order.len() - k < 4 || k % 97 == 0 {
                viol(queries(&g, &m, &vs)).map_err(|e| note(e, || format!("after deleting {:?}, {} edges left", (a, b), m.e.len())))?;
            }
        }
        check(cx, &g, &m, &vs)?;
    }
    cx.count("histories replayed", 1);
    Ok(())
}

/// A number of changes after which a counter of changes may be back where it was.
pub fn round_trip(r: &mut crate::rng::Rng) -> u64 {
    let n = if cfg!(miri) { 8 } else { *r.pick(&[256u64, 256, 256, 128, 512, 1024, 4096, 32768, 65536, 65536, 131072, 131072]) };
    match r.below(4) {
        0 => n - 1,
        1 => n + r.range(1, 3),
        _ => n,
    }
}
/// The next `n` changes: a few edges added or deleted in turn, each of them a real change.
pub fn toggles(r: &mut crate::rng::Rng, m: &Model, pool: &[u64], n: u64) -> Vec<Op> {
    let k = *r.pick(&[3, 3, 5, 7, 2]);
    let mut es: Vec<(u64, u64)> = vec![];
    for _ in 0..50 {
        let e = match r.below(3) {
            0 if !m.e.is_empty() => *m.e.iter().nth(r.us(m.e.len().min(50))).unwrap(),
            _ => (*r.pick(pool), *r.pick(pool)),
        };
        if es.len() < k && !es.contains(&e) && !(m.und && es.contains(&(e.1, e.0))) {
            es.push(e);
        }
    }
    let mut there: Vec<bool> = es.iter().map(|e| m.has(e.0, e.1)).collect();
    (0..n as usize)
        .map(|i| {
            let i = i % es.len();
            there[i] = !there[i];
            if there[i] { Op::Add(es[i].0, es[i].1) } else { Op::Del(es[i].0, es[i].1) }
        })
        .collect()
}

/// The same questions with very many changes between.
fn marathon(cx: &mut Ctx) -> Res {
    let (mut g, mut m) = gen::graph(cx)?;
    if m.e.len() > 300 {
        return Ok(());
    }
    let mut pool: Vec<u64> = m.vertices();
    pool.truncate(5);
    pool.extend([0, 1, gen::id(&mut cx.rng, cx.dict)]);
    let mut vs = pool.clone();
    vs.push(m.n);
    check(cx, &g, &m, &vs)?;
    for _ in 0..cx.rng.range(1, 3) {
        let n = round_trip(&mut cx.rng);
        let ops = toggles(&mut cx.rng, &m, &pool, n);
        for op in &ops {
            apply(&mut g, op);
            mirror(&mut m, op);
        }
        cx.feed(n);
        cx.say(|| format!("asked again after {} changes like {:?}", n, &ops[..ops.len().min(3)]));
        cx.count("mutations applied", n);
        check(cx, &g, &m, &vs).map_err(|e| note(e, || format!("asked again after {} changes like {:?}", n, &ops[..ops.len().min(3)])))?;
    }
    cx.count("histories replayed", 1);
    cx.nontrivial = true;
    Ok(())
}

/// One vertex with very many neighbours, built and torn down.
fn hub(cx: &mut Ctx, und: bool) -> Res {
    let d = match cx.rng.below(if cx.tier == Tier::Thorough { 8 } else { 24 }) {
        0 => cx.rng.range(65_530, 70_000),
        1 => cx.rng.range(4_000, 9_000),
        2 | 3 if !cx.dict.is_empty() => cx.rng.pick(cx.dict).wrapping_add(2).clamp(1, 20_000),
        _ => cx.rng.range(100, 1_500),
    };
    let c = gen::id(&mut cx.rng, cx.dict);
    let base = if cx.rng.bool() { 0 } else { gen::id(&mut cx.rng, cx.dict).min(u64::MAX - 100_000) };
    let inward = cx.rng.bool();
    cx.say(|| format!("hub {} with {} neighbours from {} ({}, und {})", c, d, base, if inward { "in" } else { "out" }, und));
    cx.feed(c);
    cx.feed(d);
    cx.feed(base);
    cx.nontrivial = true;
    let (mut g, mut m) = (new(und), Model::new(und));
    // outward hubs may come as one list, or as lists that overlap
    let listed = !inward && cx.rng.bool();
    if listed {
        let mut l: Vec<u64> = (0..d).map(|k| base + k).collect();
        match cx.rng.below(4) {
            0 => l.reverse(),
            1 => cx.rng.shuffle(&mut l),
            2 => {
                for _ in 0..cx.rng.range(1, 20) {
                    let x = l[cx.rng.us(l.len())];
                    l.push(x);
                }
            }
            _ => {}
        }
        if cx.rng.chance(1, 3) {
            let at = cx.rng.us(l.len());
            l[at] = c;
        }
        let cut = cx.rng.below(l.len() as u64) as usize;
        for part in [&l[..cut], &l[cut..], &l[cut / 2..cut]] {
            if cx.rng.chance(1, 3) {
                g.add_vertex(c, None);
                m.add_vertex(c, None);
            }
            g.add_vertex(c, Some(part));
            m.add_vertex(c, Some(part));
        }
        cx.count("neighbours given in long lists", l.len() as u64);
    }
    for k in 0..if listed { 0 } else { d } {
        let (a, b) = if inward { (base + k, c) } else { (c, base + k) };
        g.add_edge(a, b);
        m.add_edge(a, b);
    }
    cx.count("mutations applied", d);
    let vs = [c, base, base + d - d.min(1), base + d, base + d / 2];
    check(cx, &g, &m, &vs)?;
    let keep = cx.rng.range(0, 3);
    for k in keep..d {
        let (a, b) = if inward { (base + k, c) } else { (c, base + k) };
        g.delete_edge(a, b);
        m.delete_edge(a, b);
    }
    check(cx, &g, &m, &vs)?;
    // repeating deletions and additions changes nothing
    for k in 0..d.min(50) {
        let (a, b) = if inward { (base + k, c) } else { (c, base + k) };
        // (one of the first may never have been added: its place in the list went to the hub)
        if k < keep {
            g.add_edge(a, b);
            m.add_edge(a, b);
        } else {
            g.delete_edge(a, b);
            m.delete_edge(a, b);
        }
    }
    check(cx, &g, &m, &vs)
}

pub fn note(e: crate::ctx::Fail, f: impl FnOnce() -> String) -> crate::ctx::Fail {
    match e {
        crate::ctx::Fail::Violation(m) => crate::ctx::Fail::Violation(format!("{}: {}", f(), m)),
        o => o,
    }
}
