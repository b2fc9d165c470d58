//! C04 (average pooling) and C05 (approximation threshold).
use crate::ctx::{viol, Ctx, Fail, Res};
use crate::gen;
use crate::model::{observe, Model};
use crate::props::c01::note;
use graphrox::matrix::MatrixRepresentation;
use graphrox::{Graph, GraphRepresentation};
use std::collections::BTreeMap;

fn source(cx: &mut Ctx) -> Result<(Graph, Model, u64), Fail> {
    let s;
    let mut b = 0;
    if cx.big() {
        (s, b) = gen::big(&mut cx.rng);
        cx.count("large graphs", 1);
    } else if cx.rng.chance(1, 2) {
        b = match cx.rng.below(5) {
            0 => cx.rng.range(2, 4),
            1 | 2 => cx.rng.range(2, 40),
            3 => cx.rng.range(2, 300),
            _ => gen::num(&mut cx.rng, cx.dict).max(2),
        };
        let marks = [b, (b as u128 * b as u128 / 2).min(3000) as u64];
        s = gen::blocky(&mut cx.rng, cx.dict, b, &marks);
    } else {
        s = gen::edges(&mut cx.rng, cx.dict);
    }
    let (g, m) = gen::graph_of(cx, &s)?;
    if b == 0 || cx.rng.chance(1, 8) {
        b = gen::blockdim(&mut cx.rng, cx.dict, m.n);
    }
    cx.feed(b);
    Ok((g, m, b))
}

fn ceil_div(n: u64, b: u64) -> u64 {
    n / b + (n % b != 0) as u64
}

/// The same variable, after it was asked: changed in place, or replaced by another graph.
pub fn changed(cx: &mut Ctx, g: &mut Graph, m: &mut Model) -> Result<bool, Fail> {
    if m.e.len() > 5000 || !cx.rng.chance(1, 3) {
        return Ok(false);
    }
    if cx.rng.chance(1, 4) {
        let mut h = g.clone();
        let mut k = m.clone();
        if cx.setup(|cx| gen::swap(cx, &mut h, &mut k)) {
            *g = h;
            *m = k;
        }
    } else {
        cx.setup(|cx| gen::swap(cx, g, m));
    }
    let o = cx.setup(|_| observe(g)).map_err(|_| Fail::Skip("unreadable"))?;
    if o.diff(m).is_some() {
        return Err(Fail::Skip("changed graph is not what it should be"));
    }
    cx.count("asked again after a change in place", 1);
    Ok(true)
}

pub fn pool(cx: &mut Ctx) -> Res {
    let (mut g, mut m, b) = source(cx)?;
    cx.say(|| format!("pool by {}", b));
    pool_check(cx, &g, &m, b)?;
    while changed(cx, &mut g, &mut m)? {
        cx.say(|| format!("pool by {} again", b));
        pool_check(cx, &g, &m, b).map_err(|e| note(e, || "asked again after a change in place".into()))?;
    }
    Ok(())
}

/// What the library's pooling says, against counting.
pub fn pool_check(cx: &mut Ctx, g: &Graph, m: &Model, b: u64) -> Res {
    let p = g.find_avg_pool_matrix(b);
    if m.n == 0 {
        ensure!(p.dimension() == 0 && p.entry_count() == 0, "pooling an empty graph gives dimension {}", p.dimension());
        return Ok(());
    }
    let b = b.clamp(1, m.n);
    let dim = ceil_div(m.n, b);
    ensure!(p.dimension() == dim, "pooled dimension {} but ceil({}/{}) = {}", p.dimension(), m.n, b, dim);
    let census = m.census(b);
    ensure!(p.entry_count() == census.len() as u64, "pooled matrix counts {} blocks, {} contain an edge", p.entry_count(), census.len());
    let area = b as f64 * b as f64;
    let mut seen = 0;
    for (k, (v, c, r)) in (&p).into_iter().enumerate() {
        ensure!(k < census.len(), "pooled matrix lists more than the {} blocks that contain an edge", census.len());
        let Some(ones) = census.get(&(c, r)) else { bad!("pooled matrix stores empty block ({},{}) = {:e}", c, r, v) };
        let want = *ones as f64 / area;
        ensure!((v - want).abs() <= want * 1e-14, "block ({},{}) of side {} holds {} ones: pooled {:e}, exact {:e}", c, r, b, ones, v, want);
        ensure!(v > 0.0 && v <= 1.0, "block ({},{}) pooled to {:e}, outside (0,1]", c, r, v);
        ensure!(p.get_entry(c, r) == v, "entry ({},{}) reads {:e} but iterates as {:e}", c, r, p.get_entry(c, r), v);
        seen += 1;
    }
    ensure!(seen == census.len(), "pooled matrix lists {} blocks, {} contain an edge", seen, census.len());
    // blocks that hold nothing, around those that do
    for (c, r) in census.keys().take(50) {
        for (x, y) in [(*r, *c), (c.wrapping_add(1), *r), (*c, r.wrapping_add(1)), (c.wrapping_sub(1), *r), (dim - 1, dim - 1), (dim, 0), (0, dim)] {
            if !census.contains_key(&(x, y)) {
                ensure!(p.get_entry(x, y) == 0.0, "empty block ({},{}) pooled to {:e}", x, y, p.get_entry(x, y));
            }
        }
    }
    cx.count("pooled blocks compared", seen as u64);
    cx.count("poolings", 1);
    Ok(())
}

pub fn next_up(x: f64) -> f64 {
    f64::from_bits(x.to_bits() + 1)
}
pub fn next_down(x: f64) -> f64 {
    f64::from_bits(x.to_bits() - 1)
}

pub fn approx(cx: &mut Ctx) -> Res {
    let (mut g, mut m, b) = source(cx)?;
    let eb = b.clamp(1, m.n.max(1));
    let census = m.census(eb);
    let area = eb as f64 * eb as f64;
    let exact = (eb as u128 * eb as u128) < 1 << 53;
    // thresholds of interest: at, just above and just below actual averages
    let counts: Vec<u64> = census.values().copied().collect();
    let mut asked = vec![];
    for _ in 0..cx.rng.range(1, 4) {
        let avg = if counts.is_empty() || cx.rng.chance(1, 6) { cx.rng.below(eb.saturating_mul(eb).max(1)) as f64 / area } else { *cx.rng.pick(&counts) as f64 / area };
        let t = match cx.rng.below(16) {
            0..=3 => avg,
            4 | 5 => next_up(avg),
            6 | 7 if avg > 0.0 => next_down(avg),
            8 => *cx.rng.pick(&[1.0, 1.0, next_down(1.0), next_up(1.0), 2.0, 1e300, f64::INFINITY]),
            9 => *cx.rng.pick(&[0.0, -0.0, -1.0, f64::NEG_INFINITY, 5e-324, 1e-300, 1e-19, 0.9e-18, 1e-18, 1.1e-18, 1e-17, -1e-19]),
            10 => avg * 2.0,
            11 => avg / 2.0,
            12 => *cx.rng.pick(&[0.5, 0.25, 0.75, 0.1, 0.3, 1.0 / 3.0, 0.9]),
            _ => cx.rng.unit(),
        };
        one(cx, &g, &m, b, t, &census, exact)?;
        asked.push(t);
    }
    while changed(cx, &mut g, &mut m)? {
        let census = m.census(eb);
        for t in &asked {
            one(cx, &g, &m, b, *t, &census, exact).map_err(|e| note(e, || "asked again after a change in place".into()))?;
        }
    }
    Ok(())
}

/// What the library's approximation says, against counting.
pub fn one(cx: &mut Ctx, g: &Graph, m: &Model, b: u64, t: f64, census: &BTreeMap<(u64, u64), u64>, exact: bool) -> Res {
    cx.say(|| format!("approximate({}, {:e})", b, t));
    cx.feed(t.to_bits());
    let a = g.approximate(b, t);
    cx.count("approximations", 1);
    let o = viol(observe(&a))?;
    if b <= 1 || m.n <= 1 {
        if let Some(d) = o.diff(m) {
            bad!("approximate({}, {:e}) must give back an equal copy: {}", b, t, d);
        }
        ensure!(a.edge_count() == m.e.len() as u64, "copy counts {} edges instead of {}", a.edge_count(), m.e.len());
        return Ok(());
    }
    let b = b.min(m.n);
    let area = b as f64 * b as f64;
    ensure!(o.und == m.und, "approximation changed the direction flag");
    ensure!(o.n == ceil_div(m.n, b), "approximation has {} vertices but ceil({}/{}) = {}", o.n, m.n, b, ceil_div(m.n, b));
    let t = if t < 1e-18 { 1e-18 } else if t > 1.0 { 1.0 } else { t };
    let mut vague = 0;
    let mut listed = 0;
    for ((c, r), ones) in census {
        let avg = *ones as f64 / area;
        let has = o.has(*c, *r);
        listed += has as u64;
        let full = *ones as u128 == b as u128 * b as u128;
        let want = if full {
            true
        } else if exact {
            // area is exact, so avg is the correctly rounded average: comparing it with t is
            // exact unless t is that very rounding, which counts as reaching it.
            avg >= t
        } else if (avg - t).abs() <= 8.0 * f64::EPSILON * avg {
            vague += 1;
            continue;
        } else {
            avg >= t
        };
        ensure!(has == want, "block ({},{}) of side {} holds {} ones (average {:e}), threshold {:e}: edge {}", c, r, b, ones, avg, t, if has { "kept" } else { "missing" });
        cx.count("blocks judged", 1);
    }
    if let Some(x) = o.e.iter().find(|x| !census.contains_key(x)) {
        bad!("approximation has edge {:?} for an empty block", x);
    }
    ensure!(a.edge_count() == listed, "approximation counts {} edges but lists {}", a.edge_count(), listed);
    cx.count("blocks too close to call", vague);
    Ok(())
}
