//! C13: ownership discipline of the C interface, under allocators that watch.
use crate::cscript::{line, Cell, Gen, Obs, Op, Process};
use crate::ctx::{Ctx, Fail, Res};
use crate::props::c14::drive;

#[cfg(feature = "monalloc")]
fn live() -> (usize, usize) {
    (gxalloc::live_blocks(), gxalloc::live_bytes())
}
#[cfg(not(feature = "monalloc"))]
fn live() -> (usize, usize) {
    (0, 0)
}

pub fn script(cx: &mut Ctx, len: u64, tiny: bool) -> (Vec<Op>, Vec<Obs>) {
    if !tiny && cx.big() {
        cx.count("histories with large graphs", 1);
        return large(cx);
    }
    let mut g = Gen::new(cx, tiny);
    let (mut ops, mut want) = (vec![], vec![]);
    for _ in 0..len {
        let (op, o) = g.next(cx);
        cx.feed(line(&op).bytes().fold(7, |a: u64, b| a.wrapping_mul(131).wrapping_add(b as u64)));
        cx.say(|| line(&op));
        ops.push(op);
        want.push(o);
    }
    cx.nontrivial = true;
    (ops, want)
}

/// Every kind of object, list and buffer, with more than 2^16 items in it.
fn large(cx: &mut Ctx) -> (Vec<Op>, Vec<Obs>) {
    use crate::cscript::Src;
    let (s, b) = crate::gen::big(&mut cx.rng);
    let m = s.model();
    let (u, v) = *m.e.iter().nth(cx.rng.us(m.e.len())).unwrap();
    let e: Vec<(u64, u64)> = m.e.iter().copied().collect();
    let mut ops = vec![];
    if cx.rng.bool() {
        // fed through long vertex lists
        ops.push(Op::New(0, m.und));
        let mut k = 0;
        while k < e.len() {
            let c = e[k].0;
            let l: Vec<u64> = e[k..].iter().take_while(|x| x.0 == c).map(|x| x.1).collect();
            k += l.len();
            ops.push(Op::Vert(0, c, l, 0));
        }
        ops.push(Op::Vert(0, m.n - 1, vec![], 1));
    } else {
        ops.push(Op::Load(0, Src::Hex(crate::codec::write_graph(m.und, m.n, &e)), false));
    }
    ops.extend([Op::Q(0, 1, 0, 0), Op::Q(0, 2, 0, 0), Op::Q(0, 3, u, v), Op::Q(0, 4, v, 0), Op::Q(0, 5, u, 0)]);
    ops.extend([Op::Edges(1, 0, false), Op::In(2, 0, v, false), Op::Out(3, 0, u, false), Op::Bytes(4, 0, false)]);
    ops.extend([Op::Load(5, Src::Slot(4), false), Op::Q(5, 2, 0, 0), Op::Pool(6, 0, b), Op::MQ(6, 0), Op::MQ(6, 1), Op::MGet(6, u / b, v / b)]);
    ops.extend([Op::MEntries(7, 6, false), Op::MDup(8, 6), Op::MQ(8, 1), Op::Approx(9, 0, b, 0.0), Op::Q(9, 2, 0, 0), Op::Compress(10, 0, 1)]);
    ops.extend([Op::CQ(10, 3, 0, 0), Op::CQ(10, 4, u, v), Op::CQ(10, 5, u / 8, v / 8), Op::CBytes(11, 10, false), Op::CLoad(12, Src::Slot(11), false)]);
    ops.extend([Op::CDup(13, 12), Op::CQ(13, 3, 0, 0), Op::Decomp(14, 13), Op::Q(14, 2, 0, 0), Op::Edges(15, 14, false), Op::Dup(16, 14), Op::Q(16, 2, 0, 0)]);
    if m.n < 300 {
        ops.extend([Op::Text(17, 0), Op::CText(18, 10), Op::Pool(19, 0, 1), Op::MText(20, 19), Op::MTextP(21, 19, 0)]);
    }
    for s in [4, 1, 7, 0, 11] {
        ops.push(Op::Free(s));
    }
    ops.push(Op::Reread(15));
    cx.say(|| format!("large: {}", m.brief()));
    cx.feed(m.n);
    cx.feed(m.e.len() as u64);
    cx.feed(u);
    cx.feed(v);
    cx.nontrivial = true;
    let mut w = Gen::new(cx, false).w;
    let want = ops.iter().map(|o| cx.setup(|_| w.run(o))).collect();
    (ops, want)
}

pub fn case(cx: &mut Ctx) -> Res {
    let tiny = cfg!(miri);
    let len = if tiny { cx.rng.range(6, 30) } else { cx.rng.range(5, 160) };
    let (ops, _) = script(cx, len, tiny);
    let objects = ops.iter().filter(|o| !matches!(o, Op::Add(..) | Op::Del(..) | Op::Vert(..) | Op::Q(..) | Op::CQ(..) | Op::MQ(..) | Op::MGet(..) | Op::Free(_) | Op::Reread(_) | Op::FreeNulls(_))).count();
    if let Some(asan) = cx.aux.split(';').find_map(|x| x.strip_prefix("asan=")) {
        if cx.rng.chance(1, 12) {
            drive(asan, &ops)?;
            cx.count("histories run by the C program under AddressSanitizer and UBSan", 1);
            cx.count("calls made under AddressSanitizer and UBSan", ops.len() as u64);
        }
    }
    let order: Vec<u64> = (0..400).map(|_| cx.rng.u64()).collect();
    let (mut rereads, mut released) = (0, 0);
    let mut left = play(&ops, &order, &mut rereads, &mut released)?;
    if left != (0, 0) {
        // something initialised once by the first use is no leak
        left = play(&ops, &order, &mut rereads, &mut released)?;
    }
    ensure!(left == (0, 0), "after everything returned has been released, {} blocks / {} bytes remain allocated ({} objects, buffers and lists had been obtained)", left.0, left.1, objects);
    cx.count("C calls", ops.len() as u64);
    cx.count("objects, buffers and lists obtained", objects as u64);
    cx.count("released at the end in random order", released);
    cx.count("held buffers re-read", rereads);
    Ok(())
}

/// Run the history, then release what is left in random order; what remains allocated?
fn play(ops: &[Op], order: &[u64], rereads: &mut u64, released: &mut u64) -> Result<(i64, i64), Fail> {
    let mut first: Vec<Option<Obs>> = Vec::with_capacity(4096);
    first.resize(4096, None);
    let mut order = order.to_vec();
    let before = live();
    // everything obtained below must be given back by the end of this block
    let r = (|| {
        let mut p = Process::new();
        let held = |p: &Process, s: usize| matches!(p.s.get(s), Some(Cell::Bytes(..) | Cell::Text(_) | Cell::Pairs(..) | Cell::Ones(..) | Cell::Trips(..)));
        for op in ops {
            let o = unsafe { p.run(op) };
            match op {
                Op::Reread(s) if held(&p, *s) => {
                    if first[*s].as_ref() != Some(&o) {
                        return Err(Fail::Violation(format!("a returned buffer or list changed while the caller held it: was {:.200?}, is {:.200?}", first[*s], o)));
                    }
                    *rereads += 1;
                }
                Op::Text(d, _) | Op::Bytes(d, ..) | Op::Edges(d, ..) | Op::In(d, ..) | Op::Out(d, ..) | Op::CText(d, _) | Op::CBytes(d, ..) | Op::MText(d, _) | Op::MTextP(d, ..) | Op::MEntries(d, ..) => {
                    if first.len() <= *d {
                        first.resize(*d + 1, None);
                    }
                    first[*d] = Some(o);
                }
                _ => {}
            }
        }
        // what is left goes in random order, each buffer re-read first
        loop {
            let left: Vec<usize> = (0..p.s.len()).filter(|k| !matches!(p.s[*k], Cell::Empty)).collect();
            if left.is_empty() {
                break;
            }
            let k = left[(order.pop().unwrap_or(0) % left.len() as u64) as usize];
            if held(&p, k) {
                let o = unsafe { p.run(&Op::Reread(k)) };
                if first[k].as_ref() != Some(&o) {
                    return Err(Fail::Violation(format!("a returned buffer or list changed while the caller held it: was {:.200?}, is {:.200?}", first[k], o)));
                }
                *rereads += 1;
            }
            unsafe { p.run(&Op::Free(k)) };
            *released += 1;
        }
        for f in first.iter_mut() {
            *f = None;
        }
        Ok(())
    })();
    r?;
    let mut after = live();
    for _ in 0..20 {
        if after == before {
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(10));
        after = live();
    }
    Ok((after.0 as i64 - before.0 as i64, after.1 as i64 - before.1 as i64))
}
