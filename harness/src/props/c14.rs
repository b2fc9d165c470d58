//! C14: the C program's transcript equals what the Rust library answers.
use crate::cscript::{line, parse, Gen, Obs, Op};
use crate::ctx::{Ctx, Fail, Res};
use crate::props::c13::script;
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};

/// Run a history with a C program; returns what each call printed.
pub fn drive(prog: &str, ops: &[Op]) -> Result<Vec<Obs>, Fail> {
    let mut text = String::new();
    for o in ops {
        text.push_str(&line(o));
        text.push('\n');
    }
    let mut p = Command::new(prog)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .env("ASAN_OPTIONS", "allocator_may_return_null=1:max_allocation_size_mb=1024:detect_leaks=0:abort_on_error=0:exitcode=93:detect_stack_use_after_return=1:color=never")
        .env("UBSAN_OPTIONS", "halt_on_error=1:exitcode=93:print_stacktrace=0")
        .spawn()
        .map_err(|_| Fail::Skip("C program not started"))?;
    // written from another thread: a long transcript may fill the other pipe meanwhile
    let mut stdin = p.stdin.take().unwrap();
    let writer = std::thread::spawn(move || stdin.write_all(text.as_bytes()).is_ok());
    let out = p.wait_with_output().map_err(|_| Fail::Skip("C program not waited for"));
    let _ = writer.join();
    let out = out?;
    let err = String::from_utf8_lossy(&out.stderr);
    let so = String::from_utf8_lossy(&out.stdout);
    let mut lines: Vec<&str> = so.lines().collect();
    if out.status.success() && lines.last() == Some(&"end") {
        lines.pop();
        let v: Option<Vec<Obs>> = lines.iter().map(|l| parse(l)).collect();
        let v = v.expect("a line of the C program's transcript that does not parse");
        assert!(v.len() == ops.len(), "C program's transcript has the wrong number of lines");
        return Ok(v);
    }
    if err.contains("DRIVER-BUG") {
        panic!("C program: {}", err);
    }
    if out.status.signal() == Some(9) {
        return Err(Fail::Skip("C program was killed"));
    }
    let mut why: Vec<&str> = err.lines().filter(|l| l.contains("ERROR: AddressSanitizer") || l.contains("runtime error") || l.contains("DRIVER") || l.contains("panicked") || l.contains("SUMMARY")).take(4).collect();
    if why.is_empty() {
        why = err.lines().rev().take(3).collect();
    }
    let at = lines.iter().filter(|l| **l != "end").count();
    Err(Fail::Violation(format!("the C program ended with {:?} around call #{}: {}", out.status, at, why.join(" | "))))
}

/// Histories aimed at texts that are too large, and at extreme arguments.
fn extremes(cx: &mut Ctx) -> (Vec<Op>, Vec<Obs>) {
    let big = *cx.rng.pick(&[u64::MAX - 1, 1 << 63, (1 << 32) + 7, 1 << 33, (1 << 61) - 1, u64::MAX - 64, 1 << 40]);
    let bd = *cx.rng.pick(&[2u64, 3, 8, 16]);
    let p = *cx.rng.pick(&[65535usize, 65536, 100_000, 1 << 40, usize::MAX, usize::MAX - 1]);
    let l = cx.rng.range(0, 1) as u8;
    let small = cx.rng.range(1, 5);
    let ops = vec![
        Op::New(0, cx.rng.bool()),
        Op::Add(0, big, cx.rng.below(4)),
        Op::Text(1, 0),
        Op::Pool(2, 0, bd),
        Op::MText(3, 2),
        Op::MTextP(3, 2, 2),
        Op::MTextP(3, 2, 0),
        Op::MQ(2, 0),
        Op::MEntries(4, 2, false),
        Op::Compress(5, 0, l),
        Op::CText(6, 5),
        Op::CBytes(7, 5, false),
        Op::CLoad(8, crate::cscript::Src::Slot(7), false),
        Op::CQ(8, 4, big, 0),
        Op::CQ(8, 5, big / 8, 0),
        Op::CQ(8, 2, 0, 0),
        Op::Decomp(9, 8),
        Op::Edges(10, 9, false),
        Op::New(11, false),
        Op::Add(11, small, 0),
        Op::Pool(12, 11, small),
        Op::MTextP(13, 12, p),
        Op::Add(11, u64::MAX, 1),
        Op::Vert(11, u64::MAX, vec![], 1),
        Op::Q(11, 1, 0, 0),
        Op::Q(11, 2, 0, 0),
        Op::Pool(14, 0, u64::MAX),
        Op::MText(15, 14),
        Op::Approx(16, 0, big / 2, 0.0),
        Op::Edges(17, 16, false),
    ];
    let mut w = Gen::new(cx, false).w;
    let want = ops
        .iter()
        .map(|o| {
            cx.feed(line(o).len() as u64 ^ big);
            cx.say(|| line(o));
            cx.setup(|_| w.run(o))
        })
        .collect();
    cx.nontrivial = true;
    (ops, want)
}

pub fn compare(ops: &[Op], want: &[Obs], got: &[Obs]) -> Res {
    for (k, (w, g)) in want.iter().zip(got).enumerate() {
        if w != g {
            bad!("call #{} '{}' gives {:.300?} in C but the library gives {:.300?}", k, line(&ops[k]), g, w);
        }
    }
    Ok(())
}

pub fn case(cx: &mut Ctx) -> Res {
    let prog = |k: &str| cx.aux.split(';').find_map(|x| x.strip_prefix(k));
    let (plain, asan) = (prog("plain="), prog("asan="));
    let (ops, want) = if cx.rng.chance(1, 12) {
        extremes(cx)
    } else {
        let len = cx.rng.range(10, 250);
        script(cx, len, false)
    };
    let sanitized = cx.rng.chance(1, 8);
    let Some(p) = (if sanitized { asan } else { plain }) else { return Err(Fail::Skip("no C program")) };
    let got = drive(p, &ops)?;
    compare(&ops, &want, &got)?;
    cx.count(if sanitized { "histories under AddressSanitizer and UBSan" } else { "histories with the release library" }, 1);
    cx.count("calls compared with the library", ops.len() as u64);
    for o in &want {
        cx.count(
            match o {
                Obs::Null(_) => "null results compared",
                Obs::Text(_) => "texts compared",
                Obs::Bytes(_) => "byte buffers compared",
                Obs::Pairs(_) | Obs::Ones(_) | Obs::Trips(_) => "lists compared",
                Obs::Obj(false, _) => "refusals compared",
                _ => "other answers compared",
            },
            1,
        );
    }
    Ok(())
}
