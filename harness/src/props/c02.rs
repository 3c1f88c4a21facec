//! Work and memory grow no faster than the text.
use super::PropDef;
use crate::{
    alloc,
    ctx::Ctx,
    generate::soup,
    rng::Rng,
};

pub const DEF: PropDef = PropDef {
    id: "C02",
    quick: 4_000,
    thorough: 60_000,
    run,
    needs: &["text length quadrupled", "nesting depth doubled", "long texts"],
    rule: "Each case parses a text of about 3 KB made of a repeated fragment and the same text four times as long, or a text of 6 KB and one eight times as long, or constructs nested d deep and 2d deep, and compares allocations, bytes allocated, peak memory, memory held (all counted by the monitor's allocator) and CPU time. Non-trivial: a fragment of more than one character; distinct by fragment.",
};

fn cpu() -> f64 {
    #[repr(C)]
    struct T(i64, i64);
    unsafe extern "C" {
        fn clock_gettime(k: i32, t: *mut T) -> i32;
    }
    let mut t = T(0, 0);
    unsafe { clock_gettime(3, &mut t) };
    t.0 as f64 + t.1 as f64 * 1e-9
}

struct Cost {
    allocs: u64,
    bytes: u64,
    peak: usize,
    held: usize,
    cpu: f64,
}

fn cost(s: &str) -> Cost {
    let l0 = alloc::live();
    alloc::reset_peak();
    let (a0, b0) = alloc::clock();
    let c0 = cpu();
    let d = asciidoc_parser::Parser::default().parse(s);
    let c1 = cpu();
    let (a1, b1) = alloc::clock();
    let r = Cost { allocs: a1 - a0, bytes: b1 - b0, peak: alloc::peak().saturating_sub(l0), held: alloc::live().saturating_sub(l0), cpu: c1 - c0 };
    drop(d);
    r
}

fn fragment(r: &mut Rng) -> String {
    match r.below(7) {
        5 | 6 => soup::marks(r),
        0 => soup::soup(r),
        1 => soup::INLINE[r.below(soup::INLINE.len())].to_string(),
        2 => format!("{}\n", soup::LINES[r.below(soup::LINES.len())]),
        3 => format!("{}\n\n", soup::LINES[r.below(soup::LINES.len())]),
        _ => {
            let mut s = String::new();
            for _ in 0..r.range(1, 4) {
                s.push_str(r.pick(soup::INLINE));
            }
            if r.bool() {
                s.push(' ');
            }
            s
        }
    }
}

/// Seconds of CPU time that 48 KB may always take.
const LONG: f64 = 1.0;

/// Constructs nested `depth` deep; each level holds some text.
fn nested(r: &mut Rng, depth: usize, kind: usize, fill: &str, closed: bool) -> String {
    let mut s = String::new();
    let mut close: Vec<String> = vec![];
    for i in 0..depth {
        let ch = ["=", "*", "_"][i % 3];
        let d = ch.repeat(4 + i / 3);
        match kind {
            0 => {
                s.push_str(&format!("{fill}\n{d}\n"));
                close.push(format!("{d}\n"));
            }
            1 => {
                s.push_str(&format!(".T {fill}\n[#i{i}.r]\n{d}\n"));
                close.push(format!("{d}\n\n{fill}\n\n"));
            }
            2 => {
                let q = ["*", "_", "`", "#"][i % 4];
                s.push_str(&format!("{q}a {fill} "));
                close.push(format!(" b{q}"));
            }
            3 => {
                let (a, b) = [("[", "]"), ("https://x.y[", "]"), ("link:a[", "]"), ("**", "**"), ("\"`", "`\""), ("<<", ">>"), ("pass:q[", "]"), ("image:a[", "]")][i % 8];
                s.push_str(&format!("{a}{fill}"));
                close.push(b.into());
            }
            4 => {
                s.push_str(&format!("{} S{i}\n\n{fill}\n\n", "=".repeat(2 + i % 5)));
                close.push(String::new());
            }
            _ => {
                s.push_str(&format!(":a{}: {{a{}}} {fill}\n", i + 1, i));
                close.push(format!("\n{{a{i}}}\n"));
            }
        }
    }
    if closed {
        while let Some(c) = close.pop() {
            s.push_str(&c);
        }
    }
    if kind == 5 {
        s.push('\n');
    }
    let _ = r;
    s
}

fn decide(ctx: &mut Ctx, what: &str, a: &str, b: &str, work: f64, mem: f64, cpu_limit: f64) {
    let _ = cost(b);
    let x = cost(a);
    let y = cost(b);
    ctx.eval();
    for (n, p, q, floor, lim) in [
        ("allocations", x.allocs as f64, y.allocs as f64, 100.0, work),
        ("bytes allocated", x.bytes as f64, y.bytes as f64, 40_000.0, work),
        ("peak memory", x.peak as f64, y.peak as f64, 40_000.0, mem),
        ("memory held by the document", x.held as f64, y.held as f64, 40_000.0, mem),
    ] {
        let ratio = q / p.max(floor);
        ctx.count(&format!("{what}: {n} grew {}x", if ratio <= 4.5 { "at most 4.5" } else if ratio <= 9.0 { "4.5 to 9" } else { "more than 9" }));
        if ratio > lim {
            ctx.fail(format!("{what}: {n} grows too fast"), format!("{} -> {} bytes of text: {p} -> {q} ({ratio:.1} times)", a.len(), b.len()));
        }
    }
    if y.cpu > 0.3 && y.cpu / x.cpu.max(0.002) > cpu_limit {
        // Timing is noisy: believe only the best of several.
        let p = (0..3).map(|_| cost(a).cpu).fold(x.cpu, f64::max);
        let q = (0..3).map(|_| cost(b).cpu).fold(y.cpu, f64::min);
        if q > 0.3 && q / p.max(0.002) > cpu_limit {
            ctx.fail(format!("{what}: CPU time grows too fast"), format!("{} -> {} bytes of text: {p:.4} s -> {q:.4} s", a.len(), b.len()));
        }
    }
}

fn run(ctx: &mut Ctx) {
    if ctx.idx % 4 == 3 {
        let kind = ctx.rng.below(6);
        let fill = if ctx.rng.bool() { "x".to_string() } else { ctx.rng.pick(soup::INLINE).replace(['\n', '\r'], " ") };
        let closed = !ctx.rng.one_in(3);
        let d = if kind < 2 { ctx.rng.range(8, 14) } else { ctx.rng.range(12, 40) };
        let a = nested(&mut ctx.rng, d, kind, &fill, closed);
        let b = nested(&mut ctx.rng, 2 * d, kind, &fill, closed);
        ctx.input(&b);
        ctx.count("nesting depth doubled");
        decide(ctx, "twice the nesting", &a, &b, 12.0, 12.0, 60.0);
        ctx.distinct(&b);
        return;
    }
    let f = fragment(&mut ctx.rng);
    let prefix = if ctx.rng.bool() { fragment(&mut ctx.rng) } else { String::new() };
    let suffix = if ctx.rng.bool() { fragment(&mut ctx.rng) } else { String::new() };
    let unit = f.len().max(1);
    let n = (3000 / unit).max(4);
    let mk = |k: usize| format!("{prefix}{}{suffix}", f.repeat(k));
    if ctx.idx % 4 == 1 {
        // Long texts show what is cheap but repeated for everything that follows.
        let (a, b) = (mk(2 * n), mk(16 * n));
        ctx.input(&format!("{prefix:?} {f:?} x {} {suffix:?}", 16 * n));
        ctx.count("long texts");
        let _ = cost(&a);
        ctx.eval();
        let y = cost(&b).cpu;
        ctx.count(&format!("long text: {} s of CPU time", if y < 0.1 { "at most 0.1" } else if y < LONG { "at most 1" } else { "more than 1" }));
        if y > LONG {
            let x = (0..3).map(|_| cost(&a).cpu).fold(0.0, f64::max);
            let y = (0..2).map(|_| cost(&b).cpu).fold(y, f64::min);
            if y > LONG && y / x.max(0.002) > 24.0 {
                ctx.fail("eight times the text: CPU time grows too fast", format!("{} -> {} bytes of text: {x:.4} s -> {y:.4} s", a.len(), b.len()));
            }
        }
        if f.trim().len() > 1 {
            ctx.distinct(&f);
        }
        return;
    }
    let (a, b) = (mk(n), mk(4 * n));
    ctx.input(&format!("{prefix:?} {f:?} x {} {suffix:?}", 4 * n));
    ctx.count("text length quadrupled");
    decide(ctx, "four times the text", &a, &b, 12.0, 9.0, 60.0);
    if f.trim().len() > 1 {
        ctx.distinct(&f);
        ctx.sample(&mk(2));
    }
}
