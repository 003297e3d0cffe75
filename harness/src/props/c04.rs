//! C04: codecs return what went in, and never expand it.
use crate::core::{diff, Ctx, Prop};
use crate::gen;
use crate::refm;
use mopaq::{compress, decompress};
use serde_json::json;

const MONO: u8 = 0x40;
const STEREO: u8 = 0x80;

pub fn prop() -> Prop {
    Prop {
        id: "C04",
        quick: 20000,
        thorough: 300000,
        run,
        need: &[("roundtrips", 20000), ("actually_compressed", 5000), ("stored_instead", 2000), ("adpcm_chains", 300), ("adpcm_foreign", 300), ("adpcm_samples", 10000), ("foreign_streams", 3000)],
        rule: "distinct (method, content kind, size class, compressed or stored) situations round-tripped",
        level: "exploration",
        assumptions: &["Huffman is a stub in this code base and is not claimed", "ADPCM is lossy: judged by length, by agreement with a reference decoder and between its combinations, and by the distance its quantisation allows"],
        workers: 8,
    }
}

pub fn run(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    for _ in 0..6 {
        let kind = r.below(14);
        let n = match r.below(12) {
            0 => r.usize(8),
            1 => r.range(120, 140),
            2 => r.range(250, 260),
            3 => r.range(508, 516),
            4 => r.range(4090, 4100),
            5 => r.range(8185, 8200),
            6 => r.usize(20000),
            7 => r.usize(if ctx.thorough { 300_000 } else { 70_000 }),
            8 => r.range(381, 390),
            9 => r.usize(64),
            _ => r.usize(3000),
        };
        let d = gen::content_kind(&mut r, kind, n, 512);
        let m = *r.pick(&gen::LOSSLESS);
        one(ctx, m, kind, &d);
        if m != 0 && !d.is_empty() && !(m == refm::PKWARE && d.len() > 2000) && d.len() < 40000 {
            // a stream of another encoder for the same method
            let s = refm::comp(m, &d);
            if m == refm::PKWARE && s.len() <= 4 {
                continue; // the format has no streams this short
            }
            ctx.count("foreign_streams");
            match ctx.lib("decompress", || decompress(&s, m, d.len())) {
                Some(Ok(o)) => {
                    ctx.check(o == d, "foreign-stream-differs", || format!("method {m:#x}, kind {kind}, {} bytes: {}", d.len(), diff(&o, &d)));
                }
                Some(Err(e)) => ctx.viol("foreign-stream-error", format!("method {m:#x}, kind {kind}, {} bytes: {e}", d.len())),
                None => {}
            }
        }
    }
    if ctx.idx % 251 == 50 {
        // megabytes
        let m = *r.pick(&[refm::ZLIB, refm::BZIP2, refm::LZMA, refm::SPARSE]);
        let kind = *r.pick(&[0u64, 2, 3, 5, 6, 12, 13]);
        let n = r.range(1 << 20, 9 << 20);
        let d = gen::content_kind(&mut r, kind, n, 1 << 16);
        ctx.count("megabytes");
        one(ctx, m, kind, &d);
    }
    if r.chance(1, 2) {
        adpcm(ctx);
        adpcm_foreign(ctx);
    }
}

fn one(ctx: &mut Ctx, m: u8, kind: u64, d: &[u8]) {
    let Some(c) = ctx.lib("compress", || compress(d, m)) else { return };
    let c = match c {
        Ok(c) => c,
        Err(e) => {
            if d.is_empty() {
                return;
            }
            return ctx.viol("compress-error", format!("method {m:#x}, kind {kind}, {} bytes: {e}", d.len()));
        }
    };
    ctx.count("roundtrips");
    ctx.check(c.len() <= d.len(), "expands", || format!("method {m:#x}, kind {kind}: {} bytes became {}", d.len(), c.len()));
    let n = d.len();
    let cls = if n < 16 { 0 } else { n.next_power_of_two().trailing_zeros() };
    if c.len() == d.len() {
        ctx.count("stored_instead");
        ctx.distinct(&format!("m{m:x} k{kind} s{cls} stored"));
        ctx.check(c == d, "same-length-not-stored", || format!("method {m:#x}, kind {kind}, {n} bytes: as long as its input but not the input ({})", diff(&c, d)));
        return;
    }
    if c.is_empty() {
        return;
    }
    ctx.count("actually_compressed");
    ctx.distinct(&format!("m{m:x} k{kind} s{cls} comp"));
    ctx.check(c[0] == m, "method-byte", || format!("method {m:#x}: first byte {:#x}", c[0]));
    match ctx.lib("decompress", || decompress(&c[1..], c[0], d.len())) {
        Some(Ok(o)) => {
            ctx.check(o == d, "roundtrip-differs", || format!("method {m:#x}, kind {kind}, {n} bytes: {}", diff(&o, d)));
        }
        Some(Err(e)) => ctx.viol("roundtrip-error", format!("method {m:#x}, kind {kind}, {n} bytes: {e}")),
        None => {}
    }
    // what another decoder makes of it
    if m != refm::PKWARE {
        match refm::decomp(m, &c[1..], d.len()) {
            Ok(o) => {
                ctx.check(o == d, "not-standard", || format!("method {m:#x}, kind {kind}, {n} bytes: a reference decoder reads {}", diff(&o, d)));
            }
            Err(e) => ctx.viol("not-standard", format!("method {m:#x}, kind {kind}, {n} bytes: a reference decoder fails: {e}")),
        }
    }
    if ctx.idx % 256 == 0 {
        ctx.sample = Some(json!({"method": m, "kind": kind, "in": n, "out": c.len()}));
    }
}

/// ADPCM alone and in front of a lossless codec decode to the same samples; lengths are kept; the
/// decoded signal stays near the input for smooth input.
fn adpcm(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let ch = if r.bool() { MONO } else { STEREO };
    let step = if ch == MONO { 2 } else { 4 };
    let n = r.range(40, 2200) * step;
    let kind = *r.pick(&[0u64, 1, 3, 11, 11, 20, 20, 20]);
    let d = if kind == 20 {
        // stretches of silence, of small and of large amplitude, with jumps between them
        let mut v: Vec<u8> = vec![];
        while v.len() < n {
            let (len, amp, base) = (r.range(1, 300), *r.pick(&[0usize, 0, 1, 3, 40, 900, 9000, 32767]), *r.pick(&[0i64, 0, 0, 5, -5, 3000, -20000]));
            let style = r.below(3);
            for i in 0..len {
                let x = match style {
                    0 => r.range(0, 2 * amp) as i64 - amp as i64,
                    1 => (amp as f64 * (i as f64 * 0.11).sin()) as i64,
                    _ => amp as i64 * if i % 2 == 0 { 1 } else { -1 },
                };
                v.extend_from_slice(&((base + x).clamp(-32768, 32767) as i16).to_le_bytes());
            }
        }
        v.truncate(n);
        v
    } else if kind == 11 {
        let amp = r.range(10, 12000) as f64;
        let f = r.range(20, 400) as f64 / 10000.0;
        (0..n / 2).flat_map(|i| ((amp * (i as f64 * f).sin()) as i16).to_le_bytes()).collect::<Vec<u8>>()
    } else {
        gen::content_kind(&mut r, kind, n, 512)
    };
    let Some(Ok(a)) = ctx.lib("compress", || compress(&d, ch)) else { return ctx.viol("adpcm-error", format!("compress of {n} bytes of samples failed")) };
    if a.len() >= d.len() {
        ctx.check(a == d, "same-length-not-stored", || format!("ADPCM {ch:#x} of {n} bytes"));
        return;
    }
    ctx.check(a[0] == ch, "method-byte", || format!("{:#x}", a[0]));
    let base = match ctx.lib("decompress", || decompress(&a[1..], ch, n)) {
        Some(Ok(b)) => b,
        Some(Err(e)) => return ctx.viol("adpcm-error", format!("decompress of {n} bytes of samples: {e}")),
        None => return,
    };
    ctx.check(base.len() == n, "adpcm-length", || format!("ADPCM {ch:#x}: {n} bytes became {}", base.len()));
    // what another decoder makes of it, and how far from the input it ends up
    match refm::adpcm_decode(&a[1..], step / 2, n) {
        Some((o, used)) => {
            ctx.check(o == base, "adpcm-not-standard", || format!("ADPCM {ch:#x} of {n} bytes: a reference decoder reads {}", diff(&o, &base)));
            let far = d.chunks(2).zip(base.chunks(2)).zip(&used).position(|((x, y), s)| {
                let (x, y) = (i16::from_le_bytes([x[0], x[1]]) as i32, i16::from_le_bytes([y[0], y[1]]) as i32);
                (x - y).abs() > s / 8 + 4
            });
            ctx.add("adpcm_samples", used.len() as u64);
            ctx.check(far.is_none(), "adpcm-far-off", || format!("ADPCM {ch:#x} of {n} bytes, kind {kind}: sample {} is further from its input than a quantisation step allows", far.unwrap()));
        }
        None => ctx.viol("adpcm-not-standard", format!("ADPCM {ch:#x} of {n} bytes: a reference decoder fails")),
    }
    for m in [refm::ZLIB, refm::BZIP2, refm::SPARSE, refm::PKWARE] {
        let Some(res) = ctx.lib("compress", || compress(&d, ch | m)) else { return };
        let c = match res {
            Ok(c) => c,
            Err(_) if m == refm::PKWARE => continue, // refuses long units
            Err(e) => return ctx.viol("adpcm-chain-error", format!("compress {:#x}: {e}", ch | m)),
        };
        if c.len() >= d.len() {
            ctx.check(c == d, "same-length-not-stored", || format!("method {:#x} of {n} bytes", ch | m));
            continue;
        }
        ctx.count("adpcm_chains");
        ctx.distinct(&format!("adpcm {:x} k{kind}", ch | m));
        match ctx.lib("decompress", || decompress(&c[1..], c[0], n)) {
            Some(Ok(o)) => {
                ctx.check(o == base, "adpcm-chain-differs", || format!("method {:#x} of {n} bytes differs from ADPCM alone: {}", ch | m, diff(&o, &base)));
            }
            Some(Err(e)) => ctx.viol("adpcm-chain-error", format!("decompress {:#x} of {n} bytes: {e}", ch | m)),
            None => {}
        }
    }
}

/// ADPCM streams of other encoders (any compression level, any sequence of codes), alone and behind a lossless codec
fn adpcm_foreign(ctx: &mut Ctx) {
    let mut r = crate::rng::Rng::new(ctx.rng.clone().next() ^ 77);
    let ch = if r.bool() { MONO } else { STEREO };
    let channels = if ch == MONO { 1 } else { 2 };
    let mut s = vec![0, r.below(9) as u8];
    for _ in 0..channels {
        s.extend_from_slice(&(r.next() as i16).to_le_bytes());
    }
    let style = r.below(4);
    let mut samples = channels;
    let target = channels * r.range(2, 1500);
    while samples < target {
        let c = match (style, r.below(8)) {
            (0, _) => r.next() as u8,
            (1, 0) | (2, 0..=3) => 0x80,
            (1, 1) | (3, 0..=2) => 0x81,
            _ => r.next() as u8 & 0x7F,
        };
        s.push(c);
        if c != 0x81 {
            samples += 1;
        }
    }
    let n = samples * 2;
    let Some((want, _)) = refm::adpcm_decode(&s, channels, n) else { return };
    if want.len() != n {
        return;
    }
    ctx.count("adpcm_foreign");
    for m in [0, refm::ZLIB, refm::BZIP2, refm::SPARSE, refm::PKWARE] {
        if m == refm::PKWARE && s.len() > 2000 {
            continue;
        }
        let c = if m == 0 { s.clone() } else { refm::comp(m, &s) };
        match ctx.lib("decompress", || decompress(&c, ch | m, n)) {
            Some(Ok(o)) => {
                ctx.check(o == want, "adpcm-foreign-differs", || format!("method {:#x}, {n} bytes, level {}: {}", ch | m, s[1], diff(&o, &want)));
            }
            Some(Err(e)) => ctx.viol("adpcm-foreign-error", format!("method {:#x}, {n} bytes, level {}: {e}", ch | m, s[1])),
            None => {}
        }
    }
}
