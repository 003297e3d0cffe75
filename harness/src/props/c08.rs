//! C08: damage is noticed. Checksummed files never come back contradicting their checksums, truncated
//! archives never yield wrong content, a file never comes back with another length, and a version 4
//! archive whose header or tables were altered never reports all its digests as valid.
use crate::core::{Ctx, Prop};
use crate::gen::{self, Spec};
use crate::refm::{self, BEnt, RefArchive};
use mopaq::Archive;
use serde_json::json;

pub fn prop() -> Prop {
    Prop {
        id: "C08",
        quick: 10000,
        thorough: 120000,
        run,
        need: &[
            ("damaged_reads", 15000),
            ("damage_detected", 8000),
            ("checksum_entry_damage_detected", 500),
            ("sector_swaps_detected", 100),
            ("truncated_reads", 3000),
            ("v4_damaged", 2000),
            ("v4_intact", 300),
        ],
        rule: "distinct (version, layout, codec, encryption, damage kind, outcome) situations observed",
        level: "fault_enumeration",
        assumptions: &[
            "a checksum protects up to its own strength: returned data is judged against the stored Adler-32 values",
            "damage to a file's sector offset table is judged by length only (the table itself carries no checksum)",
        ],
        workers: 8,
    }
}

pub fn run(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let mut spec = gen::spec(&mut r);
    spec.bs = r.below(3) as u16;
    spec.files.truncate(6);
    if r.chance(1, 8) {
        // large sectors: units of more than 64 KiB
        spec.bs = 6 + r.below(4) as u16;
        spec.files.truncate(3);
        if let Some(f) = spec.files.first_mut() {
            let n = if r.chance(1, 2) { r.below((512usize << spec.bs) as u64) } else { r.below(300_000) };
            f.data = gen::content(&mut r, n as usize, 512 << spec.bs);
        }
    }
    spec.crc = r.chance(4, 5);
    let mode = r.below(4);
    if mode == 3 {
        spec.ver = 3;
    }
    let path = ctx.path("a.mpq");
    if !spec.build(ctx, &path) {
        return;
    }
    let bytes = std::fs::read(&path).unwrap();
    let a = match RefArchive::parse(bytes.clone(), 0) {
        Ok(a) => a,
        Err(e) => return ctx.viol("unparsable", e),
    };
    if ctx.idx % 64 == 0 {
        ctx.sample = Some(json!(spec.brief()));
    }
    match mode {
        0 | 1 => files(ctx, &mut r, &spec, &a, &bytes),
        2 => truncation(ctx, &mut r, &spec, &bytes),
        _ => v4(ctx, &mut r, &spec, &a, &bytes),
    }
}

pub struct Lay {
    sectored: bool,
    n: usize,
    crc_at: usize,
    pub data_at: usize,
    pub end: usize,
}
pub fn lay(a: &RefArchive, b: &BEnt) -> Lay {
    let pos = b.pos as usize;
    let (_, end) = a.extent(b);
    if b.flags & refm::F_SINGLE != 0 || b.flags & refm::F_COMPRESS == 0 {
        Lay { sectored: false, n: 1, crc_at: pos + b.csize as usize, data_at: pos, end: pos + b.csize as usize }
    } else {
        let n = (b.size as usize).div_ceil(a.sector());
        let crc_at = pos + 4 * (n + 1);
        let data_at = if b.flags & refm::F_CRC != 0 { crc_at + 4 * n } else { crc_at };
        Lay { sectored: true, n, crc_at, data_at, end: end as usize }
    }
}

fn files(ctx: &mut Ctx, r: &mut crate::rng::Rng, spec: &Spec, a: &RefArchive, bytes: &[u8]) {
    let model = spec.model();
    let path = ctx.path("d.mpq");
    for (name, want) in &model {
        let loc = spec.files.iter().find(|f| f.name == *name).map(|f| f.locale).unwrap_or(0);
        let Some(b) = a.find(name).iter().find(|(_, h)| h.locale == loc).and_then(|(_, h)| a.block.get(h.block as usize)).cloned() else { continue };
        if want.is_empty() {
            continue;
        }
        let l = lay(a, &b);
        let crc = b.flags & refm::F_CRC != 0 && (b.flags & refm::F_SINGLE != 0 || l.sectored);
        for _ in 0..if ctx.thorough { 14 } else { 8 } {
            let mut d = bytes.to_vec();
            let span = l.end - l.data_at;
            if span == 0 {
                continue;
            }
            let kind = *r.pick(&["flip", "flip", "byte", "random", "zero", "crc", "swap", "shift", "offsets", "last", "crczero", "csize"]);
            let mut swapped = false;
            match kind {
                "flip" => d[l.data_at + r.usize(span)] ^= 1 << r.below(8),
                "last" => d[l.end - 1] ^= 1 << r.below(8),
                "byte" => {
                    for _ in 0..r.range(1, 4) {
                        d[l.data_at + r.usize(span)] = r.u8();
                    }
                }
                "random" => {
                    let s = l.data_at + r.usize(span);
                    let n = r.range(1, 64).min(l.end - s);
                    let x = r.bytes(n);
                    d[s..s + n].copy_from_slice(&x);
                }
                "zero" => {
                    let s = l.data_at + r.usize(span);
                    let n = r.range(1, 600).min(l.end - s);
                    d[s..s + n].fill(0);
                }
                "shift" => {
                    let s = l.data_at + r.usize(span);
                    d[s..l.end].rotate_right(1);
                }
                "crczero" => {
                    // a unit damaged and its checksum cleared (or all of them)
                    if !crc {
                        continue;
                    }
                    let i = r.usize(l.n);
                    let (from, to) = if l.sectored && b.flags & refm::F_ENCRYPTED == 0 {
                        let t = |k: usize| b.pos as usize + refm::u32at(&bytes[b.pos as usize..], k * 4) as usize;
                        (t(i), t(i + 1))
                    } else {
                        (l.data_at, l.end)
                    };
                    d[from + r.usize(to - from)] ^= 1 << r.below(8);
                    let v = if r.chance(1, 4) { 0xFF } else { 0 };
                    if r.bool() {
                        d[l.crc_at..l.crc_at + 4 * l.n].fill(v);
                    } else {
                        d[l.crc_at + 4 * i..l.crc_at + 4 * i + 4].fill(v);
                    }
                }
                "csize" => {
                    // the block table says that less is stored than is
                    if spec.ver == 3 || a.bcount as usize != a.block.len() {
                        continue;
                    }
                    let Some(i) = a.block.iter().position(|x| x.pos == b.pos && x.size == b.size && x.flags == b.flags) else { continue };
                    let mut t: Vec<u32> = (0..a.bcount as usize * 4).map(|k| refm::u32at(bytes, a.bpos as usize + k * 4)).collect();
                    let key = refm::hash_string("(block table)", 3);
                    refm::crypt(&mut t, key, false);
                    let less = 1 + r.below(8) as u32;
                    t[i * 4 + 1] = t[i * 4 + 1].saturating_sub(less);
                    refm::crypt(&mut t, key, true);
                    for (k, w) in t.iter().enumerate() {
                        d[a.bpos as usize + 4 * k..a.bpos as usize + 4 * k + 4].copy_from_slice(&w.to_le_bytes());
                    }
                }
                "crc" => {
                    if !crc {
                        continue;
                    }
                    let k = r.usize(l.n * 4);
                    d[l.crc_at + k] ^= 1 << r.below(8);
                }
                "swap" => {
                    // two stored sectors of the same length change places
                    if !l.sectored || !crc || b.flags & refm::F_ENCRYPTED != 0 {
                        continue;
                    }
                    let t: Vec<usize> = (0..=l.n).map(|i| refm::u32at(&bytes[b.pos as usize..], i * 4) as usize).collect();
                    let mut pairs = vec![];
                    for i in 0..l.n {
                        for j in i + 1..l.n {
                            if t[i + 1] - t[i] == t[j + 1] - t[j] {
                                pairs.push((i, j));
                            }
                        }
                    }
                    if pairs.is_empty() {
                        continue;
                    }
                    let (i, j) = *r.pick(&pairs);
                    let p = b.pos as usize;
                    let x = d[p + t[i]..p + t[i + 1]].to_vec();
                    let y = d[p + t[j]..p + t[j + 1]].to_vec();
                    d[p + t[i]..p + t[i + 1]].copy_from_slice(&y);
                    d[p + t[j]..p + t[j + 1]].copy_from_slice(&x);
                    swapped = true;
                }
                _ => {
                    if !l.sectored {
                        continue;
                    }
                    let k = r.usize(4 * (l.n + 1));
                    d[b.pos as usize + k] ^= 1 << r.below(8);
                }
            }
            if d == bytes {
                continue;
            }
            std::fs::write(&path, &d).unwrap();
            let Some(res) = ctx.lib("Archive::open", || Archive::open(&path)) else { return };
            let mut ar = match res {
                Ok(x) => x,
                Err(e) => {
                    // Only the file's own bytes changed. A damaged special file must not block the archive either.
                    return ctx.viol("open-error", format!("damage inside {name:?} stops the archive from opening: {e} ({})", spec.brief()));
                }
            };
            let Some(res) = ctx.lib("Archive::read_file", || ar.read_file(name)) else { return };
            ctx.count("damaged_reads");
            let cls = format!("v{} sec{} crc{crc} f{:x} {kind}", spec.ver + 1, l.sectored, b.flags);
            match res {
                Err(_) => {
                    ctx.count("damage_detected");
                    if kind == "crc" {
                        ctx.count("checksum_entry_damage_detected");
                    }
                    if swapped {
                        ctx.count("sector_swaps_detected");
                    }
                    ctx.distinct(&format!("{cls} err"));
                }
                Ok(got) => {
                    ctx.distinct(&format!("{cls} {}", if got == *want { "same" } else { "other" }));
                    ctx.check(got.len() == want.len(), "length-differs", || format!("{name:?}, damage {kind}: {} bytes returned, file has {} ({})", got.len(), want.len(), spec.brief()));
                    if kind == "csize" && b.flags & refm::F_COMPRESS == 0 {
                        ctx.check(got == *want, "padded", || format!("{name:?}: the archive says that {} bytes are stored differently; read_file returned {} ({})", b.csize, crate::core::diff(&got, want), spec.brief()));
                    }
                    if crc && kind != "offsets" && kind != "csize" {
                        let unit = if l.sectored { a.sector() } else { want.len() };
                        for (i, u) in got.chunks(unit).enumerate() {
                            if i >= l.n {
                                break;
                            }
                            let stored = refm::u32at(&d, l.crc_at + i * 4);
                            ctx.check(stored == refm::adler32(u), "contradicts-checksum", || {
                                format!(
                                    "{name:?} ({} bytes, sectored {}, flags {:#x}), damage {kind}: read_file returned data for unit {i} with checksum {:08x}, the archive says {stored:08x}; content {} ({})",
                                    want.len(),
                                    l.sectored,
                                    b.flags,
                                    refm::adler32(u),
                                    if got == *want { "unchanged" } else { "CHANGED" },
                                    spec.brief()
                                )
                            });
                        }
                    }
                }
            }
            // the other files are not affected
            for (n2, w2) in &model {
                if n2 == name || !r.chance(1, 3) {
                    continue;
                }
                match ctx.lib("Archive::read_file", || ar.read_file(n2)) {
                    Some(Ok(g)) => {
                        ctx.count("undamaged_neighbours");
                        ctx.check(g == *w2, "neighbour-differs", || format!("damage inside {name:?} changed {n2:?} ({})", spec.brief()));
                    }
                    Some(Err(e)) => ctx.viol("neighbour-error", format!("damage inside {name:?} makes {n2:?} unreadable: {e} ({})", spec.brief())),
                    None => return,
                }
            }
        }
    }
}

fn truncation(ctx: &mut Ctx, r: &mut crate::rng::Rng, spec: &Spec, bytes: &[u8]) {
    let model = spec.model();
    let path = ctx.path("t.mpq");
    for _ in 0..if ctx.thorough { 16 } else { 8 } {
        let cut = match r.below(4) {
            0 => bytes.len() - 1 - r.usize(20).min(bytes.len() - 1),
            1 => r.usize(bytes.len().min(300)),
            _ => r.usize(bytes.len()),
        };
        std::fs::write(&path, &bytes[..cut]).unwrap();
        let Some(res) = ctx.lib("Archive::open", || Archive::open(&path)) else { return };
        let Ok(mut ar) = res else {
            ctx.count("truncated_reads");
            ctx.distinct(&format!("trunc v{} open-err", spec.ver + 1));
            continue;
        };
        for (n, w) in &model {
            match ctx.lib("Archive::read_file", || ar.read_file(n)) {
                Some(Ok(g)) => {
                    ctx.count("truncated_reads");
                    ctx.distinct(&format!("trunc v{} ok", spec.ver + 1));
                    ctx.check(g == *w, "truncated-wrong-content", || format!("archive cut to {cut} of {} bytes: {n:?} returned {} ({})", bytes.len(), crate::core::diff(&g, w), spec.brief()));
                }
                Some(Err(_)) => {
                    ctx.count("truncated_reads");
                    ctx.distinct(&format!("trunc v{} read-err", spec.ver + 1));
                }
                None => return,
            }
        }
    }
}

fn v4(ctx: &mut Ctx, r: &mut crate::rng::Rng, spec: &Spec, a: &RefArchive, bytes: &[u8]) {
    let path = ctx.path("m.mpq");
    let status = |ctx: &mut Ctx| -> Option<Result<[bool; 6], String>> {
        let x = ctx.lib("Archive::open", || Archive::open(&path))?;
        let mut ar = match x {
            Ok(a) => a,
            Err(e) => return Some(Err(format!("open: {e}"))),
        };
        let x = ctx.lib("Archive::get_info", || ar.get_info())?;
        Some(match x {
            Ok(i) => match i.md5_status {
                Some(s) => Ok([s.header_valid, s.hash_table_valid, s.block_table_valid, s.hi_block_table_valid, s.het_table_valid, s.bet_table_valid]),
                None => Err("no digest status".into()),
            },
            Err(e) => Err(format!("get_info: {e}")),
        })
    };
    std::fs::write(&path, bytes).unwrap();
    match status(ctx) {
        Some(Ok(s)) => {
            ctx.count("v4_intact");
            ctx.check(s.iter().all(|x| *x), "intact-reported-damaged", || format!("digests (header, hash, block, hi, het, bet): {s:?} ({})", spec.brief()));
        }
        Some(Err(e)) => return ctx.viol("intact-reported-damaged", format!("{e} ({})", spec.brief())),
        None => return,
    }
    let mut regions: Vec<(&str, u64, u64)> = vec![
        ("header", 0, 0xD0),
        ("hash table", a.hpos, a.hcount as u64 * 16),
        ("block table", a.bpos, a.bcount as u64 * 16),
        ("HET", a.hetpos, a.v4sizes[3]),
        ("BET", a.betpos, a.v4sizes[4]),
    ];
    if a.hipos != 0 {
        regions.push(("hi-block table", a.hipos, a.bcount as u64 * 2));
    }
    for _ in 0..if ctx.thorough { 40 } else { 20 } {
        let (what, p, n) = *r.pick(&regions);
        if n == 0 {
            continue;
        }
        let at = match r.below(5) {
            0 => p + n - 1,
            _ => p + r.below(n),
        } as usize;
        if at < 4 || at == 12 || at == 13 {
            continue;
        }
        let mut d = bytes.to_vec();
        d[at] ^= 1 << r.below(8);
        if r.chance(1, 4) {
            let at2 = (p + r.below(n)) as usize;
            if at2 >= 16 && at2 != at {
                d[at2] ^= 1 << r.below(8);
            }
        }
        std::fs::write(&path, &d).unwrap();
        match status(ctx) {
            Some(Ok(s)) => {
                ctx.count("v4_damaged");
                ctx.distinct(&format!("v4 {what} {} {s:?}", if what == "header" { at / 4 } else { 0 }));
                ctx.check(!s.iter().all(|x| *x), "v4-damage-unnoticed", || format!("byte {at:#x} ({what} +{:#x}) changed, every digest reported valid ({})", at as u64 - p, spec.brief()));
            }
            Some(Err(_)) => {
                ctx.count("v4_damaged");
                ctx.distinct(&format!("v4 {what} {} err", if what == "header" { at / 4 } else { 0 }));
            }
            None => return,
        }
    }
}
