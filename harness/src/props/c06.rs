//! C06: what the builder writes is the documented format, judged by an independent reader.
use crate::core::{diff, Ctx, Prop};
use crate::gen::{self, Lf};
use crate::refm::{self, RefArchive};
use serde_json::json;

pub fn prop() -> Prop {
    Prop {
        id: "C06",
        quick: 20000,
        thorough: 300000,
        run,
        need: &[("files_decoded", 6000), ("het_entries", 2000), ("md5_checked", 1500), ("encrypted_files", 1500)],
        rule: "distinct (version, sector size, codec, encryption, checksum, size class, tail bytes) classes decoded by the reference reader",
        level: "exploration",
        assumptions: &["the reference reader follows docs/mopaq-format.md and the layout notes in this crate"],
        workers: 8,
    }
}

pub fn run(ctx: &mut Ctx) {
    if ctx.idx < 600 && ctx.idx % 200 == 77 {
        // (all of these are cases of one worker: no two run at once)
        if let Some((spec, path, huge)) = gen::build_4g(ctx, 1 + (ctx.idx / 200) as usize % 3) {
            verify(ctx, &spec, &path, huge);
        }
        return;
    }
    let mut r = ctx.rng.clone();
    let mut spec = gen::spec(&mut r);
    let giant = match ctx.idx % 2000 {
        501 | 1501 => Some(1),
        x if x % 500 == 3 => Some(2),
        x if x % 100 == 7 => Some(0),
        x if x % 500 == 11 => Some(3),
        1002 => Some(4),
        _ => None,
    };
    if let Some(k) = giant {
        spec = gen::giant(&mut r, k);
        ctx.count(["sectors_above_255", "sectors_above_65535", "megabyte_sectors", "thousands_of_files", "files_above_65535"][k as usize]);
    }
    if giant.is_none() && r.chance(1, 12) {
        let mut seen = spec.files.iter().map(|f| refm::canon(&f.name)).collect();
        for i in 0..r.range(100, 500) {
            gen::push_unique(&mut spec.files, &mut seen, gen::GFile { name: format!("bulk\\{i:05}.bin"), data: vec![i as u8; i % 50], comp: Some(0), enc: i % 7 == 0, fix: false, locale: 0, via_path: false });
        }
    }
    let path = ctx.path("a.mpq");
    if !spec.build(ctx, &path) {
        return;
    }
    verify(ctx, &spec, &path, 0);
}

/// Judge the archive at `path`; with `huge`, two files of so many bytes precede those of the spec.
fn verify(ctx: &mut Ctx, spec: &gen::Spec, path: &std::path::Path, huge: u64) {
    let brief = spec.brief();
    let bytes = std::fs::read(path).unwrap();
    let _ = std::fs::remove_file(path);
    let flen = bytes.len() as u64;
    let a = match RefArchive::parse(bytes, 0) {
        Ok(a) => a,
        Err(e) => return ctx.viol("unparsable", format!("reference reader: {e} ({brief})")),
    };
    // ---- header
    ctx.check(a.version as usize == spec.ver, "header-version", || format!("{} ({brief})", a.version));
    ctx.check(a.header_size == refm::HEADER_SIZES[spec.ver], "header-size", || format!("header size field {:#x} ({brief})", a.header_size));
    ctx.check(a.shift == spec.bs, "header-sector", || format!("sector size shift {} ({brief})", a.shift));
    ctx.check(a.archive_size32 as u64 == flen.min(u32::MAX as u64), "header-archive-size", || format!("archive size {} but the file has {flen} bytes ({brief})", a.archive_size32));
    if spec.ver >= 2 {
        ctx.check(a.size64 == flen, "header-archive-size", || format!("64-bit archive size {} but the file has {flen} bytes", a.size64));
    }
    ctx.check(a.hcount.is_power_of_two(), "hash-size", || format!("hash table of {} entries", a.hcount));
    // ---- extents: everything inside the archive, nothing overlapping
    let model = spec.model();
    let by_name: std::collections::HashMap<&str, &gen::GFile> = spec.files.iter().map(|f| (f.name.as_str(), f)).collect();
    let nfiles = model.len() + if huge > 0 { 2 } else { 0 };
    let mut ext: Vec<(u64, u64, String)> = vec![(0, refm::HEADER_SIZES[spec.ver] as u64, "header".into())];
    ext.push((a.hpos, a.hpos + a.hcount as u64 * 16, "hash table".into()));
    ext.push((a.bpos, a.bpos + a.bcount as u64 * 16, "block table".into()));
    if a.hipos != 0 {
        ext.push((a.hipos, a.hipos + a.bcount as u64 * 2, "hi-block table".into()));
    }
    for (i, b) in a.block.iter().enumerate() {
        let (s, e) = a.extent(b);
        ext.push((s, e, format!("block {i}")));
    }
    // stored lengths of the extended tables: V4 has them in the header, V3 up to the next table
    let (mut hetlen, mut betlen) = (a.v4sizes[3], a.v4sizes[4]);
    if spec.ver == 2 {
        hetlen = a.betpos.saturating_sub(a.hetpos);
        betlen = a.hpos.saturating_sub(a.betpos);
    }
    if spec.ver >= 2 {
        ext.push((a.hetpos, a.hetpos + hetlen, "HET table".into()));
        ext.push((a.betpos, a.betpos + betlen, "BET table".into()));
    }
    ext.retain(|x| x.1 > x.0);
    ext.sort();
    for w in ext.windows(2) {
        ctx.check(w[0].1 <= w[1].0, "overlap", || format!("{} [{:#x}..{:#x}) overlaps {} [{:#x}..{:#x}) ({brief})", w[0].2, w[0].0, w[0].1, w[1].2, w[1].0, w[1].1));
    }
    if let Some(l) = ext.iter().map(|x| x.1).max() {
        ctx.check(l <= flen, "out-of-bounds", || format!("something ends at {l:#x}, file ends at {flen:#x} ({brief})"));
    }
    // ---- files through the classic tables
    ctx.check(a.bcount as usize == nfiles, "block-count", || format!("{} block entries for {nfiles} files ({brief})", a.bcount));
    let valid = a.hash.iter().filter(|e| e.block < 0xFFFF_FFFE).count();
    ctx.check(valid == nfiles, "hash-count", || format!("{valid} hash entries for {nfiles} files ({brief})"));
    for (n, want) in &model {
        let f = by_name.get(n.as_str()).copied();
        let loc = f.map(|f| f.locale).unwrap_or(0);
        let hits = a.find(n);
        let Some((_, h)) = hits.iter().find(|(_, h)| h.locale == loc) else {
            ctx.viol("not-in-hash-table", format!("{n:?} (locale {loc:#x}) not reachable in the hash table: {hits:?} ({brief})"));
            continue;
        };
        let Some(b) = a.block.get(h.block as usize) else {
            ctx.viol("block-index", format!("{n:?} -> block {} of {}", h.block, a.block.len()));
            continue;
        };
        ctx.check(b.flags & refm::F_EXISTS != 0, "flags", || format!("{n:?}: exists flag missing: {:#x}", b.flags));
        ctx.check(b.size as usize == want.len(), "size", || format!("{n:?}: size {} expected {}", b.size, want.len()));
        if let Some(f) = f {
            ctx.check((b.flags & refm::F_ENCRYPTED != 0) == f.enc, "flags", || format!("{n:?}: encryption requested {}, flags {:#x} ({brief})", f.enc, b.flags));
            let fix = f.enc && f.fix;
            ctx.check((b.flags & refm::F_FIX_KEY != 0) == fix, "flags", || format!("{n:?}: fix-key requested {fix}, flags {:#x} ({brief})", b.flags));
            if spec.crc && !want.is_empty() {
                ctx.check(b.flags & refm::F_CRC != 0, "flags", || format!("{n:?}: checksums requested, flags {:#x} ({brief})", b.flags));
            }
            if f.enc {
                ctx.count("encrypted_files");
            }
            let c = spec.class(f);
            ctx.distinct(&c);
        }
        ctx.count("files_decoded");
        match a.content(n, b) {
            Ok(got) => {
                ctx.check(got == *want, "content-differs", || format!("{n:?}: the reference reader gets {} ({brief})", diff(&got, want)));
            }
            Err(e) => ctx.viol("content-undecodable", format!("{n:?}: the reference reader: {e} ({brief})")),
        }
    }
    // ---- extended tables agree with the classic ones
    if spec.ver >= 2 {
        ext_tables(ctx, &a, &model, hetlen, betlen, &brief);
    }
    if spec.ver == 3 {
        let b = &a.bytes;
        let g = |p: u64, n: u64| b.get(p as usize..(p + n) as usize).map(refm::md5);
        let want = [
            (a.bpos, a.v4sizes[1], a.md5s[0], "block table"),
            (a.hpos, a.v4sizes[0], a.md5s[1], "hash table"),
            (a.betpos, betlen, a.md5s[3], "BET"),
            (a.hetpos, hetlen, a.md5s[4], "HET"),
            (a.hipos, a.v4sizes[2], a.md5s[2], "hi-block table"),
            (0, 192, a.md5s[5], "header"),
        ];
        for (p, n, m, what) in want {
            if n == 0 {
                continue;
            }
            ctx.count("md5_checked");
            ctx.check(g(p, n) == Some(m), "md5", || format!("stored MD5 of the {what} does not match its {n} bytes at {p:#x} ({brief})"));
        }
        let hi = if a.hipos != 0 { a.bcount as u64 * 2 } else { 0 };
        ctx.check(a.v4sizes[2] == hi, "v4-sizes", || format!("hi-block table at {:#x} has {} bytes declared, {hi} expected ({brief})", a.hipos, a.v4sizes[2]));
        ctx.check(a.v4sizes[0] == a.hcount as u64 * 16 && a.v4sizes[1] == a.bcount as u64 * 16, "v4-sizes", || format!("{:?}", a.v4sizes));
    }
    if matches!(spec.lf, Lf::Generate) {
        ctx.count("generated_listfiles");
    }
    if ctx.idx % 64 == 0 {
        ctx.sample = Some(json!(brief));
    }
}

fn ext_tables(ctx: &mut Ctx, a: &RefArchive, model: &[(String, Vec<u8>)], hetlen: u64, betlen: u64, brief: &str) {
    let het = match a.ext_table(a.hetpos, hetlen, b"HET\x1a", "(hash table)").and_then(|t| refm::decode_het(&t)) {
        Ok(h) => h,
        Err(e) => return ctx.viol("het-undecodable", format!("{e} ({brief})")),
    };
    let bet = match a.ext_table(a.betpos, betlen, b"BET\x1a", "(block table)").and_then(|t| refm::decode_bet(&t)) {
        Ok(b) => b,
        Err(e) => return ctx.viol("bet-undecodable", format!("{e} ({brief})")),
    };
    ctx.check(bet.len() == a.block.len(), "bet-count", || format!("{} BET entries, {} blocks ({brief})", bet.len(), a.block.len()));
    for (i, (x, b)) in bet.iter().zip(&a.block).enumerate() {
        ctx.check((x.pos, x.size, x.csize, x.flags) == (b.pos, b.size as u64, b.csize as u64, b.flags), "bet-vs-block", || format!("entry {i}: BET {x:?}, block table {b:?} ({brief})"));
    }
    let n = het.slots.len() as u64;
    let mut by_hash: std::collections::HashMap<u64, Vec<usize>> = Default::default();
    for (i, e) in bet.iter().enumerate() {
        by_hash.entry(e.hash).or_default().push(i);
    }
    for (name, _) in model {
        ctx.count("het_entries");
        let h = refm::jenkins(name);
        let bits = if het.hbits == 64 { h } else { h & ((1 << het.hbits) - 1) };
        // the file's index, by its full name hash
        let idx = by_hash.get(&h).cloned().unwrap_or_default();
        let mut found = false;
        for k in 0..n {
            let (hb, ix) = het.slots[((h % n + k) % n) as usize];
            if ix >= het.max_files as u64 {
                break;
            }
            if hb == bits && idx.contains(&(ix as usize)) {
                found = true;
                break;
            }
        }
        ctx.check(found, "not-in-het", || format!("{name:?} is not reachable through HET and BET ({brief})"));
    }
}
