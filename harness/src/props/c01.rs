//! C01: build -> open -> read returns every byte.
use crate::core::{diff, Ctx, Prop};
use crate::gen;
use mopaq::{Archive, ArchiveBuilder};
use serde_json::json;

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        quick: 16000,
        thorough: 300000,
        run,
        need: &[("files_compared", 4000), ("sectored_files", 800), ("encrypted_files", 800), ("crc_files", 500)],
        rule: "distinct (version, sector size, codec, encryption, checksum, size class, tail bytes) classes whose content was compared byte for byte",
        level: "exploration",
        assumptions: &["lossless codecs only (ADPCM and Huffman are lossy or stubs)"],
        workers: 8,
    }
}

/// Files and tables beyond 4 GiB.
fn beyond_4g(ctx: &mut Ctx, ver: usize) {
    let Some((spec, path, huge)) = gen::build_4g(ctx, ver) else { return };
    match ctx.lib("Archive::open", || Archive::open(&path)) {
        Some(Ok(mut ar)) => {
            for f in &spec.files {
                ctx.count("files_behind_4g");
                match ctx.lib("Archive::read_file", || ar.read_file(&f.name)) {
                    Some(Ok(d)) => {
                        ctx.check(d == f.data, "content-differs", || format!("{:?} behind 4 GiB: {} ({})", f.name, diff(&d, &f.data), spec.brief()));
                    }
                    Some(Err(e)) => ctx.viol("read-error", format!("{:?} behind 4 GiB: {e} ({})", f.name, spec.brief())),
                    None => {}
                }
            }
            if let Some(Ok(Some(i))) = ctx.lib("Archive::find_file", || ar.find_file("huge\\2")) {
                ctx.check(i.file_size == huge, "content-differs", || format!("size {} of a file of {huge}", i.file_size));
            }
        }
        Some(Err(e)) => ctx.viol("open-error", format!("own archive above 4 GiB does not open: {e} ({})", spec.brief())),
        None => {}
    }
    let _ = std::fs::remove_file(&path);
}

/// A file whose size, or whose sector offsets, do not fit in 32 bits: refused, or else delivered.
fn file_over_4g(ctx: &mut Ctx, stored: bool) {
    let mut r = ctx.rng.clone();
    let size = if stored { (1u64 << 32) - 1 - r.below(5000) } else { (1u64 << 32) + r.below(5000) };
    let big = ctx.path("big.bin");
    std::fs::File::create(&big).unwrap().set_len(size).unwrap();
    let path = ctx.path("a.mpq");
    let ver = if stored { r.usize(2) } else { r.usize(4) };
    let b = ArchiveBuilder::new()
        .version(gen::VERSIONS[ver])
        .block_size(if stored { 3 } else { 8 })
        .generate_crcs(stored)
        .add_file_with_options(&big, "big", if stored { 0 } else { crate::refm::ZLIB }, false, 0);
    let res = ctx.lib("ArchiveBuilder::build", || b.build(&path));
    let _ = std::fs::remove_file(&big);
    match res {
        Some(Err(_)) => ctx.count("files_above_4g_refused"),
        Some(Ok(())) => {
            let got = ctx.lib("Archive::read_file", || Archive::open(&path).and_then(|mut a| a.read_file("big")));
            match got {
                Some(Ok(d)) => {
                    ctx.check(d.len() as u64 == size && d.iter().all(|b| *b == 0), "content-differs", || format!("a file of {size} bytes came back with {}, the build reported success (v{})", d.len(), ver + 1));
                }
                Some(Err(e)) => ctx.viol("read-error", format!("a file of {size} bytes: the build reported success, but: {e} (v{})", ver + 1)),
                None => {}
            }
        }
        None => {}
    }
    let _ = std::fs::remove_file(&path);
}

pub fn run(ctx: &mut Ctx) {
    if ctx.idx < 1200 && ctx.idx % 200 == 77 {
        // (all of these are cases of one worker: no two run at once)
        return match ctx.idx / 200 {
            v @ 0..=3 => beyond_4g(ctx, v as usize),
            4 => file_over_4g(ctx, false),
            _ => file_over_4g(ctx, true),
        };
    }
    let mut r = ctx.rng.clone();
    let mut spec = gen::spec(&mut r);
    if r.chance(1, 30) {
        // sectors larger than anything in the archive
        spec.bs = r.range(9, 31) as u16;
        ctx.count("huge_sectors");
    }
    let giant = match ctx.idx % 2000 {
        1 | 501 | 1501 => Some(1),
        1001 => Some(4),
        x if x % 250 == 3 => Some(2),
        x if x % 100 == 7 => Some(0),
        x if x % 500 == 11 => Some(3),
        _ => None,
    };
    if let Some(k) = giant {
        spec = gen::giant(&mut r, k);
        ctx.count(["sectors_above_255", "sectors_above_65535", "megabyte_sectors", "thousands_of_files", "files_above_65535"][k as usize]);
    }
    let mut path = ctx.path("a.mpq");
    if r.chance(1, 12) {
        // a bare name, in the working directory
        std::env::set_current_dir(&ctx.dir).unwrap();
        path = "bare.mpq".into();
        ctx.count("bare_names");
    }
    if ctx.idx % 16 == 0 {
        ctx.sample = Some(json!(spec.brief()));
    }
    if ctx.verbose {
        eprintln!("{}", spec.brief());
    }
    if !spec.build(ctx, &path) {
        return;
    }
    let Some(res) = ctx.lib("Archive::open", || Archive::open(&path)) else { return };
    let mut ar = match res {
        Ok(a) => a,
        Err(e) => {
            ctx.viol("open-error", format!("own archive does not open: {e} ({})", spec.brief()));
            return;
        }
    };
    let mut model = spec.model();
    let by_name: std::collections::HashMap<&str, &gen::GFile> = spec.files.iter().map(|f| (f.name.as_str(), f)).collect();
    r.shuffle(&mut model);
    for (n, want) in &model {
        let nm = if r.chance(1, 4) { gen::respell(&mut r, n) } else { n.clone() };
        match ctx.lib("Archive::read_file", || ar.read_file(&nm)) {
            Some(Ok(got)) => {
                ctx.count("files_compared");
                ctx.add("bytes_compared", want.len() as u64);
                ctx.check(got == *want, "content-differs", || format!("{n:?}: {} ({})", diff(&got, want), spec.brief()));
            }
            Some(Err(e)) => {
                ctx.viol("read-error", format!("{n:?} ({} bytes): {e} ({})", want.len(), spec.brief()));
            }
            None => {}
        }
        if let Some(f) = by_name.get(n.as_str()) {
            let c = spec.class(f);
            ctx.distinct(&c);
            if f.data.len() > spec.ss() {
                ctx.count("sectored_files");
            }
            if f.enc {
                ctx.count("encrypted_files");
            }
            if spec.crc {
                ctx.count("crc_files");
            }
        }
    }
}
