//! C09: no input makes the library panic, crash, run forever or take memory out of proportion.
use crate::core::{Ctx, Prop};
use crate::gen;
use crate::refm::{self, crypt_bytes, crypt_dwords, hash_string, u32at, Layout, RefArchive, WOpts};
use crate::rng::Rng;
use mopaq::special_files::{parse_listfile, Attributes};
use mopaq::{decompress, Archive, OpenOptions};
use serde_json::json;
use std::collections::BTreeSet;

pub fn prop() -> Prop {
    Prop {
        id: "C09",
        quick: 40000,
        thorough: 800000,
        run,
        need: &[("opened", 4000), ("open_rejected", 4000), ("reads", 20000), ("read_rejected", 4000), ("codec_calls", 10000), ("bombs", 100), ("attribute_bombs", 20), ("parser_calls", 4000)],
        rule: "distinct (generator, mutated structure and field, outcome of opening and of reading) situations the monitors watched",
        level: "exploration",
        assumptions: &[
            "memory bound: 64 MiB + 4096 x file length for opening and listing, plus 4 x the file's declared size (at most 512 MiB) for reading it",
            "time bound: 90 s of CPU time per input (normal inputs take milliseconds)",
            "panics, aborts, arithmetic overflow and debug assertions inside mopaq count; the third-party decoders are compiled as shipped",
        ],
        workers: 8,
    }
}

const INTERESTING: [u32; 26] = [
    0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 65, 127, 255, 0x1000, 0xFFFF, 0x1_0000, 0x7FFF_FFFF, 0x8000_0000, 0x8000_0001, 0xFFFF_FFFE, 0xFFFF_FFFF, 0x4000_0000, 0x0FFF_FFFF,
];
fn mutate_u32(r: &mut Rng, v: u32) -> u32 {
    match r.below(6) {
        0 => v ^ (1 << r.below(32)),
        1 => v.wrapping_add(r.below(5) as u32).wrapping_sub(2),
        2 => r.u32(),
        3 => v.wrapping_mul(2),
        _ => *r.pick(&INTERESTING),
    }
}
fn put32(b: &mut [u8], o: usize, v: u32) {
    if o + 4 <= b.len() {
        b[o..o + 4].copy_from_slice(&v.to_le_bytes());
    }
}

pub fn run(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    match r.below(40) {
        0..=3 => codecs(ctx, &mut r),
        4 => parsers(ctx, &mut r),
        5 => noise(ctx, &mut r),
        6 if r.chance(1, 5) => attribute_bomb(ctx, &mut r),
        6 => bomb(ctx, &mut r),
        _ => mutated(ctx, &mut r),
    }
}

fn budget(len: usize) -> i64 {
    (64 << 20) + 4096 * len as i64
}

/// Every read-only entry point on the file at `path`, under the monitors.
pub fn exercise(ctx: &mut Ctx, r: &mut Rng, bytes: &[u8], names: &[String], tag: &str) {
    let path = ctx.path("h.mpq");
    std::fs::write(&path, bytes).unwrap();
    let b = budget(bytes.len());
    let lazy = r.chance(1, 8);
    let op = if lazy { "OpenOptions::open(lazy)" } else { "Archive::open" };
    let Some(res) = ctx.lib_budget(op, b, || if lazy { OpenOptions::new().load_tables(false).open(&path) } else { Archive::open(&path) }) else { return };
    ctx.max("peak_open", ctx.last_peak());
    let mut ar = match res {
        Ok(a) => a,
        Err(e) => {
            ctx.count("open_rejected");
            ctx.err_note("open", &e);
            ctx.distinct(&format!("{tag} rejected"));
            return;
        }
    };
    ctx.count("opened");
    let mut extra: Vec<String> = vec![];
    for k in 0..5u64 {
        match k {
            0 => {
                if let Some(Ok(l)) = ctx.lib_budget("Archive::list", b, || ar.list()) {
                    extra.extend(l.iter().take(30).map(|e| e.name.clone()));
                    drop(l);
                }
            }
            1 => {
                ctx.lib_budget("Archive::list_all", b, || ar.list_all().map(|l| l.len()));
            }
            2 => {
                ctx.lib_budget("Archive::list_all_with_hashes", b, || ar.list_all_with_hashes().map(|l| l.len()));
                ctx.lib_budget("Archive::list_with_hashes", b, || ar.list_with_hashes().map(|l| l.len()));
            }
            3 => {
                ctx.lib_budget("Archive::get_info", b, || ar.get_info().map(|i| i.file_count));
                ctx.lib_budget("Archive::verify_signature", b, || ar.verify_signature().map(|s| format!("{s:?}")));
            }
            _ => {
                ctx.lib_budget("Archive::load_attributes", b, || {
                    let _ = ar.load_attributes();
                    for i in [0usize, 1, 5, 1 << 20, usize::MAX] {
                        let _ = ar.get_file_attributes(i);
                    }
                });
            }
        }
    }
    let mut seen = BTreeSet::new();
    let (mut ok, mut bad) = (0u64, 0u64);
    for n in names.iter().chain(extra.iter()).chain(["(listfile)", "(attributes)", "(signature)", "no such file", ""].map(String::from).iter()) {
        if !seen.insert(n.clone()) || seen.len() > 40 {
            continue;
        }
        let mut declared = 0i64;
        if let Some(Ok(Some(i))) = ctx.lib_budget("Archive::find_file", b, || ar.find_file(n)) {
            declared = i.file_size.min(512 << 20) as i64;
        }
        match ctx.lib_budget("Archive::read_file", b + 4 * declared, || ar.read_file(n).map(|d| d.len())) {
            Some(Ok(_)) => ok += 1,
            Some(Err(_)) => bad += 1,
            None => {}
        }
        ctx.max("peak_read_over_budget_permille", (ctx.last_peak() as i64 * 1000 / (b + 4 * declared)) as u64);
    }
    ctx.add("reads", ok + bad);
    ctx.add("read_rejected", bad);
    ctx.add("read_ok", ok);
    ctx.distinct(&format!("{tag} ok{} bad{}", ok.min(3), bad.min(3)));
    ctx.count("checks");
}

fn base(ctx: &mut Ctx, r: &mut Rng) -> Option<(Vec<u8>, Vec<String>, &'static str)> {
    let names: Vec<String>;
    if r.bool() {
        let mut spec = gen::spec(r);
        spec.files.truncate(8);
        spec.files.iter_mut().for_each(|f| f.data.truncate(6000));
        if r.chance(1, 4) {
            // an attributes file, sometimes of the right size
            let n = spec.files.len() + 2;
            let mut d = 100u32.to_le_bytes().to_vec();
            let fl = r.below(16) as u32;
            d.extend_from_slice(&fl.to_le_bytes());
            let len = n * 28 + r.usize(40);
            d.extend(r.bytes(len));
            spec.files.push(gen::GFile { name: "(attributes)".into(), data: d, comp: Some(*r.pick(&gen::LOSSLESS)), enc: false, fix: false, locale: 0, via_path: false });
        }
        if r.chance(1, 6) {
            let mut d = vec![0u8; 8];
            d.extend(r.bytes(64));
            spec.files.push(gen::GFile { name: "(signature)".into(), data: d, comp: Some(0), enc: false, fix: false, locale: 0, via_path: false });
        }
        let p = ctx.path("b.mpq");
        if !spec.build(ctx, &p) {
            return None;
        }
        names = spec.files.iter().map(|f| f.name.clone()).collect();
        Some((std::fs::read(&p).unwrap(), names, "built"))
    } else {
        let shift = r.below(4) as u16;
        let ss = 512usize << shift;
        let version = r.below(4) as u16;
        let nf = r.range(1, 8);
        let mut seen = BTreeSet::new();
        let mut files = vec![];
        while files.len() < nf {
            let n = gen::name(r);
            if seen.insert(refm::canon(&n)) {
                let mut f = crate::foreign::wfile(r, n, ss);
                f.deleted = r.chance(1, 10);
                if !f.encrypt && f.data.len() > 8 && r.chance(1, 6) && !matches!(f.layout, Layout::Raw) {
                    f.methods = vec![*r.pick(&[1u8, 0x40, 0x80, 0x41, 0x81, 0x48, 0x42, 0x50, 0x22, 0x0A, 0x30, 0xFF, 0x04, 0x12])];
                    // no encoder here: the sector is tagged below by mutation
                    f.methods = vec![0, refm::ZLIB];
                }
                files.push(f);
            }
        }
        let het_bet = version >= 2 && r.chance(3, 4);
        let o = WOpts {
            version,
            shift,
            hash_size: ((nf + 1) as u32 * 2).next_power_of_two(),
            spare_blocks: r.below(3) as u32,
            shuffle_blocks: r.bool(),
            tables_first: !(het_bet && version == 2) && r.bool(),
            hi_block: version >= 1 && r.bool(),
            het_bet,
            table_method: *r.pick(&[0u8, 0, 0, refm::ZLIB, refm::BZIP2]),
            v4_md5: true,
            gap: 0,
            classic: !het_bet || r.chance(3, 4),
            ext_mix: if r.bool() { r.next() } else { 0 },
        };
        let w = refm::write_archive(&files, &o, r);
        names = files.iter().map(|f| f.name.clone()).collect();
        let (pre, _) = if r.chance(1, 6) { crate::foreign::prefix(ctx, r) } else { (vec![], false) };
        let mut b = pre;
        b.extend(w.to_bytes());
        Some((b, names, "foreign"))
    }
}

fn mutated(ctx: &mut Ctx, r: &mut Rng) {
    let Some((orig, names, src)) = base(ctx, r) else { return };
    let off = (0..orig.len() / 512 + 1).map(|i| i * 512).find(|&o| orig.len() >= o + 32 && &orig[o..o + 4] == b"MPQ\x1a");
    let Some(off) = off else { return };
    let parsed = RefArchive::parse(orig.clone(), off).ok();
    let per = if ctx.thorough { 6 } else { 4 };
    for _ in 0..per {
        let mut b = orig.clone();
        let mut tag = src.to_string();
        let rounds = *r.pick(&[1usize, 1, 1, 2, 3]);
        for _ in 0..rounds {
            let Some(a) = &parsed else { break };
            let k = r.below(13);
            match k {
                0 | 1 => {
                    // header fields
                    let hl = refm::HEADER_SIZES[a.version as usize] as usize;
                    let f = r.usize(hl / 4);
                    let o = off + f * 4;
                    let v = mutate_u32(r, u32at(&b, o));
                    put32(&mut b, o, v);
                    tag += &format!(" hdr{f}");
                }
                2 | 3 => {
                    // block table entry, re-encrypted
                    let p = off + a.bpos as usize;
                    let n = a.bcount as usize * 16;
                    if n == 0 || p + n > b.len() {
                        continue;
                    }
                    let key = hash_string("(block table)", 3);
                    crypt_bytes(&mut b[p..p + n], key, false);
                    for _ in 0..r.range(1, 3) {
                        let e = r.usize(a.bcount as usize);
                        let f = r.usize(4);
                        let o = p + e * 16 + f * 4;
                        let mut v = mutate_u32(r, u32at(&b, o));
                        if f == 3 && r.chance(3, 4) {
                            let bit = *r.pick(&[8u32, 9, 16, 17, 20, 24, 25, 26, 31]);
                            v = u32at(&b, o) ^ (1 << bit);
                        }
                        put32(&mut b, o, v);
                        tag += &format!(" blk{f}");
                    }
                    crypt_bytes(&mut b[p..p + n], key, true);
                }
                4 => {
                    let p = off + a.hpos as usize;
                    let n = a.hcount as usize * 16;
                    if n == 0 || p + n > b.len() {
                        continue;
                    }
                    let key = hash_string("(hash table)", 3);
                    crypt_bytes(&mut b[p..p + n], key, false);
                    if r.chance(1, 4) {
                        // no free slot anywhere: a search must still end
                        for e in 0..a.hcount as usize {
                            let o = p + e * 16 + 12;
                            if u32at(&b, o) == 0xFFFF_FFFF {
                                put32(&mut b, o, if r.bool() { 0xFFFF_FFFE } else { r.u32() % 64 });
                            }
                        }
                        tag += " hash-full";
                    } else {
                        for _ in 0..r.range(1, 4) {
                            let valid: Vec<usize> = (0..a.hcount as usize).filter(|e| u32at(&b, p + e * 16 + 12) != 0xFFFF_FFFF).collect();
                            let e = if !valid.is_empty() && r.chance(3, 4) { *r.pick(&valid) } else { r.usize(a.hcount as usize) };
                            let f = if r.chance(2, 3) { 3 } else { r.usize(4) };
                            let o = p + e * 16 + f * 4;
                            let v = mutate_u32(r, u32at(&b, o));
                            put32(&mut b, o, v);
                            tag += &format!(" hash{f}");
                        }
                    }
                    crypt_bytes(&mut b[p..p + n], key, true);
                }
                5..=7 => {
                    // extended tables, when stored without compression
                    let (p, key, hdr, nm) = if r.bool() { (a.hetpos, "(hash table)", 32usize, "het") } else { (a.betpos, "(block table)", 76, "bet") };
                    if p == 0 {
                        continue;
                    }
                    let p = off + p as usize;
                    if p + 12 > b.len() {
                        continue;
                    }
                    if r.chance(1, 5) {
                        let f = r.usize(3);
                        let v = mutate_u32(r, u32at(&b, p + f * 4));
                        put32(&mut b, p + f * 4, v);
                        tag += &format!(" {nm}-ext{f}");
                        continue;
                    }
                    let n = u32at(&b, p + 8) as usize;
                    if n < hdr || p + 12 + n > b.len() {
                        continue;
                    }
                    let k = hash_string(key, 3);
                    crypt_dwords(&mut b[p + 12..p + 12 + n], k, false);
                    for _ in 0..r.range(1, 3) {
                        if r.chance(3, 4) {
                            let f = r.usize(hdr / 4);
                            let o = p + 12 + f * 4;
                            let v = mutate_u32(r, u32at(&b, o));
                            put32(&mut b, o, v);
                            tag += &format!(" {nm}{f}");
                        } else {
                            let o = p + 12 + r.usize(n);
                            b[o] = r.u8();
                            tag += &format!(" {nm}-body");
                        }
                    }
                    crypt_dwords(&mut b[p + 12..p + 12 + n], k, true);
                }
                8 | 9 => {
                    // inside a file: offset table (re-encrypted when the key is known), method byte, data
                    let Some(name) = names.get(r.usize(names.len().max(1))) else { continue };
                    let Some((_, h)) = a.find(name).first().cloned() else { continue };
                    let Some(e) = a.block.get(h.block as usize) else { continue };
                    let p = off + e.pos as usize;
                    let key = {
                        let k = hash_string(name, 3);
                        if e.flags & refm::F_FIX_KEY != 0 {
                            k.wrapping_add(e.pos as u32) ^ e.size
                        } else {
                            k
                        }
                    };
                    let enc = e.flags & refm::F_ENCRYPTED != 0;
                    if e.csize == 0 || p + e.csize as usize > b.len() {
                        continue;
                    }
                    if e.flags & refm::F_SINGLE == 0 && e.flags & refm::F_COMPRESS != 0 {
                        let n = (e.size as usize).div_ceil(512 << a.shift) + 1;
                        if p + n * 4 > b.len() {
                            continue;
                        }
                        if enc {
                            crypt_bytes(&mut b[p..p + n * 4], key.wrapping_sub(1), false);
                        }
                        if r.bool() {
                            let o = p + r.usize(n) * 4;
                            let v = mutate_u32(r, u32at(&b, o));
                            put32(&mut b, o, v);
                            tag += " offs";
                        } else {
                            let t = u32at(&b, p + r.usize(n) * 4) as usize;
                            if !enc && p + t < b.len() {
                                b[p + t] = *r.pick(&[0, 1, 2, 8, 0x10, 0x12, 0x20, 0x40, 0x80, 0x41, 0x81, 0x42, 0x90, 0xFF, 0x0A, 0x22]);
                                tag += " method";
                            }
                        }
                        if enc {
                            crypt_bytes(&mut b[p..p + n * 4], key.wrapping_sub(1), true);
                        }
                    } else if !enc && r.bool() {
                        b[p] = *r.pick(&[0, 1, 2, 8, 0x10, 0x12, 0x20, 0x40, 0x80, 0x41, 0x81, 0x42, 0x90, 0xFF, 0x0A, 0x22]);
                        tag += " method1";
                    } else {
                        let o = p + r.usize(e.csize as usize);
                        b[o] = r.u8();
                        tag += " data";
                    }
                }
                10 => {
                    let n = r.usize(b.len());
                    b.truncate(n.max(1));
                    tag += " cut";
                    break;
                }
                11 => {
                    let n = r.range(1, 12);
                    for _ in 0..n {
                        let o = r.usize(b.len());
                        b[o] = r.u8();
                    }
                    tag += " bytes";
                }
                _ => {
                    // a user data block in front, or another one's fields
                    if off >= 512 && r.bool() {
                        let f = r.usize(4);
                        let v = mutate_u32(r, u32at(&b, f * 4));
                        put32(&mut b, f * 4, v);
                        tag += " ud";
                    } else {
                        let mut p = vec![0u8; 512 * r.range(1, 3)];
                        p[..4].copy_from_slice(b"MPQ\x1b");
                        for f in 1..4 {
                            let v = if r.bool() { p.len() as u32 } else { mutate_u32(r, 512) };
                            put32(&mut p, f * 4, v);
                        }
                        p.extend_from_slice(&b);
                        b = p;
                        tag += " ud-new";
                        break;
                    }
                }
            }
        }
        if b == orig || b.is_empty() {
            continue;
        }
        ctx.count("mutants");
        exercise(ctx, r, &b, &names, &tag);
        if !ctx.viols.is_empty() {
            let last = ctx.viols.len() - 1;
            ctx.viols[last].detail += &format!(" [{tag}]");
            return;
        }
    }
    if ctx.idx % 512 == 7 {
        ctx.sample = Some(json!({"source": src, "len": orig.len(), "names": names.iter().take(4).collect::<Vec<_>>()}));
    }
}

/// Structures that declare or expand to far more than they hold.
fn bomb(ctx: &mut Ctx, r: &mut Rng) {
    use crate::refm::{write_archive, WFile};
    ctx.count("bombs");
    let kind = r.below(8);
    if kind == 7 && r.chance(3, 4) {
        return codecs(ctx, r);
    }
    let (stream, m, what): (Vec<u8>, u8, &str) = match kind {
        0 | 1 => (include_bytes!("../../data/bomb.bz2").to_vec(), refm::BZIP2, "bzip2"),
        2 | 3 => (include_bytes!("../../data/bomb.lzma").to_vec(), refm::LZMA, "lzma"),
        4 => (refm::comp(refm::ZLIB, &vec![0u8; 128 << 20]), refm::ZLIB, "zlib"),
        5 | 6 => {
            // sparse: runs of zeros
            let n = r.range(1 << 20, 2 << 20);
            let mut s = vec![0x7F; n];
            s[..4].copy_from_slice(&u32::MAX.to_be_bytes());
            (s, refm::SPARSE, "sparse")
        }
        _ => (include_bytes!("../../data/bomb.xz").to_vec(), refm::LZMA, "xz"),
    };
    let mut data = vec![m];
    data.extend_from_slice(&stream);
    let declared = *r.pick(&[0u32, 1, 100, 4096, 70000, 1 << 20, u32::MAX, 0x8000_0000, 0x7FFF_FFFF]);
    let single = r.bool();
    let f = WFile { name: "bomb".into(), locale: 0, platform: 0, data: vec![], layout: Layout::Single, methods: vec![0], encrypt: false, fix_key: false, deleted: false, extra_flags: 0, clear_flags: 0, at: None };
    // with sectors of 2 GiB, a file of one sector may be as large
    let wide = r.bool();
    let o = WOpts { version: 0, shift: if wide { 22 } else { 3 }, hash_size: 16, spare_blocks: 0, shuffle_blocks: false, tables_first: true, hi_block: false, het_bet: false, table_method: 0, v4_md5: false, gap: 0, classic: true, ext_mix: 0 };
    let w = write_archive(&[f], &o, r);
    let mut b = w.to_bytes();
    let pos = b.len();
    let mut csize = data.len();
    let size = if single { declared } else { declared.clamp(1, if wide { 1 << 31 } else { 4096 }) };
    if !single {
        let mut t = 8u32.to_le_bytes().to_vec();
        t.extend_from_slice(&(8 + data.len() as u32).to_le_bytes());
        t.extend_from_slice(&data);
        data = t;
        csize = data.len();
    }
    b.extend_from_slice(&data);
    let bp = u32at(&b, 20) as usize;
    let key = hash_string("(block table)", 3);
    let flags = refm::F_EXISTS | refm::F_COMPRESS | if single { refm::F_SINGLE } else { 0 };
    let mut e = vec![];
    for v in [pos as u32, csize as u32, size, flags] {
        e.extend_from_slice(&v.to_le_bytes());
    }
    crypt_bytes(&mut e, key, true);
    b[bp..bp + 16].copy_from_slice(&e);
    let path = ctx.path("bomb.mpq");
    std::fs::write(&path, &b).unwrap();
    let Some(Ok(mut ar)) = ctx.lib_budget("Archive::open", budget(b.len()), || Archive::open(&path)) else { return ctx.viol("bomb-open", what.to_string()) };
    // the stream's own expansion may be held once, however much the entry declares
    let own = match what {
        "zlib" => 128i64 << 20,
        "lzma" | "xz" => 320 << 20,
        _ => 640 << 20,
    };
    let bud = (64i64 << 20) + 4 * (size as i64).min(own) + 8 * b.len() as i64;
    let op = if what == "xz" { "read_file(xz bomb)" } else { "read_file(bomb)" };
    let res = ctx.lib_budget(op, bud, || ar.read_file("bomb").map(|d| d.len()));
    ctx.max(&format!("peak_{what}_mib"), ctx.last_peak() >> 20);
    ctx.distinct(&format!("bomb {what} {declared:x} {single} {}", matches!(res, Some(Ok(_)))));
    ctx.count("checks");
}

/// Attributes that are compressed once more, and expand to far more than there are files for.
fn attribute_bomb(ctx: &mut Ctx, r: &mut Rng) {
    let (m, stream) = match r.below(3) {
        0 => (refm::ZLIB, refm::comp(refm::ZLIB, &vec![0u8; 128 << 20])),
        1 => (refm::LZMA, include_bytes!("../../data/bomb.lzma").to_vec()),
        _ => (refm::ZLIB | refm::BZIP2, include_bytes!("../../data/bomb.bz2").to_vec()),
    };
    let mut data = vec![m];
    data.extend_from_slice(&stream);
    let path = ctx.path("attr.mpq");
    let ver = gen::VERSIONS[r.usize(4)];
    let Some(Ok(())) = ctx.lib("ArchiveBuilder::build", || mopaq::ArchiveBuilder::new().version(ver).add_file_data_with_options(data, "(attributes)", 0, false, 0).build(&path)) else { return };
    let len = std::fs::metadata(&path).unwrap().len() as i64;
    ctx.count("attribute_bombs");
    let Some(Ok(mut ar)) = ctx.lib_budget("Archive::open(attribute bomb)", (48 << 20) + 16 * len, || Archive::open(&path)) else { return };
    ctx.lib_budget("load_attributes(bomb)", (48 << 20) + 16 * len, || ar.load_attributes().is_ok());
    ctx.max("peak_attributes_mib", ctx.last_peak() >> 20);
    ctx.count("checks");
}

fn codecs(ctx: &mut Ctx, r: &mut Rng) {
    for _ in 0..12 {
        let m = if r.chance(1, 5) { r.u8() } else { *r.pick(&[2u8, 8, 0x10, 0x12, 0x20, 0x40, 0x80, 1, 0x42, 0x82, 0x50, 0x90, 0x60, 0xA0, 0x48, 0x88, 0x41, 0x81, 0x03, 0x0A, 0x22, 0x30]) };
        let n = match r.below(4) {
            0 => r.usize(16),
            1 => r.usize(200),
            _ => r.usize(4000),
        };
        let mut s = if r.chance(2, 3) && gen::LOSSLESS.contains(&m) && m != 0 {
            let d = gen::content(r, n.min(2000), 512);
            refm::comp(m, &d)
        } else if r.bool() && m & 0xC0 != 0 {
            let mut d = r.bytes(n);
            if d.len() > 4 {
                d[0] = 0;
                d[1] = r.below(8) as u8;
            }
            if r.bool() {
                // steps of the predictor with the control codes
                d.iter_mut().for_each(|x| {
                    if *x & 3 == 0 {
                        *x = 0x80 | (*x & 3)
                    }
                });
            }
            d
        } else {
            r.bytes(n)
        };
        for _ in 0..r.usize(4) {
            if !s.is_empty() {
                let i = if r.bool() { r.usize(s.len().min(16)) } else { r.usize(s.len()) };
                s[i] = if r.bool() { r.u8() } else { *r.pick(&[0, 0xFF, 0x7F, 0x80]) };
            }
        }
        if r.chance(1, 4) {
            let k = r.usize(s.len() + 1);
            s.truncate(k);
        }
        let exp = *r.pick(&[0usize, 1, 2, 3, 7, 512, 4096, n, n + 1, 1 << 20, 1 << 31, u32::MAX as usize]);
        let bud = (64i64 << 20) + 4096 * s.len() as i64 + 4 * (exp as i64).min(16 << 20);
        ctx.count("codec_calls");
        if let Some(res) = ctx.lib_budget("decompress", bud, || decompress(&s, m, exp)) {
            ctx.distinct(&format!("dec {m:x} exp{} {}", (exp as f64).log2() as i32 / 4, res.is_ok()));
        }
        if r.chance(1, 3) {
            let d = r.bytes(n.min(600));
            ctx.lib_budget("compress", 64 << 20, || mopaq::compress(&d, m).map(|c| c.len()));
        }
    }
}

fn parsers(ctx: &mut Ctx, r: &mut Rng) {
    for _ in 0..20 {
        ctx.count("parser_calls");
        let n = r.usize(300);
        let mut d = r.bytes(n);
        if r.bool() && d.len() >= 8 {
            d[..4].copy_from_slice(&100u32.to_le_bytes());
            let f = r.below(20) as u32;
            d[4..8].copy_from_slice(&f.to_le_bytes());
        }
        let bc = match r.below(3) {
            0 => r.usize(12),
            1 => r.usize(100),
            _ => *r.pick(&[0usize, 1, 7, 8, 9, 4096, 1 << 20]),
        };
        let by = bytes::Bytes::from(d.clone());
        let ok = ctx.lib_budget("Attributes::parse", 256 << 20, || Attributes::parse(&by, bc).map(|a| a.file_attributes.len()));
        ctx.distinct(&format!("attr {} bc{}", matches!(ok, Some(Ok(_))), bc.min(20)));
        ctx.lib_budget("parse_listfile", 64 << 20, || parse_listfile(&d).map(|v| v.len()));
        let s = String::from_utf8_lossy(&d).replace('\u{0}', ";");
        ctx.lib_budget("parse_listfile", 64 << 20, || parse_listfile(s.as_bytes()).map(|v| v.len()));
        ctx.lib_budget("parse_signature", 64 << 20, || {
            let _ = mopaq::crypto::parse_weak_signature(&d);
            let _ = mopaq::crypto::parse_strong_signature(&d);
        });
    }
}

fn noise(ctx: &mut Ctx, r: &mut Rng) {
    let n = *r.pick(&[0usize, 1, 3, 4, 31, 32, 44, 68, 208, 512, 513, 1024, 4096]);
    let n = n + r.usize(40);
    let mut b = r.bytes(n);
    let mut i = 0;
    while i + 32 <= n {
        if r.chance(3, 4) {
            b[i..i + 4].copy_from_slice(if r.chance(4, 5) { b"MPQ\x1a" } else { b"MPQ\x1b" });
            if r.chance(3, 4) {
                put32(&mut b, i + 4, *r.pick(&[32u32, 44, 68, 208, 0, 16, 0xFFFF_FFFF]));
                let v = (r.below(4) as u32) | ((r.below(20) as u32) << 16);
                put32(&mut b, i + 12, v);
                for f in 4..8 {
                    if r.bool() {
                        let v = *r.pick(&INTERESTING);
                        put32(&mut b, i + f * 4, v);
                    }
                }
            }
        }
        i += 512;
    }
    exercise(ctx, r, &b, &["x".to_string()], "noise");
}
