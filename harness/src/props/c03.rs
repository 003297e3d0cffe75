//! C03: listings and archive information agree with what was added.
use crate::core::{Ctx, Prop};
use crate::gen::{self, Lf};
use crate::foreign::foreign;
use crate::refm;
use mopaq::{Archive, ArchiveInfo, FileEntry};
use serde_json::json;

pub fn prop() -> Prop {
    Prop {
        id: "C03",
        quick: 20000,
        thorough: 300000,
        run,
        need: &[("listed", 8000), ("listed_anonymous", 2000), ("infos", 1500), ("foreign_infos", 1500), ("foreign_listed", 10000), ("table_infos", 3000)],
        rule: "distinct (version, listfile kind, number of files, encrypted, empty files, sector size) archives whose listings and information were compared with the model",
        level: "exploration",
        assumptions: &["names that the listfile syntax can carry (no ';', no leading '#', no surrounding blanks)"],
        workers: 8,
    }
}

/// What the tables of an archive are: entries, position, stored bytes (0 if absent).
struct Tables {
    hash: (u32, u64),
    block: (u32, u64),
    hi: u64,
    het: (u64, u64),
    bet: (u64, u64),
    /// files the extended tables have room for
    files: u32,
}

fn check_tables(ctx: &mut Ctx, i: &ArchiveInfo, ver: usize, t: &Tables, desc: &str) {
    let bad = [Some(&i.hash_table_info), Some(&i.block_table_info), i.het_table_info.as_ref(), i.bet_table_info.as_ref(), i.hi_block_table_info.as_ref()];
    ctx.check(bad.iter().flatten().all(|t| !t.failed_to_load), "info-table-failed", || format!("a table failed to load: {bad:?} ({desc})"));
    let h = &i.hash_table_info;
    let b = &i.block_table_info;
    ctx.check((h.size, h.offset) == (Some(t.hash.0), t.hash.1), "info-hash-table", || format!("{h:?}, written with {} entries at {} ({desc})", t.hash.0, t.hash.1));
    ctx.check((b.size, b.offset) == (Some(t.block.0), t.block.1), "info-block-table", || format!("{b:?}, written with {} entries at {} ({desc})", t.block.0, t.block.1));
    if ver == 3 {
        ctx.check(h.compressed_size == Some(t.hash.0 as u64 * 16) && b.compressed_size == Some(t.block.0 as u64 * 16), "info-table-bytes", || format!("{h:?} {b:?} ({desc})"));
    }
    for (what, got, want) in [("HET", &i.het_table_info, t.het), ("BET", &i.bet_table_info, t.bet)] {
        ctx.check(got.is_some() == (want.0 != 0), "info-ext-tables", || format!("{what} {got:?}, written at {want:?} ({desc})"));
        if let Some(g) = got {
            ctx.check(g.offset == want.0 && g.compressed_size == Some(want.1) && g.size == Some(t.files), "info-ext-tables", || format!("{what} {g:?}, written at {} with {} bytes for {} files ({desc})", want.0, want.1, t.files));
        }
    }
    let g = &i.hi_block_table_info;
    ctx.check(g.is_some() == (t.hi != 0), "info-hi-block", || format!("{g:?}, written at {} ({desc})", t.hi));
    if let Some(g) = g {
        ctx.check(g.offset == t.hi && g.size == Some(t.block.0) && (ver < 3 || g.compressed_size == Some(t.block.0 as u64 * 2)), "info-hi-block", || format!("{g:?}, written at {} for {} blocks ({desc})", t.hi, t.block.0));
    }
    let cap = if t.het.0 != 0 && t.bet.0 != 0 { t.files } else { t.hash.0 };
    ctx.check(i.max_file_count == cap, "info-capacity", || format!("capacity {}, the tables have room for {cap} ({desc})", i.max_file_count));
    ctx.count("table_infos");
}

fn triples(es: &[FileEntry]) -> Vec<(u64, u64, u32)> {
    let mut v: Vec<_> = es.iter().map(|e| (e.size, e.compressed_size, e.flags)).collect();
    v.sort();
    v
}

/// Listings and information of an archive laid out by another writer.
fn other_writer(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let path = ctx.path("f.mpq");
    let fo = foreign(ctx, &mut r, false, path.clone());
    let lazy = r.bool();
    let mut ar = match ctx.lib("Archive::open", || mopaq::OpenOptions::new().load_tables(!lazy).open(&path)) {
        Some(Ok(a)) => a,
        Some(Err(e)) => return ctx.viol("open-error", format!("{e} ({})", fo.desc)),
        None => return,
    };
    let live = fo.live();
    let mut want: Vec<(u64, u64, u32)> = live.iter().map(|(f, b)| (f.data.len() as u64, b.csize as u64, b.flags)).collect();
    want.sort();
    let mut named: Vec<(String, u64, u64, u32)> = live.iter().filter(|(f, _)| f.name != "(listfile)").map(|(f, b)| (f.name.clone(), f.data.len() as u64, b.csize as u64, b.flags)).collect();
    named.sort();
    let lf = fo.lf && live.iter().any(|(f, _)| f.name == "(listfile)");
    let mut calls = vec![0, 1, 2, 3, 4];
    r.shuffle(&mut calls);
    for c in calls {
        if c == 4 {
            let Some(res) = ctx.lib("Archive::get_info", || ar.get_info()) else { continue };
            let i = match res {
                Ok(i) => i,
                Err(e) => {
                    ctx.viol("info-error", format!("get_info: {e} ({})", fo.desc));
                    continue;
                }
            };
            ctx.count("foreign_infos");
            let d = &fo.desc;
            let flen = std::fs::metadata(&path).map(|m| m.len()).unwrap_or(0);
            ctx.check(i.file_count == live.len(), "info-count", || format!("file_count {}, {} files exist ({d})", i.file_count, live.len()));
            ctx.check(i.format_version == gen::VERSIONS[fo.o.version as usize], "info-version", || format!("{:?} ({d})", i.format_version));
            ctx.check(i.sector_size == 512 << fo.o.shift, "info-sector", || format!("{} ({d})", i.sector_size));
            ctx.check(i.file_size == flen, "info-size", || format!("file_size {}, file has {flen}", i.file_size));
            ctx.check(i.archive_offset == fo.pre.len() as u64, "info-offset", || format!("{} ({d})", i.archive_offset));
            ctx.check(i.has_listfile == lf && !i.has_attributes && !i.has_signature, "info-special", || format!("listfile {} attributes {} signature {} ({d})", i.has_listfile, i.has_attributes, i.has_signature));
            let ud = i.user_data_info.as_ref().map(|u| (u.header_size, u.data_size));
            let wu = fo.ud.then(|| {
                let at = fo.pre.chunks(512).position(|c| c.starts_with(b"MPQ\x1b")).unwrap() * 512;
                (refm::u32at(&fo.pre, at + 12), refm::u32at(&fo.pre, at + 4))
            });
            ctx.check(ud == wu, "info-user-data", || format!("user data (header, size) {ud:?}, written {wu:?} ({d})"));
            let enc = live.iter().any(|(f, _)| f.encrypt);
            if enc || fo.files.iter().all(|f| !f.encrypt) {
                ctx.check(i.is_encrypted == enc, "info-encrypted", || format!("is_encrypted {}, files encrypted: {enc} ({d})", i.is_encrypted));
            }
            if let Some(m) = &i.md5_status {
                let all = m.hash_table_valid && m.block_table_valid && m.hi_block_table_valid && m.het_table_valid && m.bet_table_valid && m.header_valid;
                ctx.check(all, "info-md5", || format!("{m:?} for an intact archive ({d})"));
            }
            ctx.check(i.md5_status.is_some() == (fo.o.version == 3), "info-md5", || format!("{:?} ({d})", i.md5_status));
            let n = fo.w.blocks.len() as u32;
            let classic = fo.o.classic;
            let t = &fo.w.tables;
            let t = Tables { hash: (if classic { fo.o.hash_size } else { 0 }, t[0].0), block: (if classic { n } else { 0 }, t[1].0), hi: t[2].0, het: t[3], bet: t[4], files: n };
            check_tables(ctx, &i, fo.o.version as usize, &t, d);
            continue;
        }
        let op = ["Archive::list", "Archive::list_with_hashes", "Archive::list_all", "Archive::list_all_with_hashes"][c];
        let Some(res) = ctx.lib(op, || match c {
            0 => ar.list(),
            1 => ar.list_with_hashes(),
            2 => ar.list_all(),
            _ => ar.list_all_with_hashes(),
        }) else {
            continue;
        };
        let es = match res {
            Ok(e) => e,
            Err(e) => {
                ctx.viol("list-error", format!("{op}: {e} ({})", fo.desc));
                continue;
            }
        };
        ctx.add("foreign_listed", es.len() as u64);
        if c < 2 && lf {
            let mut got: Vec<_> = es.iter().map(|e| (e.name.clone(), e.size, e.compressed_size, e.flags)).collect();
            got.sort();
            ctx.check(got == named, "list-differs", || {
                let miss: Vec<_> = named.iter().filter(|x| !got.contains(x)).take(4).collect();
                let extra: Vec<_> = got.iter().filter(|x| !named.contains(x)).take(4).collect();
                format!("{op}: missing {miss:?}, extra {extra:?} ({})", fo.desc)
            });
        } else {
            let got = triples(&es);
            ctx.check(got == want, "list-all-differs", || format!("{op}: (size, stored, flags) {got:x?}, expected {want:x?} ({})", fo.desc));
        }
        let mut names: Vec<&str> = es.iter().map(|e| e.name.as_str()).collect();
        names.sort();
        names.dedup();
        ctx.check(names.len() == es.len(), "list-twice", || format!("{op}: a name is listed twice ({})", fo.desc));
    }
    ctx.distinct(&format!("foreign v{} het{} classic{} ud{} pre{} lf{lf} n{}", fo.o.version, fo.o.het_bet, fo.o.classic, fo.ud, !fo.pre.is_empty(), live.len().next_power_of_two()));
}

pub fn run(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    if ctx.idx % 3 == 2 {
        return other_writer(ctx);
    }
    let mut spec = gen::spec(&mut r);
    spec.files.retain(|f| !f.name.contains(';') && !f.name.starts_with('#'));
    if r.chance(1, 6) {
        let n = r.range(100, 700);
        let mut seen = spec.files.iter().map(|f| refm::canon(&f.name)).collect();
        for i in 0..n {
            let f = gen::GFile { name: format!("bulk\\{i:05}.bin"), data: vec![i as u8; i % 50], comp: Some(0), enc: false, fix: false, locale: 0, via_path: false };
            gen::push_unique(&mut spec.files, &mut seen, f);
        }
        if matches!(spec.lf, Lf::External(_)) {
            spec.lf = Lf::Generate;
        }
    }
    if r.chance(1, 8) {
        // one more empty file
        let mut seen = spec.files.iter().map(|f| refm::canon(&f.name)).collect();
        gen::push_unique(&mut spec.files, &mut seen, gen::GFile { name: "empty.bin".into(), data: vec![], comp: Some(2), enc: r.bool(), fix: false, locale: 0, via_path: false });
    }
    if let Lf::External(d) = &spec.lf {
        // external listfile: rebuilt here after the filtering above
        if d.is_empty() {
            spec.lf = Lf::None;
        }
    }
    let path = ctx.path("a.mpq");
    if !spec.build(ctx, &path) {
        return;
    }
    let model = spec.model();
    let mut ar = match ctx.lib("Archive::open", || Archive::open(&path)) {
        Some(Ok(a)) => a,
        Some(Err(e)) => return ctx.viol("open-error", format!("{e}")),
        None => return,
    };
    let brief = spec.brief();
    // ---- listings, in any order of calls
    let mut calls = vec![0, 1, 2, 3, 4];
    r.shuffle(&mut calls);
    let named = !matches!(spec.lf, Lf::None);
    let mut want_named: Vec<(String, u64)> = match &spec.lf {
        Lf::Generate => model.iter().map(|(n, d)| (n.clone(), d.len() as u64)).collect(),
        Lf::External(d) => String::from_utf8_lossy(d)
            .lines()
            .map(|l| l.trim().to_string())
            .filter(|l| !l.is_empty() && !l.starts_with(';') && !l.starts_with('#'))
            .map(|l| l.split(';').next().unwrap_or("").trim().to_string())
            .filter_map(|l| model.iter().find(|(n, _)| refm::canon(n) == refm::canon(&l)).map(|(_, d)| (l.clone(), d.len() as u64)))
            .collect(),
        Lf::None => vec![],
    };
    want_named.sort();
    let mut sizes: Vec<u64> = model.iter().map(|(_, d)| d.len() as u64).collect();
    sizes.sort();
    let Some(rf) = std::fs::read(&path).ok().and_then(|b| refm::RefArchive::parse(b, 0).ok()) else { return ctx.viol("malformed", brief) };
    let mut want3: Vec<(u64, u64, u32)> = rf.block.iter().map(|b| (b.size as u64, b.csize as u64, b.flags)).collect();
    want3.sort();
    for c in calls {
        match c {
            0 | 1 => {
                let op = if c == 0 { "Archive::list" } else { "Archive::list_with_hashes" };
                let Some(res) = ctx.lib(op, || if c == 0 { ar.list() } else { ar.list_with_hashes() }) else { continue };
                let es = match res {
                    Ok(e) => e,
                    Err(e) => {
                        ctx.viol("list-error", format!("{op}: {e} ({brief})"));
                        continue;
                    }
                };
                if named {
                    let mut got: Vec<(String, u64)> = es.iter().map(|e| (e.name.clone(), e.size)).collect();
                    got.sort();
                    ctx.add("listed", got.len() as u64);
                    ctx.check(got == want_named, "list-differs", || {
                        let miss: Vec<_> = want_named.iter().filter(|x| !got.contains(x)).take(4).collect();
                        let extra: Vec<_> = got.iter().filter(|x| !want_named.contains(x)).take(4).collect();
                        format!("{op}: {} entries, expected {}; missing {miss:?}, extra {extra:?} ({brief})", got.len(), want_named.len())
                    });
                } else {
                    let mut got: Vec<u64> = es.iter().map(|e| e.size).collect();
                    got.sort();
                    ctx.add("listed_anonymous", got.len() as u64);
                    ctx.check(got == sizes, "list-sizes-differ", || format!("{op} without a listfile: sizes {:?}.. ({} entries), expected {} entries ({brief})", &got[..got.len().min(8)], got.len(), sizes.len()));
                }
                for e in es.iter().take(60) {
                    if c == 1 && named {
                        let h = (refm::hash_string(&e.name, 1), refm::hash_string(&e.name, 2));
                        ctx.check(e.hashes == Some(h), "list-hashes", || format!("{:?}: hashes {:x?}, expected {h:x?}", e.name, e.hashes));
                    }
                    if named {
                        match ctx.lib("Archive::find_file", || ar.find_file(&e.name)) {
                            Some(Ok(Some(f))) => {
                                ctx.check((f.file_size, f.compressed_size, f.flags) == (e.size, e.compressed_size, e.flags), "list-vs-find", || {
                                    format!("{:?}: list says {:?}, find_file says {:?}", e.name, (e.size, e.compressed_size, e.flags), (f.file_size, f.compressed_size, f.flags))
                                });
                            }
                            x => ctx.viol("list-vs-find", format!("{:?} is listed, but find_file gave {x:?}", e.name)),
                        }
                        if let Some(f) = spec.files.iter().find(|f| refm::canon(&f.name) == refm::canon(&e.name)) {
                            ctx.check((e.flags & refm::F_ENCRYPTED != 0) == f.enc, "list-flags", || format!("{:?}: encrypted {} listed with flags {:#x}", e.name, f.enc, e.flags));
                            ctx.check(e.flags & refm::F_EXISTS != 0, "list-flags", || format!("{:?} listed without the exists flag: {:#x}", e.name, e.flags));
                        }
                    }
                }
            }
            2 | 3 => {
                let op = if c == 2 { "Archive::list_all" } else { "Archive::list_all_with_hashes" };
                let Some(res) = ctx.lib(op, || if c == 2 { ar.list_all() } else { ar.list_all_with_hashes() }) else { continue };
                let es = match res {
                    Ok(e) => e,
                    Err(e) => {
                        ctx.viol("list-error", format!("{op}: {e} ({brief})"));
                        continue;
                    }
                };
                let mut got: Vec<u64> = es.iter().map(|e| e.size).collect();
                got.sort();
                ctx.add("listed_anonymous", got.len() as u64);
                ctx.check(got == sizes, "list-all-differs", || format!("{op}: {} entries with sizes {:?}.., expected {} ({brief})", got.len(), &got[..got.len().min(8)], sizes.len()));
                let got3 = triples(&es);
                ctx.check(got3 == want3, "list-all-differs", || {
                    let miss: Vec<_> = want3.iter().filter(|x| !got3.contains(x)).take(4).collect();
                    format!("{op}: the archive has (size, stored, flags) {miss:x?}, not listed ({brief})")
                });
                if c == 3 && spec.ver < 2 {
                    let mut h: Vec<_> = es.iter().map(|e| (e.hashes, e.size)).collect();
                    h.sort();
                    let mut w: Vec<_> = model.iter().map(|(n, d)| (Some((refm::hash_string(n, 1), refm::hash_string(n, 2))), d.len() as u64)).collect();
                    w.sort();
                    ctx.check(h == w, "list-all-hashes", || format!("{op}: hashes differ from the names' ({brief})"));
                }
            }
            _ => {
                let Some(res) = ctx.lib("Archive::get_info", || ar.get_info()) else { continue };
                let i = match res {
                    Ok(i) => i,
                    Err(e) => {
                        ctx.viol("info-error", format!("get_info: {e} ({brief})"));
                        continue;
                    }
                };
                ctx.count("infos");
                let flen = std::fs::metadata(&path).map(|m| m.len()).unwrap_or(0);
                ctx.check(i.file_count == model.len(), "info-count", || format!("file_count {} but {} files were added ({brief})", i.file_count, model.len()));
                ctx.check(i.format_version == gen::VERSIONS[spec.ver], "info-version", || format!("{:?}, built as V{}", i.format_version, spec.ver + 1));
                ctx.check(i.sector_size == spec.ss(), "info-sector", || format!("sector_size {}, built with {}", i.sector_size, spec.ss()));
                ctx.check(i.file_size == flen, "info-size", || format!("file_size {}, file has {flen}", i.file_size));
                ctx.check(i.archive_offset == 0, "info-offset", || format!("archive_offset {}", i.archive_offset));
                ctx.check(i.has_listfile == named, "info-listfile", || format!("has_listfile {} ({brief})", i.has_listfile));
                ctx.check(!i.has_attributes && !i.has_signature, "info-special", || format!("attributes {} signature {} ({brief})", i.has_attributes, i.has_signature));
                let enc = spec.files.iter().any(|f| f.enc);
                ctx.check(i.is_encrypted == enc, "info-encrypted", || format!("is_encrypted {}, files encrypted: {enc} ({brief})", i.is_encrypted));
                let het = if spec.ver >= 2 { (rf.hetpos, rf.betpos - rf.hetpos) } else { (0, 0) };
                let bet = if spec.ver >= 2 { (rf.betpos, rf.hpos - rf.betpos) } else { (0, 0) };
                let t = Tables { hash: (rf.hcount, rf.hpos), block: (rf.bcount, rf.bpos), hi: rf.hipos, het, bet, files: model.len() as u32 };
                check_tables(ctx, &i, spec.ver, &t, &brief);
                ctx.check(i.max_file_count as usize >= model.len() && i.user_data_info.is_none(), "info-capacity", || format!("capacity {} for {} files, user data {:?}", i.max_file_count, model.len(), i.user_data_info));
                match (&i.md5_status, spec.ver == 3) {
                    (Some(m), true) => {
                        let all = m.hash_table_valid && m.block_table_valid && m.hi_block_table_valid && m.het_table_valid && m.bet_table_valid && m.header_valid;
                        ctx.check(all, "info-md5", || format!("{m:?} for an intact archive ({brief})"));
                    }
                    (None, false) => {}
                    (m, _) => ctx.viol("info-md5", format!("md5_status {m:?} in V{}", spec.ver + 1)),
                }
            }
        }
    }
    ctx.distinct(&format!(
        "v{} lf{} n{} enc{} empty{} bs{} crc{}",
        spec.ver,
        match spec.lf {
            Lf::Generate => 0,
            Lf::None => 1,
            _ => 2,
        },
        model.len().next_power_of_two(),
        spec.files.iter().any(|f| f.enc),
        spec.files.iter().any(|f| f.data.is_empty()),
        spec.bs,
        spec.crc
    ));
    if ctx.idx % 64 == 0 {
        ctx.sample = Some(json!(brief));
    }
}
