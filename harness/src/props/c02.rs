//! C02: a name finds exactly the file added under it.
use crate::core::{Ctx, Prop};
use crate::gen::{self, GFile, Lf, Spec};
use crate::refm;
use mopaq::{Archive, Error};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        quick: 24000,
        thorough: 500000,
        run,
        need: &[("lookups_present", 20000), ("lookups_absent", 20000), ("absent_sharing_slot", 300), ("absent_sharing_het_bits", 200), ("duplicates_rejected", 150), ("chains_len>=3", 100), ("extended_tables_only", 1000), ("classic_tables_only", 1000), ("forged_hashes", 1000)],
        rule: "distinct (version, table size, longest probe chain, wraps around the table end, kind of absent name) situations looked up",
        level: "exploration",
        assumptions: &["two names with equal 32-bit hashes A and B and equal slot, or equal 64-bit extended hash, are not searched for (none known)"],
        workers: 8,
    }
}

fn tiny(name: String, i: usize) -> GFile {
    GFile { name, data: format!("#{i}#").into_bytes(), comp: Some(0), enc: i % 5 == 1, fix: false, locale: if i % 7 == 3 { 0x409 } else { 0 }, via_path: false }
}

pub fn run(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    if ctx.idx % 8 == 7 {
        return duplicates(ctx);
    }
    let ver = r.usize(4);
    let nf = match r.below(24) {
        0 => 0,
        1 => 1,
        2 => r.range(100, 400),
        3 => r.range(500, if ctx.thorough { 20000 } else { 2500 }),
        _ => r.range(2, 40),
    };
    let total = nf + 1;
    let hsize = (total.max(8) * 2).next_power_of_two() as u32; // as in the docs: twice the files, at least 16
    let mut names: Vec<String> = vec![];
    let mut seen: BTreeSet<Vec<u8>> = BTreeSet::new();
    seen.insert(refm::canon("(listfile)"));
    let mut push = |n: String, names: &mut Vec<String>| {
        if names.len() < nf && seen.insert(refm::canon(&n)) {
            names.push(n);
        }
    };
    // clusters in the classic and in the extended table, some at the table's end so that chains wrap
    if nf > 3 && hsize <= 2048 {
        for _ in 0..r.range(1, 3) {
            let slot = if r.bool() { hsize - 1 - r.below(2) as u32 } else { r.below(hsize as u64) as u32 };
            let j = r.bool();
            let k = r.range(2, 6);
            for n in gen::colliding(&mut r, hsize, slot, k, j) {
                push(n, &mut names);
            }
        }
    }
    while names.len() < nf {
        let n = if r.chance(1, 3) && !names.is_empty() {
            // a relative of an existing name
            let b = r.pick(&names).clone();
            match r.below(4) {
                0 => format!("{b}x"),
                1 => b.chars().rev().collect(),
                2 => format!("d\\{b}"),
                _ => b.chars().skip(1).collect(),
            }
        } else {
            gen::name(&mut r)
        };
        let n = n.trim().to_string();
        if n.is_empty() || n.contains(';') || n.starts_with('#') {
            continue;
        }
        let before = names.len();
        push(n, &mut names);
        if names.len() == before {
            push(format!("uniq\\{}", r.next()), &mut names);
        }
    }
    r.shuffle(&mut names);
    let files: Vec<GFile> = names.iter().enumerate().map(|(i, n)| tiny(n.clone(), i)).collect();
    let spec = Spec { ver, bs: 3, default_comp: 0, crc: r.bool(), ctab: r.bool(), tcomp: refm::ZLIB, lf: if r.chance(1, 4) { Lf::None } else { Lf::Generate }, files };
    let path = ctx.path("a.mpq");
    if !spec.build(ctx, &path) {
        return;
    }
    // version 3 and 4 archives may have only one of the two kinds of tables
    let only = if ver < 2 || names.is_empty() || r.bool() { 0 } else { r.range(1, 2) };
    let mut forged = None;
    if only != 0 || (ver < 2 && r.chance(1, 3)) {
        match rework(&mut r, &path, only, &names, spec.ctab) {
            Ok(f) => forged = f,
            Err(e) => return ctx.viol("tables-malformed", e),
        }
        ctx.count(["classic_tables_reworked", "classic_tables_only", "extended_tables_only"][only]);
        if forged.is_some() {
            ctx.count("forged_hashes");
        }
    }
    let mut ar = match ctx.lib("Archive::open", || Archive::open(&path)) {
        Some(Ok(a)) => a,
        Some(Err(e)) => return ctx.viol("open-error", format!("{e} (tables {only})")),
        None => return,
    };
    let has_lf = matches!(spec.lf, Lf::Generate);
    // longest chain in the reference view of the table, for coverage only
    let chain = std::fs::read(&path).ok().and_then(|b| refm::RefArchive::parse(b, 0).ok()).map(|a| longest_run(&a)).unwrap_or(0);
    if chain >= 3 {
        ctx.count("chains_len>=3");
    }
    ctx.max("chain", chain as u64);
    let index: BTreeMap<Vec<u8>, usize> = names.iter().enumerate().filter(|(i, _)| Some(*i) != forged).map(|(i, n)| (refm::canon(n), i)).collect();
    let probe = |ctx: &mut Ctx, ar: &mut Archive, n: &str, kind: &str, read: bool| {
        let c = refm::canon(n);
        let want = index.get(&c).copied();
        let is_lf = c == refm::canon("(listfile)");
        let Some(got) = ctx.lib("Archive::find_file", || ar.find_file(n)) else { return };
        let got = match got {
            Ok(g) => g,
            Err(e) => return ctx.viol("find-error", format!("find_file({n:?}) failed: {e}")),
        };
        match (want, is_lf && has_lf) {
            (Some(i), _) => {
                ctx.count("lookups_present");
                let len = format!("#{i}#").len() as u64;
                let ok = got.as_ref().map(|f| f.file_size == len).unwrap_or(false);
                ctx.check(ok, "present-not-found", || format!("{n:?} (file {i} of {}): find_file gave {got:?}, expected a file of {len} bytes", names.len()));
                if read {
                    match ctx.lib("Archive::read_file", || ar.read_file(n)) {
                        Some(Ok(d)) => {
                            ctx.check(d == format!("#{i}#").as_bytes(), "wrong-file", || format!("{n:?} returned {:?}, expected file {i}", String::from_utf8_lossy(&d)));
                        }
                        Some(Err(e)) => ctx.viol("read-error", format!("{n:?}: {e}")),
                        None => {}
                    }
                }
            }
            (None, true) => {
                ctx.check(got.is_some(), "listfile-not-found", || format!("{n:?} not found"));
            }
            (None, false) => {
                ctx.count("lookups_absent");
                ctx.count(&format!("absent:{kind}"));
                ctx.check(got.is_none(), "absent-found", || format!("{n:?} ({kind}) was never added but find_file gave {got:?}"));
                if read {
                    if let Some(x) = ctx.lib("Archive::read_file", || ar.read_file(n)) {
                        ctx.check(matches!(x, Err(Error::FileNotFound(_))), "absent-read", || format!("read_file({n:?}) of an absent file gave {x:?}"));
                    }
                }
            }
        }
    };
    let cap = 160;
    let mut order: Vec<usize> = (0..names.len()).collect();
    r.shuffle(&mut order);
    for &i in order.iter().take(cap * 3) {
        let n = gen::respell(&mut r, &names[i]);
        probe(ctx, &mut ar, &n, "present", r.chance(1, 2));
    }
    if let Some(i) = forged {
        probe(ctx, &mut ar, &names[i], "one-hash-bit-off", true);
    }
    probe(ctx, &mut ar, "(listfile)", "listfile", true);
    probe(ctx, &mut ar, "(LISTFILE)", "listfile", false);
    // absent names
    for &i in order.iter().take(cap) {
        let b = names[i].clone();
        let n = match r.below(8) {
            0 => format!("{b}0"),
            1 => {
                let mut c: Vec<char> = b.chars().collect();
                c.pop();
                c.into_iter().collect()
            }
            2 => format!("\\{b}"),
            3 => b.replace(['\\', '/'], "|"),
            4 => {
                let mut c: Vec<char> = b.chars().collect();
                let k = r.usize(c.len());
                c[k] = if c[k] == 'q' { 'w' } else { 'q' };
                c.into_iter().collect()
            }
            5 => b.to_uppercase(), // differs for letters beyond ASCII
            6 => format!("{b} "),
            _ => b.rsplit(['\\', '/']).next().unwrap_or("").to_string(),
        };
        probe(ctx, &mut ar, &n, "near", r.chance(1, 4));
    }
    for _ in 0..20 {
        let n = gen::name(&mut r);
        probe(ctx, &mut ar, &n, "random", false);
    }
    for n in ["", "(attributes)", "(signature)", "file_00000000.dat", "\u{0}", "\\", "/"] {
        probe(ctx, &mut ar, n, "special", r.chance(1, 4));
    }
    // absent names that fall on the same slot (and, extended, on the same stored hash bits) as a present one
    if hsize <= 1024 && !names.is_empty() {
        for _ in 0..3 {
            let b = r.pick(&names).clone();
            let s = refm::hash_string(&b, 0) & (hsize - 1);
            for n in gen::colliding(&mut r, hsize, s, 2, false) {
                ctx.count("absent_sharing_slot");
                probe(ctx, &mut ar, &n, "same-slot", true);
            }
            if ver >= 2 {
                let bits = hsize.max(1024);
                let s = refm::jenkins(&b) as u32 & (bits - 1);
                for n in gen::colliding(&mut r, bits, s, 2, true) {
                    ctx.count("absent_sharing_het_bits");
                    probe(ctx, &mut ar, &n, "same-het-bits", true);
                }
            }
        }
    }
    ctx.distinct(&format!("v{ver} h{hsize} chain{} lf{has_lf} n{}", chain.min(12), names.len().next_power_of_two()));
    if ctx.idx % 64 == 0 {
        ctx.sample = Some(json!({"version": ver + 1, "files": names.len(), "hash_table": hsize, "longest_chain": chain}));
    }
}

/// Remove one kind of tables (1: the extended ones, 2: the classic ones) from the archive, and maybe
/// give one file another name hash, one bit off: its name is then the name of no file.
fn rework(r: &mut crate::rng::Rng, path: &std::path::Path, only: usize, names: &[String], ctab: bool) -> Result<Option<usize>, String> {
    let mut b = std::fs::read(path).map_err(|e| e.to_string())?;
    let a = refm::RefArchive::parse(b.clone(), 0)?;
    let mut forged = None;
    let pick = if names.is_empty() || r.chance(1, 3) { None } else { Some(r.usize(names.len())) };
    if only == 2 {
        if let (Some(i), false) = (pick, ctab) {
            // the name hashes end the table: 64 bits per file, in the order of the blocks
            let n = a.block.len();
            let end = if a.version == 3 { a.betpos + a.v4sizes[4] } else { a.hpos } as usize;
            let (s, len) = (a.betpos as usize + 12, end - a.betpos as usize - 12);
            let key = refm::hash_string("(block table)", 3);
            let whole = len / 4 * 4;
            refm::crypt_bytes(&mut b[s..s + whole], key, false);
            let at = s + len - 8 * n + 8 * i;
            if refm::u64at(&b, at) == refm::jenkins(&names[i]) {
                let bit = r.usize(64);
                b[at + bit / 8] ^= 1 << (bit % 8);
                forged = Some(i);
            }
            refm::crypt_bytes(&mut b[s..s + whole], key, true);
        }
        b[24..32].fill(0);
    } else {
        if let Some(i) = pick {
            let (h1, h2) = (refm::hash_string(&names[i], 1), refm::hash_string(&names[i], 2));
            if let Some(k) = a.hash.iter().position(|e| e.a == h1 && e.b == h2) {
                let (s, len) = (a.hpos as usize, a.hash.len() * 16);
                let key = refm::hash_string("(hash table)", 3);
                refm::crypt_bytes(&mut b[s..s + len], key, false);
                let bit = r.usize(64);
                b[s + k * 16 + bit / 8] ^= 1 << (bit % 8);
                refm::crypt_bytes(&mut b[s..s + len], key, true);
                forged = Some(i);
            }
        }
        if only == 1 {
            b[52..68].fill(0);
        }
    }
    std::fs::write(path, b).map_err(|e| e.to_string())?;
    Ok(forged)
}

fn longest_run(a: &refm::RefArchive) -> usize {
    let n = a.hash.len();
    let (mut best, mut cur) = (0, 0);
    for k in 0..2 * n {
        if a.hash[k % n].block != 0xFFFF_FFFF {
            cur += 1;
            best = best.max(cur);
        } else {
            cur = 0;
        }
    }
    best.min(n)
}

/// Same name and locale twice: the build fails. Same name, other locale: both entries are there.
fn duplicates(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let ver = r.usize(4);
    let n = r.range(1, 30);
    let mut files = vec![];
    let mut seen = BTreeSet::new();
    seen.insert(refm::canon("(listfile)"));
    while files.len() < n {
        let mut f = gen::gfile(&mut r, 4096);
        f.data.truncate(64);
        f.locale = 0;
        gen::push_unique(&mut files, &mut seen, f);
    }
    let path = ctx.path("d.mpq");
    let other_locale = r.chance(1, 3);
    let victim = r.usize(files.len());
    let mut dup = files[victim].clone();
    dup.name = gen::respell(&mut r, &dup.name);
    dup.data = b"the other one, of another length".to_vec();
    if other_locale {
        dup.locale = *r.pick(&[0x409u16, 0x407, 0x411]);
    }
    let name = dup.name.clone();
    let (la, lb) = (files[victim].data.len() as u64, dup.data.len() as u64);
    let loc = dup.locale;
    let at = r.usize(files.len() + 1);
    files.insert(at, dup);
    let spec = Spec { ver, bs: 3, default_comp: 2, crc: false, ctab: false, tcomp: 2, lf: if r.bool() { Lf::Generate } else { Lf::None }, files };
    let b = spec.builder(&ctx.dir.clone());
    let Some(res) = ctx.lib("ArchiveBuilder::build", || b.build(&path)) else { return };
    if !other_locale {
        ctx.count("duplicates_rejected");
        ctx.distinct(&format!("dup v{ver} n{n}"));
        ctx.check(res.is_err(), "duplicate-accepted", || format!("two files named {name:?} (locale 0) in one archive: build succeeded"));
        ctx.check(!path.exists(), "duplicate-left-archive", || "a failed build left an archive behind".into());
        return;
    }
    ctx.count("locale_pairs");
    if let Err(e) = res {
        return ctx.viol("locale-pair-rejected", format!("{name:?} for locales 0 and {loc:#x}: {e}"));
    }
    let ar = match ctx.lib("Archive::open", || Archive::open(&path)) {
        Some(Ok(a)) => a,
        Some(Err(e)) => return ctx.viol("open-error", format!("{e}")),
        None => return,
    };
    let (Some(ht), Some(bt)) = (ar.hash_table(), ar.block_table()) else { return ctx.viol("tables-missing", "classic tables not loaded") };
    let mut sizes: Vec<(u16, u64)> = ht
        .entries()
        .iter()
        .filter(|e| e.is_valid() && e.name_1 == refm::hash_string(&name, 1) && e.name_2 == refm::hash_string(&name, 2))
        .map(|e| (e.locale, bt.get(e.block_index as usize).map(|b| b.file_size as u64).unwrap_or(u64::MAX)))
        .collect();
    sizes.sort();
    ctx.check(sizes == vec![(0, la), (loc, lb)], "locale-pair-lost", || format!("{name:?}: entries (locale, size) {sizes:?}, expected [(0, {la}), ({loc:#x}, {lb})]"));
    match ctx.lib("Archive::find_file", || ar.find_file(&name)) {
        Some(Ok(Some(f))) => {
            ctx.check(f.file_size == la || f.file_size == lb, "wrong-file", || format!("{name:?}: {f:?}"));
        }
        x => ctx.viol("present-not-found", format!("{name:?} in two locales: {x:?}")),
    }
}
