//! C11: the special files: (attributes) data comes back entry by entry, (listfile) text means its lines,
//! and neither can take the archive down.
use crate::core::{Ctx, Prop};
use crate::gen::{self, GFile, Lf};
use crate::refm;
use crate::rng::Rng;
use crate::special::{crc32, encode, Ent};
use mopaq::special_files::{get_special_file_info, parse_listfile, AttributeFlags, Attributes, FileAttributes};
use mopaq::Archive;
use serde_json::json;

pub fn prop() -> Prop {
    Prop {
        id: "C11",
        quick: 20000,
        thorough: 400000,
        run,
        need: &[("attr_roundtrips", 20000), ("attr_short_rejected", 2000), ("archive_attr_entries", 8000), ("damaged_attributes", 800), ("damage_refused", 200), ("foreign_attr_entries", 4000), ("listfiles", 20000)],
        rule: "distinct (attribute set, entry count, archive version) combinations and listfile line shapes compared with the model",
        level: "exploration",
        assumptions: &["attribute data has one entry per block table entry"],
        workers: 8,
    }
}

fn expect(flags: u32, e: &Ent) -> FileAttributes {
    FileAttributes {
        crc32: (flags & 1 != 0).then_some(e.0),
        filetime: (flags & 2 != 0).then_some(e.1),
        md5: (flags & 4 != 0).then_some(e.2),
        is_patch: (flags & 8 != 0).then_some(e.3),
    }
}

pub fn run(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    for _ in 0..4 {
        standalone(ctx, &mut r);
        listfile(ctx, &mut r);
    }
    if ctx.idx % 4 == 0 {
        in_archive(ctx, &mut r);
    }
    if ctx.idx % 4 == 1 {
        in_foreign(ctx, &mut r);
    }
    if ctx.idx == 0 {
        for (n, enc, comp) in [("(listfile)", false, true), ("(attributes)", false, true), ("(signature)", false, false)] {
            let i = get_special_file_info(n);
            ctx.check(i.as_ref().is_some_and(|i| i.name == n && i.encrypted == enc && i.compressed == comp), "special-info", || format!("{n}: {i:?}"));
        }
        ctx.check(get_special_file_info("war3map.j").is_none(), "special-info", || "ordinary file".into());
    }
}

fn standalone(ctx: &mut Ctx, r: &mut Rng) {
    let flags = r.below(16) as u32;
    let n = match r.below(4) {
        0 => r.usize(3),
        1 => *r.pick(&[7usize, 8, 9, 15, 16, 17, 63, 64, 65]),
        _ => r.usize(60),
    };
    let ents: Vec<Ent> = (0..n)
        .map(|_| {
            let mut m = [0u8; 16];
            m.copy_from_slice(&r.bytes(16));
            (r.u32(), r.next(), m, r.bool())
        })
        .collect();
    let raw = encode(flags, &ents);
    let mut padded = raw.clone();
    let pad = r.usize(5);
    padded.extend(r.bytes(pad));
    let by = bytes::Bytes::from(padded);
    let want: Vec<FileAttributes> = ents.iter().map(|e| expect(flags, e)).collect();
    ctx.count("attr_roundtrips");
    ctx.distinct(&format!("attr f{flags} n{}", n.min(70)));
    match ctx.lib("Attributes::parse", || Attributes::parse(&by, n)) {
        Some(Ok(a)) => {
            ctx.check(a.file_attributes == want && a.flags.as_u32() == flags && a.version == 100, "attr-parse", || format!("flags {flags:#x}, {n} entries: parsed entries differ"));
            let has = [a.flags.has_crc32(), a.flags.has_filetime(), a.flags.has_md5(), a.flags.has_patch_bit()];
            ctx.check((0..4).all(|i| has[i] == (flags >> i & 1 == 1)), "attr-flags", || format!("flags {flags:#x}: has_crc32, has_filetime, has_md5, has_patch_bit say {has:?}"));
            let ok = (0..n).all(|i| a.get_file_attributes(i) == Some(&want[i])) && a.get_file_attributes(n).is_none();
            ctx.check(ok, "attr-index", || format!("flags {flags:#x}, {n} entries: get_file_attributes"));
            if let Some(Ok(b)) = ctx.lib("Attributes::to_bytes", || a.to_bytes()) {
                ctx.check(b == raw, "attr-serialise", || format!("flags {flags:#x}, {n} entries: {}", crate::core::diff(&b, &raw)));
            } else {
                ctx.viol("attr-serialise", "to_bytes failed".to_string());
            }
        }
        Some(Err(e)) => ctx.viol("attr-parse", format!("flags {flags:#x}, {n} entries, {} bytes: {e}", raw.len())),
        None => return,
    }
    // fields that are not selected by the flags are not written
    let full = Attributes {
        version: 100,
        flags: AttributeFlags::new(flags),
        file_attributes: ents.iter().map(|e| expect(15, e)).collect(),
    };
    if let Some(Ok(b)) = ctx.lib("Attributes::to_bytes", || full.to_bytes()) {
        ctx.check(b == raw, "attr-serialise", || format!("flags {flags:#x}, all fields set, {n} entries: {}", crate::core::diff(&b, &raw)));
    }
    // too short, or of another version
    if raw.len() > 8 || r.bool() {
        let cut = bytes::Bytes::from(raw[..r.usize(raw.len())].to_vec());
        if let Some(x) = ctx.lib("Attributes::parse", || Attributes::parse(&cut, n)) {
            ctx.count("attr_short_rejected");
            ctx.check(x.is_err(), "attr-short-accepted", || format!("flags {flags:#x}, {n} entries: {} of {} bytes accepted", cut.len(), raw.len()));
        }
    }
    let mut other = raw.clone();
    other[r.usize(4)] ^= 1 << r.below(8);
    let other = bytes::Bytes::from(other);
    if let Some(x) = ctx.lib("Attributes::parse", || Attributes::parse(&other, n)) {
        ctx.check(x.is_err(), "attr-version", || format!("version {:?} accepted", &other[..4]));
    }
}

fn listfile(ctx: &mut Ctx, r: &mut Rng) {
    let mut text = String::new();
    let mut want = vec![];
    let eol = *r.pick(&["\r\n", "\n"]);
    let n = r.usize(14);
    let mut shape = String::new();
    for i in 0..n {
        let k = r.below(8);
        shape.push((b'0' + k as u8) as char);
        match k {
            0 => text += *r.pick(&["", " ", "\t", "   "]),
            1 => text += *r.pick(&["; comment", ";", "# comment", "#x", "  ; indented", "\t# x"]),
            2 => {
                let nm = lname(r);
                text += &format!("{nm};size=12;locale=0");
                want.push(nm);
            }
            3 => {
                let nm = lname(r);
                text += &format!("  {nm}\t");
                want.push(nm);
            }
            4 => {
                let nm = lname(r);
                text += &format!("{nm} ; note");
                want.push(nm);
            }
            _ => {
                let nm = lname(r);
                text += &nm;
                want.push(nm);
            }
        }
        if i + 1 < n || r.bool() {
            text += eol;
        }
    }
    ctx.count("listfiles");
    ctx.distinct(&format!("lf {} {}", shape.chars().take(4).collect::<String>(), eol.len()));
    if let Some(x) = ctx.lib("parse_listfile", || parse_listfile(text.as_bytes())) {
        ctx.check(x.as_ref().is_ok_and(|v| *v == want), "listfile", || format!("{text:?} parsed as {x:?}, expected {want:?}"));
    }
}
fn lname(r: &mut Rng) -> String {
    loop {
        let n = gen::name(r);
        let n = n.trim().to_string();
        if !n.is_empty() && !n.contains([';', '\n', '\r']) && !n.starts_with('#') {
            return n;
        }
    }
}

fn in_archive(ctx: &mut Ctx, r: &mut Rng) {
    let mut spec = gen::spec(r);
    spec.files.truncate(20);
    if !spec.files.is_empty() && matches!(spec.lf, Lf::External(_)) {
        spec.lf = Lf::Generate;
    }
    let blocks = spec.files.len() + 1 + matches!(spec.lf, Lf::Generate | Lf::External(_)) as usize;
    let flags = r.below(16) as u32;
    let damaged = r.chance(1, 4);
    let mut hopeless = false;
    // block order is the order of adding: put the attributes file at a random place
    let at = r.usize(spec.files.len() + 1);
    spec.files.insert(at, GFile { name: "(attributes)".into(), data: vec![], comp: Some(*r.pick(&gen::LOSSLESS)), enc: r.chance(1, 6), fix: false, locale: 0, via_path: false });
    let model = spec.model();
    let mut ents: Vec<Ent> = vec![];
    for (_, d) in &model {
        ents.push((crc32(d), r.next(), refm::md5(d), r.bool()));
    }
    assert_eq!(ents.len(), blocks);
    let mut raw = encode(flags, &ents);
    if damaged {
        match r.below(4) {
            0 => {
                raw.truncate(r.usize(raw.len()));
                hopeless = true;
            }
            1 => {
                raw[1 + r.usize(3)] ^= 1 + r.u8() % 255;
                hopeless = true;
            }
            2 if r.bool() => raw[0] ^= 1 + r.u8() % 255,
            2 => raw = r.bytes(40),
            _ => {
                let n = r.usize(200);
                raw = vec![*r.pick(&[2u8, 8, 0x10, 0x12, 1, 0x41]); n]
            }
        }
    }
    if !damaged && r.chance(1, 6) {
        // compressed once more, as some writers do
        let mut d = vec![refm::ZLIB];
        d.extend(refm::comp(refm::ZLIB, &raw));
        raw = d;
        ctx.count("doubly_compressed");
    }
    spec.files[at].data = raw.clone();
    let model = spec.model();
    let path = ctx.path("a.mpq");
    if !spec.build(ctx, &path) {
        return;
    }
    let brief = format!("flags {flags:#x} damaged {damaged} {}", spec.brief());
    let mut ar = match ctx.lib("Archive::open", || Archive::open(&path)) {
        Some(Ok(a)) => a,
        Some(Err(e)) => return ctx.viol("attributes-block-open", format!("{e} ({brief})")),
        None => return,
    };
    let Some(res) = ctx.lib("Archive::load_attributes", || ar.load_attributes()) else { return };
    if damaged {
        ctx.count("damaged_attributes");
        if hopeless {
            ctx.check(res.is_err(), "attributes-damage-accepted", || format!("load_attributes accepted damaged data ({brief})"));
            ctx.check(ar.attributes().is_none() && ar.get_file_attributes(0).is_none(), "attributes-damage-accepted", || format!("attributes from damaged data ({brief})"));
            ctx.count("damage_refused");
        }
    } else {
        if let Err(e) = res {
            return ctx.viol("attributes-error", format!("{e} ({brief})"));
        }
        for (n, _) in &model {
            let idx = match ctx.lib("Archive::find_file", || ar.find_file(n)) {
                Some(Ok(Some(i))) => i.block_index,
                _ => {
                    ctx.viol("attributes-lookup", format!("{n:?} not found ({brief})"));
                    continue;
                }
            };
            let i = model.iter().position(|m| m.0 == *n).unwrap();
            ctx.count("archive_attr_entries");
            let got = ar.get_file_attributes(idx).cloned();
            let want = expect(flags, &ents[i]);
            ctx.check(got.as_ref() == Some(&want), "attributes-entry", || format!("{n:?} (block {idx}): {got:?}, expected {want:?} ({brief})"));
        }
        ctx.distinct(&format!("in-archive f{flags} v{} n{}", spec.ver, blocks.min(30)));
    }
    for (n, w) in &model {
        match ctx.lib("Archive::read_file", || ar.read_file(n)) {
            Some(Ok(d)) => {
                ctx.check(d == *w, "content-differs", || format!("{n:?} ({brief})"));
            }
            Some(Err(e)) => ctx.viol("read-error", format!("{n:?}: {e} ({brief})")),
            None => return,
        }
    }
    match ctx.lib("Archive::get_info", || ar.get_info()) {
        Some(Ok(i)) => {
            ctx.check(i.has_attributes, "has-attributes", || brief.clone());
        }
        Some(Err(e)) => ctx.viol("info-error", format!("{e} ({brief})")),
        None => {}
    }
    if ctx.idx % 256 == 0 {
        ctx.sample = Some(json!(brief));
    }
}

/// Attributes in an archive of another writer: deleted and spare blocks have entries too.
fn in_foreign(ctx: &mut Ctx, r: &mut Rng) {
    let shift = r.below(4) as u16;
    let ss = 512usize << shift;
    let version = r.below(4) as u16;
    let nf = r.range(1, 24);
    let mut seen: std::collections::BTreeSet<Vec<u8>> = ["(listfile)", "(attributes)", "(signature)"].iter().map(|s| refm::canon(s)).collect();
    let mut files = vec![];
    while files.len() < nf {
        let n = gen::name(r);
        if seen.insert(refm::canon(&n)) {
            let mut f = crate::foreign::wfile(r, n, ss);
            if r.chance(1, 5) {
                f.deleted = true;
                f.clear_flags = refm::F_EXISTS;
            }
            files.push(f);
        }
    }
    let at = r.usize(nf + 1);
    let mut a = crate::foreign::wfile(r, "(attributes)".into(), ss);
    a.encrypt = false;
    a.fix_key = false;
    a.layout = refm::Layout::Raw;
    a.methods = vec![0];
    let spare = if r.bool() { r.below(5) as u32 } else { 0 };
    let n = nf + 1 + spare as usize;
    let flags = r.below(16) as u32;
    let mut ents: Vec<Ent> = (0..n)
        .map(|_| {
            let mut m = [0u8; 16];
            m.copy_from_slice(&r.bytes(16));
            (r.u32(), r.next(), m, r.bool())
        })
        .collect();
    a.data = encode(flags, &ents);
    files.insert(at, a);
    let het_bet = version >= 2 && r.chance(2, 3);
    let o = refm::WOpts {
        version,
        shift,
        hash_size: (n as u32 * 2).next_power_of_two().max(4),
        spare_blocks: spare,
        shuffle_blocks: r.bool(),
        tables_first: false,
        hi_block: version >= 1 && r.chance(1, 4),
        het_bet,
        table_method: *r.pick(&[0u8, 0, refm::ZLIB]),
        v4_md5: true,
        gap: 0,
        classic: !(het_bet && r.chance(1, 4)),
        ext_mix: 0,
    };
    // once to learn which block belongs to which file
    let w = refm::write_archive(&files, &o, &mut r.clone());
    for (i, f) in files.iter().enumerate() {
        let e = &mut ents[w.block_of[i] as usize];
        e.0 = crc32(&f.data);
        e.2 = refm::md5(&f.data);
    }
    files[at].data = encode(flags, &ents);
    let w = refm::write_archive(&files, &o, r);
    let path = ctx.path("g.mpq");
    w.to_file(&path, &[]).unwrap();
    let brief = format!("flags {flags:#x}, foreign v{} with {nf} files, {} deleted, {spare} spare, shuffled {}, het {het_bet}, classic {}", version + 1, files.iter().filter(|f| f.deleted).count(), o.shuffle_blocks, o.classic);
    let mut ar = match ctx.lib("Archive::open", || Archive::open(&path)) {
        Some(Ok(a)) => a,
        Some(Err(e)) => return ctx.viol("attributes-block-open", format!("{e} ({brief})")),
        None => return,
    };
    if let Some(Err(e)) = ctx.lib("Archive::load_attributes", || ar.load_attributes()) {
        return ctx.viol("attributes-error", format!("{e} ({brief})"));
    }
    for (i, f) in files.iter().enumerate().filter(|x| !x.1.deleted) {
        let idx = match ctx.lib("Archive::find_file", || ar.find_file(&f.name)) {
            Some(Ok(Some(i))) => i.block_index,
            _ => {
                ctx.viol("attributes-lookup", format!("{:?} not found ({brief})", f.name));
                continue;
            }
        };
        ctx.count("foreign_attr_entries");
        let got = ar.get_file_attributes(idx).cloned();
        let want = expect(flags, &ents[w.block_of[i] as usize]);
        ctx.check(got.as_ref() == Some(&want), "attributes-entry", || format!("{:?} (block {idx}): {got:?}, expected {want:?} ({brief})", f.name));
    }
    ctx.distinct(&format!("foreign f{flags} v{version} sp{} sh{} het{het_bet} cl{}", spare.min(1), o.shuffle_blocks, o.classic));
}
