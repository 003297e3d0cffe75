//! C18: what the API shows of an archive's structure is what is in the file: header, user data, hash, block,
//! hi-block, HET and BET tables, field by field, and the lookups made directly on those tables.
use super::c07;
use crate::core::{Ctx, Prop};
use crate::gen;
use crate::refm::{self, hash_string, jenkins, u16at, u32at, u64at};
use crate::rng::Rng;
use mopaq::header::{find_header, FormatVersion, MpqHeader};
use mopaq::tables::{BlockEntry, HashEntry};
use mopaq::{Archive, BetTable, BlockTable, HashTable, HetTable, OpenOptions};
use serde_json::json;
use std::io::Cursor;
use std::os::unix::fs::FileExt;
use std::path::Path;

pub fn prop() -> Prop {
    Prop {
        id: "C18",
        quick: 24000,
        thorough: 240000,
        run,
        need: &[("headers", 20000), ("entries", 200000), ("hi_entries", 4000), ("het_lookups", 10000), ("bet_entries", 10000), ("table_lookups", 200000), ("locale_lookups", 40000), ("found_headers", 8000), ("created", 300), ("hand_made_bet", 10000)],
        rule: "distinct (version, origin, placement, tables present, table widths, entry flags) situations whose exposed structures were compared with the bytes of the file",
        level: "exploration",
        assumptions: &["headers that the reader refuses are judged by C09"],
        workers: 8,
    }
}

fn raw(p: &Path, pos: u64, n: usize) -> Option<Vec<u8>> {
    let f = std::fs::File::open(p).ok()?;
    let mut b = vec![0; n];
    f.read_exact_at(&mut b, pos).ok()?;
    Some(b)
}

/// The header as the format describes it, field by field, as text.
fn header_text(b: &[u8]) -> String {
    let v = u16at(b, 12);
    let mut s = format!("size {} archive {} v{} shift {} hash {}/{} block {}/{}", u32at(b, 4), u32at(b, 8), v + 1, u16at(b, 14), u32at(b, 16), u32at(b, 24), u32at(b, 20), u32at(b, 28));
    let (mut h, mut t, mut a) = (u32at(b, 16) as u64, u32at(b, 20) as u64, u32at(b, 8) as u64);
    if v >= 1 {
        s += &format!(" hi {} hh {} bh {}", u64at(b, 32), u16at(b, 40), u16at(b, 42));
        h |= (u16at(b, 40) as u64) << 32;
        t |= (u16at(b, 42) as u64) << 32;
    }
    if v >= 2 {
        s += &format!(" a64 {} bet {} het {}", u64at(b, 44), u64at(b, 52), u64at(b, 60));
        a = u64at(b, 44);
    }
    if v >= 3 {
        s += &format!(" sizes {:?} chunk {}", (0..5).map(|i| u64at(b, 68 + 8 * i)).collect::<Vec<_>>(), u32at(b, 108));
        for i in 0..6 {
            s += &format!(" {}", crate::core::hex(&b[112 + 16 * i..128 + 16 * i]));
        }
    }
    s + &format!(" -> hash {h} block {t} archive {a} sector {}", 512u64 << u16at(b, 14))
}
fn header_shown(h: &MpqHeader) -> String {
    let v = match h.format_version {
        FormatVersion::V1 => 1,
        FormatVersion::V2 => 2,
        FormatVersion::V3 => 3,
        FormatVersion::V4 => 4,
    };
    let mut s = format!("size {} archive {} v{v} shift {} hash {}/{} block {}/{}", h.header_size, h.archive_size, h.block_size, h.hash_table_pos, h.hash_table_size, h.block_table_pos, h.block_table_size);
    if let (Some(a), Some(b), Some(c)) = (h.hi_block_table_pos, h.hash_table_pos_hi, h.block_table_pos_hi) {
        s += &format!(" hi {a} hh {b} bh {c}");
    }
    if let (Some(a), Some(b), Some(c)) = (h.archive_size_64, h.bet_table_pos, h.het_table_pos) {
        s += &format!(" a64 {a} bet {b} het {c}");
    }
    if let Some(d) = &h.v4_data {
        s += &format!(" sizes {:?} chunk {}", [d.hash_table_size_64, d.block_table_size_64, d.hi_block_table_size_64, d.het_table_size_64, d.bet_table_size_64], d.raw_chunk_size);
        for m in [d.md5_block_table, d.md5_hash_table, d.md5_hi_block_table, d.md5_bet_table, d.md5_het_table, d.md5_mpq_header] {
            s += &format!(" {}", crate::core::hex(&m));
        }
    }
    s + &format!(" -> hash {} block {} archive {} sector {}", h.get_hash_table_pos(), h.get_block_table_pos(), h.get_archive_size(), h.sector_size())
}

fn random_header(r: &mut Rng) -> Vec<u8> {
    let v = r.below(4) as u16;
    let n = refm::HEADER_SIZES[v as usize] as usize;
    let mut b = r.bytes(n);
    b[..4].copy_from_slice(b"MPQ\x1a");
    let hs = n as u32 + *r.pick(&[0u32, 0, 0, 4, 100, 0x1000_0000]);
    b[4..8].copy_from_slice(&hs.to_le_bytes());
    b[12..14].copy_from_slice(&v.to_le_bytes());
    b[14..16].copy_from_slice(&(r.below(24) as u16).to_le_bytes());
    for k in 4..n / 4 {
        if r.chance(1, 4) {
            let x = *r.pick(&[0u32, 1, 0xFFFF_FFFF, 0x8000_0000, 0x7FFF_FFFF]);
            b[k * 4..k * 4 + 4].copy_from_slice(&x.to_le_bytes());
        }
    }
    b
}

/// Random headers anywhere a header can be.
fn headers(ctx: &mut Ctx, r: &mut Rng) {
    for _ in 0..2 {
        let b = random_header(r);
        ctx.count("headers");
        let Some(h) = ctx.lib("MpqHeader::read", || MpqHeader::read(&mut Cursor::new(&b))) else { return };
        let want = header_text(&b);
        match h {
            Ok(h) => {
                let got = header_shown(&h);
                ctx.check(got == want, "header-field", || format!("{got} instead of {want}"));
            }
            Err(e) => ctx.viol("header-refused", format!("{e}: {want}")),
        }
    }
    // the first header at a 512-byte boundary, wherever it is and whatever surrounds it
    let k = r.usize(12);
    let mut f = r.bytes(512 * k);
    for c in f.chunks_mut(512) {
        if r.bool() {
            let o = *r.pick(&[1usize, 4, 16, 256, 508]);
            c[o..o + 4].copy_from_slice(b"MPQ\x1a");
        }
        match r.below(6) {
            0 => c[..4].copy_from_slice(b"MPQ\x00"),
            1 => c[..4].copy_from_slice(b"\x1aQPM"),
            _ => {}
        }
        if &c[..4] == b"MPQ\x1a" || &c[..4] == b"MPQ\x1b" {
            c[0] = 0;
        }
    }
    let mut ud = None;
    let mut at = f.len() as u64;
    if r.chance(1, 3) {
        let lead = f.len();
        let off = *r.pick(&[16u32, 32, 100, 512, 1024, 515]);
        let (a, b) = (r.u32(), r.u32());
        let mut u = b"MPQ\x1b".to_vec();
        for x in [a, off, b] {
            u.extend_from_slice(&x.to_le_bytes());
        }
        u.resize(off as usize, 0xEE);
        f.extend_from_slice(&u);
        ud = Some((a, off, b));
        at = lead as u64 + off as u64;
    }
    let h = random_header(r);
    f.extend_from_slice(&h);
    let tail = r.usize(2000);
    f.extend_from_slice(&r.bytes(tail));
    // a second header does not matter
    if r.bool() {
        f.resize(f.len().next_multiple_of(512), 0);
        f.extend_from_slice(&random_header(r));
    }
    ctx.count("found_headers");
    let Some(x) = ctx.lib("find_header", || find_header(&mut Cursor::new(&f))) else { return };
    match x {
        Ok((o, u, hd)) => {
            let (got, want) = (header_shown(&hd), header_text(&h));
            let u = u.map(|u| (u.user_data_size, u.header_offset, u.user_data_header_size));
            ctx.check(o == at && u == ud && got == want, "find-header", || format!("found at {o} with {u:?}: {got}; the file has one at {at} with {ud:?}: {want}"));
        }
        Err(e) => ctx.viol("find-header", format!("{e}; the file has a header at {at} with {ud:?}")),
    }
}

struct HE {
    a: u32,
    b: u32,
    locale: u16,
    block: u32,
}
fn chain<'a>(t: &'a [HE], name: &str) -> Vec<(usize, &'a HE)> {
    let n = t.len();
    let (a, b) = (hash_string(name, 1), hash_string(name, 2));
    let mut v = vec![];
    for i in 0..n {
        let k = (hash_string(name, 0) as usize + i) & (n - 1);
        let e = &t[k];
        if e.block == 0xFFFF_FFFF {
            break;
        }
        if e.a == a && e.b == b && e.block != 0xFFFF_FFFE {
            v.push((k, e));
        }
    }
    v
}
fn lookup(ctx: &mut Ctx, t: &HashTable, m: &[HE], name: &str, locale: u16, brief: &str) {
    let c = chain(m, name);
    let ok: Vec<usize> = c.iter().filter(|(_, e)| locale == 0 || e.locale == 0 || e.locale == locale).map(|x| x.0).collect();
    let Some(got) = ctx.lib("HashTable::find_file", || t.find_file(name, locale).map(|(i, e)| (i, e.name_1, e.name_2, e.locale, e.block_index))) else { return };
    ctx.count("table_lookups");
    if locale != 0 {
        ctx.count("locale_lookups");
    }
    let good = match got {
        None => ok.is_empty(),
        Some((i, a, b, l, k)) => ok.contains(&i) && m.get(i).is_some_and(|e| e.a == a && e.b == b && e.locale == l && e.block == k),
    };
    ctx.check(good, "hash-lookup", || format!("find_file({name:?}, {locale:#x}) gives {got:?}; the table has {:?} ({brief})", c.iter().map(|(i, e)| (i, e.locale, e.block)).collect::<Vec<_>>()));
}

/// Lookups in tables put together by hand: full ones, with deleted entries, several locales of one name.
fn hand_made(ctx: &mut Ctx, r: &mut Rng) {
    let n = 1usize << r.below(7);
    let Some(Ok(mut t)) = ctx.lib("HashTable::new_mut", || HashTable::new_mut(n)) else {
        return ctx.viol("hash-new", format!("HashTable::new_mut({n}) failed"));
    };
    let mut m: Vec<HE> = (0..n).map(|_| HE { a: 0xFFFF_FFFF, b: 0xFFFF_FFFF, locale: 0xFFFF, block: 0xFFFF_FFFF }).collect();
    let fill = if r.chance(1, 4) { n } else { r.usize(n + 1) };
    let mut names: Vec<String> = (0..r.range(1, 12)).map(|_| gen::name(r)).collect();
    if r.bool() {
        names.extend(gen::colliding(r, n as u32, n as u32 - 1, 3, false));
    }
    for i in 0..fill {
        let nm = r.pick(&names).clone();
        let mut k = hash_string(&nm, 0) as usize & (n - 1);
        while m[k].block != 0xFFFF_FFFF {
            k = (k + 1) & (n - 1);
        }
        // now and then an entry that shares only half of the name's hashes
        let (mut a, mut b) = (hash_string(&nm, 1), hash_string(&nm, 2));
        match r.below(12) {
            0 => a ^= 1 << r.below(32),
            1 => b ^= 1 << r.below(32),
            _ => {}
        }
        m[k] = HE { a, b, locale: *r.pick(&[0u16, 0, 0x409, 0x407, 0xFFFF, 1]), block: if r.chance(1, 5) { 0xFFFF_FFFE } else { i as u32 } };
    }
    for (k, e) in m.iter().enumerate() {
        let x = t.get_mut(k).unwrap();
        *x = HashEntry { name_1: e.a, name_2: e.b, locale: e.locale, platform: 0, block_index: e.block };
    }
    for _ in 0..8 {
        let nm = if r.chance(1, 6) { gen::name(r) } else { r.pick(&names).clone() };
        let nm = if r.bool() { gen::respell(r, &nm) } else { nm };
        let l = *r.pick(&[0u16, 0, 0x409, 0x407, 1, 0x10]);
        lookup(ctx, &t, &m, &nm, l, &format!("hand-made table of {n}, {fill} used"));
    }
    t.clear();
    ctx.check(t.size() == n && t.entries().iter().all(|e| e.is_empty()), "hash-clear", || format!("clear() leaves used entries in a table of {n}"));
    if r.chance(1, 8) {
        let bad = r.usize(200);
        let Some(x) = ctx.lib("HashTable::new", || HashTable::new(bad).is_ok()) else { return };
        ctx.check(x == (bad.is_power_of_two()), "hash-new", || format!("HashTable::new({bad}) gives {x}"));
    }
    // a hi-block table
    let hn = r.usize(40);
    let mut hi = mopaq::tables::HiBlockTable::new(hn);
    let mut hm = vec![0u16; hn];
    for _ in 0..r.usize(6) {
        let (i, v) = (r.usize(hn + 3), if r.bool() { 0 } else { r.u32() as u16 });
        hi.set(i, v);
        if i < hn {
            hm[i] = v;
        }
    }
    let got: Vec<u16> = hi.entries().to_vec();
    let needed = hm.iter().any(|x| *x != 0);
    ctx.check(got == hm && hi.is_needed() == needed && (0..hn + 2).all(|i| hi.get(i) == hm.get(i).copied() && hi.get_file_pos_high(i) == hm.get(i).copied().unwrap_or(0) as u64), "hi-block", || format!("{hm:?} shown as {got:?}, needed {}", hi.is_needed()));
}

/// A BET table with fields of any width (up to 64 bits) at any bit, and any content.
fn hand_made_bet(ctx: &mut Ctx, r: &mut Rng) {
    let count = r.range(1, 20) as u64;
    let nf = r.range(1, 5);
    let w: Vec<u32> = (0..5).map(|k| if k == 3 { r.range(1, 9) as u32 } else { *r.pick(&[0, 1, 7, 8, 9, 31, 32, 33, 40, 55, 56, 57, 58, 61, 63, 64]) }).collect();
    let mut order = [0usize, 1, 2, 3, 4];
    r.shuffle(&mut order);
    let (mut bi, mut es) = ([0u32; 5], r.below(3) as u32);
    for k in order {
        bi[k] = es;
        es += w[k] + r.below(2) as u32;
    }
    let flags: Vec<u32> = (0..nf).map(|_| r.u32()).collect();
    let ft = r.bytes((count * es as u64).div_ceil(8) as usize);
    let hs: Vec<u64> = (0..count).map(|_| r.next()).collect();
    let mut t = vec![];
    let data = 76 + nf * 4 + ft.len() + hs.len() * 8;
    for x in [12 + data as u32, count as u32, 0x10, es, bi[0], bi[1], bi[2], bi[3], bi[4], w[0], w[1], w[2], w[3], w[4], count as u32 * 64, 0, 64, hs.len() as u32 * 8, nf as u32] {
        t.extend_from_slice(&x.to_le_bytes());
    }
    flags.iter().for_each(|f| t.extend_from_slice(&f.to_le_bytes()));
    t.extend_from_slice(&ft);
    hs.iter().for_each(|h| t.extend_from_slice(&h.to_le_bytes()));
    let mut full = b"BET\x1a\x01\0\0\0".to_vec();
    full.extend_from_slice(&(t.len() as u32).to_le_bytes());
    full.extend_from_slice(&t);
    let n = full.len() as u64;
    let brief = format!("hand-made BET table, fields at {bi:?} of {w:?} bits, entries of {es}");
    let bet = match ctx.lib("BetTable::read", || BetTable::read(&mut Cursor::new(&full), 0, n, 0)) {
        Some(Ok(b)) => b,
        Some(Err(e)) => return ctx.viol("bet-table", format!("{e} ({brief})")),
        None => return,
    };
    ctx.count("hand_made_bet");
    ctx.check(bet.file_flags == flags && bet.file_table == ft && bet.bet_hashes == hs, "bet-table", || format!("arrays differ ({brief})"));
    for i in 0..count {
        let g = |k: usize| refm::bits(&ft, i * es as u64 + bi[k] as u64, w[k]).unwrap();
        let want = (g(0), g(1), g(2), flags.get(g(3) as usize).copied().unwrap_or(0));
        let Some(got) = ctx.lib("BetTable::get_file_info", || bet.get_file_info(i as u32)) else { return };
        let got = got.map(|x| (x.file_pos, x.file_size, x.compressed_size, x.flags));
        ctx.check(got == Some(want), "bet-entry", || format!("entry {i}: {got:x?} instead of {want:x?} ({brief})"));
    }
    ctx.check(bet.get_file_info(count as u32).is_none(), "bet-entry", || format!("there is an entry behind the last ({brief})"));
}

fn flags_text(f: u32) -> [bool; 6] {
    [f & 0x300 != 0, f & 0x10000 != 0, f & 0x20000 != 0, f & 0x0100_0000 != 0, f & 0x0400_0000 != 0, f & 0x8000_0000 != 0]
}

pub fn run(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    headers(ctx, &mut r);
    hand_made(ctx, &mut r);
    hand_made_bet(ctx, &mut r);
    let path = ctx.path("a.mpq");
    let origin = r.below(10);
    let (base, ud, names, brief);
    if origin == 0 {
        let ver = *r.pick(&[None, Some(FormatVersion::V1), Some(FormatVersion::V2), Some(FormatVersion::V3), Some(FormatVersion::V4)]);
        let Some(a) = ctx.lib("OpenOptions::create", || {
            let o = OpenOptions::new();
            let o = match ver {
                Some(v) => o.version(v),
                None => o,
            };
            o.create(&path)
        }) else {
            return;
        };
        ctx.count("created");
        match a {
            Err(e) => return ctx.viol("create", format!("{ver:?}: {e}")),
            Ok(mut a) => {
                let v = ver.unwrap_or(FormatVersion::V1);
                ctx.check(a.header().format_version == v, "create", || format!("created as {ver:?}, opened as {:?}", a.header().format_version));
                let Some(l) = ctx.lib("list of a new archive", || a.list_all().map(|l| l.len())) else { return };
                ctx.check(matches!(l, Ok(0 | 1)), "create", || format!("a new archive ({ver:?}) lists {l:?}"));
            }
        }
        (base, ud, names) = (0, None, vec!["(listfile)".to_string()]);
        brief = format!("created {ver:?}");
    } else if origin < 5 {
        let f = crate::foreign::foreign(ctx, &mut r, true, path.clone());
        base = f.pre.len() as u64;
        ud = if f.ud {
            let k = (0..f.pre.len()).step_by(512).find(|k| &f.pre[*k..k + 4] == b"MPQ\x1b").unwrap();
            Some((u32at(&f.pre, k + 4), u32at(&f.pre, k + 8), u32at(&f.pre, k + 12)))
        } else {
            None
        };
        names = f.files.iter().map(|f| f.name.clone()).collect::<Vec<_>>();
        brief = format!("foreign {}", f.desc);
    } else {
        let mut spec = gen::spec(&mut r);
        spec.files.truncate(60);
        if !spec.build(ctx, &path) {
            return;
        }
        (base, ud) = (0, None);
        names = spec.model().into_iter().map(|m| m.0).collect();
        brief = spec.brief();
    }
    let lazy = r.chance(1, 5);
    let mut ar = match ctx.lib("Archive::open", || OpenOptions::new().load_tables(!lazy).open(&path)) {
        Some(Ok(a)) => a,
        Some(Err(e)) => return ctx.viol("open-error", format!("{e} ({brief})")),
        None => return,
    };
    if lazy {
        ctx.check(ar.hash_table().is_none() && ar.block_table().is_none(), "lazy-tables", || format!("tables loaded though not asked for ({brief})"));
        match ctx.lib("load_tables", || ar.load_tables()) {
            Some(Ok(())) => {}
            Some(Err(e)) => return ctx.viol("open-error", format!("load_tables: {e} ({brief})")),
            None => return,
        }
    }
    ctx.check(ar.path() == path, "path", || format!("{:?} ({brief})", ar.path()));
    ctx.check(ar.archive_offset() == base, "archive-offset", || format!("{} instead of {base} ({brief})", ar.archive_offset()));
    let gu = ar.user_data().map(|u| (u.user_data_size, u.header_offset, u.user_data_header_size));
    ctx.check(gu == ud, "user-data", || format!("{gu:?} instead of {ud:?} ({brief})"));
    let Some(h0) = raw(&path, base, 32) else { return };
    let v = u16at(&h0, 12) as usize;
    let Some(hb) = raw(&path, base, refm::HEADER_SIZES[v] as usize) else { return };
    let (got, want) = (header_shown(ar.header()), header_text(&hb));
    ctx.count("headers");
    ctx.check(got == want, "header-field", || format!("{got} instead of {want} ({brief})"));

    // classic tables
    let (mut hp, mut bp, hn, bn) = (u32at(&hb, 16) as u64, u32at(&hb, 20) as u64, u32at(&hb, 24), u32at(&hb, 28));
    let (mut hip, mut betp, mut hetp) = (0, 0, 0);
    if v >= 1 {
        hip = u64at(&hb, 32);
        hp |= (u16at(&hb, 40) as u64) << 32;
        bp |= (u16at(&hb, 42) as u64) << 32;
    }
    if v >= 2 {
        betp = u64at(&hb, 52);
        hetp = u64at(&hb, 60);
    }
    let mut blocks: Vec<(u32, u32, u32, u32)> = vec![];
    if hn > 0 {
        let Some(mut t) = raw(&path, base + hp, hn as usize * 16) else { return };
        refm::crypt_bytes(&mut t, hash_string("(hash table)", 3), false);
        let m: Vec<HE> = t.chunks_exact(16).map(|e| HE { a: u32at(e, 0), b: u32at(e, 4), locale: u16at(e, 8), block: u32at(e, 12) }).collect();
        match ar.hash_table() {
            None => ctx.viol("hash-table", format!("not there ({brief})")),
            Some(g) => {
                ctx.check(g.size() == hn as usize && g.entries().len() == hn as usize, "hash-table", || format!("{} entries instead of {hn} ({brief})", g.size()));
                for (i, (e, w)) in g.entries().iter().zip(t.chunks_exact(16)).enumerate() {
                    let b = u32at(w, 12);
                    let same = e.name_1 == u32at(w, 0) && e.name_2 == u32at(w, 4) && e.locale == u16at(w, 8) && e.platform == u16at(w, 10) && e.block_index == b;
                    let kinds = e.is_empty() == (b == 0xFFFF_FFFF) && e.is_deleted() == (b == 0xFFFF_FFFE) && e.is_valid() == (b < 0xFFFF_FFFE);
                    let again = HashEntry::from_bytes(w).is_ok_and(|x| x.name_1 == e.name_1 && x.name_2 == e.name_2 && x.locale == e.locale && x.platform == e.platform && x.block_index == e.block_index);
                    ctx.count("entries");
                    ctx.check(same && kinds && again && g.get(i).is_some(), "hash-entry", || format!("entry {i}: {e:?}, the file has {} ({brief})", crate::core::hex(w)));
                }
                ctx.check(g.get(hn as usize).is_none(), "hash-entry", || format!("an entry after the last ({brief})"));
                for nm in names.iter().take(12) {
                    let l = *r.pick(&[0u16, 0, 0x409, 0x407]);
                    let n2 = gen::respell(&mut r, nm);
                    lookup(ctx, g, &m, &n2, l, &brief);
                }
                lookup(ctx, g, &m, "absent\\file", 0, &brief);
            }
        }
        let Some(mut t) = raw(&path, base + bp, bn as usize * 16) else { return };
        refm::crypt_bytes(&mut t, hash_string("(block table)", 3), false);
        blocks = t.chunks_exact(16).map(|w| (u32at(w, 0), u32at(w, 4), u32at(w, 8), u32at(w, 12))).collect();
        match ar.block_table() {
            None => ctx.viol("block-table", format!("not there ({brief})")),
            Some(g) => {
                ctx.check(g.size() == bn as usize && g.entries().len() == bn as usize && g.get(bn as usize).is_none(), "block-table", || format!("{} entries instead of {bn} ({brief})", g.size()));
                for (i, (e, w)) in g.entries().iter().zip(&blocks).enumerate() {
                    let f = flags_text(w.3);
                    let again = BlockEntry::from_bytes(&t[i * 16..i * 16 + 16]).is_ok_and(|x| (x.file_pos, x.compressed_size, x.file_size, x.flags) == *w);
                    ctx.count("entries");
                    ctx.check((e.file_pos, e.compressed_size, e.file_size, e.flags) == *w && again, "block-entry", || format!("entry {i}: {e:?}, the file has {w:x?} ({brief})"));
                    let gf = [e.is_compressed(), e.is_encrypted(), e.has_fix_key(), e.is_single_unit(), e.has_sector_crc(), e.exists()];
                    ctx.check(gf == f, "block-flags", || format!("entry {i}, flags {:x}: {gf:?} instead of {f:?} ({brief})", w.3));
                }
            }
        }
    }
    let mut hi: Vec<u16> = vec![];
    if hip != 0 && bn > 0 {
        let Some(t) = raw(&path, base + hip, bn as usize * 2) else { return };
        hi = t.chunks_exact(2).map(|w| u16at(w, 0)).collect();
        match ar.hi_block_table() {
            None => ctx.viol("hi-block", format!("not there ({brief})")),
            Some(g) => {
                ctx.add("hi_entries", hi.len() as u64);
                ctx.check(g.entries() == hi && (0..hi.len() + 1).all(|i| g.get_file_pos_high(i) == hi.get(i).copied().unwrap_or(0) as u64), "hi-block", || format!("{:?} instead of {hi:?} ({brief})", g.entries()));
            }
        }
    } else if bn > 0 || hip == 0 {
        ctx.check(ar.hi_block_table().is_none(), "hi-block", || format!("shown though there is none ({brief})"));
    }
    // extended tables
    let mut widths = String::new();
    if hetp != 0 && betp != 0 {
        let stored = |p: u64, next: u64, size: u64| -> usize { (if size != 0 { size } else { next.saturating_sub(p) }) as usize };
        // version 3 does not say how long they are: the table that follows ends them
        let mut ends = vec![hp, bp, hip, betp, hetp, std::fs::metadata(&path).map(|m| m.len()).unwrap_or(0) - base];
        ends.retain(|x| *x != 0);
        let next = |p: u64| ends.iter().copied().filter(|x| *x > p).min().unwrap_or(p);
        let (sh, sb) = if v >= 3 { (u64at(&hb, 92), u64at(&hb, 100)) } else { (0, 0) };
        let (nh, nb) = (stored(hetp, next(hetp), sh), stored(betp, next(betp), sb));
        let (Some(mut ht), Some(mut bt)) = (raw(&path, base + hetp, nh), raw(&path, base + betp, nb)) else { return };
        let open = |t: &mut Vec<u8>, key: &str| -> Option<Vec<u8>> {
            let want = u32at(t, 8) as usize;
            let mut d = t.split_off(12);
            refm::crypt_dwords(&mut d, hash_string(key, 3), false);
            if d.len() >= want {
                d.truncate(want);
                Some(d)
            } else {
                refm::decomp(d[0], &d[1..], want).ok()
            }
        };
        let (Some(hd), Some(bd)) = (open(&mut ht, "(hash table)"), open(&mut bt, "(block table)")) else {
            return ctx.count("extended_unreadable");
        };
        let (Ok(het), Ok(bet)) = (refm::decode_het(&hd), refm::decode_bet(&bd)) else {
            return ctx.count("extended_unreadable");
        };
        let key = |k: &str| hash_string(k, 3);
        let Some(again) = ctx.lib("HetTable::read", || {
            let d = raw(&path, base + hetp, nh).unwrap();
            let b = raw(&path, base + betp, nb).unwrap();
            (HetTable::read(&mut Cursor::new(d), 0, nh as u64, key("(hash table)")), BetTable::read(&mut Cursor::new(b), 0, nb as u64, key("(block table)")))
        }) else {
            return;
        };
        if let (Ok(h2), Ok(b2)) = &again {
            ctx.check(Some(&h2.file_indices) == ar.het_table().map(|h| &h.file_indices) && Some(&b2.file_table) == ar.bet_table().map(|b| &b.file_table), "extended-read", || format!("the tables read alone differ from the archive's ({brief})"));
        } else {
            ctx.viol("extended-read", format!("HET {:?} BET {:?} ({brief})", again.0.is_ok(), again.1.is_ok()));
        }
        match ar.het_table() {
            None => ctx.viol("het-table", format!("not there ({brief})")),
            Some(g) => {
                let hh = &g.header;
                let f: Vec<u32> = (0..8).map(|i| u32at(&hd, i * 4)).collect();
                let got = vec![hh.table_size, hh.max_file_count, hh.hash_table_size, hh.hash_entry_size, hh.total_index_size, hh.index_size_extra, hh.index_size, hh.block_table_size];
                ctx.check(got == f, "het-header", || format!("{got:?} instead of {f:?} ({brief})"));
                widths = format!("{} {}", het.hbits, het.ibits);
                let n = het.slots.len() as u64;
                for nm in names.iter().take(16).cloned().chain(["absent".to_string(), "no\\such file.txt".into()]) {
                    let nm = gen::respell(&mut r, &nm);
                    let h = jenkins(&nm);
                    let bits = h & (u64::MAX >> (64 - het.hbits));
                    let mut want = vec![];
                    for i in 0..n {
                        let s = het.slots[((h % n + i) % n) as usize];
                        if s.1 >= het.max_files as u64 {
                            break;
                        }
                        if s.0 == bits {
                            want.push(s.1 as u32);
                        }
                    }
                    let Some((c, one)) = ctx.lib("HetTable::find_candidates", || (g.find_candidates(&nm), g.find_file(&nm))) else { return };
                    ctx.count("het_lookups");
                    ctx.check(c == want && one == want.first().copied(), "het-lookup", || format!("{nm:?}: {c:?}/{one:?} instead of {want:?} ({brief})"));
                }
            }
        }
        match ar.bet_table() {
            None => ctx.viol("bet-table", format!("not there ({brief})")),
            Some(g) => {
                let hh = &g.header;
                let f: Vec<u32> = (0..19).map(|i| u32at(&bd, i * 4)).collect();
                let got = vec![
                    hh.table_size, hh.file_count, hh.unknown_08, hh.table_entry_size, hh.bit_index_file_pos, hh.bit_index_file_size, hh.bit_index_cmp_size, hh.bit_index_flag_index, hh.bit_index_unknown,
                    hh.bit_count_file_pos, hh.bit_count_file_size, hh.bit_count_cmp_size, hh.bit_count_flag_index, hh.bit_count_unknown, hh.total_bet_hash_size, hh.bet_hash_size_extra, hh.bet_hash_size,
                    hh.bet_hash_array_size, hh.flag_count,
                ];
                ctx.check(got == f, "bet-header", || format!("{got:?} instead of {f:?} ({brief})"));
                for (i, e) in bet.iter().enumerate() {
                    let Some(x) = ctx.lib("BetTable::get_file_info", || g.get_file_info(i as u32).map(|x| (x.file_pos, x.file_size, x.compressed_size, x.flags))) else { return };
                    ctx.count("bet_entries");
                    ctx.check(x == Some((e.pos, e.size, e.csize, e.flags)), "bet-entry", || format!("entry {i}: {x:x?}, the file has {e:x?} ({brief})"));
                }
                let past = [bet.len() as u32, bet.len() as u32 + 1, u32::MAX];
                let Some(x) = ctx.lib("BetTable::get_file_info", || past.iter().any(|i| g.get_file_info(*i).is_some())) else { return };
                ctx.check(!x, "bet-entry", || format!("an entry after the last ({brief})"));
                let hs: Vec<u64> = bd[bd.len() - f[17] as usize..].chunks_exact(8).map(|c| u64at(c, 0)).collect();
                ctx.check(g.bet_hashes == hs && g.file_flags.len() == f[18] as usize, "bet-hashes", || format!("{:x?} instead of {hs:x?} ({brief})", g.bet_hashes));
            }
        }
    } else {
        ctx.check(ar.het_table().is_none() || hetp != 0, "het-table", || format!("shown though there is none ({brief})"));
        ctx.check(ar.bet_table().is_none() || betp != 0, "bet-table", || format!("shown though there is none ({brief})"));
    }
    // what find_file says agrees with the tables it is found in
    for nm in names.iter().take(10) {
        let nm = gen::respell(&mut r, nm);
        let Some(x) = ctx.lib("Archive::find_file", || ar.find_file(&nm)) else { return };
        if let Ok(Some(i)) = x {
            if let Some(b) = blocks.get(i.block_index) {
                let pos = (hi.get(i.block_index).copied().unwrap_or(0) as u64) << 32 | b.0 as u64;
                let f = flags_text(i.flags);
                let gf = [i.is_compressed(), i.is_encrypted(), i.has_fix_key(), i.is_single_unit(), i.has_sector_crc(), true];
                ctx.check(i.file_pos == base + pos && i.compressed_size == b.1 as u64 && i.file_size == b.2 as u64 && i.flags == b.3, "find-file", || format!("{nm:?}: {i:?}, block {b:x?} hi {:?} ({brief})", hi.get(i.block_index)));
                ctx.check(gf[..5] == f[..5] && i.filename == nm, "find-file", || format!("{nm:?}: {i:?} ({brief})"));
            }
        }
    }
    // building blocks that take no archive
    let s = r.below(23) as u16;
    ctx.check(mopaq::calculate_sector_size(s) == 512usize << s, "sector-size", || format!("shift {s}: {}", mopaq::calculate_sector_size(s)));
    let x = *r.pick(&[0u32, 1, 2, 3, 4, 0x8000_0000, 0xFFFF_FFFF]) ^ if r.bool() { 0 } else { r.u32() & r.u32() & r.u32() };
    ctx.check(mopaq::is_power_of_two(x) == (x != 0 && x & (x - 1) == 0), "power-of-two", || format!("{x}: {}", mopaq::is_power_of_two(x)));
    ctx.distinct(&format!("v{v} o{} b{} ud{} hn{} hi{} het{} w{widths}", origin.min(5), base > 0, ud.is_some(), hn > 0, hi.iter().any(|x| *x > 0), hetp != 0));
    let _ = BlockTable::new(0);
    if ctx.idx % 64 == 0 {
        ctx.sample = Some(json!({"archive": brief, "header": want}));
    }
}
