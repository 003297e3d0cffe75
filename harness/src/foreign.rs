//! Archives laid out by the reference writer, as other programs write them.
use crate::core::Ctx;
use crate::gen;
use crate::refm::{self, Layout, WFile, WOpts};
use std::collections::BTreeSet;

/// A random foreign file; encrypted ones have units of whole dwords.
pub fn wfile(r: &mut crate::rng::Rng, name: String, ss: usize) -> WFile {
    let mut n = gen::size(r, ss);
    let mut encrypt = r.chance(1, 3);
    let layout = match r.below(5) {
        0 | 1 => Layout::Single,
        2 => Layout::Raw,
        _ => Layout::Sectors,
    };
    let mut methods: Vec<u8> = (0..r.range(1, 4)).map(|_| *r.pick(&[0u8, refm::ZLIB, refm::BZIP2, refm::SPARSE, refm::LZMA, refm::PKWARE])).collect();
    if ss > 2048 || matches!(layout, Layout::Single) {
        // the third-party implode encoder is only reliable for small units
        methods.iter_mut().for_each(|m| {
            if *m == refm::PKWARE {
                *m = refm::ZLIB
            }
        });
    }
    if encrypt {
        n -= n % 4;
        if !matches!(layout, Layout::Raw) {
            methods = vec![0];
        }
        if n == 0 {
            encrypt = false;
        }
    }
    if matches!(layout, Layout::Sectors) && n == 0 {
        n = 4;
    }
    let data = gen::content(r, n, ss);
    WFile {
        name,
        locale: 0,
        platform: 0,
        data,
        layout,
        methods,
        encrypt,
        fix_key: encrypt && r.bool(),
        deleted: false,
        extra_flags: 0,
        clear_flags: 0,
        at: None,
    }
}

pub fn prefix(ctx: &mut Ctx, r: &mut crate::rng::Rng) -> (Vec<u8>, bool) {
    match r.below(5) {
        0 | 1 => (vec![], false),
        2 | 3 => {
            ctx.count("embedded");
            let k = *r.pick(&[1usize, 1, 2, 3, 7, 16, 40]);
            let k = if r.below(60) == 0 { 2050 } else { k };
            let mut p = r.bytes(512 * k);
            for c in p.chunks_mut(512) {
                c[0] = b'M';
                c[1] = b'Z';
                // signatures off the boundary must not attract the search
                c[100..104].copy_from_slice(b"MPQ\x1a");
                c[256..260].copy_from_slice(b"MPQ\x1a");
            }
            // what looks like user data, but leads to no archive, must not stop the search
            if r.chance(1, 3) {
                ctx.count("stray_user_data");
                let at = r.below(k as u64) as usize * 512;
                let to = match r.below(3) {
                    0 => 0xFFFF_F000,
                    1 => 4,
                    _ => 64 + r.below(30) as u32,
                };
                p[at..at + 16].copy_from_slice(b"MPQ\x1b\x00\x02\x00\x00....\x10\x00\x00\x00");
                p[at + 8..at + 12].copy_from_slice(&to.to_le_bytes());
            }
            (p, false)
        }
        _ => {
            ctx.count("embedded");
            ctx.count("user_data");
            let lead = *r.pick(&[0usize, 0, 1, 3]) * 512;
            let body = *r.pick(&[512usize, 1024, 2048, 0x400]);
            let mut p = vec![0x5A; lead + body];
            p[lead..lead + 4].copy_from_slice(b"MPQ\x1b");
            let data = *r.pick(&[body as u32, body as u32 - 16, 0, 5, 16, 100, 0x1000]);
            p[lead + 4..lead + 8].copy_from_slice(&data.to_le_bytes());
            p[lead + 8..lead + 12].copy_from_slice(&(body as u32).to_le_bytes());
            p[lead + 12..lead + 16].copy_from_slice(&16u32.to_le_bytes());
            (p, true)
        }
    }
}

/// An archive laid out by the reference writer.
pub struct Foreign {
    pub files: Vec<WFile>,
    pub o: WOpts,
    pub w: refm::Written,
    pub pre: Vec<u8>,
    pub ud: bool,
    pub lf: bool,
    pub far: bool,
    pub path: std::path::PathBuf,
    pub desc: String,
}
impl Foreign {
    pub fn gone(f: &WFile) -> bool {
        f.deleted || f.clear_flags & refm::F_EXISTS != 0
    }
    pub fn live(&self) -> Vec<(&WFile, &refm::BEnt)> {
        self.files.iter().enumerate().filter(|(_, f)| !Self::gone(f)).map(|(i, f)| (f, &self.w.blocks[self.w.block_of[i] as usize])).collect()
    }
}

/// `orphans`: the blocks of deleted files may still say that they exist.
pub fn foreign(ctx: &mut Ctx, r: &mut crate::rng::Rng, orphans: bool, path: std::path::PathBuf) -> Foreign {
    let shift = r.below(4) as u16;
    let ss = 512usize << shift;
    let version = r.below(4) as u16;
    let nf = if r.chance(1, 10) { r.range(30, 80) } else { r.range(1, 12) };
    let mut seen: BTreeSet<Vec<u8>> = ["(listfile)", "(attributes)", "(signature)"].iter().map(|s| refm::canon(s)).collect();
    let hash_size = ((nf + 1) as u32 * *r.pick(&[1u32, 2, 4])).next_power_of_two().max(4);
    let mut names = vec![];
    if nf > 3 {
        for n in gen::colliding(&mut *r, hash_size, hash_size - 1, 3, false) {
            seen.insert(refm::canon(&n));
            names.push(n);
        }
    }
    while names.len() < nf {
        let n = if r.chance(1, 10) { r.pick(&gen::KEY_NAMES).to_string() } else { gen::name(&mut *r) };
        if !n.contains(';') && !n.starts_with('#') && seen.insert(refm::canon(&n)) {
            names.push(n);
        }
    }
    let mut files: Vec<WFile> = names.into_iter().map(|n| wfile(&mut *r, n, ss)).collect();
    for f in files.iter_mut() {
        if r.chance(1, 8) {
            f.deleted = true;
            if !orphans {
                f.clear_flags = refm::F_EXISTS;
            }
        } else if r.chance(1, 16) {
            // a block that says it does not exist
            f.clear_flags = refm::F_EXISTS;
        } else if !f.encrypt && r.chance(1, 14) && !f.data.is_empty() && ss <= 2048 {
            implode(&mut *r, f, ss);
        }
        if r.chance(1, 6) {
            f.locale = *r.pick(&[0x409u16, 0x407]);
        }
    }
    let lf = r.bool();
    if lf {
        let t: String = files.iter().map(|f| format!("{}\r\n", f.name)).collect();
        let mut f = wfile(&mut *r, "(listfile)".into(), ss);
        f.data = t.into_bytes();
        f.encrypt = false;
        f.fix_key = false;
        f.methods = vec![refm::ZLIB];
        files.push(f);
    }
    if r.chance(1, 2) {
        r.shuffle(&mut files);
    }
    let far = version >= 1 && r.chance(1, 8);
    if far {
        let k = r.usize(files.len());
        let mut at = *r.pick(&[0x1_0000_0000u64, 0xFFFF_FFF0, 0x1_8000_0200, 0x12_3456_7000, 0x234_5678_9200]);
        if at > 1 << 40 && std::fs::File::create(&path).and_then(|f| f.set_len(at + (1 << 28))).is_err() {
            at = 0x12_3456_7000; // not on this file system
        } else if at > 1 << 40 {
            ctx.count("beyond_1_tib");
        }
        files[k].at = Some(at);
    }
    let het_bet = version >= 2 && r.chance(2, 3);
    let classic = !(het_bet && r.chance(1, 5));
    let o = WOpts {
        version,
        shift,
        hash_size,
        spare_blocks: if r.chance(1, 4) { r.below(4) as u32 } else { 0 },
        shuffle_blocks: r.chance(1, 3),
        tables_first: !(het_bet && version == 2) && classic && r.chance(1, 4),
        hi_block: version >= 1 && r.chance(1, 4),
        het_bet,
        table_method: *r.pick(&[0u8, 0, refm::ZLIB, refm::BZIP2, refm::SPARSE]),
        v4_md5: true,
        gap: if r.chance(1, 4) { r.usize(40) } else { 0 },
        classic,
        ext_mix: if r.bool() { r.next() | 1 } else { 0 },
    };
    let w = refm::write_archive(&files, &o, &mut *r);
    let (pre, ud) = prefix(ctx, &mut *r);
    w.to_file(&path, &pre).unwrap();
    let desc = format!(
        "v{} shift{shift} hash{hash_size} {} prefix{} ud{ud} tables_first{} hi{} het{het_bet}/{:#x} classic{classic} mix{} gap{} spare{} files[{}]",
        version + 1,
        if far { "far" } else { "near" },
        pre.len(),
        o.tables_first,
        o.hi_block,
        o.table_method,
        o.ext_mix != 0,
        o.gap,
        o.spare_blocks,
        files.iter().take(10).map(|f| format!("{:?}:{}b {:?} m{:x?} e{} fk{} del{} xf{:x} cf{:x}", f.name, f.data.len(), f.layout, f.methods, f.encrypt, f.fix_key, f.deleted, f.extra_flags, f.clear_flags)).collect::<Vec<_>>().join(", ")
    );
    if ctx.verbose {
        eprintln!("{desc}");
    }
    Foreign { files, o, w, pre, ud, lf, far, path, desc }
}

/// Turn `f` into a file imploded without a method byte: every unit is a bare PKWare stream, or stored.
fn implode(r: &mut crate::rng::Rng, f: &mut WFile, ss: usize) {
    let n = r.range(1, 3 * ss);
    f.data = gen::content_kind(r, 2, n, ss);
    f.layout = if n <= ss && r.bool() { Layout::Single } else { Layout::Sectors };
    f.methods = vec![refm::PKWARE];
    f.extra_flags |= refm::F_IMPLODE;
    f.clear_flags |= refm::F_COMPRESS;
}
