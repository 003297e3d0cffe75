//! Workload generators: names, contents, archive configurations.
use crate::core::Ctx;
use crate::refm;
use crate::rng::Rng;
use mopaq::{ArchiveBuilder, FormatVersion, ListfileOption};
use std::collections::BTreeSet;
use std::path::Path;

pub const LOSSLESS: [u8; 6] = [0, refm::ZLIB, refm::BZIP2, refm::LZMA, refm::SPARSE, refm::PKWARE];
pub const VERSIONS: [FormatVersion; 4] = [FormatVersion::V1, FormatVersion::V2, FormatVersion::V3, FormatVersion::V4];

/// Names whose file key is 0, 1, 2, -1, -2: the corners of the per-sector key arithmetic.
pub const KEY_NAMES: [&str; 18] = [
    "EAVY86B", "CS0AY8F", "D3JRBWH", "LTNMTKB", "JMEOSDA", "QMYD7LD", "TZ_X1AF", "3O-07AE", "G-VNZ3E", "IGLACIF", "TF14RXH", "GZ-54OF", "D-F_48A", "0XYENQD", "ZFSJ7TH", "HDCUTVB", "N8514WC", "6H7-RIG",
];

const WORDS: [&str; 24] = [
    "the", "quick", "brown", "fox", "Interface", "AddOns", "texture", "0001", "alpha", "beta", "spell", "unit", "\r\n", "\t", "map", "zone", "sound", "music", "model", "dbc", "item", "quest", "script", "zzz",
];

pub fn content(r: &mut Rng, n: usize, ss: usize) -> Vec<u8> {
    let k = r.below(14);
    content_kind(r, k, n, ss)
}
pub fn content_kind(r: &mut Rng, kind: u64, n: usize, ss: usize) -> Vec<u8> {
    let mut v: Vec<u8>;
    match kind {
        0 => v = vec![0; n],
        1 => v = r.bytes(n),
        2 => {
            v = vec![];
            while v.len() < n {
                v.extend_from_slice(r.pick(&WORDS).as_bytes());
                v.push(b' ');
            }
        }
        3 => {
            let p = r.range(1, 40);
            let pat = r.bytes(p);
            v = pat.iter().cycle().take(n).copied().collect();
        }
        4 => {
            // each sector of another kind
            v = vec![];
            while v.len() < n {
                let m = ss.min(n - v.len());
                let k = *r.pick(&[0u64, 1, 2, 3, 5, 9, 10]);
                let mut s = content_kind(r, k, m, ss);
                v.append(&mut s);
            }
        }
        5 => {
            // sparse: few non-zero bytes
            v = vec![0; n];
            let m = n / r.range(20, 400) + 1;
            for _ in 0..m {
                if n > 0 {
                    let i = r.usize(n);
                    v[i] = r.u8();
                }
            }
        }
        6 => {
            // runs of chosen lengths around the codec's limits, zeros alternating with data
            v = vec![];
            let lens = [1usize, 2, 3, 4, 125, 126, 127, 128, 129, 253, 254, 255, 256, 257, 381, 508];
            let mut z = r.bool();
            while v.len() < n {
                let l = *r.pick(&lens);
                if z {
                    v.resize(v.len() + l, 0);
                } else {
                    let b = r.bytes(l);
                    v.extend(b.iter().map(|x| if *x == 0 { 1 } else { *x }));
                }
                z = !z;
            }
        }
        7 => {
            // looks like something already compressed
            let m = *r.pick(&[refm::ZLIB, refm::BZIP2, refm::SPARSE, refm::LZMA]);
            let inner = content_kind(r, 2, n.max(16) * 2, ss);
            v = vec![m];
            v.extend_from_slice(&refm::comp(m, &inner));
        }
        8 => {
            // archive signatures on every boundary
            v = r.bytes(n);
            let mut i = 0;
            while i + 4 <= n {
                v[i..i + 4].copy_from_slice(if r.bool() { b"MPQ\x1a" } else { b"MPQ\x1b" });
                i += 512;
            }
        }
        9 => {
            // near the break-even of the codecs: noise with a short compressible tail
            let k = r.usize(60).min(n);
            v = r.bytes(n - k).iter().map(|x| x | 1).collect();
            let b = if r.bool() { 0 } else { r.u8() };
            v.resize(n, b);
        }
        10 => {
            let s = r.u8();
            v = (0..n).map(|i| s.wrapping_add(i as u8)).collect();
        }
        11 => {
            // 16-bit samples
            v = vec![];
            let mut a = 0i32;
            while v.len() < n {
                a = (a + r.range(0, 600) as i32 - 300).clamp(-32768, 32767);
                v.extend_from_slice(&(a as i16).to_le_bytes());
            }
        }
        12 => {
            // low-entropy symbols
            let m = r.range(2, 16) as u64;
            v = (0..n).map(|_| b'a' + r.below(m) as u8).collect();
        }
        _ => {
            // repeated blocks at long distances
            let blk = r.range(100, 3000);
            let base = r.bytes(blk);
            v = vec![];
            while v.len() < n {
                v.extend_from_slice(&base);
                if r.chance(1, 3) {
                    v.push(r.u8());
                }
            }
        }
    }
    v.truncate(n);
    v.resize(n, 0x41);
    v
}

pub fn size(r: &mut Rng, ss: usize) -> usize {
    match r.below(12) {
        0 => r.usize(6),
        1 => r.usize(70),
        2 => r.usize(ss + 1),
        3 => ss - r.usize(3).min(ss),
        4 => ss + 1 + r.usize(3),
        5 => ss * 2 - 1 + r.usize(3),
        6 => ss * r.range(1, 4) + r.usize(5),
        7 => ss * r.range(1, 6),
        8 => ss * r.range(2, 5) - r.usize(5).min(ss),
        9 => r.usize(4 * ss + 1),
        10 => ss * r.range(1, 3) + r.usize(ss),
        _ => r.usize(300),
    }
}

pub fn name(r: &mut Rng) -> String {
    let comp = |r: &mut Rng| -> String {
        match r.below(8) {
            0 => r.pick(&WORDS).trim().to_string() + &r.below(1000).to_string(),
            1 => (0..r.range(1, 12)).map(|_| (b'a' + r.below(26) as u8) as char).collect(),
            2 => (0..r.range(1, 12)).map(|_| (b'A' + r.below(26) as u8) as char).collect(),
            3 => (0..r.range(1, 8)).map(|_| *r.pick(&['é', 'ß', 'Ж', '日', 'a', 'Z', 'ü', '_', '\u{1F600}'])).collect(),
            4 => (0..r.range(1, 10)).map(|_| *r.pick(&['a', 'B', '-', '_', '(', ')', '[', ']', '!', '@', '^', '`', '{', '~', '9', ' ', '.'])).collect::<String>() + "x",
            5 => format!("File {:04}", r.below(5000)),
            6 => r.below(100000).to_string(),
            _ => (0..r.range(1, 20)).map(|_| (b'!' + r.below(90) as u8) as char).filter(|c| !matches!(c, ';' | '/' | '\\')).collect::<String>() + "q",
        }
    };
    let depth = *r.pick(&[0usize, 0, 0, 1, 1, 2, 3]);
    let mut s = String::new();
    for _ in 0..depth {
        s += &comp(r);
        s.push(if r.bool() { '\\' } else { '/' });
    }
    s += &comp(r);
    if r.bool() {
        s += *r.pick(&[".txt", ".BLP", ".m2", ".Wav", ".dat", ".1"]);
    }
    if r.chance(1, 40) {
        while s.len() < 250 {
            s += "\\longer_component";
        }
    }
    let s = s.trim();
    // such a line of a listfile is a comment
    if s.starts_with('#') {
        format!("q{s}")
    } else {
        s.to_string()
    }
}

/// Another spelling of the same name (case and separator).
pub fn respell(r: &mut Rng, s: &str) -> String {
    let mode = r.below(4);
    s.chars()
        .map(|c| match c {
            '/' | '\\' => {
                if mode == 0 || (mode == 2 && r.bool()) {
                    '\\'
                } else {
                    '/'
                }
            }
            c if c.is_ascii_alphabetic() => match mode {
                0 => c.to_ascii_uppercase(),
                1 => c.to_ascii_lowercase(),
                _ => {
                    if r.bool() {
                        c.to_ascii_uppercase()
                    } else {
                        c.to_ascii_lowercase()
                    }
                }
            },
            c => c,
        })
        .collect()
}

#[derive(Clone, Debug)]
pub struct GFile {
    pub name: String,
    pub data: Vec<u8>,
    /// None: the builder's default compression
    pub comp: Option<u8>,
    pub enc: bool,
    pub fix: bool,
    pub locale: u16,
    pub via_path: bool,
}
#[derive(Clone, Debug)]
pub enum Lf {
    Generate,
    None,
    External(Vec<u8>),
}
#[derive(Clone, Debug)]
pub struct Spec {
    pub ver: usize,
    pub bs: u16,
    pub default_comp: u8,
    pub crc: bool,
    pub ctab: bool,
    pub tcomp: u8,
    pub lf: Lf,
    pub files: Vec<GFile>,
}

pub fn push_unique(files: &mut Vec<GFile>, seen: &mut BTreeSet<Vec<u8>>, f: GFile) -> bool {
    if seen.insert(refm::canon(&f.name)) {
        files.push(f);
        true
    } else {
        false
    }
}

pub fn gfile(r: &mut Rng, ss: usize) -> GFile {
    let n = size(r, ss);
    let data = content(r, n, ss);
    let name = if r.chance(1, 12) { r.pick(&KEY_NAMES).to_string() } else { name(r) };
    let enc = r.chance(2, 5);
    GFile {
        name,
        data,
        comp: if r.chance(1, 5) { None } else { Some(*r.pick(&LOSSLESS)) },
        enc,
        fix: enc && r.bool(),
        locale: if r.chance(1, 8) { *r.pick(&[0x409u16, 0x407, 0x404]) } else { 0 },
        via_path: r.chance(1, 4),
    }
}

pub fn spec(r: &mut Rng) -> Spec {
    let bs = match r.below(20) {
        0 => r.range(5, 7) as u16,
        1..=3 => 3,
        _ => r.below(4) as u16,
    };
    let ss = 512usize << bs;
    let nf = match r.below(20) {
        0 => 0,
        1 => 1,
        2 => r.range(14, 40),
        3 => r.range(40, 120),
        _ => r.range(1, 9),
    };
    let mut files = vec![];
    let mut seen: BTreeSet<Vec<u8>> = ["(listfile)", "(attributes)", "(signature)"].iter().map(|s| refm::canon(s)).collect();
    while files.len() < nf {
        let mut f = gfile(r, ss);
        if nf > 12 && f.data.len() > ss * 2 {
            f.data.truncate(r.usize(200));
        }
        push_unique(&mut files, &mut seen, f);
    }
    let lf = match r.below(6) {
        0 => Lf::None,
        1 => {
            let mut t = String::new();
            for f in &files {
                if !r.chance(1, 8) {
                    t += &f.name;
                    t += *r.pick(&["\r\n", "\n"]);
                }
                if r.chance(1, 10) {
                    t += "; comment\r\n\r\n# other\r\nnot\\there.txt\r\n";
                }
            }
            Lf::External(t.into_bytes())
        }
        _ => Lf::Generate,
    };
    Spec { ver: r.usize(4), bs, default_comp: *r.pick(&LOSSLESS), crc: r.chance(2, 5), ctab: r.chance(1, 3), tcomp: *r.pick(&LOSSLESS[1..]), lf, files }
}

/// Archives that go beyond 8 and 16 bits somewhere: sector counts, sector sizes, file counts.
/// 0 hundreds of sectors, 1 over 65536 sectors, 2 sectors of megabytes, 3 thousands of files, 4 over 65536 files
pub fn giant(r: &mut Rng, kind: u64) -> Spec {
    let mut s = spec(r);
    s.files.clear();
    if matches!(s.lf, Lf::External(_)) {
        s.lf = Lf::Generate;
    }
    let enc = r.bool();
    let mut f = GFile { name: name(r), data: vec![], comp: Some(*r.pick(&LOSSLESS)), enc, fix: enc && r.bool(), locale: 0, via_path: r.bool() };
    if refm::canon(&f.name).starts_with(b"(") {
        f.name = "giant.bin".into();
    }
    match kind {
        0 => {
            s.bs = r.below(2) as u16;
            let n = s.ss() * r.range(254, 1300) + r.usize(s.ss());
            f.data = content(r, n, s.ss());
            s.files.push(f);
        }
        1 => {
            s.bs = 0;
            f.comp = Some(*r.pick(&[0, refm::ZLIB, refm::SPARSE]));
            let n = 512 * (65534 + r.usize(300)) + r.usize(512);
            let k = *r.pick(&[0u64, 3, 5, 10, 13]);
            f.data = content_kind(r, k, n, 1 << 16);
            // every sector differs from every other
            for (i, c) in f.data.chunks_mut(512).enumerate() {
                let m = c.len().min(4);
                c[..m].copy_from_slice(&(i as u32).to_le_bytes()[..m]);
            }
            s.files.push(f);
        }
        2 => {
            s.bs = r.range(12, 15) as u16;
            let n = match r.below(3) {
                0 => s.ss().min(5 << 20) - r.usize(100),
                1 => r.range(900_000, 3_000_000),
                _ => s.ss().min(3 << 20) + r.range(1, 2_000_000),
            };
            let k = *r.pick(&[0u64, 1, 2, 3, 5, 6, 12, 13]);
            f.data = content_kind(r, k, n, s.ss());
            s.files.push(f);
        }
        _ => {
            let n = if kind == 3 { r.range(300, 3000) } else { 65536 + r.usize(200) };
            let base = r.below(1 << 30);
            for i in 0..n {
                let len = if kind == 3 { i % 60 } else { i % 3 };
                s.files.push(GFile { name: format!("many\\{:x}\\{i}.dat", base + i as u64 % 7), data: (0..len).map(|k| (k * 31 + i) as u8).collect(), comp: Some(if i % 5 == 0 { refm::ZLIB } else { 0 }), enc: i % 4 == 0, fix: i % 8 == 0, locale: 0, via_path: false });
            }
        }
    }
    let small = gfile(r, s.ss().min(4096));
    if s.files.iter().all(|f| refm::canon(&f.name) != refm::canon(&small.name)) && !small.name.starts_with('(') {
        s.files.push(small);
    }
    s
}

/// Build an archive of more than 4 GiB: two huge stored files, then small ones behind them (the spec's).
pub fn build_4g(ctx: &mut Ctx, ver: usize) -> Option<(Spec, std::path::PathBuf, u64)> {
    let mut r = ctx.rng.clone();
    let huge = (2u64 << 30) + (200 << 20) + r.below(1 << 20);
    let big = ctx.path("big.bin");
    std::fs::File::create(&big).unwrap().set_len(huge).unwrap();
    let mut s = spec(&mut r);
    s.ver = ver;
    s.crc = false;
    s.lf = Lf::None;
    s.files.truncate(8);
    for k in 0..6u8 {
        let mut f = gfile(&mut r, s.ss());
        f.name = format!("behind\\{k}.bin");
        (f.enc, f.fix) = (k % 3 != 0, k % 3 == 2);
        s.files.push(f);
    }
    let mut b = ArchiveBuilder::new().version(VERSIONS[ver]).block_size(s.bs).compress_tables(s.ctab).table_compression(s.tcomp).listfile_option(ListfileOption::None);
    for n in ["huge\\1", "huge\\2"] {
        b = b.add_file_with_options(&big, n, 0, false, 0);
    }
    for f in &s.files {
        let c = f.comp.unwrap_or(s.default_comp);
        b = match f.enc {
            true => b.add_file_data_with_encryption(f.data.clone(), &f.name, c, f.fix, f.locale),
            false => b.add_file_data_with_options(f.data.clone(), &f.name, c, false, f.locale),
        };
    }
    let path = ctx.path("a.mpq");
    let res = ctx.lib("ArchiveBuilder::build", || b.build(&path));
    let _ = std::fs::remove_file(&big);
    match res? {
        Ok(()) => {
            ctx.count("archives_above_4g");
            Some((s, path, huge))
        }
        Err(_) if ver == 0 => {
            // (positions have 32 bits there)
            ctx.count("version_1_above_4g_refused");
            None
        }
        Err(e) => {
            ctx.viol("build-error", format!("build of an archive above 4 GiB failed: {e}"));
            None
        }
    }
}

impl Spec {
    pub fn ss(&self) -> usize {
        512usize << self.bs
    }
    pub fn brief(&self) -> String {
        format!(
            "v{} bs{} dc{:#x} crc{} ctab{}/{:#x} lf{} files[{}]",
            self.ver + 1,
            self.bs,
            self.default_comp,
            self.crc as u8,
            self.ctab as u8,
            self.tcomp,
            match self.lf {
                Lf::Generate => "G",
                Lf::None => "N",
                Lf::External(_) => "E",
            },
            self.files.iter().take(12).map(|f| f.brief()).collect::<Vec<_>>().join(", ")
        )
    }
    /// All files the archive must hold, the listfile included.
    pub fn model(&self) -> Vec<(String, Vec<u8>)> {
        let mut v: Vec<(String, Vec<u8>)> = self.files.iter().map(|f| (f.name.clone(), f.data.clone())).collect();
        match &self.lf {
            Lf::Generate => {
                let mut t = String::new();
                for f in &self.files {
                    t += &f.name;
                    t += "\r\n";
                }
                t += "(listfile)\r\n";
                v.push(("(listfile)".into(), t.into_bytes()));
            }
            Lf::External(d) => v.push(("(listfile)".into(), d.clone())),
            Lf::None => {}
        }
        v
    }
    /// Configure a builder; source files go to `dir`.
    pub fn builder(&self, dir: &Path) -> ArchiveBuilder {
        let mut b = ArchiveBuilder::new()
            .version(VERSIONS[self.ver])
            .block_size(self.bs)
            .default_compression(self.default_comp)
            .generate_crcs(self.crc)
            .compress_tables(self.ctab)
            .table_compression(self.tcomp)
            .listfile_option(match &self.lf {
                Lf::Generate => ListfileOption::Generate,
                Lf::None => ListfileOption::None,
                Lf::External(d) => {
                    let p = dir.join("ext-listfile.txt");
                    std::fs::write(&p, d).unwrap();
                    ListfileOption::External(p)
                }
            });
        for (i, f) in self.files.iter().enumerate() {
            let c = f.comp.unwrap_or(self.default_comp);
            if f.via_path {
                let p = dir.join(format!("src{i}"));
                std::fs::write(&p, &f.data).unwrap();
                b = match (f.enc, f.fix) {
                    (false, _) if f.comp.is_none() && f.locale == 0 => b.add_file(&p, &f.name),
                    (true, true) => b.add_file_with_encryption(&p, &f.name, c, true, f.locale),
                    (true, false) if f.data.len() % 2 == 0 => b.add_file_with_encryption(&p, &f.name, c, false, f.locale),
                    (e, _) => b.add_file_with_options(&p, &f.name, c, e, f.locale),
                };
            } else {
                let d = f.data.clone();
                b = match (f.enc, f.fix) {
                    (false, _) if f.comp.is_none() && f.locale == 0 => b.add_file_data(d, &f.name),
                    (true, true) => b.add_file_data_with_encryption(d, &f.name, c, true, f.locale),
                    (true, false) if f.data.len() % 2 == 0 => b.add_file_data_with_encryption(d, &f.name, c, false, f.locale),
                    (e, _) => b.add_file_data_with_options(d, &f.name, c, e, f.locale),
                };
            }
        }
        b
    }
    /// Build; a failure or panic of a legal build is a violation of the calling property.
    pub fn build(&self, ctx: &mut Ctx, path: &Path) -> bool {
        let b = self.builder(&ctx.dir.clone());
        match ctx.lib("ArchiveBuilder::build", || b.build(path)) {
            Some(Ok(())) => {
                ctx.count("archives_built");
                true
            }
            Some(Err(e)) => {
                ctx.viol("build-error", format!("build of a legal archive failed: {e} ({})", self.brief()));
                false
            }
            None => false,
        }
    }
    pub fn class(&self, f: &GFile) -> String {
        let ss = self.ss();
        let n = f.data.len();
        format!(
            "v{} bs{} c{:#x} e{}{} crc{} {} tail{}",
            self.ver + 1,
            self.bs.min(5),
            f.comp.unwrap_or(self.default_comp),
            f.enc as u8,
            f.fix as u8,
            self.crc as u8,
            if n == 0 {
                "empty"
            } else if n <= ss {
                "single"
            } else if n <= 2 * ss {
                "two"
            } else {
                "many"
            },
            n % 4
        )
    }
}
impl GFile {
    pub fn brief(&self) -> String {
        format!("{:?}:{}b c{:x?} e{}{} l{:x}", self.name.chars().take(40).collect::<String>(), self.data.len(), self.comp.unwrap_or(0xFF), self.enc as u8, self.fix as u8, self.locale)
    }
}

/// Names whose starting slot in a table of `size` entries is `slot`.
pub fn colliding(r: &mut Rng, size: u32, slot: u32, n: usize, jenkins: bool) -> Vec<String> {
    let mut v = vec![];
    let mut k = r.below(1 << 40);
    while v.len() < n {
        let s = format!("col\\f{k:x}.dat");
        k += 1;
        let h = if jenkins { refm::jenkins(&s) as u32 } else { refm::hash_string(&s, 0) };
        if h & (size - 1) == slot {
            v.push(s);
        }
    }
    v
}
