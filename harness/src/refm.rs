//! Independent reference implementation of the MPQ format as documented in docs/mopaq-format.md.
//! It shares no code with the repository: tables, hashes, ciphers, layouts are recomputed here.
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::sync::OnceLock;

// ------------------------------------------------------------------ crypto
pub fn crypt_table() -> &'static [u32; 0x500] {
    static T: OnceLock<[u32; 0x500]> = OnceLock::new();
    T.get_or_init(|| {
        let mut t = [0u32; 0x500];
        let mut seed: u32 = 0x0010_0001;
        for i1 in 0..0x100usize {
            for k in 0..5usize {
                seed = (seed.wrapping_mul(125).wrapping_add(3)) % 0x2AAAAB;
                let a = (seed & 0xFFFF) << 16;
                seed = (seed.wrapping_mul(125).wrapping_add(3)) % 0x2AAAAB;
                t[i1 + k * 0x100] = a | (seed & 0xFFFF);
            }
        }
        t
    })
}
pub fn upper(b: u8) -> u8 {
    if b == b'/' {
        b'\\'
    } else {
        b.to_ascii_uppercase()
    }
}
/// canonical form under which two names are the same file
pub fn canon(name: &str) -> Vec<u8> {
    name.bytes().map(upper).collect()
}
pub fn hash_string(name: &str, ty: u32) -> u32 {
    let t = crypt_table();
    let (mut s1, mut s2) = (0x7FED_7FEDu32, 0xEEEE_EEEEu32);
    for b in name.bytes() {
        let c = upper(b) as u32;
        s1 = t[(ty * 256 + c) as usize] ^ s1.wrapping_add(s2);
        s2 = c.wrapping_add(s1).wrapping_add(s2.wrapping_mul(33)).wrapping_add(3);
    }
    s1
}
pub fn jenkins(name: &str) -> u64 {
    let mut h = 0u64;
    for b in name.bytes() {
        let c = if b == b'/' { b'\\' } else { b.to_ascii_lowercase() } as u64;
        h = h.wrapping_add(c);
        h = h.wrapping_add(h.wrapping_mul(1024));
        h ^= h >> 6;
    }
    h = h.wrapping_add(h.wrapping_mul(8));
    h ^= h >> 11;
    h.wrapping_add(h.wrapping_mul(32768))
}
pub fn crypt(data: &mut [u32], mut key: u32, enc: bool) {
    if key == 0 {
        return;
    }
    let t = crypt_table();
    let mut seed = 0xEEEE_EEEEu32;
    for v in data.iter_mut() {
        seed = seed.wrapping_add(t[0x400 + (key & 0xFF) as usize]);
        let x = *v ^ key.wrapping_add(seed);
        let plain = if enc { *v } else { x };
        *v = x;
        key = ((!key) << 21).wrapping_add(0x1111_1111) | (key >> 11);
        seed = plain.wrapping_add(seed.wrapping_mul(33)).wrapping_add(3);
    }
}
/// Byte-level: whole dwords as one block; a 1..3 byte tail as one dword under key + number of dwords.
pub fn crypt_bytes(data: &mut [u8], key: u32, enc: bool) {
    if key == 0 {
        return;
    }
    let n = data.len() / 4;
    let mut w: Vec<u32> = data.chunks_exact(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect();
    crypt(&mut w, key, enc);
    for (i, v) in w.iter().enumerate() {
        data[i * 4..i * 4 + 4].copy_from_slice(&v.to_le_bytes());
    }
    let tail = data.len() % 4;
    if tail > 0 {
        let mut b = [0u8; 4];
        b[..tail].copy_from_slice(&data[n * 4..]);
        let mut v = [u32::from_le_bytes(b)];
        crypt(&mut v, key.wrapping_add(n as u32), enc);
        data[n * 4..].copy_from_slice(&v[0].to_le_bytes()[..tail]);
    }
}
/// Whole dwords only; a tail of 1..3 bytes stays as it is (extended tables).
pub fn crypt_dwords(data: &mut [u8], key: u32, enc: bool) {
    let n = data.len() / 4 * 4;
    crypt_bytes(&mut data[..n], key, enc);
}
pub fn adler32(data: &[u8]) -> u32 {
    let (mut a, mut b) = (1u32, 0u32);
    for ch in data.chunks(5000) {
        for &x in ch {
            a += x as u32;
            b += a;
        }
        a %= 65521;
        b %= 65521;
    }
    (b << 16) | a
}
pub fn md5(data: &[u8]) -> [u8; 16] {
    use md5::{Digest, Md5};
    let mut h = Md5::new();
    h.update(data);
    h.finalize().into()
}

// ------------------------------------------------------------------ codecs
pub const ZLIB: u8 = 0x02;
pub const PKWARE: u8 = 0x08;
pub const BZIP2: u8 = 0x10;
pub const LZMA: u8 = 0x12;
pub const SPARSE: u8 = 0x20;

pub fn comp(method: u8, d: &[u8]) -> Vec<u8> {
    match method {
        ZLIB => {
            let mut e = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::best());
            e.write_all(d).unwrap();
            e.finish().unwrap()
        }
        BZIP2 => {
            let mut e = bzip2::write::BzEncoder::new(vec![], bzip2::Compression::best());
            e.write_all(d).unwrap();
            e.finish().unwrap()
        }
        LZMA => {
            let mut o = vec![];
            lzma_rs::lzma_compress(&mut std::io::Cursor::new(d), &mut o).unwrap();
            o
        }
        PKWARE => pklib::implode_bytes(d, pklib::CompressionMode::Binary, pklib::DictionarySize::Size4K).unwrap(),
        SPARSE => {
            let mut o = vec![];
            let mut i = 0;
            while i < d.len() {
                let z = d[i..].iter().take_while(|&&b| b == 0).take(0x7E).count();
                if z > 0 {
                    o.push(0x80 | z as u8);
                    i += z;
                } else {
                    let z = d[i..].iter().take_while(|&&b| b != 0).take(0x7F).count();
                    o.push(z as u8);
                    o.extend_from_slice(&d[i..i + z]);
                    i += z;
                }
            }
            o.push(0xFF);
            o
        }
        _ => panic!("ref comp {method}"),
    }
}
pub fn decomp(method: u8, d: &[u8], size: usize) -> Result<Vec<u8>, String> {
    let lim = size as u64 + 1;
    let mut o = vec![];
    match method {
        ZLIB => {
            flate2::read::ZlibDecoder::new(d).take(lim).read_to_end(&mut o).map_err(|e| e.to_string())?;
        }
        BZIP2 => {
            bzip2::read::BzDecoder::new(d).take(lim).read_to_end(&mut o).map_err(|e| e.to_string())?;
        }
        LZMA => {
            lzma_rs::lzma_decompress(&mut std::io::Cursor::new(d), &mut o).map_err(|e| format!("{e:?}"))?;
        }
        PKWARE => {
            o = pklib::explode_bytes(d).map_err(|e| e.to_string())?;
        }
        SPARSE => {
            let mut i = 0;
            while i < d.len() && o.len() < size {
                let c = d[i];
                i += 1;
                if c == 0xFF {
                    break;
                }
                if c & 0x80 != 0 {
                    o.resize(o.len() + (c & 0x7F) as usize, 0);
                } else {
                    let n = c as usize;
                    o.extend_from_slice(d.get(i..i + n).ok_or("sparse eof")?);
                    i += n;
                }
            }
            if o.len() < size {
                o.resize(size, 0);
            }
        }
        m => return Err(format!("unknown method {m:#x}")),
    }
    if o.len() != size {
        return Err(format!("method {method:#x}: {} bytes, expected {size}", o.len()));
    }
    Ok(o)
}

// ------------------------------------------------------------------ flags
pub const F_IMPLODE: u32 = 0x100;
pub const F_COMPRESS: u32 = 0x200;
pub const F_ENCRYPTED: u32 = 0x1_0000;
pub const F_FIX_KEY: u32 = 0x2_0000;
pub const F_SINGLE: u32 = 0x0100_0000;
pub const F_DELETE: u32 = 0x0200_0000;
pub const F_CRC: u32 = 0x0400_0000;
pub const F_EXISTS: u32 = 0x8000_0000;

pub fn u16at(b: &[u8], o: usize) -> u16 {
    u16::from_le_bytes(b[o..o + 2].try_into().unwrap())
}
pub fn u32at(b: &[u8], o: usize) -> u32 {
    u32::from_le_bytes(b[o..o + 4].try_into().unwrap())
}
pub fn u64at(b: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(b[o..o + 8].try_into().unwrap())
}

// ------------------------------------------------------------------ reader
#[derive(Clone, Debug)]
pub struct HEnt {
    pub a: u32,
    pub b: u32,
    pub locale: u16,
    pub platform: u16,
    pub block: u32,
}
#[derive(Clone, Debug)]
pub struct BEnt {
    pub pos: u64,
    pub csize: u32,
    pub size: u32,
    pub flags: u32,
}
#[derive(Debug)]
pub struct RefArchive {
    pub bytes: Vec<u8>,
    pub base: usize,
    pub header_size: u32,
    pub archive_size32: u32,
    pub version: u16,
    pub shift: u16,
    pub hpos: u64,
    pub bpos: u64,
    pub hcount: u32,
    pub bcount: u32,
    pub hipos: u64,
    pub size64: u64,
    pub betpos: u64,
    pub hetpos: u64,
    pub v4sizes: [u64; 5],
    pub chunk: u32,
    /// block, hash, hi, bet, het, header
    pub md5s: [[u8; 16]; 6],
    pub hash: Vec<HEnt>,
    pub block: Vec<BEnt>,
}

pub const HEADER_SIZES: [u32; 4] = [0x20, 0x2C, 0x44, 0xD0];

impl RefArchive {
    pub fn parse(bytes: Vec<u8>, base: usize) -> Result<RefArchive, String> {
        let b = &bytes[base..];
        if b.len() < 32 || &b[..4] != b"MPQ\x1a" {
            return Err("no MPQ signature".into());
        }
        let version = u16at(b, 12);
        if version > 3 {
            return Err(format!("version {version}"));
        }
        let hs = HEADER_SIZES[version as usize];
        if b.len() < hs as usize {
            return Err("file shorter than its header".into());
        }
        let mut r = RefArchive {
            base,
            header_size: u32at(b, 4),
            archive_size32: u32at(b, 8),
            version,
            shift: u16at(b, 14),
            hpos: u32at(b, 16) as u64,
            bpos: u32at(b, 20) as u64,
            hcount: u32at(b, 24),
            bcount: u32at(b, 28),
            hipos: 0,
            size64: 0,
            betpos: 0,
            hetpos: 0,
            v4sizes: [0; 5],
            chunk: 0,
            md5s: [[0; 16]; 6],
            hash: vec![],
            block: vec![],
            bytes: vec![],
        };
        if version >= 1 {
            r.hipos = u64at(b, 32);
            r.hpos |= (u16at(b, 40) as u64) << 32;
            r.bpos |= (u16at(b, 42) as u64) << 32;
        }
        if version >= 2 {
            r.size64 = u64at(b, 44);
            r.betpos = u64at(b, 52);
            r.hetpos = u64at(b, 60);
        }
        if version >= 3 {
            for i in 0..5 {
                r.v4sizes[i] = u64at(b, 68 + 8 * i);
            }
            r.chunk = u32at(b, 108);
            for i in 0..6 {
                r.md5s[i].copy_from_slice(&b[112 + 16 * i..128 + 16 * i]);
            }
        }
        let slice = |pos: u64, n: usize| -> Result<Vec<u8>, String> {
            let p = pos as usize;
            b.get(p..p + n).map(|x| x.to_vec()).ok_or(format!("table at {pos:#x}+{n} outside the file ({} bytes)", b.len()))
        };
        let mut h = slice(r.hpos, r.hcount as usize * 16)?;
        crypt_bytes(&mut h, hash_string("(hash table)", 3), false);
        for e in h.chunks_exact(16) {
            r.hash.push(HEnt { a: u32at(e, 0), b: u32at(e, 4), locale: u16at(e, 8), platform: u16at(e, 10), block: u32at(e, 12) });
        }
        let mut t = slice(r.bpos, r.bcount as usize * 16)?;
        crypt_bytes(&mut t, hash_string("(block table)", 3), false);
        let hi = if r.hipos != 0 { Some(slice(r.hipos, r.bcount as usize * 2)?) } else { None };
        for (i, e) in t.chunks_exact(16).enumerate() {
            let h = hi.as_ref().map(|h| u16at(h, i * 2) as u64).unwrap_or(0);
            r.block.push(BEnt { pos: (h << 32) | u32at(e, 0) as u64, csize: u32at(e, 4), size: u32at(e, 8), flags: u32at(e, 12) });
        }
        r.bytes = bytes;
        Ok(r)
    }
    pub fn sector(&self) -> usize {
        512usize << self.shift
    }
    pub fn find(&self, name: &str) -> Vec<(usize, &HEnt)> {
        let n = self.hash.len();
        let mut out = vec![];
        if n == 0 {
            return out;
        }
        let (a, b) = (hash_string(name, 1), hash_string(name, 2));
        let start = hash_string(name, 0) as usize & (n - 1);
        for k in 0..n {
            let i = (start + k) & (n - 1);
            let e = &self.hash[i];
            if e.block == 0xFFFF_FFFF {
                break;
            }
            if e.a == a && e.b == b && e.block < 0xFFFF_FFFE {
                out.push((i, e));
            }
        }
        out
    }
    /// Byte extent of a block in the archive (including a checksum that follows or precedes the data).
    pub fn extent(&self, e: &BEnt) -> (u64, u64) {
        let mut len = e.csize as u64;
        if e.flags & F_CRC != 0 {
            if e.flags & F_SINGLE != 0 {
                len += 4;
            } else {
                len += 4 * (e.size as u64).div_ceil(self.sector() as u64);
            }
        }
        (e.pos, e.pos + len)
    }
    /// Decode file content from the block entry per the documented layout.
    pub fn content(&self, name: &str, e: &BEnt) -> Result<Vec<u8>, String> {
        let b = &self.bytes[self.base..];
        let key = if e.flags & F_ENCRYPTED != 0 {
            let k = hash_string(name, 3);
            if e.flags & F_FIX_KEY != 0 {
                k.wrapping_add(e.pos as u32) ^ e.size
            } else {
                k
            }
        } else {
            0
        };
        let enc = e.flags & F_ENCRYPTED != 0;
        let get = |o: u64, n: usize| -> Result<Vec<u8>, String> {
            b.get(o as usize..o as usize + n).map(|x| x.to_vec()).ok_or(format!("data at {o:#x}+{n} outside the archive"))
        };
        let size = e.size as usize;
        if e.flags & F_SINGLE != 0 {
            let mut d = get(e.pos, e.csize as usize)?;
            if enc {
                crypt_bytes(&mut d, key, false);
            }
            let out = if e.flags & F_COMPRESS != 0 {
                let m = *d.first().ok_or("empty compressed unit")?;
                decomp(m, &d[1..], size)?
            } else {
                if d.len() != size {
                    return Err(format!("stored unit of {} bytes, size {size}", d.len()));
                }
                d
            };
            if e.flags & F_CRC != 0 {
                let c = u32at(&get(e.pos + e.csize as u64, 4)?, 0);
                if c != adler32(&out) {
                    return Err(format!("unit checksum {c:08x} != {:08x}", adler32(&out)));
                }
            }
            return Ok(out);
        }
        let ss = self.sector();
        let n = size.div_ceil(ss);
        if e.flags & F_COMPRESS == 0 {
            let mut d = get(e.pos, e.csize as usize)?;
            if d.len() != size {
                return Err(format!("stored file of {} bytes, size {size}", d.len()));
            }
            if enc {
                for (i, s) in d.chunks_mut(ss).enumerate() {
                    crypt_bytes(s, key.wrapping_add(i as u32), false);
                }
            }
            return Ok(d);
        }
        let mut t = get(e.pos, (n + 1) * 4)?;
        if enc {
            crypt_bytes(&mut t, key.wrapping_sub(1), false);
        }
        let offs: Vec<u64> = t.chunks_exact(4).map(|c| u32at(c, 0) as u64).collect();
        let crcs = if e.flags & F_CRC != 0 { Some(get(e.pos + (n as u64 + 1) * 4, n * 4)?) } else { None };
        let first = (n as u64 + 1) * 4 + if crcs.is_some() { n as u64 * 4 } else { 0 };
        if offs[0] != first {
            return Err(format!("first sector at {}, tables end at {first}", offs[0]));
        }
        let mut out = vec![];
        for i in 0..n {
            if offs[i + 1] < offs[i] {
                return Err("sector offsets decrease".into());
            }
            let want = ss.min(size - out.len());
            let mut d = get(e.pos + offs[i], (offs[i + 1] - offs[i]) as usize)?;
            if enc {
                crypt_bytes(&mut d, key.wrapping_add(i as u32), false);
            }
            let s = if d.len() == want {
                d
            } else if d.len() < want {
                let m = *d.first().ok_or("empty sector")?;
                decomp(m, &d[1..], want).map_err(|x| format!("sector {i}: {x}"))?
            } else {
                return Err(format!("sector {i} has {} bytes for {want}", d.len()));
            };
            if let Some(c) = &crcs {
                let c = u32at(c, i * 4);
                if c != adler32(&s) {
                    return Err(format!("sector {i} checksum {c:08x} != {:08x}", adler32(&s)));
                }
            }
            out.extend_from_slice(&s);
        }
        // a file's compressed size covers the offset table and the sectors (not the checksum table)
        let total = offs[n] - if crcs.is_some() { n as u64 * 4 } else { 0 };
        if total != e.csize as u64 {
            return Err(format!("compressed size {} but the sectors end at {total}", e.csize));
        }
        Ok(out)
    }
    /// Plain (decrypted, decompressed) extended table payload after the 12-byte extended header.
    pub fn ext_table(&self, pos: u64, stored: u64, magic: &[u8; 4], key: &str) -> Result<Vec<u8>, String> {
        let b = &self.bytes[self.base..];
        let raw = b.get(pos as usize..(pos + stored) as usize).ok_or("extended table outside the file")?;
        if raw.len() < 12 || &raw[..4] != magic {
            return Err("extended table signature".into());
        }
        if u32at(raw, 4) != 1 {
            return Err("extended table version".into());
        }
        let dsize = u32at(raw, 8) as usize;
        let mut d = raw[12..].to_vec();
        crypt_dwords(&mut d, hash_string(key, 3), false);
        if d.len() < dsize {
            let m = *d.first().ok_or("empty extended table")?;
            decomp(m, &d[1..], dsize)
        } else if d.len() == dsize {
            Ok(d)
        } else {
            Err(format!("extended table stores {} bytes, declares {dsize}", d.len()))
        }
    }
}

pub fn bits(data: &[u8], off: u64, n: u32) -> Option<u64> {
    let mut v = 0u64;
    for i in 0..n as u64 {
        let p = off + i;
        let byte = *data.get((p / 8) as usize)?;
        if byte >> (p % 8) & 1 == 1 && i < 64 {
            v |= 1 << i;
        }
    }
    Some(v)
}
pub fn put_bits(data: &mut [u8], off: u64, n: u32, v: u64) {
    for i in 0..n as u64 {
        let p = off + i;
        let m = 1u8 << (p % 8);
        if i < 64 && v >> i & 1 == 1 {
            data[(p / 8) as usize] |= m;
        } else {
            data[(p / 8) as usize] &= !m;
        }
    }
}

#[derive(Debug, Clone)]
pub struct BetEnt {
    pub pos: u64,
    pub size: u64,
    pub csize: u64,
    pub flags: u32,
    pub hash: u64,
}
pub fn decode_bet(t: &[u8]) -> Result<Vec<BetEnt>, String> {
    if t.len() < 76 {
        return Err("BET header".into());
    }
    let f: Vec<u32> = (0..19).map(|i| u32at(t, i * 4)).collect();
    if f[0] as usize != 12 + t.len() {
        return Err(format!("BET table_size {} but {} bytes present", f[0], 12 + t.len()));
    }
    let count = f[1] as u64;
    let esz = f[3] as u64;
    let (bi, bc) = (&f[4..9], &f[9..14]);
    let nf = f[18] as usize;
    let flags: Vec<u32> = (0..nf).map(|i| t.get(76 + i * 4..80 + i * 4).map(|b| u32at(b, 0))).collect::<Option<_>>().ok_or("BET flags")?;
    let ft = &t[76 + nf * 4..];
    let ftlen = (count * esz).div_ceil(8) as usize;
    if ft.len() < ftlen {
        return Err("BET file table short".into());
    }
    let (ft, hashes) = ft.split_at(ftlen);
    let hsz = f[16];
    if hashes.len() != f[17] as usize {
        return Err(format!("BET hash array {} bytes, header says {}", hashes.len(), f[17]));
    }
    let mut out = vec![];
    for i in 0..count {
        let g = |k: usize| bits(ft, i * esz + bi[k] as u64, bc[k]).ok_or(format!("BET entry {i} field {k} outside the table"));
        for k in 0..5 {
            if bi[k] as u64 + bc[k] as u64 > esz {
                return Err(format!("BET field {k} does not fit the entry"));
            }
        }
        let fi = g(3)? as usize;
        out.push(BetEnt {
            pos: g(0)?,
            size: g(1)?,
            csize: g(2)?,
            flags: if bc[3] == 0 { flags.first().copied().unwrap_or(0) } else { *flags.get(fi).ok_or("BET flag index")? },
            hash: bits(hashes, i * hsz as u64, hsz).ok_or("BET hash")?,
        });
    }
    Ok(out)
}
pub struct Het {
    pub max_files: u32,
    /// (hash bits, file index) per slot; None when the slot is free
    pub slots: Vec<(u64, u64)>,
    pub hbits: u32,
    pub ibits: u32,
}
pub fn decode_het(t: &[u8]) -> Result<Het, String> {
    if t.len() < 32 {
        return Err("HET header".into());
    }
    let f: Vec<u32> = (0..8).map(|i| u32at(t, i * 4)).collect();
    if f[0] as usize != 12 + t.len() {
        return Err(format!("HET table_size {} but {} bytes present", f[0], 12 + t.len()));
    }
    let (hts, hbits, tis, ibits) = (f[2] as usize, f[3], f[4] as u64, f[6]);
    if hbits == 0 || ibits == 0 || hbits > 64 || ibits > 32 {
        return Err("HET bit sizes".into());
    }
    let ils = tis.div_ceil(8) as usize;
    if t.len() != 32 + hts + ils {
        return Err(format!("HET payload {} bytes, header describes {}", t.len(), 32 + hts + ils));
    }
    let n = tis / ibits as u64;
    let (h, ix) = t[32..].split_at(hts);
    let mut slots = vec![];
    for i in 0..n {
        slots.push((
            bits(h, i * hbits as u64, hbits).ok_or("HET hash slot outside the table")?,
            bits(ix, i * ibits as u64, ibits).ok_or("HET index slot")?,
        ));
    }
    Ok(Het { max_files: f[1], slots, hbits, ibits })
}

// ------------------------------------------------------------------ writer
#[derive(Clone, Debug)]
pub enum Layout {
    Single,
    /// sector table; each sector compressed with the given methods in turn (0 = stored)
    Sectors,
    /// no compression flag: sectors stored back to back, no offset table
    Raw,
}
#[derive(Clone, Debug)]
pub struct WFile {
    pub name: String,
    pub locale: u16,
    pub platform: u16,
    pub data: Vec<u8>,
    pub layout: Layout,
    pub methods: Vec<u8>,
    pub encrypt: bool,
    pub fix_key: bool,
    /// hash slot is a tombstone (file deleted) but the chain goes on
    pub deleted: bool,
    /// extra flags / cleared flags
    pub extra_flags: u32,
    pub clear_flags: u32,
    /// absolute position to place the file at (sparse archives)
    pub at: Option<u64>,
}
#[derive(Clone, Debug)]
pub struct WOpts {
    pub version: u16,
    pub shift: u16,
    pub hash_size: u32,
    pub spare_blocks: u32,
    pub shuffle_blocks: bool,
    pub tables_first: bool,
    pub hi_block: bool,
    pub het_bet: bool,
    pub table_method: u8,
    pub v4_md5: bool,
    pub gap: usize,
    /// hash and block tables are written (always so in versions 1 and 2)
    pub classic: bool,
    /// 0: the plain layout; otherwise seeds slot counts, hash widths, field order and widths, flag order
    pub ext_mix: u64,
}
pub struct Written {
    /// chunks of bytes with their position relative to the archive start; `len` is the archive's size
    pub parts: BTreeMap<u64, Vec<u8>>,
    pub len: u64,
    pub blocks: Vec<BEnt>,
    pub block_of: Vec<u32>,
    pub header_len: usize,
    /// (position, stored bytes) of the hash, block, hi-block, HET and BET tables; 0 if absent
    pub tables: [(u64, u64); 5],
}

pub fn encode_file(f: &WFile, pos: u64, shift: u16) -> (Vec<u8>, u32) {
    let mut flags = F_EXISTS | f.extra_flags;
    let key = if f.encrypt {
        flags |= F_ENCRYPTED;
        let k = hash_string(&f.name, 3);
        if f.fix_key {
            flags |= F_FIX_KEY;
            k.wrapping_add(pos as u32) ^ f.data.len() as u32
        } else {
            k
        }
    } else {
        0
    };
    let ss = 512usize << shift;
    let implode = f.extra_flags & F_IMPLODE != 0;
    let pack = |d: &[u8], m: u8| -> Vec<u8> {
        if m == 0 || d.is_empty() {
            return d.to_vec();
        }
        let c = comp(m, d);
        if implode {
            // a bare stream, no method byte
            return if c.len() < d.len() { c } else { d.to_vec() };
        }
        if c.len() + 1 < d.len() {
            let mut o = vec![m];
            o.extend_from_slice(&c);
            o
        } else {
            d.to_vec()
        }
    };
    let out = match f.layout {
        Layout::Single => {
            flags |= F_SINGLE;
            let m = f.methods.first().copied().unwrap_or(0);
            let mut p = pack(&f.data, m);
            if p.len() < f.data.len() {
                flags |= F_COMPRESS;
            } else {
                flags &= !F_IMPLODE;
            }
            if f.encrypt {
                crypt_bytes(&mut p, key, true);
            }
            p
        }
        Layout::Raw => {
            let mut p = f.data.clone();
            if f.encrypt {
                for (i, s) in p.chunks_mut(ss).enumerate() {
                    crypt_bytes(s, key.wrapping_add(i as u32), true);
                }
            }
            p
        }
        Layout::Sectors => {
            flags |= F_COMPRESS;
            let secs: Vec<Vec<u8>> = f.data.chunks(ss).enumerate().map(|(i, s)| pack(s, if f.methods.is_empty() { 0 } else { f.methods[i % f.methods.len()] })).collect();
            let mut off = (secs.len() as u32 + 1) * 4;
            let mut tab = vec![];
            for s in &secs {
                tab.extend_from_slice(&off.to_le_bytes());
                off += s.len() as u32;
            }
            tab.extend_from_slice(&off.to_le_bytes());
            if f.encrypt {
                crypt_bytes(&mut tab, key.wrapping_sub(1), true);
            }
            let mut p = tab;
            for (i, mut s) in secs.into_iter().enumerate() {
                if f.encrypt {
                    crypt_bytes(&mut s, key.wrapping_add(i as u32), true);
                }
                p.extend_from_slice(&s);
            }
            p
        }
    };
    (out, flags & !f.clear_flags)
}

pub fn write_archive(files: &[WFile], o: &WOpts, rng: &mut crate::rng::Rng) -> Written {
    let hl = HEADER_SIZES[o.version as usize] as usize;
    let mut parts: BTreeMap<u64, Vec<u8>> = BTreeMap::new();
    let nblocks = files.len() as u32 + o.spare_blocks;
    let mut order: Vec<u32> = (0..nblocks).collect();
    if o.shuffle_blocks {
        rng.shuffle(&mut order);
    }
    let mut blocks = vec![BEnt { pos: 0, csize: 0, size: 0, flags: 0 }; nblocks as usize];
    let mut pos = hl as u64;
    let hash_size = if o.classic { o.hash_size } else { 0 };
    let hlen = hash_size as u64 * 16;
    let blen = if o.classic { nblocks as u64 * 16 } else { 0 };
    let (mut hpos, mut bpos) = (0u64, 0u64);
    // the sizes of version 3's extended tables are only known from the usual order
    let free = !(o.version == 2 && o.het_bet);
    let block_first = free && rng.chance(1, 4);
    let bet_first = free && rng.chance(1, 3);
    let place = |pos: &mut u64| {
        let (h, b) = if block_first { (*pos + blen, *pos) } else { (*pos, *pos + hlen) };
        *pos += hlen + blen;
        (h, b)
    };
    if o.tables_first {
        (hpos, bpos) = place(&mut pos);
    }
    let mut block_of = vec![];
    for (i, f) in files.iter().enumerate() {
        pos += o.gap as u64;
        if let Some(a) = f.at {
            pos = pos.max(a);
        }
        let (d, flags) = encode_file(f, pos, o.shift);
        let b = order[i];
        block_of.push(b);
        blocks[b as usize] = BEnt { pos, csize: d.len() as u32, size: f.data.len() as u32, flags };
        let n = d.len() as u64;
        parts.insert(pos, d);
        pos += n;
    }
    // HET/BET
    let (mut hetpos, mut betpos, mut hetlen, mut betlen) = (0, 0, 0, 0);
    let (mut hetmd5, mut betmd5) = ([0u8; 16], [0u8; 16]);
    if o.version >= 2 && o.het_bet {
        let (het, bet) = make_het_bet(files, &blocks, &block_of, o.table_method, o.ext_mix);
        hetlen = het.len() as u64;
        hetmd5 = md5(&het);
        betlen = bet.len() as u64;
        betmd5 = md5(&bet);
        (hetpos, betpos) = if bet_first { (pos + betlen, pos) } else { (pos, pos + hetlen) };
        parts.insert(hetpos, het);
        parts.insert(betpos, bet);
        pos += hetlen + betlen;
    }
    if !o.tables_first {
        (hpos, bpos) = place(&mut pos);
    }
    // hash table
    let n = o.hash_size as usize;
    let mut ht: Vec<HEnt> = vec![HEnt { a: 0xFFFF_FFFF, b: 0xFFFF_FFFF, locale: 0xFFFF, platform: 0xFFFF, block: 0xFFFF_FFFF }; n];
    for (i, f) in files.iter().enumerate() {
        let mut k = hash_string(&f.name, 0) as usize & (n - 1);
        while ht[k].block != 0xFFFF_FFFF {
            k = (k + 1) & (n - 1);
        }
        ht[k] = HEnt { a: hash_string(&f.name, 1), b: hash_string(&f.name, 2), locale: f.locale, platform: f.platform, block: if f.deleted { 0xFFFF_FFFE } else { block_of[i] } };
    }
    let mut hb = vec![];
    for e in &ht {
        hb.extend_from_slice(&e.a.to_le_bytes());
        hb.extend_from_slice(&e.b.to_le_bytes());
        hb.extend_from_slice(&e.locale.to_le_bytes());
        hb.extend_from_slice(&e.platform.to_le_bytes());
        hb.extend_from_slice(&e.block.to_le_bytes());
    }
    crypt_bytes(&mut hb, hash_string("(hash table)", 3), true);
    if !o.classic {
        hb.clear();
    }
    let hmd5 = md5(&hb);
    if !hb.is_empty() {
        parts.insert(hpos, hb);
    }
    let mut bb = vec![];
    for e in &blocks {
        bb.extend_from_slice(&(e.pos as u32).to_le_bytes());
        bb.extend_from_slice(&e.csize.to_le_bytes());
        bb.extend_from_slice(&e.size.to_le_bytes());
        bb.extend_from_slice(&e.flags.to_le_bytes());
    }
    crypt_bytes(&mut bb, hash_string("(block table)", 3), true);
    if !o.classic {
        bb.clear();
    }
    let bmd5 = md5(&bb);
    if !bb.is_empty() {
        parts.insert(bpos, bb);
    }
    let mut hipos = 0;
    let mut himd5 = [0u8; 16];
    if o.version >= 1 && o.classic && (o.hi_block || blocks.iter().any(|b| b.pos >> 32 != 0)) {
        let hb: Vec<u8> = blocks.iter().flat_map(|b| ((b.pos >> 32) as u16).to_le_bytes()).collect();
        hipos = pos;
        himd5 = md5(&hb);
        pos += hb.len() as u64;
        parts.insert(hipos, hb);
    }
    let total = pos;
    let mut h = vec![];
    h.extend_from_slice(b"MPQ\x1a");
    h.extend_from_slice(&(hl as u32).to_le_bytes());
    h.extend_from_slice(&(total.min(u32::MAX as u64) as u32).to_le_bytes());
    h.extend_from_slice(&o.version.to_le_bytes());
    h.extend_from_slice(&o.shift.to_le_bytes());
    h.extend_from_slice(&(hpos as u32).to_le_bytes());
    h.extend_from_slice(&(bpos as u32).to_le_bytes());
    h.extend_from_slice(&hash_size.to_le_bytes());
    h.extend_from_slice(&(if o.classic { nblocks } else { 0 }).to_le_bytes());
    if o.version >= 1 {
        h.extend_from_slice(&hipos.to_le_bytes());
        h.extend_from_slice(&((hpos >> 32) as u16).to_le_bytes());
        h.extend_from_slice(&((bpos >> 32) as u16).to_le_bytes());
    }
    if o.version >= 2 {
        h.extend_from_slice(&total.to_le_bytes());
        h.extend_from_slice(&(betpos as u64).to_le_bytes());
        h.extend_from_slice(&(hetpos as u64).to_le_bytes());
    }
    if o.version >= 3 {
        for x in [hlen, blen, if hipos != 0 { nblocks as u64 * 2 } else { 0 }, hetlen, betlen] {
            h.extend_from_slice(&x.to_le_bytes());
        }
        h.extend_from_slice(&0x4000u32.to_le_bytes());
        for m in [bmd5, hmd5, himd5, betmd5, hetmd5] {
            h.extend_from_slice(&m);
        }
        let m = md5(&h);
        h.extend_from_slice(&m);
    }
    assert_eq!(h.len(), hl);
    parts.insert(0, h);
    let tables = [(hpos, hlen), (bpos, blen), (hipos, if hipos != 0 { nblocks as u64 * 2 } else { 0 }), (hetpos, hetlen), (betpos, betlen)];
    Written { parts, len: total, blocks, block_of, header_len: hl, tables }
}

fn nbits(max: u64) -> u32 {
    (64 - max.leading_zeros()).max(1)
}

/// Extended tables in the layout of docs/mopaq-format.md: hash bits at stride hash_entry_size, file
/// indices at stride index_size, BET entries bit-packed, 64-bit name hashes.
pub fn make_het_bet(files: &[WFile], blocks: &[BEnt], block_of: &[u32], method: u8, mix: u64) -> (Vec<u8>, Vec<u8>) {
    let nb = blocks.len() as u32;
    let mut name_of: Vec<Option<&str>> = vec![None; nb as usize];
    for (i, f) in files.iter().enumerate() {
        if !f.deleted {
            name_of[block_of[i] as usize] = Some(&f.name);
        }
    }
    let mut mr = crate::rng::Rng::new(mix);
    let slots = (nb.max(1) * if mix != 0 { *mr.pick(&[2u32, 3, 4, 8]) } else { 2 }).next_power_of_two();
    let mut hb = nbits(slots as u64);
    let mut ib = nbits(nb as u64);
    if mix != 0 {
        hb = *mr.pick(&[hb, 8, 16, 31, 33, 64, 1, 57, 59, 63]);
        ib += *mr.pick(&[0, 1, 7]);
    }
    let mut ht = vec![0u8; ((slots * hb) as usize).div_ceil(8)];
    let mut ix = vec![0u8; ((slots * ib) as usize).div_ceil(8)];
    for i in 0..slots as u64 {
        put_bits(&mut ix, i * ib as u64, ib, u64::MAX);
    }
    let mut used = vec![false; slots as usize];
    for (i, nm) in name_of.iter().enumerate() {
        let Some(nm) = nm else { continue };
        let h = jenkins(nm);
        let mut k = (h & (slots as u64 - 1)) as usize;
        while used[k] {
            k = (k + 1) % slots as usize;
        }
        used[k] = true;
        put_bits(&mut ht, k as u64 * hb as u64, hb, h & (u64::MAX >> (64 - hb)));
        put_bits(&mut ix, k as u64 * ib as u64, ib, i as u64);
    }
    let mut t = vec![];
    let data = 32 + ht.len() + ix.len();
    for x in [12 + data as u32, nb, ht.len() as u32, hb, slots * ib, 0, ib, 0] {
        t.extend_from_slice(&x.to_le_bytes());
    }
    t.extend_from_slice(&ht);
    t.extend_from_slice(&ix);
    let het = wrap_ext(b"HET\x1a", t, "(hash table)", method);

    let mut fl: Vec<u32> = blocks.iter().map(|b| b.flags).collect();
    fl.sort();
    fl.dedup();
    if mix != 0 {
        fl.push(0x1234_5678);
        mr.shuffle(&mut fl);
    }
    let mut w = [
        nbits(blocks.iter().map(|b| b.pos).max().unwrap_or(0)),
        nbits(blocks.iter().map(|b| b.size as u64).max().unwrap_or(0)),
        nbits(blocks.iter().map(|b| b.csize as u64).max().unwrap_or(0)),
        nbits(fl.len().saturating_sub(1) as u64),
        0,
    ];
    let mut bi = [0u32; 5];
    let mut order = [0usize, 1, 2, 3, 4];
    if mix != 0 {
        mr.shuffle(&mut order);
        w[4] = mr.below(12) as u32;
        for k in 0..4 {
            w[k] = (w[k] + *mr.pick(&[0, 0, 1, 9])).min(48);
        }
    }
    let mut es = 0;
    for k in order {
        bi[k] = es;
        es += w[k];
    }
    if mix != 0 {
        es += mr.below(3) as u32;
    }
    let mut ft = vec![0u8; (nb as usize * es as usize).div_ceil(8)];
    let mut hs = vec![];
    for (i, b) in blocks.iter().enumerate() {
        let o = i as u64 * es as u64;
        put_bits(&mut ft, o + bi[0] as u64, w[0], b.pos);
        put_bits(&mut ft, o + bi[1] as u64, w[1], b.size as u64);
        put_bits(&mut ft, o + bi[2] as u64, w[2], b.csize as u64);
        put_bits(&mut ft, o + bi[3] as u64, w[3], fl.iter().position(|x| *x == b.flags).unwrap() as u64);
        hs.extend_from_slice(&name_of[i].map(jenkins).unwrap_or(0).to_le_bytes());
    }
    let mut t = vec![];
    let data = 76 + fl.len() * 4 + ft.len() + hs.len();
    for x in [12 + data as u32, nb, 0x10, es, bi[0], bi[1], bi[2], bi[3], bi[4], w[0], w[1], w[2], w[3], w[4], nb * 64, 0, 64, hs.len() as u32, fl.len() as u32] {
        t.extend_from_slice(&x.to_le_bytes());
    }
    for f in &fl {
        t.extend_from_slice(&f.to_le_bytes());
    }
    t.extend_from_slice(&ft);
    t.extend_from_slice(&hs);
    let bet = wrap_ext(b"BET\x1a", t, "(block table)", method);
    (het, bet)
}
fn wrap_ext(sig: &[u8; 4], t: Vec<u8>, key: &str, method: u8) -> Vec<u8> {
    let mut o = sig.to_vec();
    o.extend_from_slice(&1u32.to_le_bytes());
    o.extend_from_slice(&(t.len() as u32).to_le_bytes());
    let mut d = t.clone();
    if method != 0 {
        let c = comp(method, &t);
        if c.len() + 1 < t.len() {
            d = vec![method];
            d.extend_from_slice(&c);
        }
    }
    crypt_dwords(&mut d, hash_string(key, 3), true);
    o.extend_from_slice(&d);
    o
}
impl Written {
    pub fn to_bytes(&self) -> Vec<u8> {
        let mut v = vec![0u8; self.len as usize];
        for (p, d) in &self.parts {
            v[*p as usize..*p as usize + d.len()].copy_from_slice(d);
        }
        v
    }
    /// Write at `base` of a (possibly sparse) file.
    pub fn to_file(&self, path: &std::path::Path, prefix: &[u8]) -> std::io::Result<()> {
        use std::io::{Seek, SeekFrom};
        let mut f = std::fs::File::create(path)?;
        f.write_all(prefix)?;
        for (p, d) in &self.parts {
            f.seek(SeekFrom::Start(prefix.len() as u64 + p))?;
            f.write_all(d)?;
        }
        f.set_len(prefix.len() as u64 + self.len)?;
        Ok(())
    }
}

/// The ADPCM decoder of the format (as published in StormLib), with the step size each sample was decoded with
pub fn adpcm_decode(s: &[u8], channels: usize, max: usize) -> Option<(Vec<u8>, Vec<i32>)> {
    const STEPS: [i32; 89] = [
        7, 8, 9, 10, 11, 12, 13, 14, 16, 17, 19, 21, 23, 25, 28, 31, 34, 37, 41, 45, 50, 55, 60, 66, 73, 80, 88, 97, 107, 118, 130, 143, 157, 173, 190, 209, 230, 253, 279,
        307, 337, 371, 408, 449, 494, 544, 598, 658, 724, 796, 876, 963, 1060, 1166, 1282, 1411, 1552, 1707, 1878, 2066, 2272, 2499, 2749, 3024, 3327, 3660, 4026, 4428, 4871,
        5358, 5894, 6484, 7132, 7845, 8630, 9493, 10442, 11487, 12635, 13899, 15289, 16818, 18500, 20350, 22385, 24623, 27086, 29794, 32767,
    ];
    const NEXT: [i32; 32] = [-1, 0, -1, 4, -1, 2, -1, 6, -1, 1, -1, 5, -1, 3, -1, 7, -1, 1, -1, 5, -1, 3, -1, 7, -1, 2, -1, 4, -1, 6, -1, 8];
    let shift = *s.get(1)? as u32;
    let (mut out, mut used) = (Vec::new(), Vec::new());
    let mut pred = [0i32; 2];
    let mut idx = [44i32; 2];
    let mut pos = 2;
    for p in pred.iter_mut().take(channels) {
        let b = s.get(pos..pos + 2)?;
        *p = i16::from_le_bytes([b[0], b[1]]) as i32;
        out.extend_from_slice(b);
        used.push(0);
        pos += 2;
    }
    let mut ch = 0;
    while pos < s.len() && out.len() < max {
        let c = s[pos];
        pos += 1;
        if c == 0x81 {
            idx[ch] = (idx[ch] + 8).min(88);
            continue; // the same channel goes on
        }
        let step = STEPS[idx[ch] as usize];
        if c == 0x80 {
            idx[ch] = (idx[ch] - 1).max(0);
        } else {
            let mut d = step.checked_shr(shift).unwrap_or(0);
            for b in 0..6 {
                if c >> b & 1 != 0 {
                    d += step >> b;
                }
            }
            let v = if c & 0x40 != 0 { pred[ch] - d } else { pred[ch] + d };
            pred[ch] = v.max(-32768).min(32767);
            idx[ch] = (idx[ch] + NEXT[(c & 31) as usize]).max(0).min(88);
        }
        out.extend_from_slice(&(pred[ch] as i16).to_le_bytes());
        used.push(step);
        ch = (ch + 1) % channels;
    }
    Some((out, used))
}
