//! C12: signatures. A properly signed archive verifies; nothing else does.
use crate::core::{Ctx, Prop};
use crate::gen::{self, GFile};
use crate::refm::{self, RefArchive};
use crate::rng::Rng;
use crate::special::{padded, private, INFO};
use mopaq::archive::SignatureStatus;
use mopaq::crypto::{calculate_mpq_hash_md5, verify_weak_signature, SignatureInfo};
use mopaq::Archive;
use num_bigint::BigUint;
use serde_json::json;
use std::io::{Cursor, Read, Seek, SeekFrom};

pub fn prop() -> Prop {
    Prop {
        id: "C12",
        quick: 10000,
        thorough: 60000,
        run,
        need: &[("valid_accepted", 1500), ("tampered_rejected", 4000), ("forged_rejected", 2000), ("straddling", 80), ("unsigned", 200), ("strong_rejected", 300), ("digests", 2000)],
        rule: "distinct (version, embedded, signature position relative to the 64 KiB units, alteration kind, status) situations verified",
        level: "exploration",
        assumptions: &["weak signatures are made with the published weak private key", "no private key exists for strong signatures: only their rejection is observed"],
        workers: 8,
    }
}

struct Short<'a>(Cursor<&'a [u8]>, Rng);
impl Read for Short<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = if b.is_empty() { 0 } else { 1 + self.1.usize(b.len()) };
        self.0.read(&mut b[..n])
    }
}
impl Seek for Short<'_> {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.0.seek(p)
    }
}

fn digests(ctx: &mut Ctx, r: &mut Rng) {
    let n = match r.below(4) {
        0 => 65536 + r.usize(5) - 2,
        1 => 131072 + r.usize(200) - 100,
        2 => r.usize(300_000),
        _ => r.usize(3000),
    };
    let d = r.bytes(n);
    let begin = r.usize(n + 1).min(*r.pick(&[0usize, 0, 512, 70000]));
    let end = begin + r.usize(n - begin + 1);
    let mut s = match r.below(3) {
        0 => begin + 65536 - r.usize(80).min(65536),
        1 => begin + r.usize(end - begin + 1),
        _ => r.usize(n + 1),
    };
    s = s.min(n);
    let len = *r.pick(&[0usize, 1, 72, 72, 72, 100, 65536, 70000]);
    let si = SignatureInfo::new_weak(begin as u64, (end - begin) as u64, s as u64, len as u64, vec![0; 64]);
    let mut z = d.clone();
    let e = (s + len).min(n);
    z[s..e].fill(0);
    let want = refm::md5(&z[begin..end]);
    ctx.count("digests");
    let short = r.bool();
    let rr = r.clone();
    let got = ctx.lib("calculate_mpq_hash_md5", || if short { calculate_mpq_hash_md5(Short(Cursor::new(&d[..]), rr), &si) } else { calculate_mpq_hash_md5(Cursor::new(&d[..]), &si) });
    if let Some(g) = got {
        ctx.check(g.as_ref().is_ok_and(|g| *g == want), "digest", || format!("{n} bytes, archive {begin}..{end}, signature {s}+{len}, short reads {short}: {g:?}, expected {want:?}"));
    }
    // the reader-based verification
    if r.chance(1, 4) {
        let h = refm::md5(&d[..end]);
        let sig = private(&padded(&h));
        let rr = r.clone();
        if let Some(x) = ctx.lib("verify_weak_signature", || verify_weak_signature(Short(Cursor::new(&d[..]), rr), &sig, end as u64)) {
            ctx.check(x.as_ref().is_ok_and(|b| *b), "stream-valid-rejected", || format!("{end} bytes: {x:?}"));
        }
        if end > 0 {
            let mut t = d.clone();
            t[r.usize(end)] ^= 1 << r.below(8);
            if let Some(x) = ctx.lib("verify_weak_signature", || verify_weak_signature(Cursor::new(&t[..]), &sig, end as u64)) {
                ctx.check(!matches!(x, Ok(true)), "stream-tampered-accepted", || format!("{end} bytes"));
            }
        }
    }
}

fn status(ctx: &mut Ctx, bytes: &[u8]) -> Option<Result<(SignatureStatus, SignatureStatus), String>> {
    let p = ctx.path("s.mpq");
    std::fs::write(&p, bytes).unwrap();
    let mut a = match ctx.lib("Archive::open", || Archive::open(&p))? {
        Ok(a) => a,
        Err(e) => return Some(Err(format!("open: {e}"))),
    };
    let s = match ctx.lib("Archive::verify_signature", || a.verify_signature())? {
        Ok(s) => s,
        Err(e) => return Some(Err(format!("verify: {e}"))),
    };
    let i = match ctx.lib("Archive::get_info", || a.get_info())? {
        Ok(i) => {
            let t = i.signature_status.clone();
            ctx.check(s == t, "info-disagrees", || format!("verify_signature says {s:?}, get_info {t:?}"));
            ctx.check(i.has_signature || t == SignatureStatus::None, "info-disagrees", || format!("get_info: {t:?}, but no signature"));
            t
        }
        Err(e) => return Some(Err(format!("info: {e}"))),
    };
    Some(Ok((s, i)))
}

pub fn run(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    if r.chance(1, 2) {
        digests(ctx, &mut r);
    }
    let mut spec = gen::spec(&mut r);
    spec.crc = false;
    spec.files.truncate(5);
    let signed = !r.chance(1, 8);
    let at = r.usize(spec.files.len() + 1);
    let sigfile = GFile { name: "(signature)".into(), data: vec![0; 72], comp: Some(0), enc: false, fix: false, locale: 0, via_path: false };
    let mut padding = None;
    if signed {
        spec.files.insert(at, sigfile);
        if r.chance(1, 4) {
            // a file in front that moves the signature across a 64 KiB boundary
            spec.files.insert(0, GFile { name: "front.bin".into(), data: r.bytes(1000), comp: Some(0), enc: false, fix: false, locale: 0, via_path: false });
            spec.bs = 8;
            padding = Some(r.range(1, 90));
        }
    }
    let path = ctx.path("b.mpq");
    if !spec.build(ctx, &path) {
        return;
    }
    let mut bytes = std::fs::read(&path).unwrap();
    let pos_of = |b: &[u8]| -> Option<u64> {
        let a = RefArchive::parse(b.to_vec(), 0).ok()?;
        let h = a.find("(signature)").first().map(|x| x.1.block)?;
        a.block.get(h as usize).map(|e| e.pos)
    };
    if let Some(k) = padding {
        let Some(p) = pos_of(&bytes) else { return ctx.viol("unparsable", spec.brief()) };
        let unit = 1 + r.below(2);
        let target = 65536 * unit - k as u64;
        if target > p {
            let n = 1000 + (target - p) as usize;
            spec.files[0].data = r.bytes(n);
            if !spec.build(ctx, &path) {
                return;
            }
            bytes = std::fs::read(&path).unwrap();
        }
    }
    let mut pre = vec![];
    if r.chance(1, 3) {
        let k = r.range(1, 4);
        pre = r.bytes(512 * k);
        pre.chunks_mut(512).for_each(|c| c[0] = 0);
    }
    let brief = format!("{} prefix {}", spec.brief(), pre.len());
    if !signed {
        ctx.count("unsigned");
        let mut b = pre.clone();
        b.extend_from_slice(&bytes);
        match status(ctx, &b) {
            Some(Ok((s, i))) => {
                ctx.check(s == SignatureStatus::None && i == SignatureStatus::None, "unsigned-status", || format!("{s:?} / {i:?} ({brief})"));
            }
            Some(Err(e)) => ctx.viol("unsigned-status", format!("{e} ({brief})")),
            None => {}
        }
        strong(ctx, &mut r, &b, &brief, SignatureStatus::None);
        return;
    }
    let Some(sp) = pos_of(&bytes) else { return ctx.viol("unparsable", brief) };
    let sp = sp as usize;
    if sp / 65536 != (sp + 71) / 65536 {
        ctx.count("straddling");
    }
    let mut z = bytes.clone();
    z[sp..sp + 72].fill(0);
    let hash = refm::md5(&z);
    let sig = private(&padded(&hash));
    let mut good = bytes.clone();
    let hdr = if r.bool() { [0u8; 8] } else { [1, 2, 3, 4, 5, 6, 7, 8] };
    good[sp..sp + 8].copy_from_slice(&hdr);
    good[sp + 8..sp + 72].copy_from_slice(&sig);
    let file = |b: &[u8]| {
        let mut v = pre.clone();
        v.extend_from_slice(b);
        v
    };
    let cls = format!("v{} pre{} chunk{} straddle{}", spec.ver + 1, !pre.is_empty(), (sp / 65536).min(3), sp / 65536 != (sp + 71) / 65536);
    match status(ctx, &file(&good)) {
        Some(Ok((s, i))) => {
            ctx.count("valid_accepted");
            ctx.distinct(&format!("{cls} valid"));
            ctx.check(s == SignatureStatus::WeakValid && i == SignatureStatus::WeakValid, "valid-rejected", || format!("properly signed archive: {s:?} / {i:?}, signature at {sp:#x} ({brief})"));
        }
        Some(Err(e)) => ctx.viol("valid-rejected", format!("{e} ({brief})")),
        None => return,
    }
    // trailing bytes after the archive are not part of it
    if r.chance(1, 3) {
        let mut t = good.clone();
        let n = r.range(1, 400);
        t.extend(r.bytes(n).iter().map(|b| b | 0x80));
        if let Some(Ok((s, _))) = status(ctx, &file(&t)) {
            ctx.check(s == SignatureStatus::WeakValid, "valid-rejected", || format!("signed archive followed by {n} bytes: {s:?} ({brief})"));
        }
    }
    // tampering
    for _ in 0..if ctx.thorough { 8 } else { 4 } {
        let mut t = good.clone();
        let kind = r.below(5);
        let at;
        match kind {
            0 => {
                at = sp + 8 + r.usize(64);
                t[at] ^= 1 << r.below(8);
            }
            1 => {
                // at the edges of the excluded area
                at = if r.bool() { sp - 1 - r.usize(4).min(sp.saturating_sub(33)) } else { (sp + 72 + r.usize(4)).min(t.len() - 1) };
                t[at] ^= 1 << r.below(8);
            }
            2 => {
                at = t.len() - 1 - r.usize(40);
                t[at] ^= 1 << r.below(8);
            }
            _ => {
                at = 32 + r.usize(t.len() - 32);
                t[at] ^= 1 << r.below(8);
            }
        }
        if at >= sp && at < sp + 8 || (at < 32) {
            continue;
        }
        match status(ctx, &file(&t)) {
            Some(Ok((s, i))) => {
                ctx.count("tampered_rejected");
                ctx.distinct(&format!("{cls} tamper{kind} {s:?}"));
                ctx.check(s != SignatureStatus::WeakValid && i != SignatureStatus::WeakValid && s != SignatureStatus::StrongValid, "tampered-accepted", || format!("byte {at:#x} changed (signature at {sp:#x}): {s:?} / {i:?} ({brief})"));
            }
            Some(Err(_)) => ctx.count("tampered_rejected"),
            None => return,
        }
    }
    // blocks that are not the proper encoding of the digest
    for _ in 0..if ctx.thorough { 6 } else { 3 } {
        let mut b = padded(&hash);
        let k = r.below(9);
        match k {
            0 => b[0] = 1,
            1 => b[1] = *r.pick(&[0, 2, 3, 0xFF]),
            2 => b[2 + r.usize(27)] = r.u8() & 0xFE,
            3 => b[29] = 0xFF,
            4 => b[30 + r.usize(18)] ^= 1 << r.below(8),
            5 => b[48 + r.usize(16)] ^= 1 << r.below(8),
            6 => {
                // digest in front, garbage behind
                let mut f = [0xFFu8; 64];
                f[0] = 0;
                f[1] = 1;
                let p = r.range(3, 28);
                f[p] = 0;
                f[p + 1..p + 19].copy_from_slice(&INFO);
                f[p + 19..p + 35].copy_from_slice(&hash);
                let g = r.bytes(64 - p - 35);
                f[p + 35..].copy_from_slice(&g);
                b = f;
            }
            7 => {
                // no padding at all
                b = [0u8; 64];
                b[1] = 1;
                b[46..62].copy_from_slice(&hash);
            }
            _ => {
                b = [0u8; 64];
                let x = r.bytes(63);
                b[1..].copy_from_slice(&x);
            }
        }
        if b == padded(&hash) {
            continue;
        }
        let mut f = bytes.clone();
        f[sp..sp + 8].fill(0);
        f[sp + 8..sp + 72].copy_from_slice(&private(&b));
        match status(ctx, &file(&f)) {
            Some(Ok((s, _))) => {
                ctx.count("forged_rejected");
                ctx.distinct(&format!("{cls} forge{k} {s:?}"));
                ctx.check(s != SignatureStatus::WeakValid, "forged-accepted", || format!("signature block {} accepted ({brief})", crate::core::hex(&b)));
            }
            Some(Err(_)) => ctx.count("forged_rejected"),
            None => return,
        }
    }
    if r.chance(1, 4) {
        strong(ctx, &mut r, &file(&good), &brief, SignatureStatus::WeakValid);
    }
    if ctx.idx % 64 == 0 {
        ctx.sample = Some(json!({"spec": brief, "signature_at": sp}));
    }
}

/// Data after the archive that looks like a strong signature never verifies as one; what has the form of one is
/// reported as one, what has not is passed over.
fn strong(ctx: &mut Ctx, r: &mut Rng, base: &[u8], brief: &str, otherwise: SignatureStatus) {
    let mut t = base.to_vec();
    let magic: &[u8] = if r.chance(4, 5) { b"NGIS" } else { b"SIGN" };
    t.extend_from_slice(magic);
    let k = r.below(4);
    let mut s = match k {
        0 => vec![0u8; 256],
        1 => {
            let mut v = vec![0u8; 256];
            v[0] = 1;
            v
        }
        _ => r.bytes(256),
    };
    if r.chance(1, 5) {
        s.truncate(r.usize(256));
    }
    t.extend_from_slice(&s);
    let whole = magic == b"NGIS" && s.len() == 256;
    if r.chance(1, 3) {
        // whatever follows it
        let n = r.range(1, 300);
        t.extend(r.bytes(n));
    } else if whole {
        ctx.count("strong_at_end");
    }
    let whole = magic == b"NGIS" && t.len() >= base.len() + 260 && t[base.len() + 4..base.len() + 260].iter().any(|b| *b != 0);
    match status(ctx, &t) {
        Some(Ok((a, b))) => {
            ctx.count("strong_rejected");
            ctx.distinct(&format!("strong {k} {} {a:?}", s.len() == 256));
            let strong = |x: &SignatureStatus| matches!(x, SignatureStatus::StrongInvalid | SignatureStatus::StrongNoKey);
            ctx.check(if whole { strong(&a) && strong(&b) } else { a == otherwise && b == otherwise }, "strong-status", || format!("{:?} and {} bytes behind the archive: {a:?} / {b:?}, without them {otherwise:?} ({brief})", std::str::from_utf8(magic), t.len() - base.len() - 4));
            ctx.check(a != SignatureStatus::StrongValid && b != SignatureStatus::StrongValid, "strong-accepted", || format!("kind {k}: {a:?} / {b:?} ({brief})"));
        }
        Some(Err(e)) => ctx.viol("strong-status", format!("{e} ({brief})")),
        None => {}
    }
}
