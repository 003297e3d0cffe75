//! C17: what is read does not depend on how the storage delivers it: reads that are cut short anywhere change no
//! answer, and reads that fail are reported or made good, never turned into another answer, then or later.
use super::c07;
use super::c16::{step, OPS};
use crate::core::{Ctx, Prop};
use crate::fault::{self, Plan};
use crate::gen::{self, GFile};
use crate::refm;
use crate::rng::Rng;
use crate::special;
use mopaq::io::{BufferedMpqReader, MpqRead};
use mopaq::{Archive, OpenOptions};
use serde_json::json;
use std::io::{Cursor, Read, Seek, SeekFrom};

pub fn prop() -> Prop {
    Prop {
        id: "C17",
        quick: 30000,
        thorough: 160000,
        run,
        need: &[("short_calls", 15000), ("failed_reads", 20000), ("failed_opens", 2000), ("survived_faults", 500), ("recovered_calls", 20000), ("lazy_faults", 2000), ("readers", 8000), ("signed", 500)],
        rule: "distinct (archive kind, opening, operation, fault kind, outcome class) situations in which reads of the archive were cut short, interrupted or failed",
        level: "exploration",
        assumptions: &[
            "faults are injected at the read and seek calls of the process, not below",
            "loss of optional data on a failing disk (attributes, extended tables next to classic ones) is not judged, only what read_file, find_file, list, get_info and verify_signature then answer",
        ],
        workers: 8,
    }
}

/// A reader that delivers in pieces, with interruptions, and fails at the k-th read if asked to.
pub struct Flaky<'a> {
    pub c: Cursor<&'a [u8]>,
    pub r: Rng,
    pub fail_at: Option<u64>,
    pub n: u64,
}
impl Read for Flaky<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let k = self.n;
        self.n += 1;
        if self.fail_at.is_some_and(|f| k >= f) {
            return Err(std::io::Error::from_raw_os_error(libc::EIO));
        }
        if b.is_empty() {
            return Ok(0);
        }
        if k % 3 == 1 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let n = 1 + self.r.usize(b.len());
        let n = if self.r.bool() { n.min(3) } else { n };
        self.c.read(&mut b[..n])
    }
}
impl Seek for Flaky<'_> {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.c.seek(p)
    }
}

fn readers(ctx: &mut Ctx, r: &mut Rng, bytes: &[u8], brief: &str) {
    let dbg = |x: mopaq::Result<String>| match x {
        Ok(s) => s,
        Err(_) => "err".to_string(),
    };
    let Some(head) = ctx.lib("find_header", || mopaq::header::find_header(&mut Cursor::new(bytes)).ok()) else { return };
    let Some((off, _, h)) = head else { return };
    let kind = r.below(6);
    let at = r.below(bytes.len() as u64 + 8);
    let len = r.usize(3000).min(bytes.len());
    fn one<R: Read + Seek>(kind: u64, rd: &mut R, off: u64, h: &mopaq::header::MpqHeader, at: u64, len: usize) -> mopaq::Result<String> {
        Ok(match kind {
            0 => format!("{:?}", mopaq::header::find_header(rd)?),
            1 => {
                let t = mopaq::HashTable::read(rd, off + h.get_hash_table_pos(), h.hash_table_size)?;
                format!("{:?}", t.entries().iter().map(|e| (e.name_1, e.name_2, e.locale, e.platform, e.block_index)).collect::<Vec<_>>())
            }
            2 => {
                let t = mopaq::BlockTable::read(rd, off + h.get_block_table_pos(), h.block_table_size)?;
                format!("{:?}", t.entries().iter().map(|e| (e.file_pos, e.compressed_size, e.file_size, e.flags)).collect::<Vec<_>>())
            }
            3 => {
                rd.seek(SeekFrom::Start(off))?;
                format!("{:?}", mopaq::header::MpqHeader::read(rd)?)
            }
            4 => {
                let mut b = vec![0; len];
                BufferedMpqReader::new(rd).read_at(at, &mut b)?;
                crate::core::hex(&b)
            }
            _ => {
                let mut b = BufferedMpqReader::new(rd);
                b.seek(SeekFrom::Start(at))?;
                let mut v = vec![];
                b.read_to_end(&mut v)?;
                format!("{:x}", crate::rng::fnv(&v))
            }
        })
    }
    let Some(want) = ctx.lib("reader", || dbg(one(kind, &mut Cursor::new(bytes), off, &h, at, len))) else { return };
    let mut fl = Flaky { c: Cursor::new(bytes), r: r.clone(), fail_at: None, n: 0 };
    let Some(got) = ctx.lib("reader in pieces", || dbg(one(kind, &mut fl, off, &h, at, len))) else { return };
    ctx.count("readers");
    let total = fl.n;
    ctx.check(got == want, "reader-in-pieces", || format!("reader {kind} at {at} +{len}: delivered in pieces {:.200}, at once {:.200} ({brief})", got, want));
    if total > 0 {
        let k = r.below(total);
        let mut fl = Flaky { c: Cursor::new(bytes), r: r.clone(), fail_at: Some(k), n: 0 };
        let Some(got) = ctx.lib("failing reader", || dbg(one(kind, &mut fl, off, &h, at, len))) else { return };
        ctx.count("readers_failing");
        ctx.check(got == want || got == "err", "reader-failure-hidden", || format!("reader {kind} at {at} +{len}, read {k} of {total} fails: {:.200}, undisturbed {:.200} ({brief})", got, want));
    }
}

pub fn run(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let path = ctx.path("a.mpq");
    let mut kind = "built";
    let mut names: Vec<String>;
    let brief;
    let mut extended;
    if r.chance(1, 4) {
        let f = crate::foreign::foreign(ctx, &mut r, false, path.clone());
        if f.far {
            kind = "far";
        } else {
            kind = "foreign";
        }
        names = f.files.iter().map(|f| f.name.clone()).collect();
        extended = f.o.het_bet;
        brief = format!("{kind} {}", f.desc);
    } else {
        let mut spec = gen::spec(&mut r);
        spec.files.truncate(10);
        if r.chance(1, 3) {
            // several sectors, and more than one buffer of them
            let ss = spec.ss();
            let n = r.range(2 * ss, (12 * ss).min(120_000).max(2 * ss + 1));
            let mut f = gen::gfile(&mut r, ss);
            f.name = "many sectors.bin".into();
            f.data = gen::content(&mut r, n, ss);
            spec.files.push(f);
        }
        let sign = r.below(8);
        if sign < 3 {
            spec.files.push(GFile { name: "(signature)".into(), data: vec![0; 72], comp: Some(0), enc: false, fix: false, locale: 0, via_path: false });
        }
        if r.chance(1, 5) {
            // attributes without content: the number of entries is that of the blocks
            spec.files.push(GFile { name: "(attributes)".into(), data: special::encode(0, &[]), comp: Some(0), enc: false, fix: false, locale: 0, via_path: false });
        }
        if !spec.build(ctx, &path) {
            return;
        }
        let mut b = std::fs::read(&path).unwrap();
        if sign < 2 {
            if let Ok(a) = refm::RefArchive::parse(b.clone(), 0) {
                if let Some(e) = a.find("(signature)").first().and_then(|x| a.block.get(x.1.block as usize)) {
                    special::weak_sign(&mut b, e.pos as usize);
                    kind = "signed";
                    ctx.count("signed");
                }
            }
        } else if sign == 4 {
            b.extend_from_slice(b"NGIS");
            b.extend_from_slice(&r.bytes(256));
            kind = "strong";
            ctx.count("signed");
        }
        std::fs::write(&path, &b).unwrap();
        names = spec.model().into_iter().map(|m| m.0).collect();
        extended = spec.ver >= 2;
        brief = format!("{kind} {}", spec.brief());
        readers(ctx, &mut r, &b, &brief);
    }
    names.push("absent.txt".into());
    names.push("(listfile)".into());
    if ctx.verbose {
        eprintln!("{brief}");
    }
    let open = |lazy: bool| if lazy { OpenOptions::new().load_tables(false).open(&path) } else { Archive::open(&path) };
    // the undisturbed answers
    let Some((base, seen)) = ctx.lib("Archive::open", || fault::with(Plan::Watch, || open(false))) else { return };
    let mut base = match base {
        Ok(a) => a,
        Err(e) => return ctx.viol("open-error", format!("{e} ({brief})")),
    };
    if seen.reads == 0 {
        // the harness no longer sees the reads: say nothing
        ctx.count("unobserved");
        return;
    }
    if base.het_table().is_none() && base.bet_table().is_none() {
        extended = false;
    }
    let mut memo: std::collections::HashMap<(u64, String), (String, fault::Seen)> = Default::default();
    let mut want = |ctx: &mut Ctx, op: u64, name: &str| -> Option<(String, fault::Seen)> {
        let op = if op < 3 { 0 } else { op };
        let key = (op, if op < 3 || op == 10 { name.to_string() } else { String::new() });
        if let Some(v) = memo.get(&key) {
            return Some(v.clone());
        }
        let v = ctx.lib("undisturbed", || fault::with(Plan::Watch, || step(&mut base, op, name)))?;
        memo.insert(key, v.clone());
        Some(v)
    };
    let rounds = if ctx.thorough { 16 } else { 8 };
    for _ in 0..rounds {
        let lazy = r.chance(1, 3);
        let whole = r.chance(1, 3); // the opening itself is disturbed
        let op = if r.chance(1, 2) { 0 } else { r.below(OPS) };
        let name = r.pick(&names).clone();
        let Some((w, calls)) = want(ctx, op, &name) else { return };
        let disturbed = if whole || lazy { seen } else { calls };
        let k = r.below(disturbed.reads.max(1) + if lazy { calls.reads } else { 0 });
        let plan = match r.below(9) {
            0 => Plan::Short(*r.pick(&[1usize, 2, 3, 7, 100, 511, 513, 4096, 8191])),
            1 | 2 => Plan::Ragged(r.next()),
            3 | 4 => Plan::Fail(k, *r.pick(&[libc::EIO, libc::EIO, libc::EINTR, libc::ESTALE, libc::ENXIO])),
            5 => Plan::FailFrom(k),
            // (in a huge file that ends at once, the header would be looked for at every position of it)
            6 if kind == "far" && whole => Plan::FailFrom(k),
            6 => Plan::EofFrom(k),
            7 => Plan::Interrupt,
            _ => Plan::Seek(r.below(disturbed.seeks.max(1))),
        };
        let soft = matches!(plan, Plan::Short(_) | Plan::Ragged(_));
        let pname = format!("{plan:?}").split('(').next().unwrap_or("").to_string();
        let outcome: String;
        let mut ar;
        if whole {
            let Some((a, s)) = ctx.lib("disturbed open", || fault::with(plan, || open(lazy))) else { return };
            ctx.add("faults_hit", s.hits);
            match a {
                Err(e) => {
                    ctx.count("failed_opens");
                    ctx.distinct(&format!("{kind} open lazy{lazy} {pname} err"));
                    if soft {
                        return ctx.viol("open-in-pieces", format!("{plan:?}, lazy {lazy}: {e} ({brief})"));
                    }
                    continue;
                }
                Ok(a) => ar = a,
            }
            if !soft && s.hits > 0 {
                ctx.count("survived_faults");
            }
            // find_file does not load the tables of an archive opened without them
            if lazy && op == 10 {
                continue;
            }
            let Some(got) = ctx.lib("after a disturbed open", || step(&mut ar, op, &name)) else { return };
            // a failing extended table leaves the classic ones, which list without names in another way
            let judged = soft || matches!(op, 0 | 1 | 2 | 8 | 10) || !extended;
            if judged {
                ctx.check(got == w, if soft { "open-in-pieces" } else { "after-failed-read" }, || format!("opened under {plan:?} (lazy {lazy}): call {op} on {name:?} answers {got:?}, undisturbed {w:?} ({brief})"));
            }
            outcome = format!("open {}", &got[..2]);
        } else {
            ar = match ctx.lib("Archive::open", || open(lazy)) {
                Some(Ok(a)) => a,
                _ => return,
            };
            if lazy && op == 10 {
                continue;
            }
            let Some((got, s)) = ctx.lib("disturbed call", || fault::with(plan, || step(&mut ar, op, &name))) else { return };
            ctx.add("faults_hit", s.hits);
            if soft {
                ctx.count("short_calls");
            } else if s.hits > 0 {
                ctx.count("failed_reads");
                if lazy {
                    ctx.count("lazy_faults");
                }
            }
            let eof = matches!(plan, Plan::EofFrom(_)) && matches!(op, 7 | 8) && !got.contains("Valid");
            let fallback = lazy && extended && !matches!(op, 0 | 1 | 2 | 8 | 10);
            if !(eof || fallback && !soft) {
                // a signature that cannot be verified is not a valid one; what is not there may not be reported
                let unverified = |x: &str| x.replace("Strong", "Weak").replace("WeakValid", "WeakInvalid").replace("has_signature: true, signature_status: None", "has_signature: true, signature_status: WeakInvalid");
                let ok = got == w || !soft && s.hits > 0 && matches!(op, 7 | 8) && unverified(&w) == got.replace("Strong", "Weak") || (!soft && s.hits > 0 && got.starts_with("err") && !(got.contains("FileNotFound")));
                ctx.check(ok, if soft { "call-in-pieces" } else { "failure-hidden" }, || format!("{plan:?} (lazy {lazy}, {} reads, {} hit): call {op} on {name:?} answers {got:?}, undisturbed {w:?} ({brief})", s.reads, s.hits));
            }
            outcome = format!("call {} {}", &got[..2], got == w);
        }
        ctx.distinct(&format!("{kind} {op} lazy{lazy} {pname} {outcome}"));
        // the same handle afterwards, undisturbed
        for _ in 0..3 {
            let op = if r.bool() { 0 } else { *r.pick(&[10u64, 8, 3, 7]) };
            if (op == 3 || op == 7) && extended && !soft || op == 10 && lazy {
                continue;
            }
            let name = r.pick(&names).clone();
            let Some((w, _)) = want(ctx, op, &name) else { return };
            let Some(got) = ctx.lib("after a fault", || step(&mut ar, op, &name)) else { return };
            ctx.count("recovered_calls");
            ctx.check(got == w, "not-recovered", || format!("after {plan:?} (lazy {lazy}, whole {whole}): call {op} on {name:?} answers {got:?}, undisturbed {w:?} ({brief})"));
        }
        if !ctx.viols.is_empty() {
            return;
        }
    }
    if ctx.idx % 64 == 0 {
        ctx.sample = Some(json!({"archive": brief, "reads_at_open": seen.reads, "seeks_at_open": seen.seeks}));
    }
}
