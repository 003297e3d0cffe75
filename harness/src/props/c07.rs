//! C07: archives written by someone else (the reference writer) read back exactly.
use crate::core::{diff, Ctx, Prop};
use crate::gen;
use crate::foreign::{foreign, Foreign};
use crate::refm::{self, Layout, WFile};
use mopaq::{Archive, Error};
use serde_json::json;

pub fn prop() -> Prop {
    Prop {
        id: "C07",
        quick: 30000,
        thorough: 400000,
        run,
        need: &[
            ("files_compared", 8000),
            ("embedded", 800),
            ("user_data", 200),
            ("beyond_4g", 60),
            ("deleted_not_found", 500),
            ("het_bet_archives", 400),
            ("mixed_sector_files", 500),
            ("imploded_files", 60),
        ],
        rule: "distinct (version, placement, layout, sector mix, encryption, table order, extended tables, hi-block) classes of foreign archives read back",
        level: "exploration",
        assumptions: &[
            "encrypted units have a length divisible by 4 (for others, this code base and StormLib treat the last bytes differently)",
            "foreign archives carry no sector checksums (placement differs between writers)",
            "prefixes hold no archive signature at a 512-byte boundary, other than user data that leads to no archive",
        ],
        workers: 8,
    }
}

pub fn run(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let path = ctx.path("f.mpq");
    let fo = foreign(ctx, &mut r, true, path.clone());
    let Foreign { files, o, w, pre, ud, lf, far, desc, .. } = &fo;
    let (ud, lf, far, het_bet, version, ss) = (*ud, *lf, *far, o.het_bet, o.version, 512usize << o.shift);
    if !o.classic {
        ctx.count("without_classic_tables");
    }
    if het_bet {
        ctx.count("het_bet_archives");
    }
    let mut ar = match ctx.lib("Archive::open", || Archive::open(&path)) {
        Some(Ok(a)) => a,
        Some(Err(e)) => return ctx.viol("open-error", format!("{e} ({desc})")),
        None => return,
    };
    ctx.check(ar.archive_offset() == pre.len() as u64, "archive-offset", || format!("archive at {}, reported {} ({desc})", pre.len(), ar.archive_offset()));
    ctx.check(ar.user_data().is_some() == ud, "user-data", || format!("user data {:?} ({desc})", ar.user_data()));
    let mut order: Vec<usize> = (0..files.len()).collect();
    r.shuffle(&mut order);
    for i in order {
        let f = &files[i];
        let n = gen::respell(&mut r, &f.name);
        let gone = f.deleted || f.clear_flags & refm::F_EXISTS != 0;
        let Some(res) = ctx.lib("Archive::read_file", || ar.read_file(&n)) else { continue };
        if gone {
            ctx.count("deleted_not_found");
            ctx.check(matches!(res, Err(Error::FileNotFound(_))), "deleted-found", || format!("{n:?} is deleted, read_file gave {:?} ({desc})", res.map(|d| d.len())));
            continue;
        }
        match res {
            Ok(d) => {
                ctx.count("files_compared");
                if far && w.blocks[w.block_of[i] as usize].pos >> 32 != 0 {
                    ctx.count("beyond_4g");
                }
                if matches!(f.layout, Layout::Sectors) && f.methods.len() > 1 && f.data.len() > ss {
                    ctx.count("mixed_sector_files");
                }
                if f.extra_flags & refm::F_IMPLODE != 0 {
                    ctx.count("imploded_files");
                }
                ctx.distinct(&format!("v{version} p{} ud{ud} {:?} m{:?} e{}{} tf{} het{het_bet} hi{} far{far}", !pre.is_empty(), f.layout, f.methods.iter().take(2).collect::<Vec<_>>(), f.encrypt, f.fix_key, o.tables_first, o.hi_block));
                ctx.check(d == f.data, "content-differs", || format!("{:?}: {} ({desc})", f.name, diff(&d, &f.data)));
            }
            Err(e) => ctx.viol("read-error", format!("{:?}: {e} ({desc})", f.name)),
        }
    }
    // listing and information
    let live: Vec<&WFile> = files.iter().filter(|f| !f.deleted && f.clear_flags & refm::F_EXISTS == 0).collect();
    if let Some(Ok(mut l)) = ctx.lib("Archive::list", || ar.list().map(|v| v.into_iter().map(|e| (e.name, e.size)).collect::<Vec<_>>())) {
        if lf {
            let mut want: Vec<(String, u64)> = live.iter().filter(|f| f.name != "(listfile)").map(|f| (f.name.clone(), f.data.len() as u64)).collect();
            want.sort();
            l.sort();
            ctx.check(l == want, "list-differs", || format!("list {l:?} expected {want:?} ({desc})"));
        } else if !het_bet {
            ctx.check(l.len() == live.len(), "list-differs", || format!("{} entries without listfile, expected {} ({desc})", l.len(), live.len()));
        }
    } else {
        ctx.viol("list-error", format!("list failed ({desc})"));
    }
    if ctx.idx % 64 == 0 {
        ctx.sample = Some(json!(desc));
    }
}
