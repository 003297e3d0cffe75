//! C05: ciphers invert each other and, with the hashes, follow the documented algorithms.
use crate::core::{Ctx, Prop};
use crate::gen;
use crate::refm;
use mopaq::crypto::{decrypt_block, decrypt_dword, encrypt_block, hash_string, jenkins_hash};

pub fn prop() -> Prop {
    Prop {
        id: "C05",
        quick: 60000,
        thorough: 2000000,
        run,
        need: &[("blocks", 30000), ("names", 30000)],
        rule: "distinct (block length, key class) pairs encrypted and (name length, character class) pairs hashed",
        level: "exploration",
        assumptions: &[],
        workers: 8,
    }
}

pub fn run(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    for _ in 0..20 {
        let n = match r.below(6) {
            0 => r.usize(4),
            1 => r.usize(20),
            2 if r.chance(1, 40) => r.usize(300_000),
            2 => r.usize(1200),
            _ => r.usize(130),
        };
        let key = match r.below(8) {
            0 => r.below(4) as u32,
            1 => u32::MAX - r.below(4) as u32,
            2 => 1 << r.below(32),
            3 => hash_string(&gen::name(&mut r), 3),
            _ => r.u32(),
        };
        let zero = r.chance(1, 6);
        let plain: Vec<u32> = (0..n).map(|_| if zero { 0 } else { r.u32() }).collect();
        let mut enc = plain.clone();
        ctx.count("blocks");
        ctx.distinct(&format!("len{} key{}", n.min(64), if key < 4 || key > u32::MAX - 4 { key as i64 } else { -9 }));
        if ctx.lib("encrypt_block", || encrypt_block(&mut enc, key)).is_none() {
            return;
        }
        let mut want = plain.clone();
        refm::crypt(&mut want, key, true);
        ctx.check(enc == want, "encrypt-differs", || format!("{n} words, key {key:#x}: not the documented cipher"));
        let mut dec = enc.clone();
        if ctx.lib("decrypt_block", || decrypt_block(&mut dec, key)).is_none() {
            return;
        }
        ctx.check(dec == plain, "not-inverse", || format!("{n} words, key {key:#x}: decrypt(encrypt(x)) != x"));
        let mut d2 = plain.clone();
        ctx.lib("decrypt_block", || decrypt_block(&mut d2, key));
        let mut want = plain.clone();
        refm::crypt(&mut want, key, false);
        ctx.check(d2 == want, "decrypt-differs", || format!("{n} words, key {key:#x}: not the documented cipher"));
        ctx.lib("encrypt_block", || encrypt_block(&mut d2, key));
        ctx.check(d2 == plain, "not-inverse", || format!("{n} words, key {key:#x}: encrypt(decrypt(x)) != x"));
        if let Some(&w) = plain.first() {
            let mut one = [w];
            decrypt_block(&mut one, key);
            let got = ctx.lib("decrypt_dword", || decrypt_dword(w, key));
            ctx.check(got == Some(one[0]), "dword-differs", || format!("decrypt_dword({w:#x}, {key:#x}) = {got:x?}, block gives {:#x}", one[0]));
        }
    }
    for _ in 0..20 {
        let n = match r.below(6) {
            0 => (0..r.usize(30)).map(|_| char::from_u32(r.below(0x250) as u32).unwrap_or('x')).collect(),
            1 => (0..r.usize(40)).map(|_| r.below(128) as u8 as char).collect(),
            2 => (0..r.usize(8)).map(|_| *r.pick(&['/', '\\', 'a', 'A', 'z', 'Z', '[', '{', '`', '@', '\u{0}', '\u{7f}', 'ÿ'])).collect(),
            3 if r.chance(1, 8) => (0..r.usize(20_000)).map(|_| r.below(128) as u8 as char).collect(),
            3 => r.pick(&gen::KEY_NAMES).to_string(),
            _ => gen::name(&mut r),
        };
        ctx.count("names");
        ctx.distinct(&format!("name {} {}", n.len().min(40), n.is_ascii()));
        for ty in 0..5u32 {
            let Some(h) = ctx.lib("hash_string", || hash_string(&n, ty)) else { return };
            let w = refm::hash_string(&n, ty);
            ctx.check(h == w, "hash-differs", || format!("hash_string({n:?}, {ty}) = {h:#x}, documented algorithm gives {w:#x}"));
            let o = gen::respell(&mut r, &n);
            let h2 = hash_string(&o, ty);
            ctx.check(h == h2, "hash-spelling", || format!("hash_string differs for {n:?} and {o:?}"));
        }
        let Some(h) = ctx.lib("jenkins_hash", || jenkins_hash(&n)) else { return };
        let w = refm::jenkins(&n);
        ctx.check(h == w, "jenkins-differs", || format!("jenkins_hash({n:?}) = {h:#x}, documented algorithm gives {w:#x}"));
        let o = gen::respell(&mut r, &n);
        ctx.check(h == jenkins_hash(&o), "jenkins-spelling", || format!("jenkins_hash differs for {n:?} and {o:?}"));
    }
}
