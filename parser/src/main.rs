//! "bfffs pool create": the tree the parser builds from a vdev specification is what the words say.
#![allow(dead_code, unused_imports)]
#[path = "/repo/bfffs/src/bin/bfffs/pool_create_ast.rs"]
mod pool_create_ast;
mod pool {
    use lalrpop_util::lalrpop_mod;
    lalrpop_mod!(#[allow(clippy::all)] pub pool_create_parser);
}
use mon::*;
use pool::pool_create_parser::PoolParser;
use pool_create_ast::*;
use serde_json::json;

#[derive(Clone, Debug, PartialEq)]
enum Tok<'a> { Mirror, Raid, Num(&'a str), Dev(&'a str), Bad }
fn tok(w: &str) -> Tok<'_> {
    match w { "mirror" => Tok::Mirror, "raid" => Tok::Raid,
        _ if w.bytes().all(|b| b.is_ascii_digit()) => Tok::Num(w),
        _ if w.starts_with(|c: char| c == '/' || c.is_ascii_alphabetic()) => Tok::Dev(w),
        _ => Tok::Bad }
}
/// By hand, from the documentation: all disks, or all mirrors, or all raids; a raid's children all disks or all mirrors
fn expect(words: &[String]) -> Option<Pool<'_>> {
    let t: Vec<Tok> = words.iter().map(|w| tok(w)).collect();
    if t.contains(&Tok::Bad) || t.is_empty() { return None; }
    let devs = |i: &mut usize| { let mut v = vec![]; while let Some(Tok::Dev(d)) = t.get(*i) { v.push(*d); *i += 1; } v };
    let mirror = |i: &mut usize| -> Option<Mirror> { *i += 1; let v = devs(i); if v.is_empty() { None } else { Some(Mirror(v)) } };
    let mut i = 0; let mut out = vec![];
    match t[0] {
        Tok::Dev(_) => { out = devs(&mut i).into_iter().map(Tlv::Disk).collect(); }
        Tok::Mirror => while t.get(i) == Some(&Tok::Mirror) { out.push(Tlv::Mirror(mirror(&mut i)?)); },
        Tok::Raid => while t.get(i) == Some(&Tok::Raid) {
            let num = |j: usize| match t.get(j) { Some(Tok::Num(n)) => n.parse::<i16>().ok(), _ => None };
            let (k, f) = (num(i + 1)?, num(i + 2)?); i += 3;
            let mut vdevs = vec![];
            match t.get(i) {
                Some(Tok::Dev(_)) => vdevs = devs(&mut i).into_iter().map(|d| RaidChild::Disk(Disk(d))).collect(),
                Some(Tok::Mirror) => while t.get(i) == Some(&Tok::Mirror) { vdevs.push(RaidChild::Mirror(mirror(&mut i)?)); },
                _ => return None,
            }
            out.push(Tlv::Raid(Raid { k, f, vdevs }));
        },
        _ => return None,
    }
    if i == t.len() { Some(Pool(out)) } else { None }
}

fn main() {
    let mut c = Check::new("C14", "exhaustive-small+random", "distinct vdev specifications parsed and compared with a hand-written reading of the documented grammar");
    let parser = PoolParser::new();
    let run = |c: &mut Check, words: &[String], sep: &[&str]| {
        let mut text = String::new();
        for (i, w) in words.iter().enumerate() { if i > 0 { text += sep[i % sep.len()]; } text += w; }
        let want = expect(words);
        c.eval(); c.distinct(hash(words));
        c.count(if want.is_some() { "accepted" } else { "rejected" }, 1);
        if want.is_some() && words.len() > 6 { c.sample(json!(text)); }
        match guard(|| parser.parse(&text).map_err(|e| e.to_string())) {
            Err(e) => c.violation("panic", &json!({"specification": text, "panic": e})),
            Ok(got) => match (&got, &want) {
                (Ok(g), Some(w)) if g == w => (), (Err(_), None) => (),
                _ => c.violation("parse", &json!({"specification": text, "got": format!("{got:?}"), "expected": format!("{want:?}")})),
            },
        }
    };
    // every short sentence over a small vocabulary
    let vocab: Vec<String> = ["mirror", "raid", "3", "1", "/dev/da0", "da1", "-x"].iter().map(|s| s.to_string()).collect();
    let depth = if c.thorough() { 7 } else { 6 };
    let mut idx = vec![0usize; 0];
    run(&mut c, &[], &[" "]);
    for len in 1..=depth {
        idx.clear(); idx.resize(len, 0);
        'o: loop {
            let words: Vec<String> = idx.iter().map(|i| vocab[*i].clone()).collect();
            run(&mut c, &words, &[" "]);
            let mut p = len;
            loop { if p == 0 { break 'o; } p -= 1; idx[p] += 1; if idx[p] < vocab.len() { break; } idx[p] = 0; }
        }
    }
    c.count("exhaustive_up_to_words", depth as u64);
    let names = ["mirror", "raid", "/dev/da0", "/dev/gpt/disk=1", "mirrors", "raidz", "Mirror", "RAID", "mirror0", "raid5", "/", "a", "/tmp/é.img", "z,9", "/dev/mirror", "md0p1", "r", "mi", "da0,", "da1;", "a=", "/dev/", "q\"", "z'", "a#b", "a(b)", "m\\n", "da0:", "_x", ".x", "0x3", "é", "1_0", "1.5", "3-", "2,", "+3", "-1", "3é"];
    let mut i = 0;
    while c.time_left() && i < c.n(60_000, 3_000_000) {
        let rng = Rng::case(c.seed, i); i += 1;
        let mut words: Vec<String> = vec![];
        let dev = |rng: &Rng| -> String { let n = rng.pick(&names[..29]); if ["mirror", "raid"].contains(n) { "da7".into() } else { format!("{n}{}", if rng.chance(1, 2) { rng.below(99).to_string() } else { String::new() }) } };
        let devs = |rng: &Rng, w: &mut Vec<String>| { for _ in 0..rng.range(1, 6) { w.push(dev(rng)); } };
        match rng.below(4) {
            0 => devs(&rng, &mut words),
            1 => for _ in 0..rng.range(1, 4) { words.push("mirror".into()); devs(&rng, &mut words); },
            _ => for _ in 0..rng.range(1, 4) {
                words.push("raid".into());
                for _ in 0..2 { words.push(match rng.below(8) { 0 => "007".into(), 1 => "32767".into(), 2 => "32768".into(), 3 => "99999999999".into(), 4 => "0".into(), _ => rng.below(300).to_string() }); }
                if rng.chance(1, 2) { devs(&rng, &mut words); } else { for _ in 0..rng.range(1, 4) { words.push("mirror".into()); devs(&rng, &mut words); } }
            },
        }
        // mutations
        for _ in 0..rng.below(3) { if words.is_empty() { break; } let p = rng.usize(words.len()); match rng.below(5) { 0 => { words.remove(p); } 1 => words.insert(p, rng.pick(&names).to_string()), 2 => words.insert(p, rng.below(40000).to_string()), 3 => { let q = rng.usize(words.len()); words.swap(p, q); } _ => { let w = words[p].clone(); words.push(w); } } }
        // digits followed by the beginning of a name could be taken for two words: not specified
        words.retain(|w| !(w.starts_with(|c: char| c.is_ascii_digit()) && w.trim_start_matches(|c: char| c.is_ascii_digit()).starts_with(|c: char| c == '/' || c.is_ascii_alphabetic())));
        let seps: &[&str] = *rng.pick(&[&[" "][..], &["  ", " "], &["\t"], &["\n", " "]]);
        run(&mut c, &words, seps);
    }
    c.finish()
}
