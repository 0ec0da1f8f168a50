//! C18: snapshot references, against an independent reading of what they name.
use backpak::{backend, hashing::ObjectId, snapshot};
use bpharness::{decode, enc, util::*};
use serde_json::json;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::str::FromStr;

const SYM: &[u8] = b"0123456789abcdefghijklmnopqrstuv";
fn snap(t: i64, r: &mut Rng) -> snapshot::Snapshot {
    snapshot::Snapshot {
        time: jiff::Timestamp::from_nanosecond(t as i128).unwrap().to_zoned(jiff::tz::TimeZone::UTC),
        author: "a".into(),
        tags: Default::default(),
        paths: ["/p".into()].into_iter().collect(),
        tree: ObjectId::hash(&r.bytes(8)),
    }
}
/// 45 symbols, the last one without its unused bit
fn id_text(r: &mut Rng, others: &[String]) -> String {
    let mut s: Vec<u8> = (0..45).map(|_| *r.pick(SYM)).collect();
    if !others.is_empty() && r.chance(1, 2) {
        let k = *r.pick(&[1usize, 2, 3, 4, 5, 8, 30, 43, 44]);
        s[..k].copy_from_slice(&r.pick(others).as_bytes()[..k]);
    }
    s[44] = SYM[(r.below(16) * 2) as usize];
    String::from_utf8(s).unwrap()
}
/// what the reference names: Some(position) or an error
fn oracle(ids: &[String], x: &str) -> Option<usize> {
    let b = x.as_bytes();
    let pos = |c: &u8| SYM.iter().position(|s| s == c);
    if b.len() == 45 && b.iter().all(|c| pos(c).is_some()) && pos(&b[44]).unwrap() % 2 == 0 {
        return ids.iter().position(|i| i == x);
    }
    for w in ["LAST", "HEAD"] {
        if let Some(rest) = x.strip_prefix(w) {
            let n: Option<u128> = if rest.is_empty() { Some(0) } else if rest == "~" { Some(1) } else {
                match rest.strip_prefix('~') {
                    Some(d) if !d.is_empty() && d.bytes().all(|c| c.is_ascii_digit()) => Some(d.trim_start_matches('0').get(..30).map(|_| u128::MAX).unwrap_or_else(|| d.trim_start_matches('0').parse().unwrap_or(0))),
                    _ => None,
                }
            };
            if let Some(n) = n {
                return if n < ids.len() as u128 { Some(ids.len() - 1 - n as usize) } else { None };
            }
        }
    }
    if x.len() < 4 { return None; }
    let m: Vec<_> = (0..ids.len()).filter(|i| ids[*i].starts_with(x)).collect();
    if m.len() == 1 { Some(m[0]) } else { None }
}
fn reference(r: &mut Rng, ids: &[String]) -> String {
    let base = if ids.is_empty() || r.chance(1, 8) { id_text(r, ids) } else { r.pick(ids).clone() };
    match r.below(16) {
        0 => base,
        1..=4 => base[..*r.pick(&[1usize, 2, 3, 4, 4, 5, 6, 8, 20, 31, 43, 44])].to_string(),
        5 => (*r.pick(&["LAST", "HEAD", "LAST~", "HEAD~", "LAST~0", "HEAD~1", "LAST~00", "LAST~1", "HEAD~01"])).to_string(),
        6 | 7 => format!("{}~{}", r.pick(&["LAST", "HEAD"]), r.below(ids.len() as u64 + 2)),
        8 => (*r.pick(&["", "L", "LAS", "last", "Head", "LAST~~", "LAST~x", "LAST~1~", "~1", "~", "HEAD ", " HEAD", "LAST~-1", "LAST~+1", "HEADS", "LASTLY", "LAST^", "HEAD\n", "xHEAD", "LAST~1 ", "0", "000", "HEAD~0x1"])).to_string(),
        9 => format!("LAST~{}", r.pick(&["18446744073709551615", "18446744073709551616", "99999999999999999999999999", "4294967296", "9223372036854775808"])),
        10 => base.to_uppercase(),
        11 => { let mut b = base.into_bytes(); b[44] = SYM[(r.below(16) * 2 + 1) as usize]; String::from_utf8(b).unwrap() }
        12 => { let k = r.range(3, 9) as usize; let mut b = base[..k].as_bytes().to_vec(); b[k - 1] = *r.pick(SYM); String::from_utf8(b).unwrap() }
        13 => format!("{}{}", base, r.pick(&["0", " ", "=", "~1"])),
        14 => { let k = r.range(1, 8) as usize; base[k..].to_string() }
        _ => { let n = r.range(1, 8); (0..n).map(|_| *r.pick(&['é', 'z', 'w', '~', '0', 'a', '日'])).collect() }
    }
}
fn run(c: &mut Ctx) {
    c.rule = "lists of 0-7 snapshots with ids sharing prefixes of 1-44 symbols and some equal times, with full ids, prefixes, LAST/HEAD~N and malformed references; nontrivial if the reference names a snapshot or is ambiguous".into();
    let mut r = Rng::new(c.seed);
    let dir = PathBuf::from(&c.work).join("r");
    while c.time_left() && (c.evals < 60000 || c.thorough) {
        let n = r.below(8) as usize;
        let mut ids: Vec<String> = vec![];
        for _ in 0..n {
            let i = id_text(&mut r, &ids);
            if !ids.contains(&i) { ids.push(i); }
        }
        let mut t = 1_600_000_000_000_000_000i64;
        let list: Vec<(snapshot::Snapshot, ObjectId)> = ids.iter().map(|i| { t += *r.pick(&[0i64, 0, 1, 1000, 1_000_000_000]); (snap(t, &mut r), ObjectId::from_str(i).unwrap()) }).collect();
        let show = json!({"snapshots oldest first": ids, "times": list.iter().map(|s| s.0.time.timestamp().as_nanosecond().to_string()).collect::<Vec<_>>()});
        for _ in 0..12 {
            let x = reference(&mut r, &ids);
            let want = oracle(&ids, &x);
            let got = catch_unwind(AssertUnwindSafe(|| snapshot::find(&list, &x).ok().map(|(_, i)| i.to_string())));
            let bad = match &got {
                Err(_) => Some(format!("resolving {x:?} crashes")),
                Ok(g) if *g != want.map(|w| ids[w].clone()) => Some(format!("{x:?} resolves to {g:?}, it names {:?}", want.map(|w| &ids[w]))),
                _ => None,
            };
            if let Some(b) = bad { c.violate(&["C18"], b, json!({"list": show, "reference": x})); }
            c.case(&(ids.len(), &x), want.is_some() || ids.iter().filter(|i| i.starts_with(&x)).count() > 1);
        }
        // lists of references
        let args: Vec<String> = (0..r.below(6)).map(|_| if r.chance(7, 8) && !ids.is_empty() { let i = r.pick(&ids).clone(); if r.chance(1, 2) { i } else { format!("LAST~{}", r.below(ids.len() as u64)) } } else { reference(&mut r, &ids) }).collect();
        let want: Option<std::collections::BTreeSet<usize>> = args.iter().map(|a| oracle(&ids, a)).collect();
        let got = catch_unwind(AssertUnwindSafe(|| snapshot::from_args_list(&list, &args).ok().map(|v| v.into_iter().map(|(s, i)| (s.time.timestamp().as_nanosecond(), i.to_string(), s.tree)).collect::<Vec<_>>())));
        let bad = match (&got, &want) {
            (Err(_), _) => Some("resolving a list of references crashes".to_string()),
            (Ok(None), None) => None,
            (Ok(Some(_)), None) => Some("a list with an unresolvable reference is accepted".into()),
            (Ok(None), Some(_)) => Some("a list of resolvable references is refused".into()),
            (Ok(Some(g)), Some(w)) => {
                let set: std::collections::BTreeSet<usize> = g.iter().filter_map(|x| ids.iter().position(|i| *i == x.1)).collect();
                if set != *w || g.len() != w.len() { Some(format!("{} snapshots are selected, {} are named", g.len(), w.len())) }
                else if g.windows(2).any(|p| p[0].0 > p[1].0) { Some("the selected snapshots are not in chronological order".into()) }
                else if g.iter().any(|x| { let k = ids.iter().position(|i| *i == x.1).unwrap(); list[k].0.tree != x.2 }) { Some("a selected snapshot is paired with another's id".into()) }
                else { None }
            }
        };
        if let Some(b) = bad { c.violate(&["C18"], b, json!({"list": show, "arguments": args})); }
        c.case(&args, args.len() > 1);
        // loading
        if r.chance(1, 20) {
            enc::repo(&dir, None, false);
            let mut want = vec![];
            let mut t = 1_500_000_000_000_000_000i128;
            for k in 0..r.below(7) {
                t += *r.pick(&[1i128, 999, 1_000_000, 3_600_000_000_000, 1_000_000_000]);
                let tz = *r.pick(&["UTC", "America/New_York", "Asia/Kolkata", "-08:00", "+14:00"]);
                let (id, b) = enc::snapshot(t, tz, "me", &[], &["/a", "/b"], &decode::hash(&[k as u8]));
                enc::put(&dir, "snapshot", &id, &b);
                want.push((id, t));
            }
            let p = camino::Utf8PathBuf::from_path_buf(dir.clone()).unwrap();
            let (_, be) = backend::open(&p, byte_unit::Byte::GIBIBYTE, backend::CacheBehavior::Normal).unwrap();
            match snapshot::load_chronologically(&be) {
                Ok(v) => {
                    let g: Vec<_> = v.iter().map(|(s, i)| (i.to_string(), s.time.timestamp().as_nanosecond())).collect();
                    if g != want { c.violate(&["C18"], "loading the snapshots does not give every one of them, oldest first".into(), json!({"stored": want.iter().map(|x| format!("{} {}", x.0, x.1)).collect::<Vec<_>>(), "loaded": g.iter().map(|x| format!("{} {}", x.0, x.1)).collect::<Vec<_>>()})); }
                }
                Err(e) => c.violate(&["C18"], format!("loading snapshots fails: {e:#}"), json!({"stored": want.len()})),
            }
            c.count("repositories loaded", 1);
        }
        if c.evals < 40 { c.sample(show); }
    }
}
fn main() {
    bpharness::main_of(run);
}
