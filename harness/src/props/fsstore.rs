//! The filesystem store: C22 (confinement), C27 (keys and listings),
//! C29 (opening and creating).

use super::tree::ep_json;
use crate::fw::*;
use crate::gen::*;
use crate::io::*;
use crate::store::*;
use crate::{ensure, ensure_eq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use zarr::prelude::*;
use zarr::storage::{ListableStore, ReadableStore, WriteableStore};
use zarr::EntryPointMetadata;

type Snap = BTreeMap<String, Vec<u8>>;

// ---------------------------------------------------------------- C27

#[derive(Clone, Debug, Serialize, Deserialize)]
struct K {
    c: Vec<u8>,
    deco: u16,
    pick: Option<u8>,
}

fn k() -> impl Strategy<Value = K> {
    (proptest::collection::vec(0u8..6, 0..=4), prop_oneof![2 => Just(0u16), 1 => any::<u16>()], proptest::option::weighted(0.5, any::<u8>())).prop_map(|(c, deco, pick)| K { c, deco, pick })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum SOp {
    Set(K, Data, u16, bool),
    /// A write whose closure fails after some bytes.
    SetFail(K, u8),
    Erase(K),
    ErasePrefix(K),
    Get(K),
    List,
    ListPrefix(K),
    ListDir(K),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Keys {
    names: Vec<String>,
    store: u8,
    ops: Vec<SOp>,
}

fn keys_case() -> impl Strategy<Value = Keys> {
    let op = prop_oneof![
        9 => (k(), data(), prop_oneof![4 => 0u16..20, 1 => any::<u16>().prop_map(|x| x % 20000)], any::<bool>()).prop_map(|(k, d, n, b)| SOp::Set(k, d, n, b)),
        3 => k().prop_map(SOp::Erase),
        2 => k().prop_map(SOp::ErasePrefix),
        2 => k().prop_map(SOp::Get),
        1 => Just(SOp::List),
        2 => k().prop_map(SOp::ListPrefix),
        3 => k().prop_map(SOp::ListDir),
    ];
    const EXT: [&str; 8] = ["b", ".", "-x", ".json", "0", "é", " ", "~"];
    let names = (name(), name(), name(), 0usize..8, 0usize..8).prop_map(|(a, b, c, e, f)| vec![a.clone(), format!("{}{}", a, EXT[e]), b.clone(), format!("{}{}", b, EXT[f]), c, "c0".into()]);
    (names, 0u8..4, proptest::collection::vec(op, 1..24)).prop_map(|(names, store, ops)| Keys { names, store, ops })
}

fn under(p: &str, anc: &str) -> bool {
    if anc.is_empty() { !p.is_empty() } else { p.len() > anc.len() && p.starts_with(anc) && p.as_bytes()[anc.len()] == b'/' }
}

struct KModel {
    map: BTreeMap<String, Vec<u8>>,
    /// Directories that may be left behind.
    dirs: BTreeSet<String>,
    fs: bool,
}

impl KModel {
    fn below(&self, p: &str) -> BTreeSet<String> {
        self.map.keys().filter(|k| under(k, p)).cloned().collect()
    }
    fn level<'a>(set: impl Iterator<Item = &'a String>, p: &str) -> (BTreeSet<String>, BTreeSet<String>) {
        let skip = if p.is_empty() { 0 } else { p.len() + 1 };
        let (mut a, mut b) = (BTreeSet::new(), BTreeSet::new());
        for k in set.filter(|k| under(k, p)) {
            match k[skip..].split_once('/') {
                None => { a.insert(k.clone()); }
                Some((d, _)) => { b.insert(format!("{}{}", &k[..skip], d)); }
            }
        }
        (a, b)
    }
}

fn listed(what: &str, got: &[String]) -> Result<BTreeSet<String>, String> {
    let set: BTreeSet<String> = got.iter().map(|k| norm(k)).collect();
    ensure_eq!(set.len(), got.len(), "{}: duplicates in {:?}", what, got);
    Ok(set)
}

fn fetch<S: ReadableStore>(s: &S, key: &str) -> Result<Option<Vec<u8>>, String> {
    match no_panic(|| s.get(key)).map_err(|p| format!("get({:?}): panic: {}", key, p))? {
        Ok(None) => Ok(None),
        Ok(Some(mut r)) => {
            let mut v = vec![];
            r.read_to_end(&mut v).map_err(|e| format!("reading {:?}: {}", key, e))?;
            Ok(Some(v))
        }
        Err(e) => Err(format!("get({:?}): {}", key, e)),
    }
}

fn c27_run<S: ReadableStore + ListableStore + WriteableStore>(s: &S, c: &Keys, fs: bool, literal: bool, cx: &mut Cx) -> R {
    let mut m = KModel { map: BTreeMap::new(), dirs: BTreeSet::new(), fs };
    if fs {
        let z = fetch(s, "zarr.json")?.ok_or("no zarr.json")?;
        m.map.insert("zarr.json".into(), z);
    }
    // As a key, or as a prefix of keys.
    let resolve = |k: &K, m: &KModel, prefix: bool| -> (String, String) {
        let canon = match k.pick {
            Some(i) if !m.map.is_empty() => {
                let key = m.map.keys().nth(i as usize % m.map.len()).unwrap().clone();
                let parts: Vec<&str> = key.split('/').collect();
                let n = if prefix { (i as usize / 7) % parts.len().max(1) } else if i >= 230 && parts.len() > 1 { parts.len() - 1 } else { parts.len() };
                parts[..n].join("/")
            }
            _ => k.c.iter().map(|&i| c.names[i as usize % c.names.len()].clone()).collect::<Vec<_>>().join("/"),
        };
        let canon = if canon.is_empty() && !prefix { c.names[0].clone() } else { canon };
        let spell = if literal {
            if prefix && !canon.is_empty() { format!("/{}/", canon) } else { format!("/{}", canon) }
        } else if prefix {
            let d = decorate(&canon, k.deco);
            if canon.is_empty() && k.deco % 5 == 0 { String::new() } else if k.deco % 3 == 0 { format!("{}/", d.trim_end_matches('/')) } else { d }
        } else {
            decorate(&canon, k.deco & !0xc).trim_end_matches('/').to_string()
        };
        (canon, spell)
    };
    let io = |w: &str, r: std::io::Result<bool>| r.map_err(|e| format!("{}: {}", w, e));
    for (n, op) in c.ops.iter().enumerate() {
        let before = m.map.clone();
        match op {
            SOp::Set(k, d, len, split) => {
                let (key, sp) = resolve(k, &m, false);
                let bytes: Vec<u8> = d.expand(*len as usize, Dt { k: 1, big: false }).iter().map(|&b| b as u8).collect();
                let w = format!("operation {}: set({:?}, {} bytes)", n, sp, len);
                let r = no_panic(|| s.set(&sp, |mut w| {
                    if *split {
                        for p in bytes.chunks(7) {
                            w.write_all(p)?;
                        }
                    } else {
                        w.write_all(&bytes)?;
                    }
                    w.flush()
                })).map_err(|p| format!("{}: panic: {}", w, p))?;
                // On a filesystem a key can not also be a directory.
                let clash = fs && (m.dirs.contains(&key) || m.map.keys().any(|k| under(&key, k) || under(k, &key)));
                match r {
                    Ok(()) => {
                        let parts: Vec<&str> = key.split('/').collect();
                        for i in 1..parts.len() {
                            if m.fs {
                                m.dirs.insert(parts[..i].join("/"));
                            }
                        }
                        m.map.insert(key, bytes);
                    }
                    Err(_) if clash => { cx.label("key under a key"); }
                    Err(e) => return Err(format!("{}: {}", w, e)),
                }
            }
            SOp::SetFail(..) => {}
            SOp::Erase(k) => {
                let (key, sp) = resolve(k, &m, false);
                let w = format!("operation {}: erase({:?})", n, sp);
                let r = no_panic(|| s.erase(&sp)).map_err(|p| format!("{}: panic: {}", w, p))?;
                m.map.remove(&key);
                ensure!(io(&w, r)?, "{}: reported that the key still exists", w);
                let r = s.erase(&sp);
                ensure!(io(&w, r)?, "{}: repeated: reported that the key still exists", w);
                cx.label_if(before.contains_key(&key), "erased a key");
                cx.label_if(before.keys().any(|k| under(k, &key)), "erased a key that is a prefix");
            }
            SOp::ErasePrefix(k) => {
                let (key, sp) = resolve(k, &m, true);
                let w = format!("operation {}: erase_prefix({:?})", n, sp);
                let r = no_panic(|| s.erase_prefix(&sp)).map_err(|p| format!("{}: panic: {}", w, p))?;
                m.map.retain(|k, _| !under(k, &key));
                m.dirs.retain(|k| !under(k, &key) && *k != key);
                ensure!(io(&w, r)?, "{}: reported that keys still exist", w);
                let r = s.erase_prefix(&sp);
                ensure!(io(&w, r)?, "{}: repeated: reported that keys still exist", w);
                cx.label_if(before.len() > m.map.len(), "erased a prefix");
                cx.label_if(before.len() > m.map.len() && m.map.keys().any(|k| k.starts_with(&key) && !under(k, &key)), "keys extending an erased prefix");
            }
            SOp::Get(k) => {
                let (key, sp) = resolve(k, &m, false);
                let w = format!("operation {}: ", n);
                let got = fetch(s, &sp).map_err(|e| format!("{}{}", w, e))?;
                ensure_eq!(got.as_ref(), m.map.get(&key), "{}get({:?})", w, sp);
                let e = s.exists(&sp).map_err(|e| format!("{}exists({:?}): {}", w, sp, e))?;
                ensure_eq!(e, m.map.contains_key(&key), "{}exists({:?})", w, sp);
            }
            SOp::List => {
                let w = format!("operation {}: list()", n);
                let got = no_panic(|| s.list()).map_err(|p| format!("{}: panic: {}", w, p))?.map_err(|e| format!("{}: {}", w, e))?;
                ensure_eq!(listed(&w, &got)?, m.map.keys().cloned().collect::<BTreeSet<_>>(), "{}", w);
                for k in &got {
                    ensure_eq!(fetch(s, k)?.as_ref(), m.map.get(&norm(k)), "{}: reading the listed key {:?}", w, k);
                }
                cx.nontrivial = cx.nontrivial || m.map.len() > 1;
            }
            SOp::ListPrefix(k) => {
                let (key, sp) = resolve(k, &m, true);
                let w = format!("operation {}: list_prefix({:?})", n, sp);
                let want = m.below(&key);
                match no_panic(|| s.list_prefix(&sp)).map_err(|p| format!("{}: panic: {}", w, p))? {
                    Ok(got) => {
                        ensure_eq!(listed(&w, &got)?, want, "{}", w);
                        for k in &got {
                            ensure_eq!(fetch(s, k)?.as_ref(), m.map.get(&norm(k)), "{}: reading the listed key {:?}", w, k);
                        }
                    }
                    Err(e) => ensure!(want.is_empty(), "{}: {}", w, e),
                }
                cx.nontrivial = cx.nontrivial || !want.is_empty();
            }
            SOp::ListDir(k) => {
                let (key, sp) = resolve(k, &m, true);
                let w = format!("operation {}: list_dir({:?})", n, sp);
                let (keys, mut pre) = KModel::level(m.map.keys(), &key);
                let least = pre.clone();
                // Directories stand for prefixes of (missing) keys.
                let ghosts: BTreeSet<String> = m.dirs.iter().map(|d| format!("{}/x", d)).collect();
                pre.extend(KModel::level(ghosts.iter(), &key).1);
                match no_panic(|| s.list_dir(&sp)).map_err(|p| format!("{}: panic: {}", w, p))? {
                    Ok((gk, gp)) => {
                        ensure_eq!(listed(&w, &gk)?, keys, "{}: keys", w);
                        let gps = listed(&w, &gp)?;
                        ensure!(least.is_subset(&gps) && gps.is_subset(&pre), "{}: prefixes: got {:?}, expected {:?}", w, gps, least);
                        for k in &gk {
                            ensure_eq!(fetch(s, k)?.as_ref(), m.map.get(&norm(k)), "{}: reading the listed key {:?}", w, k);
                        }
                        for p in &gp {
                            let below = s.list_prefix(p).map_err(|e| format!("{}: listing the listed prefix {:?}: {}", w, p, e))?;
                            ensure_eq!(listed(&w, &below)?, m.below(&norm(p)), "{}: keys under the listed prefix {:?}", w, p);
                        }
                    }
                    Err(e) => ensure!(keys.is_empty() && least.is_empty(), "{}: {}", w, e),
                }
                cx.nontrivial = cx.nontrivial || keys.len() + least.len() > 0;
            }
        }
    }
    let w = "list() at the end";
    let got = no_panic(|| s.list()).map_err(|p| format!("{}: panic: {}", w, p))?.map_err(|e| format!("{}: {}", w, e))?;
    ensure_eq!(listed(w, &got)?, m.map.keys().cloned().collect::<BTreeSet<_>>(), "{}", w);
    for k in &got {
        ensure_eq!(fetch(s, k)?.as_ref(), m.map.get(&norm(k)), "{}: reading the listed key {:?}", w, k);
    }
    Ok(())
}

fn c27_keys(c: &Keys, cx: &mut Cx) -> R {
    match c.store % 4 {
        0 => {
            cx.label("memory");
            c27_run(&Mem::new(), c, false, false, cx)
        }
        1 => {
            cx.label("memory, literal keys");
            let mut m = Mem::new();
            m.literal = true;
            c27_run(&m, c, false, true, cx)
        }
        _ => {
            cx.label("filesystem");
            let h = FilesystemHierarchy::open_or_create(cx.dir()).map_err(|e| e.to_string())?;
            c27_run(&h, c, true, false, cx)
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Many {
    depth: u8,
    wide: u16,
    cut: u8,
    store: u8,
}

fn many_case() -> impl Strategy<Value = Many> {
    (prop_oneof![2 => 0u8..6, 2 => 6u8..30, 1 => 30u8..150], prop_oneof![3 => 0u16..10, 1 => 250u16..800], any::<u8>(), 0u8..3)
        .prop_map(|(depth, wide, cut, store)| Many { depth, wide, cut, store })
}

/// Keys in numbers and at depths that no history reaches.
fn c27_many(c: &Many, cx: &mut Cx) -> R {
    cx.nontrivial();
    cx.label_if(c.depth > 12, "deep");
    cx.label_if(c.wide > 100, "wide");
    if c.store == 0 {
        let h = FilesystemHierarchy::open_or_create(cx.dir()).map_err(|e| e.to_string())?;
        c27_many_run(&h, c)
    } else {
        c27_many_run(&Mem::new(), c)
    }
}

fn c27_many_run<S: ReadableStore + ListableStore + WriteableStore>(s: &S, c: &Many) -> R {
    let level = |n: u8| (0..n).map(|i| format!("/d{}", i % 5)).collect::<String>() + "/";
    let mut keys: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    for n in 0..=c.depth {
        keys.insert(format!("{}k", level(n)), vec![n, 1]);
    }
    for i in 0..c.wide {
        keys.insert(format!("{}w{}", level(c.depth), i), i.to_le_bytes().to_vec());
    }
    for (k, v) in &keys {
        s.set(k, |mut w| w.write_all(v).and_then(|_| w.flush())).map_err(|e| format!("set({:?}): {}", k, e))?;
    }
    let check = |keys: &BTreeMap<String, Vec<u8>>, when: &str| -> R {
        for (k, v) in keys {
            ensure!(fetch(s, k)?.as_ref() == Some(v), "{}: value of {:?}", when, k);
        }
        for n in 0..=c.depth {
            let p = level(n);
            let want: BTreeSet<String> = keys.keys().filter(|k| k.starts_with(&p)).map(|k| norm(k)).collect();
            let got = s.list_prefix(&p).map_err(|e| format!("{}: list_prefix({:?}): {}", when, p, e))?;
            let set: BTreeSet<String> = got.iter().map(|k| norm(k)).filter(|k| k != "zarr.json").collect();
            ensure_eq!(got.iter().filter(|k| norm(k) != "zarr.json").count(), set.len(), "{}: duplicates in list_prefix({:?})", when, p);
            if let Some(d) = set.symmetric_difference(&want).next() {
                return Err(format!("{}: list_prefix({:?}) has {} keys, expected {}; {:?} is {}", when, p, set.len(), want.len(), d, if want.contains(d) { "missing" } else { "unexpected" }));
            }
            let want: BTreeSet<String> = keys.keys().filter(|k| k.rsplit_once('/').map(|(d, _)| d) == Some(p.trim_end_matches('/'))).map(|k| norm(k)).collect();
            let (got, _) = s.list_dir(&p).map_err(|e| format!("{}: list_dir({:?}): {}", when, p, e))?;
            let set: BTreeSet<String> = got.iter().map(|k| norm(k)).filter(|k| k != "zarr.json").collect();
            if let Some(d) = set.symmetric_difference(&want).next() {
                return Err(format!("{}: list_dir({:?}) has {} keys, expected {}; {:?} is {}", when, p, set.len(), want.len(), d, if want.contains(d) { "missing" } else { "unexpected" }));
            }
        }
        Ok(())
    };
    check(&keys, "after setting all")?;
    // The root holds the entry point.
    if c.depth > 0 {
        let p = level(1 + c.cut % c.depth);
        let when = format!("erase_prefix({:?})", p);
        ensure!(s.erase_prefix(&p).map_err(|e| format!("{}: {}", when, e))?, "{}: reports that something is left", when);
        let rest: BTreeMap<String, Vec<u8>> = keys.iter().filter(|(k, _)| !k.starts_with(&p)).map(|(k, v)| (k.clone(), v.clone())).collect();
        for k in keys.keys().filter(|k| k.starts_with(&p)) {
            ensure!(!s.exists(k).map_err(|e| format!("{}: exists({:?}): {}", when, k, e))?, "{}: {:?} exists", when, k);
        }
        check(&rest, &when)?;
    }
    Ok(())
}

pub fn c27() -> Vec<Sub> {
    vec![
        sub("history", Cases(180_000, 2_000_000), keys_case, c27_keys),
        sub("many", Cases(2_000, 40_000), many_case, c27_many),
    ]
}

// ---------------------------------------------------------------- C22

/// Depth of the hierarchy below the case's directory: more than the number of
/// ".." components a case can hold.
const DEEP: usize = 14;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Esc {
    comps: Vec<u8>,
    op: u8,
    /// Decoration: leading slashes, trailing slash.
    lead: u8,
    trail: u8,
    sep: u8,
}

fn esc() -> impl Strategy<Value = Esc> {
    (proptest::collection::vec(prop_oneof![4 => Just(0u8), 1 => Just(1u8), 6 => 2u8..16], 0..=8), any::<u8>(), 0u8..3, 0u8..2, any::<u8>())
        .prop_map(|(comps, op, lead, trail, sep)| Esc { comps, op, lead, trail, sep })
}

const SEPS: [&str; 8] = ["/", ".", "/../", "/../../", "/../../../../", "/../../../../../../x/", "..", "/a/../../"];

/// Depth at which a string's components climb above where they start from `depth`.
fn climbs(depth: i64, s: &str) -> bool {
    let mut d = depth;
    for c in s.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                d -= 1;
                if d < 0 {
                    return true;
                }
            }
            _ => d += 1,
        }
    }
    false
}

fn lexical(p: &str) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => { out.pop(); }
            c => out.push(c.to_string()),
        }
    }
    out
}

/// Documents, chunks and directories wherever an escaped path could lead.
fn traps(dir: &Path) {
    let array = Meta::simple(vec![3], vec![2], Dt { k: 1, big: false }).json();
    let mut array = array;
    array["attributes"] = json!({"TRAP": 1});
    for n in ["x", "a", "root", "meta", "data", "base"] {
        let _ = std::fs::write(dir.join(format!("{}.array.json", n)), array.to_string());
    }
    let _ = std::fs::write(dir.join("b.group.json"), r#"{"extensions":[],"attributes":{"TRAP":1}}"#);
    let _ = std::fs::write(dir.join("c0"), b"TRAP");
    let _ = std::fs::write(dir.join("c1"), b"TRAP");
    let _ = std::fs::write(dir.join("TRAP"), b"TRAP");
    let _ = std::fs::create_dir(dir.join("x"));
    let _ = std::fs::write(dir.join("x").join("c0"), b"TRAP");
    let _ = std::fs::write(dir.join("x").join("TRAP.array.json"), b"TRAP");
}

fn c22_escape(c: &Vec<Esc>, cx: &mut Cx) -> R {
    let top = cx.dir();
    let mut dir = top.clone();
    for i in 0..DEEP {
        dir = dir.join(if i % 2 == 0 { "a".to_string() } else { format!("d{}", i) });
        std::fs::create_dir(&dir).unwrap();
        if i + 6 >= DEEP {
            traps(&dir);
        }
    }
    // A sibling whose name extends the root's.
    std::fs::create_dir(dir.join("base2")).unwrap();
    traps(&dir.join("base2"));
    let base = dir.join("base");
    let base_s = base.to_str().unwrap().to_string();
    let outside = |_: ()| -> Snap {
        let b = norm(base.strip_prefix(&top).unwrap().to_str().unwrap());
        snap(&top).into_iter().filter(|(k, _)| { let k = norm(k); k != b && !under(&k, &b) }).collect()
    };
    let before = outside(());
    let h = FilesystemHierarchy::open_or_create(&base).map_err(|e| format!("creating: {}", e))?;
    for (n, e) in c.iter().enumerate() {
        let abs = format!("{}/x", dir.to_str().unwrap());
        let words: [&str; 16] = ["..", ".", "a", "b", "x", "meta", "root", "data", "base", "base2", "c0", "...", "", "zarr.json", &abs, "..x"];
        let mut s = e.comps.iter().map(|&i| words[i as usize % 16]).collect::<Vec<_>>().join("/");
        s = format!("{}{}{}", "/".repeat(e.lead as usize), s, "/".repeat(e.trail as usize));
        if e.op % 2 == 0 {
            let m = Meta::simple(vec![3], vec![2], Dt { k: 1, big: false });
            h.create_array("a", &m.build()).ok();
            h.create_group("b").ok();
            write_chunk(&h, 1, "a", &m.build(), &[0], &[1, 2]).ok();
        }
        let mut m = Meta::simple(vec![5, 5], vec![2, 2], Dt { k: 1, big: false });
        m.comp = Comp { codec: 0, p: None };
        let mut doc = m.json();
        doc["chunk_grid"]["separator"] = SEPS[e.sep as usize % SEPS.len()].into();
        let meta = meta_from(&doc);
        let chunk_key = format!("data/root/{}/c1{}1", s.trim_matches('/'), SEPS[e.sep as usize % SEPS.len()]);
        let mut leak: Vec<String> = vec![];
        let (key, node) = (climbs(0, &s), climbs(2, &s));
        // (operation, is it refused?, what it returned)
        let (what, must_fail, out): (&str, bool, Result<std::io::Result<()>, String>) = {
            let leak = &mut leak;
            match e.op / 2 % 26 {
                0 => ("store exists", key, no_panic(|| ReadableStore::exists(&h, &s).map(|_| ()))),
                1 => ("store get", key, no_panic(|| {
                    if let Some(mut r) = h.get(&s)? {
                        let mut v = vec![];
                        let _ = r.read_to_end(&mut v);
                        leak.push(String::from_utf8_lossy(&v).into_owned());
                    }
                    Ok(())
                })),
                2 => ("store set", key, no_panic(|| h.set(&s, |mut w| w.write_all(b"w")))),
                3 => ("store erase", key, no_panic(|| h.erase(&s).map(|_| ()))),
                4 => ("store erase_prefix", key, no_panic(|| h.erase_prefix(&s).map(|_| ()))),
                5 => ("list_dir", key, no_panic(|| h.list_dir(&s).map(|(a, b)| { leak.extend(a); leak.extend(b); }))),
                6 => ("list_prefix", key, no_panic(|| h.list_prefix(&s).map(|a| leak.extend(a)))),
                7 => ("store uri", key, no_panic(|| h.uri(&s).map(|u| leak.push(format!("uri:{}", u))))),
                8 => ("exists_prefix", key, no_panic(|| h.exists_prefix(&s).map(|_| ()))),
                9 => ("get_attributes", key, no_panic(|| h.get_attributes(&s).map(|v| leak.push(v.to_string())))),
                10 => ("exists", node, no_panic(|| HierarchyReader::exists(&h, &s).map(|_| ()))),
                11 => ("array_exists", node, no_panic(|| h.array_exists(&s).map(|_| ()))),
                12 => ("get_array_metadata", node, no_panic(|| h.get_array_metadata(&s).map(|m| leak.push(serde_json::to_string(&m).unwrap())))),
                13 => ("list_attributes", node, no_panic(|| h.list_attributes(&s).map(|a| leak.push(Value::Object(a).to_string())))),
                14 => ("list_nodes", node, no_panic(|| h.list_nodes(&s).map(|a| leak.extend(a)))),
                15 => ("set_attribute", node, no_panic(|| h.set_attribute(&s, "k".into(), 1))),
                16 => ("create_group", node, no_panic(|| h.create_group(&s))),
                17 => ("create_array", node, no_panic(|| h.create_array(&s, &meta))),
                18 => ("remove", node, no_panic(|| h.remove(&s))),
                19 => ("write_chunk", climbs(0, &chunk_key), no_panic(|| write_chunk(&h, 1, &s, &meta, &[1, 1], &[1, 2, 3, 4]))),
                20 => ("read_chunk", climbs(0, &chunk_key), no_panic(|| read_chunk(&h, 1, &s, &meta, &[1, 1]).map(|c| if let Some(c) = c { leak.push(String::from_utf8_lossy(&c.1.iter().map(|&b| b as u8).collect::<Vec<_>>()).into_owned()) }))),
                21 => ("read_chunk_into", climbs(0, &chunk_key), no_panic(|| read_chunk_into(&h, 1, &s, &meta, &[1, 1], 2).map(|c| if let Some(c) = c { leak.push(String::from_utf8_lossy(&c.1.iter().map(|&b| b as u8).collect::<Vec<_>>()).into_owned()) }))),
                22 => ("delete_chunk", climbs(0, &chunk_key), no_panic(|| h.delete_chunk(&s, &meta, &[1, 1]).map(|_| ()))),
                23 => ("get_chunk_uri", climbs(0, &chunk_key), no_panic(|| h.get_chunk_uri(&s, &meta, &[1, 1]).map(|u| leak.push(format!("uri:{}", u))))),
                24 => ("read_ndarray", climbs(0, &chunk_key), no_panic(|| read_region(&h, 1, &s, &meta, &[2, 2], &[1, 1]).map(|(_, v)| leak.push(String::from_utf8_lossy(&v.iter().map(|&b| b as u8).collect::<Vec<_>>()).into_owned())))),
                _ => ("write_ndarray", climbs(0, &chunk_key), no_panic(|| write_region(&h, 1, &s, &meta, &[2, 2], &[1, 1], Layout { kind: 0, seed: 0 }, &[7]))),
            }
        };
        let chunk_op = (19..=25).contains(&(e.op / 2 % 26));
        let d = if chunk_op { format!("operation {}: {}({:?}, separator {:?})", n, what, s, SEPS[e.sep as usize % SEPS.len()]) } else { format!("operation {}: {}({:?})", n, what, s) };
        let out = out.map_err(|p| format!("{}: panic: {}", d, p))?;
        if s.contains("..") || s.contains(&abs) || (chunk_op && e.sep as usize % SEPS.len() > 1) {
            cx.nontrivial();
        }
        cx.label_if(must_fail, "climbs above the root");
        cx.label_if(!must_fail && s.contains(".."), "'..' inside the root");
        if must_fail {
            ensure!(out.is_err(), "{}: climbs above the root, but was not refused", d);
        }
        for l in leak {
            if let Some(u) = l.strip_prefix("uri:") {
                let path = u.strip_prefix("file://").unwrap_or(u);
                let (p, b) = (lexical(path), lexical(&base_s));
                ensure!(p.len() >= b.len() && p[..b.len()] == b[..], "{}: returned {:?}, outside {:?}", d, u, base_s);
            } else {
                ensure!(!l.contains("TRAP"), "{}: returned something from outside the root: {}", d, short(&l));
            }
        }
        if let Some(x) = diff(&before, &outside(())) {
            return Err(format!("{}: outside the root: {}", d, x));
        }
    }
    Ok(())
}

fn esc_case() -> impl Strategy<Value = Vec<Esc>> {
    proptest::collection::vec(esc(), 1..=6)
}

pub fn c22() -> Vec<Sub> {
    vec![sub("escape", Cases(16_000, 500_000), esc_case, c22_escape)]
}

// ---------------------------------------------------------------- C29

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Site {
    /// What is at the path: 0 nothing, 1 nothing below an existing directory, 2 an empty
    /// directory, 3 a directory with other files, 4 a file, 5.. a hierarchy.
    state: u8,
    /// Entry point document: suffix, member order, white space, unknown member, version.
    doc: u8,
    suffix: u8,
    content: Vec<(String, u8, u8)>,
    /// Ways of opening.
    how: Vec<u8>,
    rel: bool,
    trail: bool,
}

fn site() -> impl Strategy<Value = Site> {
    (0u8..12, any::<u8>(), any::<u8>(), proptest::collection::vec((path(2), any::<u8>(), any::<u8>()), 0..5), proptest::collection::vec(0u8..4, 1..6), any::<bool>(), any::<bool>())
        .prop_map(|(state, doc, suffix, content, how, rel, trail)| Site { state, doc, suffix, content, how, rel, trail })
}

fn entry_text(c: &Site) -> String {
    const SUF: [&str; 5] = [".json", "", ".meta", ".v3.json", "json"];
    let mut v = ep_json(SUF[c.suffix as usize % 5]);
    v["zarr_format"] = json!(["https://purl.org/zarr/spec/protocol/core/3.0", "https://purl.org/zarr/spec/protocol/core/3", "http://elsewhere/3.0"][c.doc as usize % 3]);
    if c.doc & 4 != 0 {
        v["other"] = json!({"a": [1]});
    }
    if c.doc & 8 != 0 {
        v["extensions"] = json!([{"extension": "http://example.org/x", "must_understand": false, "configuration": {"a": 1}}]);
    }
    let t = if c.doc & 16 != 0 { serde_json::to_string_pretty(&v).unwrap() } else { v.to_string() };
    if c.doc & 32 != 0 { format!("  {}\n\n", t) } else { t }
}

fn c29_site(c: &Site, cx: &mut Cx) -> R {
    let top = cx.dir();
    let cwd = std::env::current_dir().unwrap();
    let base = match c.state { 0 => top.join("n1").join("n2").join("h"), _ => top.join("h") };
    let keep = c.content.iter().map(|x| &x.0).collect::<Vec<_>>();
    match c.state {
        0 | 1 => {}
        2 => std::fs::create_dir(&base).unwrap(),
        3 => {
            std::fs::create_dir_all(base.join("meta/root")).unwrap();
            std::fs::write(base.join("zarr.json.bak"), "x").unwrap();
            std::fs::write(base.join("meta/root/g.group.json"), r#"{"extensions":[],"attributes":{"a":1}}"#).unwrap();
        }
        4 => std::fs::write(&base, "a file").unwrap(),
        _ => {
            std::fs::create_dir(&base).unwrap();
            std::fs::write(base.join("zarr.json"), entry_text(c)).unwrap();
        }
    }
    let mut spelled: PathBuf = if c.rel { base.strip_prefix(&cwd).map(|p| p.to_path_buf()).unwrap_or(base.clone()) } else { base.clone() };
    if c.trail && c.state != 4 {
        spelled = PathBuf::from(format!("{}/", spelled.to_str().unwrap()));
    }
    let m = Meta::simple(vec![3], vec![2], Dt { k: 1, big: false });
    let meta = m.build();
    // Content written through the first handle, keyed by path: is it an array?
    let mut nodes: BTreeMap<String, (bool, u8)> = BTreeMap::new();
    let mut present = c.state >= 5;
    let open = |how: u8| -> Result<std::io::Result<FilesystemHierarchy>, String> {
        let (n, r) = if how % 2 == 0 {
            ("open", no_panic(|| FilesystemHierarchy::open(&spelled)))
        } else {
            ("open_or_create", no_panic(|| FilesystemHierarchy::open_or_create(&spelled)))
        };
        r.map_err(|p| format!("{}: panic: {}", n, p))
    };
    let mut filled = false;
    for (n, &how) in c.how.iter().enumerate() {
        let name = if how % 2 == 0 { "open" } else { "open_or_create" };
        let w = format!("opening {} ({} {:?})", n, name, spelled);
        let before = snap(&top);
        let r = open(how)?;
        let after = snap(&top);
        let h = match (present, how % 2 == 0, c.state) {
            (true, ..) => {
                if let Some(d) = diff(&before, &after) {
                    return Err(format!("{} of an existing hierarchy: {}", w, d));
                }
                cx.nontrivial();
                cx.label("existing hierarchy");
                r.map_err(|e| format!("{} of an existing hierarchy: {}", w, e))?
            }
            (false, true, _) => {
                ensure!(r.is_err(), "{}: there is no hierarchy", w);
                if let Some(d) = diff(&before, &after) {
                    return Err(format!("{} where there is no hierarchy: {}", w, d));
                }
                cx.nontrivial();
                cx.label("nothing to open");
                continue;
            }
            (false, false, 4) => {
                ensure!(r.is_err(), "{}: the path is a file", w);
                if let Some(d) = diff(&before, &after) {
                    return Err(format!("{} over a file: {}", w, d));
                }
                continue;
            }
            (false, false, _) => {
                let h = r.map_err(|e| format!("{}: {}", w, e))?;
                let strip = |s: &Snap| -> Snap { s.iter().filter(|(k, _)| !k.ends_with('/') && !k.ends_with("/zarr.json")).map(|(k, v)| (k.clone(), v.clone())).collect() };
                if let Some(d) = diff(&strip(&before), &strip(&after)) {
                    return Err(format!("{}: {}", w, d));
                }
                let text = std::fs::read(base.join("zarr.json")).map_err(|e| format!("{}: reading zarr.json: {}", w, e))?;
                let v: Value = serde_json::from_slice(&text).map_err(|e| format!("{}: entry point is not JSON: {}", w, e))?;
                ensure_eq!(v["zarr_format"], json!("https://purl.org/zarr/spec/protocol/core/3.0"), "{}: zarr_format", w);
                ensure!(v["metadata_encoding"].is_string(), "{}: metadata_encoding is {}", w, v["metadata_encoding"]);
                ensure_eq!(v["metadata_key_suffix"], json!(".json"), "{}: metadata_key_suffix", w);
                ensure_eq!(v["extensions"], json!([]), "{}: extensions", w);
                let _: EntryPointMetadata = serde_json::from_value(v).map_err(|e| format!("{}: entry point does not load: {}", w, e))?;
                present = true;
                cx.nontrivial();
                cx.label("created");
                h
            }
        };
        // Every handle sees what was written through earlier ones.
        for (p, (arr, v)) in &nodes {
            ensure!(HierarchyReader::exists(&h, p).map_err(|e| e.to_string())?, "{}: the node {:?} is gone", w, p);
            ensure_eq!(h.array_exists(p).map_err(|e| e.to_string())?, *arr, "{}: array_exists({:?})", w, p);
            let a = h.list_attributes(p).map_err(|e| format!("{}: attributes of {:?}: {}", w, p, e))?;
            ensure_eq!(a.get("v"), Some(&json!(v)), "{}: attribute of {:?}", w, p);
            if *arr {
                let c = read_chunk(&h, 1, p, &meta, &[1]).map_err(|e| format!("{}: chunk of {:?}: {}", w, p, e))?;
                ensure_eq!(c.map(|c| c.1), Some(vec![*v as u64, 1]), "{}: chunk of {:?}", w, p);
            }
            let (parent, leaf) = p.rsplit_once('/').unwrap_or(("", p));
            if !p.is_empty() {
                ensure!(h.list_nodes(parent).map_err(|e| e.to_string())?.iter().any(|x| x == leaf), "{}: {:?} is not listed in {:?}", w, leaf, parent);
            }
        }
        if c.state == 3 {
            ensure!(HierarchyReader::exists(&h, "g").map_err(|e| e.to_string())?, "{}: the node \"g\" is gone", w);
        }
        if !filled || how >= 2 {
            filled = true;
            for (p, kind, v) in &c.content {
                if p.split('/').any(|x| x == "g" || x.ends_with(".json") || x == "c0x" || x == "c1") || nodes.contains_key(p) {
                    continue;
                }
                let arr = kind % 2 == 0;
                let r = if arr { h.create_array(p, &meta) } else { h.create_group(p) };
                r.map_err(|e| format!("{}: creating {:?}: {}", w, p, e))?;
                h.set_attribute(p, "v".into(), *v).map_err(|e| format!("{}: setting an attribute of {:?}: {}", w, p, e))?;
                if arr {
                    write_chunk(&h, 1, p, &meta, &[1], &[*v as u64, 1]).map_err(|e| format!("{}: writing a chunk of {:?}: {}", w, p, e))?;
                }
                nodes.insert(p.clone(), (arr, *v));
                if how >= 2 {
                    break;
                }
            }
            cx.label_if(!keep.is_empty(), "content");
        }
    }
    Ok(())
}

pub fn c29() -> Vec<Sub> {
    vec![sub("open", Cases(90_000, 1_000_000), site, c29_site)]
}
