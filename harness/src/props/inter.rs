//! Concurrent creation of hierarchies and nodes (C38), and one operation
//! between two system calls of another (C39).

use crate::fw::*;
use crate::gen::*;
use crate::io::*;
use crate::store::*;
use crate::sys::*;
use crate::{ensure, ensure_eq};
use super::conc::repeated;
use super::faults::{act, files, may_touch, restore, run, site, Act, Files, Res, Site};
use super::tree::ep_json;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::io::{Error, ErrorKind};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Barrier, Mutex};
use zarr::prelude::*;
use zarr::Hierarchy;

// ---------------------------------------------------------------- C38

const GROUPS: [&str; 4] = ["g", "p/g", "p/q/h", "a1/sub"];
const ARRAYS: [&str; 4] = ["a", "p/a", "p/q/b", "g/a"];

/// What is at the path before: 0 not even its parents, 1 an empty directory, 2
/// a creation that ended before writing anything, 3 a hierarchy.
fn before(dir: &Path, state: u8) -> std::io::Result<PathBuf> {
    let base = if state % 4 == 0 { dir.join("x/y") } else { dir.to_path_buf() };
    if state % 4 > 0 {
        std::fs::create_dir_all(&base)?;
    }
    match state % 4 {
        2 => std::fs::write(base.join("zarr.json"), "")?,
        3 => std::fs::write(base.join("zarr.json"), format!("{}\n", ep_json(".meta")))?,
        _ => {}
    }
    Ok(base)
}

/// The entry point document that is there in the end.
fn entry(state: u8, single: &Path) -> Result<Vec<u8>, String> {
    if state % 4 == 3 {
        return Ok(format!("{}\n", ep_json(".meta")).into_bytes());
    }
    FilesystemHierarchy::open_or_create(single).map_err(|e| format!("creating a hierarchy: {}", e))?;
    std::fs::read(single.join("zarr.json")).map_err(|e| e.to_string())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Make {
    Open,
    OpenOrCreate,
    Group(u8),
    /// Of a shape that tells the thread.
    Array(u8),
    /// A node that no other thread creates, with attributes and a chunk.
    Own(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Found {
    state: u8,
    threads: Vec<Vec<Make>>,
    seed: u32,
}

fn found() -> impl Strategy<Value = Found> {
    let make = prop_oneof![
        1 => Just(Make::Open), 1 => Just(Make::OpenOrCreate),
        3 => (0u8..4).prop_map(Make::Group), 4 => (0u8..4).prop_map(Make::Array), 2 => any::<u8>().prop_map(Make::Own),
    ];
    (0u8..4, prop::collection::vec(prop::collection::vec(make, 0..6), 2..8), any::<u32>()).prop_map(|(state, threads, seed)| Found { state, threads, seed })
}

fn shape_meta(t: usize) -> Meta {
    Meta::simple(vec![t as u64 + 2], vec![2], Dt { k: 2, big: false })
}

fn json_of<T: Serialize>(x: &T) -> Value {
    serde_json::to_value(x).unwrap()
}

fn c38_crowd(c: &Found, cx: &mut Cx) -> R {
    let dir = cx.dir();
    let n = AtomicUsize::new(0);
    let want = entry(c.state, &dir.join("single"))?;
    cx.nontrivial();
    cx.label(["nothing there", "empty directory", "empty entry point", "hierarchy"][c.state as usize % 4]);
    let shared = |f: &dyn Fn(&Make) -> Option<u8>| (0..4u8).any(|x| c.threads.iter().filter(|t| t.iter().any(|m| f(m) == Some(x))).count() > 1);
    cx.label_if(shared(&|m| if let Make::Group(x) = m { Some(x % 4) } else { None }), "several threads create one group");
    cx.label_if(shared(&|m| if let Make::Array(x) = m { Some(x % 4) } else { None }), "several threads create one array");
    repeated(|rep| {
        let base = before(&dir.join(n.fetch_add(1, Ordering::Relaxed).to_string()), c.state).map_err(|e| e.to_string())?;
        let go = Barrier::new(c.threads.len());
        let stop = AtomicBool::new(false);
        let clock = AtomicUsize::new(1);
        let tick = || clock.fetch_add(1, Ordering::SeqCst);
        // Creations of arrays: which, by whom, begin, end, done.
        let made: Mutex<Vec<(usize, usize, usize, usize, bool)>> = Mutex::new(vec![]);
        let rs: Vec<R> = std::thread::scope(|s| {
            let hs: Vec<_> = c.threads.iter().enumerate().map(|(t, acts)| {
                let (base, go, stop, tick, made, want) = (&base, &go, &stop, &tick, &made, &want);
                s.spawn(move || -> R {
                    set_hook(LockHook { delay: Some(Sm((c.seed as u64 ^ (t as u64) << 32) ^ rep.wrapping_mul(0x9e37_79b9))), ..Default::default() });
                    go.wait();
                    let r = no_panic(|| -> R {
                        let er = |w: &str| { let w = format!("thread {}: {}", t, w); move |e: Error| format!("{}: {}", w, e) };
                        let look = |h: &FilesystemHierarchy, w: &str| -> R {
                            let v: Value = serde_json::from_slice(want).unwrap();
                            ensure_eq!(json_of(h.get_entry_point_metadata()), json_of(&serde_json::from_value::<zarr::EntryPointMetadata>(v).unwrap()), "thread {}: {}", t, w);
                            Ok(())
                        };
                        let h = FilesystemHierarchy::open_or_create(base).map_err(er("open_or_create"))?;
                        look(&h, "open_or_create")?;
                        for (i, a) in acts.iter().enumerate() {
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                            match a {
                                Make::Open => look(&FilesystemHierarchy::open(base).map_err(er("open, after open_or_create"))?, "open")?,
                                Make::OpenOrCreate => look(&FilesystemHierarchy::open_or_create(base).map_err(er("open_or_create again"))?, "open_or_create again")?,
                                Make::Group(x) => {
                                    let p = GROUPS[*x as usize % 4];
                                    let w = format!("create_group({:?})", p);
                                    h.create_group(p).map_err(er(&w))?;
                                    ensure!(HierarchyReader::exists(&h, p).map_err(er("exists"))?, "thread {}: {}: does not exist afterwards", t, w);
                                    // The document may be another thread's and still be empty (known finding of C25).
                                    let alone = !c.threads.iter().enumerate().any(|(u, a)| u != t && a.iter().any(|m| matches!(m, Make::Group(y) if y % 4 == x % 4)));
                                    match h.list_attributes(p) {
                                        Err(_) if !alone => {}
                                        r => ensure_eq!(r.map_err(er(&format!("list_attributes({:?}) after creating it", p)))?.len(), 0, "thread {}: {}: attributes", t, w),
                                    }
                                }
                                Make::Array(x) => {
                                    let x = *x as usize % 4;
                                    let p = ARRAYS[x];
                                    let w = format!("create_array({:?})", p);
                                    let from = tick();
                                    let r = h.create_array(p, &shape_meta(t).build());
                                    let to = tick();
                                    let done = match r {
                                        Ok(()) => true,
                                        Err(e) if e.kind() == ErrorKind::AlreadyExists => false,
                                        Err(e) => return Err(format!("thread {}: {}: {}", t, w, e)),
                                    };
                                    made.lock().unwrap().push((x, t, from, to, done));
                                    if done {
                                        // Whole, whoever created it last.
                                        let m = h.get_array_metadata(p).map_err(er(&format!("get_array_metadata({:?}) after creating it", p)))?;
                                        let s = m.get_shape()[0];
                                        ensure!((0..c.threads.len()).any(|u| json_of(&shape_meta(u).build()) == json_of(&m)), "thread {}: {}: its metadata is nobody's: shape {}", t, w, s);
                                    }
                                }
                                Make::Own(v) => {
                                    let p = format!("p/own{}/n{}", t, i);
                                    let w = format!("the node {:?}", p);
                                    if v % 2 == 0 { h.create_group(&p) } else { h.create_array(&p, &shape_meta(t).build()) }.map_err(er(&w))?;
                                    h.set_attribute(&p, "v".into(), *v).map_err(er(&w))?;
                                    if v % 2 == 1 {
                                        write_chunk(&h, 2, &p, &shape_meta(t).build(), &[0], &[*v as u64, 3]).map_err(er(&w))?;
                                    }
                                }
                            }
                        }
                        Ok(())
                    }).unwrap_or_else(|p| Err(format!("thread {}: panic: {}", t, p)));
                    if r.is_err() {
                        stop.store(true, Ordering::Relaxed);
                    }
                    r
                })
            }).collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into()))).collect()
        });
        rs.into_iter().collect::<R>()?;
        let er = |w: &str| { let w = format!("at the end: {}", w); move |e: Error| format!("{}: {}", w, e) };
        let now = std::fs::read(base.join("zarr.json")).map_err(er("zarr.json"))?;
        ensure!(now == want, "at the end: the entry point is {}", short(&String::from_utf8_lossy(&now)));
        let h = FilesystemHierarchy::open(&base).map_err(er("open"))?;
        let made = made.into_inner().unwrap();
        let mut nodes: BTreeSet<String> = BTreeSet::new();
        for (x, p) in ARRAYS.iter().enumerate() {
            let of: Vec<_> = made.iter().filter(|m| m.0 == x).collect();
            if of.is_empty() {
                ensure!(!h.array_exists(p).map_err(er("array_exists"))?, "at the end: the array {:?} exists", p);
                continue;
            }
            nodes.insert(p.to_string());
            for m in &of {
                if !m.4 {
                    ensure!(of.iter().any(|o| o.4 && o.2 < m.3), "create_array({:?}) by thread {}: reports that it exists, but nobody had begun to create it", p, m.1);
                } else if let Some(o) = of.iter().find(|o| o.4 && o.3 < m.2) {
                    return Err(format!("create_array({:?}) by thread {} reports success, though thread {} had created it before", p, m.1, o.1));
                }
            }
            let got = json_of(&h.get_array_metadata(p).map_err(er(&format!("get_array_metadata({:?})", p)))?);
            ensure!(of.iter().any(|m| m.4 && json_of(&shape_meta(m.1).build()) == got), "at the end: the metadata of {:?} is none that was created: {}", p, got);
        }
        for (t, acts) in c.threads.iter().enumerate() {
            for (i, a) in acts.iter().enumerate() {
                match a {
                    Make::Group(x) => {
                        let p = GROUPS[*x as usize % 4];
                        nodes.insert(p.into());
                        ensure_eq!(h.list_attributes(p).map_err(er(&format!("list_attributes({:?})", p)))?.len(), 0, "at the end: attributes of {:?}", p);
                    }
                    Make::Own(v) => {
                        let p = format!("p/own{}/n{}", t, i);
                        nodes.insert(p.clone());
                        ensure_eq!(json_of(&h.list_attributes(&p).map_err(er(&format!("list_attributes({:?})", p)))?), json!({"v": v}), "at the end: attributes of {:?}", p);
                        if v % 2 == 1 {
                            let got = read_chunk(&h, 2, &p, &shape_meta(t).build(), &[0]).map_err(er(&format!("chunk of {:?}", p)))?;
                            ensure_eq!(got.map(|x| x.1), Some(vec![*v as u64, 3]), "at the end: chunk of {:?}", p);
                        }
                    }
                    _ => {}
                }
            }
        }
        let parents: BTreeSet<String> = nodes.iter().flat_map(|p| p.match_indices('/').map(move |(i, _)| p[..i].to_string())).chain(Some(String::new())).collect();
        for p in parents {
            let all: BTreeSet<String> = nodes.iter().filter_map(|n| {
                let rest = if p.is_empty() { n.as_str() } else { n.strip_prefix(p.as_str())?.strip_prefix('/')? };
                Some(rest.split('/').next()?.to_string())
            }).collect();
            let got = h.list_nodes(&p).map_err(er(&format!("list_nodes({:?})", p)))?;
            ensure_eq!(got.iter().cloned().collect::<BTreeSet<_>>(), all, "at the end: list_nodes({:?})", p);
            ensure_eq!(got.len(), all.len(), "at the end: list_nodes({:?}): duplicates", p);
        }
        Ok(())
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Twice {
    state: u8,
    /// What is interrupted, and what comes in between: 0 open_or_create, 1 a
    /// group, 2 an array, 3 another group beside, 4 open.
    a: u8,
    b: u8,
    at: u8,
    /// The one in between is followed by attributes on what it created.
    more: bool,
}

fn twice() -> impl Strategy<Value = Twice> {
    (0u8..4, 0u8..4, 0u8..5, 0u8..20, any::<bool>()).prop_map(|(state, a, b, at, more)| Twice { state, a, b, at, more })
}

fn c38_step(c: &Twice, cx: &mut Cx) -> R {
    let dir = cx.dir();
    let want = entry(c.state, &dir.join("single"))?;
    let base = before(&dir.join("h"), c.state).map_err(|e| e.to_string())?;
    if c.a > 0 {
        FilesystemHierarchy::open_or_create(&base).map_err(|e| e.to_string())?;
    }
    const NAME: [&str; 5] = ["open_or_create", "create_group(\"p/q/n\")", "create_array(\"p/q/m\")", "create_group(\"p/q/o\")", "open"];
    let made = AtomicBool::new(false);
    let act = |kind: u8, shape: usize, first: Option<&FilesystemHierarchy>| -> Result<bool, String> {
        no_panic(|| {
            let w = NAME[kind as usize % 5];
            let io = |e: Error| format!("{}: {}", w, e);
            let opened;
            let h = match first {
                Some(h) => h,
                None => {
                    let r = if kind == 4 { FilesystemHierarchy::open(&base) } else { FilesystemHierarchy::open_or_create(&base) };
                    // It may not exist yet.
                    if kind == 4 && c.a == 0 && c.state < 3 && r.is_err() && !made.load(Ordering::SeqCst) {
                        return Ok(false);
                    }
                    opened = r.map_err(io)?;
                    &opened
                }
            };
            match kind {
                1 => h.create_group("p/q/n").map_err(io)?,
                2 => match h.create_array("p/q/m", &shape_meta(shape).build()) {
                    Err(e) if e.kind() == ErrorKind::AlreadyExists => return Ok(false),
                    r => r.map_err(io)?,
                },
                3 => h.create_group("p/q/o").map_err(io)?,
                _ => {}
            }
            Ok(true)
        }).map_err(|p| format!("{}: panic: {}", NAME[kind as usize % 5], p))?
    };
    let own = if c.a > 0 { Some(FilesystemHierarchy::open(&base).map_err(|e| e.to_string())?) } else { None };
    let (ra, rb, calls, waited) = with_step(c.at as usize, || {
        let r = act(c.a, 0, own.as_ref());
        made.store(true, Ordering::SeqCst);
        r
    }, || {
        let r = act(c.b, 1, None)?;
        // Something of its own, which stays.
        if c.more && r && c.b != 4 {
            let h = FilesystemHierarchy::open(&base).map_err(|e| format!("open after {}: {}", NAME[c.b as usize], e))?;
            h.create_group("p/q/r").and_then(|_| h.set_attribute("p/q/r", "k".into(), 1)).map_err(|e| format!("another group after {}: {}", NAME[c.b as usize], e))?;
        }
        Ok::<bool, String>(r)
    });
    let what = format!("{}, before system call {} of {}: {}", NAME[c.b as usize], c.at, calls, NAME[c.a as usize]);
    if (c.at as usize) < calls {
        cx.nontrivial();
    }
    cx.label_if(waited, "waits for the other");
    let ra = ra.map_err(|e| format!("{}: the interrupted {}", what, e))?;
    let rb = rb.map_err(|e| format!("{}: the other {}", what, e))?;
    let er = |w: &str| { let w = format!("{}: then {}", what, w); move |e: Error| format!("{}: {}", w, e) };
    let now = std::fs::read(base.join("zarr.json")).map_err(er("zarr.json"))?;
    ensure!(now == want, "{}: the entry point is {}", what, short(&String::from_utf8_lossy(&now)));
    let h = FilesystemHierarchy::open(&base).map_err(er("open"))?;
    let mut nodes = BTreeSet::new();
    if c.a == 1 || c.b == 1 {
        nodes.insert("n");
        ensure_eq!(h.list_attributes("p/q/n").map_err(er("attributes"))?.len(), 0, "{}: attributes", what);
    }
    if c.a == 2 || c.b == 2 {
        nodes.insert("m");
        ensure!(ra && c.a == 2 || rb && c.b == 2, "{}: both report that the array exists", what);
        let m = json_of(&h.get_array_metadata("p/q/m").map_err(er("metadata"))?);
        let by = |x: usize| m == json_of(&shape_meta(x).build());
        ensure!(ra && c.a == 2 && by(0) || rb && c.b == 2 && by(1), "{}: the array's metadata is {}", what, m);
    }
    if c.a == 3 || c.b == 3 {
        nodes.insert("o");
    }
    if c.more && rb && c.b != 4 {
        nodes.insert("r");
        ensure_eq!(json_of(&h.list_attributes("p/q/r").map_err(er("attributes"))?), json!({"k": 1}), "{}: attributes", what);
    }
    let got = h.list_nodes("p/q").map_err(er("list_nodes"))?;
    ensure_eq!(got.iter().map(|x| x.as_str()).collect::<BTreeSet<_>>(), nodes, "{}: nodes", what);
    Ok(())
}

pub fn c38() -> Vec<Sub> {
    vec![
        sub("crowd", Cases(20_000, 400_000), found, c38_crowd),
        sub("step", Cases(8_000, 100_000), twice, c38_step),
    ]
}

// ---------------------------------------------------------------- C39

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pair {
    site: Site,
    a: Act,
    b: Act,
}

fn pair() -> impl Strategy<Value = Pair> {
    (site(), act(), act(), any::<bool>()).prop_map(|(site, a, b, near)| if near { Pair { site, a: near_by(a), b: near_by(b) } } else { Pair { site, a, b } })
}

/// The same operation on the array and its first chunk, its document or a group.
fn near_by(a: Act) -> Act {
    use Act::*;
    let node = |i: u8| [0, 0, 1, 2][i as usize % 4];
    let key = |i: u8| [5, 5, 0, 1][i as usize % 4];
    let pre = |i: u8| [0, 1, 1, 7][i as usize % 4];
    match a {
        Exists(i) => Exists(node(i)), ArrayExists(_) => ArrayExists(0), Meta(_) => Meta(0), Attrs(i) => Attrs(node(i)), OldAttrs(i) => OldAttrs(node(i)),
        Nodes(i) => Nodes([0, 1, 5][i as usize % 3]), ListPrefix(i) => ListPrefix(pre(i)), ListDir(i) => ListDir(pre(i)),
        Get(i) => Get(key(i)), HasKey(i) => HasKey(key(i)), HasPrefix(i) => HasPrefix(pre(i)), Set(i) => Set(5 + i % 2), Erase(i) => Erase(key(i)), ErasePrefix(i) => ErasePrefix(pre(i)),
        Read(_) => Read(0), ReadInto(_) => ReadInto(0), Write(_) => Write(0), WriteSame(_) => WriteSame(0), Delete(_) => Delete(0),
        SetAttr(i) => SetAttr(node(i)), SetAttrs(i) => SetAttrs(node(i)), Remove(i) => Remove(node(i)),
        a => a,
    }
}

/// Overwrites or removes one key whatever is there.
fn blind(a: &Act) -> bool {
    matches!(a, Act::Write(_) | Act::WriteSame(_) | Act::Set(_) | Act::Delete(_) | Act::Erase(_))
}

fn removes(a: &Act) -> bool {
    matches!(a, Act::Remove(_) | Act::RemoveAll | Act::ErasePrefix(_))
}

/// Reads a single key.
fn single(a: &Act) -> bool {
    matches!(a, Act::Get(_) | Act::HasKey(_) | Act::Read(_) | Act::ReadInto(_) | Act::Meta(_) | Act::ArrayExists(_))
}

fn changed(x: &Files, y: &Files) -> BTreeSet<String> {
    x.keys().chain(y.keys()).filter(|k| x.get(*k) != y.get(*k)).cloned().collect()
}

fn same(x: &Res, y: &Res) -> bool {
    x.ok == y.ok && (!x.ok || x.what == y.what)
}

fn c39_pairs(c: &Pair, cx: &mut Cx) -> R {
    let s = &c.site;
    if matches!(c.a, Act::Create) || matches!(c.b, Act::Create) {
        return Ok(());
    }
    let base = cx.dir().join("d");
    let dir = base.join("h");
    s.create(&dir)?;
    let m = s.meta().build();
    let h = FilesystemHierarchy::open(&dir).map_err(|e| e.to_string())?;
    let h2 = FilesystemHierarchy::open(&dir).map_err(|e| e.to_string())?;
    let tree = snap(&base);
    let pre = files(&tree);
    let go = |a: &Act| no_panic(|| run(s, a, &m, &h, &dir)).map_err(|p| format!("{:?}: panics: {}", a, p));
    // One after the other.
    let ra1 = go(&c.a)?;
    let ta = snap(&base);
    let rb2 = go(&c.b)?;
    let sab = files(&snap(&base));
    restore(&base, &tree)?;
    let rb1 = go(&c.b)?;
    let tb = snap(&base);
    let ra2 = go(&c.a)?;
    let sba = files(&snap(&base));
    restore(&base, &tree)?;
    let (sa, sb) = (files(&ta), files(&tb));
    let touched = |a: &Act| -> BTreeSet<String> { pre.keys().chain(sab.keys()).chain(sba.keys()).chain(sa.keys()).chain(sb.keys()).filter(|k| may_touch(s, a, k, &m)).cloned().collect() };
    let ma: BTreeSet<String> = changed(&pre, &sa).into_iter().chain(changed(&sb, &sba)).chain(touched(&c.a)).collect();
    let mb: BTreeSet<String> = changed(&pre, &sb).into_iter().chain(changed(&sa, &sab)).chain(touched(&c.b)).collect();
    let disjoint = ma.is_disjoint(&mb);
    let both_remove = removes(&c.a) && removes(&c.b);
    // What is read and then written, or created at one node, is not one step.
    let node = |a: &Act| match a { Act::Group(i) | Act::Array(i) => Some(s.node(*i)), _ => None };
    if !disjoint && !both_remove && !(blind(&c.a) && blind(&c.b)) || node(&c.a).is_some() && node(&c.a) == node(&c.b) {
        cx.label("not judged");
        return Ok(());
    }
    // Nothing is created in directories that are being removed.
    let parent_in = |k: &String, t: &Files| t.contains_key(&format!("{}/", k.rsplit_once('/').map_or("", |x| x.0)));
    let clash = |x: &Act, tx: &Files, my: &BTreeSet<String>, y: &Act| removes(x) && !removes(y) && my.iter().any(|k| !parent_in(k, tx) || !parent_in(k, &tree));
    if clash(&c.a, &ta, &mb, &c.b) || clash(&c.b, &tb, &ma, &c.a) {
        cx.label("not judged");
        return Ok(());
    }
    let atomic = ma.len() <= 1 && mb.len() <= 1;
    cx.label(if atomic { "one key changed by each" } else { "several keys changed" });
    cx.label(if ma.is_empty() { "reader interrupted" } else { "writer interrupted" });
    cx.label(if mb.is_empty() { "by a reader" } else { "by a writer" });
    // Keys that one sets for the first time may be seen empty by the other (known finding of C25).
    let first = ma.iter().any(|k| !pre.contains_key(k) && sa.contains_key(k));
    let calls = with_step(usize::MAX, || go(&c.a), || ()).2;
    restore(&base, &tree)?;
    let mut rng = Sm(s.data.seed as u64);
    for at in (0..calls).filter(|&i| calls <= 40 || i < 4 || i + 4 > calls || rng.below(calls as u64) < 30) {
        let (ra, rb, _, waited) = with_step(at, || go(&c.a), || no_panic(|| run(s, &c.b, &m, &h2, &dir)).map_err(|p| format!("{:?}: panics: {}", c.b, p)));
        let now = files(&snap(&base));
        restore(&base, &tree)?;
        let what = format!("{:?} before system call {} of {} of {:?}", c.b, at, calls, c.a);
        let (ra, rb) = (ra.map_err(|e| format!("{}: {}", what, e))?, rb.map_err(|e| format!("{}: {}", what, e))?);
        cx.label_if(waited, "waits for the other");
        if !(ma.is_empty() && mb.is_empty()) {
            cx.nontrivial();
        }
        let partial = first && (!rb.ok || rb.what == "Some([])");
        let shown = |r: &Res| if r.ok { short(&r.what) } else { format!("error: {}", r.what) };
        if atomic {
            // A key may be there again when its erasure looks.
            let ra = if !disjoint && matches!(c.a, Act::Delete(_) | Act::Erase(_)) && ra.ok { Res { what: "true".into(), ..ra.clone() } } else { ra.clone() };
            let fits = |r1: &Res, r2: &Res, f: &Files| same(&ra, r1) && (same(&rb, r2) || partial) && now == *f;
            if !fits(&ra1, &rb2, &sab) && !fits(&ra2, &rb1, &sba) {
                return Err(format!("{}: neither order explains it: the interrupted one ended with {} (first: {}; second: {}), the other with {} (first: {}; second: {}); the store: {}", what,
                    shown(&ra), shown(&ra1), shown(&ra2), shown(&rb), shown(&rb1), shown(&rb2),
                    if now == sab || now == sba { "as after one of the orders".to_string() } else { diff(&sab, &now).unwrap_or_default() }));
            }
            continue;
        }
        for (who, act, r, r1, r2) in [("the interrupted one", &c.a, &ra, &ra1, &ra2), ("the other", &c.b, &rb, &rb1, &rb2)] {
            if who == "the other" && partial {
                continue;
            }
            ensure!(r.ok || !r1.ok || !r2.ok, "{}: {} fails: {}", what, who, r.what);
            if single(act) {
                ensure!(same(r, r1) || same(r, r2), "{}: {} ends with {}, otherwise with {} or {}", what, who, shown(r), shown(r1), shown(r2));
            }
        }
        for k in now.keys().chain(sab.keys()).chain(sba.keys()) {
            let v = now.get(k);
            ensure!(v == sab.get(k) || v == sba.get(k), "{}: afterwards {:?} is {}", what, k, short(&v));
        }
    }
    Ok(())
}

pub fn c39() -> Vec<Sub> {
    vec![sub("pairs", Cases(24_000, 400_000), pair, c39_pairs)]
}
