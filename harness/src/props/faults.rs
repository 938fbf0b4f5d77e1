//! Failing system calls (C35) and missing permissions (C36) on the filesystem
//! store.

use crate::fw::*;
use crate::gen::*;
use crate::io::*;
use crate::store::*;
use crate::sys::*;
use crate::{dispatch, ensure, ensure_eq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::io::{Error, ErrorKind, Read, Write};
use std::os::unix::fs::PermissionsExt;
use std::path::Path;
use zarr::prelude::*;
use zarr::Hierarchy;
use zarr::storage::{get_chunk_key, ListableStore, ReadableStore, WriteableStore};

pub(super) type Files = BTreeMap<String, Vec<u8>>;

/// A hierarchy: an array with some chunks at `path`, a group with attributes
/// and an array below it, and an array below an implicit group.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub(super) struct Site {
    pub(super) path: String,
    pub(super) dt: Dt,
    pub(super) comp: Comp,
    pub(super) n: u16,
    col: bool,
    dot: bool,
    /// Which of the array's six chunks are stored.
    stored: u8,
    pub(super) data: Data,
    attrs: serde_json::Map<String, Value>,
}

pub(super) fn site() -> impl Strategy<Value = Site> {
    let n = prop_oneof![4 => 1u16..30, 1 => 2500u16..4000];
    (prop::collection::vec(name(), 0..=2), dt(), comp_cheap(), n, any::<bool>(), any::<bool>(), 0u8..64, data(), attrs())
        .prop_map(|(path, dt, comp, n, col, dot, stored, data, attrs)| Site { path: path.join("/"), dt, comp, n, col, dot, stored, data, attrs })
}

impl Site {
    /// 2x3 chunks, the last ones reaching over the edge.
    pub(super) fn meta(&self) -> Meta {
        let mut m = Meta::simple(vec![3, 3 * self.n as u64 - (self.n > 1) as u64], vec![2, self.n as u32], self.dt);
        m.comp = self.comp.clone();
        m.col = self.col;
        m.dot = self.dot;
        m
    }
    fn vals(&self, i: usize, new: bool) -> Vec<u64> {
        let mut d = self.data;
        d.seed = d.seed.wrapping_add(i as u32 * 2 + new as u32 + 1);
        d.expand(2 * self.n as usize, self.dt)
    }
    pub(super) fn pos(i: u8) -> [u64; 2] {
        let i = i as u64 % 6;
        [i / 3, i % 3]
    }
    /// Node paths by number: the array, a group, an array in it, an implicit
    /// group, an array in that, the root, missing, missing below an array,
    /// missing below a group.
    pub(super) fn node(&self, i: u8) -> String {
        let at = |s: &str| if self.path.is_empty() { s.to_string() } else { format!("{}/{}", self.path, s) };
        at(["arr", "grp", "grp/b", "imp", "imp/c", "", "none", "arr/none/x", "grp/none"][i as usize % 9]).trim_end_matches('/').to_string()
    }
    pub(super) fn is_array(i: u8) -> bool {
        matches!(i % 9, 0 | 2 | 4)
    }
    pub(super) fn key(&self, i: u8, m: &ArrayMetadata) -> String {
        match i % 10 {
            0 => format!("meta/root/{}.array.json", self.node(0)),
            1 => format!("meta/root/{}.group.json", self.node(1)),
            2 => format!("meta/root/{}.array.json", self.node(6)),
            3 => format!("data/root/{}", self.node(0)),
            // A key of a directory's name, below a key.
            4 => format!("{}/x", get_chunk_key(&self.node(0), m, &[0, 0])),
            i => get_chunk_key(&self.node(0), m, &Self::pos(i - 5)),
        }
    }
    fn prefix(&self, i: u8) -> String {
        match i % 10 {
            9 => String::new(),
            8 => "/".into(),
            7 => "data/".into(),
            i => format!("{}/root/{}/", if i & 1 == 0 { "meta" } else { "data" }, self.node([0, 1, 3, 6][i as usize / 2])),
        }
    }
    pub(super) fn create(&self, dir: &Path) -> R {
        let io = |w: &str| { let w = format!("preparing: {}", w); move |e: Error| format!("{}: {}", w, e) };
        let h = FilesystemHierarchy::open_or_create(dir).map_err(io("open_or_create"))?;
        let m = self.meta().build();
        for (a, which) in [0u8, 2, 4].into_iter().enumerate() {
            h.create_array(&self.node(which), &m).map_err(io("create_array"))?;
            for i in 0..6u8 {
                if (a == 0 && self.stored >> i & 1 == 1) || (a > 0 && i == a as u8) {
                    write_chunk(&h, self.dt.k(), &self.node(which), &m, &Self::pos(i), &self.vals(i as usize, false)).map_err(io("write_chunk"))?;
                }
            }
        }
        h.create_group(&self.node(1)).map_err(io("create_group"))?;
        h.set_attributes(&self.node(1), self.attrs.clone()).map_err(io("set_attributes"))?;
        h.set_attribute(&self.node(0), "k".into(), self.n).map_err(io("set_attribute"))
    }
}

/// One operation.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub(super) enum Act {
    Exists(u8),
    ArrayExists(u8),
    Meta(u8),
    Attrs(u8),
    OldAttrs(u8),
    Nodes(u8),
    List,
    ListPrefix(u8),
    ListDir(u8),
    Get(u8),
    HasKey(u8),
    HasPrefix(u8),
    Read(u8),
    ReadInto(u8),
    ReadRegion(u8, u8),
    Open,
    OpenOrCreate,
    Write(u8),
    /// The chunk's present value.
    WriteSame(u8),
    WriteRegion(u8, u8),
    Delete(u8),
    Group(u8),
    Array(u8),
    SetAttr(u8),
    SetAttrs(u8),
    Remove(u8),
    RemoveAll,
    Create,
    Set(u8),
    Erase(u8),
    ErasePrefix(u8),
}

fn act_reads() -> impl Strategy<Value = Act> {
    let a = || any::<u8>();
    prop_oneof![
        (0u8..9).prop_map(Act::Exists), (0u8..9).prop_map(Act::ArrayExists), (0u8..9).prop_map(Act::Meta),
        (0u8..9).prop_map(Act::Attrs), (0u8..9).prop_map(Act::OldAttrs), (0u8..9).prop_map(Act::Nodes),
        Just(Act::List), (0u8..10).prop_map(Act::ListPrefix), (0u8..10).prop_map(Act::ListDir),
        (0u8..10).prop_map(Act::Get), (0u8..10).prop_map(Act::HasKey), (0u8..10).prop_map(Act::HasPrefix),
        (0u8..6).prop_map(Act::Read), (0u8..6).prop_map(Act::ReadInto), (a(), a()).prop_map(|(x, y)| Act::ReadRegion(x, y)),
        Just(Act::Open), Just(Act::OpenOrCreate),
    ]
}

fn act_changes() -> impl Strategy<Value = Act> {
    let a = || any::<u8>();
    prop_oneof![
        (0u8..6).prop_map(Act::Write), (0u8..6).prop_map(Act::WriteSame), (a(), a()).prop_map(|(x, y)| Act::WriteRegion(x, y)),
        (0u8..6).prop_map(Act::Delete), (0u8..9).prop_map(Act::Group), (0u8..9).prop_map(Act::Array),
        (0u8..9).prop_map(Act::SetAttr), (0u8..9).prop_map(Act::SetAttrs), (0u8..9).prop_map(Act::Remove),
        Just(Act::RemoveAll), Just(Act::Create), (0u8..10).prop_map(Act::Set), (0u8..10).prop_map(Act::Erase),
        (0u8..8).prop_map(Act::ErasePrefix),
    ]
}

pub(super) fn act() -> impl Strategy<Value = Act> {
    prop_oneof![act_reads(), act_changes()]
}

impl Act {
    pub(super) fn label(&self) -> &'static str {
        use Act::*;
        match self {
            Exists(_) | ArrayExists(_) | HasKey(_) | HasPrefix(_) => "op exists",
            Meta(_) | Attrs(_) | OldAttrs(_) => "op read document",
            Nodes(_) | List | ListPrefix(_) | ListDir(_) => "op list",
            Get(_) | Read(_) | ReadInto(_) => "op read chunk",
            ReadRegion(..) => "op read region",
            Open | OpenOrCreate => "op open",
            Write(_) | WriteSame(_) | Set(_) => "op write chunk",
            WriteRegion(..) => "op write region",
            Group(_) | Array(_) => "op create node",
            Create => "op create hierarchy",
            SetAttr(_) | SetAttrs(_) => "op set attributes",
            Delete(_) | Erase(_) => "op erase key",
            Remove(_) | RemoveAll | ErasePrefix(_) => "op remove",
        }
    }
    /// Does repeating the operation end the same way?
    fn again(&self) -> bool {
        use Act::*;
        !matches!(self, WriteRegion(..) | Group(_) | Array(_) | SetAttr(_) | SetAttrs(_) | Create)
    }
    pub(super) fn reads(&self) -> bool {
        use Act::*;
        matches!(self, Exists(_) | ArrayExists(_) | Meta(_) | Attrs(_) | OldAttrs(_) | Nodes(_) | List | ListPrefix(_) | ListDir(_) | Get(_) | HasKey(_) | HasPrefix(_) | Read(_) | ReadInto(_) | ReadRegion(..) | Open | OpenOrCreate)
    }
}

/// Offset and shape of a region of the array.
pub(super) fn region(m: &Meta, x: u8, y: u8) -> (Vec<u64>, Vec<u64>) {
    let mut r = Sm((x as u64) << 8 | y as u64);
    let mut off = vec![];
    let mut shape = vec![];
    for (&s, &c) in m.shape.iter().zip(&m.chunk) {
        if r.below(3) == 0 {
            // Whole chunks.
            let lo = r.below(div_ceil(s, c as u64)) * c as u64;
            off.push(lo);
            shape.push((s - lo).min(c as u64 * (1 + r.below(2))));
        } else {
            let lo = r.below(s);
            off.push(lo);
            shape.push(1 + r.below(s - lo));
        }
    }
    (off, shape)
}

#[derive(Clone, Debug, PartialEq)]
pub(super) struct Res {
    pub(super) ok: bool,
    pub(super) kind: Option<ErrorKind>,
    pub(super) what: String,
}

fn res<X: Debug>(r: std::io::Result<X>) -> Res {
    match r {
        Ok(x) => Res { ok: true, kind: None, what: format!("{:?}", x) },
        Err(e) => Res { ok: false, kind: Some(e.kind()), what: e.to_string() },
    }
}

fn sorted<X: Ord>(mut v: Vec<X>) -> Vec<X> {
    v.sort();
    v
}

/// Runs the operation on the hierarchy in `dir`, opened before as `h`.
pub(super) fn run(s: &Site, a: &Act, m: &ArrayMetadata, h: &FilesystemHierarchy, dir: &Path) -> Res {
    let k = s.dt.k();
    let p = s.node(0);
    match a {
        Act::Exists(i) => res(HierarchyReader::exists(h, &s.node(*i))),
        Act::ArrayExists(i) => res(h.array_exists(&s.node(*i))),
        Act::Meta(i) => res(h.get_array_metadata(&s.node(*i)).map(|m| serde_json::to_value(&m).unwrap())),
        Act::Attrs(i) => res(h.list_attributes(&s.node(*i))),
        Act::OldAttrs(i) => res(h.get_attributes(&if Site::is_array(*i) { h.array_metadata_key(&s.node(*i)) } else { h.group_metadata_key(&s.node(*i)) }.to_str().unwrap())),
        Act::Nodes(i) => res(h.list_nodes(&s.node(*i)).map(sorted)),
        Act::List => res(h.list().map(sorted)),
        Act::ListPrefix(i) => res(h.list_prefix(&s.prefix(*i)).map(sorted)),
        Act::ListDir(i) => res(h.list_dir(&s.prefix(*i)).map(|(a, b)| (sorted(a), sorted(b)))),
        Act::Get(i) => res(h.get(&s.key(*i, m)).and_then(|r| r.map(|mut r| { let mut v = vec![]; r.read_to_end(&mut v).map(|_| v) }).transpose())),
        Act::HasKey(i) => res(ReadableStore::exists(h, &s.key(*i, m))),
        Act::HasPrefix(i) => res(h.exists_prefix(&s.prefix(*i))),
        Act::Read(i) => res(read_chunk(h, k, &p, m, &Site::pos(*i))),
        Act::ReadInto(i) => res(read_chunk_into(h, k, &p, m, &Site::pos(*i), *i as usize * 3)),
        Act::ReadRegion(x, y) => {
            let (off, shape) = region(&s.meta(), *x, *y);
            res(read_region(h, k, &p, m, &off, &shape))
        }
        Act::Open => res(FilesystemHierarchy::open(dir).map(|h| serde_json::to_value(h.get_entry_point_metadata()).unwrap())),
        Act::OpenOrCreate => res(FilesystemHierarchy::open_or_create(dir).map(|h| serde_json::to_value(h.get_entry_point_metadata()).unwrap())),
        Act::Write(i) | Act::WriteSame(i) => res(write_chunk(h, k, &p, m, &Site::pos(*i), &s.vals(*i as usize % 6, matches!(a, Act::Write(_))))),
        Act::WriteRegion(x, y) => {
            let (off, shape) = region(&s.meta(), *x, *y);
            let n = shape.iter().product::<u64>() as usize;
            let mut d = s.data;
            d.seed ^= 0x5a5a_1234;
            res(write_region(h, k, &p, m, &off, &shape, Layout { kind: *x, seed: 0 }, &d.expand(n, s.dt)))
        }
        Act::Delete(i) => res(h.delete_chunk(&p, m, &Site::pos(*i))),
        Act::Group(i) => res(h.create_group(&s.node(*i))),
        Act::Array(i) => res(h.create_array(&s.node(*i), m)),
        Act::SetAttr(i) => res(h.set_attribute(&s.node(*i), "new".into(), s.n)),
        Act::SetAttrs(i) => {
            let mut v = s.attrs.clone();
            v.insert("more".into(), json!(["x".repeat(s.n as usize), {"k": 1}]));
            res(h.set_attributes(&s.node(*i), v))
        }
        Act::Remove(i) => res(h.remove(&s.node(*i))),
        Act::RemoveAll => res(h.remove_all()),
        Act::Create => res(FilesystemHierarchy::open_or_create(dir.join("sub/new")).map(|h| serde_json::to_value(h.get_entry_point_metadata()).unwrap())),
        Act::Set(i) => res(h.set(&s.key(*i, m), |mut w| { w.write_all(&vec![7; 3 * s.n as usize])?; w.flush() })),
        Act::Erase(i) => res(h.erase(&s.key(*i, m))),
        Act::ErasePrefix(i) => res(h.erase_prefix(&s.prefix(*i))),
    }
}

/// Makes the files and directories below a directory those given by a snapshot.
pub(super) fn restore(dir: &Path, want: &Files) -> R {
    let io = |k: &str| { let k = k.to_string(); move |e: Error| format!("restoring {}: {}", k, e) };
    let have = snap(dir);
    for k in have.keys().rev().filter(|k| !want.contains_key(*k)) {
        if k.ends_with('/') { std::fs::remove_dir(dir.join(k)) } else { std::fs::remove_file(dir.join(k)) }.map_err(io(k))?;
    }
    for (k, v) in want.iter().filter(|(k, v)| have.get(*k) != Some(*v)) {
        if k.ends_with('/') { std::fs::create_dir(dir.join(k)) } else { std::fs::write(dir.join(k), v) }.map_err(io(k))?;
    }
    Ok(())
}

/// How stored values differ. A chunk's encoder may divide its output as it is
/// taken (gzip without compression does), so chunks may differ in encoding.
fn differs(s: &Site, m: &ArrayMetadata, want: &Files, now: &Files) -> Option<String> {
    let same = |k: &String| match (want.get(k), now.get(k)) {
        (Some(a), Some(b)) if a != b && k.contains("data/root/") && s.comp.c() == 1 => {
            let f = |b: &[u8]| no_panic(|| dec(b, s.dt.k(), m, &[0, 0]).ok()).ok().flatten();
            f(a).is_some() && f(a) == f(b)
        }
        _ => false,
    };
    if want == now {
        return None;
    }
    let mut a = want.clone();
    a.retain(|k, _| !same(k));
    let mut b = now.clone();
    b.retain(|k, _| !same(k));
    diff(&a, &b)
}

/// Is what an operation that reported failure left of a value acceptable?
fn leftover(key: &str, now: Option<&Vec<u8>>, old: Option<&Vec<u8>>, new: Option<&Vec<u8>>, s: &Site, m: &ArrayMetadata) -> bool {
    if now == old || now == new {
        return true;
    }
    match (now, new) {
        (Some(now), Some(new)) => {
            new.starts_with(now) || {
                // Not a readable chunk.
                key.starts_with("data/") && no_panic(|| dec(&now[..], s.dt.k(), m, &[0, 0])).map_or(false, |r| r.is_err())
            }
        }
        _ => false,
    }
}

const ERRNO: [(i32, &str); 7] = [
    (libc::EIO, "EIO"), (libc::EACCES, "EACCES"), (libc::ENOSPC, "ENOSPC"), (libc::EMFILE, "EMFILE"), (libc::ENOMEM, "ENOMEM"), (libc::EINTR, "EINTR"), (libc::ESTALE, "ESTALE"),
];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FaultCase {
    site: Site,
    act: Act,
    errno: u8,
    /// From then on, all calls fail.
    on: bool,
    /// Reads and writes are short (0: not).
    short: u8,
}

fn fault_case() -> impl Strategy<Value = FaultCase> {
    (site(), act(), 0u8..7, any::<bool>(), prop_oneof![Just(0u8), 1u8..20])
        .prop_map(|(site, act, errno, on, short)| FaultCase { site, act, errno, on, short })
}

fn c35_calls(c: &FaultCase, cx: &mut Cx) -> R {
    let s = &c.site;
    let base = cx.dir().join("d");
    let dir = base.join("h");
    s.create(&dir)?;
    let m = s.meta().build();
    let h = FilesystemHierarchy::open(&dir).map_err(|e| e.to_string())?;
    let tree = snap(&base);
    let pre = files(&tree);
    let errno = ERRNO[c.errno as usize % 7];
    // An interrupted call may be repeated, so not for ever.
    let on = c.on && errno.0 != libc::EINTR;
    cx.label(c.act.label());
    cx.label(errno.1);
    cx.label_if(on, "all later calls fail");

    // Without faults.
    let count = FaultPlan { errno: errno.0, ..Default::default() };
    let (r0, plan) = with_faults(count.clone(), || no_panic(|| run(s, &c.act, &m, &h, &dir)));
    let r0 = r0.map_err(|p| format!("{:?} panics: {}", c.act, p))?;
    let s0 = snap_files(&base);
    let calls = plan.calls;
    cx.label_if(!r0.ok, "refused");
    ensure!(!c.act.reads() && r0.ok || s0 == pre, "{:?}: {}: {}", c.act, short(&r0), diff(&pre, &s0).unwrap_or_default());
    restore(&base, &tree)?;
    cx.nontrivial = !calls.is_empty();

    let unlocked = |what: &str| -> R {
        for k in snap_files(&base).keys() {
            let free = lockable(&base.join(k), true).map_err(|e| format!("{}: probing {}: {}", what, k, e))?;
            ensure!(free, "{}: a lock of {:?} is still held after the operation", what, k);
        }
        Ok(())
    };

    if c.short > 0 {
        cx.label("short reads and writes");
        let what = format!("{:?} with reads and writes of at most {} bytes", c.act, c.short);
        let (r, _) = with_faults(FaultPlan { short: c.short as usize, ..count.clone() }, || no_panic(|| run(s, &c.act, &m, &h, &dir)));
        let r = r.map_err(|p| format!("{} panics: {}", what, p))?;
        let now = snap_files(&base);
        ensure_eq!(r, r0, "{}", what);
        if let Some(d) = differs(s, &m, &s0, &now) {
            return Err(format!("{}: differs from what it does otherwise: {}", what, d));
        }
        restore(&base, &tree)?;
    }

    // All calls of short operations, or a sample.
    let all = calls.len() <= 40;
    cx.label_if(!all, "calls sampled");
    let mut rng = Sm(s.data.seed as u64);
    let at: Vec<usize> = (0..calls.len()).filter(|&i| all || i < 4 || i + 4 > calls.len() || rng.below(calls.len() as u64) < 30).collect();
    for at in at {
        let what = format!("{:?}, where {} (call {} of {}) fails with {}{}", c.act, calls[at], at, calls.len(), errno.1, if on { ", as do all later calls" } else { "" });
        let (r, plan) = with_faults(FaultPlan { at: Some(at), on, short: 0, ..count.clone() }, || no_panic(|| run(s, &c.act, &m, &h, &dir)));
        let r = r.map_err(|p| format!("{}: panics: {}", what, p))?;
        ensure!(plan.hit, "{}: the calls vary: {:?}", what, plan.calls);
        let now = snap_files(&base);
        if r.ok {
            cx.label("failure tolerated");
            ensure!(r0.ok, "{}: reports success ({}) for what fails otherwise: {}", what, short(&r.what), r0.what);
            ensure_eq!(r.what, r0.what, "{}: reports success", what);
            if let Some(d) = differs(s, &m, &s0, &now) {
                return Err(format!("{}: reports success, but what is stored differs from what it does otherwise: {}", what, d));
            }
        } else {
            cx.label("failure reported");
            ensure!(r.kind != Some(ErrorKind::NotFound) || r0.kind == Some(ErrorKind::NotFound), "{}: reports that something is missing: {}", what, r.what);
            for k in pre.keys().chain(s0.keys()).chain(now.keys()) {
                let (now, old, new) = (now.get(k), pre.get(k), s0.get(k));
                let touch = old != new || matches!(&c.act, Act::Write(_) | Act::WriteSame(_) | Act::WriteRegion(..) | Act::Set(_)) && new.is_some() && may_touch(s, &c.act, k, &m);
                if now != old && !touch {
                    return Err(format!("{}: reports an error ({}), and changed {:?} ({} bytes), which it has nothing to do with", what, r.what, k, now.map_or(0, |v| v.len())));
                }
                ensure!(leftover(&k["h/".len()..], now, old, new, s, &m), "{}: reports an error ({}), and leaves {:?} as {}", what, r.what, k, short(&now));
            }
        }
        unlocked(&what)?;
        if c.act.again() {
            let again = no_panic(|| run(s, &c.act, &m, &h, &dir)).map_err(|p| format!("{}: then again without failure: panics: {}", what, p))?;
            let after = snap_files(&base);
            ensure_eq!(again, r0, "{}: then again without failure", what);
            if let Some(d) = differs(s, &m, &s0, &after) {
                return Err(format!("{}: then again without failure: what is stored differs: {}", what, d));
            }
            restore(&base, &tree)?;
        } else {
            restore(&base, &tree)?;
        }
    }
    Ok(())
}

/// Is the file one that the writing operation is asked to write, though its
/// value may stay the same?
pub(super) fn may_touch(s: &Site, act: &Act, key: &str, m: &ArrayMetadata) -> bool {
    let is = |k: String| format!("h/{}", k.trim_start_matches('/')) == key;
    match act {
        Act::Write(i) | Act::WriteSame(i) => is(get_chunk_key(&s.node(0), m, &Site::pos(*i))),
        Act::Set(i) => is(s.key(*i, m)),
        Act::WriteRegion(x, y) => {
            let mm = s.meta();
            let (off, shape) = region(&mm, *x, *y);
            (0..6u8).any(|i| {
                let pos = Site::pos(i);
                is(get_chunk_key(&s.node(0), m, &pos)) && (0..2).all(|j| pos[j] * (mm.chunk[j] as u64) < off[j] + shape[j] && off[j] < (pos[j] + 1) * mm.chunk[j] as u64)
            })
        }
        _ => false,
    }
}

pub fn c35() -> Vec<Sub> {
    vec![sub("calls", Cases(12_000, 300_000), fault_case, c35_calls)]
}

// ---------------------------------------------------------------- ends of the process

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CrashCase {
    site: Site,
    act: Act,
    cut: u32,
}

fn crash_case() -> impl Strategy<Value = CrashCase> {
    (site(), act_changes(), any::<u32>()).prop_map(|(site, act, cut)| CrashCase { site, act, cut })
}

/// What a hierarchy answers: (question, node or chunk, answer).
fn answers(s: &Site, m: &ArrayMetadata, dir: &Path) -> Result<Vec<(Act, Res)>, String> {
    let h = no_panic(|| FilesystemHierarchy::open(dir)).map_err(|p| format!("open panics: {}", p))?.map_err(|e| format!("open: {}", e))?;
    let mut asked = vec![Act::Open];
    for i in 0..9 {
        asked.extend([Act::Exists(i), Act::ArrayExists(i), Act::Meta(i), Act::Attrs(i), Act::Nodes(i)]);
    }
    for i in 0..6 {
        asked.push(Act::Read(i));
    }
    asked.into_iter().map(|a| {
        let r = no_panic(|| run(s, &a, m, &h, dir)).map_err(|p| format!("{:?}: panics: {}", a, p))?;
        Ok((a, r))
    }).collect()
}

/// The names of a listing that succeeded.
fn names(r: &Res) -> Option<Vec<String>> {
    if r.ok { serde_json::from_str(&r.what).ok() } else { None }
}

fn c40_crash(c: &CrashCase, cx: &mut Cx) -> R {
    let s = &c.site;
    let base = cx.dir().join("d");
    let dir = base.join("h");
    s.create(&dir)?;
    let m = s.meta().build();
    let h = FilesystemHierarchy::open(&dir).map_err(|e| e.to_string())?;
    let tree = snap(&base);
    let pre = files(&tree);
    cx.label(c.act.label());
    let before = answers(s, &m, &dir)?;

    // What is stored between any two system calls.
    let mut states: Vec<(String, Files)> = vec![];
    let mut dirty = false;
    let mut calls = 0;
    let mut last = tree.clone();
    let r0 = with_each(|name| {
        if dirty {
            let now = snap(&base);
            if now != last {
                last = now.clone();
                states.push((format!("before call {} ({})", calls, name), now));
            }
        }
        calls += 1;
        dirty = matches!(name, "open" | "unlink" | "rmdir" | "mkdir" | "rename" | "ftruncate" | "write");
    }, || no_panic(|| run(s, &c.act, &m, &h, &dir)));
    let r0 = r0.map_err(|p| format!("{:?} panics: {}", c.act, p))?;
    let end = snap(&base);
    let s0 = files(&end);
    let after = answers(s, &m, &dir)?;
    cx.label_if(!r0.ok, "refused");
    // A long write may end between pages.
    let mut torn = vec![];
    let mut prev = &tree;
    for (at, st) in states.iter().map(|(a, s)| (a.as_str(), s)).chain([("the end", &end)]) {
        for (k, v) in st.iter().filter(|(k, v)| v.len() > 4096 && prev.get(*k).map_or(true, |p| v.starts_with(p) && p.len() + 4096 < v.len())) {
            let p = prev.get(k).map_or(0, |p| p.len());
            let pages = (v.len() - p - 1) / 4096;
            let n = p + 4096 * (1 + c.cut as usize % pages);
            let mut t = st.clone();
            t.insert(k.clone(), v[..n].to_vec());
            torn.push((format!("{}, {} cut after {} bytes", at, k, n), t));
        }
        prev = st;
    }
    cx.label_if(!torn.is_empty(), "between pages");
    // All, or a sample.
    let mut rng = Sm(c.cut as u64);
    let n = states.len() as u64;
    let mut states: Vec<_> = states.into_iter().enumerate().filter(|(i, _)| n <= 24 || *i < 3 || *i as u64 + 3 > n || rng.below(n) < 16).map(|(_, s)| s).collect();
    states.extend(torn);
    cx.nontrivial = !states.is_empty();

    for (at, state) in &states {
        let what = format!("{:?}, where the process ends {}", c.act, at);
        restore(&base, state)?;
        let now = files(state);
        let mut incomplete = vec![];
        for k in pre.keys().chain(s0.keys()).chain(now.keys()) {
            let (n, old, new) = (now.get(k), pre.get(k), s0.get(k));
            let touch = old != new || r0.ok && new.is_some() && may_touch(s, &c.act, k, &m);
            ensure!(n == old || touch, "{}: {:?} is changed ({}), which it has nothing to do with", what, k, short(&n));
            let rel = k.strip_prefix("h/").unwrap_or(k);
            ensure!(leftover(rel, n, old, new, s, &m), "{}: {:?} is left as {}", what, k, short(&n));
            if n != old && n != new && !incomplete.contains(k) {
                incomplete.push(k.clone());
            }
        }
        cx.label_if(!incomplete.is_empty(), "a value is incomplete");
        // What other processes see.
        let seen = answers(s, &m, &dir).map_err(|e| format!("{}: then {}", what, e))?;
        for (((a, r), (_, old)), (_, new)) in seen.iter().zip(&before).zip(&after) {
            let same = |x: &Res| r.ok == x.ok && (!r.ok || r.what == x.what);
            let ok = same(old) || same(new) || !incomplete.is_empty() && (!r.ok || matches!(a, Act::ArrayExists(_)) && r.what == "false") || match a {
                // Between what was and what is to be.
                Act::Nodes(_) => match (names(r), names(old), names(new)) {
                    (Some(r), Some(old), Some(new)) => r.iter().all(|n| old.contains(n) || new.contains(n)) && old.iter().all(|n| !new.contains(n) || r.contains(n)),
                    _ => false,
                },
                _ => false,
            };
            ensure!(ok, "{}: then {:?} answers {}; before the operation {}, and after it {}", what, a, short(&r.what), short(&old.what), short(&new.what));
        }
        // The operation again, by another process.
        let h = FilesystemHierarchy::open(&dir).map_err(|e| format!("{}: then open: {}", what, e))?;
        let go = |a: &Act| no_panic(|| run(s, a, &m, &h, &dir)).map_err(|p| format!("{}: then {:?} panics: {}", what, a, p));
        let documents = matches!(c.act, Act::Group(_) | Act::Array(_) | Act::SetAttr(_) | Act::SetAttrs(_));
        let node = match c.act {
            Act::Group(i) | Act::Array(i) | Act::SetAttr(i) | Act::SetAttrs(i) => i,
            _ => 0,
        };
        if documents && !incomplete.is_empty() {
            // Removed and created, it can be used.
            cx.label("node created again");
            let r = go(&Act::Remove(node))?;
            ensure!(r.ok, "{}: then removing the node: {}", what, r.what);
            let array = matches!(c.act, Act::Array(_)) || !matches!(c.act, Act::Group(_)) && Site::is_array(node);
            for a in [if array { Act::Array(node) } else { Act::Group(node) }, Act::SetAttr(node), Act::Attrs(node)] {
                let r = go(&a)?;
                ensure!(r.ok, "{}: then, after the node's removal, {:?}: {}", what, a, r.what);
            }
            continue;
        }
        if matches!(c.act, Act::Array(_)) && now == s0 {
            continue;
        }
        let pieces = matches!(c.act, Act::WriteRegion(..)) && !incomplete.is_empty();
        if pieces {
            // Chunks that are written in part are read first.
            for k in &incomplete {
                let r = h.erase(k.strip_prefix("h").unwrap_or(k));
                ensure!(matches!(r, Ok(true)), "{}: then deleting {:?}: {:?}", what, k, r);
            }
        }
        let r = go(&c.act)?;
        ensure_eq!(r, r0, "{}: then again", what);
        if pieces {
            if let Act::WriteRegion(x, y) = c.act {
                let r = go(&Act::ReadRegion(x, y))?;
                restore(&base, &end)?;
                let want = go(&Act::ReadRegion(x, y))?;
                ensure_eq!(r, want, "{}: then again, and the region read", what);
            }
        } else if let Some(d) = differs(s, &m, &s0, &snap_files(&base)) {
            return Err(format!("{}: then again: what is stored differs: {}", what, d));
        }
    }
    Ok(())
}

pub fn c40() -> Vec<Sub> {
    vec![sub("crash", Cases(10_000, 250_000), crash_case, c40_crash)]
}

// ---------------------------------------------------------------- permissions

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RoCase {
    site: Site,
    acts: Vec<Act>,
}

fn ro_case() -> impl Strategy<Value = RoCase> {
    (site(), prop::collection::vec(act(), 1..12)).prop_map(|(site, acts)| RoCase { site, acts })
}

/// Sets the permissions of everything below (and including) a directory.
fn chmod(dir: &Path, file: u32, d: u32) -> std::io::Result<()> {
    std::fs::set_permissions(dir, PermissionsExt::from_mode(0o755))?;
    for e in std::fs::read_dir(dir)? {
        let e = e?;
        if e.file_type()?.is_dir() {
            chmod(&e.path(), file, d)?;
        } else {
            std::fs::set_permissions(e.path(), PermissionsExt::from_mode(file))?;
        }
    }
    std::fs::set_permissions(dir, PermissionsExt::from_mode(d))
}

struct Restore<'a>(&'a Path);
impl Drop for Restore<'_> {
    fn drop(&mut self) {
        let _ = chmod(self.0, 0o644, 0o755);
    }
}

fn c36_readonly(c: &RoCase, cx: &mut Cx) -> R {
    let s = &c.site;
    let base = cx.dir().join("d");
    let dir = base.join("h");
    s.create(&dir)?;
    let m = s.meta().build();
    let io = |e: Error| e.to_string();
    let pre = snap(&base);
    // What is answered with permission.
    let mut want = vec![];
    {
        let h = FilesystemHierarchy::open(&dir).map_err(io)?;
        for a in &c.acts {
            let r = no_panic(|| run(s, a, &m, &h, &dir)).map_err(|p| format!("{:?} panics: {}", a, p))?;
            let now = snap(&base);
            let changes = now != pre;
            restore(&base, &pre)?;
            want.push((r, changes));
        }
    }
    let guard = Restore(&base);
    chmod(&base, 0o444, 0o555).map_err(io)?;
    ensure!(std::fs::write(dir.join("probe"), b"").is_err(), "the harness has permission to write everything");
    let h = FilesystemHierarchy::open(&dir).map_err(|e| format!("open without write permission: {}", e))?;
    for (a, (want, changes)) in c.acts.iter().zip(&want) {
        let what = format!("{:?} without write permission", a);
        let r = no_panic(|| run(s, a, &m, &h, &dir)).map_err(|p| format!("{} panics: {}", what, p))?;
        if a.reads() {
            cx.nontrivial();
            ensure_eq!(&r, want, "{}", what);
        } else if want.ok && *changes {
            cx.nontrivial();
            cx.label("change refused");
            ensure!(!r.ok, "{}: reports success ({}), but can not have changed anything", what, r.what);
        } else if !want.ok {
            ensure!(!r.ok, "{}: reports success ({}) for what fails with permission: {}", what, r.what, want.what);
        }
        cx.label(a.label());
        if let Some(d) = diff(&pre, &snap(&base)) {
            return Err(format!("{}: {}", what, d));
        }
    }
    drop(guard);
    Ok(())
}

pub(super) fn files(s: &Files) -> Files {
    s.iter().filter(|(k, _)| !k.ends_with('/')).map(|(k, v)| (k.clone(), v.clone())).collect()
}

pub fn c36() -> Vec<Sub> {
    vec![sub("readonly", Cases(12_000, 200_000), ro_case, c36_readonly)]
}
