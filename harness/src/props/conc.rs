//! Locking (C25), concurrent chunk access (C26) and concurrent removal (C33) on
//! the filesystem store.

use crate::fw::*;
use crate::gen::*;
use crate::io::*;
use crate::sys::*;
use crate::{dispatch, ensure, ensure_eq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{Error, ErrorKind, Read, Seek, SeekFrom, Write};
use std::os::unix::fs::MetadataExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Barrier};
use std::time::{Duration, Instant};
use zarr::chunk::{ReadableDataChunk, ReinitDataChunk, WriteableDataChunk};
use zarr::prelude::*;
use zarr::storage::{ListableStore, ReadableStore, WriteableStore};

/// An operation that only waits for a lock which is then released must end.
const PATIENCE: Duration = Duration::from_secs(40);

/// The node, its array (two chunks) and the values a locking case deals with.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Target {
    path: String,
    dt: Dt,
    comp: Comp,
    /// Elements per chunk.
    n: u16,
    v1: Data,
    v2: Data,
    v3: Data,
    /// 0 chunk, 1 array document, 2 group document.
    kind: u8,
}

fn target() -> impl Strategy<Value = Target> {
    let n = prop_oneof![3 => 1u16..40, 1 => 4000u16..6000];
    (path(2), dt(), comp_cheap(), n, (data(), data(), data()), 0u8..4)
        .prop_map(|(path, dt, comp, n, (v1, v2, v3), kind)| Target { path, dt, comp, n, v1, v2, v3, kind: [0, 0, 1, 2][kind as usize] })
}

impl Target {
    fn meta(&self) -> Meta {
        let mut m = Meta::simple(vec![2 * self.n as u64], vec![self.n as u32], self.dt);
        m.comp = self.comp.clone();
        m
    }
    fn vals(&self, d: Data) -> Vec<u64> {
        d.expand(self.n as usize, self.dt)
    }
    fn key(&self) -> String {
        let sep = if self.path.is_empty() { "" } else { "/" };
        match self.kind {
            0 => format!("data/root{}{}/c0", sep, self.path),
            1 => format!("meta/root{}{}.array.json", sep, self.path),
            _ => format!("meta/root{}{}.group.json", sep, self.path),
        }
    }
    /// The bytes of a value in the store.
    fn bytes(&self, d: Data) -> Vec<u8> {
        let mut out = vec![];
        match self.kind {
            0 => enc(&mut out, self.dt.k(), &self.meta().build(), &[0], &self.vals(d)).expect("encoding"),
            1 => {
                let mut v = self.meta().json();
                v["attributes"] = self.attrs(d);
                v["shape"] = json!([self.n as u64 + d.seed as u64 % 7]);
                out = v.to_string().into_bytes();
            }
            _ => out = json!({"extensions": [], "attributes": self.attrs(d)}).to_string().into_bytes(),
        }
        out
    }
    fn attrs(&self, d: Data) -> Value {
        json!({"id": d.seed, "pad": "x".repeat(if self.n > 1000 { 5000 + d.seed as usize % 5000 } else { d.seed as usize % 50 })})
    }
    /// Creates the hierarchy with the target holding v1. Returns its file.
    fn create(&self, dir: &Path) -> Result<(FilesystemHierarchy, PathBuf), String> {
        let h = FilesystemHierarchy::open_or_create(dir).map_err(|e| e.to_string())?;
        if self.kind == 2 {
            h.create_group(&self.path)
        } else {
            h.create_array(&self.path, &self.meta().build())
        }.map_err(|e| format!("creating the node: {}", e))?;
        if self.kind == 0 {
            for i in 0..2 {
                write_chunk(&h, self.dt.k(), &self.path, &self.meta().build(), &[i], &self.vals(self.v1)).map_err(|e| format!("writing a chunk: {}", e))?;
            }
        }
        let file = dir.join(self.key());
        if self.kind > 0 {
            std::fs::write(&file, self.bytes(self.v1)).map_err(|e| format!("{:?}: {}", file, e))?;
        }
        ensure!(file.is_file(), "the value is not stored at {:?}", file);
        Ok((h, file))
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Out {
    Elems(Vec<u64>),
    Json(Value),
    Bytes(Vec<u8>),
    Missing,
    Done,
}

const OPS: [&str; 15] = [
    "read_chunk", "read_chunk_into", "read_ndarray", "get", "get_array_metadata", "list_attributes", "get_attributes",
    "write_chunk", "write_ndarray", "set", "set_attribute", "delete_chunk", "erase", "erase_prefix", "remove",
];

fn ops_of(kind: u8) -> &'static [u8] {
    match kind {
        0 => &[0, 1, 2, 3, 7, 8, 9, 11, 12, 13, 14],
        1 => &[3, 4, 5, 6, 9, 10, 12, 13, 14],
        _ => &[3, 5, 6, 9, 10, 12, 13, 14],
    }
}

fn class(op: u8) -> u8 {
    match op { 0..=6 => 0, 7..=10 => 1, _ => 2 }
}

fn run_op(h: &FilesystemHierarchy, t: &Target, op: u8, arg: u8) -> std::io::Result<Out> {
    let (m, k, p) = (t.meta().build(), t.dt.k(), t.path.as_str());
    let parent = |key: &str| -> String {
        let parts: Vec<&str> = key.split('/').collect();
        parts[..parts.len() - 1 - (arg as usize % (parts.len() - 1)).min(parts.len() - 2)].join("/") + "/"
    };
    let opt = |o: Option<(Vec<u64>, Vec<u64>)>| o.map_or(Out::Missing, |c| Out::Elems(c.1));
    Ok(match op {
        0 => opt(read_chunk(h, k, p, &m, &[0])?),
        1 => opt(read_chunk_into(h, k, p, &m, &[0], arg as usize)?),
        2 => Out::Elems(read_region(h, k, p, &m, &[0], &[t.n as u64 + (arg % 2) as u64])?.1[..t.n as usize].to_vec()),
        3 => match h.get(&t.key())? {
            None => Out::Missing,
            Some(mut r) => {
                let mut v = vec![];
                r.read_to_end(&mut v)?;
                Out::Bytes(v)
            }
        },
        4 => Out::Json(serde_json::to_value(&h.get_array_metadata(p)?)?["attributes"].clone()),
        5 => Out::Json(Value::Object(h.list_attributes(p)?)),
        6 => Out::Json(h.get_attributes(&t.key())?["attributes"].clone()),
        7 => { write_chunk(h, k, p, &m, &[0], &t.vals(t.v3))?; Out::Done }
        8 => {
            let lay = Layout { kind: arg % 5, seed: 0 };
            let d = t.vals(t.v3);
            if arg % 2 == 0 {
                write_region(h, k, p, &m, &[0], &[t.n as u64], lay, &d)?;
            } else {
                // Ends within the second chunk.
                let two: Vec<u64> = d.iter().chain(&d[..1]).cloned().collect();
                write_region(h, k, p, &m, &[0], &[t.n as u64 + 1], lay, &two)?;
            }
            Out::Done
        }
        9 => {
            let b = t.bytes(t.v3);
            h.set(&t.key(), |mut w| { w.write_all(&b)?; w.flush() })?;
            Out::Done
        }
        10 => { h.set_attribute(p, "new".into(), t.v3.seed)?; Out::Done }
        11 => { h.delete_chunk(p, &m, &[0])?; Out::Done }
        12 => { h.erase(&t.key())?; Out::Done }
        13 => { h.erase_prefix(&parent(&t.key()))?; Out::Done }
        _ => {
            let parts: Vec<&str> = p.split('/').filter(|x| !x.is_empty()).collect();
            // A metadata document directly below the root is only erased with its node.
            let n = parts.len().saturating_sub(if t.kind == 0 || parts.len() > 1 { arg as usize % 2 } else { 0 });
            h.remove(&parts[..n].join("/"))?;
            Out::Done
        }
    })
}

fn expected(t: &Target, op: u8, d: Data) -> Out {
    match op {
        0..=2 => Out::Elems(t.vals(d)),
        3 => Out::Bytes(t.bytes(d)),
        _ => Out::Json(t.attrs(d)),
    }
}

// ---------------------------------------------------------------- held

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LockCase {
    t: Target,
    op: u8,
    arg: u8,
    exclusive: bool,
    /// Replace the value while it is locked exclusively.
    replace: bool,
    reopen: bool,
}

fn held_case() -> impl Strategy<Value = LockCase> {
    (target(), any::<u8>(), any::<u8>(), prop_oneof![3 => Just(true), 2 => Just(false)], any::<bool>(), any::<bool>())
        .prop_map(|(t, op, arg, exclusive, replace, reopen)| LockCase { t, op, arg, exclusive, replace, reopen })
}

/// The value through the harness's own file, and whether it is still in its place.
fn same_file(l: &Held, file: &Path, want: &[u8]) -> R {
    let m = l.0.metadata().map_err(|e| e.to_string())?;
    match std::fs::metadata(file) {
        Ok(f) => ensure!(f.ino() == m.ino(), "the value was replaced by another file"),
        Err(e) => return Err(format!("the value was unlinked ({})", e)),
    }
    let mut got = vec![];
    let mut f = &l.0;
    f.seek(SeekFrom::Start(0)).and_then(|_| f.read_to_end(&mut got)).map_err(|e| e.to_string())?;
    ensure!(got == want, "the value was changed: {} bytes, now {} bytes", want.len(), got.len());
    Ok(())
}

fn c25_held(c: &LockCase, cx: &mut Cx) -> R {
    let t = &c.t;
    let ops = ops_of(t.kind);
    let op = ops[c.op as usize % ops.len()];
    let dir = cx.dir();
    let (h, file) = t.create(&dir)?;
    let h = if c.reopen { FilesystemHierarchy::open(&dir).map_err(|e| e.to_string())? } else { h };
    let what = format!("{} of a {} while another party holds {} lock", OPS[op as usize], ["chunk", "array document", "group document"][t.kind as usize], if c.exclusive { "an exclusive" } else { "a shared" });
    let lock = hold(&file, c.exclusive).map_err(|e| format!("the value is still locked after it was created: {}", e))?;
    let v1 = std::fs::read(&file).map_err(|e| e.to_string())?;
    let waits = Arc::new(AtomicUsize::new(0));
    let (tx, rx) = std::sync::mpsc::channel();
    let (t2, arg, w2) = (t.clone(), c.arg, waits.clone());
    let th = std::thread::spawn(move || {
        set_hook(LockHook { waits: Some(w2), ..Default::default() });
        let _ = tx.send(no_panic(|| run_op(&h, &t2, op, arg)));
    });
    let t0 = Instant::now();
    // Until it ends, waits for a lock, or does neither for long.
    let mut res = None;
    while t0.elapsed() < PATIENCE && waits.load(Ordering::SeqCst) == 0 {
        if let Ok(r) = rx.recv_timeout(Duration::from_micros(50)) {
            res = Some(r);
            break;
        }
    }
    cx.nontrivial();
    let reader = class(op) == 0;
    let mut now = v1.clone();
    let mut cur = t.v1;
    if reader && !c.exclusive {
        cx.label("reader, shared lock");
        let r = match res {
            Some(r) => r,
            None => rx.recv_timeout(Duration::from_millis(200)).map_err(|_| format!("{}: waits, although readers do not exclude one another", what))?,
        };
        let r = r.map_err(|p| format!("{}: panic: {}", what, p))?.map_err(|e| format!("{}: {}", what, e))?;
        ensure_eq!(r, expected(t, op, t.v1), "{}", what);
        same_file(&lock, &file, &v1).map_err(|e| format!("{}: {}", what, e))?;
        ensure!(!lockable(&file, true).map_err(|e| e.to_string())?, "{}: the other party's lock is gone", what);
        drop(lock);
    } else {
        cx.label(match (class(op), c.exclusive) { (0, _) => "reader, exclusive lock", (1, true) => "writer, exclusive lock", (1, false) => "writer, shared lock", (_, true) => "eraser, exclusive lock", _ => "eraser, shared lock" });
        let early = |r: &Result<std::io::Result<Out>, String>| -> R {
            match r {
                Err(p) => Err(format!("{}: panic: {}", what, p)),
                Ok(Ok(_)) if reader => Err(format!("{}: returned data", what)),
                _ => Ok(()),
            }
        };
        if let Some(r) = &res {
            early(r)?;
        }
        same_file(&lock, &file, &v1).map_err(|e| format!("{}: {}", what, e))?;
        if c.replace && c.exclusive {
            // The other party replaces the value, in pieces.
            cx.label("value replaced meanwhile");
            now = t.bytes(t.v2);
            cur = t.v2;
            let mut f = &lock.0;
            let io = |e: Error| e.to_string();
            f.set_len(0).map_err(io)?;
            f.seek(SeekFrom::Start(0)).map_err(io)?;
            f.write_all(&now[..now.len() / 2]).map_err(io)?;
            if c.arg % 4 == 0 {
                std::thread::sleep(Duration::from_millis(1));
            }
            f.write_all(&now[now.len() / 2..]).map_err(io)?;
        }
        if c.arg % 8 == 0 {
            std::thread::sleep(Duration::from_millis(1));
        }
        if res.is_none() {
            res = rx.try_recv().ok();
            if let Some(r) = &res {
                early(r)?;
            }
        }
        same_file(&lock, &file, &now).map_err(|e| format!("{}: {}", what, e))?;
        drop(lock);
        let waited = res.is_none();
        let r = match res {
            Some(r) => r,
            None => rx.recv_timeout(PATIENCE).map_err(|_| format!("{}: does not go on after the lock was released", what))?,
        };
        let r = r.map_err(|p| format!("{}: panic: {}", what, p))?;
        // An operation may give up instead of waiting.
        if !waited && r.is_err() {
            cx.label("gave up");
        } else {
            let r = r.map_err(|e| format!("{}, released: {}", what, e))?;
            if reader {
                ensure_eq!(r, expected(t, op, cur), "{}, released", what);
            } else if class(op) == 2 {
                ensure!(!file.exists(), "{}, released: the value still exists", what);
            } else if op == 10 {
                let mut want = t.attrs(cur);
                want["new"] = t.v3.seed.into();
                ensure_eq!(run_op(&FilesystemHierarchy::open(&dir).map_err(|e| e.to_string())?, t, 5, 0).map_err(|e| format!("{}, released: {}", what, e))?, Out::Json(want), "{}, released", what);
            } else if t.kind == 0 {
                let h = FilesystemHierarchy::open(&dir).map_err(|e| e.to_string())?;
                ensure_eq!(run_op(&h, t, 0, 0).map_err(|e| format!("{}, released: {}", what, e))?, Out::Elems(t.vals(t.v3)), "{}, released", what);
            } else {
                let got = std::fs::read(&file).map_err(|e| e.to_string())?;
                ensure!(got == t.bytes(t.v3), "{}, released: the value is not the one written", what);
            }
        }
    }
    th.join().map_err(|_| "thread")?;
    if file.exists() {
        ensure!(lockable(&file, true).map_err(|e| e.to_string())?, "{}: still locked after the operation ended", what);
    }
    Ok(())
}

// ---------------------------------------------------------------- use

#[derive(Clone, Debug, Serialize, Deserialize)]
struct UseCase {
    t: Target,
    op: u8,
    arg: u8,
    /// Whether the value exists before.
    fresh: bool,
    /// The operation fails midway.
    fail: bool,
}

fn use_case() -> impl Strategy<Value = UseCase> {
    (target(), 0u8..8, any::<u8>(), any::<bool>(), prop_oneof![2 => Just(false), 1 => Just(true)])
        .prop_map(|(t, op, arg, fresh, fail)| UseCase { t, op, arg, fresh, fail })
}

/// What other parties may do with the value now.
fn probe(file: &Path, writing: bool, when: &str) -> R {
    let ex = lockable(file, true).map_err(|e| format!("{}: {}", when, e))?;
    let sh = lockable(file, false).map_err(|e| format!("{}: {}", when, e))?;
    ensure!(!ex, "{}: another party can lock the value exclusively", when);
    if writing {
        ensure!(!sh, "{}: another party can read the value", when);
    } else {
        ensure!(sh, "{}: other readers are excluded", when);
    }
    Ok(())
}

/// Elements that look at the value's file while they are written or read.
///
/// Elements may be produced before the writer has its lock as long as the value
/// is still what it was, and consumed after the reader gave its lock back as
/// long as what others then write does not reach them.
struct Probing<'a, T> {
    pos: Vec<u64>,
    data: Vec<T>,
    file: &'a Path,
    /// The value before the operation.
    old: Option<Vec<u8>>,
    seen: std::cell::RefCell<Vec<R>>,
    fail: bool,
}
impl<'a, T> Probing<'a, T> {
    fn probe_write(&self, when: &str) {
        let now = std::fs::read(self.file).ok();
        if now != self.old || (now.is_some() && !matches!(lockable(self.file, true), Ok(true))) {
            self.seen.borrow_mut().push(probe(self.file, true, when));
        }
    }
}
impl<'a, T> DataChunk<T> for Probing<'a, T> {
    fn get_grid_position(&self) -> &[u64] { &self.pos }
    fn get_data(&self) -> &[T] { &self.data }
    fn get_num_elements(&self) -> u32 { self.data.len() as u32 }
}
impl<'a, T> ReinitDataChunk<T> for Probing<'a, T> where VecDataChunk<T>: ReinitDataChunk<T>, T: ReflectedType {
    fn reinitialize(&mut self, p: &GridCoord, n: u32) {
        self.pos = p.to_vec();
        self.data.resize_with(n as usize, Default::default);
    }
    fn reinitialize_with<B: DataChunk<T>>(&mut self, other: &B) {
        self.data = other.get_data().to_vec();
    }
}
impl<'a, T: ReflectedType> WriteableDataChunk for Probing<'a, T> where for<'b> SliceDataChunk<T, &'b [T]>: WriteableDataChunk {
    fn write_data<W: Write>(&self, mut w: W, m: &ArrayMetadata) -> std::io::Result<()> {
        self.probe_write("before writing elements");
        if self.fail {
            return Err(Error::new(ErrorKind::Other, "chunk fails"));
        }
        SliceDataChunk::<T, &[T]>::new(gc(&self.pos), &self.data[..]).write_data(&mut w, m)?;
        w.flush()?;
        self.probe_write("after writing elements");
        self.seen.borrow_mut().push(Ok(()));
        Ok(())
    }
}
impl<'a, T: ReflectedType> ReadableDataChunk for Probing<'a, T> where for<'b> SliceDataChunk<T, &'b mut [T]>: ReadableDataChunk {
    fn read_data<X: Read>(&mut self, mut r: X, m: &ArrayMetadata) -> std::io::Result<()> {
        let locked = !matches!(lockable(self.file, true), Ok(true));
        if locked {
            self.seen.borrow_mut().push(probe(self.file, false, "before reading elements"));
        } else {
            // Another party takes the lock and starts to write.
            let f = std::fs::OpenOptions::new().write(true).open(self.file)?;
            f.set_len(0)?;
            self.seen.borrow_mut().push(Ok(()));
        }
        if self.fail {
            return Err(Error::new(ErrorKind::Other, "chunk fails"));
        }
        let pos = gc(&self.pos);
        let r = SliceDataChunk::<T, &mut [T]>::new(pos, &mut self.data[..]).read_data(&mut r, m);
        if locked {
            self.seen.borrow_mut().push(probe(self.file, false, "after reading elements"));
        } else if r.is_err() {
            self.seen.borrow_mut().push(Err("reading elements: the lock was given back before the value was read".into()));
        }
        r
    }
}

fn c25_use(c: &UseCase, cx: &mut Cx) -> R {
    let t = &c.t;
    let dir = cx.dir();
    let (h, file) = t.create(&dir)?;
    let (m, k) = (t.meta().build(), t.dt.k());
    cx.nontrivial();
    let err = |w: &str, e: Error| format!("{}: {}", w, e);
    let free = |w: &str| -> R {
        if file.exists() {
            ensure!(lockable(&file, true).map_err(|e| err(w, e))?, "{}: still locked afterwards", w);
        }
        Ok(())
    };
    let what = match c.op {
        0 => {
            // A reader in use, and a second one.
            let get = || h.get(&t.key()).map_err(|e| err("get", e))?.ok_or_else(|| "get: missing".to_string());
            let mut r = get()?;
            probe(&file, false, "a reader from get, unread")?;
            let mut b = vec![0; (c.arg as usize).min(3)];
            r.read_exact(&mut b).map_err(|e| err("reading", e)).or_else(|e| if t.bytes(t.v1).len() < b.len() { Ok(()) } else { Err(e) })?;
            probe(&file, false, "a reader from get, partially read")?;
            let mut r2 = get()?;
            let mut all = vec![];
            r2.read_to_end(&mut all).map_err(|e| err("reading", e))?;
            probe(&file, false, "two readers from get")?;
            drop(r2);
            probe(&file, false, "one of two readers left")?;
            r.read_to_end(&mut all).map_err(|e| err("reading", e))?;
            drop(r);
            "get"
        }
        1 | 2 => {
            let b = t.bytes(t.v2);
            if c.fresh {
                h.erase(&t.key()).map_err(|e| err("erase", e))?;
                cx.label("new value");
            }
            let mut seen: Vec<R> = vec![];
            let n = b.len();
            let r = h.set(&t.key(), |mut w| {
                seen.push(probe(&file, true, "in set, before writing"));
                w.write_all(&b[..n / 2])?;
                seen.push(probe(&file, true, "in set, half written"));
                if c.fail {
                    return Err(Error::new(ErrorKind::Other, "value fails"));
                }
                w.flush()?;
                w.write_all(&b[n / 2..])?;
                w.flush()?;
                seen.push(probe(&file, true, "in set, written"));
                Ok(())
            });
            ensure!(!seen.is_empty(), "set did not write");
            seen.into_iter().collect::<R>()?;
            ensure_eq!(r.is_err(), c.fail, "set: reported error");
            if !c.fail {
                ensure!(std::fs::read(&file).map_err(|e| err("set", e))? == b, "set: the value is not the one written");
            }
            "set"
        }
        3 | 4 if t.kind == 0 => {
            if c.fresh {
                h.delete_chunk(&t.path, &m, &[0]).map_err(|e| err("delete_chunk", e))?;
                cx.label("new value");
            }
            let vals = t.vals(t.v2);
            dispatch!(k, T => {
                let old = std::fs::read(&file).ok();
                let p = Probing::<T> { pos: vec![0], data: to_v(&vals), file: &file, old, seen: Default::default(), fail: c.fail };
                let r = h.write_chunk::<T, _>(&t.path, &m, &p);
                let seen = p.seen.into_inner();
                ensure!(c.fail || !seen.is_empty(), "write_chunk did not write");
                seen.into_iter().collect::<R>()?;
                ensure_eq!(r.is_err(), c.fail, "write_chunk: reported error");
            });
            "write_chunk"
        }
        5 | 6 if t.kind == 0 => {
            dispatch!(k, T => {
                let mut p = Probing::<T> { pos: vec![9], data: vec![], file: &file, old: None, seen: Default::default(), fail: c.fail };
                let r = h.read_chunk_into::<T, _>(&t.path, &m, gc(&[0]), &mut p);
                let seen = p.seen.into_inner();
                ensure!(!seen.is_empty(), "read_chunk_into did not read");
                seen.into_iter().collect::<R>()?;
                ensure_eq!(r.is_err(), c.fail, "read_chunk_into: reported error");
            });
            "read_chunk_into"
        }
        _ => {
            // Any operation, on an intact or a damaged value.
            let ops = ops_of(t.kind);
            let op = ops[c.arg as usize % ops.len()];
            if c.fail {
                cx.label("damaged value");
                let b = t.bytes(t.v1);
                std::fs::write(&file, &b[..b.len() / 2]).map_err(|e| err("damaging", e))?;
            }
            let _ = no_panic(|| run_op(&h, t, op, c.arg)).map_err(|p| format!("{}: panic: {}", OPS[op as usize], p))?;
            OPS[op as usize]
        }
    };
    cx.label_if(c.fail, "failing operation");
    free(what)
}

// ---------------------------------------------------------------- documents under load

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Load {
    t: Target,
    writers: u8,
    readers: u8,
    rounds: u8,
    seed: u32,
}

fn load_case() -> impl Strategy<Value = Load> {
    (target(), 1u8..4, 1u8..4, 2u8..10, any::<u32>()).prop_map(|(t, writers, readers, rounds, seed)| Load { t, writers, readers, rounds, seed })
}

/// Runs a case repeatedly, with other pauses and several at once, when it is
/// replayed, since schedules vary.
pub(super) fn repeated(f: impl Fn(u64) -> R + Sync) -> R {
    if !REPLAYING.load(Ordering::Relaxed) {
        return f(0);
    }
    let next = AtomicUsize::new(0);
    let failed = AtomicBool::new(false);
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..8).map(|_| s.spawn(|| -> R {
            loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= 800 || failed.load(Ordering::SeqCst) {
                    return Ok(());
                }
                // The case as it is, every other time.
                let r = f(if i % 2 == 0 { 0 } else { i as u64 });
                if r.is_err() {
                    failed.store(true, Ordering::SeqCst);
                    return r;
                }
            }
        })).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into()))).collect()
    })
}

/// Attributes of one node are set and read at once: every document read is complete.
fn c25_load(c: &Load, cx: &mut Cx) -> R {
    let dir = cx.dir();
    cx.nontrivial();
    let mut t = c.t.clone();
    t.kind = 1 + t.kind % 2;
    cx.label(if t.kind == 1 { "array document" } else { "group document" });
    let n = AtomicUsize::new(0);
    repeated(|rep| {
        let d = dir.join(n.fetch_add(1, Ordering::Relaxed).to_string());
        std::fs::create_dir(&d).map_err(|e| e.to_string())?;
        let (h, _) = t.create(&d)?;
        let all = (c.writers + c.readers) as usize;
        let go = Barrier::new(all);
        let id = |w: u8, r: u8| json!([w, r, "y".repeat((w as usize * 37 + r as usize * 1013) % 6000)]);
        let rs: Vec<R> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..all).map(|i| {
                let (h, t, go, d) = (&h, &t, &go, &d);
                s.spawn(move || -> R {
                    set_hook(LockHook { delay: Some(Sm((c.seed as u64 ^ (i as u64) << 32) ^ rep.wrapping_mul(0x9e37_79b9))), ..Default::default() });
                    let own = if i % 2 == 0 { h.clone() } else { FilesystemHierarchy::open(d).map_err(|e| e.to_string())? };
                    go.wait();
                    for r in 0..c.rounds {
                        if i < c.writers as usize {
                            no_panic(|| own.set_attribute(&t.path, "id".into(), id(i as u8, r))).map_err(|p| format!("set_attribute: panic: {}", p))?
                                .map_err(|e| format!("set_attribute, others reading and writing: {}", e))?;
                        } else {
                            let a = if t.kind == 1 && r % 2 == 0 {
                                own.get_array_metadata(&t.path).map(|m| serde_json::to_value(&m).unwrap()["attributes"].clone())
                            } else {
                                own.list_attributes(&t.path).map(Value::Object)
                            }.map_err(|e| format!("reading the document, others writing: {}", e))?;
                            let ok = a["id"] == t.attrs(t.v1)["id"] || (0..c.writers).any(|w| (0..c.rounds).any(|r| a["id"] == id(w, r)));
                            ensure!(ok && a["pad"] == t.attrs(t.v1)["pad"], "read attributes that nobody wrote: {}", short(&a));
                        }
                    }
                    Ok(())
                })
            }).collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into()))).collect()
        });
        rs.into_iter().collect::<R>()?;
        let a = h.list_attributes(&t.path).map_err(|e| format!("at the end: {}", e))?;
        ensure!((0..c.writers).any(|w| a["id"] == id(w, c.rounds - 1)), "at the end: attribute is no writer's last value: {}", short(&a["id"]));
        Ok(())
    })
}

// ---------------------------------------------------------------- reader between creation and lock

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Window {
    /// 0 chunk, 1 array document, 2 group document, 3 another key.
    kind: u8,
}

/// A value is written for the first time; a reader comes before the writer has its lock.
fn c25_window(c: &Window, cx: &mut Cx) -> R {
    cx.nontrivial();
    let dir = cx.dir();
    let h = FilesystemHierarchy::open_or_create(&dir).map_err(|e| e.to_string())?;
    let key = ["data/root/a/c0", "meta/root/a.array.json", "meta/root/a.group.json", "x"][c.kind as usize % 4];
    let m = Meta::simple(vec![4], vec![2], Dt { k: 2, big: false }).build();
    let h2 = h.clone();
    let got: Arc<std::sync::Mutex<Vec<Vec<u8>>>> = Default::default();
    let got2 = got.clone();
    set_hook(LockHook {
        before: Some(Box::new(move |op| {
            if op & libc::LOCK_EX != 0 {
                if let Ok(Some(mut r)) = h2.get(key) {
                    let mut v = vec![];
                    let _ = r.read_to_end(&mut v);
                    got2.lock().unwrap().push(v);
                }
            }
        })),
        ..Default::default()
    });
    let r = match c.kind % 4 {
        0 => write_chunk(&h, 2, "a", &m, &[0], &[1, 2]),
        1 => h.create_array("a", &m),
        2 => h.create_group("a"),
        _ => h.set(key, |mut w| w.write_all(b"value")),
    };
    set_hook(LockHook::default());
    r.map_err(|e| e.to_string())?;
    let whole = std::fs::read(dir.join(key)).map_err(|e| e.to_string())?;
    for v in got.lock().unwrap().iter() {
        ensure!(*v == whole, "a reader that comes between the creation of the file and its lock sees an incomplete value of {} bytes", v.len());
    }
    Ok(())
}

pub fn c25() -> Vec<Sub> {
    vec![
        sub("held", Cases(48_000, 600_000), held_case, c25_held),
        sub("use", Cases(48_000, 600_000), use_case, c25_use),
        sub("load", Cases(3_200, 60_000), load_case, c25_load),
        sub("window", Cases(0, 0), || (0u8..4).prop_map(|kind| Window { kind }), c25_window),
    ]
}

// ---------------------------------------------------------------- C26

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Act {
    Write(u8),
    Read(u8),
    /// Whole chunks from the first to the second, as a region.
    WriteRegion(u8, u8),
    ReadRegion(u8, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Crowd {
    path: String,
    dt: Dt,
    comp: Comp,
    n: u16,
    chunks: u8,
    arrays: u8,
    threads: Vec<Vec<Act>>,
    /// Per thread: its own handle?
    own: u8,
    slow: bool,
    seed: u32,
    /// Chunks that are not written before the threads start.
    #[serde(default)]
    fresh: u8,
}

fn crowd() -> impl Strategy<Value = Crowd> {
    let act = (0u8..8, any::<u8>(), any::<u8>()).prop_map(|(k, a, b)| match k {
        0..=2 => Act::Write(a),
        3..=5 => Act::Read(a),
        6 => Act::WriteRegion(a, b),
        _ => Act::ReadRegion(a, b),
    });
    let n = prop_oneof![2 => 1u16..64, 3 => 1000u16..5000];
    let kinds = prop_oneof![Just(2u8), Just(3), Just(4), Just(6), Just(7), Just(8)];
    (path(2), (kinds, any::<bool>()).prop_map(|(k, big)| Dt { k, big }), comp_cheap(), n, (1u8..5, 1u8..3),
        proptest::collection::vec(proptest::collection::vec(act, 1..12), 2..8), any::<u8>(), any::<bool>(), (any::<u32>(), prop_oneof![2 => Just(0u8), 1 => Just(255), 1 => any::<u8>()]))
        .prop_map(|(path, dt, comp, n, (chunks, arrays), threads, own, slow, (seed, fresh))| Crowd { path, dt, comp, n, chunks, arrays, threads, own, slow, seed, fresh })
}

/// Pauses between pieces.
struct Slow<X>(X, Sm);
impl<X> Slow<X> {
    fn rest(&mut self) {
        match self.1.below(8) {
            0 => std::thread::sleep(Duration::from_micros(self.1.below(200))),
            1 | 2 => std::thread::yield_now(),
            _ => {}
        }
    }
}
impl<X: Write> Write for Slow<X> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.rest();
        self.0.write(b)
    }
    fn flush(&mut self) -> std::io::Result<()> { self.0.flush() }
}
impl<X: Read> Read for Slow<X> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.rest();
        let n = b.len().min(1500);
        self.0.read(&mut b[..n])
    }
}

struct SlowChunk<T> {
    pos: Vec<u64>,
    data: Vec<T>,
    seed: u64,
}
impl<T> DataChunk<T> for SlowChunk<T> {
    fn get_grid_position(&self) -> &[u64] { &self.pos }
    fn get_data(&self) -> &[T] { &self.data }
    fn get_num_elements(&self) -> u32 { self.data.len() as u32 }
}
impl<T: ReflectedType> ReinitDataChunk<T> for SlowChunk<T> {
    fn reinitialize(&mut self, p: &GridCoord, n: u32) {
        self.pos = p.to_vec();
        self.data.resize_with(n as usize, Default::default);
    }
    fn reinitialize_with<B: DataChunk<T>>(&mut self, other: &B) {
        self.data = other.get_data().to_vec();
    }
}
impl<T: ReflectedType> WriteableDataChunk for SlowChunk<T> where for<'b> SliceDataChunk<T, &'b [T]>: WriteableDataChunk {
    fn write_data<W: Write>(&self, w: W, m: &ArrayMetadata) -> std::io::Result<()> {
        let mut w = Slow(w, Sm(self.seed));
        SliceDataChunk::<T, &[T]>::new(gc(&self.pos), &self.data[..]).write_data(&mut w, m)?;
        w.flush()
    }
}
impl<T: ReflectedType> ReadableDataChunk for SlowChunk<T> where for<'b> SliceDataChunk<T, &'b mut [T]>: ReadableDataChunk {
    fn read_data<X: Read>(&mut self, r: X, m: &ArrayMetadata) -> std::io::Result<()> {
        let mut r = Slow(r, Sm(self.seed));
        let pos = gc(&self.pos);
        SliceDataChunk::<T, &mut [T]>::new(pos, &mut self.data[..]).read_data(&mut r, m)
    }
}

impl Crowd {
    fn path(&self, a: usize) -> String {
        if a == 0 { self.path.clone() } else if self.path.is_empty() { "zz".into() } else { format!("{}/zz", self.path) }
    }
    fn value(&self, id: u32) -> Vec<u64> {
        let m = self.dt.mask();
        let mut r = Sm(id as u64 ^ 0x51ed);
        // Some values compress well, so that encoded sizes differ.
        (0..self.n as usize).map(|i| m & if id % 3 == 0 { id as u64 } else if id % 3 == 1 { r.next() ^ id as u64 } else { (id as u64) << 3 ^ i as u64 / 16 }).collect()
    }
    /// Value of the chunk written by a thread's action (0: the initial one).
    fn id(&self, thread: usize, act: usize) -> u32 {
        1 + (thread * 16 + act) as u32
    }
    fn span(&self, a: u8, b: u8) -> (usize, usize) {
        let n = self.chunks as usize;
        let (x, y) = (a as usize % n, b as usize % n);
        (x.min(y), x.max(y))
    }
    /// Chunk index over all arrays from an action's number.
    fn at(&self, x: u8) -> (usize, usize) {
        (x as usize / 16 % self.arrays as usize, x as usize % self.chunks as usize)
    }
    fn fresh(&self, arr: usize, chunk: usize) -> bool {
        self.fresh >> (arr * 4 + chunk) & 1 == 1
    }
}

fn c26_crowd(c: &Crowd, cx: &mut Cx) -> R {
    let dir = cx.dir();
    let n = AtomicUsize::new(0);
    let nc = c.chunks as usize;
    // All writes of each chunk, with the thread.
    let mut writes: BTreeMap<(usize, usize), Vec<(usize, u32)>> = BTreeMap::new();
    let mut reads = 0;
    for (t, acts) in c.threads.iter().enumerate() {
        for (i, a) in acts.iter().enumerate() {
            match a {
                Act::Write(x) => writes.entry(c.at(*x)).or_default().push((t, c.id(t, i))),
                Act::WriteRegion(x, y) => {
                    let (lo, hi) = c.span(*x, *y);
                    let arr = c.at(*x).0;
                    for k in lo..=hi {
                        writes.entry((arr, k)).or_default().push((t, c.id(t, i)));
                    }
                }
                _ => reads += 1,
            }
        }
    }
    let shared = writes.values().any(|w| w.iter().any(|x| x.0 != w[0].0));
    cx.nontrivial = shared || (reads > 0 && !writes.is_empty());
    cx.label_if(shared, "several writers of one chunk");
    cx.label_if(reads > 0 && !writes.is_empty(), "readers and writers");
    let firsts = writes.keys().filter(|x| c.fresh(x.0, x.1)).count();
    cx.label_if(firsts > 0, "first writes");
    cx.label_if(firsts > 1 && c.fresh == 255, "first writes, no data directory");
    cx.label(c.comp.label());
    let mut m = Meta::simple(vec![nc as u64 * c.n as u64], vec![c.n as u32], c.dt);
    m.comp = c.comp.clone();
    let meta = m.build();
    let k = c.dt.k();
    repeated(|rep| {
        let d = dir.join(n.fetch_add(1, Ordering::Relaxed).to_string());
        let h = FilesystemHierarchy::open_or_create(&d).map_err(|e| e.to_string())?;
        for a in 0..c.arrays as usize {
            h.create_array(&c.path(a), &meta).map_err(|e| e.to_string())?;
            for i in (0..nc).filter(|i| !c.fresh(a, *i)) {
                write_chunk(&h, k, &c.path(a), &meta, &[i as u64], &c.value(0)).map_err(|e| e.to_string())?;
            }
        }
        let go = Barrier::new(c.threads.len());
        let stop = AtomicBool::new(false);
        // When each action began and ended, on a common clock (0: not yet).
        let clock = AtomicUsize::new(1);
        let tick = || clock.fetch_add(1, Ordering::SeqCst);
        let times: Vec<Vec<[AtomicUsize; 2]>> = c.threads.iter().map(|a| a.iter().map(|_| Default::default()).collect()).collect();
        // A read value, and when the read began and ended.
        let known = |arr: usize, chunk: usize, got: &[u64], from: usize, to: usize| -> R {
            let w: &[(usize, u32)] = writes.get(&(arr, chunk)).map_or(&[], |w| &w[..]);
            ensure!(got.len() == c.n as usize, "chunk {} of {:?}: read {} of {} elements", chunk, c.path(arr), got.len(), c.n);
            let span = |id: u32| -> (usize, usize) {
                let x = &times[(id as usize - 1) / 16][(id as usize - 1) % 16];
                let f = |i: usize| match x[i].load(Ordering::SeqCst) { 0 => usize::MAX, t => t };
                (f(0), f(1))
            };
            let mut written: Vec<(usize, usize)> = vec![];
            if got == &c.value(0)[..] && !c.fresh(arr, chunk) {
                written.push((0, 0));
            }
            written.extend(w.iter().filter(|(_, id)| got == &c.value(*id)[..]).map(|(_, id)| span(*id)));
            ensure!(!written.is_empty(), "chunk {} of {:?}: read a value that nobody wrote: {}", chunk, c.path(arr), short(got));
            let fits = |&(b, e): &(usize, usize)| b < to && !w.iter().any(|(_, id)| { let s = span(*id); s.0 > e && s.1 < from });
            ensure!(written.iter().any(fits), "chunk {} of {:?}: read a value that had been overwritten before, or was written only later", chunk, c.path(arr));
            Ok(())
        };
        // May the chunk still be missing for a read that began then? While it is
        // written for the first time a read may also fail: a finding of C25.
        let unborn = |arr: usize, chunk: usize, from: usize| -> bool {
            c.fresh(arr, chunk) && !writes.get(&(arr, chunk)).map_or(&[][..], |w| &w[..]).iter().any(|(_, id)| {
                let end = times[(*id as usize - 1) / 16][(*id as usize - 1) % 16][1].load(Ordering::SeqCst);
                end != 0 && end < from
            })
        };
        let rs: Vec<R> = std::thread::scope(|s| {
            let hs: Vec<_> = c.threads.iter().enumerate().map(|(t, acts)| {
                let (h, d, go, stop, meta, known, unborn, times, tick) = (&h, &d, &go, &stop, &meta, &known, &unborn, &times, &tick);
                s.spawn(move || -> R {
                    let opened;
                    let h = if c.own >> (t % 8) & 1 == 1 { opened = FilesystemHierarchy::open(d).map_err(|e| e.to_string()); opened.as_ref() } else { Ok(h) };
                    set_hook(LockHook { delay: Some(Sm((c.seed as u64 ^ (t as u64) << 32) ^ rep.wrapping_mul(0x9e37_79b9))), ..Default::default() });
                    go.wait();
                    let h = h.map_err(|e| e.clone())?;
                    for (i, a) in acts.iter().enumerate() {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let seed = (c.seed as u64) << 16 ^ (t * 16 + i) as u64;
                        let from = tick();
                        times[t][i][0].store(from, Ordering::SeqCst);
                        let r = no_panic(|| -> R {
                            match a {
                                Act::Write(x) => {
                                    let (arr, ch) = c.at(*x);
                                    let v = c.value(c.id(t, i));
                                    let w = format!("thread {} writing chunk {} of {:?}", t, ch, c.path(arr));
                                    if c.slow {
                                        dispatch!(k, T => h.write_chunk::<T, _>(&c.path(arr), meta, &SlowChunk::<T> { pos: vec![ch as u64], data: to_v(&v), seed }))
                                    } else {
                                        write_chunk(h, k, &c.path(arr), meta, &[ch as u64], &v)
                                    }.map_err(|e| format!("{}: {}", w, e))
                                }
                                Act::Read(x) => {
                                    let (arr, ch) = c.at(*x);
                                    let w = format!("thread {} reading chunk {} of {:?}", t, ch, c.path(arr));
                                    let got: Option<Vec<u64>> = if c.slow {
                                        dispatch!(k, T => {
                                            let mut b = SlowChunk::<T> { pos: vec![], data: vec![], seed };
                                            h.read_chunk_into::<T, _>(&c.path(arr), meta, gc(&[ch as u64]), &mut b).map(|o| o.map(|()| to_b(&b.data)))
                                        })
                                    } else {
                                        read_chunk(h, k, &c.path(arr), meta, &[ch as u64]).map(|o| o.map(|x| x.1))
                                    }.map_err(|e| format!("{}: {}", w, e))
                                        .or_else(|e| if unborn(arr, ch, from) { Ok(None) } else { Err(e) })?;
                                    match got {
                                        None if unborn(arr, ch, from) => Ok(()),
                                        None => Err(format!("{}: it is missing", w)),
                                        Some(got) => known(arr, ch, &got, from, tick()),
                                    }
                                }
                                Act::WriteRegion(x, y) => {
                                    let ((lo, hi), arr) = (c.span(*x, *y), c.at(*x).0);
                                    let v = c.value(c.id(t, i));
                                    let all: Vec<u64> = (lo..=hi).flat_map(|_| v.iter().cloned()).collect();
                                    write_region(h, k, &c.path(arr), meta, &[lo as u64 * c.n as u64], &[all.len() as u64], Layout { kind: 0, seed: 0 }, &all)
                                        .map_err(|e| format!("thread {} writing chunks {}-{} of {:?}: {}", t, lo, hi, c.path(arr), e))
                                }
                                Act::ReadRegion(x, y) => {
                                    let ((lo, hi), arr) = (c.span(*x, *y), c.at(*x).0);
                                    let len = (hi - lo + 1) as u64 * c.n as u64;
                                    let got = match read_region(h, k, &c.path(arr), meta, &[lo as u64 * c.n as u64], &[len]) {
                                        Ok((_, got)) => got,
                                        Err(_) if (lo..=hi).any(|ch| unborn(arr, ch, from)) => vec![],
                                        Err(e) => return Err(format!("thread {} reading chunks {}-{} of {:?}: {}", t, lo, hi, c.path(arr), e)),
                                    };
                                    let to = tick();
                                    for (j, part) in got.chunks(c.n as usize).enumerate() {
                                        if unborn(arr, lo + j, from) && part.iter().all(|&x| x == 0) {
                                            continue;
                                        }
                                        known(arr, lo + j, part, from, to)?;
                                    }
                                    Ok(())
                                }
                            }
                        }).unwrap_or_else(|p| Err(format!("thread {}: panic: {}", t, p)));
                        times[t][i][1].store(tick(), Ordering::SeqCst);
                        if r.is_err() {
                            stop.store(true, Ordering::Relaxed);
                            return r;
                        }
                    }
                    Ok(())
                })
            }).collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into()))).collect()
        });
        rs.into_iter().collect::<R>()?;
        // Each chunk holds the last value of one of its writers.
        let h = FilesystemHierarchy::open(&d).map_err(|e| e.to_string())?;
        for arr in 0..c.arrays as usize {
            for i in 0..nc {
                let got = read_chunk(&h, k, &c.path(arr), &meta, &[i as u64]).map_err(|e| format!("at the end, chunk {} of {:?}: {}", i, c.path(arr), e))?;
                if c.fresh(arr, i) && !writes.contains_key(&(arr, i)) {
                    ensure!(got.is_none(), "at the end, chunk {} of {:?} exists, but nobody wrote it", i, c.path(arr));
                    continue;
                }
                let got = got.ok_or_else(|| format!("at the end, chunk {} of {:?} is missing", i, c.path(arr)))?.1;
                let mut last: BTreeMap<usize, u32> = BTreeMap::new();
                for (t, id) in writes.get(&(arr, i)).map_or(&[][..], |w| &w[..]) {
                    last.insert(*t, *id);
                }
                let ok = if last.is_empty() { got == c.value(0) } else { last.values().any(|id| got == c.value(*id)) };
                ensure!(ok, "at the end, chunk {} of {:?} holds the last value of none of its writers: {}", i, c.path(arr), short(&got));
            }
        }
        Ok(())
    })
}

pub fn c26() -> Vec<Sub> {
    vec![sub("crowd", Cases(8_000, 300_000), crowd, c26_crowd)]
}

// ---------------------------------------------------------------- C33

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Away {
    /// Deletes a chunk.
    Delete(u8),
    Read(u8),
    ReadRegion(u8, u8),
    ReadInto(u8),
    /// Is the key of the chunk, or of the array's document, there?
    Key(u8),
    /// Removes an array, or the node above the arrays.
    Remove(u8),
    Meta(u8),
    Attrs(u8),
    Exists(u8),
    List,
    /// Everything below the directory of the chunks.
    ListKeys,
    /// Erases the chunks of an array by prefix.
    ErasePrefix(u8),
    /// Creates a node of its own, with a chunk, beside the others.
    Create,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Gone {
    path: String,
    dt: Dt,
    comp: Comp,
    n: u16,
    chunks: u8,
    arrays: u8,
    flat: bool,
    threads: Vec<Vec<Away>>,
    own: u8,
    seed: u32,
}

fn gone() -> impl Strategy<Value = Gone> {
    let act = (0u8..24, any::<u8>(), any::<u8>()).prop_map(|(k, a, b)| match k {
        0..=5 => Away::Delete(a),
        6..=9 => Away::Read(a),
        10 => Away::ReadRegion(a, b),
        11 => Away::ReadInto(a),
        12 => Away::Key(a),
        13..=15 => Away::Remove(a),
        16 => Away::Meta(a),
        17 => Away::Attrs(a),
        18 => Away::Exists(a),
        19 => Away::List,
        20 => Away::ListKeys,
        21 => Away::ErasePrefix(a),
        _ => Away::Create,
    });
    let n = prop_oneof![4 => 1u16..40, 1 => 2000u16..4000];
    (path(2), dt(), comp_cheap(), n, (1u8..4, 1u8..3), any::<bool>(), proptest::collection::vec(proptest::collection::vec(act, 1..6), 2..7), any::<u8>(), any::<u32>())
        .prop_map(|(path, dt, comp, n, (chunks, arrays), flat, threads, own, seed)| Gone { path, dt, comp, n, chunks, arrays, flat, threads, own, seed })
}

impl Gone {
    fn root(&self) -> String {
        if self.path.is_empty() { "top".into() } else { format!("{}/top", self.path) }
    }
    fn path(&self, a: usize) -> String {
        format!("{}/a{}", self.root(), a)
    }
    fn at(&self, x: u8) -> (usize, usize) {
        (x as usize / 16 % self.arrays as usize, x as usize % self.chunks as usize)
    }
    fn meta(&self) -> Meta {
        let mut m = Meta::simple(vec![2, self.chunks as u64 * self.n as u64], vec![2, self.n as u32], self.dt);
        m.comp = self.comp.clone();
        m.dot = self.flat;
        m
    }
    fn value(&self, arr: usize, ch: usize) -> Vec<u64> {
        let mut r = Sm(self.seed as u64 ^ (arr * 16 + ch) as u64);
        // Never the fill value.
        let one = if self.dt.k() == 0 { vec![1; 2 * self.n as usize] } else { vec![] };
        if !one.is_empty() {
            return one;
        }
        let m = match self.dt.k() { 9..=11 => 0xff, _ => self.dt.mask() };
        (0..2 * self.n as usize).map(|_| (r.next() & m).max(1)).collect()
    }
    /// Which chunks and which arrays an action removes.
    fn victims(&self, a: &Away) -> (Vec<(usize, usize)>, Vec<usize>) {
        let (na, nc) = (self.arrays as usize, self.chunks as usize);
        let all = |arrs: Vec<usize>| arrs.iter().flat_map(|&a| (0..nc).map(move |c| (a, c))).collect::<Vec<_>>();
        match a {
            Away::Delete(x) => (vec![self.at(*x)], vec![]),
            Away::ErasePrefix(x) => (all(vec![self.at(*x).0]), vec![]),
            Away::Remove(x) => {
                let v: Vec<usize> = if *x % 5 == 0 { (0..na).collect() } else { vec![self.at(*x).0] };
                (all(v.clone()), v)
            }
            _ => (vec![], vec![]),
        }
    }
}

fn c33_gone(c: &Gone, cx: &mut Cx) -> R {
    let dir = cx.dir();
    let n = AtomicUsize::new(0);
    let (na, nc) = (c.arrays as usize, c.chunks as usize);
    let m = c.meta();
    let meta = m.build();
    let k = c.dt.k();
    // Removals of each chunk and array: (thread, action).
    let mut of_chunk: BTreeMap<(usize, usize), Vec<(usize, usize)>> = BTreeMap::new();
    let mut of_array: BTreeMap<usize, Vec<(usize, usize)>> = BTreeMap::new();
    let mut top: Vec<(usize, usize)> = vec![];
    let mut looks = false;
    for (t, acts) in c.threads.iter().enumerate() {
        for (i, a) in acts.iter().enumerate() {
            let (ch, ar) = c.victims(a);
            looks |= ch.is_empty() && !matches!(a, Away::Create);
            for x in ch {
                of_chunk.entry(x).or_default().push((t, i));
            }
            if let Away::Remove(x) = a {
                if *x % 5 == 0 {
                    top.push((t, i));
                }
            }
            for x in ar {
                of_array.entry(x).or_default().push((t, i));
            }
        }
    }
    let twice = of_chunk.values().any(|w| w.iter().any(|x| x.0 != w[0].0));
    cx.nontrivial = twice || (looks && !of_chunk.is_empty());
    cx.label_if(twice, "several threads remove one chunk");
    cx.label_if(of_array.values().any(|w| w.iter().any(|x| x.0 != w[0].0)), "several threads remove one array");
    cx.label_if(looks && !of_chunk.is_empty(), "removed while looked at");
    cx.label_if(c.threads.iter().flatten().any(|a| matches!(a, Away::Create)), "nodes created meanwhile");
    let attrs = json!({"k": c.seed});
    repeated(|rep| {
        let d = dir.join(n.fetch_add(1, Ordering::Relaxed).to_string());
        let h = FilesystemHierarchy::open_or_create(&d).map_err(|e| e.to_string())?;
        let io = |w: &str| { let w = w.to_string(); move |e: Error| format!("{}: {}", w, e) };
        h.create_group(&c.root()).map_err(io("create_group"))?;
        for a in 0..na {
            h.create_array(&c.path(a), &meta).map_err(io("create_array"))?;
            h.set_attributes(&c.path(a), attrs.as_object().unwrap().clone()).map_err(io("set_attributes"))?;
            for i in 0..nc {
                write_chunk(&h, k, &c.path(a), &meta, &[0, i as u64], &c.value(a, i)).map_err(io("write_chunk"))?;
            }
        }
        let go = Barrier::new(c.threads.len());
        let stop = AtomicBool::new(false);
        let clock = AtomicUsize::new(1);
        let tick = || clock.fetch_add(1, Ordering::SeqCst);
        let times: Vec<Vec<[AtomicUsize; 2]>> = c.threads.iter().map(|a| a.iter().map(|_| Default::default()).collect()).collect();
        // May it still be there, and may it be gone, to an operation between two times?
        let may = |removals: Option<&Vec<(usize, usize)>>, from: usize, to: usize| -> (bool, bool) {
            let f = |&(t, i): &(usize, usize), j: usize| match times[t][i][j].load(Ordering::SeqCst) { 0 => usize::MAX, t => t };
            let none = vec![];
            let r = removals.unwrap_or(&none);
            (!r.iter().any(|x| f(x, 1) < from), r.iter().any(|x| f(x, 0) < to))
        };
        let judge = |there: bool, (may_be, may_not): (bool, bool), what: String| -> R {
            if there && !may_be { return Err(format!("{}: it is there, but was removed before", what)); }
            if !there && !may_not { return Err(format!("{}: it is missing, but nobody began to remove it", what)); }
            Ok(())
        };
        let rs: Vec<R> = std::thread::scope(|s| {
            let hs: Vec<_> = c.threads.iter().enumerate().map(|(t, acts)| {
                let (h, d, go, stop, m, meta, times, tick, may, judge, of_chunk, of_array, top, attrs) = (&h, &d, &go, &stop, &m, &meta, &times, &tick, &may, &judge, &of_chunk, &of_array, &top, &attrs);
                s.spawn(move || -> R {
                    let opened;
                    let h = if c.own >> (t % 8) & 1 == 1 { opened = FilesystemHierarchy::open(d).map_err(|e| e.to_string()); opened.as_ref() } else { Ok(h) };
                    set_hook(LockHook { delay: Some(Sm((c.seed as u64 ^ (t as u64) << 32) ^ rep.wrapping_mul(0x9e37_79b9))), ..Default::default() });
                    go.wait();
                    let h = h.map_err(|e| e.clone())?;
                    for (i, a) in acts.iter().enumerate() {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let from = tick();
                        times[t][i][0].store(from, Ordering::SeqCst);
                        let r = no_panic(|| -> R {
                            let chunk = |x: &u8| { let (arr, ch) = c.at(*x); (arr, ch, c.path(arr), vec![0u64, ch as u64]) };
                            let er = |w: &str| { let w = format!("thread {}: {}", t, w); move |e: Error| format!("{}: {}", w, e) };
                            match a {
                                Away::Delete(x) => {
                                    let (_, _, p, pos) = chunk(x);
                                    let w = format!("delete_chunk({:?}, {:?})", p, pos);
                                    let gone = h.delete_chunk(&p, meta, &pos).map_err(er(&w))?;
                                    ensure!(gone, "thread {}: {}: reports that the chunk is still there", t, w);
                                    // It does not come back.
                                    let again = read_chunk(h, k, &p, meta, &pos).map_err(er(&format!("read_chunk({:?}, {:?}) after deleting it", p, pos)))?;
                                    ensure!(again.is_none(), "thread {}: chunk {:?} of {:?} is there after it was deleted", t, pos, p);
                                    Ok(())
                                }
                                Away::Read(x) | Away::ReadInto(x) => {
                                    let (arr, ch, p, pos) = chunk(x);
                                    let w = format!("reading chunk {:?} of {:?}", pos, p);
                                    let got = if matches!(a, Away::Read(_)) { read_chunk(h, k, &p, meta, &pos) } else { read_chunk_into(h, k, &p, meta, &pos, *x as usize) }.map_err(er(&w))?;
                                    let to = tick();
                                    if let Some((_, v)) = &got {
                                        ensure_eq!(v, &c.value(arr, ch), "thread {}: {}", t, w);
                                    }
                                    judge(got.is_some(), may(of_chunk.get(&(arr, ch)), from, to), format!("thread {}: {}", t, w))
                                }
                                Away::ReadRegion(x, y) => {
                                    let arr = c.at(*x).0;
                                    let (lo, hi) = { let (p, q) = (*x as usize % nc, *y as usize % nc); (p.min(q), p.max(q)) };
                                    let w = format!("reading chunks {}-{} of {:?} as a region", lo, hi, c.path(arr));
                                    let (_, v) = read_region(h, k, &c.path(arr), meta, &[0, lo as u64 * c.n as u64], &[2, (hi - lo + 1) as u64 * c.n as u64]).map_err(er(&w))?;
                                    let to = tick();
                                    let row = (hi - lo + 1) * c.n as usize;
                                    for ch in lo..=hi {
                                        let o = (ch - lo) * c.n as usize;
                                        let got: Vec<u64> = v[o..o + c.n as usize].iter().chain(&v[row + o..row + o + c.n as usize]).cloned().collect();
                                        let there = got == c.value(arr, ch);
                                        ensure!(there || got.iter().all(|&x| x == 0), "thread {}: {}: chunk {} is neither its value nor missing: {}", t, w, ch, short(&got));
                                        judge(there, may(of_chunk.get(&(arr, ch)), from, to), format!("thread {}: {}: chunk {}", t, w, ch))?;
                                    }
                                    Ok(())
                                }
                                Away::Key(x) => {
                                    let (arr, ch, p, pos) = chunk(x);
                                    let key = zarr::storage::get_chunk_key(&p, meta, &pos);
                                    let w = format!("exists({:?})", key);
                                    let got = ReadableStore::exists(h, &key).map_err(er(&w))?;
                                    let to = tick();
                                    judge(got, may(of_chunk.get(&(arr, ch)), from, to), format!("thread {}: {}", t, w))
                                }
                                Away::Remove(x) => {
                                    let p = if *x % 5 == 0 { c.root() } else { c.path(c.at(*x).0) };
                                    h.remove(&p).map_err(er(&format!("remove({:?})", p)))?;
                                    ensure!(!h.array_exists(&p).map_err(er("array_exists"))?, "thread {}: {:?} is an array after it was removed", t, p);
                                    Ok(())
                                }
                                Away::Meta(x) | Away::Attrs(x) | Away::Exists(x) => {
                                    let arr = c.at(*x).0;
                                    let p = c.path(arr);
                                    let (w, got) = match a {
                                        Away::Meta(_) => ("get_array_metadata", h.get_array_metadata(&p).map(|g| Some(serde_json::to_value(&g).unwrap()["attributes"].clone()))),
                                        Away::Attrs(_) => ("list_attributes", h.list_attributes(&p).map(|g| Some(Value::Object(g)))),
                                        _ => ("array_exists", h.array_exists(&p).map(|g| if g { Some(attrs.clone()) } else { None })),
                                    };
                                    let to = tick();
                                    let w = format!("thread {}: {}({:?})", t, w, p);
                                    let got = match got {
                                        Err(e) if e.kind() == ErrorKind::NotFound && !matches!(a, Away::Exists(_)) => None,
                                        r => r.map_err(|e| format!("{}: {}", w, e))?,
                                    };
                                    if let Some(v) = &got {
                                        ensure_eq!(v, attrs, "{}", w);
                                    }
                                    judge(got.is_some(), may(of_array.get(&arr), from, to), w)
                                }
                                Away::List => {
                                    let names = h.list_nodes(&c.root()).map_err(er("list_nodes"))?;
                                    let to = tick();
                                    for arr in 0..na {
                                        // Directories may remain, arrays do not.
                                        judge(names.contains(&format!("a{}", arr)), may(of_array.get(&arr), from, to), format!("thread {}: array {} in the listing {:?}", t, arr, names))?;
                                    }
                                    Ok(())
                                }
                                Away::ListKeys => {
                                    let p = format!("data/root/{}/", c.root());
                                    let keys = h.list_prefix(&p).map_err(er(&format!("list_prefix({:?})", p)))?;
                                    let to = tick();
                                    for arr in 0..na {
                                        for ch in 0..nc {
                                            let key = zarr::storage::get_chunk_key(&c.path(arr), meta, &[0, ch as u64]);
                                            let there = keys.iter().filter(|x| x.trim_start_matches('/') == key.trim_start_matches('/')).count();
                                            ensure!(there < 2, "thread {}: {:?} is listed {} times", t, key, there);
                                            judge(there == 1, may(of_chunk.get(&(arr, ch)), from, to), format!("thread {}: key {:?} in a listing", t, key))?;
                                        }
                                    }
                                    Ok(())
                                }
                                Away::ErasePrefix(x) => {
                                    let p = format!("data/root/{}/", c.path(c.at(*x).0));
                                    h.erase_prefix(&p).map_err(er(&format!("erase_prefix({:?})", p)))?;
                                    Ok(())
                                }
                                Away::Create => {
                                    // In a directory that may be new, beside the one being removed.
                                    let p = format!("{}{}new/t{}", c.path, if c.path.is_empty() { "" } else { "/" }, t * 16 + i);
                                    h.create_array(&p, meta).map_err(er(&format!("create_array({:?})", p)))?;
                                    let v = c.value(t, i);
                                    write_chunk(h, k, &p, meta, &[0, 0], &v).map_err(er(&format!("write_chunk({:?})", p)))?;
                                    let got = read_chunk(h, k, &p, meta, &[0, 0]).map_err(er(&format!("read_chunk({:?})", p)))?.map(|x| x.1);
                                    ensure_eq!(got, Some(v), "thread {}: chunk of {:?}", t, p);
                                    Ok(())
                                }
                            }
                        }).unwrap_or_else(|p| Err(format!("thread {}: panic: {}", t, p)));
                        times[t][i][1].store(tick(), Ordering::SeqCst);
                        if r.is_err() {
                            stop.store(true, Ordering::Relaxed);
                            return r;
                        }
                    }
                    Ok(())
                })
            }).collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into()))).collect()
        });
        rs.into_iter().collect::<R>()?;
        let h = FilesystemHierarchy::open(&d).map_err(|e| e.to_string())?;
        for arr in 0..na {
            let p = c.path(arr);
            let there = h.array_exists(&p).map_err(io("at the end: array_exists"))?;
            ensure_eq!(there, !of_array.contains_key(&arr), "at the end: array_exists({:?})", p);
            for i in 0..nc {
                let got = read_chunk(&h, k, &p, &meta, &[0, i as u64]).map_err(io("at the end: read_chunk"))?;
                let want = if of_chunk.contains_key(&(arr, i)) { None } else { Some(c.value(arr, i)) };
                ensure_eq!(got.map(|x| x.1), want, "at the end: chunk {} of {:?}", i, p);
            }
        }
        ensure_eq!(HierarchyReader::exists(&h, &c.root()).map_err(io("at the end: exists"))?, top.is_empty(), "at the end: exists({:?})", c.root());
        for (t, acts) in c.threads.iter().enumerate() {
            for (i, a) in acts.iter().enumerate() {
                if let Away::Create = a {
                    let p = format!("{}{}new/t{}", c.path, if c.path.is_empty() { "" } else { "/" }, t * 16 + i);
                    let got = read_chunk(&h, k, &p, &meta, &[0, 0]).map_err(io("at the end: read_chunk"))?.map(|x| x.1);
                    ensure_eq!(got, Some(c.value(t, i)), "at the end: chunk of {:?}", p);
                    ensure!(h.array_exists(&p).map_err(io("at the end: array_exists"))?, "at the end: {:?} is not an array", p);
                }
            }
        }
        Ok(())
    })
}

pub fn c33() -> Vec<Sub> {
    vec![sub("gone", Cases(16_000, 800_000), gone, c33_gone)]
}
