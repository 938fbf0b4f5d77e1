//! Stores and streams of the harness: an in-memory store with fault injection
//! and an access log, fragmenting readers/writers, and directory snapshots.

use std::collections::{BTreeMap, BTreeSet};
use std::io::{Error, ErrorKind, Read, Result, Write};
use std::path::Path;
use std::sync::{Arc, Mutex};
use zarr::storage::{ListableStore, ReadableStore, WriteableStore};
use zarr::{EntryPointMetadata, Hierarchy};

use crate::gen::Sm;

/// Reader that returns its bytes in pieces of sizes drawn from `frag`
/// (0: as much as asked for).
pub struct FragRead<D: AsRef<[u8]>> {
    pub data: D,
    pub pos: usize,
    pub frag: u8,
    r: Sm,
}
impl<D: AsRef<[u8]>> FragRead<D> {
    pub fn new(data: D, frag: u8) -> Self {
        FragRead { data, pos: 0, frag, r: Sm(frag as u64) }
    }
}
impl<D: AsRef<[u8]>> Read for FragRead<D> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let rest = &self.data.as_ref()[self.pos..];
        let mut n = rest.len().min(buf.len());
        if self.frag > 0 && n > 0 {
            n = n.min(1 + self.r.below(self.frag as u64) as usize);
        }
        buf[..n].copy_from_slice(&rest[..n]);
        self.pos += n;
        Ok(n)
    }
}

/// Writer that accepts pieces of sizes drawn from `frag` (0: everything).
pub struct FragWrite {
    pub data: Vec<u8>,
    frag: u8,
    r: Sm,
}
impl FragWrite {
    pub fn new(frag: u8) -> Self {
        FragWrite { data: vec![], frag, r: Sm(frag as u64) }
    }
}
impl Write for FragWrite {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        let mut n = buf.len();
        if self.frag > 0 && n > 0 {
            n = n.min(1 + self.r.below(self.frag as u64) as usize);
        }
        self.data.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}

/// A failing sink: accepts `limit` bytes in total, then misbehaves.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fault {
    /// `write` returns an error.
    Error,
    /// `write` accepts nothing (`Ok(0)`).
    Zero,
    /// Everything is accepted, `flush` fails.
    Flush,
}

pub struct FaultWrite<F: FnMut(&[u8])> {
    pub sink: F,
    pub left: usize,
    pub fault: Fault,
    /// Set once the fault was delivered.
    pub hit: Arc<Mutex<bool>>,
    pub max: usize,
}
impl<F: FnMut(&[u8])> Write for FaultWrite<F> {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        if self.fault == Fault::Flush {
            (self.sink)(buf);
            return Ok(buf.len());
        }
        if buf.is_empty() {
            return Ok(0);
        }
        let n = buf.len().min(self.left).min(self.max);
        if n == 0 {
            *self.hit.lock().unwrap() = true;
            return match self.fault {
                Fault::Error => Err(Error::new(ErrorKind::Other, "injected write error")),
                _ => Ok(0),
            };
        }
        self.left -= n;
        (self.sink)(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        if self.fault == Fault::Flush {
            *self.hit.lock().unwrap() = true;
            return Err(Error::new(ErrorKind::Other, "injected flush error"));
        }
        Ok(())
    }
}

/// In-memory store whose keys are compared component-wise, as a filesystem does.
#[derive(Clone)]
pub struct Mem {
    pub ep: EntryPointMetadata,
    pub map: Arc<Mutex<BTreeMap<String, Vec<u8>>>>,
    /// (operation, key) of every access: 'r' get, 'x' exists, 'w' set, 'e' erase, 'p' erase_prefix, 'l' list_dir.
    pub log: Arc<Mutex<Vec<(char, String)>>>,
    pub frag: u8,
    pub buffered: bool,
    /// Keys and prefixes are compared as plain strings instead.
    pub literal: bool,
    /// Whether prefixes can be tested for, which stores need not be able to.
    pub prefixes: bool,
    /// Fault applied to the next `set`.
    pub fault: Arc<Mutex<Option<(usize, Fault, usize)>>>,
    pub hit: Arc<Mutex<bool>>,
}

pub fn norm(key: &str) -> String {
    key.split('/').filter(|c| !c.is_empty() && *c != ".").collect::<Vec<_>>().join("/")
}

impl Mem {
    pub fn new() -> Mem {
        Mem::with(EntryPointMetadata::default())
    }
    pub fn with(ep: EntryPointMetadata) -> Mem {
        Mem {
            ep,
            map: Default::default(),
            log: Default::default(),
            frag: 0,
            buffered: false,
            literal: false,
            prefixes: true,
            fault: Default::default(),
            hit: Default::default(),
        }
    }
    fn note(&self, op: char, key: &str) -> String {
        let k = norm(key);
        self.log.lock().unwrap().push((op, k.clone()));
        if self.literal { key.to_string() } else { k }
    }
    /// What the stored keys under a prefix start with.
    fn base(&self, k: String) -> String {
        if self.literal || k.is_empty() { k } else { format!("{}/", k) }
    }
    pub fn take_log(&self) -> Vec<(char, String)> {
        std::mem::take(&mut self.log.lock().unwrap())
    }
    pub fn snapshot(&self) -> BTreeMap<String, Vec<u8>> {
        self.map.lock().unwrap().iter().map(|(k, v)| (k.trim_start_matches('/').to_string(), v.clone())).collect()
    }
    /// Stores a value under a key without a leading slash.
    pub fn put(&self, key: &str, v: &[u8]) {
        let k = if self.literal { format!("/{}", key) } else { norm(key) };
        self.map.lock().unwrap().insert(k, v.to_vec());
    }
}

impl Hierarchy for Mem {
    fn get_entry_point_metadata(&self) -> &EntryPointMetadata {
        &self.ep
    }
}

impl ReadableStore for Mem {
    type GetReader = FragRead<Vec<u8>>;
    fn exists(&self, key: &str) -> Result<bool> {
        let k = self.note('x', key);
        Ok(self.map.lock().unwrap().contains_key(&k))
    }
    fn get(&self, key: &str) -> Result<Option<Self::GetReader>> {
        let k = self.note('r', key);
        Ok(self.map.lock().unwrap().get(&k).map(|v| FragRead::new(v.clone(), self.frag)))
    }
    fn exists_prefix(&self, prefix: &str) -> Result<bool> {
        let k = self.note('q', prefix);
        let base = self.base(k);
        Ok(self.prefixes && self.map.lock().unwrap().keys().any(|key| key.starts_with(&base)))
    }
    fn uri(&self, key: &str) -> Result<String> {
        Ok(format!("mem://{}", norm(key)))
    }
}

impl ListableStore for Mem {
    /// Names are returned with the prefix as given prepended, like the
    /// filesystem store's.
    fn list_dir(&self, prefix: &str) -> Result<(Vec<String>, Vec<String>)> {
        let k = self.note('l', prefix);
        let map = self.map.lock().unwrap();
        let base = self.base(k);
        let shown = if self.literal || prefix.is_empty() || prefix.ends_with('/') { prefix.to_string() } else { format!("{}/", prefix) };
        let mut keys = vec![];
        let mut prefixes = BTreeSet::new();
        for key in map.keys() {
            if let Some(rest) = key.strip_prefix(base.as_str()) {
                match rest.split_once('/') {
                    None => keys.push(format!("{}{}", shown, rest)),
                    Some((d, _)) => {
                        prefixes.insert(format!("{}{}/", shown, d));
                    }
                }
            }
        }
        Ok((keys, prefixes.into_iter().collect()))
    }
}

impl WriteableStore for Mem {
    type SetWriter = Box<dyn Write>;
    fn set<F: FnOnce(Self::SetWriter) -> Result<()>>(&self, key: &str, value: F) -> Result<()> {
        let k = self.note('w', key);
        self.map.lock().unwrap().insert(k.clone(), vec![]);
        let map = self.map.clone();
        let (left, fault, max) = self.fault.lock().unwrap().take().unwrap_or((usize::MAX, Fault::Error, if self.frag > 0 { self.frag as usize } else { usize::MAX }));
        let w = FaultWrite {
            sink: move |b: &[u8]| map.lock().unwrap().get_mut(&k).unwrap().extend_from_slice(b),
            left,
            fault,
            hit: self.hit.clone(),
            max,
        };
        if self.buffered {
            value(Box::new(std::io::BufWriter::new(w)))
        } else {
            value(Box::new(w))
        }
    }
    fn erase(&self, key: &str) -> Result<bool> {
        let k = self.note('e', key);
        self.map.lock().unwrap().remove(&k);
        Ok(true)
    }
    fn erase_prefix(&self, prefix: &str) -> Result<bool> {
        let k = self.note('p', prefix);
        let base = self.base(k);
        self.map.lock().unwrap().retain(|key, _| !key.starts_with(&base));
        Ok(true)
    }
}

/// All files under `root` by relative path, with content; directories as keys
/// ending in '/' with empty content.
pub fn snap(root: &Path) -> BTreeMap<String, Vec<u8>> {
    fn walk(dir: &Path, rel: &str, out: &mut BTreeMap<String, Vec<u8>>) {
        let rd = match std::fs::read_dir(dir) {
            Ok(r) => r,
            Err(_) => return,
        };
        for e in rd.flatten() {
            let name = format!("{}{}", rel, e.file_name().to_string_lossy());
            let p = e.path();
            if e.file_type().map(|t| t.is_dir()).unwrap_or(false) {
                out.insert(format!("{}/", name), vec![]);
                walk(&p, &format!("{}/", name), out);
            } else {
                out.insert(name, std::fs::read(&p).unwrap_or_else(|e| format!("unreadable: {}", e).into_bytes()));
            }
        }
    }
    let mut out = BTreeMap::new();
    walk(root, "", &mut out);
    out
}

/// `snap` without directories.
pub fn snap_files(root: &Path) -> BTreeMap<String, Vec<u8>> {
    snap(root).into_iter().filter(|(k, _)| !k.ends_with('/')).collect()
}

pub fn diff(a: &BTreeMap<String, Vec<u8>>, b: &BTreeMap<String, Vec<u8>>) -> Option<String> {
    for (k, v) in a {
        match b.get(k) {
            None => return Some(format!("{:?} is gone", k)),
            Some(w) if w != v => return Some(format!("{:?} changed ({} -> {} bytes)", k, v.len(), w.len())),
            _ => {}
        }
    }
    b.keys().find(|k| !a.contains_key(*k)).map(|k| format!("{:?} appeared", k))
}
