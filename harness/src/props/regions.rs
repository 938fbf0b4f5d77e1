//! Region access: C05, C06, C07, C08.

use crate::fw::*;
use crate::gen::*;
use crate::io::*;
use crate::store::*;
use crate::{dispatch, ensure, ensure_eq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use zarr::chunk::{ReadableDataChunk, ReinitDataChunk};
use zarr::ndarray::ZarrNdarrayReader;
use zarr::prelude::*;

// ---------------------------------------------------------------- arrays

/// One dimension: array length, chunk length, start of the window worked in.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
struct Dim {
    len: u64,
    chunk: u32,
    base: u64,
}

fn small_dim(max: u64) -> impl Strategy<Value = Dim> {
    (prop_oneof![1 => Just(0u64), 12 => 1..=max], 1u32..=5).prop_map(|(len, chunk)| Dim { len, chunk, base: 0 })
}

fn huge_dim() -> impl Strategy<Value = Dim> {
    let len = prop_oneof![
        (0u64..8).prop_map(|d| (1 << 32) + d - 4),
        (0u64..40).prop_map(|d| (1 << 33) + d),
        (0u64..40).prop_map(|d| (1 << 53) + d),
        (0u64..40).prop_map(|d| (1u64 << 63) - d),
    ];
    (len, 1u32..=5, 0u8..5, any::<u64>()).prop_map(|(len, chunk, w, r)| {
        let base = match w {
            0 => len - 7,
            1 => (1u64 << 32) - 5,
            2 => (1u64 << 31) - 4,
            3 => len / 2,
            _ => r % (len - 8),
        };
        Dim { len, chunk, base: base.min(len - 1) }
    })
}

fn dims() -> BoxedStrategy<Vec<Dim>> {
    prop_oneof![
        6 => proptest::collection::vec(small_dim(9), 0..=3),
        3 => proptest::collection::vec(small_dim(13), 1..=2),
        1 => proptest::collection::vec(small_dim(40), 1..=1),
        2 => proptest::collection::vec(small_dim(4), 4..=5),
        1 => proptest::collection::vec(small_dim(2), 6..=8),
        2 => proptest::collection::vec(prop_oneof![huge_dim(), small_dim(6)], 1..=3),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Arr {
    path: String,
    dims: Vec<Dim>,
    dt: Dt,
    col: bool,
    dot: bool,
    comp: Comp,
    fill: Option<u8>,
}

fn arr() -> impl Strategy<Value = Arr> {
    (path(2), dims(), dt(), any::<bool>(), any::<bool>(), comp_cheap(), proptest::option::weighted(0.8, any::<u8>()))
        .prop_map(|(path, dims, dt, col, dot, comp, fill)| Arr { path, dims, dt, col, dot, comp, fill })
}

impl Arr {
    /// A fill value that every element type of the kind represents exactly.
    fn fill(&self) -> (Value, u64) {
        match (self.fill, self.dt.k()) {
            (None, _) => (Value::Null, 0),
            (Some(f), 0) => (json!(f % 2 == 1), f as u64 % 2),
            (Some(f), 9) => (json!(f as f64 * 0.5), half::f16::from_f64(f as f64 * 0.5).to_b()),
            (Some(f), 10) => (json!(f as f64 * 0.5), (f as f32 * 0.5).to_b()),
            (Some(f), 11) => (json!(f as f64 * 0.5), (f as f64 * 0.5).to_b()),
            (Some(f), k) if k >= 5 => {
                let v = f as i8 as i64;
                (json!(v), (v as u64) & self.dt.mask())
            }
            (Some(f), _) => (json!(f), f as u64),
        }
    }
    fn meta(&self) -> Meta {
        Meta {
            shape: self.dims.iter().map(|d| d.len).collect(),
            chunk: self.dims.iter().map(|d| d.chunk).collect(),
            dt: self.dt,
            col: self.col,
            dot: self.dot,
            comp: self.comp,
            fill: self.fill().0,
        }
    }
}

/// A region relative to the window of each dimension.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Rgn {
    d: Vec<(u8, u8)>,
    /// 1: aligned to chunks; 2: the whole window.
    mode: u8,
}

fn rgn() -> impl Strategy<Value = Rgn> {
    (proptest::collection::vec((0u8..64, 0u8..64), 8..=8), 0u8..8).prop_map(|(d, mode)| Rgn { d, mode })
}

const WIN: u64 = 12;

impl Rgn {
    /// Offset and shape, inside the array unless `over` lets it overhang.
    fn resolve(&self, dims: &[Dim], over: bool) -> (Vec<u64>, Vec<u64>) {
        let mut off = vec![];
        let mut sh = vec![];
        for (i, d) in dims.iter().enumerate() {
            let (a, b) = self.d.get(i).cloned().unwrap_or((0, 1));
            let win = (d.len - d.base.min(d.len)).min(if dims.len() == 1 { 40 } else { WIN });
            let c = d.chunk as u64;
            let (mut o, mut l);
            match self.mode {
                2 => {
                    o = d.base;
                    l = win;
                }
                1 => {
                    o = (d.base + a as u64 % win.max(1)) / c * c;
                    l = (1 + b as u64 % 3) * c;
                    if o + l > d.len {
                        l = d.len - o.min(d.len);
                    }
                    o = o.min(d.len);
                }
                _ => {
                    o = d.base + a as u64 % (win.max(1));
                    let max = win - (o - d.base).min(win);
                    l = if b == 63 { 0 } else { 1 + b as u64 % max.max(1) };
                    l = l.min(max);
                }
            }
            if over {
                o = o.saturating_add((a as u64 / 8) % 5);
                l += b as u64 / 9;
                l = l.min(u64::MAX - o);
            }
            off.push(o);
            sh.push(l);
        }
        (off, sh)
    }
}

/// Bounds the element count of a region by shrinking its longest dimensions.
fn bounded(mut sh: Vec<u64>, max: u64) -> Vec<u64> {
    while sh.iter().product::<u64>() > max {
        let m = *sh.iter().max().unwrap();
        for s in sh.iter_mut() {
            if *s == m {
                *s -= 1;
                break;
            }
        }
    }
    sh
}

// ---------------------------------------------------------------- model

/// Elements of stored chunks in row-major order; `None`: unspecified.
struct Model {
    m: Meta,
    fill: u64,
    chunks: BTreeMap<Vec<u64>, Vec<Option<u64>>>,
}

impl Model {
    fn new(a: &Arr) -> Model {
        Model { m: a.meta(), fill: a.fill().1, chunks: BTreeMap::new() }
    }
    fn split(&self, at: &[u64]) -> (Vec<u64>, usize) {
        let pos: Vec<u64> = at.iter().zip(&self.m.chunk).map(|(x, c)| x / *c as u64).collect();
        let idx: Vec<u64> = at.iter().zip(&self.m.chunk).map(|(x, c)| x % *c as u64).collect();
        (pos, linear(&idx, &self.m.chunk, false))
    }
    fn inside(&self, at: &[u64]) -> bool {
        at.iter().zip(&self.m.shape).all(|(x, s)| x < s)
    }
    /// Writes a region; elements beyond the array leave the stored value unspecified.
    fn write(&mut self, off: &[u64], sh: &[u64], data: &[u64]) {
        let pts: Vec<Vec<u64>> = indices(sh).into_iter().map(|i| i.iter().zip(off).map(|(a, b)| a + b).collect()).collect();
        for at in &pts {
            if !self.inside(at) {
                continue;
            }
            let (pos, _) = self.split(at);
            let n = self.m.chunk_len();
            let fill = self.fill;
            self.chunks.entry(pos).or_insert_with(|| vec![Some(fill); n]);
        }
        for (at, v) in pts.iter().zip(data) {
            let (pos, i) = self.split(at);
            let inside = self.inside(at);
            if let Some(c) = self.chunks.get_mut(&pos) {
                c[i] = if inside { Some(*v) } else { None };
            }
        }
    }
    fn chunk_from_stored(&self, data: &[u64]) -> Vec<Option<u64>> {
        let sh: Vec<u64> = self.m.chunk.iter().map(|&c| c as u64).collect();
        indices(&sh).iter().map(|i| Some(data[linear(i, &self.m.chunk, self.m.col)])).collect()
    }
    /// Elements in the declared layout.
    fn stored(&self, pos: &[u64]) -> Option<Vec<Option<u64>>> {
        let c = self.chunks.get(pos)?;
        let sh: Vec<u64> = self.m.chunk.iter().map(|&c| c as u64).collect();
        let mut out = vec![None; c.len()];
        for (i, v) in indices(&sh).iter().zip(c) {
            out[linear(i, &self.m.chunk, self.m.col)] = *v;
        }
        Some(out)
    }
    /// Value of an element: stored, or `Err(())` if its chunk is not stored.
    fn at(&self, at: &[u64]) -> Result<Option<u64>, ()> {
        let (pos, i) = self.split(at);
        match self.chunks.get(&pos) {
            Some(c) => Ok(c[i]),
            None => Err(()),
        }
    }
    fn check_region(&self, what: &str, off: &[u64], sh: &[u64], got: &(Vec<usize>, Vec<u64>)) -> R {
        let us: Vec<usize> = sh.iter().map(|&s| s as usize).collect();
        ensure_eq!(got.0, us, "{}: shape", what);
        for (i, g) in indices(sh).iter().zip(&got.1) {
            let at: Vec<u64> = i.iter().zip(off).map(|(a, b)| a + b).collect();
            let want = match self.at(&at) {
                Err(()) => Some(self.fill),
                Ok(v) if self.inside(&at) => v,
                Ok(_) => None,
            };
            if let Some(w) = want {
                ensure!(*g == w, "{}: element {:?} is {:#x}, expected {:#x}", what, at, g, w);
            }
        }
        Ok(())
    }
    fn check_chunk(&self, what: &str, pos: &[u64], got: Option<Vec<u64>>) -> R {
        match (self.stored(pos), got) {
            (None, None) => Ok(()),
            (Some(w), Some(g)) => {
                ensure_eq!(g.len(), w.len(), "{}: elements", what);
                for (i, (g, w)) in g.iter().zip(&w).enumerate() {
                    if let Some(w) = w {
                        ensure!(g == w, "{}: stored element {} is {:#x}, expected {:#x}", what, i, g, w);
                    }
                }
                Ok(())
            }
            (w, g) => Err(format!("{}: chunk is {}, expected it {}", what, if g.is_some() { "stored" } else { "missing" }, if w.is_some() { "stored" } else { "missing" })),
        }
    }
}

fn on_backend<X>(
    fs: bool,
    cx: &mut Cx,
    mem: impl FnOnce(&Mem, &mut Cx) -> X,
    disk: impl FnOnce(&FilesystemHierarchy, &mut Cx) -> X,
) -> X {
    if fs {
        let dir = cx.dir();
        let h = FilesystemHierarchy::open_or_create(&dir).expect("create hierarchy");
        cx.label("filesystem");
        disk(&h, cx)
    } else {
        cx.label("in-memory store");
        mem(&Mem::new(), cx)
    }
}

// ---------------------------------------------------------------- C05

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Write(Rgn, Layout, Data, bool),
    Chunk(Rgn, Data),
    Delete(Rgn),
    Read(Rgn),
    ReadChunk(Rgn),
}

fn layout() -> impl Strategy<Value = Layout> {
    (0u8..5, any::<u16>()).prop_map(|(kind, seed)| Layout { kind, seed })
}

fn op() -> impl Strategy<Value = Op> {
    prop_oneof![
        8 => (rgn(), layout(), data(), prop::bool::weighted(0.12)).prop_map(|(r, l, d, o)| Op::Write(r, l, d, o)),
        2 => (rgn(), data()).prop_map(|(r, d)| Op::Chunk(r, d)),
        2 => rgn().prop_map(Op::Delete),
        4 => rgn().prop_map(Op::Read),
        2 => rgn().prop_map(Op::ReadChunk),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hist {
    a: Arr,
    ops: Vec<Op>,
    fs: bool,
    reload: bool,
}

fn hist() -> impl Strategy<Value = Hist> {
    (arr(), proptest::collection::vec(op(), 1..14), prop::bool::weighted(0.25), any::<bool>())
        .prop_map(|(a, ops, fs, reload)| Hist { a, ops, fs, reload })
}

fn pos_in(r: &Rgn, a: &Arr) -> Option<Vec<u64>> {
    if a.dims.iter().any(|d| d.len == 0) {
        return None;
    }
    let (off, _) = r.resolve(&a.dims, false);
    Some(off.iter().zip(&a.dims).map(|(o, d)| (*o).min(d.len - 1) / d.chunk as u64).collect())
}

fn c05_run<H: HierarchyReader + HierarchyWriter>(h: &H, c: &Hist, cx: &mut Cx) -> R {
    let a = &c.a;
    let m = a.meta();
    let mut meta = m.build();
    let k = m.dt.k();
    h.create_array(&a.path, &meta).map_err(|e| format!("create_array: {}", e))?;
    if c.reload {
        meta = h.get_array_metadata(&a.path).map_err(|e| format!("get_array_metadata: {}", e))?;
    }
    let mut model = Model::new(a);
    let mut touched: Vec<Vec<u64>> = vec![];
    let mut written = 0;
    for (i, op) in c.ops.iter().enumerate() {
        let what = format!("operation {} {}", i, short(op));
        match op {
            Op::Write(r, lay, d, over) => {
                let (off, sh) = r.resolve(&a.dims, *over);
                let sh = bounded(sh, 1500);
                let n = sh.iter().product::<u64>() as usize;
                let data = d.expand(n, m.dt);
                write_region(h, k, &a.path, &meta, &off, &sh, *lay, &data).map_err(|e| format!("{}: writing {:?}+{:?}: {}", what, off, sh, e))?;
                model.write(&off, &sh, &data);
                cx.label(lay.label());
                cx.label_if(*over, "overhanging write");
                if n > 0 {
                    written += 1;
                    cx.label_if(off.iter().zip(&m.chunk).any(|(o, c)| o % *c as u64 != 0), "unaligned write");
                }
                for idx in indices(&sh) {
                    let at: Vec<u64> = idx.iter().zip(&off).map(|(a, b)| a + b).collect();
                    let p = model.split(&at).0;
                    if p.iter().zip(m.grid()).all(|(x, e)| *x < e) && !touched.contains(&p) {
                        touched.push(p);
                    }
                }
            }
            Op::Chunk(r, d) => {
                if let Some(pos) = pos_in(r, a) {
                    let data = d.expand(m.chunk_len(), m.dt);
                    write_chunk(h, k, &a.path, &meta, &pos, &data).map_err(|e| format!("{}: {}", what, e))?;
                    let v = model.chunk_from_stored(&data);
                    model.chunks.insert(pos.clone(), v);
                    touched.push(pos);
                    cx.label("chunk write");
                }
            }
            Op::Delete(r) => {
                if let Some(pos) = pos_in(r, a) {
                    h.delete_chunk(&a.path, &meta, &pos).map_err(|e| format!("{}: {}", what, e))?;
                    cx.label_if(model.chunks.remove(&pos).is_some(), "chunk deleted");
                }
            }
            Op::Read(r) => {
                let (off, sh) = r.resolve(&a.dims, false);
                let sh = bounded(sh, 3000);
                let got = read_region(h, k, &a.path, &meta, &off, &sh).map_err(|e| format!("{}: reading {:?}+{:?}: {}", what, off, sh, e))?;
                model.check_region(&what, &off, &sh, &got)?;
            }
            Op::ReadChunk(r) => {
                if let Some(pos) = pos_in(r, a) {
                    let got = read_chunk(h, k, &a.path, &meta, &pos).map_err(|e| format!("{}: {}", what, e))?;
                    model.check_chunk(&what, &pos, got.map(|g| g.1))?;
                }
            }
        }
    }
    if written > 0 {
        cx.nontrivial();
    }
    // At the end: everything, and every chunk that was ever touched or borders one.
    let (off, sh) = Rgn { d: vec![], mode: 2 }.resolve(&a.dims, false);
    let sh = bounded(sh, 6000);
    let got = read_region(h, k, &a.path, &meta, &off, &sh).map_err(|e| format!("reading everything: {}", e))?;
    model.check_region("reading everything", &off, &sh, &got)?;
    let mut check: Vec<Vec<u64>> = touched.clone();
    for t in touched.iter().take(6) {
        for d in 0..t.len() {
            let mut n = t.clone();
            n[d] += 1;
            check.push(n);
            let mut n = t.clone();
            n[d] = n[d].wrapping_sub(1);
            check.push(n);
        }
    }
    check.sort();
    check.dedup();
    let ext = m.grid();
    for p in check.iter().filter(|p| p.iter().zip(&ext).all(|(x, e)| x < e)) {
        let got = read_chunk(h, k, &a.path, &meta, p).map_err(|e| format!("chunk {:?} at the end: {}", p, e))?;
        model.check_chunk(&format!("chunk {:?} at the end", p), p, got.map(|g| g.1))?;
    }
    Ok(())
}

fn arr_labels(a: &Arr, cx: &mut Cx) {
    cx.label(match a.dims.len() {
        0 => "rank 0",
        1..=2 => "rank 1..2",
        3..=5 => "rank 3..5",
        _ => "rank 6+",
    });
    cx.label(if a.col { "chunks F" } else { "chunks C" });
    cx.label_if(a.dims.iter().any(|d| d.len > 1 << 31), "huge array");
    cx.label_if(a.dims.iter().any(|d| d.len == 0), "zero-length dimension");
    cx.label(a.comp.label());
}

fn c05_hist(c: &Hist, cx: &mut Cx) -> R {
    arr_labels(&c.a, cx);
    on_backend(c.fs, cx, |h, cx| c05_run(h, c, cx), |h, cx| c05_run(h, c, cx))
}

pub fn c05() -> Vec<Sub> {
    vec![sub("history", Cases(60_000, 1_000_000), hist, c05_hist)]
}

// ---------------------------------------------------------------- C06

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Order6 {
    a: Arr,
    r: Rgn,
    r2: Rgn,
    lay: Layout,
    data: Data,
    data2: Data,
    /// Which grid positions exist (bits).
    present: u64,
    fs: bool,
}

fn order_case() -> impl Strategy<Value = Order6> {
    (arr(), rgn(), rgn(), layout(), data(), data(), any::<u64>(), prop::bool::weighted(0.2))
        .prop_map(|(a, r, r2, lay, data, data2, present, fs)| Order6 { a, r, r2, lay, data, data2, present, fs })
}

/// `as_ndarray` and `into_ndarray` of a chunk: shape and elements by coordinate.
fn views(k: usize, meta: &ArrayMetadata, pos: &[u64], data: &[u64]) -> [(Vec<usize>, Vec<u64>); 3] {
    dispatch!(k, T => {
        let v: Vec<T> = to_v(data);
        let a = {
            let c = SliceDataChunk::<T, &[T]>::new(gc(pos), &v[..]);
            let w = c.as_ndarray(meta);
            (w.shape().to_vec(), w.iter().map(|x| x.to_b()).collect::<Vec<u64>>())
        };
        let c = VecDataChunk::<T>::new(gc(pos), v);
        let b = { let w = c.as_ndarray(meta); (w.shape().to_vec(), w.iter().map(|x| x.to_b()).collect()) };
        let w = c.into_ndarray(meta);
        let d = (w.shape().to_vec(), w.iter().map(|x| x.to_b()).collect());
        [a, b, d]
    })
}

fn c06_views(c: &Order6, cx: &mut Cx) -> R {
    arr_labels(&c.a, cx);
    let m = c.a.meta();
    let meta = m.build();
    let n = m.chunk_len();
    let data = c.data.expand(n, m.dt);
    let pos = pos_in(&c.r, &c.a).unwrap_or_else(|| vec![0; m.shape.len()]);
    let sh: Vec<u64> = m.chunk.iter().map(|&c| c as u64).collect();
    let want: Vec<u64> = indices(&sh).iter().map(|i| data[linear(i, &m.chunk, m.col)]).collect();
    let us: Vec<usize> = sh.iter().map(|&s| s as usize).collect();
    if n > 1 && m.chunk.iter().filter(|&&c| c > 1).count() > 1 {
        cx.nontrivial();
    }
    let names = ["SliceDataChunk::as_ndarray", "VecDataChunk::as_ndarray", "VecDataChunk::into_ndarray"];
    for (v, name) in views(m.dt.k(), &meta, &pos, &data).iter().zip(names) {
        ensure_eq!(v.0, us, "{} of chunk {:?}: shape", name, m.chunk);
        ensure_eq!(v.1, want, "{} of chunk {:?}: elements by coordinate", name, m.chunk);
    }
    let b = dispatch!(m.dt.k(), T => {
        let c = VecDataChunk::<T>::new(gc(&pos), to_v(&data));
        c.get_bounds(&meta)
    });
    let off: Vec<u64> = pos.iter().zip(&sh).map(|(p, c)| p * c).collect();
    ensure_eq!(b, bbox(&off, &sh), "bounds of chunk {:?}", pos);
    Ok(())
}

fn c06_run<H: HierarchyReader + HierarchyWriter>(h: &H, c: &Order6, raw: &dyn Fn(&str) -> Option<Vec<u8>>, put: &dyn Fn(&str, &[u8]), cx: &mut Cx) -> R {
    let a = &c.a;
    let m = a.meta();
    let meta = m.build();
    let k = m.dt.k();
    h.create_array(&a.path, &meta).map_err(|e| format!("create_array: {}", e))?;
    let mut model = Model::new(a);
    // Chunks of the window, stored by "another implementation" (raw codec), or through write_chunk.
    let (woff, wsh) = Rgn { d: vec![], mode: 2 }.resolve(&a.dims, false);
    let wsh = bounded(wsh, 3000);
    let foreign = a.comp.codec % 5 == 0;
    if wsh.iter().all(|&s| s > 0) {
        let lo: Vec<u64> = woff.iter().zip(&m.chunk).map(|(o, c)| o / *c as u64).collect();
        let cnt: Vec<u64> = woff.iter().zip(&wsh).zip(&m.chunk).zip(&lo).map(|(((o, s), c), l)| (o + s - 1) / *c as u64 - l + 1).collect();
        for (j, i) in indices(&cnt).iter().enumerate() {
            if (c.present >> (j % 64)) & 1 == 0 {
                continue;
            }
            let pos: Vec<u64> = i.iter().zip(&lo).map(|(a, b)| a + b).collect();
            let data = Data { seed: c.data.seed.wrapping_add(j as u32), kind: c.data.kind }.expand(m.chunk_len(), m.dt);
            if foreign {
                let coords: Vec<String> = pos.iter().map(|p| p.to_string()).collect();
                let key = if a.path.is_empty() { "data/root/c".to_string() } else { format!("data/root/{}/c", a.path) } + &coords.join(if m.dot { "." } else { "/" });
                put(&key, &m.dt.encode(&data));
            } else {
                write_chunk(h, k, &a.path, &meta, &pos, &data).map_err(|e| format!("write_chunk {:?}: {}", pos, e))?;
            }
            let v = model.chunk_from_stored(&data);
            model.chunks.insert(pos, v);
        }
    }
    cx.label(if foreign { "chunks by another implementation" } else { "chunks by write_chunk" });
    if !model.chunks.is_empty() && m.chunk.iter().filter(|&&c| c > 1).count() > 1 {
        cx.nontrivial();
    }
    let got = read_region(h, k, &a.path, &meta, &woff, &wsh).map_err(|e| format!("reading everything: {}", e))?;
    model.check_region("reading everything", &woff, &wsh, &got)?;
    let (off, sh) = c.r2.resolve(&a.dims, false);
    let sh = bounded(sh, 2000);
    let got = read_region(h, k, &a.path, &meta, &off, &sh).map_err(|e| format!("reading {:?}+{:?}: {}", off, sh, e))?;
    model.check_region(&format!("reading {:?}+{:?}", off, sh), &off, &sh, &got)?;
    // A region write, observed through whole chunks and the stored bytes.
    let (off, sh) = c.r.resolve(&a.dims, false);
    let sh = bounded(sh, 2000);
    let data = c.data2.expand(sh.iter().product::<u64>() as usize, m.dt);
    write_region(h, k, &a.path, &meta, &off, &sh, c.lay, &data).map_err(|e| format!("writing {:?}+{:?}: {}", off, sh, e))?;
    model.write(&off, &sh, &data);
    cx.label(c.lay.label());
    for pos in model.chunks.keys() {
        let what = format!("chunk {:?} after writing {:?}+{:?}", pos, off, sh);
        let got = read_chunk(h, k, &a.path, &meta, pos).map_err(|e| format!("{}: {}", what, e))?;
        model.check_chunk(&what, pos, got.map(|g| g.1))?;
        if foreign {
            let coords: Vec<String> = pos.iter().map(|p| p.to_string()).collect();
            let key = if a.path.is_empty() { "data/root/c".to_string() } else { format!("data/root/{}/c", a.path) } + &coords.join(if m.dot { "." } else { "/" });
            let want: Vec<u64> = model.stored(pos).unwrap().iter().map(|v| v.expect("in-bounds writes only")).collect();
            let bytes = raw(&key).ok_or_else(|| format!("{}: no value under {}", what, key))?;
            ensure_eq!(bytes, m.dt.encode(&want), "{}: stored bytes", what);
        }
    }
    Ok(())
}

fn c06_chunks(c: &Order6, cx: &mut Cx) -> R {
    arr_labels(&c.a, cx);
    let dir = if c.fs { Some(cx.dir()) } else { None };
    on_backend(
        c.fs,
        cx,
        |h, cx| {
            c06_run(h, c, &|k| h.map.lock().unwrap().get(k).cloned(), &|k, b| { h.map.lock().unwrap().insert(k.into(), b.into()); }, cx)
        },
        |h, cx| {
            let dir = dir.clone().unwrap();
            c06_run(
                h,
                c,
                &|k| std::fs::read(dir.join(k)).ok(),
                &|k, b| {
                    let p = dir.join(k);
                    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                    std::fs::write(p, b).unwrap();
                },
                cx,
            )
        },
    )
}

pub fn c06() -> Vec<Sub> {
    vec![
        sub("views", Cases(120_000, 1_500_000), order_case, c06_views),
        sub("chunks", Cases(160_000, 1_500_000), order_case, c06_chunks),
    ]
}

// ---------------------------------------------------------------- C07

#[derive(Clone, Debug, Serialize, Deserialize)]
struct IntoRead {
    r: Rgn,
    lay: Layout,
    /// Region: 0-4 inside, 5-6 overhanging, 7 outside.
    place: u8,
    prior: Data,
    /// 0 no buffer argument; 1 a fresh `None` buffer; else the shared buffer.
    buf: u8,
    /// Before this read: 0 rewrites chunks, 1 deletes one.
    change: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Into7 {
    a: Arr,
    present: u64,
    data: Data,
    /// What the shared buffer holds at first: nothing, or a chunk of this many
    /// elements at this position (0 an odd one, else one in the window).
    start: Option<(u16, u8)>,
    reads: Vec<IntoRead>,
    fs: bool,
}

fn into_case() -> impl Strategy<Value = Into7> {
    let rd = (rgn(), layout(), 0u8..8, data(), 0u8..6, 0u8..8).prop_map(|(r, lay, place, prior, buf, change)| IntoRead { r, lay, place, prior, buf, change });
    (arr(), any::<u64>(), data(), proptest::option::of((0u16..400, 0u8..8)), proptest::collection::vec(rd, 1..6), prop::bool::weighted(0.15))
        .prop_map(|(a, present, data, start, reads, fs)| Into7 { a, present, data, start, reads, fs })
}

/// Stores the window's chunks selected by `present`.
fn populate<H: HierarchyWriter>(h: &H, a: &Arr, meta: &ArrayMetadata, model: &mut Model, present: u64, data: Data) -> R {
    let m = a.meta();
    for (j, pos) in window_chunks(a).into_iter().enumerate() {
        if (present >> (j % 64)) & 1 == 0 {
            continue;
        }
        let d = Data { seed: data.seed.wrapping_add(j as u32 * 7919), kind: data.kind }.expand(m.chunk_len(), m.dt);
        write_chunk(h, m.dt.k(), &a.path, meta, &pos, &d).map_err(|e| format!("write_chunk {:?}: {}", pos, e))?;
        let v = model.chunk_from_stored(&d);
        model.chunks.insert(pos, v);
    }
    Ok(())
}

/// Positions of the window's chunks.
fn window_chunks(a: &Arr) -> Vec<Vec<u64>> {
    let m = a.meta();
    let (woff, wsh) = Rgn { d: vec![], mode: 2 }.resolve(&a.dims, false);
    let wsh = bounded(wsh, 3000);
    if wsh.iter().any(|&s| s == 0) {
        return vec![];
    }
    let lo: Vec<u64> = woff.iter().zip(&m.chunk).map(|(o, c)| o / *c as u64).collect();
    let cnt: Vec<u64> = woff.iter().zip(&wsh).zip(&m.chunk).zip(&lo).map(|(((o, s), c), l)| (o + s - 1) / *c as u64 - l + 1).collect();
    indices(&cnt).iter().map(|i| i.iter().zip(&lo).map(|(a, b)| a + b).collect()).collect()
}

fn c07_seq<T, H: HierarchyReader + HierarchyWriter>(h: &H, c: &Into7, meta: &ArrayMetadata, model: &mut Model, cx: &mut Cx) -> R
where
    T: ReflectedType + Bits + PartialEq,
    VecDataChunk<T>: DataChunk<T> + ReinitDataChunk<T> + ReadableDataChunk,
{
    let a = &c.a;
    let m = a.meta();
    let window = window_chunks(a);
    let mut shared: Option<VecDataChunk<T>> = c.start.map(|(n, at)| {
        let (n, pos) = match at {
            1..=7 if !window.is_empty() => (if at % 2 == 1 { m.chunk_len() } else { n as usize }, window[at as usize % window.len()].clone()),
            _ => (n as usize, vec![3, 1, 4]),
        };
        VecDataChunk::new(gc(&pos), vec![T::from_b(0x3535_3535_3535_3535); n])
    });
    for (i, rd) in c.reads.iter().enumerate() {
        match rd.change {
            0 if i > 0 => {
                cx.label("chunks rewritten between reads");
                populate(h, a, meta, model, c.present.rotate_left(i as u32), Data { seed: c.data.seed ^ i as u32, kind: c.data.kind })?
            }
            1 if i > 0 => {
                let at = model.chunks.keys().nth(rd.prior.seed as usize % model.chunks.len().max(1)).cloned();
                if let Some(pos) = at {
                    cx.label("chunk deleted between reads");
                    h.delete_chunk(&a.path, meta, &pos).map_err(|e| format!("delete_chunk {:?}: {}", pos, e))?;
                    model.chunks.remove(&pos);
                }
            }
            _ => {}
        }
        let (mut off, sh) = rd.r.resolve(&a.dims, rd.place % 8 >= 5);
        if rd.place % 8 == 7 && !off.is_empty() {
            let d = rd.r.mode as usize % off.len();
            off[d] = a.dims[d].len.saturating_add(rd.r.d[0].0 as u64 % 9).min(u64::MAX - 4000);
            cx.label("region outside the array");
        }
        let sh = bounded(sh, 2500);
        let us: Vec<usize> = sh.iter().map(|&s| s as usize).collect();
        let n: usize = us.iter().product();
        let prior = rd.prior.expand(n, m.dt);
        let what = format!("read {} of {:?}+{:?}", i, off, sh);
        let bb = bbox(&off, &sh);
        let (res, got, clean) = with_view::<T, _>(&us, rd.lay, &prior, |v| match rd.buf % 6 {
            0 => h.read_ndarray_into(&a.path, meta, &bb, v),
            1 => h.read_ndarray_into_with_buffer(&a.path, meta, &bb, v, &mut None),
            _ => h.read_ndarray_into_with_buffer(&a.path, meta, &bb, v, &mut shared),
        });
        cx.label(["no buffer", "fresh buffer", "shared buffer"][(rd.buf as usize % 6).min(2)]);
        cx.label(rd.lay.label());
        res.map_err(|e| format!("{}: {}", what, e))?;
        ensure!(clean, "{}: elements of the caller's storage outside the view changed", what);
        let (mut set, mut kept) = (0, 0);
        for ((idx, g), p) in indices(&sh).iter().zip(&got).zip(&prior) {
            let at: Vec<u64> = idx.iter().zip(&off).map(|(a, b)| a + b).collect();
            match model.at(&at) {
                Err(()) => {
                    kept += 1;
                    ensure!(g == p, "{}: element {:?} of a chunk that is not stored changed from {:#x} to {:#x}", what, at, p, g);
                }
                Ok(v) if model.inside(&at) => {
                    set += 1;
                    let v = v.unwrap();
                    ensure!(*g == v, "{}: element {:?} is {:#x}, expected {:#x} (was {:#x})", what, at, g, v, p);
                }
                Ok(_) => {}
            }
        }
        cx.label_if(set > 0 && kept > 0, "stored and unstored elements");
        if set > 0 {
            cx.nontrivial();
        }
    }
    Ok(())
}

fn c07_run<H: HierarchyReader + HierarchyWriter>(h: &H, c: &Into7, cx: &mut Cx) -> R {
    let m = c.a.meta();
    let meta = m.build();
    h.create_array(&c.a.path, &meta).map_err(|e| format!("create_array: {}", e))?;
    let mut model = Model::new(&c.a);
    populate(h, &c.a, &meta, &mut model, c.present, c.data)?;
    dispatch!(m.dt.k(), T => c07_seq::<T, H>(h, c, &meta, &mut model, cx))
}

fn c07_into(c: &Into7, cx: &mut Cx) -> R {
    arr_labels(&c.a, cx);
    on_backend(c.fs, cx, |h, cx| c07_run(h, c, cx), |h, cx| c07_run(h, c, cx))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Mismatch {
    a: Arr,
    present: u64,
    data: Data,
    r: Rgn,
    lay: Layout,
    prior: Data,
    /// How region, target and array disagree.
    how: u8,
    at: u8,
    by: u8,
    buf: bool,
}

fn mismatch_case() -> impl Strategy<Value = Mismatch> {
    (arr(), any::<u64>(), data(), rgn(), layout(), data(), 0u8..7, any::<u8>(), any::<u8>(), any::<bool>())
        .prop_map(|(a, present, data, r, lay, prior, how, at, by, buf)| Mismatch { a, present: present | 1, data, r, lay, prior, how, at, by, buf })
}

fn c07_mismatch(c: &Mismatch, cx: &mut Cx) -> R {
    arr_labels(&c.a, cx);
    let h = Mem::new();
    let a = &c.a;
    let m = a.meta();
    let meta = m.build();
    let k = m.dt.k();
    let mut model = Model::new(a);
    populate(&h, a, &meta, &mut model, c.present, c.data)?;
    let before = h.snapshot();
    let (mut off, mut sh) = c.r.resolve(&a.dims, false);
    sh = bounded(sh, 1500);
    let mut target = sh.clone();
    let rank = sh.len();
    let at = c.at as usize % (rank + 1);
    let big = 1 + c.by as u64 % 4;
    match c.how % 7 {
        // Target of another shape.
        0 if rank > 0 => target[at % rank] += big,
        1 if rank > 0 && target[at % rank] > 0 => target[at % rank] -= 1,
        2 if rank > 1 && target[0] != target[rank - 1] => target.reverse(),
        // Target of another rank (an extra or missing dimension of length one).
        3 => target.insert(at, 1),
        // Region and target of another rank than the array.
        4 => {
            target.insert(at, 1);
            sh.insert(at, 1);
            off.insert(at, 0);
        }
        5 if rank > 0 => {
            target.remove(at % rank);
            sh.remove(at % rank);
            off.remove(at % rank);
        }
        6 if rank > 0 => {
            sh.remove(at % rank);
            off.remove(at % rank);
        }
        _ => {
            target.insert(at, 2);
            sh.insert(at, 2);
            off.insert(at, 1);
        }
    }
    cx.label(["target longer", "target shorter", "target reversed", "target rank", "region rank +1", "region rank -1", "region rank -1, target fits array"][c.how as usize % 7]);
    cx.nontrivial();
    let us: Vec<usize> = target.iter().map(|&s| s as usize).collect();
    let prior = c.prior.expand(us.iter().product(), m.dt);
    let bb = bbox(&off, &sh);
    let what = format!("reading {:?}+{:?} of an array of shape {:?} into a target of shape {:?}", off, sh, m.shape, target);
    let (ok, got, clean) = dispatch!(k, T => {
        let (res, got, clean) = with_view::<T, _>(&us, c.lay, &prior, |v| {
            if c.buf { h.read_ndarray_into_with_buffer(&a.path, &meta, &bb, v, &mut None) } else { h.read_ndarray_into(&a.path, &meta, &bb, v) }
        });
        (res.is_ok(), got, clean)
    });
    ensure!(!ok, "{} succeeded", what);
    ensure!(got == prior && clean, "{} was refused but changed the target", what);
    if c.how % 7 >= 4 {
        // Allocating and writing with a wrong rank is refused as well.
        if sh.len() != m.shape.len() {
            ensure!(read_region(&h, k, &a.path, &meta, &off, &sh).is_err(), "read_ndarray of {:?}+{:?} of an array of shape {:?} succeeded", off, sh, m.shape);
            let d = vec![0; sh.iter().product::<u64>() as usize];
            ensure!(write_region(&h, k, &a.path, &meta, &off, &sh, c.lay, &d).is_err(), "write_ndarray of {:?}+{:?} to an array of shape {:?} succeeded", off, sh, m.shape);
        }
    }
    ensure_eq!(h.snapshot(), before, "{}: the store's content", what);
    Ok(())
}

pub fn c07() -> Vec<Sub> {
    vec![
        sub("sequence", Cases(30_000, 1_000_000), into_case, c07_into),
        sub("mismatch", Cases(20_000, 500_000), mismatch_case, c07_mismatch),
    ]
}

// ---------------------------------------------------------------- C08

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Fill8 {
    a: Arr,
    /// JSON text of the fill value; `None`: null by absence is not valid JSON metadata, so null.
    fill: String,
    present: u64,
    data: Data,
    r: Rgn,
    r2: Rgn,
    lay: Layout,
    wdata: Data,
    fs: bool,
}

fn fill_text() -> BoxedStrategy<String> {
    let bound = prop_oneof![
        Just(0i128), Just(1), Just(-1), Just(127), Just(128), Just(-128), Just(-129), Just(255), Just(256), Just(32767), Just(32768),
        Just(-32768), Just(-32769), Just(65535), Just(65536), Just(2147483647), Just(2147483648), Just(-2147483648), Just(-2147483649),
        Just(4294967295), Just(4294967296), Just(i64::MAX as i128), Just(i64::MAX as i128 + 1), Just(i64::MIN as i128),
        Just(u64::MAX as i128), Just(u64::MAX as i128 - 1), Just(9007199254740993), Just(16777217), Just(2049), Just(65504), Just(65519), Just(65520),
    ];
    let float = prop_oneof![
        Just("0.5".to_string()), Just("-0.0".into()), Just("-0.25".into()), Just("1e-3".into()), Just("0.1".into()), Just("3.5e4".into()), Just("65504.0".into()),
        Just("65536.0".into()), Just("1e5".into()), Just("3.4028234663852886e38".into()), Just("3.5e38".into()), Just("1e39".into()), Just("-1e39".into()),
        Just("1.7976931348623157e308".into()), Just("5e-324".into()), Just("1e-45".into()), Just("6e-8".into()), Just("5.960464477539063e-8".into()),
        Just("6.103515625e-5".into()), Just("1e-46".into()), Just("1.0".into()), Just("255.0".into()), Just("256.0".into()), Just("-1.0".into()), Just("1e2".into()),
        (-100000i32..100000).prop_map(|i| format!("{}", json!(i as f64 / 64.0))),
        any::<f32>().prop_filter("finite", |f| f.is_finite()).prop_map(|f| json!(f as f64).to_string()),
        any::<f64>().prop_filter("finite", |f| f.is_finite()).prop_map(|f| json!(f).to_string()),
        any::<u16>().prop_map(|b| half::f16::from_bits(b)).prop_filter("finite", |f| f.is_finite()).prop_map(|f| json!(f.to_f64()).to_string()),
    ];
    prop_oneof![
        2 => Just("null".to_string()),
        2 => Just("true".to_string()),
        1 => Just("false".to_string()),
        6 => bound.prop_map(|b| b.to_string()),
        4 => any::<i64>().prop_map(|b| b.to_string()),
        4 => (-300i64..300).prop_map(|b| b.to_string()),
        6 => float,
        4 => prop_oneof![Just("\"NaN\""), Just("\"Infinity\""), Just("\"-Infinity\"")].prop_map(|s| s.to_string()),
        2 => prop_oneof![Just("\"\""), Just("\"nan\""), Just("\"infinity\""), Just("\"+Infinity\""), Just("\"inf\""), Just("\"0\""), Just("\"1.5\""), Just("\"true\""), Just("\"Infinity \"")].prop_map(|s| s.to_string()),
        2 => prop_oneof![Just("[]"), Just("[0]"), Just("{}"), Just("{\"a\":1}"), Just("[1,2]")].prop_map(|s| s.to_string()),
    ]
    .boxed()
}

fn fill_case() -> impl Strategy<Value = Fill8> {
    (arr(), fill_text(), prop_oneof![Just(0u64), any::<u64>()], data(), rgn(), rgn(), layout(), data(), prop::bool::weighted(0.1))
        .prop_map(|(a, fill, present, data, r, r2, lay, wdata, fs)| Fill8 { a, fill, present, data, r, r2, lay, wdata, fs })
}

/// What the fill value may be: the acceptable bit patterns, and whether an error is acceptable.
struct Want {
    bits: Vec<u64>,
    err: bool,
}

/// Reference conversion by numeric value. Finite floats that are not exactly
/// representable may take either neighbour.
fn want_fill(v: &Value, k: usize) -> Want {
    let only = |b: u64| Want { bits: vec![b], err: false };
    let error = || Want { bits: vec![], err: true };
    match (v, k) {
        (Value::Null, _) => only(0),
        (Value::Bool(b), 0) => only(*b as u64),
        (Value::Number(n), 0) => {
            // Not a JSON boolean; only 0 and 1 have an unambiguous meaning.
            let f = n.as_f64().unwrap_or(9.0);
            if f == 0.0 || f == 1.0 { Want { bits: vec![f as u64], err: true } } else { error() }
        }
        (Value::Number(n), 1..=8) => {
            let x: Option<i128> = n.as_i64().map(|x| x as i128).or(n.as_u64().map(|x| x as i128));
            let dt = Dt { k: k as u8, big: false };
            let bits = 8 * dt.size() as u32;
            let (lo, hi) = if k <= 4 { (0i128, (1i128 << bits) - 1) } else { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) };
            match x {
                Some(x) if x >= lo && x <= hi => only(x as u64 & dt.mask()),
                Some(_) => error(),
                None => {
                    // A JSON float: refused, or its integral value.
                    let f = n.as_f64().unwrap();
                    if f.fract() == 0.0 && f >= lo as f64 && f <= hi as f64 && f.abs() < 9.0e15 {
                        Want { bits: vec![f as i128 as u64 & dt.mask()], err: true }
                    } else {
                        error()
                    }
                }
            }
        }
        (Value::Number(n), _) => {
            // The exact value, as integer or float.
            let f = n.as_f64().unwrap();
            let inexact_int = n.as_i64().map_or(n.as_u64().map_or(false, |u| f as u128 != u as u128), |i| f as i128 != i as i128);
            float_neighbours(f, k, inexact_int)
        }
        (Value::String(s), 9..=11) => {
            let f = match s.as_str() {
                "NaN" => f64::NAN,
                "Infinity" => f64::INFINITY,
                "-Infinity" => f64::NEG_INFINITY,
                _ => return error(),
            };
            // Any NaN will do: marked by `u64::MAX`.
            if f.is_nan() {
                return only(u64::MAX);
            }
            only(match k {
                9 => if f > 0.0 { 0x7c00 } else { 0xfc00 },
                10 => (f as f32).to_bits() as u64,
                _ => f.to_bits(),
            })
        }
        _ => error(),
    }
}

fn float_neighbours(f: f64, k: usize, inexact_int: bool) -> Want {
    let mut bits = vec![];
    let mut err = false;
    match k {
        11 => {
            bits.push(f.to_bits());
            if inexact_int {
                bits.push(f.to_bits() + 1);
                bits.push(f.to_bits().wrapping_sub(1));
            }
        }
        10 => {
            // Largest float at or below |f|, by value.
            let mag = f.abs();
            if mag > f32::MAX as f64 {
                err = true;
                // Values that round to the largest float may be taken as it.
                if mag < 3.4028235677973366e38 {
                    bits.push(f32::MAX.to_bits() as u64);
                }
            } else {
                let mut b = (mag as f32).to_bits();
                if f32::from_bits(b) as f64 > mag {
                    b -= 1;
                }
                bits.push(b as u64);
                if f32::from_bits(b) as f64 != mag {
                    if f32::from_bits(b + 1).is_finite() {
                        bits.push(b as u64 + 1);
                    } else {
                        err = true;
                    }
                }
            }
            if f.is_sign_negative() {
                bits.iter_mut().for_each(|b| *b |= 1 << 31);
            }
        }
        _ => {
            let mag = f.abs();
            if mag > 65504.0 {
                err = true;
                if mag < 65520.0 {
                    bits.push(0x7bff);
                }
            } else {
                // Bits of non-negative finite half floats are ordered by value.
                let (mut lo, mut hi) = (0u16, 0x7bffu16);
                while lo < hi {
                    let mid = ((lo as u32 + hi as u32 + 1) / 2) as u16;
                    if half_value(mid) <= mag { lo = mid } else { hi = mid - 1 }
                }
                bits.push(lo as u64);
                if half_value(lo) != mag {
                    if lo + 1 <= 0x7bff {
                        bits.push(lo as u64 + 1);
                    } else {
                        err = true;
                    }
                }
            }
            if f.is_sign_negative() {
                bits.iter_mut().for_each(|b| *b |= 1 << 15);
            }
        }
    }
    Want { bits, err }
}

/// Value of a non-negative finite half float.
fn half_value(b: u16) -> f64 {
    let e = (b >> 10) as i32;
    let m = (b & 0x3ff) as f64;
    if e == 0 { m * 2f64.powi(-24) } else { (1024.0 + m) * 2f64.powi(e - 25) }
}

fn is_nan_bits(b: u64, k: usize) -> bool {
    match k {
        9 => b & 0x7c00 == 0x7c00 && b & 0x3ff != 0,
        10 => f32::from_bits(b as u32).is_nan(),
        11 => f64::from_bits(b).is_nan(),
        _ => false,
    }
}

fn c08_run<H: HierarchyReader + HierarchyWriter>(h: &H, c: &Fill8, cx: &mut Cx) -> R {
    let a = &c.a;
    let mut m = a.meta();
    m.fill = serde_json::from_str(&c.fill).map_err(|e| format!("harness: fill text {}: {}", c.fill, e))?;
    let k = m.dt.k();
    let want = want_fill(&m.fill, k);
    let meta = m.build();
    let what = format!("fill value {} of type {}", c.fill, m.dt.name());
    let got = dispatch!(k, T => meta.get_effective_fill_value::<T>().map(|v| v.to_b()));
    cx.label(match &m.fill {
        Value::Null => "fill null",
        Value::Bool(_) => "fill boolean",
        Value::Number(n) if n.is_f64() => "fill float",
        Value::Number(_) => "fill integer",
        Value::String(_) => "fill string",
        _ => "fill array or object",
    });
    let fill = match got {
        Err(e) => {
            cx.label("refused");
            ensure!(want.err, "{}: refused ({}), expected {:x?}", what, e, want.bits);
            // Region access reports it and stores nothing.
            h.create_array(&a.path, &meta).map_err(|e| format!("create_array: {}", e))?;
            let (off, sh) = c.r.resolve(&a.dims, false);
            let sh = bounded(sh, 500);
            ensure!(read_region(h, k, &a.path, &meta, &off, &sh).is_err(), "{}: region read succeeded", what);
            let d = c.wdata.expand(sh.iter().product::<u64>() as usize, m.dt);
            ensure!(write_region(h, k, &a.path, &meta, &off, &sh, c.lay, &d).is_err(), "{}: region write succeeded", what);
            return Ok(());
        }
        Ok(b) => {
            let fits = want.bits.iter().any(|&w| w == b || (w == u64::MAX && is_nan_bits(b, k) && k >= 9));
            ensure!(fits, "{}: effective fill value {:#x}, expected {}{:x?}", what, b, if want.err { "an error or " } else { "" }, want.bits);
            b
        }
    };
    // Stored and reloaded, the fill value is the same.
    h.create_array(&a.path, &meta).map_err(|e| format!("create_array: {}", e))?;
    let loaded = h.get_array_metadata(&a.path).map_err(|e| format!("{}: get_array_metadata: {}", what, e))?;
    let re = dispatch!(k, T => loaded.get_effective_fill_value::<T>().map(|v| v.to_b())).map_err(|e| format!("{} reloaded: {}", what, e))?;
    let fill = if survives_text(&m.fill) {
        ensure!(re == fill || (is_nan_bits(re, k) && is_nan_bits(fill, k)), "{}: {:#x} after a store round trip, {:#x} before", what, re, fill);
        fill
    } else {
        cx.label("float altered by its JSON text");
        // The value that serde_json makes of the printed one, or the exact one.
        let altered: Value = serde_json::from_str(&m.fill.to_string()).map_err(|e| format!("harness: {}", e))?;
        let ok = re == fill || want_fill(&altered, k).bits.contains(&re);
        ensure!(ok, "{}: {:#x} after a store round trip, {:#x} before", what, re, fill);
        re
    };
    let mut model = Model { m: m.clone(), fill, chunks: BTreeMap::new() };
    populate(h, a, &loaded, &mut model, c.present, c.data)?;
    // Reading, also beyond the array.
    let (off, sh) = c.r2.resolve(&a.dims, c.r2.mode >= 5);
    let sh = bounded(sh, 2000);
    let got = read_region(h, k, &a.path, &loaded, &off, &sh).map_err(|e| format!("reading {:?}+{:?}: {}", off, sh, e))?;
    model.check_region(&format!("{}: reading {:?}+{:?}", what, off, sh), &off, &sh, &got)?;
    // A partial write stores it for the rest of new chunks.
    let (off, sh) = c.r.resolve(&a.dims, false);
    let sh = bounded(sh, 1500);
    let d = c.wdata.expand(sh.iter().product::<u64>() as usize, m.dt);
    write_region(h, k, &a.path, &loaded, &off, &sh, c.lay, &d).map_err(|e| format!("writing {:?}+{:?}: {}", off, sh, e))?;
    let before = model.chunks.len();
    model.write(&off, &sh, &d);
    cx.label_if(model.chunks.len() > before, "write created chunks");
    cx.nontrivial();
    for pos in model.chunks.keys() {
        let w = format!("{}: chunk {:?} after writing {:?}+{:?}", what, pos, off, sh);
        let got = read_chunk(h, k, &a.path, &loaded, pos).map_err(|e| format!("{}: {}", w, e))?;
        model.check_chunk(&w, pos, got.map(|g| g.1))?;
    }
    let (off, sh) = Rgn { d: vec![], mode: 2 }.resolve(&a.dims, false);
    let sh = bounded(sh, 3000);
    let got = read_region(h, k, &a.path, &loaded, &off, &sh).map_err(|e| format!("reading everything: {}", e))?;
    model.check_region(&format!("{}: reading everything", what), &off, &sh, &got)
}

fn c08_fill(c: &Fill8, cx: &mut Cx) -> R {
    arr_labels(&c.a, cx);
    on_backend(c.fs, cx, |h, cx| c08_run(h, c, cx), |h, cx| c08_run(h, c, cx))
}

/// Only the conversion, for many values.
fn conv_case() -> impl Strategy<Value = (String, Dt)> {
    (fill_text(), dt())
}

fn c08_convert(c: &(String, Dt), cx: &mut Cx) -> R {
    let v: Value = serde_json::from_str(&c.0).unwrap();
    let mut m = Meta::simple(vec![3], vec![2], c.1);
    m.fill = v.clone();
    let meta = m.build();
    let k = c.1.k();
    let want = want_fill(&v, k);
    cx.nontrivial();
    cx.label_if(want.err, "may be refused");
    cx.label_if(!want.bits.is_empty(), "may be accepted");
    match dispatch!(k, T => meta.get_effective_fill_value::<T>().map(|v| v.to_b())) {
        Err(e) => ensure!(want.err, "fill value {} of type {}: refused ({}), expected {:x?}", c.0, c.1.name(), e, want.bits),
        Ok(b) => {
            let fits = want.bits.iter().any(|&w| w == b || (w == u64::MAX && is_nan_bits(b, k) && k >= 9));
            ensure!(fits, "fill value {} of type {}: {:#x}, expected {}{:x?}", c.0, c.1.name(), b, if want.err { "an error or " } else { "" }, want.bits);
        }
    }
    Ok(())
}

pub fn c08() -> Vec<Sub> {
    vec![
        sub("convert", Cases(300_000, 3_000_000), conv_case, c08_convert),
        sub("regions", Cases(240_000, 1_500_000), fill_case, c08_fill),
    ]
}

// ---------------------------------------------------------------- C34

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Touch {
    r: Rgn,
    write: bool,
    over: bool,
    lay: Layout,
    data: Data,
    /// Reads: into a new array, into a view, with a shared buffer.
    form: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Foot {
    a: Arr,
    ops: Vec<Touch>,
    present: u64,
    /// Which of the chunks hold damaged values.
    damaged: u64,
    /// How many elements a damaged chunk's value lacks.
    lack: u8,
    data: Data,
    fs: bool,
}

fn foot_case() -> impl Strategy<Value = Foot> {
    let touch = (rgn(), any::<bool>(), prop::bool::weighted(0.2), layout(), data(), 0u8..3)
        .prop_map(|(r, write, over, lay, data, form)| Touch { r, write, over, lay, data, form });
    let damaged = prop_oneof![
        1 => Just(0u64),
        2 => (0u8..64, 0u8..64).prop_map(|(a, b)| 1u64 << a | 1 << b),
        2 => (any::<u64>(), any::<u64>()).prop_map(|(a, b)| a & b),
        1 => any::<u64>(),
    ];
    (arr(), proptest::collection::vec(touch, 1..=4), any::<u64>(), damaged, any::<u8>(), data(), prop::bool::weighted(0.2))
        .prop_map(|(a, ops, present, damaged, lack, data, fs)| Foot { a, ops, present, damaged, lack, data, fs })
}

/// What a region has of a chunk: nothing (in the array), something, all of its
/// elements in the array but not those beyond the edge, all.
fn share(m: &Meta, pos: &[u64], off: &[u64], sh: &[u64]) -> u8 {
    let mut s = 3;
    for i in 0..pos.len() {
        let c = m.chunk[i] as u128;
        let (lo, hi) = (pos[i] as u128 * c, (pos[i] as u128 + 1) * c);
        let (a, b) = (off[i] as u128, off[i] as u128 + sh[i] as u128);
        let edge = hi.min(m.shape[i] as u128);
        let d = if a.max(lo) >= b.min(edge) { 0 } else if a <= lo && b >= hi { 3 } else if a <= lo && b >= edge { 2 } else { 1 };
        s = s.min(d);
    }
    s
}

fn c34_seq<T, H>(h: &H, c: &Foot, keys: &dyn Fn() -> Result<BTreeMap<String, Vec<u8>>, String>, put: &dyn Fn(&str, &[u8]), log: &dyn Fn() -> Vec<(char, String)>, cx: &mut Cx) -> R
where
    H: HierarchyReader + HierarchyWriter,
    T: ReflectedType + Bits + PartialEq,
    VecDataChunk<T>: DataChunk<T> + ReinitDataChunk<T> + ReadableDataChunk,
{
    let a = &c.a;
    let m = a.meta();
    let meta = m.build();
    let k = m.dt.k();
    h.create_array(&a.path, &meta).map_err(|e| format!("create_array: {}", e))?;
    let mut model = Model::new(a);
    populate(h, a, &meta, &mut model, c.present, c.data)?;
    let key = |pos: &[u64]| zarr::storage::get_chunk_key(&a.path, &meta, pos).trim_start_matches('/').to_string();
    // Values with too few elements can not be read as chunks.
    let window = window_chunks(a);
    let n = m.chunk_len();
    let mut damaged: Vec<Vec<u64>> = vec![];
    for (j, pos) in window.iter().enumerate() {
        if c.damaged >> (j % 64) & 1 == 1 && model.chunks.contains_key(pos) && n > 0 {
            let mut few = m.clone();
            let left = n - (1 + c.lack as usize % n);
            few.shape = vec![left as u64];
            few.chunk = vec![left.max(1) as u32];
            let mut bytes = vec![];
            if left > 0 {
                enc(&mut bytes, k, &few.build(), &[0], &c.data.expand(left, m.dt)).map_err(|e| format!("encoding {} elements: {}", left, e))?;
            }
            put(&key(pos), &bytes);
            damaged.push(pos.clone());
        }
    }
    let mut shared: Option<VecDataChunk<T>> = None;
    for (i, op) in c.ops.iter().enumerate() {
        let (off, sh) = op.r.resolve(&a.dims, op.over);
        let sh = bounded(sh, 1500);
        let us: Vec<usize> = sh.iter().map(|&s| s as usize).collect();
        let count = us.iter().product::<usize>();
        let before = keys()?;
        log();
        // The region's chunks.
        let mut touched: Vec<Vec<u64>> = indices(&sh).iter().map(|x| x.iter().zip(&off).map(|(a, b)| a + b).collect::<Vec<u64>>()).filter(|at| model.inside(at)).map(|at| model.split(&at).0).collect();
        touched.sort();
        touched.dedup();
        let bad: Vec<Vec<u64>> = damaged.iter().filter(|p| touched.contains(p)).cloned().collect();
        let beside = damaged.len() > bad.len();
        let what = format!("operation {}: {} {:?}+{:?} of {:?} in chunks of {:?}", i, if op.write { "writing" } else { "reading" }, off, sh, m.shape, m.chunk);
        if !op.write {
            let bb = bbox(&off, &sh);
            let prior = op.data.expand(count, m.dt);
            let (res, got) = if op.form == 0 {
                match h.read_ndarray::<T>(&a.path, &meta, &bb) {
                    Ok(v) => (Ok(()), v.iter().map(|x| x.to_b()).collect()),
                    Err(e) => (Err(e), vec![]),
                }
            } else {
                let (r, got, _) = with_view::<T, _>(&us, op.lay, &prior, |v| match op.form {
                    1 => h.read_ndarray_into(&a.path, &meta, &bb, v),
                    _ => h.read_ndarray_into_with_buffer(&a.path, &meta, &bb, v, &mut shared),
                });
                (r, got)
            };
            if bad.is_empty() {
                res.map_err(|e| format!("{}, with damaged chunks only beside it: {}", what, e))?;
                cx.label_if(beside && count > 0, "damage beside a read");
                if beside && count > 0 {
                    cx.nontrivial();
                }
                for ((idx, g), p) in indices(&sh).iter().zip(&got).zip(&prior) {
                    let at: Vec<u64> = idx.iter().zip(&off).map(|(a, b)| a + b).collect();
                    let want = match model.at(&at) {
                        Ok(v) if model.inside(&at) => v,
                        Ok(_) => None,
                        Err(()) => Some(if op.form == 0 { model.fill } else { *p }),
                    };
                    if let Some(w) = want {
                        ensure!(*g == w, "{}: element {:?} is {:#x}, expected {:#x}", what, at, g, w);
                    }
                }
            } else {
                cx.label("damage in a read");
                cx.nontrivial();
                ensure!(res.is_err(), "{}: succeeds, though chunk {:?} in it is {} elements short", what, bad[0], 1 + c.lack as usize % n);
            }
            let after = keys()?;
            if let Some(d) = diff(&before, &after) {
                return Err(format!("{}: the store changed: {}", what, d));
            }
            ensure!(!log().iter().any(|(o, _)| matches!(o, 'w' | 'e' | 'p')), "{}: something was written or erased", what);
            continue;
        }
        let data = op.data.expand(count, m.dt);
        let res = write_region(h, k, &a.path, &meta, &off, &sh, op.lay, &data);
        let after = keys()?;
        for (op, x) in log() {
            ensure!(!matches!(op, 'w' | 'e' | 'p') || op == 'w' && touched.iter().any(|p| key(p) == x), "{}: {} {:?}, which has none of the region's elements", what, if op == 'w' { "writes" } else { "erases" }, x);
        }
        // Chunks beyond the region are as they were.
        let mine: Vec<String> = touched.iter().map(|p| key(p)).collect();
        let others = |s: &BTreeMap<String, Vec<u8>>| s.iter().filter(|(k, _)| !mine.contains(k)).map(|(k, v)| (k.clone(), v.clone())).collect::<BTreeMap<_, _>>();
        if let Some(d) = diff(&others(&before), &others(&after)) {
            return Err(format!("{}: beside the region, {}", what, d));
        }
        let needed = bad.iter().find(|p| share(&m, p, &off, &sh) == 1);
        let maybe = bad.iter().any(|p| share(&m, p, &off, &sh) == 2);
        if let Some(p) = needed {
            ensure!(res.is_err(), "{}: succeeds, though it has a part of chunk {:?}, which can not be read", what, p);
        } else if !maybe {
            if let Err(e) = &res {
                return Err(format!("{}, where no partly written chunk is damaged: {}", what, e));
            }
        }
        cx.label_if(beside && !touched.is_empty(), "damage beside a write");
        cx.label_if(needed.is_some(), "damage in a partly written chunk");
        cx.label_if(bad.iter().any(|p| share(&m, p, &off, &sh) == 3), "damaged chunk overwritten");
        if !touched.is_empty() {
            cx.nontrivial();
        }
        let mut next = Model { m: model.m.clone(), fill: model.fill, chunks: model.chunks.clone() };
        // What a damaged chunk holds beyond what is written is not known.
        for p in &bad {
            next.chunks.insert(p.clone(), vec![None; n]);
        }
        next.write(&off, &sh, &data);
        for p in &touched {
            let id = key(p);
            let same = before.get(&id) == after.get(&id);
            let is_bad = bad.contains(p);
            if res.is_err() && same {
                continue;
            }
            if is_bad && share(&m, p, &off, &sh) == 1 {
                return Err(format!("{}: fails, and changes chunk {:?}, which it could not read", what, p));
            }
            let got = read_chunk(h, k, &a.path, &meta, p).map_err(|e| format!("{}: then reading chunk {:?}: {}", what, p, e))?;
            next.check_chunk(&format!("{}: chunk {:?}", what, p), p, got.map(|g| g.1))?;
            damaged.retain(|d| d != p);
            model.chunks.insert(p.clone(), next.chunks[p].clone());
        }
    }
    Ok(())
}

fn c34_foot(c: &Foot, cx: &mut Cx) -> R {
    arr_labels(&c.a, cx);
    let trim = |s: &str| s.trim_start_matches('/').to_string();
    if c.fs {
        let dir = cx.dir();
        let h = FilesystemHierarchy::open_or_create(&dir).map_err(|e| e.to_string())?;
        cx.label("filesystem");
        let keys = || Ok(snap_files(&dir));
        let put = |k: &str, v: &[u8]| std::fs::write(dir.join(k), v).expect("placing a damaged chunk");
        dispatch!(c.a.dt.k(), T => c34_seq::<T, _>(&h, c, &keys, &put, &|| vec![], cx))
    } else {
        let h = Mem::new();
        cx.label("in-memory store");
        let keys = || Ok(h.snapshot());
        let put = |k: &str, v: &[u8]| h.put(k, v);
        let log = || h.take_log().into_iter().map(|(o, k)| (o, trim(&k))).collect();
        dispatch!(c.a.dt.k(), T => c34_seq::<T, _>(&h, c, &keys, &put, &log, cx))
    }
}

pub fn c34() -> Vec<Sub> {
    vec![sub("footprint", Cases(40_000, 1_200_000), foot_case, c34_foot)]
}
