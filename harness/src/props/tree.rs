//! Histories of nodes, attributes and chunks against a reference model:
//! C03, C17, C18, C19, C20, C21, C23, C28.

use crate::fw::*;
use crate::gen::*;
use crate::io::*;
use crate::store::*;
use crate::{ensure, ensure_eq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use zarr::prelude::*;
use zarr::EntryPointMetadata;

type Snap = BTreeMap<String, Vec<u8>>;

// ---------------------------------------------------------------- cases

/// A path: a pick among the existing nodes (or their relatives), or components
/// from the case's names.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct P {
    pick: Option<u8>,
    c: Vec<u8>,
    deco: u16,
}

fn p() -> impl Strategy<Value = P> {
    (proptest::option::weighted(0.45, any::<u8>()), proptest::collection::vec(prop_oneof![1 => 0u8..2, 1 => 0u8..5], 0..=3), prop_oneof![2 => Just(0u16), 1 => any::<u16>()])
        .prop_map(|(pick, c, deco)| P { pick, c, deco })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ASpec {
    rank: u8,
    dt: Dt,
    comp: Comp,
    dot: bool,
    col: bool,
    fill: bool,
    huge: bool,
    attrs: Map<String, Value>,
}

fn aspec() -> impl Strategy<Value = ASpec> {
    (0u8..4, dt(), comp_cheap(), any::<bool>(), any::<bool>(), any::<bool>(), prop::bool::weighted(0.2), attrs())
        .prop_map(|(rank, dt, comp, dot, col, fill, huge, attrs)| ASpec { rank, dt, comp, dot, col, fill, huge, attrs })
}

impl ASpec {
    fn meta(&self) -> Meta {
        let (shape, chunk): (Vec<u64>, Vec<u32>) = match self.rank % 4 {
            0 => (vec![], vec![]),
            1 => (vec![if self.huge { 1 << 40 } else { 5 }], vec![2]),
            2 => (vec![5, if self.huge { u64::MAX } else { 3 }], vec![2, 3]),
            _ => (vec![2, 3, 4], vec![1, 2, 2]),
        };
        let mut m = Meta::simple(shape, chunk, self.dt);
        m.comp = self.comp;
        m.dot = self.dot;
        m.col = self.col;
        m.fill = if !self.fill { Value::Null } else if self.dt.k() == 0 { json!(true) } else { json!(3) };
        m
    }
}

/// Positions a chunk operation may use: low ones, and the last.
fn positions(m: &Meta) -> Vec<Vec<u64>> {
    let grid = m.grid();
    let per: Vec<Vec<u64>> = grid
        .iter()
        .map(|&g| {
            let mut v: Vec<u64> = (0..g.min(3)).collect();
            if g > 3 {
                v.extend([10.min(g - 1), 12.min(g - 1), g - 1]);
                v.sort();
                v.dedup();
            }
            v
        })
        .collect();
    indices(&per.iter().map(|v| v.len() as u64).collect::<Vec<_>>()).iter().map(|i| i.iter().zip(&per).map(|(&i, v)| v[i as usize]).collect()).collect()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Group(P),
    Array(P, ASpec),
    Remove(P),
    RemoveAll,
    Attr(P, String, Value),
    Attrs(P, Map<String, Value>),
    /// Setting attributes to their current values.
    Same(P, u8),
    Write(P, u8, Data),
    Region(P, u8, u8, Data),
    Delete(P, u8),
    ReadChunk(P, u8),
    ReadRegion(P, u8, u8),
    Query(P),
    /// Adds members unknown to the library to a stored document.
    Plant(P, String, Value),
    Reopen(u8),
    /// Operations that must be refused.
    BadType(P, u8, u8),
    BadCount(P, u8, u8),
    BadRank(P, u8),
    BadFill(P, u8),
    BadPath(u8, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    names: Vec<String>,
    suffix: u8,
    /// 0 component-wise memory, 1 literal memory, 2 filesystem, 3 memory that
    /// can not test for prefixes.
    store: u8,
    ops: Vec<(u8, Op)>,
}

pub const SUFFIXES: [&str; 8] = [".json", "", ".meta", ".v3.json", "json", ".é", "..x", ".array"];

fn names() -> impl Strategy<Value = Vec<String>> {
    const EXT: [&str; 12] = ["b", ".", "-x", ".array", ".array.json", ".group", "0", "é", ".json", ".group.json", "..", ".a"];
    (name(), name(), 0usize..EXT.len(), name(), 0usize..3).prop_map(|(a, b, e, d, cut)| {
        let ext = format!("{}{}", a, EXT[e]);
        // A proper prefix of a name, and a name extending another.
        let pre: String = match cut {
            0 => a.chars().take(a.chars().count().saturating_sub(1)).collect(),
            1 => format!("{}{}", ext, b),
            _ => b.to_uppercase(),
        };
        let pre = if pre.is_empty() || pre == "." || pre == ".." { "z".into() } else { pre };
        vec![a, ext, b, pre, d]
    })
}

/// (groups, arrays, removals, attributes, chunks, refused)
fn ops(w: [u32; 7], max: usize) -> impl Strategy<Value = Vec<(u8, Op)>> {
    let [g, a, r, at, ch, q, bad] = w;
    let op = prop_oneof![
        g.max(1) => p().prop_map(Op::Group),
        a.max(1) => (p(), aspec()).prop_map(|(p, s)| Op::Array(p, s)),
        (4 * r).max(1) => p().prop_map(Op::Remove),
        (r / 2).max(1) => Just(Op::RemoveAll),
        (2 * at).max(1) => (p(), attr_key(), json_value()).prop_map(|(p, k, v)| Op::Attr(p, k, v)),
        at.max(1) => (p(), attrs()).prop_map(|(p, m)| Op::Attrs(p, m)),
        (at / 2).max(1) => (p(), any::<u8>()).prop_map(|(p, n)| Op::Same(p, n)),
        (at / 2).max(1) => (p(), attr_key(), json_value()).prop_map(|(p, k, v)| Op::Plant(p, k, v)),
        (3 * ch).max(1) => (p(), any::<u8>(), data()).prop_map(|(p, n, d)| Op::Write(p, n, d)),
        ch.max(1) => (p(), any::<u8>(), any::<u8>(), data()).prop_map(|(p, n, e, d)| Op::Region(p, n, e, d)),
        ch.max(1) => (p(), any::<u8>()).prop_map(|(p, n)| Op::Delete(p, n)),
        ch.max(1) => (p(), any::<u8>()).prop_map(|(p, n)| Op::ReadChunk(p, n)),
        (ch / 2).max(1) => (p(), any::<u8>(), any::<u8>()).prop_map(|(p, n, e)| Op::ReadRegion(p, n, e)),
        q.max(1) => p().prop_map(Op::Query),
        1 => any::<u8>().prop_map(Op::Reopen),
        bad.max(1) => (p(), any::<u8>(), any::<u8>()).prop_map(|(p, n, k)| Op::BadType(p, n, k)),
        bad.max(1) => (p(), any::<u8>(), any::<u8>()).prop_map(|(p, n, k)| Op::BadCount(p, n, k)),
        bad.max(1) => (p(), any::<u8>()).prop_map(|(p, n)| Op::BadRank(p, n)),
        bad.max(1) => (p(), any::<u8>()).prop_map(|(p, n)| Op::BadFill(p, n)),
        bad.max(1) => (any::<u8>(), any::<u8>()).prop_map(|(p, n)| Op::BadPath(p, n)),
    ];
    proptest::collection::vec((0u8..3, op), 1..=max)
}

/// Histories that begin with up to `head` creations (of `arrays` out of 8 arrays).
fn case(w: [u32; 7], head: usize, arrays: u32, max: usize) -> impl Strategy<Value = Case> {
    let ops = (proptest::collection::vec((0u8..3, prop_oneof![
        8 - arrays => p().prop_map(Op::Group),
        arrays => (p(), aspec()).prop_map(|(p, s)| Op::Array(p, s)),
    ]), 0..=head), ops(w, max)).prop_map(|(mut a, b)| { a.extend(b); a });
    (names(), prop_oneof![3 => Just(0u8), 2 => 0u8..8], prop_oneof![2 => Just(0u8), 2 => Just(1u8), 6 => Just(2u8), 1 => Just(3u8)], ops)
        .prop_map(|(names, suffix, store, ops)| Case { names, suffix, store, ops })
}

// ---------------------------------------------------------------- model

#[derive(Clone, Debug)]
struct Node {
    arr: Option<(Meta, Value)>,
    attrs: Map<String, Value>,
    chunks: BTreeMap<Vec<u64>, Vec<u64>>,
}

#[derive(Default, Clone, Debug)]
pub struct Model {
    nodes: BTreeMap<String, Node>,
    /// Directories that may have stayed behind empty.
    dirs: BTreeSet<String>,
    /// Everything ever removed.
    gone: BTreeMap<String, Node>,
    lenient: bool,
    /// Whether the store can tell that there are implicit groups.
    no_prefixes: bool,
}

fn under(p: &str, anc: &str) -> bool {
    if anc.is_empty() { !p.is_empty() } else { p.len() > anc.len() && p.starts_with(anc) && p.as_bytes()[anc.len()] == b'/' }
}

fn ancestors(p: &str) -> Vec<String> {
    if p.is_empty() {
        return vec![];
    }
    let c: Vec<&str> = p.split('/').collect();
    (0..c.len()).map(|i| c[..i].join("/")).collect()
}

impl Model {
    fn exists(&self, p: &str) -> bool {
        self.nodes.contains_key(p) || self.nodes.keys().any(|k| under(k, p))
    }
    fn implicit(&self, p: &str) -> bool {
        !self.nodes.contains_key(p) && self.exists(p)
    }
    fn is_array(&self, p: &str) -> bool {
        self.nodes.get(p).map_or(false, |n| n.arr.is_some())
    }
    fn below_array(&self, p: &str) -> bool {
        ancestors(p).iter().any(|a| self.is_array(a))
    }
    fn kids<'a>(set: impl Iterator<Item = &'a String>, p: &str) -> BTreeSet<String> {
        let skip = if p.is_empty() { 0 } else { p.len() + 1 };
        set.filter(|k| under(k, p)).map(|k| k[skip..].split('/').next().unwrap().to_string()).collect()
    }
    fn children(&self, p: &str) -> BTreeSet<String> {
        Model::kids(self.nodes.keys(), p)
    }
    fn arrays(&self) -> Vec<&String> {
        self.nodes.iter().filter(|(_, n)| n.arr.is_some()).map(|(k, _)| k).collect()
    }
    fn add(&mut self, p: &str, n: Node) {
        self.nodes.insert(p.to_string(), n);
        if self.lenient {
            self.dirs.extend(ancestors(p));
        }
    }
    fn remove(&mut self, p: &str) {
        let all: Vec<String> = self.nodes.keys().filter(|k| *k == p || under(k, p)).cloned().collect();
        for k in all {
            let n = self.nodes.remove(&k).unwrap();
            self.gone.insert(k, n);
        }
        self.dirs.retain(|d| d != p && !under(d, p));
    }
}

// ---------------------------------------------------------------- acts

/// A path in canonical and in actual spelling.
#[derive(Clone, Debug)]
struct Sp {
    c: String,
    s: String,
}

#[derive(Clone, Debug)]
enum Act {
    Group(Sp),
    Array(Sp, Meta, Value),
    Remove(Sp),
    RemoveAll,
    Attr(Sp, String, Value),
    Attrs(Sp, Map<String, Value>),
    Write(Sp, Meta, Vec<u64>, Vec<u64>),
    Region(Sp, Meta, Vec<u64>, Vec<u64>, Vec<u64>),
    Delete(Sp, Meta, Vec<u64>),
    ReadChunk(Sp, Meta, Vec<u64>, Option<usize>),
    ReadRegion(Sp, Meta, Vec<u64>, Vec<u64>),
    Exists(Sp),
    ArrayExists(Sp),
    List(Sp),
    GetAttrs(Sp),
    GetMeta(Sp),
    Uri(Sp, Meta, Vec<u64>),
    /// Must be refused, whatever it is.
    Refused(Box<Act>, &'static str),
    /// Region of the wrong rank.
    Ranked(Sp, Meta, Vec<u64>, Vec<u64>),
    /// A chunk of another element type.
    Typed(Sp, Meta, usize, Vec<u64>, usize),
}

#[derive(Clone, Debug, PartialEq)]
enum Out {
    Unit,
    Bool(bool),
    Names(Vec<String>),
    Json(Value),
    Chunk(Option<(Vec<u64>, Vec<u64>)>),
    Elems(Vec<usize>, Vec<u64>),
    Text(String),
}

type Res = Result<Out, String>;

fn exec<H: HierarchyReader + HierarchyWriter + HierarchyLister>(h: &H, a: &Act) -> Result<Res, String> {
    let r = no_panic(|| exec_raw(h, a)).map_err(|p| format!("{}: panic: {}", describe(a), p))?;
    Ok(r.map_err(|e| e.to_string()))
}

fn exec_raw<H: HierarchyReader + HierarchyWriter + HierarchyLister>(h: &H, a: &Act) -> std::io::Result<Out> {
    Ok(match a {
        Act::Group(p) => {
            h.create_group(&p.s)?;
            Out::Unit
        }
        Act::Array(p, _, doc) => {
            h.create_array(&p.s, &meta_from(doc))?;
            Out::Unit
        }
        Act::Remove(p) => {
            h.remove(&p.s)?;
            Out::Unit
        }
        Act::RemoveAll => {
            h.remove_all()?;
            Out::Unit
        }
        Act::Attr(p, k, v) => {
            h.set_attribute(&p.s, k.clone(), v)?;
            Out::Unit
        }
        Act::Attrs(p, m) => {
            h.set_attributes(&p.s, m.clone())?;
            Out::Unit
        }
        Act::Write(p, m, pos, data) => {
            write_chunk(h, m.dt.k(), &p.s, &m.build(), pos, data)?;
            Out::Unit
        }
        Act::Region(p, m, off, sh, data) => {
            write_region(h, m.dt.k(), &p.s, &m.build(), off, sh, Layout { kind: 0, seed: 0 }, data)?;
            Out::Unit
        }
        Act::Delete(p, m, pos) => Out::Bool(h.delete_chunk(&p.s, &m.build(), pos)?),
        Act::ReadChunk(p, m, pos, prev) => Out::Chunk(match prev {
            None => read_chunk(h, m.dt.k(), &p.s, &m.build(), pos)?,
            Some(n) => read_chunk_into(h, m.dt.k(), &p.s, &m.build(), pos, *n)?,
        }),
        Act::ReadRegion(p, m, off, sh) => {
            let (s, v) = read_region(h, m.dt.k(), &p.s, &m.build(), off, sh)?;
            Out::Elems(s, v)
        }
        Act::Exists(p) => Out::Bool(h.exists(&p.s)?),
        Act::ArrayExists(p) => Out::Bool(h.array_exists(&p.s)?),
        Act::List(p) => Out::Names(h.list_nodes(&p.s)?),
        Act::GetAttrs(p) => Out::Json(Value::Object(h.list_attributes(&p.s)?)),
        Act::GetMeta(p) => Out::Json(serde_json::to_value(h.get_array_metadata(&p.s)?)?),
        Act::Uri(p, m, pos) => Out::Text(h.get_chunk_uri(&p.s, &m.build(), pos)?),
        Act::Refused(a, _) => exec_raw(h, a)?,
        Act::Ranked(p, m, off, sh) => {
            use zarr::ndarray::ZarrNdarrayWriter;
            let sh: Vec<usize> = sh.iter().map(|&x| x as usize).collect();
            let k = m.dt.k();
            crate::dispatch!(k, T => {
                let a: ndarray::ArrayD<T> = ndarray::Array::from_elem(ndarray::IxDyn(&sh), T::from_b(1));
                h.write_ndarray(&p.s, &m.build(), gc(off), &a)?
            });
            Out::Unit
        }
        Act::Typed(p, m, k, pos, n) => {
            write_chunk(h, *k, &p.s, &m.build(), pos, &vec![1; *n])?;
            Out::Unit
        }
    })
}

fn describe(a: &Act) -> String {
    match a {
        Act::Group(p) => format!("create_group({:?})", p.s),
        Act::Array(p, ..) => format!("create_array({:?})", p.s),
        Act::Remove(p) => format!("remove({:?})", p.s),
        Act::RemoveAll => "remove_all()".into(),
        Act::Attr(p, k, v) => format!("set_attribute({:?}, {:?}, {})", p.s, k, v),
        Act::Attrs(p, m) => format!("set_attributes({:?}, {})", p.s, Value::Object(m.clone())),
        Act::Write(p, _, pos, _) => format!("write_chunk({:?}, {:?})", p.s, pos),
        Act::Region(p, _, o, s, _) => format!("write_ndarray({:?}, {:?}+{:?})", p.s, o, s),
        Act::Delete(p, _, pos) => format!("delete_chunk({:?}, {:?})", p.s, pos),
        Act::ReadChunk(p, _, pos, i) => format!("{}({:?}, {:?})", if i.is_some() { "read_chunk_into" } else { "read_chunk" }, p.s, pos),
        Act::ReadRegion(p, _, o, s) => format!("read_ndarray({:?}, {:?}+{:?})", p.s, o, s),
        Act::Exists(p) => format!("exists({:?})", p.s),
        Act::ArrayExists(p) => format!("array_exists({:?})", p.s),
        Act::List(p) => format!("list_nodes({:?})", p.s),
        Act::GetAttrs(p) => format!("list_attributes({:?})", p.s),
        Act::GetMeta(p) => format!("get_array_metadata({:?})", p.s),
        Act::Uri(p, _, pos) => format!("get_chunk_uri({:?}, {:?})", p.s, pos),
        Act::Refused(a, why) => format!("{} ({})", describe(a), why),
        Act::Ranked(p, m, o, s) => format!("write_ndarray({:?}, offset of rank {}, array of rank {}, to rank {})", p.s, o.len(), s.len(), m.shape.len()),
        Act::Typed(p, m, k, pos, n) => format!("write_chunk({:?}, {:?}, {} elements of {} into {})", p.s, pos, n, KINDS[*k], m.dt.name()),
    }
}

impl Act {
    fn path(&self) -> Option<&Sp> {
        match self {
            Act::Group(p) | Act::Array(p, ..) | Act::Remove(p) | Act::Attr(p, ..) | Act::Attrs(p, ..) | Act::Write(p, ..) | Act::Region(p, ..)
            | Act::Delete(p, ..) | Act::ReadChunk(p, ..) | Act::ReadRegion(p, ..) | Act::Exists(p) | Act::ArrayExists(p) | Act::List(p)
            | Act::GetAttrs(p) | Act::GetMeta(p) | Act::Uri(p, ..) | Act::Ranked(p, ..) | Act::Typed(p, ..) => Some(p),
            Act::RemoveAll => None,
            Act::Refused(a, _) => a.path(),
        }
    }
    fn reads(&self) -> bool {
        matches!(self, Act::ReadChunk(..) | Act::ReadRegion(..) | Act::Exists(_) | Act::ArrayExists(_) | Act::List(_) | Act::GetAttrs(_) | Act::GetMeta(_) | Act::Uri(..))
    }
}

/// Chunks that a region touches, and the elements of each in chunk order.
fn chunk_cells(m: &Meta, off: &[u64], sh: &[u64]) -> BTreeMap<Vec<u64>, Vec<(usize, usize)>> {
    let mut out: BTreeMap<Vec<u64>, Vec<(usize, usize)>> = BTreeMap::new();
    for (n, i) in indices(sh).iter().enumerate() {
        let at: Vec<u64> = i.iter().zip(off).map(|(a, b)| a + b).collect();
        let pos: Vec<u64> = at.iter().zip(&m.chunk).map(|(a, c)| a / *c as u64).collect();
        let rel: Vec<u64> = at.iter().zip(&m.chunk).map(|(a, c)| a % *c as u64).collect();
        out.entry(pos).or_default().push((linear(&rel, &m.chunk, m.col), n));
    }
    out
}

fn fill_bits(m: &Meta) -> u64 {
    if m.fill.is_null() {
        0
    } else {
        match m.dt.k() {
            0 => 1,
            9 => half::f16::from_f32(3.0).to_bits() as u64,
            10 => 3f32.to_bits() as u64,
            11 => 3f64.to_bits(),
            _ => 3,
        }
    }
}

impl Model {
    /// Compares the outcome of an act with what the model expects, and applies it.
    fn step(&mut self, a: &Act, out: &Res) -> R {
        let d = || describe(a);
        let ok = out.is_ok();
        let must = |want: bool| -> R {
            match (ok, want) {
                (true, false) => Err(format!("{}: succeeded, expected an error", d())),
                (false, true) => Err(format!("{}: {}", d(), out.as_ref().unwrap_err())),
                _ => Ok(()),
            }
        };
        match a {
            Act::Group(p) => {
                match self.nodes.get(&p.c) {
                    Some(n) => must(n.arr.is_none())?,
                    None => {
                        if !self.below_array(&p.c) {
                            must(true)?;
                        }
                        if ok {
                            self.add(&p.c, Node { arr: None, attrs: Map::new(), chunks: BTreeMap::new() });
                        }
                    }
                }
            }
            Act::Array(p, m, doc) => {
                if self.nodes.contains_key(&p.c) {
                    must(false)?;
                } else {
                    if !self.exists(&p.c) && !self.below_array(&p.c) {
                        must(true)?;
                    }
                    if ok {
                        let attrs = doc["attributes"].as_object().unwrap().clone();
                        self.add(&p.c, Node { arr: Some((m.clone(), doc.clone())), attrs, chunks: BTreeMap::new() });
                    }
                }
            }
            Act::Remove(p) => {
                if self.exists(&p.c) {
                    must(true)?;
                }
                if ok {
                    self.remove(&p.c);
                }
            }
            Act::RemoveAll => {
                must(true)?;
                self.remove("");
            }
            Act::Attr(..) | Act::Attrs(..) => {
                let (p, m) = match a {
                    Act::Attr(p, k, v) => (p, std::iter::once((k.clone(), v.clone())).collect::<Map<_, _>>()),
                    Act::Attrs(p, m) => (p, m.clone()),
                    _ => unreachable!(),
                };
                let implicit = self.implicit(&p.c);
                match self.nodes.get_mut(&p.c) {
                    Some(n) => {
                        must(true)?;
                        for (k, v) in m {
                            n.attrs.insert(k, v);
                        }
                    }
                    None if implicit => {
                        if ok {
                            self.add(&p.c, Node { arr: None, attrs: m, chunks: BTreeMap::new() });
                        }
                    }
                    None => must(false)?,
                }
            }
            Act::Write(p, _, pos, data) => {
                must(true)?;
                self.nodes.get_mut(&p.c).unwrap().chunks.insert(pos.clone(), data.clone());
            }
            Act::Region(p, m, off, sh, data) => {
                must(true)?;
                let n = self.nodes.get_mut(&p.c).unwrap();
                for (pos, cells) in chunk_cells(m, off, sh) {
                    let c = n.chunks.entry(pos).or_insert_with(|| vec![fill_bits(m); m.chunk_len()]);
                    for (l, i) in cells {
                        c[l] = data[i];
                    }
                }
            }
            Act::Delete(p, _, pos) => {
                must(true)?;
                ensure_eq!(out.as_ref().unwrap(), &Out::Bool(true), "{}: absent afterwards", d());
                self.nodes.get_mut(&p.c).unwrap().chunks.remove(pos);
            }
            Act::ReadChunk(p, m, pos, _) => {
                must(true)?;
                let want = self.nodes.get(&p.c).and_then(|n| n.chunks.get(pos));
                let got = match out.as_ref().unwrap() {
                    Out::Chunk(c) => c,
                    _ => unreachable!(),
                };
                match (got, want) {
                    (None, None) => {}
                    (Some((gp, v)), Some(w)) => {
                        ensure_eq!(gp, pos, "{}: grid position", d());
                        ensure_eq!(v, w, "{} of type {}", d(), m.dt.name());
                    }
                    (Some(_), None) => return Err(format!("{}: found a chunk, expected none", d())),
                    (None, Some(_)) => return Err(format!("{}: found no chunk, expected one", d())),
                }
            }
            Act::ReadRegion(p, m, off, sh) => {
                must(true)?;
                let n = self.nodes.get(&p.c);
                let mut want = vec![fill_bits(m); sh.iter().product::<u64>() as usize];
                for (pos, cells) in chunk_cells(m, off, sh) {
                    if let Some(c) = n.and_then(|n| n.chunks.get(&pos)) {
                        for (l, i) in cells {
                            want[i] = c[l];
                        }
                    }
                }
                match out.as_ref().unwrap() {
                    Out::Elems(s, v) => {
                        ensure_eq!(s, &sh.iter().map(|&x| x as usize).collect::<Vec<_>>(), "{}: shape", d());
                        ensure_eq!(v, &want, "{}: elements", d());
                    }
                    _ => unreachable!(),
                }
            }
            Act::Exists(p) => {
                must(true)?;
                let want = self.exists(&p.c);
                if (want || !self.dirs.contains(&p.c)) && !(self.no_prefixes && self.implicit(&p.c)) {
                    ensure_eq!(out.as_ref().unwrap(), &Out::Bool(want), "{}", d());
                }
            }
            Act::ArrayExists(p) => {
                must(true)?;
                ensure_eq!(out.as_ref().unwrap(), &Out::Bool(self.is_array(&p.c)), "{}", d());
            }
            Act::List(p) => {
                if self.exists(&p.c) {
                    must(true)?;
                }
                if let Ok(Out::Names(got)) = out {
                    let set: BTreeSet<String> = got.iter().cloned().collect();
                    ensure_eq!(set.len(), got.len(), "{}: duplicates in {:?}", d(), got);
                    let want = self.children(&p.c);
                    let mut may = want.clone();
                    may.extend(Model::kids(self.dirs.iter(), &p.c));
                    if want == may {
                        ensure_eq!(set, want, "{}", d());
                    } else {
                        ensure!(want.is_subset(&set) && set.is_subset(&may), "{}: got {:?}, expected {:?} and at most {:?}", d(), set, want, may);
                    }
                }
            }
            Act::GetAttrs(p) => match self.nodes.get(&p.c) {
                Some(n) => {
                    must(true)?;
                    ensure_eq!(out.as_ref().unwrap(), &Out::Json(Value::Object(n.attrs.clone())), "{}", d());
                }
                None if self.implicit(&p.c) || self.dirs.contains(&p.c) => {
                    if let Ok(o) = out {
                        ensure_eq!(o, &Out::Json(json!({})), "{} of an implicit group", d());
                    }
                }
                None => must(false)?,
            },
            Act::GetMeta(p) => match self.nodes.get(&p.c).and_then(|n| n.arr.as_ref().map(|a| (n, a))) {
                Some((n, (_, doc))) => {
                    must(true)?;
                    let mut want = doc.clone();
                    want["attributes"] = Value::Object(n.attrs.clone());
                    let got = match out.as_ref().unwrap() {
                        Out::Json(v) => super::meta::explicit(v),
                        _ => unreachable!(),
                    };
                    ensure_eq!(got, super::meta::explicit(&want), "{}", d());
                }
                None => must(false)?,
            },
            Act::Uri(..) => must(true)?,
            Act::Refused(..) | Act::Ranked(..) | Act::Typed(..) => must(false)?,
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- resolution

fn chunk_like(c: &str) -> bool {
    c.starts_with('c') && c[1..].bytes().all(|b| b.is_ascii_digit() || b == b'.')
}

struct Names<'a> {
    names: &'a [String],
    suffix: &'a str,
}

impl<'a> Names<'a> {
    fn doc_key(&self, p: &str, kind: &str) -> String {
        let s = self.suffix.strip_prefix('.').unwrap_or(self.suffix);
        if p.is_empty() { format!("meta/root.{}.{}", kind, s) } else { format!("meta/root/{}.{}.{}", p, kind, s) }
    }
    /// A component that can collide with neither a metadata document's name
    /// (unless last) nor a chunk's key.
    fn comp(&self, i: u8, last: bool) -> String {
        let n = &self.names[i as usize % self.names.len()];
        let s = self.suffix.strip_prefix('.').unwrap_or(self.suffix);
        let clash = n.ends_with(&format!(".array.{}", s)) || n.ends_with(&format!(".group.{}", s));
        if chunk_like(n) || (clash && !last) { format!("n{}", i) } else { n.clone() }
    }
    fn path(&self, p: &P, model: &Model, arrays: bool) -> Option<Sp> {
        let pool: Vec<&String> = if arrays { model.arrays() } else { model.nodes.keys().collect() };
        let c = if arrays {
            if pool.is_empty() {
                return None;
            }
            pool[p.pick.unwrap_or(p.c.first().copied().unwrap_or(0)) as usize % pool.len()].clone()
        } else {
            let len = p.c.len();
            match p.pick {
                Some(i) if !pool.is_empty() => {
                    let b = pool[i as usize % pool.len()].clone();
                    // The node itself, an ancestor, or a descendant.
                    match (i / 32, len) {
                        (0..=4, _) | (_, 0) => b,
                        (5, _) => b.rsplit_once('/').map_or(String::new(), |x| x.0.to_string()),
                        (6, _) if !b.is_empty() => {
                            let e = ["b", ".x", "-", "0", ".array", "é"][p.c[0] as usize % 6];
                            let n = format!("{}{}", b, e);
                            if chunk_like(n.rsplit('/').next().unwrap()) { b } else { n }
                        }
                        _ => {
                            let s = self.suffix.strip_prefix('.').unwrap_or(self.suffix);
                            if b.ends_with(&format!(".array.{}", s)) || b.ends_with(&format!(".group.{}", s)) {
                                b
                            } else if b.is_empty() {
                                self.comp(p.c[0], true)
                            } else {
                                format!("{}/{}", b, self.comp(p.c[0], true))
                            }
                        }
                    }
                }
                _ => p.c.iter().enumerate().map(|(j, &i)| self.comp(i, j + 1 == len)).collect::<Vec<_>>().join("/"),
            }
        };
        Some(Sp { s: decorate(&c, p.deco), c })
    }

    fn region(m: &Meta, n: u8, e: u8) -> (Vec<u64>, Vec<u64>) {
        let mut r = Sm(n as u64 * 256 + e as u64);
        let mut off = vec![];
        let mut sh = vec![];
        for &s in &m.shape {
            let w = s.min(6);
            // Mostly the start, sometimes the end of the dimension.
            let base = if s > 6 && r.below(3) == 0 { s - 6 } else { 0 };
            let o = r.below(w);
            let l = 1 + r.below(w - o);
            off.push(base + o);
            sh.push(l);
        }
        (off, sh)
    }

    /// The acts an operation stands for in the model's current state.
    fn acts(&self, op: &Op, model: &Model) -> Vec<Act> {
        let arr = |p: &P| -> Option<(Sp, Meta, Vec<Vec<u64>>)> {
            let sp = self.path(p, model, true)?;
            let m = model.nodes[&sp.c].arr.as_ref().unwrap().0.clone();
            let pos = positions(&m);
            Some((sp, m, pos))
        };
        let at = |pos: &[Vec<u64>], n: u8| pos[n as usize % pos.len()].clone();
        match op {
            Op::Group(p) => vec![Act::Group(self.path(p, model, false).unwrap())],
            Op::Array(p, s) => {
                let m = s.meta();
                let mut doc = m.json();
                doc["attributes"] = Value::Object(s.attrs.clone());
                vec![Act::Array(self.path(p, model, false).unwrap(), m, doc)]
            }
            Op::Remove(p) => vec![Act::Remove(self.path(p, model, false).unwrap())],
            Op::RemoveAll => vec![Act::RemoveAll],
            Op::Attr(p, k, v) => vec![Act::Attr(self.path(p, model, false).unwrap(), k.clone(), v.clone())],
            Op::Attrs(p, m) => vec![Act::Attrs(self.path(p, model, false).unwrap(), m.clone())],
            Op::Same(p, n) => {
                let sp = self.path(p, model, false).unwrap();
                match model.nodes.get(&sp.c) {
                    Some(node) => {
                        let m = node.attrs.iter().enumerate().filter(|(i, _)| (n >> (i % 8)) & 1 == 0).map(|(_, (k, v))| (k.clone(), v.clone())).collect();
                        vec![Act::Attrs(sp, m)]
                    }
                    None => vec![],
                }
            }
            Op::Write(p, n, d) => match arr(p) {
                Some((sp, m, pos)) => {
                    let data = d.expand(m.chunk_len(), m.dt);
                    vec![Act::Write(sp, m, at(&pos, *n), data)]
                }
                None => vec![],
            },
            Op::Region(p, n, e, d) => match arr(p) {
                Some((sp, m, _)) => {
                    let (off, sh) = Names::region(&m, *n, *e);
                    let data = d.expand(sh.iter().product::<u64>() as usize, m.dt);
                    vec![Act::Region(sp, m, off, sh, data)]
                }
                None => vec![],
            },
            Op::Delete(p, n) => arr(p).map_or(vec![], |(sp, m, pos)| vec![Act::Delete(sp, m, at(&pos, *n))]),
            Op::ReadChunk(p, n) => arr(p).map_or(vec![], |(sp, m, pos)| vec![Act::ReadChunk(sp, m, at(&pos, *n), if n % 3 == 0 { Some(*n as usize) } else { None })]),
            Op::ReadRegion(p, n, e) => arr(p).map_or(vec![], |(sp, m, _)| {
                let (off, sh) = Names::region(&m, *n, *e);
                vec![Act::ReadRegion(sp, m, off, sh)]
            }),
            Op::Query(p) => {
                let sp = self.path(p, model, false).unwrap();
                self.queries(&sp)
            }
            Op::Plant(..) | Op::Reopen(_) => vec![],
            Op::BadType(p, n, k) => arr(p).map_or(vec![], |(sp, m, pos)| {
                let k = *k as usize % 12;
                if k == m.dt.k() { vec![] } else { vec![Act::Typed(sp, m.clone(), k, at(&pos, *n), m.chunk_len())] }
            }),
            Op::BadCount(p, n, k) => arr(p).map_or(vec![], |(sp, m, pos)| {
                let l = m.chunk_len();
                let wrong = if *k as usize == l { l + 1 } else { *k as usize };
                vec![Act::Typed(sp, m.clone(), m.dt.k(), at(&pos, *n), wrong)]
            }),
            Op::BadRank(p, n) => arr(p).map_or(vec![], |(sp, m, _)| {
                let r = m.shape.len();
                let or = if n % 3 == 0 { r } else { (r + 1 + (*n as usize / 3) % 4) % 5 };
                let ar = if n % 3 == 1 { r } else { (r + 1 + (*n as usize / 3) % 4) % 5 };
                if or == r && ar == r { vec![] } else { vec![Act::Ranked(sp, m, vec![0; or], vec![2; ar])] }
            }),
            Op::BadFill(p, n) => arr(p).map_or(vec![], |(sp, mut m, pos)| {
                m.fill = match (n % 4, m.dt.k()) {
                    (0, 0) => json!(1),
                    (0, 9..=11) => json!("nan?"),
                    (0, _) => json!("NaN"),
                    (1, _) => json!([1]),
                    (2, 0..=4) => json!(-1),
                    (2, _) => json!({}),
                    _ => json!("x"),
                };
                let sh: Vec<u64> = m.shape.iter().map(|&s| s.min(3)).collect();
                let off = vec![0; sh.len()];
                let data = vec![1; sh.iter().product::<u64>() as usize];
                let _ = pos;
                vec![Act::Refused(Box::new(Act::Region(sp.clone(), m.clone(), off.clone(), sh.clone(), data)), "fill value of the wrong type"),
                    Act::Refused(Box::new(Act::ReadRegion(sp, m, off, sh)), "fill value of the wrong type")]
            }),
            Op::BadPath(i, n) => {
                let up = ["../../..", "a/../../../../b", "../../../x", "/../../../../..", "a/b/../../../../../c", "../../../data/root/a"][*i as usize % 6];
                let sp = Sp { c: up.into(), s: up.into() };
                let m = Meta::simple(vec![3], vec![2], Dt { k: 1, big: false });
                let a = match n % 8 {
                    0 => Act::Group(sp),
                    1 => { let doc = m.json(); Act::Array(sp, m, doc) }
                    2 => Act::Remove(sp),
                    3 => Act::Attr(sp, "a".into(), json!(1)),
                    4 => Act::Write(sp, m, vec![0], vec![1, 2]),
                    5 => Act::Delete(sp, m, vec![0]),
                    6 => Act::Region(sp, m, vec![0], vec![3], vec![1, 2, 3]),
                    _ => Act::GetAttrs(sp),
                };
                vec![Act::Refused(Box::new(a), "path climbing above the root")]
            }
        }
    }

    fn queries(&self, sp: &Sp) -> Vec<Act> {
        vec![Act::Exists(sp.clone()), Act::ArrayExists(sp.clone()), Act::List(sp.clone()), Act::GetAttrs(sp.clone()), Act::GetMeta(sp.clone())]
    }

    /// Paths worth asking about: nodes, ancestors, relatives and misspellings.
    fn interesting(&self, model: &Model, wide: bool) -> BTreeSet<String> {
        let mut out: BTreeSet<String> = BTreeSet::new();
        out.insert(String::new());
        for k in model.nodes.keys().chain(model.dirs.iter()).chain(model.gone.keys()) {
            out.extend(ancestors(k));
            out.insert(k.clone());
        }
        if wide {
            let some: Vec<String> = out.iter().cloned().collect();
            for k in &some {
                let join = |c: &str| if k.is_empty() { c.to_string() } else { format!("{}/{}", k, c) };
                out.insert(join(&self.names[0]));
                out.insert(join(&self.names[1]));
                if !k.is_empty() {
                    for e in ["b", ".array", ".group"] {
                        out.insert(format!("{}{}", k, e));
                    }
                    let s = self.suffix.strip_prefix('.').unwrap_or(self.suffix);
                    out.insert(format!("{}.array.{}", k, s));
                    out.insert(format!("{}.group.{}", k, s));
                    let mut t = k.clone();
                    t.pop();
                    if !t.is_empty() && !t.ends_with('/') {
                        out.insert(t);
                    }
                    if let Some((a, _)) = k.rsplit_once('.') {
                        if !a.is_empty() && !a.ends_with('/') && !a.ends_with('.') {
                            out.insert(a.to_string());
                        }
                    }
                }
            }
            for n in self.names {
                out.insert(n.clone());
            }
        }
        out.retain(|p| p.split('/').all(|c| c != "." && c != ".." && !chunk_like(c)) || p.is_empty());
        out
    }
}

// ---------------------------------------------------------------- engine

#[derive(Clone, Copy, PartialEq)]
enum Focus {
    Chunks,
    Existence,
    Listing,
    Removal,
    Attributes,
    Unchanged,
}

struct Env<'a, H> {
    hs: Vec<H>,
    files: Box<dyn Fn() -> Snap + 'a>,
    full: Box<dyn Fn() -> Snap + 'a>,
    put: Box<dyn Fn(&str, &[u8]) + 'a>,
    reopen: Box<dyn Fn(u8) -> Result<H, String> + 'a>,
}

fn ep(suffix: &str) -> EntryPointMetadata {
    serde_json::from_value(ep_json(suffix)).unwrap()
}

pub fn ep_json(suffix: &str) -> Value {
    json!({"zarr_format": "https://purl.org/zarr/spec/protocol/core/3.0", "metadata_encoding": "https://purl.org/zarr/spec/protocol/core/3.0", "metadata_key_suffix": suffix, "extensions": []})
}

fn fs_env<'a>(dir: std::path::PathBuf, suffix: &str) -> Result<Env<'a, FilesystemHierarchy>, String> {
    if suffix != ".json" {
        std::fs::write(dir.join("zarr.json"), ep_json(suffix).to_string()).unwrap();
    }
    let mk = |i: u8| -> Result<FilesystemHierarchy, String> {
        if i % 2 == 0 { FilesystemHierarchy::open_or_create(&dir) } else { FilesystemHierarchy::open(&dir) }.map_err(|e| format!("opening: {}", e))
    };
    let hs = vec![mk(0)?, mk(1)?, mk(1)?.clone()];
    let (d1, d2, d3, d4) = (dir.clone(), dir.clone(), dir.clone(), dir.clone());
    Ok(Env {
        hs,
        files: Box::new(move || snap_files(&d1)),
        full: Box::new(move || snap(&d2)),
        put: Box::new(move |k, v| std::fs::write(d3.join(k), v).unwrap()),
        reopen: Box::new(move |i| if i % 2 == 0 { FilesystemHierarchy::open_or_create(&d4) } else { FilesystemHierarchy::open(&d4) }.map_err(|e| format!("reopening: {}", e))),
    })
}

fn mem_env<'a>(m: Mem) -> Env<'a, Mem> {
    let (a, b, c, d) = (m.clone(), m.clone(), m.clone(), m.clone());
    Env {
        hs: vec![m.clone(), m.clone(), m],
        files: Box::new(move || a.snapshot()),
        full: Box::new(move || b.snapshot()),
        put: Box::new(move |k, v| c.put(k, v)),
        reopen: Box::new(move |_| Ok(d.clone())),
    }
}

fn mem_for(c: &Case, suffix: &str) -> Mem {
    let mut m = Mem::with(ep(suffix));
    m.literal = c.store % 3 == 1;
    m.prefixes = c.store != 3;
    m.buffered = c.names[0].len() % 2 == 0;
    m
}

fn run<H: HierarchyReader + HierarchyWriter + HierarchyLister>(env: &mut Env<H>, c: &Case, lenient: bool, f: Focus, cx: &mut Cx) -> R {
    let suffix = SUFFIXES[c.suffix as usize % SUFFIXES.len()];
    let names = Names { names: &c.names, suffix };
    let mut model = Model { lenient, no_prefixes: c.store == 3, ..Model::default() };
    let mut changes = 0;
    let entry: Snap = (env.files)();
    for (n, (hi, op)) in c.ops.iter().enumerate() {
        let h = &env.hs[*hi as usize % env.hs.len()];
        let ctx = |e: String| format!("operation {}: {}", n, e);
        match op {
            Op::Reopen(i) => {
                let before = (env.full)();
                let h = (env.reopen)(*i).map_err(ctx)?;
                if f == Focus::Unchanged {
                    if let Some(d) = diff(&before, &(env.full)()) {
                        return Err(ctx(format!("reopening changed the store: {}", d)));
                    }
                }
                let k = *hi as usize % env.hs.len();
                env.hs[k] = h;
                continue;
            }
            Op::Plant(p, k, v) => {
                let sp = names.path(p, &model, false).unwrap();
                if let Some(node) = model.nodes.get(&sp.c) {
                    let key = names.doc_key(&sp.c, if node.arr.is_some() { "array" } else { "group" });
                    let mut doc: Value = serde_json::from_slice(&(env.files)()[&key]).map_err(|e| ctx(format!("document {:?}: {}", key, e)))?;
                    doc[format!("x{}", k)] = v.clone();
                    if node.arr.is_some() && k.len() % 2 == 0 {
                        doc["chunk_grid"]["more"] = v.clone();
                    }
                    if f == Focus::Attributes && node.arr.is_none() && node.attrs.is_empty() && k.len() % 3 == 0 {
                        doc.as_object_mut().unwrap().remove("attributes");
                    }
                    (env.put)(&key, doc.to_string().as_bytes());
                }
                continue;
            }
            _ => {}
        }
        for a in names.acts(op, &model) {
            if matches!(op, Op::BadPath(..)) && (f != Focus::Unchanged || c.store % 3 != 2) {
                continue;
            }
            let before = if f == Focus::Chunks { None } else { Some((env.files)()) };
            let dirs = if f == Focus::Unchanged && a.reads() { Some((env.full)()) } else { None };
            let old = model.clone();
            let out = exec(h, &a).map_err(ctx)?;
            model.step(&a, &out).map_err(ctx)?;
            let touched = |after: &Snap, allowed: &dyn Fn(&str) -> bool| -> Option<String> {
                let b = before.as_ref().unwrap();
                let fb: Snap = b.iter().filter(|(k, _)| !allowed(k)).map(|(k, v)| (k.clone(), v.clone())).collect();
                let fa: Snap = after.iter().filter(|(k, _)| !allowed(k)).map(|(k, v)| (k.clone(), v.clone())).collect();
                diff(&fb, &fa)
            };
            let d = || describe(&a);
            let same_attrs = match &a {
                Act::Attrs(p, m) => old.nodes.get(&p.c).map_or(false, |n| m.iter().all(|(k, v)| n.attrs.get(k) == Some(v))),
                Act::Attr(p, k, v) => old.nodes.get(&p.c).map_or(false, |n| n.attrs.get(k) == Some(v)),
                _ => false,
            };
            let noop_group = matches!(&a, Act::Group(p) if old.nodes.contains_key(&p.c));
            let noop_remove = matches!(&a, Act::Remove(p) if !old.exists(&p.c));
            if !a.reads() && out.is_ok() && !noop_group && !noop_remove {
                changes += 1;
            }
            if let Some(b) = &before {
                let unchanged = out.is_err() || a.reads() || noop_group || (noop_remove && f == Focus::Removal) || (same_attrs && f == Focus::Unchanged);
                if unchanged {
                    let after = (env.files)();
                    if let Some(x) = diff(b, &after) {
                        return Err(ctx(format!("{} ({}) changed the store: {}", d(), if out.is_err() { "refused" } else { "no change asked for" }, x)));
                    }
                    if let Some(b) = &dirs {
                        if let Some(x) = diff(b, &(env.full)()) {
                            return Err(ctx(format!("{} changed the store: {}", d(), x)));
                        }
                    }
                    if f == Focus::Unchanged && (out.is_err() || same_attrs) {
                        cx.nontrivial();
                        cx.label(if out.is_err() { "refused" } else { "same attributes" });
                    }
                }
                match (&a, &out) {
                    (Act::Remove(_) | Act::RemoveAll, Ok(_)) if f == Focus::Removal => {
                        let p = a.path().map_or("", |p| &p.c);
                        let after = (env.files)();
                        let (mg, ma) = (names.doc_key(p, "group"), names.doc_key(p, "array"));
                        let sub = |root: &str| if p.is_empty() { format!("{}/", root) } else { format!("{}/{}/", root, p) };
                        let (sm, sd) = (sub("meta/root"), sub("data/root"));
                        let inside = |k: &str| k == mg || k == ma || k.starts_with(&sm) || k.starts_with(&sd);
                        if let Some(x) = touched(&after, &inside) {
                            return Err(ctx(format!("{} changed something else: {}", d(), x)));
                        }
                        if let Some(k) = after.keys().find(|k| inside(k)) {
                            return Err(ctx(format!("{} left {:?}", d(), k)));
                        }
                        if old.nodes.len() > model.nodes.len() && (!model.nodes.is_empty() || p.is_empty()) {
                            cx.nontrivial();
                        }
                        let lost = old.nodes.len() - model.nodes.len();
                        cx.label_if(lost > 1, "removal of a subtree");
                        cx.label_if(p.is_empty(), "removal of the root");
                        // Relatives whose names extend the removed one.
                        cx.label_if(!p.is_empty() && model.nodes.keys().any(|k| k.starts_with(p) && !under(k, p)), "sibling with an extending name");
                        cx.label_if(old.nodes.iter().any(|(k, n)| !model.nodes.contains_key(k) && !n.chunks.is_empty()), "chunks removed");
                    }
                    (Act::Attr(p, ..) | Act::Attrs(p, ..), Ok(_)) if f == Focus::Attributes && old.nodes.contains_key(&p.c) => {
                        let after = (env.files)();
                        let key = names.doc_key(&p.c, if old.is_array(&p.c) { "array" } else { "group" });
                        if let Some(x) = touched(&after, &|k| k == key) {
                            return Err(ctx(format!("{} changed something else: {}", d(), x)));
                        }
                        let strip = |b: &[u8]| -> Result<Value, String> {
                            let mut v: Value = serde_json::from_slice(b).map_err(|e| ctx(format!("{}: document is not JSON: {}", d(), e)))?;
                            v.as_object_mut().map(|o| o.remove("attributes"));
                            Ok(v)
                        };
                        let (x, y) = (strip(&b[&key])?, strip(after.get(&key).ok_or_else(|| ctx(format!("{}: document is gone", d())))?)?);
                        ensure_eq!(y, x, "{}: the rest of the document", ctx(d()));
                        cx.nontrivial();
                        cx.label(if old.is_array(&p.c) { "attributes of an array" } else { "attributes of a group" });
                    }
                    _ => {}
                }
            }
            // What the property says about reading back.
            let mut qs: Vec<Act> = vec![];
            let plain = |c: &String| Sp { c: c.clone(), s: c.clone() };
            match f {
                Focus::Existence if !a.reads() => {
                    for c in names.interesting(&model, n + 3 > c.ops.len()) {
                        qs.push(Act::Exists(plain(&c)));
                        qs.push(Act::ArrayExists(plain(&c)));
                        if old.nodes.contains_key(&c) && noop_group {
                            qs.push(Act::GetAttrs(plain(&c)));
                        }
                    }
                    cx.label_if(noop_group && old.nodes[&a.path().unwrap().c].attrs.len() > 0, "group with attributes created again");
                    cx.label_if(out.is_err(), "creation refused");
                }
                Focus::Listing if !a.reads() => {
                    for c in names.interesting(&model, n + 2 > c.ops.len()) {
                        qs.push(Act::List(plain(&c)));
                    }
                }
                Focus::Attributes if matches!(a, Act::Attr(..) | Act::Attrs(..)) => {
                    for c in names.interesting(&model, false) {
                        qs.push(Act::GetAttrs(plain(&c)));
                        if model.is_array(&c) {
                            qs.push(Act::GetMeta(plain(&c)));
                        }
                    }
                }
                Focus::Removal if matches!(a, Act::Remove(_) | Act::RemoveAll) => {
                    for c in names.interesting(&model, false) {
                        qs.extend(names.queries(&plain(&c)));
                        for (src, alive) in [(&model.nodes, true), (&old.nodes, false)] {
                            if let Some(n) = src.get(&c) {
                                if let Some((m, _)) = &n.arr {
                                    for pos in n.chunks.keys() {
                                        if alive || !model.nodes.contains_key(&c) {
                                            qs.push(Act::ReadChunk(plain(&c), m.clone(), pos.clone(), None));
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
                Focus::Chunks => match &a {
                    Act::Write(p, m, pos, _) | Act::Delete(p, m, pos) => {
                        qs.push(Act::ReadChunk(p.clone(), m.clone(), pos.clone(), None));
                        if matches!(a, Act::Delete(..)) {
                            qs.push(Act::Delete(p.clone(), m.clone(), pos.clone()));
                        } else {
                            cx.label_if(old.nodes[&p.c].chunks.contains_key(pos), "overwrite");
                            cx.nontrivial();
                        }
                    }
                    _ => {}
                },
                _ => {}
            }
            for q in qs {
                let h = &env.hs[(n + 1) % env.hs.len()];
                let out = exec(h, &q).map_err(ctx)?;
                model.step(&q, &out).map_err(|e| ctx(format!("after {}: {}", d(), e)))?;
            }
        }
    }
    let ctx = |e: String| format!("at the end: {}", e);
    let mut qs: Vec<Act> = vec![];
    let plain = |c: &String| Sp { c: c.clone(), s: c.clone() };
    if matches!(f, Focus::Chunks | Focus::Removal | Focus::Attributes) {
        for (k, n) in &model.nodes {
            if let Some((m, _)) = &n.arr {
                for (j, pos) in positions(m).iter().enumerate() {
                    qs.push(Act::ReadChunk(plain(k), m.clone(), pos.clone(), if j % 4 == 3 { Some(j) } else { None }));
                }
            }
        }
    }
    if f == Focus::Chunks {
        // No trace of overwritten values: each stored chunk is what writing it alone stores.
        let files = (env.files)();
        let mut want: Snap = entry.clone();
        want.extend(files.iter().filter(|(k, _)| k.starts_with("meta/")).map(|(k, v)| (k.clone(), v.clone())));
        for (k, n) in &model.nodes {
            if let Some((m, _)) = &n.arr {
                for (pos, data) in &n.chunks {
                    let mut b = vec![];
                    enc(&mut b, m.dt.k(), &m.build(), pos, data).map_err(|e| ctx(format!("encoding: {}", e)))?;
                    let coords: Vec<String> = pos.iter().map(|p| p.to_string()).collect();
                    let key = if k.is_empty() { "data/root/c".to_string() } else { format!("data/root/{}/c", k) } + &coords.join(if m.dot { "." } else { "/" });
                    want.insert(key, b);
                }
            }
        }
        if let Some(d) = diff(&want, &files) {
            return Err(ctx(format!("stored chunks differ from those written afresh: {}", d)));
        }
        cx.label_if(model.arrays().len() > 1, "several arrays");
    }
    for (i, q) in qs.iter().enumerate() {
        let out = exec(&env.hs[i % env.hs.len()], q).map_err(ctx)?;
        model.step(q, &out).map_err(ctx)?;
    }
    if f == Focus::Removal {
        // Whatever was removed starts empty when it is created again.
        let gone: Vec<(String, Node)> = model.gone.iter().filter(|(k, _)| !model.nodes.contains_key(*k)).map(|(k, n)| (k.clone(), n.clone())).collect();
        for (k, n) in gone {
            if model.exists(&k) || model.below_array(&k) {
                continue;
            }
            let a = match &n.arr {
                None => Act::Group(plain(&k)),
                Some((m, doc)) => {
                    let mut doc = doc.clone();
                    doc["attributes"] = json!({"fresh": 1});
                    Act::Array(plain(&k), m.clone(), doc)
                }
            };
            let out = exec(&env.hs[0], &a).map_err(ctx)?;
            model.step(&a, &out).map_err(ctx)?;
            let mut qs = names.queries(&plain(&k));
            if let Some((m, _)) = &n.arr {
                for pos in n.chunks.keys() {
                    qs.push(Act::ReadChunk(plain(&k), m.clone(), pos.clone(), None));
                }
            }
            for q in qs {
                let out = exec(&env.hs[1], &q).map_err(ctx)?;
                model.step(&q, &out).map_err(|e| ctx(format!("after re-creating: {}", e)))?;
            }
            cx.label("re-created");
        }
    }
    if matches!(f, Focus::Existence | Focus::Listing) && changes > 1 {
        cx.nontrivial();
    }
    cx.label_if(model.nodes.keys().any(|k| model.nodes.keys().any(|j| j.len() > k.len() && !k.is_empty() && j.starts_with(k.as_str()) && !under(j, k))), "names extending one another");
    cx.label_if(names.interesting(&model, false).iter().any(|p| model.implicit(p)), "implicit groups");
    cx.label_if(!model.gone.is_empty(), "removals");
    Ok(())
}

fn on_store(c: &Case, f: Focus, cx: &mut Cx) -> R {
    let suffix = SUFFIXES[c.suffix as usize % SUFFIXES.len()];
    cx.label_if(suffix != ".json", "other metadata suffix");
    if c.store % 3 == 2 {
        cx.label("filesystem");
        let dir = cx.dir();
        let mut env = fs_env(dir, suffix)?;
        run(&mut env, c, true, f, cx)
    } else {
        cx.label(match c.store { 3 => "memory, no prefix tests", 1 => "memory, literal keys", _ => "memory" });
        let mut env = mem_env(mem_for(c, suffix));
        run(&mut env, c, false, f, cx)
    }
}

//                   groups arrays removals attrs chunks queries refused
fn c03_case() -> impl Strategy<Value = Case> { case([1, 2, 1, 0, 10, 0, 0], 4, 7, 24) }
fn c17_case() -> impl Strategy<Value = Case> { case([8, 5, 2, 2, 1, 1, 0], 2, 4, 14) }
fn c18_case() -> impl Strategy<Value = Case> { case([9, 6, 1, 0, 1, 1, 0], 4, 3, 12) }
fn c19_case() -> impl Strategy<Value = Case> { case([4, 4, 2, 2, 3, 0, 0], 7, 4, 14) }
fn c20_case() -> impl Strategy<Value = Case> { case([3, 3, 1, 8, 1, 0, 0], 4, 4, 14) }
fn c23_case() -> impl Strategy<Value = Case> { case([4, 4, 1, 3, 4, 5, 3], 4, 5, 16) }

pub fn c03() -> Vec<Sub> {
    vec![sub("history", Cases(60_000, 1_600_000), c03_case, |c: &Case, cx: &mut Cx| on_store(c, Focus::Chunks, cx))]
}
pub fn c17() -> Vec<Sub> {
    vec![
        sub("history", Cases(60_000, 1_600_000), c17_case, |c: &Case, cx: &mut Cx| on_store(c, Focus::Existence, cx)),
        sub("large", Cases(2_000, 40_000), large, c17_large),
    ]
}
pub fn c18() -> Vec<Sub> {
    vec![
        sub("history", Cases(60_000, 1_600_000), c18_case, |c: &Case, cx: &mut Cx| on_store(c, Focus::Listing, cx)),
        sub("large", Cases(2_000, 40_000), large, c18_large),
    ]
}
pub fn c19() -> Vec<Sub> {
    vec![
        sub("history", Cases(60_000, 1_600_000), c19_case, |c: &Case, cx: &mut Cx| on_store(c, Focus::Removal, cx)),
        sub("large", Cases(2_000, 40_000), large, c19_large),
    ]
}
pub fn c23() -> Vec<Sub> {
    vec![sub("history", Cases(60_000, 1_200_000), c23_case, |c: &Case, cx: &mut Cx| on_store(c, Focus::Unchanged, cx))]
}

// ---------------------------------------------------------------- C20

fn c20_floats(bits: &Vec<u64>, cx: &mut Cx) -> R {
    cx.nontrivial();
    let fl: Vec<f64> = bits.iter().map(|&b| f64::from_bits(b)).collect();
    let h = Mem::new();
    h.create_group("g").map_err(|e| e.to_string())?;
    h.set_attribute("g", "f".into(), &fl).map_err(|e| format!("set_attribute: {}", e))?;
    h.set_attribute("g", "single".into(), fl[0]).map_err(|e| format!("set_attribute: {}", e))?;
    h.set_attribute("g", "pad".into(), "x").map_err(|e| format!("set_attribute: {}", e))?;
    let got = h.list_attributes("g").map_err(|e| format!("list_attributes: {}", e))?;
    ensure_eq!(Value::Object(got), json!({"f": fl, "single": fl[0], "pad": "x"}), "attributes");
    Ok(())
}

/// A value of `depth` nested arrays and objects, by the bits of `how`.
fn nested(depth: u16, how: u32) -> Value {
    (0..depth).fold(json!(7), |v, i| match how >> (i % 32) & 1 {
        0 => json!([v]),
        _ => json!({ "n": v }),
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DeepCase {
    depth: u16,
    how: u32,
    /// Where the value is put: attribute of a group or array, several at once,
    /// attributes, extension or fill value of a new array.
    place: u8,
    fs: bool,
}

pub fn deep_case() -> impl Strategy<Value = DeepCase> {
    (prop_oneof![1 => 0u16..110, 3 => 110u16..140, 1 => 140u16..400], any::<u32>(), 0u8..3, any::<bool>())
        .prop_map(|(depth, how, place, fs)| DeepCase { depth, how, place, fs })
}

pub fn deep_array() -> impl Strategy<Value = DeepCase> {
    deep_case().prop_map(|c| DeepCase { place: c.place + 3, ..c })
}

pub fn deep(c: &DeepCase, cx: &mut Cx) -> R {
    if c.fs {
        let dir = cx.dir();
        let h = FilesystemHierarchy::open_or_create(&dir).map_err(|e| e.to_string())?;
        deep_on(&h, c, cx)
    } else {
        deep_on(&Mem::new(), c, cx)
    }
}

/// Values that nest deeper than documents can be loaded are refused, and change
/// nothing; those that are accepted are there.
fn deep_on<H: HierarchyReader + HierarchyWriter>(h: &H, c: &DeepCase, cx: &mut Cx) -> R {
    cx.nontrivial();
    let v = nested(c.depth, c.how);
    let kept: serde_json::Map<String, Value> = vec![("kept".to_string(), json!([1, {"a": null}]))].into_iter().collect();
    let doc = Meta::simple(vec![4], vec![2], Dt { k: 1, big: false }).json();
    let load = |d: &Value| -> Result<ArrayMetadata, String> { serde_json::from_value(d.clone()).map_err(|e| e.to_string()) };
    let plain = load(&doc)?;
    let r = if c.place < 3 {
        if c.place == 0 {
            h.create_group("n").map_err(|e| e.to_string())?;
        } else {
            h.create_array("n", &plain).map_err(|e| e.to_string())?;
        }
        h.set_attributes("n", kept.clone()).map_err(|e| e.to_string())?;
        let r = if c.place < 2 {
            h.set_attribute("n", "v".into(), &v)
        } else {
            h.set_attributes("n", vec![("u".to_string(), json!(1)), ("v".to_string(), v.clone())].into_iter().collect())
        };
        let mut want = kept.clone();
        if r.is_ok() {
            want.insert("v".into(), v);
            if c.place == 2 {
                want.insert("u".into(), json!(1));
            }
        }
        let got = h.list_attributes("n").map_err(|e| format!("listing attributes after a value {} levels deep was {}: {}", c.depth, if r.is_ok() { "set" } else { "refused" }, e))?;
        ensure!(got == want, "attributes after a value {} levels deep was {}: {:?}", c.depth, if r.is_ok() { "set" } else { "refused" }, got.keys().collect::<Vec<_>>());
        if c.place > 0 {
            let m = h.get_array_metadata("n").map_err(|e| format!("metadata of the array: {}", e))?;
            ensure_eq!(m.get_shape(), plain.get_shape(), "shape of the array");
        }
        h.set_attribute("n", "w".into(), 2).map_err(|e| format!("setting another attribute: {}", e))?;
        r
    } else {
        let mut d = doc.clone();
        match c.place {
            3 => d["attributes"] = json!({ "v": v }),
            4 => d["extensions"] = json!([{"extension": "http://example.org/x", "must_understand": false, "configuration": {"v": v}}]),
            _ => d["fill_value"] = v,
        }
        // There are no raw types of fractions of bytes, but values of the type.
        let m = match (c.place, c.how % 4) {
            (5, 0) => ArrayMetadata::new(gc(&[4]), [2u32].iter().cloned().collect(), zarr::DataType::Raw { size: c.depth as usize }, Default::default()),
            _ => load(&d)?,
        };
        let r = h.create_array("n", &m);
        if r.is_ok() {
            let got = h.get_array_metadata("n").map_err(|e| format!("metadata of an array created with a value {} levels deep: {}", c.depth, e))?;
            ensure!(got == m, "metadata of an array created with a value {} levels deep", c.depth);
            let a = h.list_attributes("n").map_err(|e| format!("attributes of an array created with a value {} levels deep: {}", c.depth, e))?;
            ensure!(Value::Object(a) == serde_json::to_value(&m).unwrap()["attributes"], "attributes of an array created with a value {} levels deep", c.depth);
            ensure!(h.array_exists("n").map_err(|e| e.to_string())?, "the created array does not exist");
        } else {
            ensure!(!HierarchyReader::exists(h, "n").map_err(|e| e.to_string())?, "a node exists where an array was refused");
            h.create_array("n", &plain).map_err(|e| format!("creating a plain array where a deep one was refused: {}", e))?;
        }
        r
    };
    cx.label(if r.is_ok() { "accepted" } else { "refused" });
    // What is far from any limit is accepted.
    ensure!(c.depth > 100 || (c.place, c.how % 4) == (5, 0) || r.is_ok(), "a value {} levels deep: {}", c.depth, r.unwrap_err());
    Ok(())
}

pub fn c20() -> Vec<Sub> {
    vec![
        sub("deep", Cases(6_000, 100_000), deep_case, deep),
        sub("history", Cases(60_000, 1_600_000), c20_case, |c: &Case, cx: &mut Cx| on_store(c, Focus::Attributes, cx)),
        sub("floats", Cases(10_000, 300_000), super::meta::float_bits, c20_floats),
    ]
}

// ---------------------------------------------------------------- C21

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Twice {
    c: Case,
    decos: Vec<u16>,
}

fn c21_case() -> impl Strategy<Value = Twice> {
    (case([4, 4, 2, 3, 4, 4, 0], 3, 4, 12), proptest::collection::vec(any::<u16>(), 1..8)).prop_map(|(c, decos)| Twice { c, decos })
}

fn respell(a: &mut Act, deco: u16) {
    match a {
        Act::Group(p) | Act::Array(p, ..) | Act::Remove(p) | Act::Attr(p, ..) | Act::Attrs(p, ..) | Act::Write(p, ..) | Act::Region(p, ..)
        | Act::Delete(p, ..) | Act::ReadChunk(p, ..) | Act::ReadRegion(p, ..) | Act::Exists(p) | Act::ArrayExists(p) | Act::List(p)
        | Act::GetAttrs(p) | Act::GetMeta(p) | Act::Uri(p, ..) | Act::Ranked(p, ..) | Act::Typed(p, ..) => p.s = decorate(&p.c, deco),
        Act::RemoveAll => {}
        Act::Refused(a, _) => respell(a, deco),
    }
}

fn c21_run<H: HierarchyReader + HierarchyWriter + HierarchyLister>(a: &Env<H>, b: &Env<H>, roots: (&str, &str), c: &Twice, cx: &mut Cx) -> R {
    let suffix = SUFFIXES[c.c.suffix as usize % SUFFIXES.len()];
    let names = Names { names: &c.c.names, suffix };
    // Existence rules are another property's; the model only picks the paths.
    let mut model = Model { lenient: true, ..Model::default() };
    let mut j = 0;
    for (n, (hi, op)) in c.c.ops.iter().enumerate() {
        let mut acts = names.acts(op, &model);
        // Ask about the same path afterwards, in yet another spelling.
        if let Some(p) = acts.first().and_then(|a| a.path()).cloned() {
            acts.extend(names.queries(&p));
            if let Some((m, _)) = model.nodes.get(&p.c).and_then(|n| n.arr.as_ref()) {
                for pos in positions(m).into_iter().take(4) {
                    acts.push(Act::Uri(p.clone(), m.clone(), pos.clone()));
                    acts.push(Act::ReadChunk(p.clone(), m.clone(), pos, None));
                }
            }
        }
        for act in acts {
            if matches!(act, Act::Refused(..)) {
                continue;
            }
            let (mut x, mut y) = (act.clone(), act.clone());
            respell(&mut x, 0);
            let deco = c.decos[j % c.decos.len()];
            respell(&mut y, deco);
            j += 1;
            let d = describe(&y);
            let ctx = |e: String| format!("operation {}: {} against canonical spelling: {}", n, d, e);
            let rx = exec(&a.hs[*hi as usize % a.hs.len()], &x).map_err(ctx)?;
            let ry = exec(&b.hs[*hi as usize % b.hs.len()], &y).map_err(ctx)?;
            ensure_eq!(ry.is_ok(), rx.is_ok(), "{}", ctx(format!("success ({:?})", ry)));
            if let (Ok(rx), Ok(ry)) = (&rx, &ry) {
                match (rx, ry) {
                    (Out::Text(u), Out::Text(v)) => {
                        ensure_eq!(tail(v, roots.1), tail(u, roots.0), "{}", ctx("URI".into()));
                    }
                    _ => ensure_eq!(ry, rx, "{}", ctx("result".into())),
                }
            }
            let path = y.path().map_or(String::new(), |p| p.s.clone());
            if path.contains("//") || path.starts_with('/') || path.ends_with('/') {
                cx.nontrivial();
                cx.label_if(path.trim_matches('/').contains("//"), "repeated slashes");
                cx.label_if(path.starts_with('/'), "leading slash");
                cx.label_if(path.ends_with('/'), "trailing slash");
            }
            // The model follows; what it expects is not judged here.
            let mut m2 = model.clone();
            if m2.step(&x, &rx).is_ok() {
                model = m2;
            }
            if !act.reads() {
                if let Some(x) = diff(&(a.files)(), &(b.files)()) {
                    return Err(ctx(format!("stores differ: {}", x)));
                }
            }
        }
    }
    Ok(())
}

/// A URI without the hierarchy's own location and slash repetitions.
fn tail(uri: &str, root: &str) -> String {
    let u = uri.split_once("://").map_or(uri, |x| x.1);
    norm(u.strip_prefix(root).unwrap_or(u))
}

fn c21_twice(c: &Twice, cx: &mut Cx) -> R {
    let suffix = SUFFIXES[c.c.suffix as usize % SUFFIXES.len()];
    if c.c.store % 3 == 2 {
        cx.label("filesystem");
        let d = cx.dir();
        let (x, y) = (d.join("x"), d.join("y"));
        for d in [&x, &y] {
            std::fs::create_dir(d).unwrap();
        }
        let (a, b) = (fs_env(x.clone(), suffix)?, fs_env(y.clone(), suffix)?);
        c21_run(&a, &b, (x.to_str().unwrap(), y.to_str().unwrap()), c, cx)
    } else {
        cx.label(if c.c.store % 3 == 1 { "memory, literal keys" } else { "memory" });
        let (a, b) = (mem_env(mem_for(&c.c, suffix)), mem_env(mem_for(&c.c, suffix)));
        c21_run(&a, &b, ("", ""), c, cx)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pair {
    a: String,
    b: String,
    da: u16,
    db: u16,
    store: u8,
}

fn pair_case() -> impl Strategy<Value = Pair> {
    let q = (path(3), 0u8..10, any::<u8>(), name()).prop_map(|(a, how, n, x)| {
        // A path that differs from `a` in some component.
        let mut c: Vec<String> = if a.is_empty() { vec![] } else { a.split('/').map(str::to_string).collect() };
        let i = if c.is_empty() { 0 } else { n as usize % c.len() };
        match how {
            0 => c.push(x),
            1 if !c.is_empty() => { c.pop(); }
            2 if !c.is_empty() => c[i] = x,
            3 if !c.is_empty() => c[i].push_str("x"),
            4 if !c.is_empty() => c[i].push('.'),
            5 if !c.is_empty() => c[i] = format!("{}{}", c[i], ".array"),
            6 if c.len() > 1 => { let l = c.len(); c.swap(i, (i + 1) % l); }
            7 if c.len() > 1 => { let y = c.remove(i); let k = i % c.len(); c[k].push_str(&y); }
            8 if !c.is_empty() => c[i] = c[i].to_uppercase(),
            9 if !c.is_empty() => c[i] = format!(" {}", c[i]),
            _ => c.insert(0, x),
        }
        (a, c.join("/"))
    });
    (q, any::<u16>(), any::<u16>(), 0u8..3).prop_map(|((a, b), da, db, store)| Pair { a, b, da, db, store })
}

fn c21_pair_run<H: HierarchyReader + HierarchyWriter + HierarchyLister>(env: &Env<H>, c: &Pair) -> R {
    let h = &env.hs[0];
    let (a, b) = (decorate(&c.a, c.da), decorate(&c.b, c.db));
    let m = Meta::simple(vec![3], vec![2], Dt { k: 1, big: false });
    let meta = m.build();
    let s = |r: std::io::Result<()>| r.map_err(|e| format!("{:?}, {:?}: {}", a, b, e));
    s(h.create_array(&a, &meta))?;
    s(write_chunk(h, 1, &a, &meta, &[0], &[1, 2]))?;
    let no = |what: &str| format!("{:?} and {:?}: {}", a, b, what);
    ensure!(!h.array_exists(&b).map_err(|e| no(&e.to_string()))?, "{}", no("the second exists as an array after creating the first"));
    ensure!(read_chunk(h, 1, &b, &meta, &[0]).map_err(|e| no(&e.to_string()))?.is_none(), "{}", no("a chunk of the first is read through the second"));
    ensure!(h.list_attributes(&b).map_or(true, |a| a.is_empty()), "{}", no("attributes of the first"));
    s(h.create_group(&b))?;
    s(h.set_attribute(&b, "k".into(), 7))?;
    ensure!(h.list_attributes(&a).map_err(|e| no(&e.to_string()))?.is_empty(), "{}", no("attributes set on the second appear on the first"));
    ensure!(h.list_attributes(&b).map_err(|e| no(&e.to_string()))?.len() == 1, "{}", no("attributes of the second"));
    let u = h.get_chunk_uri(&a, &meta, &[0]).map_err(|e| e.to_string())?;
    let v = h.get_chunk_uri(&b, &meta, &[0]).map_err(|e| e.to_string())?;
    ensure!(u != v, "{}", no("same chunk URI"));
    Ok(())
}

fn c21_pair(c: &Pair, cx: &mut Cx) -> R {
    let bad = |p: &str| p.split('/').any(|c| c == "." || c == ".." || chunk_like(c) || c.ends_with(".array.json") || c.ends_with(".group.json"));
    if c.a == c.b || bad(&c.a) || bad(&c.b) {
        return Ok(());
    }
    cx.nontrivial();
    if c.store % 3 == 2 {
        let env = fs_env(cx.dir(), ".json")?;
        c21_pair_run(&env, c)
    } else {
        let mut m = Mem::new();
        m.literal = c.store == 1;
        c21_pair_run(&mem_env(m), c)
    }
}

pub fn c21() -> Vec<Sub> {
    vec![
        sub("spellings", Cases(40_000, 1_000_000), c21_case, c21_twice),
        sub("distinct", Cases(20_000, 500_000), pair_case, c21_pair),
    ]
}

// ---------------------------------------------------------------- C28

fn c28_case() -> impl Strategy<Value = Case> { case([4, 4, 2, 4, 6, 4, 2], 4, 5, 16) }

/// Keys an act may read and write.
fn scope(names: &Names, a: &Act, op: char, key: &str) -> bool {
    let under_dir = |k: &str, root: &str, p: &str| { let d = if p.is_empty() { root.to_string() } else { format!("{}/{}", root, p) }; k == d || k.starts_with(&format!("{}/", d)) };
    let p = a.path().map_or("", |p| &p.c);
    let docs = key == names.doc_key(p, "array") || key == names.doc_key(p, "group");
    let meta_dir = under_dir(key, "meta/root", p);
    let data_dir = under_dir(key, "data/root", p);
    let write = matches!(op, 'w' | 'e' | 'p');
    let chunk = |m: &Meta, pos: &[u64]| {
        let coords: Vec<String> = pos.iter().map(|p| p.to_string()).collect();
        key == if p.is_empty() { "data/root/c".to_string() } else { format!("data/root/{}/c", p) } + &coords.join(if m.dot { "." } else { "/" })
    };
    match a {
        Act::Group(_) | Act::Array(..) | Act::Attr(..) | Act::Attrs(..) => docs || (!write && meta_dir),
        Act::Remove(_) | Act::RemoveAll => docs || meta_dir || data_dir,
        Act::Write(_, m, pos, _) | Act::Delete(_, m, pos) | Act::ReadChunk(_, m, pos, _) => {
            let c = chunk(m, pos);
            if a.reads() && write { false } else { c || (!write && docs) }
        }
        Act::Region(_, m, off, sh, _) | Act::ReadRegion(_, m, off, sh) => {
            if a.reads() && write { return false }
            chunk_cells(m, off, sh).keys().any(|pos| chunk(m, pos)) || (!write && docs)
        }
        Act::Exists(_) | Act::ArrayExists(_) | Act::List(_) | Act::GetAttrs(_) | Act::GetMeta(_) => !write && (docs || meta_dir),
        Act::Uri(..) => !write,
        Act::Ranked(..) | Act::Typed(..) => !write && (docs || data_dir),
        Act::Refused(..) => true,
    }
}

fn c28_lockstep(c: &Case, cx: &mut Cx) -> R {
    let suffix = SUFFIXES[c.suffix as usize % SUFFIXES.len()];
    let names = Names { names: &c.names, suffix };
    let mut m = mem_for(c, suffix);
    m.literal = c.ops.len() % 2 == 1;
    m.prefixes = true;
    m.frag = c.store * 3 % 7;
    cx.label(if m.literal { "literal keys" } else { "component-wise keys" });
    let mem = m.clone();
    let disk = fs_env(cx.dir(), suffix)?;
    let mut model = Model { lenient: true, ..Model::default() };
    let mut changed = 0;
    for (n, (hi, op)) in c.ops.iter().enumerate() {
        let mut acts = names.acts(op, &model);
        if n + 1 == c.ops.len() {
            for c in names.interesting(&model, false) {
                acts.extend(names.queries(&Sp { c: c.clone(), s: c.clone() }));
            }
        }
        for a in acts {
            if let Act::Refused(x, _) = &a {
                // What a path above the root means is up to the store.
                if x.path().map_or(false, |p| p.c.contains("..")) {
                    continue;
                }
            }
            let ctx = |e: String| format!("operation {}: {}: {}", n, describe(&a), e);
            mem.take_log();
            let x = exec(&disk.hs[*hi as usize % 3], &a).map_err(|e| ctx(format!("filesystem: {}", e)))?;
            let y = exec(&mem, &a).map_err(|e| ctx(format!("memory: {}", e)))?;
            let log = mem.take_log();
            if let Some((o, k)) = log.iter().find(|(o, k)| !scope(&names, &a, *o, k)) {
                return Err(ctx(format!("accessed ({}) the key {:?}", o, k)));
            }
            let same = match (&a, &x, &y) {
                (Act::Uri(..), ..) => x.is_ok() == y.is_ok(),
                (Act::Exists(p), Ok(_), Ok(_)) if model.dirs.contains(&p.c) => true,
                (Act::GetAttrs(p), ..) if !model.nodes.contains_key(&p.c) && model.dirs.contains(&p.c) => true,
                (Act::List(p), Ok(Out::Names(x)), Ok(Out::Names(y))) => {
                    let may = Model::kids(model.dirs.iter(), &p.c);
                    let (x, y): (BTreeSet<&String>, BTreeSet<&String>) = (x.iter().collect(), y.iter().collect());
                    x.symmetric_difference(&y).all(|k| may.contains(*k))
                }
                (_, Ok(x), Ok(y)) => x == y,
                (_, Err(_), Err(_)) => true,
                _ => false,
            };
            ensure!(same, "{}", ctx(format!("filesystem gives {}, memory {}", short(&x), short(&y))));
            let mut m2 = model.clone();
            if m2.step(&a, &x).is_ok() {
                model = m2;
            }
            if !a.reads() {
                changed += 1;
                let mut f = (disk.files)();
                f.remove("zarr.json");
                let g = mem.snapshot();
                let parse = |s: &Snap| -> BTreeMap<String, Result<Value, Vec<u8>>> {
                    s.iter().map(|(k, v)| (k.clone(), if k.starts_with("meta/") { serde_json::from_slice(v).map_err(|_| v.clone()) } else { Err(v.clone()) })).collect()
                };
                let (f, g) = (parse(&f), parse(&g));
                if f != g {
                    let k = f.keys().chain(g.keys()).find(|k| f.get(*k) != g.get(*k)).unwrap();
                    return Err(ctx(format!("content under the key {:?} differs: filesystem {}, memory {}", k, short(&f.get(k)), short(&g.get(k)))));
                }
            }
        }
    }
    if changed > 1 {
        cx.nontrivial();
    }
    Ok(())
}

pub fn c28() -> Vec<Sub> {
    vec![sub("lockstep", Cases(50_000, 1_200_000), c28_case, c28_lockstep)]
}

// ---------------------------------------------------------------- C32

/// Something that is put into the hierarchy's directory before an operation.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Weed {
    before: u8,
    dir: u8,
    name: u8,
    /// 0 a file, 1 a link to nothing, 2 to a file, 3 to a directory, 4 a pipe,
    /// 5.. the directory itself moves elsewhere and becomes a link.
    kind: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Weedy {
    c: Case,
    weeds: Vec<Weed>,
}

fn weedy() -> impl Strategy<Value = Weedy> {
    let weed = (0u8..16, any::<u8>(), any::<u8>(), 0u8..7).prop_map(|(before, dir, name, kind)| Weed { before, dir, name, kind });
    (case([4, 4, 3, 2, 4, 1, 0], 6, 4, 8), proptest::collection::vec(weed, 1..6)).prop_map(|(mut c, weeds)| {
        c.store = 2;
        Weedy { c, weeds }
    })
}

use std::ffi::{CString, OsStr, OsString};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};

/// Directories below `dir`, not following links, relative to it.
fn dirs_below(dir: &Path) -> Vec<PathBuf> {
    let mut out = vec![PathBuf::new()];
    let mut i = 0;
    while i < out.len() {
        let d = out[i].clone();
        if let Ok(rd) = std::fs::read_dir(dir.join(&d)) {
            for e in rd.flatten() {
                if e.file_type().map_or(false, |t| t.is_dir()) {
                    out.push(d.join(e.file_name()));
                }
            }
        }
        i += 1;
    }
    out.sort();
    out
}

/// What is there, without following links (at its end).
fn what(p: &Path) -> String {
    use std::os::unix::fs::FileTypeExt;
    match std::fs::symlink_metadata(p) {
        Err(e) => format!("nothing ({:?})", e.kind()),
        Ok(m) if m.file_type().is_symlink() => format!("link to {:?}", std::fs::read_link(p).unwrap_or_default()),
        Ok(m) if m.is_dir() => "directory".into(),
        Ok(m) if m.file_type().is_fifo() => "pipe".into(),
        Ok(_) => format!("file {:?}", std::fs::read(p).unwrap_or_default()),
    }
}

fn weed_name(w: &Weed, i: usize, suffix: &str) -> OsString {
    let s = suffix.strip_prefix('.').unwrap_or(suffix);
    let n = format!("%~{}", i);
    let document = w.kind == 1 || w.kind == 4;
    let b: Vec<u8> = match w.name % 12 {
        0 => n.into_bytes(),
        1 => [n.as_bytes(), b"\xff"].concat(),
        2 => [b"\xfe\xff".to_vec(), n.into_bytes(), format!(".array.{}", s).into_bytes()].concat(),
        3 => format!(".{}", n).into_bytes(),
        4 => format!("{}.array.{}~", n, s).into_bytes(),
        5 => format!("{}.{}x", n, s).into_bytes(),
        6 => format!("{}.array", n).into_bytes(),
        7 => format!("{}c0", n).into_bytes(),
        // Only what can not be a document may be named like one.
        8 | 9 if document => format!("{}.array.{}", n, s).into_bytes(),
        10 if document => format!("{}.group.{}", n, s).into_bytes(),
        _ => format!("{}\u{fffd}", n).into_bytes(),
    };
    OsString::from_vec(b)
}

fn c32_weeds(c: &Weedy, cx: &mut Cx) -> R {
    let suffix = SUFFIXES[c.c.suffix as usize % SUFFIXES.len()];
    let names = Names { names: &c.c.names, suffix };
    let top = cx.dir();
    let (base, out) = (top.join("h"), top.join("out"));
    std::fs::create_dir(&base).unwrap();
    std::fs::create_dir_all(out.join("trap/sub")).unwrap();
    std::fs::write(out.join("trap/file"), "kept").unwrap();
    std::fs::write(out.join("trap/sub/file"), "kept").unwrap();
    std::fs::write(out.join("file"), "kept").unwrap();
    let env = fs_env(base.clone(), suffix)?;
    let mut model = Model { lenient: true, ..Model::default() };
    // What was put where (relative), as `what` shows it.
    let mut put: Vec<(PathBuf, String)> = vec![];
    let mut moved: Vec<(PathBuf, PathBuf)> = vec![];
    let plain = |c: &String| Sp { c: c.clone(), s: c.clone() };
    for (n, (hi, op)) in c.c.ops.iter().enumerate() {
        for (i, w) in c.weeds.iter().enumerate().filter(|(_, w)| w.before as usize % c.c.ops.len() == n) {
            let mut dirs = dirs_below(&base);
            if w.kind >= 5 {
                dirs.retain(|d| d.components().count() > 2);
            }
            if dirs.is_empty() {
                continue;
            }
            let d = dirs[w.dir as usize % dirs.len()].clone();
            if w.kind >= 5 {
                let to = out.join(format!("moved{}", i));
                std::fs::rename(base.join(&d), &to).unwrap();
                std::os::unix::fs::symlink(&to, base.join(&d)).unwrap();
                moved.push((d, to));
                cx.label("directory reached through a link");
                continue;
            }
            let rel = d.join(weed_name(w, i, suffix));
            let p = base.join(&rel);
            match w.kind {
                0 => std::fs::write(&p, format!("foreign {}", i)).unwrap(),
                1 => std::os::unix::fs::symlink(out.join("nothing"), &p).unwrap(),
                2 => std::os::unix::fs::symlink(out.join("file"), &p).unwrap(),
                3 => {
                    std::os::unix::fs::symlink(out.join("trap"), &p).unwrap();
                    // A directory among the documents is an implicit group.
                    if let Ok(q) = rel.strip_prefix("meta/root") {
                        if let Some(q) = q.to_str() {
                            model.dirs.insert(q.to_string());
                            model.dirs.insert(format!("{}/sub", q));
                        }
                    }
                }
                _ => {
                    let s = CString::new(p.as_os_str().as_bytes()).unwrap();
                    // SAFETY: a valid path, in this case's own directory.
                    assert!(unsafe { libc::mkfifo(s.as_ptr(), 0o600) } == 0);
                }
            }
            cx.label(["foreign file", "dangling link", "link to a file", "link to a directory", "pipe"][w.kind as usize]);
            cx.label_if(rel.to_str().is_none(), "name that is not unicode");
            put.push((rel, what(&p)));
        }
        if matches!(op, Op::Reopen(_) | Op::Plant(..) | Op::BadPath(..)) {
            continue;
        }
        let h = &env.hs[*hi as usize % env.hs.len()];
        for a in names.acts(op, &model) {
            let counts = (put.len(), moved.len());
            let ctx = |e: String| format!("operation {}, with {} foreign entries and {} links to directories: {}", n, counts.0, counts.1, e);
            // What is moved away and not itself the removed node's stays as it is.
            let removed: Option<String> = match &a { Act::Remove(p) => Some(p.c.clone()), Act::RemoveAll => Some(String::new()), _ => None };
            let roots: Vec<PathBuf> = removed.iter().flat_map(|p| ["meta/root", "data/root"].iter().map(move |r| if p.is_empty() { PathBuf::from(r) } else { Path::new(r).join(p) })).collect();
            let within = |rel: &Path| roots.iter().any(|r| rel.starts_with(r));
            let own = |rel: &Path| roots.iter().any(|r| rel == r);
            let kept: Vec<(PathBuf, Snap)> = moved.iter().filter(|(rel, _)| within(rel) && !moved.iter().any(|(m, _)| own(m) && rel.starts_with(m))).map(|(_, to)| (to.clone(), snap_links(to))).collect();
            let res = exec(h, &a).map_err(ctx)?;
            model.step(&a, &res).map_err(ctx)?;
            if !put.is_empty() || !moved.is_empty() {
                cx.nontrivial();
            }
            if removed.is_some() && res.is_ok() {
                for (to, before) in &kept {
                    if let Some(d) = diff(before, &snap_links(to)) {
                        return Err(ctx(format!("{}: what a link below the node leads to: {}", describe(&a), d)));
                    }
                }
                for r in &roots {
                    ensure!(!base.join(r).is_dir(), "{}", ctx(format!("{}: {:?} is still there", describe(&a), r)));
                }
                cx.label_if(put.iter().any(|(rel, _)| within(rel)), "foreign entries removed with a node");
                cx.label_if(!kept.is_empty(), "links to directories removed with a node");
                put.retain(|(rel, _)| !within(rel));
                moved.retain(|(rel, _)| !within(rel));
            }
            for (rel, was) in &put {
                ensure_eq!(&what(&base.join(rel)), was, "{}", ctx(format!("{}: the foreign {:?}", describe(&a), rel)));
            }
            for (f, want) in [("file", "kept"), ("trap/file", "kept"), ("trap/sub/file", "kept")] {
                ensure!(std::fs::read(out.join(f)).map_or(false, |b| b == want.as_bytes()), "{}", ctx(format!("{}: {:?} outside of the hierarchy was changed", describe(&a), f)));
            }
            if !a.reads() {
                for q in names.interesting(&model, false) {
                    for q in names.queries(&plain(&q)) {
                        let r = exec(&env.hs[(n + 1) % env.hs.len()], &q).map_err(ctx)?;
                        model.step(&q, &r).map_err(|e| ctx(format!("after {}: {}", describe(&a), e)))?;
                    }
                }
            }
        }
    }
    let ctx = |e: String| format!("at the end, with {} foreign entries and {} links to directories: {}", put.len(), moved.len(), e);
    let h = &env.hs[0];
    let mut keys: Vec<String> = vec![];
    for (p, n) in &model.nodes {
        keys.push(names.doc_key(p, if n.arr.is_some() { "array" } else { "group" }));
        if let Some((m, _)) = &n.arr {
            for pos in positions(m) {
                let q = Act::ReadChunk(plain(p), m.clone(), pos.clone(), None);
                let r = exec(h, &q).map_err(ctx)?;
                model.clone().step(&q, &r).map_err(ctx)?;
                if n.chunks.contains_key(&pos) {
                    keys.push(zarr::storage::get_chunk_key(p, &m.build(), &pos));
                }
            }
        }
    }
    use zarr::storage::{ListableStore, ReadableStore};
    let listed = no_panic(|| h.list()).map_err(|p| ctx(format!("list: panic: {}", p)))?.map_err(|e| ctx(format!("list: {}", e)))?;
    let trim = |k: &str| k.trim_start_matches('/').to_string();
    let set: BTreeSet<String> = listed.iter().map(|k| trim(k)).collect();
    ensure_eq!(set.len(), listed.len(), "{}", ctx("keys listed twice".into()));
    for k in &keys {
        ensure!(set.contains(&trim(k)), "{}", ctx(format!("the key {:?} is not listed", k)));
    }
    for k in &listed {
        ensure!(ReadableStore::exists(h, k).map_err(|e| ctx(e.to_string()))?, "{}", ctx(format!("the key {:?} is listed, but does not exist", k)));
    }
    Ok(())
}

/// Everything below a directory, links not followed.
fn snap_links(dir: &Path) -> Snap {
    fn walk(dir: &Path, rel: &str, out: &mut Snap) {
        let mut names: Vec<OsString> = std::fs::read_dir(dir).map(|rd| rd.flatten().map(|e| e.file_name()).collect()).unwrap_or_default();
        names.sort();
        for n in names {
            let p = dir.join(&n);
            let r = format!("{}/{:?}", rel, OsStr::new(&n));
            let w = what(&p);
            if w == "directory" {
                walk(&p, &r, out);
            }
            out.insert(r, w.into_bytes());
        }
    }
    let mut out = Snap::new();
    walk(dir, "", &mut out);
    out
}

pub fn c32() -> Vec<Sub> {
    vec![sub("weeds", Cases(40_000, 1_000_000), weedy, c32_weeds)]
}

// ---------------------------------------------------------------- large trees (C17, C18, C19, C27)

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Large {
    /// Levels of the chain of groups, of which only some have documents.
    depth: u8,
    docs: u64,
    /// Nodes below the group at the end of the chain and below the root.
    wide: u16,
    top: u16,
    /// Rank of the array at the end.
    rank: u8,
    chunks: u8,
    /// Level to remove from (0: everything).
    cut: u8,
    fs: bool,
}

pub fn large() -> impl Strategy<Value = Large> {
    let depth = prop_oneof![2 => 0u8..4, 2 => 4u8..24, 1 => 24u8..100];
    let wide = prop_oneof![4 => 0u16..8, 2 => 8u16..80, 1 => 250u16..700];
    (depth, any::<u64>(), wide, prop_oneof![6 => 0u16..5, 1 => 100u16..400], 0u8..=24, 1u8..5, any::<u8>(), any::<bool>())
        .prop_map(|(depth, docs, wide, top, rank, chunks, cut, fs)| Large { depth, docs, wide, top, rank, chunks, cut, fs })
}

fn c17_large(c: &Large, cx: &mut Cx) -> R { large_on(c, Focus::Existence, cx) }
fn c18_large(c: &Large, cx: &mut Cx) -> R { large_on(c, Focus::Listing, cx) }
fn c19_large(c: &Large, cx: &mut Cx) -> R { large_on(c, Focus::Removal, cx) }

fn large_on(c: &Large, f: Focus, cx: &mut Cx) -> R {
    cx.nontrivial();
    cx.label_if(c.depth > 12, "deep");
    cx.label_if(c.wide > 80 || c.top > 80, "wide");
    cx.label_if(c.rank > 8, "many dimensions");
    if c.fs {
        let dir = cx.dir();
        let h = FilesystemHierarchy::open_or_create(&dir).map_err(|e| e.to_string())?;
        large_run(&h, c, f, &|| snap_files(&dir).into_iter().filter(|(k, _)| k != "zarr.json").collect())
    } else {
        let h = Mem::new();
        large_run(&h, c, f, &|| h.snapshot())
    }
}

/// Nodes and chunks in numbers and at depths that no history reaches.
fn large_run<H>(h: &H, c: &Large, f: Focus, files: &dyn Fn() -> Snap) -> R
where
    H: HierarchyReader + HierarchyWriter + HierarchyLister,
{
    let level = |n: u8| (0..n).map(|i| format!("g{}", i % 7)).collect::<Vec<_>>().join("/");
    let below = |p: &str, n: String| if p.is_empty() { n } else { format!("{}/{}", p, n) };
    let end = level(c.depth);
    let leaf = Meta::simple(vec![2; c.rank as usize], vec![1; c.rank as usize], Dt { k: 1, big: false }).build();
    let small = Meta::simple(vec![4], vec![2], Dt { k: 1, big: false }).build();
    // Nodes with documents, and whether they are arrays; chunks by array.
    let mut nodes: BTreeMap<String, bool> = BTreeMap::new();
    let mut chunks: Vec<(String, Vec<u64>, u64)> = vec![];
    for n in 1..=c.depth {
        if c.docs >> (n % 64) & 1 == 1 {
            nodes.insert(level(n), false);
        }
    }
    for (base, n) in [(end.as_str(), c.wide), ("", c.top)] {
        for i in 0..n {
            nodes.insert(below(base, format!("n{}", i)), i % 3 == 1);
            if i % 30 == 1 {
                chunks.push((below(base, format!("n{}", i)), vec![(i % 2) as u64], i as u64));
            }
        }
    }
    let arr = below(&end, "arr".into());
    nodes.insert(arr.clone(), true);
    for i in 0..c.chunks.min(if c.rank == 0 { 1 } else { 4 }) {
        let pos: Vec<u64> = (0..c.rank).map(|d| (i as u64 >> (d % 2)) & 1).collect();
        if !chunks.iter().any(|(p, q, _)| *p == arr && *q == pos) {
            chunks.push((arr.clone(), pos, 1000 + i as u64));
        }
    }
    let meta = |p: &str| if p == arr { &leaf } else { &small };
    for (p, array) in &nodes {
        if *array { h.create_array(p, meta(p)) } else { h.create_group(p) }.map_err(|e| format!("creating {:?}: {}", p, e))?;
    }
    for (p, pos, v) in &chunks {
        let n = meta(p).get_chunk_num_elements();
        write_chunk(h, 1, p, meta(p), pos, &vec![*v; n].iter().map(|x| x % 251).collect::<Vec<_>>()).map_err(|e| format!("writing chunk {:?} of {:?}: {}", pos, p, e))?;
    }
    let created = nodes.len();
    let check = |nodes: &BTreeMap<String, bool>, chunks: &[(String, Vec<u64>, u64)], when: &str| -> R {
        if f == Focus::Listing {
            let mut children: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
            for p in nodes.keys() {
                let mut at = p.as_str();
                loop {
                    let (up, name) = at.rsplit_once('/').unwrap_or(("", at));
                    children.entry(up.to_string()).or_default().insert(name.to_string());
                    if up.is_empty() {
                        break;
                    }
                    at = up;
                }
            }
            for (p, want) in &children {
                let got = h.list_nodes(p).map_err(|e| format!("{}: list_nodes({:?}): {}", when, p, e))?;
                let set: BTreeSet<String> = got.iter().cloned().collect();
                ensure_eq!(set.len(), got.len(), "{}: duplicates in list_nodes({:?})", when, p);
                // Directories emptied by removals may stay.
                let left = |d: &&String| nodes.len() < created && level(c.depth).starts_with(&below(p, d.to_string())) && !want.contains(*d);
                if let Some(d) = set.symmetric_difference(want).find(|d| !left(d)) {
                    return Err(format!("{}: list_nodes({:?}) has {} names, expected {}; {:?} is {}", when, p, got.len(), want.len(), d, if want.contains(d) { "missing" } else { "unexpected" }));
                }
            }
        } else {
            for (p, array) in nodes {
                ensure!(HierarchyReader::exists(h, p).map_err(|e| format!("{}: exists({:?}): {}", when, p, e))?, "{}: {:?} does not exist", when, p);
                ensure_eq!(h.array_exists(p).map_err(|e| format!("{}: array_exists({:?}): {}", when, p, e))?, *array, "{}: array_exists({:?})", when, p);
            }
            for n in 0..=c.depth {
                let l = level(n);
                let want = nodes.keys().any(|k| l.is_empty() || *k == l || k.starts_with(&format!("{}/", l)));
                // Directories emptied by removals may stay; the root then, too.
                if want {
                    ensure!(HierarchyReader::exists(h, &l).map_err(|e| format!("{}: exists({:?}): {}", when, l, e))?, "{}: the group {:?} does not exist", when, l);
                }
            }
        }
        for (p, pos, v) in chunks {
            let n = meta(p).get_chunk_num_elements();
            let got = read_chunk(h, 1, p, meta(p), pos).map_err(|e| format!("{}: reading chunk {:?} of {:?}: {}", when, pos, p, e))?;
            ensure_eq!(got.map(|g| g.1), Some(vec![v % 251; n]), "{}: chunk {:?} of {:?}", when, pos, p);
        }
        Ok(())
    };
    check(&nodes, &chunks, "after creation")?;
    if f == Focus::Existence {
        return Ok(());
    }
    let cut = level(c.cut % (c.depth + 1));
    let what = format!("remove({:?})", cut);
    let before = files();
    h.remove(&cut).map_err(|e| format!("{}: {}", what, e))?;
    let gone = |k: &str| cut.is_empty() || k == cut || k.starts_with(&format!("{}/", cut));
    // Everything below, and nothing else.
    let after = files();
    let doomed = |k: &str| {
        let k = k.trim_start_matches("meta/root").trim_start_matches("data/root").trim_start_matches('/');
        let node = k.strip_suffix(".group.json").or_else(|| k.strip_suffix(".array.json")).unwrap_or(k);
        gone(node)
    };
    let want: Snap = before.into_iter().filter(|(k, _)| !doomed(k)).collect();
    if let Some(d) = diff(&want, &after) {
        return Err(format!("{}: {}", what, d));
    }
    let nodes: BTreeMap<String, bool> = nodes.into_iter().filter(|(k, _)| !gone(k)).collect();
    let chunks: Vec<_> = chunks.into_iter().filter(|(k, ..)| !gone(k)).collect();
    check(&nodes, &chunks, &what)?;
    ensure!(!h.array_exists(&arr).map_err(|e| e.to_string())?, "{}: the array {:?} exists", what, arr);
    Ok(())
}
