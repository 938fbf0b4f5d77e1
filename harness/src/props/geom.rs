//! Grid geometry, coordinates, keys: C04, C09, C10, C11.

use crate::fw::*;
use crate::gen::*;
use crate::io::*;
use crate::store::*;
use crate::{ensure, ensure_eq};
use ndarray::{Array, IxDyn, SliceInfo};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use zarr::ndarray::BoundingBox;
use zarr::prelude::*;
use zarr::storage::get_chunk_key;

fn u8t() -> Dt {
    Dt { k: 1, big: false }
}

/// `num` where any failure to produce it (e.g. an overflow panic) is reported.
fn sure<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    no_panic(f).map_err(|p| format!("{} panics: {}", what, p))
}

// ---------------------------------------------------------------- C09

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Grid {
    dims: Vec<(u64, u32)>,
    seed: u64,
}

fn small_grid() -> impl Strategy<Value = Grid> {
    (prop_oneof![
        4 => proptest::collection::vec((0u64..14, 1u32..8), 0..=4),
        2 => proptest::collection::vec((0u64..4, 1u32..4), 5..=7),
        1 => proptest::collection::vec((1u64..3, 1u32..3), 7..=9),
        2 => proptest::collection::vec((0u64..600, 1u32..300), 0..=1),
    ], any::<u64>())
        .prop_map(|(dims, seed)| Grid { dims, seed })
}

pub fn len64() -> impl Strategy<Value = u64> {
    prop_oneof![
        3 => 0u64..50,
        2 => (0u32..64, 0u64..3, any::<bool>()).prop_map(|(b, d, up)| if up { (1u64 << b).saturating_add(d) } else { (1u64 << b).saturating_sub(d) }),
        2 => any::<u64>(),
        1 => (0u64..4).prop_map(|d| u64::MAX - d),
    ]
}
pub fn chunk32() -> impl Strategy<Value = u32> {
    prop_oneof![
        3 => 1u32..20,
        2 => (0u32..32, 0u32..3, any::<bool>()).prop_map(|(b, d, up)| if up { (1u32 << b).saturating_add(d) } else { (1u32 << b).saturating_sub(d).max(1) }),
        2 => 1u32..=u32::MAX,
        1 => (0u32..4).prop_map(|d| u32::MAX - d),
    ]
}

fn large_grid() -> impl Strategy<Value = Grid> {
    (proptest::collection::vec((len64(), chunk32()), 0..=8), any::<u64>()).prop_map(|(dims, seed)| Grid { dims, seed })
}

impl Grid {
    fn meta(&self) -> Meta {
        Meta::simple(self.dims.iter().map(|d| d.0).collect(), self.dims.iter().map(|d| d.1).collect(), u8t())
    }
}

fn ceil128(a: u64, b: u32) -> u64 {
    ((a as u128 + b as u128 - 1) / b as u128) as u64
}

/// Product if it stays below 2^64 whatever the order of the factors.
fn product(it: impl Iterator<Item = u64>) -> Option<u64> {
    let mut p: u128 = 1;
    let mut zero = false;
    for x in it {
        if x == 0 {
            zero = true;
        } else {
            p = p.saturating_mul(x as u128);
            if p > u64::MAX as u128 {
                return None;
            }
        }
    }
    Some(if zero { 0 } else { p as u64 })
}

fn c09_check(g: &Grid, cx: &mut Cx) -> R {
    let m = g.meta();
    let meta = m.build();
    let rank = m.shape.len();
    let ext: Vec<u64> = m.shape.iter().zip(&m.chunk).map(|(&s, &c)| ceil128(s, c)).collect();
    cx.label(match rank { 0 => "rank 0", 1..=3 => "rank 1..3", 4..=6 => "rank 4..6", _ => "rank 7+" });
    cx.label_if(m.shape.contains(&0), "empty array");
    cx.label_if(m.shape.iter().any(|&s| s > u32::MAX as u64), "length beyond 2^32");
    cx.label_if(m.shape.iter().zip(&m.chunk).any(|(&s, &c)| s % c as u64 != 0), "partial edge chunk");
    cx.nontrivial();
    ensure_eq!(meta.get_ndim(), rank, "get_ndim");
    ensure_eq!(meta.get_shape(), &m.shape[..], "get_shape");
    ensure_eq!(meta.get_chunk_shape(), &m.chunk[..], "get_chunk_shape");
    let got = sure("get_grid_extent", || meta.get_grid_extent())?;
    ensure_eq!(got.to_vec(), ext, "grid extent of shape {:?} in chunks of {:?}", m.shape, m.chunk);
    if let Some(n) = product(ext.iter().cloned()) {
        ensure_eq!(sure("get_num_chunks", || meta.get_num_chunks())?, n, "number of chunks of shape {:?} in chunks of {:?}", m.shape, m.chunk);
    }
    if let Some(n) = product(m.shape.iter().cloned()) {
        ensure_eq!(sure("get_num_elements", || meta.get_num_elements())? as u64, n, "number of elements of shape {:?}", m.shape);
    }
    if let Some(n) = product(m.chunk.iter().map(|&c| c as u64)) {
        ensure_eq!(sure("get_chunk_num_elements", || meta.get_chunk_num_elements())? as u64, n, "number of elements of a chunk {:?}", m.chunk);
    }
    // Grid positions at, below and above the edge, and of other ranks.
    let mut r = Sm(g.seed);
    for _ in 0..12 {
        let mut pos: Vec<u64> = ext
            .iter()
            .map(|&e| match r.below(8) {
                0 => 0,
                1 => e,
                2 => e.wrapping_add(r.below(3)),
                3 => r.next(),
                4 => u64::MAX,
                5 => e.saturating_sub(1),
                _ => r.below(e.max(1)),
            })
            .collect();
        match r.below(8) {
            0 => pos.push(0),
            1 => {
                pos.pop();
            }
            _ => {}
        }
        let want = pos.len() == rank && pos.iter().zip(&ext).all(|(p, e)| p < e);
        let got = sure("in_bounds", || meta.in_bounds(&gc(&pos)))?;
        ensure_eq!(got, want, "in_bounds({:?}) of a grid of extent {:?}", pos, ext);
        cx.label(if want { "position in bounds" } else { "position out of bounds" });
    }
    let b = sure("get_bounds", || meta.get_bounds())?;
    ensure_eq!(b, bbox(&vec![0; rank], &m.shape), "array bounds");
    if !m.shape.contains(&0) {
        // Any element lies in the bounds of its chunk, which is in bounds, and of no neighbour.
        for _ in 0..6 {
            let e: Vec<u64> = m.shape.iter().map(|&s| match r.below(3) { 0 => s - 1, 1 => 0, _ => r.below(s) }).collect();
            let pos: Vec<u64> = e.iter().zip(&m.chunk).map(|(&x, &c)| x / c as u64).collect();
            ensure!(meta.in_bounds(&gc(&pos)), "chunk {:?} of element {:?} is not in bounds", pos, e);
            let off: Vec<u64> = pos.iter().zip(&m.chunk).map(|(&p, &c)| p * c as u64).collect();
            let cb = sure("get_chunk_bounds", || meta.get_chunk_bounds(&pos))?;
            ensure_eq!(cb, bbox(&off, &m.chunk.iter().map(|&c| c as u64).collect::<Vec<_>>()), "bounds of chunk {:?} of chunks {:?}", pos, m.chunk);
        }
    }
    Ok(())
}

fn c09_cover(g: &Grid, cx: &mut Cx) -> R {
    c09_check(g, cx)?;
    let m = g.meta();
    let meta = m.build();
    let n: u64 = m.shape.iter().product();
    if n > 3000 {
        return Ok(());
    }
    // Every element is in the bounds of exactly one in-bounds chunk.
    let ext: Vec<u64> = m.grid();
    let boxes: Vec<(Vec<u64>, BoundingBox)> = indices(&ext).into_iter().map(|p| { let b = meta.get_chunk_bounds(&p); (p, b) }).collect();
    ensure_eq!(boxes.len() as u64, meta.get_num_chunks(), "number of grid positions");
    let mut seen = std::collections::HashMap::new();
    for (p, b) in &boxes {
        ensure!(meta.in_bounds(&gc(p)), "grid position {:?} is not in bounds", p);
        // Element membership through the box's own geometry.
        let mut inside = b.clone();
        inside.intersect(&meta.get_bounds());
        let lo: Vec<u64> = p.iter().zip(&m.chunk).map(|(&p, &c)| p * c as u64).collect();
        let hi: Vec<u64> = inside.end().collect();
        let sh: Vec<u64> = hi.iter().zip(&lo).map(|(&h, &l)| h - l).collect();
        for i in indices(&sh) {
            let e: Vec<u64> = i.iter().zip(&lo).map(|(a, b)| a + b).collect();
            *seen.entry(e).or_insert(0u32) += 1;
        }
    }
    for e in indices(&m.shape) {
        ensure_eq!(seen.get(&e).cloned().unwrap_or(0), 1, "chunks containing element {:?}", e);
    }
    ensure_eq!(seen.len() as u64, n, "elements covered");
    Ok(())
}

pub fn c09() -> Vec<Sub> {
    vec![
        sub("cover", Cases(200_000, 1_000_000), small_grid, c09_cover),
        sub("large", Cases(1_000_000, 5_000_000), large_grid, c09_check),
    ]
}

// ---------------------------------------------------------------- C10

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Reg {
    dims: Vec<(u64, u32)>,
    /// Offset and length of the region per dimension.
    reg: Vec<(u64, u64)>,
}

fn small_reg() -> impl Strategy<Value = Reg> {
    let dim = || (0u64..12, 1u32..6);
    prop_oneof![
        5 => proptest::collection::vec((dim(), 0u64..14, prop_oneof![1 => Just(0u64), 8 => 1u64..9]), 0..=4),
        1 => proptest::collection::vec(((0u64..5, 1u32..4), 0u64..4, 1u64..4), 5..=7),
        1 => proptest::collection::vec(((1u64..200, 1u32..40), 0u64..200, 0u64..100), 1..=2),
    ]
    .prop_flat_map(|v| (Just(v), 0u8..6))
    .prop_map(|(v, wild)| Reg {
        dims: v.iter().map(|d| if wild != 0 { (d.0 .0.max(1), d.0 .1) } else { d.0 }).collect(),
        // Mostly regions that start inside the array.
        reg: v.iter().map(|d| if wild > 1 { (d.1 % d.0 .0.max(1), d.2) } else { (d.1, d.2) }).collect(),
    })
}

fn drain(what: &str, it: &mut (impl Iterator<Item = Vec<u64>> + ExactSizeIterator), want: &[Vec<u64>]) -> R {
    for (i, w) in want.iter().enumerate() {
        let l = sure("len", || it.len())?;
        ensure_eq!(l, want.len() - i, "{}: length reported before item {}", what, i);
        ensure_eq!(it.size_hint(), (want.len() - i, Some(want.len() - i)), "{}: size hint before item {}", what, i);
        let n = it.next();
        ensure_eq!(n.as_ref(), Some(w), "{}: item {}", what, i);
    }
    // An iterator need not keep returning `None` after the first.
    let l = sure("len", || it.len())?;
    ensure_eq!(l, 0, "{}: length reported at the end", what);
    ensure_eq!(it.next(), None, "{}: after {} items", what, want.len());
    let l = sure("len", || it.len())?;
    ensure_eq!(l, 0, "{}: length reported after the end", what);
    Ok(())
}

fn c10_small(g: &Reg, cx: &mut Cx) -> R {
    let m = Grid { dims: g.dims.clone(), seed: 0 }.meta();
    let meta = m.build();
    let rank = m.shape.len();
    let all = indices(&m.grid());
    cx.label(match rank { 0 => "rank 0", 1..=3 => "rank 1..3", 4..=6 => "rank 4..6", _ => "rank 7+" });
    let what = format!("coord_iter of {:?} in chunks of {:?}", m.shape, m.chunk);
    let mut it = sure(&what, || meta.coord_iter())?;
    sure(&what, || drain(&what, &mut it, &all))??;
    let off: Vec<u64> = g.reg.iter().map(|r| r.0).collect();
    let sh: Vec<u64> = g.reg.iter().map(|r| r.1).collect();
    // A chunk is wanted when some element is in it, the region and the array.
    let want: Vec<Vec<u64>> = all
        .iter()
        .filter(|p| {
            (0..rank).all(|d| {
                let c = m.chunk[d] as u64;
                (p[d] * c..(p[d] + 1) * c).any(|e| e < m.shape[d] && e >= off[d] && e < off[d] + sh[d])
            })
        })
        .cloned()
        .collect();
    cx.label(if want.is_empty() { "no chunk" } else if want.len() == all.len() { "all chunks" } else { "some chunks" });
    if !want.is_empty() {
        cx.nontrivial();
    }
    let what = format!("bounded_coord_iter of {:?}+{:?} over {:?} in chunks of {:?}", off, sh, m.shape, m.chunk);
    let mut it = sure(&what, || meta.bounded_coord_iter(&bbox(&off, &sh)))?;
    sure(&what, || drain(&what, &mut it, &want))??;
    // Consuming in other ways sees the same sequence.
    let v: Vec<Vec<u64>> = sure(&what, || meta.bounded_coord_iter(&bbox(&off, &sh)).collect())?;
    ensure_eq!(v, want, "{} collected", what);
    let k = want.len() / 2;
    let mut it = meta.bounded_coord_iter(&bbox(&off, &sh));
    ensure_eq!(sure(&what, || it.nth(k))?, want.get(k).cloned(), "{}: nth({})", what, k);
    ensure_eq!(sure(&what, || it.len())?, want.len().saturating_sub(k + 1), "{}: length after nth({})", what, k);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BigReg {
    /// Array length, chunk length, first chunk (fraction), in-chunk offset, region length in elements.
    dims: Vec<(u64, u32, u64, u32, u64)>,
}

fn big_reg() -> impl Strategy<Value = BigReg> {
    proptest::collection::vec((len64(), chunk32(), any::<u64>(), any::<u32>(), any::<u64>()), 1..=7).prop_map(|dims| BigReg { dims })
}

fn c10_big(g: &BigReg, cx: &mut Cx) -> R {
    let m = Meta::simple(g.dims.iter().map(|d| d.0).collect(), g.dims.iter().map(|d| d.1).collect(), u8t());
    let meta = m.build();
    let rank = g.dims.len();
    // Regions of at most about three chunks per dimension, anywhere up to (and beyond) the edge.
    let mut off = vec![];
    let mut sh = vec![];
    let mut total = 1u64;
    for (i, &(len, c, at, o, l)) in g.dims.iter().enumerate() {
        let c = c as u64;
        let ext = (len / c).saturating_add(1);
        let first = match at % 4 { 0 => ext.saturating_sub(1), 1 => ext.saturating_sub(2), _ => at % ext };
        let start = (first.saturating_mul(c)).saturating_add(o as u64 % c);
        let maxlen = if i < 3 { c.saturating_mul(2) } else { c };
        let len = l % (maxlen + 1);
        let start = start.min(u64::MAX - len);
        let start = if at % 13 != 0 && l % 7 != 0 && start >= g.dims[i].0 { start - c.min(start) } else { start };
        off.push(start);
        sh.push(len);
        total = total.saturating_mul(4);
    }
    let mut ranges = vec![];
    for d in 0..rank {
        let lo = off[d];
        let hi = (off[d] + sh[d]).min(m.shape[d]);
        let c = m.chunk[d] as u64;
        ranges.push(if lo < hi { (lo / c, (hi - 1) / c + 1) } else { (0, 0) });
    }
    let empty = ranges.iter().any(|r| r.0 == r.1);
    let sizes: Vec<u64> = ranges.iter().map(|r| if empty { 0 } else { r.1 - r.0 }).collect();
    let want: Vec<Vec<u64>> = indices(&sizes).into_iter().map(|i| i.iter().zip(&ranges).map(|(a, r)| a + r.0).collect()).collect();
    cx.label(if want.is_empty() { "no chunk" } else { "some chunks" });
    cx.label_if(want.iter().any(|w| w.iter().any(|&x| x > u32::MAX as u64)), "coordinate beyond 2^32");
    if !want.is_empty() {
        cx.nontrivial();
    }
    let what = format!("bounded_coord_iter of {:?}+{:?} over {:?} in chunks of {:?}", off, sh, m.shape, m.chunk);
    let mut it = sure(&what, || meta.bounded_coord_iter(&bbox(&off, &sh)))?;
    sure(&what, || drain(&what, &mut it, &want))??;
    // The start of the iteration over the whole array.
    let ext: Vec<u64> = m.grid();
    if let Some(n) = product(ext.iter().cloned()) {
        let mut it = sure("coord_iter", || meta.coord_iter())?;
        let mut pos = vec![0u64; rank];
        for i in 0..n.min(40) {
            ensure_eq!(sure("len", || it.len())? as u64, n - i, "coord_iter of grid {:?}: length before item {}", ext, i);
            ensure_eq!(it.next(), Some(pos.clone()), "coord_iter of grid {:?}: item {}", ext, i);
            for d in (0..rank).rev() {
                pos[d] += 1;
                if pos[d] < ext[d] {
                    break;
                }
                pos[d] = 0;
            }
        }
        if n <= 40 {
            ensure_eq!(it.next(), None, "coord_iter of grid {:?} after {} items", ext, n);
        }
    }
    Ok(())
}

pub fn c10() -> Vec<Sub> {
    vec![
        sub("small", Cases(600_000, 2_000_000), small_reg, c10_small),
        sub("large", Cases(400_000, 2_000_000), big_reg, c10_big),
    ]
}

// ---------------------------------------------------------------- C11

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Boxes {
    /// Offset and length of both boxes per dimension.
    dims: Vec<(u64, u64, u64, u64)>,
}

fn small_boxes() -> impl Strategy<Value = Boxes> {
    let l = || prop_oneof![1 => Just(0u64), 9 => 1u64..6];
    proptest::collection::vec((0u64..7, l(), 0u64..7, l()), 0..=3).prop_map(|dims| Boxes { dims })
}

fn large_boxes() -> impl Strategy<Value = Boxes> {
    proptest::collection::vec((len64(), len64(), len64(), len64(), any::<u8>()), 0..=9).prop_map(|v| Boxes {
        dims: v
            .into_iter()
            .map(|(o, l, p, k, rel)| {
                // Ends stay representable; often make the boxes touch or overlap.
                let l = l.min(u64::MAX - o);
                let p = match rel % 8 {
                    0 => o,
                    1 => o + l,
                    2 => (o + l).saturating_sub(1),
                    3 => o.saturating_add(l / 2),
                    _ => p,
                };
                let k = k.min(u64::MAX - p);
                (o, l, p, k)
            })
            .collect(),
    })
}

fn c11_geometry(b: &Boxes, cx: &mut Cx) -> R {
    let f = |i: usize| -> Vec<u64> { b.dims.iter().map(|d| [d.0, d.1, d.2, d.3][i]).collect() };
    let (ao, al, bo, bl) = (f(0), f(1), f(2), f(3));
    let (a, bb) = (bbox(&ao, &al), bbox(&bo, &bl));
    let rank = b.dims.len();
    let (ae, be): (Vec<u64>, Vec<u64>) = (0..rank).map(|d| (ao[d] + al[d], bo[d] + bl[d])).unzip();
    ensure_eq!(sure("end", || a.end().collect::<Vec<_>>())?, ae, "end of {:?}", a);
    ensure_eq!(a.is_empty(), al.contains(&0), "is_empty of {:?}", a);
    let lo: Vec<u64> = (0..rank).map(|d| ao[d].max(bo[d])).collect();
    let hi: Vec<u64> = (0..rank).map(|d| ae[d].min(be[d])).collect();
    let disjoint = (0..rank).any(|d| lo[d] >= hi[d]);
    cx.label(if disjoint { "disjoint" } else if a == bb { "equal" } else { "overlapping" });
    cx.label_if(rank == 0, "rank 0");
    cx.nontrivial();
    for (x, y) in [(&a, &bb), (&bb, &a)] {
        let mut i = x.clone();
        sure("intersect", || i.intersect(y)).map_err(|e| format!("{:?} with {:?}: {}", x, y, e))?;
        ensure_eq!(i.is_empty(), disjoint, "is the intersection of {:?} and {:?} empty", x, y);
        if !disjoint {
            let want = bbox(&lo, &(0..rank).map(|d| hi[d] - lo[d]).collect::<Vec<_>>());
            ensure_eq!(i, want, "intersection of {:?} and {:?}", x, y);
            // Idempotent and contained.
            let mut j = i.clone();
            j.intersect(x);
            ensure_eq!(j, i, "intersecting again");
        }
        if !a.is_empty() && !bb.is_empty() {
            let mut u = x.clone();
            sure("union", || u.union(y)).map_err(|e| format!("{:?} with {:?}: {}", x, y, e))?;
            let ulo: Vec<u64> = (0..rank).map(|d| ao[d].min(bo[d])).collect();
            let ul: Vec<u64> = (0..rank).map(|d| ae[d].max(be[d]) - ulo[d]).collect();
            ensure_eq!(u, bbox(&ulo, &ul), "union of {:?} and {:?}", x, y);
            cx.label("union");
        }
    }
    // Translation: subtract an offset not beyond the box's.
    let by: Vec<u64> = (0..rank).map(|d| ao[d].min(bo[d])).collect();
    let t = sure("subtraction", || a.clone() - &gc(&by))?;
    ensure_eq!(t, bbox(&(0..rank).map(|d| ao[d] - by[d]).collect::<Vec<_>>(), &al), "{:?} minus {:?}", a, by);
    // Conversions.
    let sn = a.shape_ndarray_shape();
    ensure_eq!(sn.iter().map(|&x| x as u64).collect::<Vec<_>>(), al, "shape_ndarray_shape of {:?}", a);
    if al.iter().all(|&l| l <= u32::MAX as u64) {
        let sc = a.shape_chunk();
        ensure_eq!(sc.iter().map(|&x| x as u64).collect::<Vec<_>>(), al, "shape_chunk of {:?}", a);
    }
    if ae.iter().all(|&e| e <= isize::MAX as u64) {
        let s = a.to_ndarray_slice();
        ensure_eq!(s.len(), rank, "slices of {:?}", a);
        for d in 0..rank {
            match s[d] {
                ndarray::SliceOrIndex::Slice { start, end: Some(end), step: 1 } if start as u64 == ao[d] && end as u64 == ae[d] => {}
                ref x => return Err(format!("slice {} of {:?} is {:?}", d, a, x)),
            }
        }
    }
    Ok(())
}

fn c11_sets(b: &Boxes, cx: &mut Cx) -> R {
    c11_geometry(b, cx)?;
    let f = |i: usize| -> Vec<u64> { b.dims.iter().map(|d| [d.0, d.1, d.2, d.3][i]).collect() };
    let (ao, al, bo, bl) = (f(0), f(1), f(2), f(3));
    let rank = b.dims.len();
    let (a, bb) = (bbox(&ao, &al), bbox(&bo, &bl));
    // Point sets, read off through slicing an array of the whole space.
    let space = vec![14usize; rank];
    let arr = Array::from_shape_fn(IxDyn(&space), |ix| (0..rank).fold(0usize, |s, d| s * 14 + ix[d]));
    let points = |x: &BoundingBox| -> Result<std::collections::BTreeSet<usize>, String> {
        sure("slicing", || {
            let s = x.to_ndarray_slice();
            arr.slice(SliceInfo::<_, IxDyn>::new(s).unwrap().as_ref()).iter().cloned().collect()
        })
    };
    let member = |o: &[u64], l: &[u64]| -> std::collections::BTreeSet<usize> {
        indices(&l.to_vec()).into_iter().map(|i| (0..rank).fold(0usize, |s, d| s * 14 + (i[d] + o[d]) as usize)).collect()
    };
    let (pa, pb) = (member(&ao, &al), member(&bo, &bl));
    ensure_eq!(points(&a)?, pa, "points of {:?}", a);
    let mut i = a.clone();
    i.intersect(&bb);
    let want: std::collections::BTreeSet<usize> = pa.intersection(&pb).cloned().collect();
    if i.is_empty() {
        ensure!(want.is_empty(), "intersection of {:?} and {:?} is empty", a, bb);
    } else {
        ensure_eq!(points(&i)?, want, "points of the intersection of {:?} and {:?}", a, bb);
    }
    if !pa.is_empty() && !pb.is_empty() {
        let mut u = a.clone();
        u.union(&bb);
        let pu = points(&u)?;
        ensure!(pa.is_subset(&pu) && pb.is_subset(&pu), "union {:?} of {:?} and {:?} misses points", u, a, bb);
    }
    Ok(())
}

pub fn c11() -> Vec<Sub> {
    vec![
        sub("sets", Cases(400_000, 2_000_000), small_boxes, c11_sets),
        sub("large", Cases(1_000_000, 5_000_000), large_boxes, c11_geometry),
    ]
}

// ---------------------------------------------------------------- C04

fn key_ref(path: &str, sep: &str, pos: &[u64]) -> String {
    let mut s = String::from("/data/root");
    if !path.is_empty() {
        s.push('/');
        s.push_str(path);
    }
    s.push_str("/c");
    let v: Vec<String> = pos.iter().map(|p| p.to_string()).collect();
    s + &v.join(sep)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Key {
    path: String,
    deco: u8,
    pos: Vec<u64>,
    /// Which of `SEPARATORS`.
    sep: u8,
    /// Derives a second (path, position) from the first.
    edit: u8,
    path2: String,
    at: u8,
    x: u64,
}

fn coord() -> impl Strategy<Value = u64> {
    prop_oneof![4 => 0u64..15, 2 => prop_oneof![Just(99u64), Just(100), Just(101), Just(111), Just(1 << 32), Just((1 << 32) - 1), Just(u64::MAX), Just(10u64.pow(19))], 2 => len64()]
}

fn key_case() -> impl Strategy<Value = Key> {
    (path(3), any::<u8>(), prop_oneof![5 => proptest::collection::vec(coord(), 0..=4), 2 => proptest::collection::vec(coord(), 5..=10)], prop_oneof![1 => 0u8..2, 1 => 0u8..11], any::<u8>(), path(3), any::<u8>(), coord())
        .prop_map(|(path, deco, pos, sep, edit, path2, at, x)| Key { path, deco, pos, sep, edit, path2, at, x })
}

/// Declared separators. With the last two, different positions may share a key.
const SEPARATORS: [&str; 11] = ["/", ".", "::", "-", "/c/", "é", "__", "/x.", ", ", "", "0"];

impl Key {
    fn sep(&self) -> &'static str {
        SEPARATORS[self.sep as usize % SEPARATORS.len()]
    }
    fn injective(&self) -> bool {
        (self.sep as usize % SEPARATORS.len()) < SEPARATORS.len() - 2
    }
}

fn key_meta(rank: usize, sep: &str) -> ArrayMetadata {
    let mut doc = Meta::simple(vec![u64::MAX; rank], vec![1; rank], u8t()).json();
    doc["chunk_grid"]["separator"] = sep.into();
    meta_from(&doc)
}

fn c04_key(c: &Key, cx: &mut Cx) -> R {
    let sep = c.sep();
    let meta = key_meta(c.pos.len(), sep);
    cx.label_if(sep != "/" && sep != ".", "unusual separator");
    cx.nontrivial();
    cx.label(match c.pos.len() { 0 => "rank 0", 1..=6 => "rank 1..6", _ => "rank 7+" });
    cx.label_if(c.path.is_empty(), "root node");
    let want = key_ref(&c.path, sep, &c.pos);
    let spelled = decorate(&c.path, (c.deco & 15) as u16);
    let spelled = if c.path.is_empty() { ["", "/", "//"][c.deco as usize % 3].to_string() } else { spelled };
    let got = get_chunk_key(&spelled, &meta, &c.pos);
    ensure_eq!(got, want, "key of chunk {:?} of {:?}", c.pos, spelled);
    if !c.injective() {
        return Ok(());
    }
    // A different array or coordinate has a different key.
    let mut pos2 = c.pos.clone();
    let mut path2 = c.path.clone();
    let at = if pos2.is_empty() { 0 } else { c.at as usize % pos2.len() };
    match c.edit % 6 {
        0 => pos2.reverse(),
        1 if !pos2.is_empty() => pos2[at] = c.x,
        2 if !pos2.is_empty() => pos2[at] = pos2[at].wrapping_mul(10).wrapping_add(1),
        3 if pos2.len() > 1 => {
            // Move a digit across a separator.
            pos2[0] = pos2[0] / 10;
            pos2[1] = pos2[1].wrapping_add(10);
        }
        4 => { let n = pos2.len().min(1); pos2.rotate_left(n) }
        _ => path2 = c.path2.clone(),
    }
    let got2 = get_chunk_key(&path2, &meta, &pos2);
    let same = pos2 == c.pos && path2 == c.path;
    cx.label(if same { "same chunk" } else { "different chunk" });
    ensure!((got2 == want) == same, "chunks {:?} of {:?} and {:?} of {:?}: keys {:?} and {:?}", c.pos, c.path, pos2, path2, want, got2);
    Ok(())
}

fn c04_file(c: &Key, cx: &mut Cx) -> R {
    let sep = c.sep();
    let meta = key_meta(c.pos.len(), sep);
    cx.label_if(sep != "/" && sep != ".", "unusual separator");
    // The last grid position of the largest array is one below the maximum.
    let pos: Vec<u64> = c.pos.iter().map(|&p| p.min(u64::MAX - 1)).collect();
    cx.nontrivial();
    cx.label(match pos.len() { 0 => "rank 0", 1..=6 => "rank 1..6", _ => "rank 7+" });
    cx.label_if(c.path.is_empty(), "root node");
    let dir = cx.dir().join("base");
    let h = FilesystemHierarchy::open_or_create(&dir).map_err(|e| e.to_string())?;
    h.create_array(&c.path, &meta).map_err(|e| format!("create_array({:?}): {}", c.path, e))?;
    let before = snap_files(&dir);
    let key = key_ref(&c.path, sep, &pos);
    let want_uri = format!("file://{}{}", dir.display(), key);
    let uri = h.get_chunk_uri(&c.path, &meta, &pos).map_err(|e| format!("get_chunk_uri: {}", e))?;
    ensure_eq!(uri, want_uri, "URI of the unwritten chunk {:?} of {:?}", pos, c.path);
    write_chunk(&h, 1, &c.path, &meta, &pos, &[c.x & 0xff]).map_err(|e| format!("write_chunk: {}", e))?;
    let after = snap_files(&dir);
    let new: Vec<&String> = after.keys().filter(|k| !before.contains_key(*k)).collect();
    ensure_eq!(new, vec![&key[1..]], "files created by writing chunk {:?} of {:?}", pos, c.path);
    ensure!(before.iter().all(|(k, v)| after.get(k) == Some(v)), "writing a chunk changed another file");
    let uri = h.get_chunk_uri(&c.path, &meta, &pos).map_err(|e| format!("get_chunk_uri: {}", e))?;
    ensure_eq!(uri, want_uri, "URI of the written chunk {:?} of {:?}", pos, c.path);
    let at = uri.strip_prefix("file://").unwrap();
    let bytes = std::fs::read(at).map_err(|e| format!("the URI's file {:?}: {}", at, e))?;
    ensure_eq!(bytes, vec![c.x as u8], "content of the URI's file");
    // What another program puts there is the chunk.
    std::fs::write(at, [!(c.x as u8)]).map_err(|e| e.to_string())?;
    let got = read_chunk(&h, 1, &c.path, &meta, &pos).map_err(|e| format!("read_chunk: {}", e))?.ok_or("stored chunk reads as absent")?;
    ensure_eq!(got, (pos.clone(), vec![!(c.x as u8) as u64]), "chunk stored at the URI");
    Ok(())
}

pub fn c04() -> Vec<Sub> {
    vec![
        sub("key", Cases(500_000, 3_000_000), key_case, c04_key),
        sub("file", Cases(50_000, 200_000), key_case, c04_file),
    ]
}
