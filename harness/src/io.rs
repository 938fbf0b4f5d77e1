//! Dynamically typed wrappers over the crate's generic chunk and region calls.
//! Element values are exchanged as bits (`u64`), region data in row-major order
//! of the logical index, whatever the memory order of the arrays involved.

use crate::dispatch;
use crate::gen::*;
use ndarray::{Array, ArrayD, Axis, IxDyn, ShapeBuilder};
use serde::{Deserialize, Serialize};
use std::io::{Read, Result, Write};
use zarr::chunk::{DefaultChunk, DefaultChunkReader, DefaultChunkWriter};
use zarr::ndarray::{BoundingBox, ZarrNdarrayReader, ZarrNdarrayWriter};
use zarr::prelude::*;

pub fn write_chunk<H: HierarchyWriter>(h: &H, k: usize, path: &str, m: &ArrayMetadata, pos: &[u64], data: &[u64]) -> Result<()> {
    dispatch!(k, T => {
        let v: Vec<T> = to_v(data);
        h.write_chunk(path, m, &SliceDataChunk::<T, Vec<T>>::new(gc(pos), v))
    })
}

pub fn read_chunk<H: HierarchyReader>(h: &H, k: usize, path: &str, m: &ArrayMetadata, pos: &[u64]) -> Result<Option<(Vec<u64>, Vec<u64>)>> {
    dispatch!(k, T => {
        Ok(h.read_chunk::<T>(path, m, gc(pos))?.map(|c| (c.get_grid_position().to_vec(), to_b(c.get_data()))))
    })
}

/// Reads into a buffer that previously held `prev` elements.
pub fn read_chunk_into<H: HierarchyReader>(h: &H, k: usize, path: &str, m: &ArrayMetadata, pos: &[u64], prev: usize) -> Result<Option<(Vec<u64>, Vec<u64>)>> {
    dispatch!(k, T => {
        let mut c = VecDataChunk::<T>::new(gc(&[77, 78]), vec![T::from_b(0x5555_5555_5555_5555); prev]);
        Ok(h.read_chunk_into::<T, _>(path, m, gc(pos), &mut c)?.map(|()| (c.get_grid_position().to_vec(), to_b(c.get_data()))))
    })
}

pub fn enc<W: Write>(w: W, k: usize, m: &ArrayMetadata, pos: &[u64], data: &[u64]) -> Result<()> {
    dispatch!(k, T => {
        let v: Vec<T> = to_v(data);
        let c = SliceDataChunk::<T, &[T]>::new(gc(pos), &v[..]);
        <DefaultChunk as DefaultChunkWriter<T, W, _>>::write_chunk(w, m, &c)
    })
}

pub fn dec<R: Read>(r: R, k: usize, m: &ArrayMetadata, pos: &[u64]) -> Result<(Vec<u64>, Vec<u64>)> {
    dispatch!(k, T => {
        let c: VecDataChunk<T> = <DefaultChunk as DefaultChunkReader<T, R>>::read_chunk(r, m, gc(pos))?;
        Ok((c.get_grid_position().to_vec(), to_b(c.get_data())))
    })
}

pub fn dec_into<R: Read>(r: R, k: usize, m: &ArrayMetadata, pos: &[u64], prev: usize) -> Result<(Vec<u64>, Vec<u64>)> {
    dispatch!(k, T => {
        let mut c = VecDataChunk::<T>::new(gc(&[77]), vec![T::from_b(0x5555_5555_5555_5555); prev]);
        <DefaultChunk as DefaultChunkReader<T, R>>::read_chunk_into(r, m, gc(pos), &mut c)?;
        Ok((c.get_grid_position().to_vec(), to_b(c.get_data())))
    })
}

/// Reads into a caller-provided slice through the chunk traits.
pub fn dec_slice<R: Read>(r: R, k: usize, m: &ArrayMetadata, n: usize) -> Result<Vec<u64>> {
    use zarr::chunk::ReadableDataChunk;
    use zarr::compression::Compression;
    dispatch!(k, T => {
        let mut buf = vec![T::from_b(0x5555_5555_5555_5555); n];
        let mut c = SliceDataChunk::<T, &mut [T]>::new(gc(&[]), &mut buf[..]);
        c.read_data(m.get_compressor().decoder(r), m)?;
        Ok(to_b(&buf))
    })
}

// ---------------------------------------------------------------- regions

/// Memory order and stride of a caller's array.
#[derive(Clone, Copy, PartialEq, Eq, Serialize, Deserialize, Debug)]
pub struct Layout {
    pub kind: u8,
    pub seed: u16,
}
pub const LAYOUT_LABEL: [&str; 5] = ["layout C", "layout F", "layout permuted", "layout strided", "layout reversed"];
impl Layout {
    pub fn kind(&self) -> usize {
        self.kind as usize % 5
    }
    pub fn label(&self) -> &'static str {
        LAYOUT_LABEL[self.kind()]
    }
}

/// Axis permutation drawn from the layout's seed.
fn perm(n: usize, seed: u16) -> Vec<usize> {
    let mut p: Vec<usize> = (0..n).collect();
    let mut r = Sm(seed as u64);
    for i in (1..n).rev() {
        p.swap(i, r.below(i as u64 + 1) as usize);
    }
    p
}

/// Calls `f` with a view of the given logical shape laid out as requested;
/// `init` gives the elements in row-major logical order. Afterwards returns
/// the view's elements (row-major) and whether storage outside the view kept
/// its filler.
pub fn with_view<T: Bits + PartialEq, X>(
    shape: &[usize],
    lay: Layout,
    init: &[u64],
    f: impl FnOnce(ndarray::ArrayViewMut<T, IxDyn>) -> X,
) -> (X, Vec<u64>, bool) {
    let logical: ArrayD<T> = Array::from_shape_vec(IxDyn(shape), to_v(init)).unwrap();
    match lay.kind() {
        0 => {
            let mut a = logical;
            let x = f(a.view_mut());
            (x, a.iter().map(|v| v.to_b()).collect(), true)
        }
        1 => {
            let mut a: ArrayD<T> = Array::from_elem(IxDyn(shape).f(), T::from_b(0));
            a.assign(&logical);
            let x = f(a.view_mut());
            (x, a.iter().map(|v| v.to_b()).collect(), true)
        }
        2 => {
            let p = perm(shape.len(), lay.seed);
            // storage axes: p; logical axis p[i] is storage axis i.
            let st: Vec<usize> = p.iter().map(|&i| shape[i]).collect();
            let mut inv = vec![0; p.len()];
            for (i, &j) in p.iter().enumerate() {
                inv[j] = i;
            }
            let a: ArrayD<T> = Array::from_elem(IxDyn(&st), T::from_b(0));
            let mut a = a.permuted_axes(IxDyn(&inv));
            a.assign(&logical);
            let x = f(a.view_mut());
            (x, a.iter().map(|v| v.to_b()).collect(), true)
        }
        kind => {
            // A view of every second element (and margins) of a larger array,
            // optionally with reversed axes.
            const FILL: u64 = 0x2a;
            let big: Vec<usize> = shape.iter().map(|&s| 2 * s + 3).collect();
            let mut a: ArrayD<T> = Array::from_elem(IxDyn(&big), T::from_b(FILL));
            let filler = T::from_b(FILL);
            let mark: ArrayD<bool> = {
                let mut m: ArrayD<bool> = Array::from_elem(IxDyn(&big), false);
                let mut mv = m.view_mut();
                for (ax, &s) in shape.iter().enumerate() {
                    mv.slice_axis_inplace(Axis(ax), ndarray::Slice::new(1, Some(1 + 2 * s as isize), 2));
                }
                mv.fill(true);
                m
            };
            let (x, out) = {
                let mut v = a.view_mut();
                for (ax, &s) in shape.iter().enumerate() {
                    v.slice_axis_inplace(Axis(ax), ndarray::Slice::new(1, Some(1 + 2 * s as isize), 2));
                }
                if kind == 4 {
                    for ax in 0..shape.len() {
                        if (lay.seed >> ax) & 1 == 1 {
                            v.invert_axis(Axis(ax));
                        }
                    }
                }
                v.assign(&logical);
                let x = f(v.view_mut());
                (x, v.iter().map(|v| v.to_b()).collect::<Vec<u64>>())
            };
            let clean = a.iter().zip(mark.iter()).all(|(e, &m)| m || e.to_b() == filler.to_b());
            (x, out, clean)
        }
    }
}

pub fn bbox(off: &[u64], shape: &[u64]) -> BoundingBox {
    BoundingBox::new(gc(off), gc(shape))
}

pub fn write_region<H: HierarchyWriter>(h: &H, k: usize, path: &str, m: &ArrayMetadata, off: &[u64], shape: &[u64], lay: Layout, data: &[u64]) -> Result<()> {
    let sh: Vec<usize> = shape.iter().map(|&s| s as usize).collect();
    dispatch!(k, T => {
        with_view::<T, _>(&sh, lay, data, |v| h.write_ndarray(path, m, gc(off), v.view())).0
    })
}

/// Returns (array shape, elements row-major, is the result in the metadata's memory order).
pub fn read_region<H: HierarchyReader>(h: &H, k: usize, path: &str, m: &ArrayMetadata, off: &[u64], shape: &[u64]) -> Result<(Vec<usize>, Vec<u64>)> {
    dispatch!(k, T => {
        let a = h.read_ndarray::<T>(path, m, &bbox(off, shape))?;
        Ok((a.shape().to_vec(), a.iter().map(|v| v.to_b()).collect()))
    })
}

/// Row-major iteration over all indices of a shape.
pub fn indices(shape: &[u64]) -> Vec<Vec<u64>> {
    let mut out = vec![vec![]];
    for &s in shape {
        let mut next = Vec::with_capacity(out.len() * s as usize);
        for p in &out {
            for i in 0..s {
                let mut q: Vec<u64> = p.clone();
                q.push(i);
                next.push(q);
            }
        }
        out = next;
    }
    out
}

/// Linear position of an index inside a chunk of the given shape and layout.
pub fn linear(idx: &[u64], shape: &[u32], col: bool) -> usize {
    let mut pos = 0usize;
    let n = shape.len();
    for j in 0..n {
        let d = if col { n - 1 - j } else { j };
        pos = pos * shape[d] as usize + idx[d] as usize;
    }
    pos
}
