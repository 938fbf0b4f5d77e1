//! Chunk encoding: C01, C02, C16, C24, C30, C31.

use super::PURE;
use crate::fw::*;
use crate::gen::*;
use crate::io::*;
use crate::store::*;
use crate::{ensure, ensure_eq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::io::{Read, Write};
use std::sync::{Arc, Mutex};
use zarr::chunk::*;
use zarr::prelude::*;

/// Chunk shapes: small of any rank, and shapes whose element count sits on the
/// batching and buffering boundaries (256 elements, 8 KiB buffers, 64 KiB blocks).
pub fn chunk_shape() -> impl Strategy<Value = Vec<u32>> {
    let bound = prop_oneof![
        Just(255u32), Just(256), Just(257), Just(511), Just(512), Just(513), Just(1023), Just(1024), Just(1025),
        Just(2048), Just(4095), Just(4096), Just(4097), Just(8191), Just(8192), Just(8193), 240u32..280, 500u32..530,
    ];
    let big = prop_oneof![Just(16384u32), Just(65535), Just(65536), Just(65537), 60000u32..140000];
    prop_oneof![
        8 => proptest::collection::vec(0u32..6, 0..=8).prop_map(|v| if v.iter().map(|&x| x.max(1) as usize).product::<usize>() > 20000 { v[..4].to_vec() } else { v }),
        4 => proptest::collection::vec(1u32..8, 1..=4),
        4 => bound.clone().prop_map(|n| vec![n]),
        3 => (bound, 1u32..4).prop_map(|(n, m)| vec![m, n, 1]),
        3 => (1u32..5000).prop_map(|n| vec![n]),
        1 => big.prop_map(|n| vec![n]),
    ]
}

fn meta_for(chunk: &[u32], dt: Dt, comp: Comp) -> Meta {
    let mut m = Meta::simple(chunk.iter().map(|&c| c as u64 * 5 + 1).collect(), chunk.to_vec(), dt);
    m.comp = comp;
    m
}

fn size_label(cx: &mut Cx, n: usize) {
    cx.label(match n {
        0 => "elements 0",
        1..=255 => "elements 1..255",
        256 => "elements 256",
        257..=8191 => "elements 257..8191",
        8192..=65535 => "elements 8192..65535",
        _ => "elements 65536+",
    });
}

// ---------------------------------------------------------------- C01

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Codec {
    chunk: Vec<u32>,
    dt: Dt,
    comp: Comp,
    data: Data,
    fr: u8,
    fw: u8,
    pos: u32,
    prev: u32,
}

fn frag() -> impl Strategy<Value = u8> {
    prop_oneof![3 => Just(0u8), 2 => Just(1u8), 3 => 2u8..=255]
}

fn codec_case() -> impl Strategy<Value = Codec> {
    (chunk_shape(), dt(), comp(), data(), frag(), frag(), any::<u32>(), prop_oneof![Just(0u32), 1u32..600])
        .prop_map(|(chunk, dt, comp, data, fr, fw, pos, prev)| Codec { chunk, dt, comp, data, fr, fw, pos, prev })
}

fn pos_of(c: &Codec) -> Vec<u64> {
    let mut r = Sm(c.pos as u64);
    c.chunk.iter().map(|_| if r.below(8) == 0 { r.next() } else { r.below(5) }).collect()
}

/// Reinitializes a chunk of `prev` elements with another, after checking the
/// position and size it takes on its own.
fn reinit(k: usize, pos: &[u64], data: &[u64], prev: usize) -> Result<(Vec<u64>, Vec<u64>), String> {
    crate::dispatch!(k, T => {
        let mut c = VecDataChunk::<T>::new(gc(&[77]), vec![T::from_b(0x5555_5555_5555_5555); prev]);
        c.reinitialize(&gc(pos), data.len() as u32);
        ensure_eq!(c.get_grid_position().to_vec(), pos.to_vec(), "grid position of a reinitialized chunk");
        ensure_eq!(c.get_num_elements() as usize, data.len(), "number of elements of a reinitialized chunk");
        ensure_eq!(c.get_data().len(), data.len(), "size of a reinitialized chunk");
        let mut c = VecDataChunk::<T>::new(gc(&[77]), vec![T::from_b(0x5555_5555_5555_5555); prev]);
        let v: Vec<T> = to_v(data);
        c.reinitialize_with(&SliceDataChunk::<T, &[T]>::new(gc(pos), &v[..]));
        Ok((c.get_grid_position().to_vec(), to_b(c.get_data())))
    })
}

fn c01_codec(c: &Codec, cx: &mut Cx) -> R {
    let m = meta_for(&c.chunk, c.dt, c.comp);
    let meta = m.build();
    let n = m.chunk_len();
    let k = c.dt.k();
    let pos = pos_of(c);
    let data = c.data.expand(n, c.dt);
    size_label(cx, n);
    cx.label(c.comp.label());
    cx.label_if(c.dt.big, "big-endian");
    cx.label_if(c.fr > 0, "fragmented reader");
    cx.label_if(c.fw > 0, "fragmented writer");
    if n > 0 {
        cx.nontrivial();
    }
    let mut w = FragWrite::new(c.fw);
    enc(&mut w, k, &meta, &pos, &data).map_err(|e| format!("write_chunk failed: {}", e))?;
    let bytes = w.data;
    let (p, d) = dec(FragRead::new(&bytes[..], c.fr), k, &meta, &pos).map_err(|e| format!("read_chunk failed: {}", e))?;
    ensure_eq!(p, pos, "grid position");
    ensure_eq!(d, data, "elements read by read_chunk");
    let (p, d) = dec_into(FragRead::new(&bytes[..], c.fr), k, &meta, &pos, c.prev as usize)
        .map_err(|e| format!("read_chunk_into failed: {}", e))?;
    ensure_eq!(p, pos, "grid position of a reused chunk");
    ensure_eq!(d, data, "elements read into a chunk that held {} elements", c.prev);
    // Chunks take their position and size, or all they hold, from elsewhere.
    let (p, d) = reinit(k, &pos, &data, c.prev as usize)?;
    ensure_eq!(p, pos, "grid position of a chunk reinitialized with another");
    ensure_eq!(d, data, "elements of a chunk of {} reinitialized with another", c.prev);
    let d = dec_slice(FragRead::new(&bytes[..], c.fr), k, &meta, n).map_err(|e| format!("reading into a slice failed: {}", e))?;
    ensure_eq!(d, data, "elements read into a slice");
    // A writer that takes everything at once gives the same stored value.
    if c.fw > 0 {
        let mut w = Vec::new();
        enc(&mut w, k, &meta, &pos, &data).map_err(|e| format!("write_chunk failed: {}", e))?;
        let (_, d) = dec(&w[..], k, &meta, &pos).map_err(|e| format!("read_chunk failed: {}", e))?;
        ensure_eq!(d, data, "elements written at once");
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Stored {
    chunk: Vec<u32>,
    dt: Dt,
    comp: Comp,
    col: bool,
    dot: bool,
    writes: Vec<(u32, Data, bool)>,
    prev: u32,
}

fn stored_case() -> impl Strategy<Value = Stored> {
    (chunk_shape(), dt(), comp(), any::<bool>(), any::<bool>(),
     proptest::collection::vec((any::<u32>(), data(), any::<bool>()), 1..4), 0u32..600)
        .prop_map(|(chunk, dt, comp, col, dot, writes, prev)| Stored { chunk, dt, comp, col, dot, writes, prev })
}

fn c01_store(c: &Stored, cx: &mut Cx) -> R {
    let mut m = meta_for(&c.chunk, c.dt, c.comp);
    m.col = c.col;
    m.dot = c.dot;
    // Zero-length chunk dimensions have no grid; those are covered without a store.
    if c.chunk.contains(&0) {
        m.chunk = c.chunk.iter().map(|&x| x.max(1)).collect();
        m.shape = m.chunk.iter().map(|&x| x as u64 * 5 + 1).collect();
    }
    let meta = m.build();
    let n = m.chunk_len();
    let k = c.dt.k();
    cx.nontrivial();
    size_label(cx, n);
    cx.label(c.comp.label());
    let h = FilesystemHierarchy::open_or_create(cx.dir()).map_err(|e| format!("open_or_create: {}", e))?;
    h.create_array("x/arr", &meta).map_err(|e| format!("create_array: {}", e))?;
    let meta = h.get_array_metadata("x/arr").map_err(|e| format!("get_array_metadata: {}", e))?;
    let grid = m.grid();
    for (ps, ds, into) in &c.writes {
        let mut r = Sm(*ps as u64);
        let pos: Vec<u64> = grid.iter().map(|&g| r.below(g)).collect();
        let data = ds.expand(n, c.dt);
        write_chunk(&h, k, "x/arr", &meta, &pos, &data).map_err(|e| format!("write_chunk failed: {}", e))?;
        let got = if *into {
            read_chunk_into(&h, k, "x/arr", &meta, &pos, c.prev as usize)
        } else {
            read_chunk(&h, k, "x/arr", &meta, &pos)
        };
        let (p, d) = got.map_err(|e| format!("read_chunk failed: {}", e))?.ok_or("written chunk reads as absent")?;
        ensure_eq!(p, pos, "grid position");
        ensure_eq!(d, data, "elements of chunk {:?}", pos);
    }
    Ok(())
}

pub fn c01() -> Vec<Sub> {
    vec![
        sub("codec", Cases(if PURE { 2500 } else { 6000 }, 60_000), codec_case, c01_codec),
        sub("store", Cases(if PURE { 600 } else { 2000 }, 15_000), stored_case, c01_store),
    ]
}

// ---------------------------------------------------------------- C02

/// Decompresses `bytes` with a decoder chosen and configured here, requiring
/// that nothing follows the stream.
fn independent_decode(comp: Comp, bytes: &[u8]) -> Result<Vec<u8>, String> {
    let mut out = Vec::new();
    let e = |e: std::io::Error| format!("independent {} decoder: {}", comp.label(), e);
    let rest: usize = match comp.c() {
        0 => return Ok(bytes.to_vec()),
        1 => {
            let mut d = flate2::bufread::GzDecoder::new(bytes);
            d.read_to_end(&mut out).map_err(e)?;
            d.into_inner().len()
        }
        2 => {
            let mut d = bzip2::bufread::BzDecoder::new(bytes);
            d.read_to_end(&mut out).map_err(e)?;
            d.into_inner().len()
        }
        3 => {
            if PURE {
                let mut d = lz4::Decoder::new(bytes).map_err(e)?;
                d.read_to_end(&mut out).map_err(e)?;
                let (r, res) = d.finish();
                res.map_err(e)?;
                r.len()
            } else {
                let mut src = bytes;
                let f = lz_fear::framed::LZ4FrameReader::new(&mut src).map_err(|e| format!("independent lz4 decoder: {:?}", e))?;
                f.into_read().read_to_end(&mut out).map_err(e)?;
                src.len()
            }
        }
        _ => {
            let mut d = xz2::bufread::XzDecoder::new(bytes);
            d.read_to_end(&mut out).map_err(e)?;
            d.into_inner().len()
        }
    };
    if rest != 0 {
        return Err(format!("{} bytes follow the {} stream", rest, comp.label()));
    }
    Ok(out)
}

/// Compresses with an encoder configured here (any valid parameters).
fn independent_encode(codec: usize, p: u32, data: &[u8]) -> Vec<u8> {
    let mut r = Sm(p as u64);
    match codec {
        0 => data.to_vec(),
        1 => {
            let mut b = flate2::GzBuilder::new();
            if r.below(2) == 1 {
                b = b.filename("chunk").mtime(r.next() as u32);
            }
            if r.below(3) == 1 {
                b = b.comment("c").extra(vec![1, 2, 3]);
            }
            let mut e = b.write(Vec::new(), flate2::Compression::new(r.below(10) as u32));
            // Written in pieces with flushes: several deflate blocks.
            for c in data.chunks(1 + r.below(3000) as usize) {
                e.write_all(c).unwrap();
                if r.below(4) == 0 {
                    e.flush().unwrap();
                }
            }
            e.finish().unwrap()
        }
        2 => {
            let mut e = bzip2::write::BzEncoder::new(Vec::new(), bzip2::Compression::new(1 + r.below(9) as u32));
            e.write_all(data).unwrap();
            e.finish().unwrap()
        }
        3 => {
            // lz-fear (a dependency, not the code under test) mishandles frames of
            // several linked blocks that contain an incompressible one.
            let one_block = data.len() <= 64 << 10;
            if r.below(2) == 0 {
                let mut b = lz4::EncoderBuilder::new();
                b.block_size(match r.below(4) {
                    0 => lz4::BlockSize::Max64KB,
                    1 => lz4::BlockSize::Max256KB,
                    2 => lz4::BlockSize::Max1MB,
                    _ => lz4::BlockSize::Max4MB,
                });
                b.block_mode(if r.below(2) == 0 || (PURE && !one_block) { lz4::BlockMode::Independent } else { lz4::BlockMode::Linked });
                b.checksum(if r.below(2) == 0 { lz4::ContentChecksum::NoChecksum } else { lz4::ContentChecksum::ChecksumEnabled });
                b.level(r.below(10) as u32);
                let mut e = b.build(Vec::new()).unwrap();
                for c in data.chunks(1 + r.below(3000) as usize) {
                    e.write_all(c).unwrap();
                }
                let (w, res) = e.finish();
                res.unwrap();
                w
            } else {
                let mut s = lz_fear::framed::CompressionSettings::default();
                s.block_size([64 << 10, 256 << 10, 1 << 20, 4 << 20][r.below(4) as usize])
                    .independent_blocks(r.below(2) == 0 || !one_block)
                    .block_checksums(r.below(2) == 0)
                    .content_checksum(r.below(2) == 0);
                let mut w = Vec::new();
                s.compress(data, &mut w).unwrap();
                w
            }
        }
        _ => {
            use xz2::stream::{Check, Stream};
            let check = [Check::None, Check::Crc32, Check::Crc64, Check::Sha256][r.below(4) as usize];
            let s = Stream::new_easy_encoder(r.below(4) as u32, check).unwrap();
            let mut e = xz2::write::XzEncoder::new_stream(Vec::new(), s);
            e.write_all(data).unwrap();
            e.finish().unwrap()
        }
    }
}

fn c02_stored(c: &Codec, cx: &mut Cx) -> R {
    let m = meta_for(&c.chunk, c.dt, c.comp);
    let meta = m.build();
    let n = m.chunk_len();
    let data = c.data.expand(n, c.dt);
    size_label(cx, n);
    cx.label(c.comp.label());
    cx.label(KINDS[c.dt.k()]);
    cx.label_if(c.dt.big, "big-endian");
    if n > 0 {
        cx.nontrivial();
    }
    let mut w = FragWrite::new(c.fw);
    enc(&mut w, c.dt.k(), &meta, &pos_of(c), &data).map_err(|e| format!("write_chunk failed: {}", e))?;
    let raw = independent_decode(c.comp, &w.data)?;
    let want = c.dt.encode(&data);
    ensure_eq!(raw.len(), want.len(), "length of the decompressed stored chunk of {} {}", n, c.dt.name());
    ensure_eq!(raw, want, "decompressed stored chunk of {} {}", n, c.dt.name());
    Ok(())
}

fn c02_foreign(c: &Codec, cx: &mut Cx) -> R {
    let m = meta_for(&c.chunk, c.dt, c.comp);
    let meta = m.build();
    let n = m.chunk_len();
    let data = c.data.expand(n, c.dt);
    size_label(cx, n);
    cx.label(c.comp.label());
    cx.label_if(c.dt.big, "big-endian");
    if n > 0 {
        cx.nontrivial();
    }
    let mut plain = c.dt.encode(&data);
    if c.dt.mask() == 1 && c.pos % 3 > 0 {
        // Others store true as another byte than 1.
        cx.label("bool of other bytes");
        let mut r = Sm(c.pos as u64);
        plain.iter_mut().for_each(|b| *b *= 1 + r.below(255) as u8);
    }
    let bytes = independent_encode(c.comp.c(), c.pos, &plain);
    let pos = pos_of(c);
    let (_, d) = dec(FragRead::new(&bytes[..], c.fr), c.dt.k(), &meta, &pos)
        .map_err(|e| format!("read_chunk of a chunk stored by another {} encoder failed: {}", c.comp.label(), e))?;
    ensure_eq!(d, data, "chunk stored by another {} encoder", c.comp.label());
    let (_, d) = dec_into(FragRead::new(&bytes[..], c.fr), c.dt.k(), &meta, &pos, c.prev as usize)
        .map_err(|e| format!("read_chunk_into of a foreign chunk failed: {}", e))?;
    ensure_eq!(d, data, "foreign chunk read into a reused buffer");
    Ok(())
}

/// The value in the store (not just the encoder's output) is the encoding.
fn c02_file(c: &Codec, cx: &mut Cx) -> R {
    let mut m = meta_for(&c.chunk, c.dt, c.comp);
    m.chunk = c.chunk.iter().map(|&x| x.max(1)).collect();
    m.shape = m.chunk.iter().map(|&x| x as u64 * 5 + 1).collect();
    let meta = m.build();
    let n = m.chunk_len();
    let data = c.data.expand(n, c.dt);
    cx.nontrivial();
    cx.label(c.comp.label());
    size_label(cx, n);
    let dir = cx.dir();
    let h = FilesystemHierarchy::open_or_create(&dir).map_err(|e| e.to_string())?;
    h.create_array("a", &meta).map_err(|e| e.to_string())?;
    let pos = vec![1u64; m.chunk.len()];
    let file = dir.join("data/root/a").join(format!("c{}", pos.iter().map(|_| "1").collect::<Vec<_>>().join("/")));
    write_chunk(&h, c.dt.k(), "a", &meta, &pos, &data).map_err(|e| format!("write_chunk failed: {}", e))?;
    let raw = independent_decode(c.comp, &std::fs::read(&file).map_err(|e| format!("{}: {}", file.display(), e))?)?;
    ensure_eq!(raw, c.dt.encode(&data), "decompressed chunk file");
    let other = Data { seed: c.pos, kind: c.data.kind.wrapping_add(1) }.expand(n, c.dt);
    std::fs::write(&file, independent_encode(c.comp.c(), c.pos, &c.dt.encode(&other))).map_err(|e| e.to_string())?;
    let (_, d) = read_chunk(&h, c.dt.k(), "a", &meta, &pos).map_err(|e| format!("read_chunk failed: {}", e))?.ok_or("absent")?;
    ensure_eq!(d, other, "chunk file stored by another encoder");
    Ok(())
}

pub fn c02() -> Vec<Sub> {
    vec![
        sub("stored", Cases(if PURE { 5_000 } else { 10_000 }, 60_000), codec_case, c02_stored),
        sub("foreign", Cases(if PURE { 5_000 } else { 10_000 }, 60_000), codec_case, c02_foreign),
        sub("file", Cases(if PURE { 800 } else { 3_000 }, 10_000), codec_case, c02_file),
    ]
}

// ---------------------------------------------------------------- C16

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Damage {
    c: Codec,
    /// Read with another codec than the one that wrote the bytes.
    read_as: Option<u8>,
    /// (kind, offset, value)
    ops: Vec<(u8, u32, u8)>,
}

fn damage_case() -> impl Strategy<Value = Damage> {
    (codec_case(), proptest::option::weighted(0.15, 0u8..5), proptest::collection::vec((0u8..8, any::<u32>(), any::<u8>()), 1..4))
        .prop_map(|(mut c, read_as, ops)| {
            // Keep the chunks small: what matters is where the damage lies.
            let n: usize = c.chunk.iter().map(|&x| x as usize).product();
            if n > 9000 {
                c.chunk = vec![(n % 9000) as u32];
            }
            Damage { c, read_as, ops }
        })
}

fn damage(bytes: &mut Vec<u8>, ops: &[(u8, u32, u8)]) {
    for &(k, off, v) in ops {
        let n = bytes.len();
        let at = if n == 0 { 0 } else { off as usize % n };
        match k {
            0 => bytes.truncate(at),
            1 => bytes.truncate(n - (n.min(1 + off as usize % 16))),
            2 if n > 0 => bytes[at] ^= 1 << (v % 8),
            3 if n > 0 => bytes[at] = v,
            // Damage in the header.
            4 if n > 0 => {
                let at = off as usize % n.min(24);
                bytes[at] = v;
            }
            5 => bytes.extend(std::iter::repeat(v).take(off as usize % 40)),
            6 => *bytes = {
                let mut r = Sm(off as u64);
                (0..v as usize).map(|_| r.next() as u8).collect()
            },
            7 if n > 0 => {
                let len = (v as usize).min(n - at);
                bytes.drain(at..at + len);
            }
            _ => {}
        }
    }
}

fn c16_codec(d: &Damage, cx: &mut Cx) -> R {
    let c = &d.c;
    let m = meta_for(&c.chunk, c.dt, c.comp);
    let n = m.chunk_len();
    let data = c.data.expand(n, c.dt);
    let k = c.dt.k();
    let pos = pos_of(c);
    let mut bytes = Vec::new();
    enc(&mut bytes, k, &m.build(), &pos, &data).map_err(|e| format!("write_chunk failed: {}", e))?;
    let intact = bytes.clone();
    damage(&mut bytes, &d.ops);
    let mut rm = m.clone();
    if let Some(r) = d.read_as {
        rm.comp = Comp { codec: r, p: None };
    }
    let meta = rm.build();
    cx.label(rm.comp.label());
    cx.label_if(bytes.len() < intact.len(), "shortened");
    cx.label_if(d.read_as.is_some(), "other codec");
    if bytes != intact && n > 0 {
        cx.nontrivial();
    }
    for mode in 0..3 {
        let r = no_panic(|| match mode {
            0 => dec(FragRead::new(&bytes[..], c.fr), k, &meta, &pos).map(|x| x.1),
            1 => dec_into(FragRead::new(&bytes[..], c.fr), k, &meta, &pos, c.prev as usize).map(|x| x.1),
            _ => dec_slice(FragRead::new(&bytes[..], c.fr), k, &meta, n),
        })
        .map_err(|p| format!("reading damaged {} data panics: {}", rm.comp.label(), p))?;
        match r {
            Ok(v) => {
                cx.label("read");
                ensure_eq!(v.len(), n, "number of elements read from damaged data");
                // For raw data the elements are the leading stored bytes.
                if rm.comp.c() == 0 {
                    let need = n * c.dt.size();
                    ensure!(bytes.len() >= need, "a {}-byte raw value was read as a chunk of {} bytes", bytes.len(), need);
                    if k != 0 {
                        ensure_eq!(c.dt.encode(&v), bytes[..need].to_vec(), "elements read from damaged raw data");
                    }
                }
            }
            Err(_) => cx.label("refused"),
        }
    }
    Ok(())
}

/// Well-formed streams that hold fewer (or more) bytes than the chunk.
fn c16_short(c: &Codec, cx: &mut Cx) -> R {
    let m = meta_for(&c.chunk, c.dt, c.comp);
    let meta = m.build();
    let n = m.chunk_len();
    if n == 0 {
        return Ok(());
    }
    let full = c.dt.encode(&c.data.expand(n, c.dt));
    let keep = match c.prev % 4 {
        0 => full.len() - 1,
        1 => 0,
        2 => full.len() - 1 - (c.prev as usize * 7 % full.len()).min(full.len() - 1),
        _ => full.len() + 1 + c.prev as usize % 50,
    };
    let mut body = full.clone();
    body.resize(keep, 0x33);
    let bytes = independent_encode(c.comp.c(), c.pos, &body);
    cx.nontrivial();
    cx.label(c.comp.label());
    cx.label(if keep < full.len() { "short stream" } else { "long stream" });
    for mode in 0..3 {
        let r = no_panic(|| match mode {
            0 => dec(FragRead::new(&bytes[..], c.fr), c.dt.k(), &meta, &[]).map(|x| x.1),
            1 => dec_into(FragRead::new(&bytes[..], c.fr), c.dt.k(), &meta, &[], c.fw as usize).map(|x| x.1),
            _ => dec_slice(FragRead::new(&bytes[..], c.fr), c.dt.k(), &meta, n),
        })
        .map_err(|p| format!("reading a stream of {} bytes for {} panics: {}", keep, full.len(), p))?;
        match r {
            Ok(v) => {
                ensure!(keep >= full.len(), "a {} stream of {} bytes was read as a chunk of {} bytes", c.comp.label(), keep, full.len());
                ensure_eq!(c.dt.encode(&v), full, "elements of a stream with trailing data");
            }
            Err(_) => {}
        }
    }
    Ok(())
}

/// Every truncation of a small stored chunk, through the store.
fn c16_store(d: &Damage, cx: &mut Cx) -> R {
    let c = &d.c;
    let mut m = meta_for(&c.chunk, c.dt, c.comp);
    m.chunk = c.chunk.iter().map(|&x| x.max(1)).collect();
    if m.chunk_len() > 600 {
        m.chunk = vec![m.chunk_len() as u32 % 600 + 1];
    }
    m.shape = m.chunk.iter().map(|&x| x as u64 * 5 + 1).collect();
    let meta = m.build();
    let n = m.chunk_len();
    let k = c.dt.k();
    let dir = cx.dir();
    let h = FilesystemHierarchy::open_or_create(&dir).map_err(|e| e.to_string())?;
    h.create_array("a", &meta).map_err(|e| e.to_string())?;
    let p0 = vec![0u64; m.chunk.len()];
    let p1 = vec![1u64; m.chunk.len()];
    let data = c.data.expand(n, c.dt);
    write_chunk(&h, k, "a", &meta, &p0, &data).map_err(|e| format!("write_chunk failed: {}", e))?;
    let other = Data { seed: c.pos, kind: 2 }.expand(n, c.dt);
    let victim = if p0.is_empty() { &p0 } else { &p1 };
    if !p0.is_empty() {
        write_chunk(&h, k, "a", &meta, &p1, &other).map_err(|e| format!("write_chunk failed: {}", e))?;
    }
    let file = dir.join("data/root/a").join(format!("c{}", victim.iter().map(|c| c.to_string()).collect::<Vec<_>>().join("/")));
    let mut bytes = std::fs::read(&file).map_err(|e| e.to_string())?;
    damage(&mut bytes, &d.ops);
    std::fs::write(&file, &bytes).map_err(|e| e.to_string())?;
    cx.label(c.comp.label());
    cx.nontrivial();
    let before = snap(&dir);
    let mut failed = false;
    for mode in 0..3 {
        let r = no_panic(|| match mode {
            0 => read_chunk(&h, k, "a", &meta, victim).map(|o| o.map(|x| x.1)),
            1 => read_chunk_into(&h, k, "a", &meta, victim, c.prev as usize).map(|o| o.map(|x| x.1)),
            _ => {
                let off: Vec<u64> = victim.iter().zip(&m.chunk).map(|(&p, &s)| p * s as u64).collect();
                let sh: Vec<u64> = m.chunk.iter().map(|&s| s as u64).collect();
                read_region(&h, k, "a", &meta, &off, &sh).map(|x| Some(x.1))
            }
        })
        .map_err(|p| format!("reading a damaged {} chunk panics: {}", c.comp.label(), p))?;
        match r {
            Ok(Some(v)) => ensure_eq!(v.len(), n, "number of elements"),
            Ok(None) => return Err("a damaged chunk reads as absent".into()),
            Err(_) => failed = true,
        }
    }
    cx.label(if failed { "refused" } else { "read" });
    if let Some(x) = diff(&before, &snap(&dir)) {
        return Err(format!("reading a damaged chunk changed the store: {}", x));
    }
    if !p0.is_empty() {
        let (_, d) = read_chunk(&h, k, "a", &meta, &p0).map_err(|e| format!("intact chunk: {}", e))?.ok_or("intact chunk reads as absent")?;
        ensure_eq!(d, data, "intact chunk after a failed read of another");
    }
    // Writing part of a chunk that can not be read fails and keeps it as it is.
    if failed && n > 1 {
        let off: Vec<u64> = victim.iter().zip(&m.chunk).map(|(&p, &s)| p * s as u64).collect();
        let mut sh: Vec<u64> = m.chunk.iter().map(|&s| s as u64).collect();
        let d = sh.iter().position(|&s| s > 1).unwrap();
        sh[d] -= 1;
        let part: Vec<u64> = other.iter().take(sh.iter().product::<u64>() as usize).cloned().collect();
        let r = no_panic(|| write_region(&h, k, "a", &meta, &off, &sh, Layout { kind: 0, seed: 0 }, &part)).map_err(|p| format!("writing part of a damaged chunk panics: {}", p))?;
        ensure!(r.is_err(), "writing part of a chunk that can not be read reports success");
        if let Some(x) = diff(&before, &snap(&dir)) {
            return Err(format!("a failed write of part of a damaged chunk changed the store: {}", x));
        }
        cx.label("partial write refused");
    }
    // And the damaged one can be replaced.
    write_chunk(&h, k, "a", &meta, victim, &other).map_err(|e| format!("rewriting a damaged chunk: {}", e))?;
    let (_, d) = read_chunk(&h, k, "a", &meta, victim).map_err(|e| format!("rewritten chunk: {}", e))?.ok_or("rewritten chunk reads as absent")?;
    ensure_eq!(d, other, "rewritten chunk");
    Ok(())
}

/// Chunks of more elements than chunks can count.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Huge {
    chunk: Vec<u32>,
    /// The count in 32 bits.
    low: u32,
    dt: Dt,
    comp: Comp,
    bytes: Vec<u8>,
    /// The stored bytes are a valid stream of this many elements more than `low`.
    valid: Option<u8>,
    prev: u8,
    col: bool,
}

fn huge_case() -> impl Strategy<Value = Huge> {
    let two = (12u32..32, 0u32..20, 1u32..4, 0u8..3).prop_map(|(a, b, x, ones)| {
        let b = (32 - a + b).min(30);
        let mut v = vec![(1u32 << a) * x.min(u32::MAX >> a), 1u32 << b];
        (0..ones).for_each(|i| v.insert(i as usize, 1));
        (v, 0u32)
    });
    let odd = prop_oneof![
        Just((vec![641u32, 6700417], 1u32)), Just((vec![2, 2147483649], 2)), Just((vec![1073741825, 4], 4)),
        Just((vec![8, 536870913], 8)), Just((vec![3, 1, 1431655767], 5)), Just((vec![65536, 65536, 65536, 65536], 0)),
        Just((vec![u32::MAX, u32::MAX], 1)), Just((vec![1 << 30, 1 << 30, 1 << 30], 0)),
    ];
    (prop_oneof![two, odd], dt(), comp_cheap(), proptest::collection::vec(any::<u8>(), 0..40), proptest::option::weighted(0.8, 0u8..9), 0u8..9, any::<bool>())
        .prop_map(|((chunk, low), dt, comp, bytes, valid, prev, col)| Huge { chunk, low, dt, comp, bytes, valid, prev, col })
}

fn c16_huge(c: &Huge, cx: &mut Cx) -> R {
    let mut m = meta_for(&c.chunk, c.dt, c.comp);
    m.col = c.col;
    let k = c.dt.k();
    cx.label(c.comp.label());
    cx.label(if c.valid.is_some() { "valid stream" } else { "any bytes" });
    cx.nontrivial();
    let h = Mem::new();
    h.create_array("a", &m.build()).map_err(|e| format!("create_array: {}", e))?;
    let meta = h.get_array_metadata("a").map_err(|e| format!("get_array_metadata: {}", e))?;
    let pos = vec![0u64; c.chunk.len()];
    let elements = c.low as usize + c.valid.unwrap_or(0) as usize;
    let data = Data { seed: 5, kind: 5 }.expand(elements, c.dt);
    let bytes = match c.valid {
        Some(_) => independent_encode(c.comp.c(), 5, &c.dt.encode(&data)),
        None => c.bytes.clone(),
    };
    h.map.lock().unwrap().insert(format!("data/root/a/c{}", vec!["0"; pos.len()].join("/")), bytes.clone());
    let before = h.snapshot();
    let what = format!("a stored value of {} bytes as a chunk of shape {:?}", bytes.len(), c.chunk);
    let ones = vec![1u64; pos.len()];
    for (op, r) in [
        ("read_chunk", no_panic(|| read_chunk(&h, k, "a", &meta, &pos).map(|o| o.map(|x| x.1.len())))),
        ("read_chunk_into", no_panic(|| read_chunk_into(&h, k, "a", &meta, &pos, c.prev as usize).map(|o| o.map(|x| x.1.len())))),
        ("read_ndarray", no_panic(|| read_region(&h, k, "a", &meta, &pos, &ones).map(|x| Some(x.1.len())))),
        ("write_ndarray", no_panic(|| write_region(&h, k, "a", &meta, &pos, &ones, Layout { kind: 0, seed: 0 }, &[1]).map(|_| Some(1)))),
        ("write_chunk", no_panic(|| write_chunk(&h, k, "a", &meta, &pos, &data[..c.low as usize]).map(|_| Some(1)))),
    ] {
        match r.map_err(|p| format!("{} of {} panics: {}", op, what, p))? {
            Ok(n) => return Err(format!("{} of {} succeeds ({:?} elements)", op, what, n)),
            Err(_) => {}
        }
        ensure!(h.snapshot() == before, "{} of {} changed the store", op, what);
    }
    // Chunks that are not stored are no obstacle.
    let off: Vec<u64> = m.grid().iter().zip(&c.chunk).map(|(&g, &s)| (g - 1) * s as u64).collect();
    if off != pos {
        let (_, d) = no_panic(|| read_region(&h, k, "a", &meta, &off, &ones))
            .map_err(|p| format!("reading an element of an unstored chunk of shape {:?} panics: {}", c.chunk, p))?
            .map_err(|e| format!("reading an element of an unstored chunk of shape {:?}: {}", c.chunk, e))?;
        ensure_eq!(d, vec![0u64], "element of an unstored chunk");
    }
    Ok(())
}

pub fn c16() -> Vec<Sub> {
    vec![
        sub("huge", Cases(4000, 50_000), huge_case, c16_huge),
        sub("codec", Cases(if PURE { 8_000 } else { 20_000 }, 150_000), damage_case, c16_codec),
        sub("short", Cases(if PURE { 4_000 } else { 8_000 }, 50_000), codec_case, c16_short),
        sub("store", Cases(if PURE { 1_000 } else { 3_000 }, 20_000), damage_case, c16_store),
    ]
}

// ---------------------------------------------------------------- C24

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sink {
    c: Codec,
    /// 0 error, 1 zero-byte writes
    fault: u8,
    /// capacity of a buffered writer in front of the sink, if any
    buf: Option<u16>,
    at: Vec<u32>,
}

fn sink_case() -> impl Strategy<Value = Sink> {
    (codec_case(), 0u8..2, proptest::option::weighted(0.6, prop_oneof![Just(8192u16), Just(1), 2u16..300]),
     proptest::collection::vec(any::<u32>(), 12))
        .prop_map(|(mut c, fault, buf, at)| {
            let n: usize = c.chunk.iter().map(|&x| x as usize).product();
            if n > 10_000 {
                c.chunk = vec![(n % 10_000) as u32];
            }
            Sink { c, fault, buf, at }
        })
}

/// Byte offsets to fail at: all of them for short values, else both ends,
/// buffer boundaries and a sample.
fn offsets(total: usize, at: &[u32]) -> Vec<usize> {
    if total <= 160 {
        return (0..=total).collect();
    }
    let mut v: Vec<usize> = (0..8).chain(total - 24..=total).collect();
    v.extend([8191, 8192, 8193, 16384, 65536].iter().filter(|&&x| x < total));
    v.extend(at.iter().map(|&a| a as usize % total));
    v.sort();
    v.dedup();
    v
}

fn c24_sink(s: &Sink, cx: &mut Cx) -> R {
    let c = &s.c;
    let m = meta_for(&c.chunk, c.dt, c.comp);
    let meta = m.build();
    let n = m.chunk_len();
    let data = c.data.expand(n, c.dt);
    let k = c.dt.k();
    let mut whole = Vec::new();
    enc(&mut whole, k, &meta, &[], &data).map_err(|e| format!("write_chunk failed: {}", e))?;
    cx.label(c.comp.label());
    cx.label(if s.buf.is_some() { "buffered sink" } else { "bare sink" });
    if !whole.is_empty() {
        cx.nontrivial();
    }
    let mut plans: Vec<(usize, Fault)> = offsets(whole.len(), &s.at)
        .into_iter()
        .map(|o| (o, if s.fault == 0 { Fault::Error } else { Fault::Zero }))
        .collect();
    plans.push((0, Fault::Flush));
    for (left, fault) in plans {
        let out = Arc::new(Mutex::new(Vec::new()));
        let hit = Arc::new(Mutex::new(false));
        let o2 = out.clone();
        let w = FaultWrite {
            sink: move |b: &[u8]| o2.lock().unwrap().extend_from_slice(b),
            left,
            fault,
            hit: hit.clone(),
            max: if c.fw > 0 { c.fw as usize } else { usize::MAX },
        };
        let r = no_panic(|| match s.buf {
            Some(cap) => enc(std::io::BufWriter::with_capacity(cap as usize, w), k, &meta, &[], &data),
            None => enc(w, k, &meta, &[], &data),
        })
        .map_err(|p| format!("{} write to a sink failing after {} of {} bytes ({:?}) panics: {}", c.comp.label(), left, whole.len(), fault, p))?;
        let hit = *hit.lock().unwrap();
        let got = out.lock().unwrap().clone();
        if r.is_ok() {
            ensure!(!hit, "{} write reports success although the sink failed after {} of {} bytes ({:?})", c.comp.label(), left, whole.len(), fault);
            let d = dec(&got[..], k, &meta, &[]).map_err(|e| {
                format!("{} write reported success but the {} accepted bytes of {} do not read back: {}", c.comp.label(), got.len(), whole.len(), e)
            })?;
            ensure_eq!(d.1, data, "value accepted by the sink");
        } else {
            ensure!(hit, "{} write fails ({}) although the sink accepted everything", c.comp.label(), r.unwrap_err());
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct StoreFault {
    chunk: Vec<u32>,
    dt: Dt,
    comp: Comp,
    data: Data,
    op: u8,
    fault: u8,
    buffered: bool,
    attrs: serde_json::Map<String, Value>,
    at: Vec<u32>,
    /// for the real filesystem
    long: u16,
}

fn store_fault_case() -> impl Strategy<Value = StoreFault> {
    (proptest::collection::vec(1u32..9, 0..4), dt(), comp_cheap(), data(), 0u8..5, 0u8..3, any::<bool>(), attrs(),
     proptest::collection::vec(any::<u32>(), 8), prop_oneof![4 => Just(0u16), 2 => 1u16..20000])
        .prop_map(|(chunk, dt, comp, data, op, fault, buffered, attrs, at, long)| StoreFault { chunk, dt, comp, data, op, fault, buffered, attrs, at, long })
}

const OPS: [&str; 5] = ["write_chunk", "create_array", "create_group", "set_attributes", "write_ndarray"];

fn c24_run<H: HierarchyWriter>(h: &H, s: &StoreFault, m: &Meta, meta: &ArrayMetadata, arm: impl FnOnce()) -> std::io::Result<()> {
    use serde_json::Map;
    let n = m.chunk_len();
    match s.op % 5 {
        0 => {
            arm();
            write_chunk(h, s.dt.k(), "a", meta, &vec![0; m.chunk.len()], &s.data.expand(n, s.dt))
        }
        1 => {
            arm();
            h.create_array("new", meta)
        }
        2 => {
            arm();
            h.create_group("grp")
        }
        3 => {
            let mut a: Map<String, Value> = s.attrs.clone();
            a.insert("always".into(), json!("x".repeat(s.long as usize)));
            arm();
            h.set_attributes("a", a)
        }
        _ => {
            let off = vec![0; m.chunk.len()];
            let sh: Vec<u64> = m.chunk.iter().map(|&c| c as u64).collect();
            arm();
            write_region(h, s.dt.k(), "a", meta, &off, &sh, Layout { kind: 0, seed: 0 }, &s.data.expand(n, s.dt))
        }
    }
}

/// After a reported success, the value is all there.
fn c24_verify<H: HierarchyReader>(h: &H, s: &StoreFault, m: &Meta, meta: &ArrayMetadata) -> R {
    let n = m.chunk_len();
    let want = s.data.expand(n, s.dt);
    match s.op % 5 {
        0 => {
            let (_, d) = read_chunk(h, s.dt.k(), "a", meta, &vec![0; m.chunk.len()])
                .map_err(|e| format!("chunk reported written does not read: {}", e))?
                .ok_or("chunk reported written is absent")?;
            ensure_eq!(d, want, "chunk reported written");
        }
        1 => {
            let got = h.get_array_metadata("new").map_err(|e| format!("array reported created does not load: {}", e))?;
            ensure!(got == *meta, "array reported created loads differently");
        }
        2 => {
            let a = h.list_attributes("grp").map_err(|e| format!("group reported created has no attributes: {}", e))?;
            ensure!(a.is_empty(), "new group has attributes");
        }
        3 => {
            let a = h.list_attributes("a").map_err(|e| format!("attributes reported set do not load: {}", e))?;
            ensure_eq!(a.get("always").and_then(|v| v.as_str()).map(|s| s.len()), Some(s.long as usize), "attribute reported set");
            h.get_array_metadata("a").map_err(|e| format!("array metadata after setting attributes: {}", e))?;
        }
        _ => {
            let off = vec![0; m.chunk.len()];
            let sh: Vec<u64> = m.chunk.iter().map(|&c| c as u64).collect();
            let (_, d) = read_region(h, s.dt.k(), "a", meta, &off, &sh).map_err(|e| format!("region reported written does not read: {}", e))?;
            ensure_eq!(d, want, "region reported written");
        }
    }
    Ok(())
}

fn c24_meta(s: &StoreFault) -> Meta {
    let mut m = meta_for(&s.chunk, s.dt, s.comp);
    if s.op % 5 == 4 {
        m.col = false;
    }
    m
}

fn c24_store(s: &StoreFault, cx: &mut Cx) -> R {
    let m = c24_meta(s);
    let meta = m.build();
    cx.label(OPS[s.op as usize % 5]);
    cx.label(if s.buffered { "buffered sink" } else { "bare sink" });
    cx.nontrivial();
    // Size of the value without faults.
    let mut s = s.clone();
    s.long %= 1200;
    let run = |plan: Option<(usize, Fault)>| -> Result<(std::io::Result<()>, Mem), String> {
        let mut h = Mem::new();
        h.buffered = s.buffered;
        h.create_array("a", &meta).map_err(|e| format!("create_array: {}", e))?;
        let fault = h.fault.clone();
        let r = no_panic(|| c24_run(&h, &s, &m, &meta, || *fault.lock().unwrap() = plan.map(|(o, f)| (o, f, usize::MAX))))
            .map_err(|p| format!("{} with a failing store panics: {}", OPS[s.op as usize % 5], p))?;
        Ok((r, h))
    };
    let (r, h) = run(None)?;
    r.map_err(|e| format!("{} fails without a fault: {}", OPS[s.op as usize % 5], e))?;
    c24_verify(&h, &s, &m, &meta)?;
    let key = ["data/root/a/c", "meta/root/new.array.json", "meta/root/grp.group.json", "meta/root/a.array.json", "data/root/a/c"][s.op as usize % 5];
    let total = h.snapshot().iter().filter(|(k, _)| k.starts_with(key)).map(|(_, v)| v.len()).max().unwrap_or(0);
    let f = if s.fault % 2 == 0 { Fault::Error } else { Fault::Zero };
    let mut plans: Vec<(usize, Fault)> = offsets(total, &s.at).into_iter().map(|o| (o, f)).collect();
    plans.push((0, Fault::Flush));
    for (left, fault) in plans {
        let (r, h) = run(Some((left, fault)))?;
        let hit = *h.hit.lock().unwrap();
        if r.is_ok() {
            ensure!(!hit, "{} reports success although the store failed after {} of {} bytes ({:?})", OPS[s.op as usize % 5], left, total, fault);
            c24_verify(&h, &s, &m, &meta)?;
        }
    }
    Ok(())
}

/// The real filesystem refusing to grow a file beyond a limit.
fn c24_fs(s: &StoreFault, cx: &mut Cx) -> R {
    let mut s = s.clone();
    // Larger values so that they exceed the writer's buffer now and then.
    if s.long > 0 && !s.chunk.is_empty() && s.op % 5 != 3 {
        s.chunk[0] += s.long as u32;
        s.data.kind = 2;
    }
    let m = c24_meta(&s);
    let meta = m.build();
    cx.label(OPS[s.op as usize % 5]);
    cx.nontrivial();
    let base = cx.dir();
    let lens: Vec<(String, Vec<u8>)> = {
        let d = base.join("ref");
        let h = FilesystemHierarchy::open_or_create(&d).map_err(|e| e.to_string())?;
        h.create_array("a", &meta).map_err(|e| e.to_string())?;
        c24_run(&h, &s, &m, &meta, || ()).map_err(|e| format!("{} fails without a fault: {}", OPS[s.op as usize % 5], e))?;
        c24_verify(&h, &s, &m, &meta)?;
        snap_files(&d).into_iter().filter(|(k, _)| k != "zarr.json").collect()
    };
    let key = ["data/root/a/c", "meta/root/new.array.json", "meta/root/grp.group.json", "meta/root/a.array.json", "data/root/a/c"][s.op as usize % 5];
    let total = lens.iter().filter(|(k, _)| k.starts_with(key)).map(|(_, v)| v.len()).max().unwrap_or(0);
    let mut limits: Vec<usize> = s.at.iter().map(|&a| a as usize % (total + 1)).collect();
    limits.extend([total.saturating_sub(1), total]);
    limits.dedup();
    for (i, limit) in limits.into_iter().enumerate() {
        let d = base.join(format!("f{}", i));
        let h = FilesystemHierarchy::open_or_create(&d).map_err(|e| e.to_string())?;
        h.create_array("a", &meta).map_err(|e| e.to_string())?;
        let r = no_panic(|| {
            let r = c24_run(&h, &s, &m, &meta, || set_fsize(limit as u64));
            set_fsize(libc::RLIM_INFINITY);
            r
        });
        set_fsize(libc::RLIM_INFINITY);
        let r = r.map_err(|p| format!("{} with files limited to {} bytes panics: {}", OPS[s.op as usize % 5], limit, p))?;
        match r {
            Ok(()) => {
                cx.label("success reported");
                c24_verify(&h, &s, &m, &meta).map_err(|e| format!("files limited to {} of {} bytes: {}", limit, total, e))?;
            }
            Err(_) => {
                cx.label("failure reported");
                ensure!(limit < total, "{} fails although the limit of {} bytes suffices", OPS[s.op as usize % 5], limit);
            }
        }
    }
    Ok(())
}

fn set_fsize(n: u64) {
    unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        let lim = libc::rlimit { rlim_cur: n, rlim_max: libc::RLIM_INFINITY };
        libc::setrlimit(libc::RLIMIT_FSIZE, &lim);
    }
}

pub fn c24() -> Vec<Sub> {
    vec![
        sub("sink", Cases(if PURE { 500 } else { 1200 }, 20_000), sink_case, c24_sink),
        sub("store", Cases(if PURE { 300 } else { 1000 }, 20_000), store_fault_case, c24_store),
        // The file size limit is per process, so this part is sequential.
        sub_sharded("filesystem", Cases(if PURE { 150 } else { 500 }, 5_000), 1, store_fault_case, c24_fs),
    ]
}

// ---------------------------------------------------------------- C30

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Typed {
    /// 0 core, 1 extension with core fallback, 2 extension without, 3 raw, 4 extension with raw fallback
    decl: u8,
    dt: Dt,
    bits: u8,
    access: u8,
    chunk: Vec<u32>,
    comp: Comp,
    delta: i8,
    col: bool,
}

fn typed_case() -> impl Strategy<Value = Typed> {
    (prop_oneof![5 => Just(0u8), 3 => Just(1u8), 1 => Just(2u8), 1 => Just(3u8), 1 => Just(4u8)], dt(), 1u8..9, 0u8..24,
     proptest::collection::vec(1u32..5, 0..4), comp_cheap(), prop_oneof![3 => Just(0i8), 2 => -3i8..4], any::<bool>())
        .prop_map(|(decl, dt, bits, access, chunk, comp, delta, col)| Typed { decl, dt, bits, access, chunk, comp, delta, col })
}

fn c30_access(t: &Typed, cx: &mut Cx) -> R {
    let mut m = meta_for(&t.chunk, t.dt, t.comp);
    m.col = t.col;
    let mut j = m.json();
    let raw = format!("r{}", t.bits as usize * 8);
    j["data_type"] = match t.decl {
        0 => json!(t.dt.name()),
        1 => json!({"extension": "http://e/x", "type": "thing", "fallback": (t.dt.name())}),
        2 => json!({"extension": "http://e/x", "type": "thing"}),
        3 => json!(raw),
        _ => json!({"extension": "http://e/x", "type": "thing", "fallback": raw}),
    };
    // Half of the accesses use the declared type.
    let k = if t.access >= 12 { t.dt.k() } else { t.access as usize };
    let matches = t.decl <= 1 && k == t.dt.k();
    cx.label(["core type", "extension with fallback", "extension without fallback", "raw type", "extension with raw fallback"][t.decl as usize % 5]);
    cx.label(if matches { "matching access" } else { "mismatched access" });
    cx.nontrivial();
    let meta = meta_from(&j);
    let dir = cx.dir();
    let h = FilesystemHierarchy::open_or_create(&dir).map_err(|e| e.to_string())?;
    h.create_array("a", &meta).map_err(|e| format!("create_array: {}", e))?;
    let meta = h.get_array_metadata("a").map_err(|e| format!("get_array_metadata: {}", e))?;
    let n = m.chunk_len();
    let pos = vec![0u64; t.chunk.len()];
    let sh: Vec<u64> = t.chunk.iter().map(|&c| c as u64).collect();
    let acc = Dt { k: k as u8, big: t.dt.big };
    let data = Data { seed: 7, kind: 5 }.expand(n, acc);
    let verdict = |what: &str, ok: Result<bool, String>, want: bool| -> R {
        let ok = ok.map_err(|p| format!("{} as {} of {} panics: {}", what, KINDS[k], j["data_type"], p))?;
        ensure!(ok == want, "{} as {} of an array of {} {}", what, KINDS[k], j["data_type"], if ok { "succeeds" } else { "is refused" });
        Ok(())
    };
    // Writing a chunk, with the right and with a wrong number of elements.
    verdict("write_chunk", no_panic(|| write_chunk(&h, k, "a", &meta, &pos, &data).is_ok()), matches)?;
    let wrong = (n as i64 + t.delta as i64).max(0) as usize;
    if wrong != n {
        let d2 = Data { seed: 7, kind: 5 }.expand(wrong, acc);
        cx.label("wrong count");
        verdict("write_chunk of a wrong number of elements", no_panic(|| write_chunk(&h, k, "a", &meta, &pos, &d2).is_ok()), false)?;
    }
    verdict("write_ndarray", no_panic(|| write_region(&h, k, "a", &meta, &pos, &sh, Layout { kind: 0, seed: 0 }, &data).is_ok()), matches)?;
    // Part of a chunk: read, modify, write.
    let one = vec![1u64; sh.len()];
    verdict("partial write_ndarray", no_panic(|| write_region(&h, k, "a", &meta, &pos, &one, Layout { kind: 0, seed: 0 }, &data[..1]).is_ok()), matches)?;
    // Reading a stored chunk. Store enough bytes for any element type.
    let body = vec![0u8; n * 16];
    let file = dir.join("data/root/a").join(format!("c{}", pos.iter().map(|_| "0").collect::<Vec<_>>().join("/")));
    if let Some(p) = file.parent() {
        std::fs::create_dir_all(p).map_err(|e| e.to_string())?;
    }
    std::fs::write(&file, independent_encode(t.comp.c(), 5, &body)).map_err(|e| e.to_string())?;
    verdict("read_chunk", no_panic(|| read_chunk(&h, k, "a", &meta, &pos).is_ok()), matches)?;
    verdict("read_chunk_into", no_panic(|| read_chunk_into(&h, k, "a", &meta, &pos, 3).is_ok()), matches)?;
    verdict("read_ndarray", no_panic(|| read_region(&h, k, "a", &meta, &pos, &sh).is_ok()), matches)?;
    Ok(())
}

/// A chunk of raw elements, which the library leaves to its users to encode.
struct RawChunk<const N: usize> {
    pos: Vec<u64>,
    data: Vec<[u8; N]>,
}
impl<const N: usize> DataChunk<[u8; N]> for RawChunk<N> {
    fn get_grid_position(&self) -> &[u64] { &self.pos }
    fn get_data(&self) -> &[[u8; N]] { &self.data }
    fn get_num_elements(&self) -> u32 { self.data.len() as u32 }
}
impl<const N: usize> ReinitDataChunk<[u8; N]> for RawChunk<N> {
    fn reinitialize(&mut self, p: &GridCoord, n: u32) {
        self.pos = p.to_vec();
        self.data.resize(n as usize, [0; N]);
    }
    fn reinitialize_with<B: DataChunk<[u8; N]>>(&mut self, other: &B) {
        self.pos = other.get_grid_position().to_vec();
        self.data = other.get_data().to_vec();
    }
}
impl<const N: usize> WriteableDataChunk for RawChunk<N> {
    fn write_data<W: Write>(&self, mut w: W, _: &ArrayMetadata) -> std::io::Result<()> {
        self.data.iter().try_for_each(|e| w.write_all(e))
    }
}
impl<const N: usize> ReadableDataChunk for RawChunk<N> {
    fn read_data<R: Read>(&mut self, mut r: R, _: &ArrayMetadata) -> std::io::Result<()> {
        self.data.iter_mut().try_for_each(|e| r.read_exact(e))
    }
}

/// Raw element types, through chunk types of the user's.
fn c30_raw(t: &Typed, cx: &mut Cx) -> R {
    let mut m = meta_for(&t.chunk, t.dt, t.comp);
    m.col = t.col;
    let mut j = m.json();
    let raw = format!("r{}", t.bits as usize * 8);
    j["data_type"] = match t.decl {
        0 => json!(t.dt.name()),
        1 | 3 => json!(raw),
        2 => json!({"extension": "http://e/x", "type": "thing"}),
        _ => json!({"extension": "http://e/x", "type": "thing", "fallback": raw}),
    };
    let width = 1 + t.access as usize % 4;
    let matches = t.decl % 2 == 1 && t.bits as usize == width || t.decl == 4 && t.bits as usize == width;
    cx.label(["core type", "raw type", "extension without fallback", "raw type", "extension with raw fallback"][t.decl as usize % 5]);
    cx.label(if matches { "matching access" } else { "mismatched access" });
    cx.nontrivial();
    let meta = meta_from(&j);
    match width {
        1 => c30_raw_as::<1>(t, &m, &meta, &j["data_type"], matches),
        2 => c30_raw_as::<2>(t, &m, &meta, &j["data_type"], matches),
        3 => c30_raw_as::<3>(t, &m, &meta, &j["data_type"], matches),
        _ => c30_raw_as::<4>(t, &m, &meta, &j["data_type"], matches),
    }
}

fn c30_raw_as<const N: usize>(t: &Typed, m: &Meta, meta: &ArrayMetadata, ty: &serde_json::Value, matches: bool) -> R
where [u8; N]: zarr::ReflectedType {
    let h = Mem::new();
    h.create_array("a", meta).map_err(|e| format!("create_array: {}", e))?;
    let meta = &h.get_array_metadata("a").map_err(|e| format!("get_array_metadata: {}", e))?;
    let n = m.chunk_len();
    let pos = vec![0u64; t.chunk.len()];
    let elements = |n: usize| -> Vec<[u8; N]> {
        let mut r = Sm(n as u64 + t.bits as u64);
        (0..n).map(|_| { let b = r.next().to_le_bytes(); let mut e = [0; N]; e.copy_from_slice(&b[..N]); e }).collect()
    };
    let say = |what: &str, want: bool| format!("{} as [u8; {}] of an array of {} {}", what, N, ty, if want { "is refused" } else { "succeeds" });
    let call = |what: &str, r: Result<std::io::Result<()>, String>, want: bool| -> R {
        let r = r.map_err(|p| format!("{} as [u8; {}] of {} panics: {}", what, N, ty, p))?;
        match r {
            Ok(()) => ensure!(want, "{}", say(what, want)),
            Err(e) => ensure!(!want, "{}: {}", say(what, want), e),
        }
        Ok(())
    };
    let chunk = RawChunk { pos: pos.clone(), data: elements(n) };
    call("write_chunk", no_panic(|| h.write_chunk("a", meta, &chunk)), matches)?;
    let wrong = (n as i64 + t.delta as i64).max(0) as usize;
    if wrong != n {
        let c = RawChunk { pos: pos.clone(), data: elements(wrong) };
        call("write_chunk of a wrong number of elements", no_panic(|| h.write_chunk("a", meta, &c)), false)?;
    }
    let key = format!("data/root/a/c{}", pos.iter().map(|_| "0").collect::<Vec<_>>().join("/"));
    let bytes = h.snapshot().remove(&key);
    ensure!(bytes.is_some() == matches, "after write_chunk: chunk {}", if matches { "missing" } else { "stored" });
    let body: Vec<u8> = chunk.data.iter().flat_map(|e| e.to_vec()).collect();
    if let Some(b) = bytes {
        let got = independent_decode(t.comp, &b).map_err(|e| format!("decoding the stored chunk: {}", e))?;
        ensure!(got == body, "stored chunk of {} holds other bytes", ty);
    }
    // A chunk with enough bytes for any element type.
    let mut stored = body.clone();
    stored.resize((n * 16).max(body.len()), 0);
    h.map.lock().unwrap().insert(key, independent_encode(t.comp.c(), 5, &stored));
    let mut b = RawChunk::<N> { pos: vec![], data: vec![[9; N]; t.bits as usize] };
    call("read_chunk_into", no_panic(|| h.read_chunk_into("a", meta, gc(&pos), &mut b).map(|_| ())), matches)?;
    if matches {
        ensure!(b.data == chunk.data && b.pos == pos, "read_chunk_into as [u8; {}] reads other elements than were written", N);
    }
    Ok(())
}

/// More elements than chunks can count, as many as the chunk in 32 bits.
fn c30_many(low: &u16, cx: &mut Cx) -> R {
    struct Sink(bool);
    impl Write for Sink {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            self.0 |= !b.is_empty();
            Err(std::io::ErrorKind::Other.into())
        }
        fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
    }
    cx.nontrivial();
    let meta = meta_for(&[*low as u32], Dt { k: 1, big: false }, Comp { codec: 0, p: None }).build();
    // Never touched, unless it is written.
    let data = vec![0u8; (1usize << 32) + *low as usize];
    let chunk = SliceDataChunk::<u8, &[u8]>::new(gc(&[0]), &data[..]);
    let mut sink = Sink(false);
    let r = no_panic(|| <DefaultChunk as DefaultChunkWriter<u8, &mut Sink, _>>::write_chunk(&mut sink, &meta, &chunk))
        .map_err(|p| format!("writing {} elements as a chunk of {} panics: {}", data.len(), low, p))?;
    ensure!(r.is_err() && !sink.0, "{} elements are written as a chunk of {}", data.len(), low);
    Ok(())
}

pub fn c30() -> Vec<Sub> {
    vec![
        sub_sharded("many", Cases(40, 400), 1, || 0u16..5000, c30_many),
        sub("access", Cases(36_000, 60_000), typed_case, c30_access),
        sub("raw", Cases(120_000, 300_000), typed_case, c30_raw),
    ]
}

// ---------------------------------------------------------------- C31

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Conf {
    codec: u8,
    p: Option<i64>,
    chunk: Vec<u32>,
    dt: Dt,
    data: Data,
}

fn conf_case() -> impl Strategy<Value = Conf> {
    let p = prop_oneof![
        6 => -3i64..14,
        3 => prop_oneof![Just(i32::MIN as i64), Just(i32::MAX as i64), Just(-1i64), Just(255), Just(256), Just(65535), Just(65536), Just(65537),
                         Just(262144), Just(262145), Just(1 << 20), Just((1 << 20) + 1), Just(1 << 22), Just((1 << 22) + 1), Just(i64::MAX), Just(i64::MIN),
                         Just(1i64 << 31), Just(1i64 << 32)],
        2 => any::<i32>().prop_map(|i| i as i64),
        1 => any::<i64>(),
    ];
    (0u8..5, proptest::option::weighted(0.9, p), prop_oneof![proptest::collection::vec(0u32..5, 0..3), (250u32..1200).prop_map(|n| vec![n]), (60_000u32..70_000).prop_map(|n| vec![n])], dt(), data())
        .prop_map(|(codec, p, chunk, dt, data)| {
            // xz encoders allocate hundreds of megabytes at presets 7 to 9.
            let p = if codec == 4 && matches!(p, Some(7..=9)) && data.seed % 8 != 0 { Some(data.seed as i64 % 3) } else { p };
            Conf { codec, p, chunk, dt, data }
        })
}

fn c31_config(c: &Conf, cx: &mut Cx) -> R {
    let comp = Comp { codec: c.codec, p: c.p };
    let m = meta_for(&c.chunk, c.dt, comp);
    let n = m.chunk_len();
    cx.label(comp.label());
    let what = format!("{} configuration {}", comp.label(), comp.json());
    let parsed: Result<ArrayMetadata, String> = no_panic(|| serde_json::from_value(m.json()).map_err(|e: serde_json::Error| e.to_string()))
        .map_err(|p| format!("{} panics when parsed: {}", what, p))?;
    let meta = match parsed {
        Ok(m) => m,
        Err(_) => {
            cx.label("refused");
            // A documented, in-range setting must be accepted.
            let ok_range = match comp.c() {
                0 => true,
                1 => comp.p.map_or(true, |p| (-1..=9).contains(&p)),
                2 => comp.p.map_or(true, |p| (1..=9).contains(&p)),
                3 => comp.p.map_or(true, |p| [65536, 262144, 1 << 20, 1 << 22].contains(&p)),
                _ => comp.p.map_or(true, |p| (0..=9).contains(&p)),
            };
            ensure!(!ok_range, "{} is refused", what);
            return Ok(());
        }
    };
    cx.label("accepted");
    cx.nontrivial();
    let data = c.data.expand(n, c.dt);
    let mut w = Vec::new();
    let r = no_panic(|| enc(&mut w, c.dt.k(), &meta, &[], &data)).map_err(|p| format!("writing with {} panics: {}", what, p))?;
    if let Err(e) = r {
        let valid = match comp.c() {
            0 => true,
            1 => comp.p.map_or(true, |p| (-1..=9).contains(&p)),
            2 => comp.p.map_or(true, |p| (1..=9).contains(&p)),
            3 => comp.p.map_or(true, |p| [65536, 262144, 1 << 20, 1 << 22].contains(&p)),
            _ => comp.p.map_or(true, |p| (0..=9).contains(&p)),
        };
        ensure!(!valid, "writing with {} fails: {}", what, e);
        return Ok(());
    }
    let r = no_panic(|| dec(&w[..], c.dt.k(), &meta, &[])).map_err(|p| format!("reading with {} panics: {}", what, p))?;
    let (_, d) = r.map_err(|e| format!("chunk written with {} does not read back: {}", what, e))?;
    ensure_eq!(d, data, "chunk written with {}", what);
    // The configuration only affects the encoder: default settings decode it too.
    let dm = meta_for(&c.chunk, c.dt, Comp { codec: c.codec, p: None }).build();
    let (_, d) = dec(&w[..], c.dt.k(), &dm, &[]).map_err(|e| format!("chunk written with {} does not read with defaults: {}", what, e))?;
    ensure_eq!(d, data, "chunk written with {} read with defaults", what);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Name {
    which: u8,
    case: u16,
    edit: Option<(u8, String)>,
}

fn name_case() -> impl Strategy<Value = Name> {
    (0u8..5, any::<u16>(), proptest::option::weighted(0.5, (0u8..8, "[a-zA-Z0-9 _/.\u{0}\u{130}\u{212a}é-]{0,4}".prop_map(|s| s))))
        .prop_map(|(which, case, edit)| Name { which, case, edit })
}

fn c31_names(c: &Name, cx: &mut Cx) -> R {
    use zarr::compression::*;
    use std::str::FromStr;
    let all: Vec<(CompressionType, &str)> = vec![
        (CompressionType::new::<raw::RawCompression>(), "raw"),
        (CompressionType::new::<gzip::GzipCompression>(), "gzip"),
        (CompressionType::new::<bzip::Bzip2Compression>(), "bzip2"),
        (CompressionType::new::<lz::Lz4Compression>(), "lz4"),
        (CompressionType::new::<xz::XzCompression>(), "xz"),
    ];
    let (ct, base) = &all[c.which as usize % 5];
    cx.nontrivial();
    let shown = ct.to_string();
    ensure!(shown.to_ascii_lowercase() == *base, "{:?} prints as {:?}", ct, shown);
    let recased: String = shown
        .chars()
        .enumerate()
        .map(|(i, ch)| if (c.case >> (i % 16)) & 1 == 1 { ch.to_ascii_uppercase() } else { ch.to_ascii_lowercase() })
        .collect();
    match &c.edit {
        None => {
            cx.label("name in some letter case");
            let p = no_panic(|| CompressionType::from_str(&recased)).map_err(|p| format!("parsing {:?} panics: {}", recased, p))?;
            let p = p.map_err(|e| format!("{:?} does not parse: {}", recased, e))?;
            ensure!(p == *ct, "{:?} parses as {:?}, expected {:?}", recased, p, ct);
            // Default settings also come from an empty configuration.
            let mut j = Comp { codec: c.which, p: None }.json();
            j["configuration"] = if c.which % 5 == 0 { Value::Null } else { json!({}) };
            let d: CompressionType = serde_json::from_value(j.clone()).map_err(|e| format!("{} does not parse: {}", j, e))?;
            ensure!(d == *ct, "{} parses as {:?}, expected the default {:?}", j, d, ct);
            ensure!(ct.is_default() == (c.which % 5 == 0), "is_default of {:?}", ct);
        }
        Some((at, s)) => {
            let mut t: Vec<char> = recased.chars().collect();
            let i = (*at as usize).min(t.len());
            if s.is_empty() && !t.is_empty() {
                t.remove(i.min(t.len() - 1));
            } else {
                t.splice(i..i, s.chars());
            }
            let t: String = t.into_iter().collect();
            let known = ["raw", "gzip", "bzip2", "lz4", "xz"].contains(&t.to_ascii_lowercase().as_str());
            cx.label("edited name");
            let p = no_panic(|| CompressionType::from_str(&t)).map_err(|p| format!("parsing {:?} panics: {}", t, p))?;
            ensure!(p.is_ok() == known, "codec name {:?} is {}", t, if p.is_ok() { "accepted" } else { "refused" });
        }
    }
    Ok(())
}

pub fn c31() -> Vec<Sub> {
    vec![
        sub("config", Cases(if PURE { 3_000 } else { 6_000 }, 40_000), conf_case, c31_config),
        sub("names", Cases(4_000, 40_000), name_case, c31_names),
    ]
}

// ---------------------------------------------------------------- C37

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Setting {
    codec: u8,
    p: Option<i64>,
    
    len: u32,
    data: Data,
    words: u8,
}

fn setting_case() -> impl Strategy<Value = Setting> {
    let codec = prop_oneof![3 => Just(1u8), 3 => Just(2u8), 3 => Just(3u8), 1 => Just(4u8)];
    let len = prop_oneof![1 => 2000u32..6000, 2 => 10_000u32..40_000];
    (codec, proptest::option::weighted(0.9, any::<u32>()), len, data(), 1u8..60).prop_map(|(codec, p, len, data, words)| {
        let p = p.map(|p| match codec {
            1 => p as i64 % 11 - 1,
            2 => 1 + p as i64 % 9,
            3 => match p % 3 { 0 => [65536i64, 262144, 1 << 20, 1 << 22][p as usize / 3 % 4], 1 => [65535i64, 65537, 262143, 262145, (1 << 20) - 1, (1 << 20) + 1, (1 << 22) - 1, 1][p as usize / 3 % 8], _ => 1 + p as i64 % (1 << 22) },
            // Larger presets take hundreds of megabytes.
            _ => if p % 8 == 0 { 5 + p as i64 / 8 % 5 } else { p as i64 % 5 },
        });
        Setting { codec, p, len, data, words }
    })
}

/// Bytes whose compressed size depends on the effort taken.
fn text(s: &Setting) -> Vec<u64> {
    let mut r = Sm(s.data.seed as u64);
    let words: Vec<Vec<u8>> = (0..4 + s.words as usize * 3)
        .map(|_| (0..2 + r.below(9)).map(|_| b'a' + r.below(20) as u8).collect())
        .collect();
    let mut out: Vec<u8> = vec![];
    while out.len() < s.len as usize {
        let w = &words[(r.below(words.len() as u64) * r.below(words.len() as u64) / words.len() as u64) as usize];
        out.extend(w);
        if r.below(7) == 0 {
            out.push(r.below(256) as u8);
        }
    }
    out.truncate(s.len as usize);
    out.into_iter().map(|b| b as u64).collect()
}

/// What the stream shows of the setting it was made with, the same of a stream
/// made with the setting here.
fn settings_shown(s: &Setting, stream: &[u8], raw: &[u8]) -> Result<(String, String, usize), String> {
    let at = |i: usize| stream.get(i).cloned().ok_or(format!("a stream of {} bytes", stream.len()));
    let (shown, reference) = match s.codec {
        1 => {
            let level = match s.p { Some(p) if (0..=9).contains(&p) => flate2::Compression::new(p as u32), _ => flate2::Compression::default() };
            let mut e = flate2::write::GzEncoder::new(Vec::new(), level);
            e.write_all(raw).unwrap();
            let r = e.finish().unwrap();
            // Extra flags: 2 slowest, 4 fastest.
            (format!("extra flags {}", at(8)?), (format!("extra flags {}", r[8]), r.len()))
        }
        2 => {
            let p = s.p.unwrap_or(9);
            let mut e = bzip2::write::BzEncoder::new(Vec::new(), bzip2::Compression::new(p as u32));
            e.write_all(raw).unwrap();
            let r = e.finish().unwrap();
            (format!("block size {:?}", at(3)? as char), (format!("block size {:?}", char::from(b'0' + p as u8)), r.len()))
        }
        3 => {
            let p = s.p.unwrap_or(65536);
            let code = match p { p if p <= 65536 => 4, p if p <= 262144 => 5, p if p <= 1 << 20 => 6, _ => 7 };
            (format!("maximum block size code {}", at(5)? >> 4 & 7), (format!("maximum block size code {}", code), stream.len()))
        }
        _ => {
            let mut e = xz2::write::XzEncoder::new(Vec::new(), s.p.unwrap_or(6) as u32);
            e.write_all(raw).unwrap();
            let r = e.finish().unwrap();
            (format!("dictionary size code {}", at(16)?), (format!("dictionary size code {}", r[16]), r.len()))
        }
    };
    Ok((shown, reference.0, reference.1))
}

fn c37_settings(s: &Setting, cx: &mut Cx) -> R {
    let comp = Comp { codec: s.codec, p: s.p };
    let m = meta_for(&[s.len], Dt { k: 1, big: false }, comp);
    let mut meta = m.build();
    if s.data.seed % 2 == 0 {
        // As loaded from a hierarchy it was created in.
        let h = Mem::new();
        h.create_array("a", &meta).map_err(|e| format!("create_array: {}", e))?;
        meta = h.get_array_metadata("a").map_err(|e| format!("get_array_metadata: {}", e))?;
        cx.label("loaded metadata");
    }
    let data = text(s);
    let raw: Vec<u8> = data.iter().map(|&b| b as u8).collect();
    cx.label(comp.label());
    cx.label_if(s.p.is_none(), "default setting");
    cx.nontrivial();
    let mut w = Vec::new();
    enc(&mut w, 1, &meta, &[0], &data).map_err(|e| format!("write_chunk: {}", e))?;
    let what = format!("a chunk of {} bytes stored with {}", s.len, comp.json());
    let (shown, want, size) = settings_shown(s, &w, &raw)?;
    ensure_eq!(shown, want, "{}", what);
    // Encoders divide their input differently.
    let slack = 4 + size / 1000 + if s.p == Some(0) { 64 } else { 0 };
    ensure!(w.len().abs_diff(size) <= slack, "{} takes {} bytes, but {} with an encoder of that setting", what, w.len(), size);
    Ok(())
}

pub fn c37() -> Vec<Sub> {
    vec![sub("settings", Cases(if PURE { 6000 } else { 16_000 }, 200_000), setting_case, c37_settings)]
}
