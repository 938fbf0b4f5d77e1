//! Metadata documents: C12, C13, C14, C15.

use crate::fw::*;
use crate::gen::*;
use crate::io::{bbox, read_chunk, read_region};
use crate::store::*;
use crate::{ensure, ensure_eq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::path::Path;
use zarr::compression::CompressionType;
use zarr::prelude::*;
use half::f16;
use zarr::{data_type_match, data_type_rstype_replace, DataType, ExtensibleDataType, FloatSize, IntSize};

// ---------------------------------------------------------------- documents

/// A compressor with every option value its JSON form can hold.
pub fn wide_comp() -> impl Strategy<Value = Comp> {
    let i32s = || prop_oneof![3 => -3i64..12, 1 => any::<i32>().prop_map(|x| x as i64), 1 => prop_oneof![Just(65536i64), Just(4194304), Just(i32::MAX as i64), Just(i32::MIN as i64)]];
    prop_oneof![
        Just(Comp { codec: 0, p: None }),
        proptest::option::weighted(0.8, i32s()).prop_map(|p| Comp { codec: 1, p }),
        proptest::option::weighted(0.8, 0i64..=255).prop_map(|p| Comp { codec: 2, p }),
        proptest::option::weighted(0.8, i32s()).prop_map(|p| Comp { codec: 3, p }),
        proptest::option::weighted(0.8, i32s()).prop_map(|p| Comp { codec: 4, p }),
    ]
}

/// Default of each codec's option.
const OPTION_DEFAULT: [i64; 5] = [0, -1, 9, 65536, 6];

fn core_type() -> impl Strategy<Value = String> {
    prop_oneof![
        6 => dt().prop_map(|d| d.name()),
        2 => (1u64..40).prop_map(|n| format!("r{}", n * 8)),
        1 => prop_oneof![Just(256u64), Just(65536), Just(1 << 32), Just(1 << 40), Just(u64::MAX - 7)].prop_map(|n| format!("r{}", n)),
    ]
}

fn any_type() -> impl Strategy<Value = Value> {
    prop_oneof![
        4 => core_type().prop_map(Value::from),
        1 => (core_type(), proptest::option::weighted(0.7, core_type()), 0usize..4).prop_map(|(_, fb, i)| {
            let t = ["<M8[ns]", "", "string", "é\"q"][i];
            let mut o = json!({"extension": "https://example.org/dtypes/1.0", "type": t});
            if let Some(f) = fb {
                o["fallback"] = f.into();
            }
            o
        }),
    ]
}

fn extension(must: bool) -> impl Strategy<Value = Value> {
    (0usize..4, proptest::option::of(attrs())).prop_map(move |(i, conf)| {
        let name = ["http://example.org/foo", "", "x y", "ext/2"][i];
        let mut e = json!({"extension": name, "must_understand": must});
        if let Some(c) = conf {
            e["configuration"] = Value::Object(c);
        }
        e
    })
}

/// A complete, valid array metadata document.
pub fn array_doc() -> BoxedStrategy<Value> {
    let dims = prop_oneof![
        6 => proptest::collection::vec((0u64..1000, 1u32..100), 0..=4),
        1 => proptest::collection::vec((any::<u64>(), 1u32..=u32::MAX), 1..=3),
        1 => proptest::collection::vec((0u64..9, 1u32..5), 5..=9),
    ];
    let fill = prop_oneof![
        3 => Just(Value::Null),
        2 => (-200i64..300).prop_map(Value::from),
        1 => prop_oneof![Just("NaN"), Just("Infinity"), Just("-Infinity")].prop_map(Value::from),
        1 => any::<bool>().prop_map(Value::from),
        3 => json_value(),
    ];
    let sep = prop_oneof![4 => Just("/"), 3 => Just("."), 1 => Just("-"), 1 => Just(""), 1 => Just("é\"")];
    (dims, any_type(), sep, any::<bool>(), wide_comp(), fill, proptest::collection::vec(extension(false), 0..3), attrs())
        .prop_map(|(dims, ty, sep, col, comp, fill, ext, attrs)| {
            json!({
                "shape": dims.iter().map(|d| d.0).collect::<Vec<_>>(),
                "data_type": ty,
                "chunk_grid": {"type": "regular", "chunk_shape": dims.iter().map(|d| d.1).collect::<Vec<_>>(), "separator": sep},
                "chunk_memory_layout": if col { "F" } else { "C" },
                "fill_value": fill,
                "extensions": ext,
                "attributes": attrs,
                "compressor": comp.json(),
            })
        })
        .boxed()
}

/// The document with every optional part made explicit, for comparison.
pub fn explicit(doc: &Value) -> Value {
    let mut d = doc.clone();
    let o = d.as_object_mut().expect("document object");
    o.entry("fill_value").or_insert(Value::Null);
    let c = o.entry("compressor").or_insert(json!({"codec": "raw"}));
    let names = ["raw", GZIP, "bzip2", "lz4", "xz"];
    if let Some(i) = names.iter().position(|n| c["codec"] == *n) {
        let c = c.as_object_mut().unwrap();
        if i == 0 {
            c.remove("configuration");
        } else {
            let conf = c.entry("configuration").or_insert(json!({}));
            let key = Comp { codec: i as u8, p: None }.key();
            if conf.get(key).is_none() {
                conf[key] = json!(OPTION_DEFAULT[i]);
            }
        }
    }
    d
}

/// Removes or reorders what an independent writer might leave out or order differently.
fn variant(doc: &Value, how: u32) -> String {
    let mut d = doc.clone();
    let o = d.as_object_mut().unwrap();
    if how & 1 != 0 && o["fill_value"].is_null() {
        o.remove("fill_value");
    }
    if how & 2 != 0 && o["compressor"]["codec"] == "raw" {
        o.remove("compressor");
    }
    if how & 4 != 0 {
        // An option equal to its default is left out.
        if let Some(c) = o.get_mut("compressor") {
            let i = ["raw", GZIP, "bzip2", "lz4", "xz"].iter().position(|n| c["codec"] == *n).unwrap();
            if let Some(conf) = c.get_mut("configuration").and_then(|c| c.as_object_mut()) {
                let key = Comp { codec: i as u8, p: None }.key();
                if conf.get(key) == Some(&json!(OPTION_DEFAULT[i])) {
                    conf.remove(key);
                }
            }
        }
    }
    // Member order.
    let mut keys: Vec<String> = o.keys().cloned().collect();
    let mut r = Sm(how as u64);
    for i in (1..keys.len()).rev() {
        keys.swap(i, r.below(i as u64 + 1) as usize);
    }
    let sp = ["", " ", "\n  "][(how >> 4) as usize % 3];
    let body: Vec<String> = keys.iter().map(|k| format!("{}{}:{}{}", sp, json!(k), sp, if how & 64 != 0 { serde_json::to_string_pretty(&o[k]).unwrap() } else { o[k].to_string() })).collect();
    format!("{{{}{}}}{}", body.join(","), sp, sp)
}

// ---------------------------------------------------------------- C12

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Doc {
    doc: Value,
    path: String,
    how: u32,
    fs: bool,
}

fn doc_case() -> impl Strategy<Value = Doc> {
    (array_doc(), path(3), any::<u32>(), prop::bool::weighted(0.3)).prop_map(|(doc, path, how, fs)| Doc { doc, path, how, fs })
}

fn meta_key(path: &str) -> String {
    if path.is_empty() { "meta/root.array.json".into() } else { format!("meta/root/{}.array.json", path) }
}

fn check_parts(what: &str, meta: &ArrayMetadata, doc: &Value) -> R {
    let e = explicit(doc);
    let shape: Vec<u64> = e["shape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
    let chunk: Vec<u32> = e["chunk_grid"]["chunk_shape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
    ensure_eq!(meta.get_shape(), &shape[..], "{}: shape", what);
    ensure_eq!(meta.get_chunk_shape(), &chunk[..], "{}: chunk shape", what);
    ensure_eq!(meta.get_ndim(), shape.len(), "{}: rank", what);
    let col = matches!(meta.get_chunk_memory_layout(), zarr::Order::ColumnMajor);
    ensure_eq!(if col { "F" } else { "C" }, e["chunk_memory_layout"].as_str().unwrap(), "{}: memory layout", what);
    let fill = meta.get_fill_value().cloned().unwrap_or(Value::Null);
    ensure_eq!(fill, e["fill_value"], "{}: fill value", what);
    let ty = serde_json::to_value(meta.get_data_type()).map_err(|e| format!("{}: serializing the data type: {}", what, e))?;
    ensure_eq!(ty, e["data_type"], "{}: data type", what);
    let comp = serde_json::to_value(meta.get_compressor()).map_err(|e| format!("{}: serializing the compressor: {}", what, e))?;
    let mut wrap = e.clone();
    wrap["compressor"] = comp;
    ensure_eq!(explicit(&wrap)["compressor"], e["compressor"], "{}: compressor", what);
    ensure_eq!(meta.get_compressor().is_default(), e["compressor"]["codec"] == "raw", "{}: compressor is the default", what);
    Ok(())
}

fn check_stored(what: &str, bytes: &[u8], doc: &Value) -> R {
    let v: Value = serde_json::from_slice(bytes).map_err(|e| format!("{}: stored document {:?} is not JSON: {}", what, short(&String::from_utf8_lossy(bytes).into_owned()), e))?;
    ensure!(v.is_object(), "{}: stored document is {}", what, v);
    ensure_eq!(explicit(&v), explicit(doc), "{}: stored document", what);
    ensure!(v.get("fill_value").is_some(), "{}: the member fill_value is missing in the stored document {}", what, v);
    let raw = explicit(doc)["compressor"]["codec"] == "raw";
    ensure!(v.get("compressor").is_none() == raw, "{}: compressor {} in the stored document {}", what, if raw { "present" } else { "missing" }, v);
    Ok(())
}

fn c12_store(c: &Doc, cx: &mut Cx) -> R {
    cx.nontrivial();
    let ty = &c.doc["data_type"];
    cx.label(if ty.is_object() { "extension type" } else if ty.as_str().unwrap().starts_with('r') { "raw type" } else { "core type" });
    let codec = c.doc["compressor"]["codec"].as_str().unwrap();
    cx.label(if codec == GZIP { "gzip" } else { ["raw", "bzip2", "lz4", "xz"].iter().find(|x| **x == codec).unwrap() });
    let meta: ArrayMetadata = serde_json::from_value(c.doc.clone()).map_err(|e| format!("document {} refused: {}", c.doc, e))?;
    check_parts("parsed document", &meta, &c.doc)?;
    // Documents with defaults left out, members reordered, other white space.
    let text = variant(&c.doc, c.how);
    let m2: ArrayMetadata = serde_json::from_str(&text).map_err(|e| format!("document {} refused: {}", text, e))?;
    ensure_eq!(m2, meta, "document {} parsed", short(&text));
    let m3: ArrayMetadata = serde_json::from_reader(FragRead::new(text.as_bytes(), c.how as u8)).map_err(|e| format!("document {} refused: {}", text, e))?;
    ensure_eq!(m3, meta, "document {} parsed from a reader", short(&text));
    // Stored and loaded.
    let key = meta_key(&c.path);
    let e = |w: &str| { let w = w.to_string(); move |e: std::io::Error| format!("{}: {}", w, e) };
    if c.fs {
        let dir = cx.dir();
        let h = FilesystemHierarchy::open_or_create(&dir).map_err(e("open_or_create"))?;
        h.create_array(&c.path, &meta).map_err(e("create_array"))?;
        let bytes = std::fs::read(dir.join(&key)).map_err(|e| format!("{}: {}", key, e))?;
        check_stored("created array", &bytes, &c.doc)?;
        for h in [&h, &h.clone(), &FilesystemHierarchy::open(&dir).map_err(e("open"))?] {
            let got = h.get_array_metadata(&c.path).map_err(e("get_array_metadata"))?;
            ensure_eq!(got, meta, "metadata loaded");
            check_parts("loaded metadata", &got, &c.doc)?;
            ensure_eq!(Value::Object(h.list_attributes(&c.path).map_err(e("list_attributes"))?), c.doc["attributes"], "attributes");
        }
        // A document by another implementation.
        std::fs::write(dir.join(&key), &text).map_err(|e| e.to_string())?;
        let got = h.get_array_metadata(&c.path).map_err(|e| format!("loading {}: {}", text, e))?;
        ensure_eq!(got, meta, "metadata loaded from {}", short(&text));
    } else {
        let mut h = Mem::new();
        h.frag = c.how as u8 % 40;
        h.create_array(&c.path, &meta).map_err(e("create_array"))?;
        let bytes = h.map.lock().unwrap().get(&key).cloned().ok_or_else(|| format!("no document under {}", key))?;
        check_stored("created array", &bytes, &c.doc)?;
        let got = h.get_array_metadata(&c.path).map_err(e("get_array_metadata"))?;
        ensure_eq!(got, meta, "metadata loaded");
        check_parts("loaded metadata", &got, &c.doc)?;
        ensure_eq!(Value::Object(h.list_attributes(&c.path).map_err(e("list_attributes"))?), c.doc["attributes"], "attributes");
        h.map.lock().unwrap().insert(key, text.clone().into_bytes());
        let got = h.get_array_metadata(&c.path).map_err(|e| format!("loading {}: {}", text, e))?;
        ensure_eq!(got, meta, "metadata loaded from {}", short(&text));
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct NewMeta {
    dims: Vec<(u64, u32)>,
    ty: Value,
    comp: Comp,
}

fn new_case() -> impl Strategy<Value = NewMeta> {
    (proptest::collection::vec((any::<u64>(), prop_oneof![9 => any::<u32>(), 1 => 1u32..3].prop_map(|c| c.max(1))), 0..8), any_type(), wide_comp()).prop_map(|(dims, ty, comp)| NewMeta { dims, ty, comp })
}

/// Metadata made by the constructor.
fn c12_new(c: &NewMeta, cx: &mut Cx) -> R {
    cx.nontrivial();
    let ty: ExtensibleDataType = serde_json::from_value(c.ty.clone()).map_err(|e| format!("data type {} refused: {}", c.ty, e))?;
    let comp: CompressionType = serde_json::from_value(c.comp.json()).map_err(|e| format!("compressor {} refused: {}", c.comp.json(), e))?;
    let meta = ArrayMetadata::new(c.dims.iter().map(|d| d.0).collect(), c.dims.iter().map(|d| d.1).collect(), ty, comp);
    let layout = match meta.get_chunk_memory_layout() {
        zarr::Order::ColumnMajor => "F",
        zarr::Order::RowMajor => "C",
    };
    let doc = json!({
        "shape": c.dims.iter().map(|d| d.0).collect::<Vec<_>>(),
        "data_type": c.ty,
        "chunk_grid": {"type": "regular", "chunk_shape": c.dims.iter().map(|d| d.1).collect::<Vec<_>>(), "separator": "/"},
        "chunk_memory_layout": layout,
        "fill_value": null,
        "extensions": [],
        "attributes": {},
        "compressor": c.comp.json(),
    });
    check_parts("constructed metadata", &meta, &doc)?;
    let h = Mem::new();
    h.create_array("x", &meta).map_err(|e| format!("create_array: {}", e))?;
    let bytes = h.snapshot().remove("meta/root/x.array.json").ok_or("no document")?;
    check_stored("constructed metadata", &bytes, &doc)?;
    let got = h.get_array_metadata("x").map_err(|e| format!("get_array_metadata: {}", e))?;
    ensure_eq!(got, meta, "metadata loaded");
    Ok(())
}

/// Floats as fill value and attribute.
fn c12_floats(bits: &Vec<u64>, cx: &mut Cx) -> R {
    cx.nontrivial();
    let fl: Vec<f64> = bits.iter().map(|&b| f64::from_bits(b)).collect();
    let mut m = Meta::simple(vec![4], vec![2], Dt { k: 11, big: false });
    m.fill = json!(fl[0]);
    let mut doc = m.json();
    doc["attributes"] = json!({"f": fl});
    let meta: ArrayMetadata = serde_json::from_value(doc.clone()).map_err(|e| format!("document {} refused: {}", doc, e))?;
    let h = Mem::new();
    h.create_array("x", &meta).map_err(|e| format!("create_array: {}", e))?;
    let got = h.get_array_metadata("x").map_err(|e| format!("get_array_metadata: {}", e))?;
    ensure_eq!(got.get_fill_value(), Some(&doc["fill_value"]), "fill value loaded");
    ensure_eq!(h.list_attributes("x").map_err(|e| e.to_string())?["f"], doc["attributes"]["f"], "float attributes loaded");
    ensure_eq!(got, meta, "metadata loaded");
    Ok(())
}

/// Finite floats, excluding those of the known finding.
pub fn float_bits() -> impl Strategy<Value = Vec<u64>> {
    let one = prop_oneof![
        any::<u64>(),
        any::<f32>().prop_map(|f| (f as f64).to_bits()),
        (any::<i32>(), 0i32..12).prop_map(|(m, e)| (m as f64 / 10f64.powi(e)).to_bits()),
        (any::<i32>(), 0u32..20).prop_map(|(m, e)| (m as f64 / (1u64 << e) as f64).to_bits()),
    ];
    proptest::collection::vec(one, 1..5).prop_map(|v| {
        let v: Vec<u64> = v.into_iter().filter(|&b| f64::from_bits(b).is_finite() && survives_text(&json!(f64::from_bits(b)))).collect();
        if v.is_empty() { vec![0x3ff8000000000000] } else { v }
    })
}

pub fn c12() -> Vec<Sub> {
    vec![
        sub("store", Cases(100_000, 800_000), doc_case, c12_store),
        sub("new", Cases(80_000, 500_000), new_case, c12_new),
        sub("floats", Cases(40_000, 300_000), float_bits, c12_floats),
        sub("deep", Cases(6_000, 100_000), super::tree::deep_array, super::tree::deep),
    ]
}

// ---------------------------------------------------------------- C13

/// What the harness knows of a data type string.
enum Class {
    /// Kind, size in bytes, and byte order where it matters.
    Valid(char, u64, Option<bool>),
    Invalid,
    /// Not documented either way: sized one-byte spellings with a byte order, leading zeros, no bits.
    Unspecified,
}

fn classify(s: &str) -> Class {
    match s {
        "bool" => return Class::Valid('b', 1, None),
        "i1" => return Class::Valid('i', 1, None),
        "u1" => return Class::Valid('u', 1, None),
        _ => {}
    }
    let b = s.as_bytes();
    if s.len() == 3 && s.is_ascii() && (b[0] == b'<' || b[0] == b'>') {
        let k = b[1] as char;
        return match (k, b[2]) {
            ('i', b'1') | ('u', b'1') => Class::Unspecified,
            ('i', b'2') | ('u', b'2') | ('f', b'2') | ('i', b'4') | ('u', b'4') | ('f', b'4') | ('i', b'8') | ('u', b'8') | ('f', b'8') => {
                Class::Valid(k, (b[2] - b'0') as u64, Some(b[0] == b'>'))
            }
            _ => Class::Invalid,
        };
    }
    if let Some(n) = s.strip_prefix('r') {
        if !n.is_empty() && n.bytes().all(|c| c.is_ascii_digit()) {
            return match n.parse::<u64>() {
                Ok(0) => Class::Unspecified,
                Ok(v) if v % 8 == 0 => if n.starts_with('0') { Class::Unspecified } else { Class::Valid('r', v / 8, None) },
                _ => Class::Invalid,
            };
        }
    }
    Class::Invalid
}

fn parse_all(s: &str) -> Result<Vec<Result<DataType, String>>, String> {
    let text = json!(s).to_string();
    no_panic(|| {
        vec![
            serde_json::from_str::<DataType>(&text).map_err(|e| e.to_string()),
            serde_json::from_value::<DataType>(json!(s)).map_err(|e| e.to_string()),
            serde_json::from_reader::<_, DataType>(text.as_bytes()).map_err(|e| e.to_string()),
            serde_json::from_str::<ExtensibleDataType>(&text).map_err(|e| e.to_string()).and_then(|x| match x {
                ExtensibleDataType::Core(d) => Ok(d),
                o => Err(format!("parsed as {:?}", o)),
            }),
        ]
    })
    .map_err(|p| format!("parsing {:?} panicked: {}", s, p))
}

fn c13_one(s: &str) -> R {
    let all = parse_all(s)?;
    match classify(s) {
        Class::Invalid => {
            for r in &all {
                ensure!(r.is_err(), "{:?} parsed as {:?}", s, r);
            }
        }
        Class::Unspecified => {
            for r in &all {
                if let Ok(d) = r {
                    // If accepted, it must still round-trip as the type it became.
                    let t = serde_json::to_value(d).map_err(|e| e.to_string())?;
                    let d2: DataType = serde_json::from_value(t.clone()).map_err(|e| format!("{:?} -> {} -> {}", s, t, e))?;
                    ensure!(d2.size_of() == d.size_of(), "{:?} -> {} -> {:?}", s, t, d2);
                }
            }
        }
        Class::Valid(k, size, big) => {
            for r in &all {
                let d = r.as_ref().map_err(|e| format!("{:?} refused: {}", s, e))?;
                let kind = match d {
                    DataType::Bool => 'b',
                    DataType::Int { .. } => 'i',
                    DataType::UInt { .. } => 'u',
                    DataType::Float { .. } => 'f',
                    DataType::Raw { .. } => 'r',
                };
                ensure!(kind == k, "{:?} parsed as {:?}", s, d);
                let sz = no_panic(|| d.size_of()).map_err(|p| format!("size of {:?}: {}", s, p))?;
                ensure_eq!(sz as u64, size, "element size of {:?}", s);
                if let Some(b) = big {
                    ensure_eq!(d.endian(), if b { zarr::data_type::Endian::Big } else { zarr::data_type::Endian::Little }, "byte order of {:?}", s);
                }
                let out = serde_json::to_string(d).map_err(|e| format!("serializing {:?}: {}", s, e))?;
                ensure_eq!(out, json!(s).to_string(), "serialized form of {:?}", s);
                let e = ExtensibleDataType::from(*d);
                ensure_eq!(serde_json::to_value(&e).map_err(|e| e.to_string())?, json!(s), "serialized extensible form of {:?}", s);
                ensure_eq!(e.effective_type().map_err(|e| e.to_string())?, *d, "effective type of {:?}", s);
            }
        }
    }
    Ok(())
}

const ALPHA: &str = "<>|=biufcrSOMom 1248063579+-.lé\u{0}";

/// All strings of two given characters followed by up to two more.
fn enum_case() -> impl Strategy<Value = (u8, u8)> {
    let n = ALPHA.chars().count() as u8;
    (0..n, 0..n)
}

fn c13_enumerate(c: &(u8, u8), cx: &mut Cx) -> R {
    let a: Vec<char> = ALPHA.chars().collect();
    let pre: String = [a[c.0 as usize % a.len()], a[c.1 as usize % a.len()]].iter().collect();
    cx.nontrivial();
    c13_one(&pre)?;
    c13_one(&pre[..pre.char_indices().nth(1).unwrap().0])?;
    c13_one("")?;
    for x in &a {
        let s = format!("{}{}", pre, x);
        c13_one(&s)?;
        for y in &a {
            c13_one(&format!("{}{}", s, y))?;
        }
    }
    Ok(())
}

fn type_string() -> impl Strategy<Value = String> {
    prop_oneof![
        3 => core_type(),
        3 => "[<>|]?[biufr][0-9]{0,3}",
        2 => "r[+-]?[0-9]{1,22}",
        2 => (core_type(), "[ \u{0}a-z0-9<>é]", any::<u8>()).prop_map(|(t, x, at)| { let mut t = t; let at = at as usize % (t.len() + 1); t.insert_str(at, &x); t }),
        1 => core_type().prop_map(|t| t.to_uppercase()),
        1 => core_type().prop_map(|mut t| { t.pop(); t }),
        2 => "\\PC{0,5}",
        1 => any::<String>(),
    ]
}

fn c13_random(s: &String, cx: &mut Cx) -> R {
    cx.label(match classify(s) {
        Class::Valid(..) => "valid",
        Class::Invalid => "invalid",
        Class::Unspecified => "unspecified",
    });
    cx.nontrivial();
    c13_one(s)
}

/// JSON values that are not strings, and extension types.
fn c13_other(v: &Value, cx: &mut Cx) -> R {
    let text = v.to_string();
    let r = no_panic(|| (serde_json::from_str::<DataType>(&text).is_ok(), serde_json::from_value::<DataType>(v.clone()).is_ok()))
        .map_err(|p| format!("parsing {} panicked: {}", text, p))?;
    if !v.is_string() {
        cx.nontrivial();
        ensure!(!r.0 && !r.1, "{} parsed as a core data type", text);
    }
    let e = no_panic(|| serde_json::from_str::<ExtensibleDataType>(&text)).map_err(|p| format!("parsing {} panicked: {}", text, p))?;
    if v.is_array() || v.is_string() {
        return Ok(());
    }
    let strs = |k: &str| v.get(k).map_or(false, |x| x.is_string());
    let fb = v.get("fallback").cloned().unwrap_or(Value::Null);
    let fb_ok = fb.is_null() || fb.as_str().map_or(false, |s| matches!(classify(s), Class::Valid(..)));
    let fb_unspec = fb.as_str().map_or(false, |s| matches!(classify(s), Class::Unspecified));
    let valid = v.is_object() && strs("extension") && strs("type") && fb_ok;
    cx.label(if valid { "extension type" } else { "other" });
    match e {
        Ok(t) => {
            ensure!(valid || fb_unspec, "{} parsed as {:?}", text, t);
            if valid {
                let back = serde_json::to_value(&t).map_err(|e| e.to_string())?;
                for k in ["extension", "type"] {
                    ensure_eq!(back[k], v[k], "{} of a serialized extension type", k);
                }
                ensure_eq!(back.get("fallback").cloned().unwrap_or(Value::Null), fb, "fallback of a serialized extension type");
                let again: ExtensibleDataType = serde_json::from_value(back).map_err(|e| e.to_string())?;
                ensure_eq!(again, t, "extension type serialized and parsed");
                match t.effective_type() {
                    Ok(d) => ensure_eq!(serde_json::to_value(d).map_err(|e| e.to_string())?, fb, "effective type of {}", text),
                    Err(_) => ensure!(fb.is_null(), "no effective type of {}", text),
                }
            }
        }
        Err(e) => ensure!(!valid, "{} refused: {}", text, e),
    }
    Ok(())
}

fn other_case() -> impl Strategy<Value = Value> {
    prop_oneof![
        2 => json_value(),
        3 => any_type(),
        3 => (any_type(), prop_oneof![Just("extension"), Just("type"), Just("fallback"), Just("more")], prop_oneof![json_value(), type_string().prop_map(Value::from)])
            .prop_map(|(mut t, k, v)| { if let Some(o) = t.as_object_mut() { o.insert(k.into(), v); } t }),
        1 => (any_type(), prop_oneof![Just("extension"), Just("type"), Just("fallback")])
            .prop_map(|(mut t, k)| { if let Some(o) = t.as_object_mut() { o.remove(k); } t }),
    ]
}

/// The Rust types that read each kind have its size, and dispatch finds them.
fn c13_reflected(d: &Dt, cx: &mut Cx) -> R {
    cx.nontrivial();
    let t: DataType = serde_json::from_value(json!(d.name())).map_err(|e| e.to_string())?;
    let (z, s) = crate::dispatch!(d.k(), T => (<T as ReflectedType>::ZARR_TYPE, std::mem::size_of::<T>()));
    ensure_eq!(t.size_of(), s, "size of {}", d.name());
    ensure_eq!(z.size_of(), s, "size of the reflected type of {}", d.name());
    ensure_eq!(d.size(), s, "size of {}", d.name());
    let zs = serde_json::to_value(z).map_err(|e| e.to_string())?;
    let want = Dt { k: d.k, big: cfg!(target_endian = "big") }.name();
    ensure_eq!(zs, json!(want), "reflected type of the Rust type of {}", d.name());
    for (n, z, s) in [(8, <[u8; 1]>::ZARR_TYPE, 1), (16, <[u8; 2]>::ZARR_TYPE, 2), (24, <[u8; 3]>::ZARR_TYPE, 3), (32, <[u8; 4]>::ZARR_TYPE, 4)] {
        ensure_eq!(serde_json::to_value(z).map_err(|e| e.to_string())?, json!(format!("r{}", n)), "reflected raw type");
        ensure_eq!(z.size_of(), s, "size of raw type");
    }
    // The exported dispatch on a data type takes the branch of the Rust type
    // that reads it.
    use std::any::type_name;
    let own = crate::dispatch!(d.k(), T => type_name::<T>());
    ensure_eq!(dispatched(t), (own, s), "Rust type that data_type_match dispatches {} to", d.name());
    ensure_eq!(data_type_match!(t, { type_name::<RsType>() }), own, "Rust type that data_type_match without a raw branch dispatches {} to", d.name());
    for bits in [8usize, 16, 24, 64, 8 * (d.k() + 1)] {
        let t: DataType = serde_json::from_value(json!(format!("r{}", bits))).map_err(|e| e.to_string())?;
        ensure_eq!(dispatched(t), ("raw", bits), "branch of data_type_match for r{}", bits);
        ensure_eq!(data_type_match!(t, { type_name::<RsType>() }), "[u8]", "Rust type that data_type_match dispatches r{} to", bits);
        ensure_eq!(t.size_of(), bits / 8, "size of r{}", bits);
    }
    Ok(())
}

fn dispatched(t: DataType) -> (&'static str, usize) {
    data_type_match!(t, DataType::Raw { size } => { ("raw", size) }, {
        (std::any::type_name::<RsType>(), std::mem::size_of::<RsType>())
    })
}

pub fn c13() -> Vec<Sub> {
    vec![
        sub("enumerate", Cases(16_000, 60_000), enum_case, c13_enumerate),
        sub("random", Cases(200_000, 3_000_000), type_string, c13_random),
        sub("other", Cases(80_000, 1_000_000), other_case, c13_other),
        sub("reflected", Cases(600, 1000), dt, c13_reflected),
    ]
}

// ---------------------------------------------------------------- C14

/// Edits of a JSON document, addressed by fractions.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Edit {
    /// Truncate the text.
    Cut(u16),
    /// Overwrite a byte.
    Byte(u16, u8),
    /// Insert text.
    Insert(u16, String),
    /// Replace the n-th value (pre-order) of the document.
    Replace(u8, Value),
    /// Remove the n-th object member.
    Drop(u8),
    /// Rename the n-th object member.
    Rename(u8, String),
    /// Add a member to the n-th object.
    Add(u8, String, Value),
    /// The whole document.
    Bytes(Vec<u8>),
    Deep(u16),
}

fn odd_value() -> BoxedStrategy<Value> {
    prop_oneof![
        3 => json_value(),
        1 => Just(json!({})),
        1 => Just(json!(-1)),
        1 => Just(json!(0)),
        1 => Just(json!([0])),
        1 => Just(json!(1.5)),
        1 => Just(json!(u64::MAX)),
        1 => Just(json!("")),
        1 => Just(json!([1, 2])),
        1 => Just(json!([-1])),
        1 => Just(json!([4294967296u64])),
        2 => type_string().prop_map(Value::from),
        1 => any_type(),
        1 => (wide_comp()).prop_map(|c| c.json()),
        1 => Just(json!({"codec": "nope"})),
        1 => Just(json!({"codec": "bzip2", "configuration": {"blockSize": 256}})),
        1 => Just(json!({"codec": "lz4", "configuration": {"blockSize": 1e10}})),
        1 => extension(true),
    ]
    .boxed()
}

fn edit() -> impl Strategy<Value = Edit> {
    let frag = prop_oneof![Just("\""), Just("{"), Just("}"), Just("["), Just("]"), Just(","), Just(":"), Just("null"), Just("\u{0}"), Just("1e999"), Just("\\u"), Just("\"a\":1,"), Just("\"shape\":[],"), Just(" "), Just("é")]
        .prop_map(|s| s.to_string());
    let key = prop_oneof![Just("shape"), Just("attributes"), Just("extensions"), Just("zarr_format"), Just("compressor"), Just("type"), Just("codec"), Just("")].prop_map(|s| s.to_string());
    prop_oneof![
        1 => any::<u16>().prop_map(Edit::Cut),
        2 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Edit::Byte(a, b)),
        2 => (any::<u16>(), frag).prop_map(|(a, s)| Edit::Insert(a, s)),
        6 => (any::<u8>(), odd_value()).prop_map(|(n, v)| Edit::Replace(n, v)),
        4 => any::<u8>().prop_map(Edit::Drop),
        1 => (any::<u8>(), key.clone()).prop_map(|(n, k)| Edit::Rename(n, k)),
        1 => (any::<u8>(), key, odd_value()).prop_map(|(n, k, v)| Edit::Add(n, k, v)),
        1 => proptest::collection::vec(any::<u8>(), 0..40).prop_map(Edit::Bytes),
        1 => (1u16..3000).prop_map(Edit::Deep),
    ]
}

fn count(v: &Value) -> usize {
    1 + match v {
        Value::Array(a) => a.iter().map(count).sum(),
        Value::Object(o) => o.values().map(count).sum(),
        _ => 0,
    }
}

fn nth_mut<'a>(v: &'a mut Value, n: &mut usize) -> Option<&'a mut Value> {
    if *n == 0 {
        return Some(v);
    }
    *n -= 1;
    match v {
        Value::Array(a) => {
            for x in a {
                if let Some(f) = nth_mut(x, n) {
                    return Some(f);
                }
            }
            None
        }
        Value::Object(o) => {
            for x in o.values_mut() {
                if let Some(f) = nth_mut(x, n) {
                    return Some(f);
                }
            }
            None
        }
        _ => None,
    }
}

/// Calls `f` on the n-th non-empty object of the document.
fn nth_object(v: &mut Value, n: u8, f: &mut dyn FnMut(&mut serde_json::Map<String, Value>)) {
    let total = count(v);
    let mut objs = vec![];
    for i in 0..total {
        let mut k = i;
        if let Some(Value::Object(o)) = nth_mut(v, &mut k) {
            if !o.is_empty() {
                objs.push(i);
            }
        }
    }
    // The document itself more often than the others.
    let at = if n < 128 { objs.first() } else { objs.get(n as usize % objs.len().max(1)) };
    if let Some(&i) = at {
        let mut k = i;
        if let Some(Value::Object(o)) = nth_mut(v, &mut k) {
            f(o)
        }
    }
}

fn apply(doc: &Value, edits: &[Edit]) -> Vec<u8> {
    let mut v = doc.clone();
    let mut text: Option<Vec<u8>> = None;
    for e in edits {
        match e {
            Edit::Replace(n, x) => {
                let total = count(&v);
                let mut n = *n as usize % total;
                if let Some(slot) = nth_mut(&mut v, &mut n) {
                    *slot = x.clone();
                }
            }
            Edit::Drop(n) => nth_object(&mut v, *n, &mut |o| {
                let k = o.keys().nth(*n as usize % o.len()).unwrap().clone();
                o.remove(&k);
            }),
            Edit::Rename(n, to) => nth_object(&mut v, *n, &mut |o| {
                let k = o.keys().nth(*n as usize % o.len()).unwrap().clone();
                let x = o.remove(&k).unwrap();
                o.insert(to.clone(), x);
            }),
            Edit::Add(n, k, x) => nth_object(&mut v, *n, &mut |o| {
                o.insert(k.clone(), x.clone());
            }),
            Edit::Bytes(b) => text = Some(b.clone()),
            Edit::Deep(n) => {
                let mut s = "[".repeat(*n as usize);
                s.push_str(&"]".repeat(*n as usize));
                text = Some(v.to_string().replacen("null", &s, 1).into_bytes());
            }
            _ => {}
        }
    }
    let mut t = text.unwrap_or_else(|| v.to_string().into_bytes());
    for e in edits {
        match e {
            Edit::Cut(a) => t.truncate(*a as usize % (t.len() + 1)),
            Edit::Byte(a, b) if !t.is_empty() => {
                let i = *a as usize % t.len();
                t[i] = *b
            }
            Edit::Insert(a, s) => {
                let i = *a as usize % (t.len() + 1);
                t.splice(i..i, s.bytes());
            }
            _ => {}
        }
    }
    t
}

fn entry_doc() -> impl Strategy<Value = Value> {
    let suffix = prop_oneof![6 => Just(".json"), 1 => Just(""), 1 => Just(".meta"), 1 => Just("v3.json"), 1 => Just(".a/b"), 1 => Just("/"), 1 => Just("../x"), 1 => Just(".é")];
    (suffix, proptest::collection::vec(extension(false), 0..3)).prop_map(|(s, e)| {
        json!({"zarr_format": "https://purl.org/zarr/spec/protocol/core/3.0", "metadata_encoding": "https://purl.org/zarr/spec/protocol/core/3.0", "metadata_key_suffix": s, "extensions": e})
    })
}

/// Whether the bytes are a JSON text with the members an extension entry needs.
/// Positional arrays in place of objects are not judged.
fn ext_ok(e: &Value) -> bool {
    e.is_array()
        || (e.is_object() && e["extension"].is_string() && e["must_understand"].is_boolean() && e.get("configuration").map_or(true, |c| c.is_null() || c.is_object()))
}

/// The JSON value of a document. `None` (not judged) for texts of JSON structure
/// whose only flaw is inside a string or number that may belong to an ignored
/// member: those are skipped without being looked at.
fn judged(bytes: &[u8]) -> Option<Result<Value, String>> {
    match serde_json::from_slice(bytes) {
        Ok(v) => Some(Ok(v)),
        Err(e) => match serde_json::from_str::<serde::de::IgnoredAny>(&String::from_utf8_lossy(bytes)) {
            Ok(_) => None,
            Err(_) => Some(Err(format!("not JSON ({})", e))),
        },
    }
}

fn entry_problem(bytes: &[u8]) -> Option<String> {
    let v: Value = match judged(bytes)? {
        Ok(v) => v,
        Err(e) => return Some(e),
    };
    if v.is_array() {
        return None;
    }
    if !v.is_object() {
        return Some("not an object".into());
    }
    for k in ["zarr_format", "metadata_encoding", "metadata_key_suffix"] {
        if !v[k].is_string() {
            return Some(format!("{} is {}", k, v[k]));
        }
    }
    if v["metadata_key_suffix"].as_str().unwrap().contains('/') {
        return Some("suffix with '/'".into());
    }
    match v["extensions"].as_array() {
        Some(a) if a.iter().all(ext_ok) => None,
        _ => Some(format!("extensions are {}", v["extensions"])),
    }
}

fn array_problem(bytes: &[u8]) -> Option<String> {
    let v: Value = match judged(bytes)? {
        Ok(v) => v,
        Err(e) => return Some(e),
    };
    if v.is_array() {
        return None;
    }
    if !v.is_object() {
        return Some("not an object".into());
    }
    let u64s = |v: &Value, max: u64| v.as_array().map_or(false, |a| a.iter().all(|x| x.as_u64().map_or(false, |x| x <= max)));
    if !u64s(&v["shape"], u64::MAX) {
        return Some(format!("shape is {}", v["shape"]));
    }
    let g = &v["chunk_grid"];
    if !g.is_array() {
        if g["type"] != "regular" || !g["separator"].is_string() || !u64s(&g["chunk_shape"], u32::MAX as u64) {
            return Some(format!("chunk_grid is {}", g));
        }
        if g["chunk_shape"].as_array().unwrap().len() != v["shape"].as_array().unwrap().len() {
            return Some("ranks differ".into());
        }
        if g["chunk_shape"].as_array().unwrap().contains(&json!(0)) {
            return Some("a chunk length of zero".into());
        }
    }
    let t = &v["data_type"];
    let ts = |t: &Value| t.as_str().map_or(false, |s| !matches!(classify(s), Class::Invalid));
    let t_ok = ts(t) || t.is_array() || (t["extension"].is_string() && t["type"].is_string() && t.get("fallback").map_or(true, |f| f.is_null() || ts(f)));
    if !t_ok {
        return Some(format!("data_type is {}", t));
    }
    if v["chunk_memory_layout"] != "C" && v["chunk_memory_layout"] != "F" {
        // A unit variant may also be given as a one-member object.
        if !v["chunk_memory_layout"].is_object() {
            return Some(format!("chunk_memory_layout is {}", v["chunk_memory_layout"]));
        }
    }
    match v["extensions"].as_array() {
        Some(a) if a.iter().all(|e| ext_ok(e) && e.get("must_understand") != Some(&json!(true))) => {}
        _ => return Some(format!("extensions are {}", v["extensions"])),
    }
    if !v["attributes"].is_object() {
        return Some(format!("attributes are {}", v["attributes"]));
    }
    if let Some(c) = v.get("compressor") {
        let known = ["raw", GZIP, "bzip2", "lz4", "xz"];
        if !c.is_array() {
            match known.iter().position(|k| c["codec"] == *k) {
                None => return Some(format!("compressor is {}", c)),
                Some(0) => {}
                Some(i) => {
                    let conf = &c["configuration"];
                    if !conf.is_array() {
                        let key = Comp { codec: i as u8, p: None }.key();
                        let (lo, hi) = if i == 2 { (0, 255) } else { (i32::MIN as i64, i32::MAX as i64) };
                        let ok = conf.is_object() && conf.get(key).map_or(true, |x| x.as_i64().map_or(false, |x| x >= lo && x <= hi));
                        if !ok {
                            return Some(format!("compressor is {}", c));
                        }
                    }
                }
            }
        }
    }
    None
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct EntryCase {
    doc: Value,
    edits: Vec<Edit>,
}

fn entry_case() -> impl Strategy<Value = EntryCase> {
    (entry_doc(), proptest::collection::vec(edit(), 1..3)).prop_map(|(doc, edits)| EntryCase { doc, edits })
}

fn c14_entry(c: &EntryCase, cx: &mut Cx) -> R {
    let bytes = apply(&c.doc, &c.edits);
    let dir = cx.dir();
    std::fs::write(dir.join("zarr.json"), &bytes).map_err(|e| e.to_string())?;
    let shown = short(&String::from_utf8_lossy(&bytes).into_owned());
    let before = snap(&dir);
    let problem = entry_problem(&bytes);
    cx.label(if problem.is_some() { "malformed" } else { "well-formed" });
    if problem.is_some() {
        cx.nontrivial();
    }
    let o = no_panic(|| FilesystemHierarchy::open(&dir)).map_err(|p| format!("open with entry point {}: panic: {}", shown, p))?;
    let o2 = no_panic(|| FilesystemHierarchy::open_or_create(&dir)).map_err(|p| format!("open_or_create with entry point {}: panic: {}", shown, p))?;
    // Without content it is one that is being created.
    let empty = bytes.is_empty();
    ensure!(o.is_ok() == o2.is_ok() || empty, "entry point {}: open {}, open_or_create {}", shown, if o.is_ok() { "succeeded" } else { "failed" }, if o2.is_ok() { "succeeded" } else { "failed" });
    if let Some(d) = diff(&before, &snap(&dir)).filter(|_| !empty) {
        return Err(format!("opening with entry point {}: {}", shown, d));
    }
    if let Ok(h) = o {
        if let Some(p) = problem {
            return Err(format!("entry point {} was accepted: {}", shown, p));
        }
        // A hierarchy that opened is usable without panics.
        no_panic(|| -> R {
            let _ = h.exists("a/b");
            let _ = h.list_nodes("");
            if h.create_group("a/b").is_ok() {
                ensure!(h.exists("a/b").unwrap_or(false), "created group does not exist with entry point {}", shown);
                ensure_eq!(h.list_nodes("a").map_err(|e| e.to_string())?, vec!["b".to_string()], "nodes with entry point {}", shown);
            }
            Ok(())
        })
        .map_err(|p| format!("using a hierarchy with entry point {}: panic: {}", shown, p))??;
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct NodeCase {
    doc: Value,
    edits: Vec<Edit>,
    group: bool,
    path: String,
    fs: bool,
    frag: u8,
}

fn node_case() -> impl Strategy<Value = NodeCase> {
    let group = attrs().prop_map(|a| json!({"extensions": [], "attributes": a}));
    (array_doc(), group, proptest::collection::vec(edit(), 1..3), prop::bool::weighted(0.3), path(2), prop::bool::weighted(0.3), any::<u8>())
        .prop_map(|(a, g, edits, group, path, fs, frag)| NodeCase { doc: if group { g } else { a }, edits, group, path, fs, frag })
}

/// What a reader does with metadata that loaded. Counts are asked for if they can
/// be represented, and chunks are read if they are of moderate size.
fn use_meta<H: HierarchyReader>(h: &H, path: &str, m: &ArrayMetadata) -> R {
    let ndim = m.get_ndim();
    let (shape, chunk) = (m.get_shape().to_vec(), m.get_chunk_shape().to_vec());
    let grid = m.get_grid_extent();
    ensure_eq!(grid.len(), ndim, "rank of the grid extent");
    if shape.iter().try_fold(1u64, |n, &d| n.checked_mul(d.max(1))).is_some() {
        let _ = (m.get_num_elements(), m.get_num_chunks());
    }
    let origin: GridCoord = GridCoord::from(vec![0; ndim]);
    let inside = m.in_bounds(&origin);
    ensure_eq!(inside, !shape.contains(&0), "in_bounds of the origin");
    let beyond: GridCoord = grid.clone();
    ensure!(ndim == 0 || !m.in_bounds(&beyond), "the grid extent is in bounds");
    let _ = zarr::storage::get_chunk_key(path, m, &origin);
    let _ = h.get_chunk_uri(path, m, &origin);
    if grid.iter().try_fold(1u64, |n, &d| n.checked_mul(d.max(1))).is_some() {
        let mut it = m.coord_iter();
        ensure_eq!(it.next().map(|c| c.to_vec()), if inside { Some(origin.to_vec()) } else { None }, "first chunk coordinate");
    }
    let one = vec![1u64; ndim];
    let bb = bbox(&origin, &one);
    ensure_eq!(m.bounded_coord_iter(&bb).count(), inside as usize, "chunks of the first element");
    let _ = m.get_effective_fill_value::<bool>();
    let _ = m.get_effective_fill_value::<u8>();
    let _ = m.get_effective_fill_value::<i64>();
    let _ = m.get_effective_fill_value::<f32>();
    let small = chunk.iter().try_fold(1u32, |n, &d| n.checked_mul(d)).map_or(true, |n| n <= 1 << 16);
    for k in 0..KINDS.len() {
        let _ = m.get_data_type().effective_type().map(|t| t.size_of());
        if inside && small {
            // Nothing is stored there.
            if let Ok(Some(_)) = read_chunk(h, k, path, m, &origin) {
                return Err("a chunk that was never written can be read".into());
            }
            if let Ok((_, d)) = read_region(h, k, path, m, &origin, &one) {
                ensure_eq!(d.len(), 1, "elements of a region of one");
            }
        }
    }
    Ok(())
}

/// Every operation that looks at a metadata document, with a verdict on each.
fn c14_ops<H: HierarchyReader + HierarchyLister + HierarchyWriter>(h: &H, c: &NodeCase, bytes: &[u8], raw: &dyn Fn() -> Option<Vec<u8>>, cx: &mut Cx) -> R {
    let p = &c.path;
    let shown = short(&String::from_utf8_lossy(bytes).into_owned());
    let what = |op: &str| format!("{} of {:?} with {} document {}", op, p, if c.group { "group" } else { "array" }, shown);
    let parsed: Option<Value> = serde_json::from_slice(bytes).ok();
    let object = parsed.as_ref().map_or(false, |v| v.is_object());
    cx.label(if !object { "not a JSON object" } else if c.group || array_problem(bytes).is_some() { "malformed object" } else { "well-formed" });
    if bytes != c.doc.to_string().as_bytes() {
        cx.nontrivial();
    }
    macro_rules! quiet {
        ($op:expr, $e:expr) => {
            no_panic(|| $e).map_err(|m| format!("{}: panic: {}", what($op), m))?
        };
    }
    let m = quiet!("get_array_metadata", h.get_array_metadata(p));
    if !c.group {
        if let (Ok(m), Some(problem)) = (&m, array_problem(bytes)) {
            return Err(format!("{}: accepted as {:?}: {}", what("get_array_metadata"), m, problem));
        }
        if let Ok(m) = &m {
            quiet!("use", use_meta(h, p, m)).map_err(|e| format!("{}: {}", what("use of metadata"), e))?;
            cx.label("metadata used");
        }
        let ae = quiet!("array_exists", h.array_exists(p));
        ensure!(ae.as_ref().map_or(true, |&a| a == m.is_ok()), "{}: {:?}, but loading its metadata {}", what("array_exists"), ae, if m.is_ok() { "succeeds" } else { "fails" });
    } else {
        ensure!(m.is_err(), "{}: succeeded", what("get_array_metadata"));
        let _ = quiet!("array_exists", h.array_exists(p));
    }
    let ex = quiet!("exists", h.exists(p));
    ensure!(ex.as_ref().map_or(true, |&x| x), "{}: false", what("exists"));
    let at = quiet!("list_attributes", h.list_attributes(p));
    match (&at, object) {
        (Ok(_), false) => return Err(format!("{}: succeeded", what("list_attributes"))),
        (Ok(a), true) => {
            let v = parsed.as_ref().unwrap();
            match v.get("attributes") {
                Some(Value::Object(want)) => ensure!(a == want, "{}: {:?}", what("list_attributes"), a),
                None => ensure!(a.is_empty(), "{}: {:?}", what("list_attributes"), a),
                Some(_) => return Err(format!("{}: {:?}", what("list_attributes"), a)),
            }
        }
        (Err(e), true) => {
            let v = parsed.as_ref().unwrap();
            ensure!(v.get("attributes").map_or(false, |a| !a.is_object()), "{}: {}", what("list_attributes"), e);
        }
        (Err(_), false) => {}
    }
    let _ = quiet!("list_nodes", h.list_nodes(p));
    let parent = p.rsplit_once('/').map_or("", |x| x.0);
    let l = quiet!("list_nodes of the parent", h.list_nodes(parent));
    if let (Ok(l), false) = (&l, p.is_empty()) {
        let name = p.rsplit('/').next().unwrap().to_string();
        ensure!(l.contains(&name), "{}: {:?} lists {:?}", what("list_nodes"), parent, l);
    }
    ensure_eq!(raw().as_deref(), Some(bytes), "{}: stored document after reading", what("reading"));
    // Creating over it.
    let other = Meta::simple(vec![3], vec![2], Dt { k: 1, big: false }).build();
    let r = quiet!("create_array", h.create_array(p, &other));
    ensure!(r.is_err(), "{}: succeeded", what("create_array"));
    let r = quiet!("create_group", h.create_group(p));
    ensure!(r.is_err() != c.group, "{}: {:?}", what("create_group"), r.map_err(|e| e.to_string()));
    ensure_eq!(raw().as_deref(), Some(bytes), "{}: stored document", what("creating"));
    // Setting attributes.
    let r = quiet!("set_attribute", h.set_attribute(p, "zz".into(), 1));
    if !object {
        ensure!(r.is_err(), "{}: succeeded", what("set_attribute"));
        ensure_eq!(raw().as_deref(), Some(bytes), "{}: stored document", what("set_attribute"));
    } else if r.is_ok() {
        let a = quiet!("list_attributes", h.list_attributes(p)).map_err(|e| format!("{} after set_attribute: {}", what("list_attributes"), e))?;
        ensure!(a.get("zz") == Some(&json!(1)), "{}: attribute is {:?} afterwards", what("set_attribute"), a.get("zz"));
    } else {
        ensure_eq!(raw().as_deref(), Some(bytes), "{}: stored document after a refused set_attribute", what("set_attribute"));
    }
    let _ = quiet!("remove", h.remove(p));
    Ok(())
}

fn c14_node(c: &NodeCase, cx: &mut Cx) -> R {
    let bytes = apply(&c.doc, &c.edits);
    cx.label(if c.group { "group document" } else { "array document" });
    let ext = if c.group { "group" } else { "array" };
    let key = if c.path.is_empty() { format!("meta/root.{}.json", ext) } else { format!("meta/root/{}.{}.json", c.path, ext) };
    if c.fs {
        let dir = cx.dir();
        let h = FilesystemHierarchy::open_or_create(&dir).map_err(|e| e.to_string())?;
        let f = dir.join(&key);
        std::fs::create_dir_all(f.parent().unwrap()).map_err(|e| e.to_string())?;
        std::fs::write(&f, &bytes).map_err(|e| e.to_string())?;
        c14_ops(&h, c, &bytes, &|| std::fs::read(&f).ok(), cx)
    } else {
        let mut h = Mem::new();
        h.frag = c.frag % 50;
        h.map.lock().unwrap().insert(key.clone(), bytes.clone());
        c14_ops(&h, c, &bytes, &|| h.map.lock().unwrap().get(&key).cloned(), cx)
    }
}

pub fn c14() -> Vec<Sub> {
    vec![
        sub("entry", Cases(45_000, 500_000), entry_case, c14_entry),
        sub("node", Cases(180_000, 2_000_000), node_case, c14_node),
    ]
}

// ---------------------------------------------------------------- C15

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Vers {
    /// Numeric components of the version, or none: text that is no version.
    nums: Vec<u64>,
    text: String,
    prefix: String,
    ext: Vec<Value>,
    suffix: String,
    extra: bool,
    populated: bool,
}

fn vers_case() -> impl Strategy<Value = Vers> {
    let n = || prop_oneof![6 => Just(0u64), 2 => 1u64..5, 1 => any::<u32>().prop_map(|x| x as u64)];
    let nums = prop_oneof![
        1 => Just(vec![]),
        8 => (prop_oneof![5 => Just(3u64), 1 => 0u64..12, 1 => any::<u32>().prop_map(|x| x as u64)], proptest::collection::vec(n(), 0..=2)).prop_map(|(a, mut v)| { v.insert(0, a); v }),
    ];
    let text = prop_oneof![Just(""), Just("latest"), Just("core"), Just("three"), Just("v"), Just("3.0.0.0"), Just("3.0,"), Just(" "), Just("3..0"), Just("3.a"), Just("é"), Just("core-3.0"), Just("zarr-3"), Just("x3.0"), Just("draft_3.0"), Just("3.0/y"), Just("3.0/")].prop_map(|s| s.to_string());
    let prefix = prop_oneof![4 => Just("https://purl.org/zarr/spec/protocol/core/"), 1 => Just("x/"), 1 => Just("/"), 1 => Just("")].prop_map(|s| s.to_string());
    let ext = any::<bool>().prop_flat_map(|must| extension(must));
    let exts = prop_oneof![3 => Just(vec![]).boxed(), 3 => proptest::collection::vec(extension(false), 1..5).boxed(), 3 => proptest::collection::vec(ext, 1..6).boxed()];
    let suffix = prop_oneof![4 => Just(".json"), 1 => Just(".meta"), 1 => Just("")].prop_map(|s| s.to_string());
    (nums, text, prefix, exts, suffix, any::<bool>(), any::<bool>())
        .prop_map(|(nums, text, prefix, ext, suffix, extra, populated)| Vers { nums, text, prefix, ext, suffix, extra, populated })
}

fn c15_open(c: &Vers, cx: &mut Cx) -> R {
    let dir = cx.dir();
    let version = if c.nums.is_empty() { c.text.clone() } else { c.nums.iter().map(|n| n.to_string()).collect::<Vec<_>>().join(".") };
    let compatible = !c.nums.is_empty() && c.nums[0] == 3 && c.nums[1..].iter().all(|&n| n == 0);
    let must = c.ext.iter().any(|e| e["must_understand"] == true);
    let mut doc = json!({
        "zarr_format": format!("{}{}", c.prefix, version),
        "metadata_encoding": "https://purl.org/zarr/spec/protocol/core/3.0",
        "metadata_key_suffix": c.suffix,
        "extensions": c.ext,
    });
    if c.extra {
        doc["extra"] = json!({"a": [1]});
    }
    std::fs::write(dir.join("zarr.json"), doc.to_string()).map_err(|e| e.to_string())?;
    if c.populated {
        std::fs::create_dir_all(dir.join("meta/root")).map_err(|e| e.to_string())?;
        std::fs::write(dir.join("meta/root/g.group.json"), b"{\"extensions\":[],\"attributes\":{\"q\":7}}").map_err(|e| e.to_string())?;
    }
    let before = snap(&dir);
    let want = compatible && !must;
    cx.label(if compatible { "compatible version" } else { "other version" });
    cx.label(if must { "must-understand extension" } else if c.ext.is_empty() { "no extensions" } else { "optional extensions" });
    cx.nontrivial();
    let what = format!("entry point {}", doc);
    for (name, r) in [
        ("open", no_panic(|| FilesystemHierarchy::open(&dir))),
        ("open_or_create", no_panic(|| FilesystemHierarchy::open_or_create(&dir))),
    ] {
        let r = r.map_err(|p| format!("{} with {}: panic: {}", name, what, p))?;
        match (&r, want) {
            (Ok(_), false) => return Err(format!("{} succeeded with {}", name, what)),
            (Err(e), true) => return Err(format!("{} failed with {}: {}", name, what, e)),
            _ => {}
        }
        if let Some(d) = diff(&before, &snap(&dir)) {
            return Err(format!("{} with {}: {}", name, what, d));
        }
        if let Ok(h) = r {
            // The declared version is what the handle reports.
            let v = h.get_version().map_err(|e| format!("get_version with {}: {}", what, e))?;
            ensure!(format!("{}", v).contains('3'), "get_version with {}: {}", what, v);
            if c.populated && c.suffix == ".json" {
                let a = h.list_attributes("g").map_err(|e| format!("list_attributes with {}: {}", what, e))?;
                ensure_eq!(Value::Object(a), json!({"q": 7}), "attributes with {}", what);
            }
            // Use keeps the entry point as it is.
            h.create_group("n").map_err(|e| format!("create_group with {}: {}", what, e))?;
            h.remove("n").map_err(|e| format!("remove with {}: {}", what, e))?;
            h.remove_all().map_err(|e| format!("remove_all with {}: {}", what, e))?;
            ensure_eq!(std::fs::read(dir.join("zarr.json")).map_err(|e| e.to_string())?, doc.to_string().into_bytes(), "entry point after use");
            restore(&dir, c.populated)?;
            if let Some(d) = diff(&before, &snap(&dir)) {
                return Err(format!("using and clearing a hierarchy with {}: {}", what, d));
            }
        }
    }
    Ok(())
}

/// Puts the populated state back after `remove_all` (directories may or may not remain).
fn restore(dir: &Path, populated: bool) -> R {
    for d in ["meta/root", "meta", "data/root", "data"] {
        let _ = std::fs::remove_dir(dir.join(d));
    }
    if populated {
        std::fs::create_dir_all(dir.join("meta/root")).map_err(|e| e.to_string())?;
        std::fs::write(dir.join("meta/root/g.group.json"), b"{\"extensions\":[],\"attributes\":{\"q\":7}}").map_err(|e| e.to_string())?;
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ArrExt {
    doc: Value,
    ext: Vec<Value>,
    path: String,
    fs: bool,
}

fn arr_ext_case() -> impl Strategy<Value = ArrExt> {
    let ext = any::<bool>().prop_flat_map(|must| extension(must));
    let exts = prop_oneof![1 => Just(vec![]).boxed(), 3 => proptest::collection::vec(extension(false), 1..5).boxed(), 3 => proptest::collection::vec(ext, 1..6).boxed()];
    (array_doc(), exts, path(2), prop::bool::weighted(0.3)).prop_map(|(doc, ext, path, fs)| ArrExt { doc, ext, path, fs })
}

fn c15_ops<H: HierarchyReader + HierarchyWriter>(h: &H, c: &ArrExt, doc: &Value, raw: &dyn Fn() -> Option<Vec<u8>>, cx: &mut Cx) -> R {
    let must = c.ext.iter().any(|e| e["must_understand"] == true);
    cx.label(if must { "must-understand extension" } else if c.ext.is_empty() { "no extensions" } else { "optional extensions" });
    cx.nontrivial();
    let r = h.get_array_metadata(&c.path);
    match (&r, must) {
        (Ok(_), true) => return Err(format!("metadata with extensions {} loaded", json!(c.ext))),
        (Err(e), false) => return Err(format!("metadata with extensions {} refused: {}", json!(c.ext), e)),
        _ => {}
    }
    ensure_eq!(h.array_exists(&c.path).map_err(|e| e.to_string())?, !must, "array_exists with extensions {}", json!(c.ext));
    ensure_eq!(raw(), Some(doc.to_string().into_bytes()), "document after loading");
    // Extensions are kept when attributes change, and by what was loaded.
    if h.set_attribute(&c.path, "zz".into(), "new").is_ok() {
        let v: Value = serde_json::from_slice(&raw().unwrap()).map_err(|e| e.to_string())?;
        ensure_eq!(v["extensions"], json!(c.ext), "extensions after set_attribute");
    } else {
        ensure_eq!(raw(), Some(doc.to_string().into_bytes()), "document after a refused set_attribute");
    }
    if let Ok(m) = r {
        h.create_array("copy", &m).map_err(|e| format!("create_array: {}", e))?;
        let m2 = h.get_array_metadata("copy").map_err(|e| format!("loading the copy: {}", e))?;
        ensure_eq!(serde_json::to_value(&m2).unwrap()["extensions"], json!(c.ext), "extensions of a copy");
    }
    Ok(())
}

fn c15_array(c: &ArrExt, cx: &mut Cx) -> R {
    let mut doc = c.doc.clone();
    doc["extensions"] = json!(c.ext);
    let path = if c.path == "copy" { "x".to_string() } else { c.path.clone() };
    let c = ArrExt { path, ..c.clone() };
    let key = meta_key(&c.path);
    if c.fs {
        let dir = cx.dir();
        let h = FilesystemHierarchy::open_or_create(&dir).map_err(|e| e.to_string())?;
        let f = dir.join(&key);
        std::fs::create_dir_all(f.parent().unwrap()).map_err(|e| e.to_string())?;
        std::fs::write(&f, doc.to_string()).map_err(|e| e.to_string())?;
        c15_ops(&h, &c, &doc, &|| std::fs::read(&f).ok(), cx)
    } else {
        let h = Mem::new();
        h.map.lock().unwrap().insert(key.clone(), doc.to_string().into_bytes());
        c15_ops(&h, &c, &doc, &|| h.map.lock().unwrap().get(&key).cloned(), cx)
    }
}

pub fn c15() -> Vec<Sub> {
    vec![
        sub("open", Cases(48_000, 300_000), vers_case, c15_open),
        sub("array", Cases(120_000, 800_000), arr_ext_case, c15_array),
    ]
}
