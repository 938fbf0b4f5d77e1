//! Case vocabulary shared by the checks: element types, deterministic data,
//! codec configurations, array metadata, node names.

use half::f16;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use zarr::prelude::*;

// ---------------------------------------------------------------- element types

pub const KINDS: [&str; 12] = [
    "bool", "u1", "u2", "u4", "u8", "i1", "i2", "i4", "i8", "f2", "f4", "f8",
];
pub const SIZES: [usize; 12] = [1, 1, 2, 4, 8, 1, 2, 4, 8, 2, 4, 8];

#[derive(Clone, Copy, PartialEq, Eq, Serialize, Deserialize, Debug)]
pub struct Dt {
    pub k: u8,
    pub big: bool,
}

impl Dt {
    pub fn k(&self) -> usize {
        self.k as usize % 12
    }
    pub fn size(&self) -> usize {
        SIZES[self.k()]
    }
    pub fn name(&self) -> String {
        let k = KINDS[self.k()];
        if self.size() == 1 {
            k.to_string()
        } else {
            format!("{}{}", if self.big { '>' } else { '<' }, k)
        }
    }
    pub fn mask(&self) -> u64 {
        match self.k() {
            0 => 1,
            _ if self.size() == 8 => u64::MAX,
            _ => (1u64 << (8 * self.size())) - 1,
        }
    }
    pub fn is_float(&self) -> bool {
        self.k() >= 9
    }
    /// The declared encoding of elements given by their bits.
    pub fn encode(&self, bits: &[u64]) -> Vec<u8> {
        let s = self.size();
        let mut out = Vec::with_capacity(bits.len() * s);
        for b in bits {
            if self.big {
                out.extend_from_slice(&b.to_be_bytes()[8 - s..]);
            } else {
                out.extend_from_slice(&b.to_le_bytes()[..s]);
            }
        }
        out
    }
}

pub fn dt() -> impl Strategy<Value = Dt> {
    (0u8..12, any::<bool>()).prop_map(|(k, big)| Dt { k, big })
}

/// Lossless view of an element as the low bits of a `u64`.
pub trait Bits: Copy + 'static {
    fn from_b(b: u64) -> Self;
    fn to_b(self) -> u64;
}
macro_rules! bits_int { ($($t:ty, $u:ty);*) => { $(impl Bits for $t {
    fn from_b(b: u64) -> Self { b as $u as $t }
    fn to_b(self) -> u64 { self as $u as u64 }
})* } }
bits_int!(u8,u8; u16,u16; u32,u32; u64,u64; i8,u8; i16,u16; i32,u32; i64,u64);
impl Bits for bool {
    fn from_b(b: u64) -> Self {
        b & 1 == 1
    }
    fn to_b(self) -> u64 {
        self as u64
    }
}
impl Bits for f16 {
    fn from_b(b: u64) -> Self {
        f16::from_bits(b as u16)
    }
    fn to_b(self) -> u64 {
        self.to_bits() as u64
    }
}
impl Bits for f32 {
    fn from_b(b: u64) -> Self {
        f32::from_bits(b as u32)
    }
    fn to_b(self) -> u64 {
        self.to_bits() as u64
    }
}
impl Bits for f64 {
    fn from_b(b: u64) -> Self {
        f64::from_bits(b)
    }
    fn to_b(self) -> u64 {
        self.to_bits()
    }
}
pub fn to_v<T: Bits>(b: &[u64]) -> Vec<T> {
    b.iter().map(|&b| T::from_b(b)).collect()
}
pub fn to_b<T: Bits>(v: &[T]) -> Vec<u64> {
    v.iter().map(|v| v.to_b()).collect()
}

/// Runs `$body` with `$T` bound to the Rust type of kind `$k`.
#[macro_export]
macro_rules! dispatch {
    ($k:expr, $T:ident => $body:expr) => {
        match $k {
            0 => { type $T = bool; $body }
            1 => { type $T = u8; $body }
            2 => { type $T = u16; $body }
            3 => { type $T = u32; $body }
            4 => { type $T = u64; $body }
            5 => { type $T = i8; $body }
            6 => { type $T = i16; $body }
            7 => { type $T = i32; $body }
            8 => { type $T = i64; $body }
            9 => { type $T = half::f16; $body }
            10 => { type $T = f32; $body }
            _ => { type $T = f64; $body }
        }
    };
}

// ---------------------------------------------------------------- data

pub struct Sm(pub u64);
impl Sm {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
}

/// Compact description of element data; `expand` is a pure function of it.
#[derive(Clone, Copy, PartialEq, Eq, Serialize, Deserialize, Debug)]
pub struct Data {
    pub seed: u32,
    pub kind: u8,
}

const SPECIAL: [u64; 20] = [
    0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x7c00, 0x7e01, 0x7f80_0000,
    0x7f80_0001, 0xffc0_1234, 0x7ff0_0000_0000_0000, 0x7ff0_0000_0000_0001, 0xfff8_dead_beef_0001,
    0x8000_0000_0000_0000, u64::MAX,
];

impl Data {
    pub fn expand(&self, n: usize, dt: Dt) -> Vec<u64> {
        let mut r = Sm(self.seed as u64);
        let m = dt.mask();
        (0..n)
            .map(|i| {
                m & match self.kind % 6 {
                    // Constant, so that codecs compress well.
                    0 => self.seed as u64,
                    1 => (self.seed as u64).wrapping_add(i as u64),
                    2 => r.next(),
                    3 => SPECIAL[r.below(20) as usize],
                    4 => {
                        if r.below(20) == 0 {
                            r.next()
                        } else {
                            0
                        }
                    }
                    // Every byte position distinct within an element.
                    _ => 0x0102_0304_0506_0708u64.wrapping_mul(1 + (i as u64 % 31)) ^ (i as u64),
                }
            })
            .collect()
    }
}

pub fn data() -> impl Strategy<Value = Data> {
    (any::<u32>(), 0u8..6).prop_map(|(seed, kind)| Data { seed, kind })
}

// ---------------------------------------------------------------- codecs

pub const GZIP: &str = "https://purl.org/zarr/spec/codec/gzip/1.0";

/// `codec`: 0 raw, 1 gzip, 2 bzip2, 3 lz4, 4 xz; `p` its numeric parameter.
#[derive(Clone, Copy, PartialEq, Eq, Serialize, Deserialize, Debug)]
pub struct Comp {
    pub codec: u8,
    pub p: Option<i64>,
}
pub const CODEC_LABEL: [&str; 5] = ["raw", "gzip", "bzip2", "lz4", "xz"];

impl Comp {
    pub fn c(&self) -> usize {
        self.codec as usize % 5
    }
    pub fn key(&self) -> &'static str {
        ["", "level", "blockSize", "blockSize", "preset"][self.c()]
    }
    pub fn json(&self) -> Value {
        match self.c() {
            0 => json!({"codec": "raw", "configuration": null}),
            c => {
                let mut conf = serde_json::Map::new();
                if let Some(p) = self.p {
                    conf.insert(self.key().into(), json!(p));
                }
                let codec = ["raw", GZIP, "bzip2", "lz4", "xz"][c];
                json!({"codec": codec, "configuration": conf})
            }
        }
    }
    pub fn label(&self) -> &'static str {
        CODEC_LABEL[self.c()]
    }
}

/// Valid configurations of every codec. Large xz presets allocate hundreds of
/// megabytes per encoder, so they are rare.
pub fn comp() -> impl Strategy<Value = Comp> {
    prop_oneof![
        5 => Just(Comp { codec: 0, p: None }),
        4 => proptest::option::weighted(0.8, -1i64..=9).prop_map(|p| Comp { codec: 1, p }),
        3 => proptest::option::weighted(0.8, 1i64..=9).prop_map(|p| Comp { codec: 2, p }),
        4 => proptest::option::weighted(0.8, prop_oneof![
            Just(65536i64), Just(262144), Just(1048576), Just(4194304)
        ]).prop_map(|p| Comp { codec: 3, p }),
        2 => (0i64..=3).prop_map(|p| Comp { codec: 4, p: Some(p) }),
        1 => proptest::option::weighted(0.5, 4i64..=6).prop_map(|p| Comp { codec: 4, p }),
    ]
}

/// Cheap subset for histories that do many operations.
pub fn comp_cheap() -> impl Strategy<Value = Comp> {
    prop_oneof![
        4 => Just(Comp { codec: 0, p: None }),
        2 => (0i64..=9).prop_map(|p| Comp { codec: 1, p: Some(p) }),
        1 => (1i64..=2).prop_map(|p| Comp { codec: 2, p: Some(p) }),
        2 => Just(Comp { codec: 3, p: None }),
        1 => (0i64..=1).prop_map(|p| Comp { codec: 4, p: Some(p) }),
    ]
}

// ---------------------------------------------------------------- metadata

#[derive(Clone, PartialEq, Serialize, Deserialize, Debug)]
pub struct Meta {
    pub shape: Vec<u64>,
    pub chunk: Vec<u32>,
    pub dt: Dt,
    /// Column-major ("F") chunk layout.
    pub col: bool,
    /// "." as key separator instead of "/".
    pub dot: bool,
    pub comp: Comp,
    pub fill: Value,
}

impl Meta {
    pub fn simple(shape: Vec<u64>, chunk: Vec<u32>, dt: Dt) -> Meta {
        Meta {
            shape,
            chunk,
            dt,
            col: false,
            dot: false,
            comp: Comp { codec: 0, p: None },
            fill: Value::Null,
        }
    }
    pub fn json(&self) -> Value {
        json!({
            "shape": self.shape,
            "data_type": self.dt.name(),
            "chunk_grid": {"type": "regular", "chunk_shape": self.chunk, "separator": if self.dot {"."} else {"/"}},
            "chunk_memory_layout": if self.col {"F"} else {"C"},
            "fill_value": self.fill,
            "extensions": [],
            "attributes": {},
            "compressor": self.comp.json(),
        })
    }
    pub fn build(&self) -> ArrayMetadata {
        meta_from(&self.json())
    }
    pub fn chunk_len(&self) -> usize {
        self.chunk.iter().map(|&c| c as usize).product()
    }
    pub fn grid(&self) -> Vec<u64> {
        self.shape
            .iter()
            .zip(&self.chunk)
            .map(|(&s, &c)| div_ceil(s, c as u64))
            .collect()
    }
}

pub fn div_ceil(a: u64, b: u64) -> u64 {
    a / b + (a % b != 0) as u64
}

pub fn meta_from(v: &Value) -> ArrayMetadata {
    serde_json::from_value(v.clone()).unwrap_or_else(|e| panic!("valid array metadata {} refused: {}", v, e))
}

pub fn gc(v: &[u64]) -> GridCoord {
    v.iter().cloned().collect()
}

// ---------------------------------------------------------------- names and paths

/// Node names: prefixes of one another, dots, names that look like metadata
/// keys' parts, chunk-like names, unicode, odd but legal characters.
pub const NAMES: [&str; 28] = [
    "a", "ab", "abc", "b", "a.b", "a.", "arr", "a-b", "array", "group", "x.array", "x.group", "c0x",
    "cx", "0", "1.0", "data", "root", "meta", "é", "日本", "na me", ".hid", "json", "x.json", "zarr.json",
    "averyveryverylongname_0123456789_0123456789_0123456789_0123456789", "A",
];

pub fn name() -> impl Strategy<Value = String> {
    prop_oneof![
        6 => (0usize..6).prop_map(|i| NAMES[i].to_string()),
        6 => (0usize..NAMES.len()).prop_map(|i| NAMES[i].to_string()),
        1 => "[a-e][a-e.0-9é_-]{0,6}".prop_map(|s| s),
    ]
}

/// A canonical node path of 0..=max components ("" is the root).
pub fn path(max: usize) -> impl Strategy<Value = String> {
    proptest::collection::vec(name(), 0..=max).prop_map(|v| v.join("/"))
}

/// Adds leading, trailing and repeated slashes according to `deco`.
pub fn decorate(path: &str, deco: u16) -> String {
    let mut s = String::new();
    let lead = [0usize, 1, 0, 2][(deco & 3) as usize];
    let trail = [0usize, 0, 1, 3][((deco >> 2) & 3) as usize];
    s.push_str(&"/".repeat(lead));
    let mut bit = 4;
    for (i, c) in path.split('/').enumerate() {
        if i > 0 {
            let n = if (deco >> (bit % 16)) & 1 == 1 { 2 + (deco >> 15) as usize } else { 1 };
            bit += 1;
            s.push_str(&"/".repeat(n));
        }
        s.push_str(c);
    }
    s.push_str(&"/".repeat(trail));
    s
}

/// Different values that are easily taken for one another.
fn confusable() -> BoxedStrategy<Value> {
    (0usize..18)
        .prop_map(|i| {
            let big = 1u64 << 53;
            [json!(1), json!(1.0), json!(true), json!("1"), json!([1]), json!(0), json!(0.0), json!(false), json!(null), json!([]), json!({}),
             json!(-1), json!(-1.0), json!("null"), json!(big), json!(big + 1), json!(big as f64), json!([[]])][i].clone()
        })
        .boxed()
}

/// JSON values whose numbers survive any correct serializer unchanged.
pub fn json_value() -> BoxedStrategy<Value> {
    let leaf = prop_oneof![
        Just(Value::Null),
        any::<bool>().prop_map(Value::from),
        any::<i64>().prop_map(Value::from),
        any::<u64>().prop_map(Value::from),
        (-1000i32..1000).prop_map(|i| json!(i as f64 / 8.0 + 0.0625)),
        "[a-z\"\\\\/\u{0}-\u{1f}é日\u{1F600}]{0,6}".prop_map(Value::from),
        Just(json!("")),
        confusable(),
        confusable(),
    ];
    leaf.prop_recursive(3, 12, 4, |inner| {
        prop_oneof![
            proptest::collection::vec(inner.clone(), 0..4).prop_map(Value::from),
            proptest::collection::vec((attr_key(), inner), 0..4)
                .prop_map(|kv| Value::Object(kv.into_iter().collect())),
        ]
    })
    .boxed()
}

pub fn attr_key() -> impl Strategy<Value = String> {
    prop_oneof![
        6 => (0usize..10).prop_map(|i| ["", "a", "b", "attributes", "shape", "extensions", "é", "a b", "data_type", "\"q\\"][i].to_string()),
        1 => "[a-c\u{0}é]{0,3}".prop_map(|s| s),
    ]
}

pub fn attrs() -> impl Strategy<Value = serde_json::Map<String, Value>> {
    proptest::collection::vec((attr_key(), json_value()), 0..4).prop_map(|kv| kv.into_iter().collect())
}

/// Whether a JSON value is the same after being printed and parsed. serde_json
/// without `float_roundtrip` parses some floats one unit in the last place off
/// (known finding, see DESIGN.md).
pub fn survives_text(v: &Value) -> bool {
    serde_json::from_str::<Value>(&v.to_string()).map_or(false, |w| w == *v)
}
