//! Concrete data behind the model's abstract keys and values.
//!
//! A model key is an index 1..=N in ascending key order; a model value is a positive write id.
//! A profile fixes a schema and, for each key index, concrete key cells. All other columns are a
//! function of the write id, so any row that mixes two writes is detected on decode.

use std::sync::Arc;

use arrow_array::{
    Array, ArrayRef, BinaryArray, BooleanArray, FixedSizeBinaryArray, Float32Array, Float64Array,
    Int32Array, Int64Array, LargeBinaryArray, LargeStringArray, RecordBatch, StringArray,
    UInt32Array, UInt64Array,
};
use arrow_schema::{DataType, Field, Schema, SchemaRef};
use tonbo::db::{Expr, ScalarValue, verif::KeyOwned};
use typed_arrow_dyn::{DynCell, DynRow};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Kv {
    Bool(bool),
    I32(i32),
    I64(i64),
    U32(u32),
    U64(u64),
    F32(u32),
    F64(u64),
    S(String),
    B(Vec<u8>),
}

impl Kv {
    pub fn cell(&self) -> DynCell {
        match self {
            Kv::Bool(v) => DynCell::Bool(*v),
            Kv::I32(v) => DynCell::I32(*v),
            Kv::I64(v) => DynCell::I64(*v),
            Kv::U32(v) => DynCell::U32(*v),
            Kv::U64(v) => DynCell::U64(*v),
            Kv::F32(v) => DynCell::F32(f32::from_bits(*v)),
            Kv::F64(v) => DynCell::F64(f64::from_bits(*v)),
            Kv::S(v) => DynCell::Str(v.clone()),
            Kv::B(v) => DynCell::Bin(v.clone()),
        }
    }

    pub fn scalar(&self, dt: &DataType) -> ScalarValue {
        match (self, dt) {
            (Kv::Bool(v), _) => ScalarValue::Boolean(Some(*v)),
            (Kv::I32(v), _) => ScalarValue::Int32(Some(*v)),
            (Kv::I64(v), _) => ScalarValue::Int64(Some(*v)),
            (Kv::U32(v), _) => ScalarValue::UInt32(Some(*v)),
            (Kv::U64(v), _) => ScalarValue::UInt64(Some(*v)),
            (Kv::F32(v), _) => ScalarValue::Float32(Some(f32::from_bits(*v))),
            (Kv::F64(v), _) => ScalarValue::Float64(Some(f64::from_bits(*v))),
            (Kv::S(v), DataType::LargeUtf8) => ScalarValue::LargeUtf8(Some(v.clone())),
            (Kv::S(v), _) => ScalarValue::Utf8(Some(v.clone())),
            (Kv::B(v), DataType::LargeBinary) => ScalarValue::LargeBinary(Some(v.clone())),
            (Kv::B(v), DataType::FixedSizeBinary(w)) => {
                ScalarValue::FixedSizeBinary(*w, Some(v.clone()))
            }
            (Kv::B(v), _) => ScalarValue::Binary(Some(v.clone())),
        }
    }
}

pub fn array_of(dt: &DataType, vals: &[Option<Kv>]) -> ArrayRef {
    macro_rules! col {
        ($arr:ty, $pat:pat => $e:expr) => {
            Arc::new(
                vals.iter()
                    .map(|v| v.as_ref().map(|v| match v { $pat => $e, o => panic!("cell {o:?}") }))
                    .collect::<$arr>(),
            ) as ArrayRef
        };
    }
    match dt {
        DataType::Boolean => col!(BooleanArray, Kv::Bool(v) => *v),
        DataType::Int32 => col!(Int32Array, Kv::I32(v) => *v),
        DataType::Int64 => col!(Int64Array, Kv::I64(v) => *v),
        DataType::UInt32 => col!(UInt32Array, Kv::U32(v) => *v),
        DataType::UInt64 => col!(UInt64Array, Kv::U64(v) => *v),
        DataType::Float32 => col!(Float32Array, Kv::F32(v) => f32::from_bits(*v)),
        DataType::Float64 => col!(Float64Array, Kv::F64(v) => f64::from_bits(*v)),
        DataType::Utf8 => col!(StringArray, Kv::S(v) => v.clone()),
        DataType::LargeUtf8 => col!(LargeStringArray, Kv::S(v) => v.clone()),
        DataType::Binary => col!(BinaryArray, Kv::B(v) => v.clone()),
        DataType::LargeBinary => col!(LargeBinaryArray, Kv::B(v) => v.clone()),
        DataType::FixedSizeBinary(w) => Arc::new(
            FixedSizeBinaryArray::try_from_sparse_iter_with_size(
                vals.iter().map(|v| {
                    v.as_ref().map(|v| match v {
                        Kv::B(b) => b.clone(),
                        o => panic!("cell {o:?}"),
                    })
                }),
                *w,
            )
            .unwrap(),
        ),
        other => panic!("unsupported column type {other:?}"),
    }
}

pub fn cell_at(arr: &ArrayRef, row: usize) -> Option<Kv> {
    if arr.is_null(row) {
        return None;
    }
    let a = arr.as_any();
    macro_rules! get {
        ($t:ty, $f:expr) => {
            a.downcast_ref::<$t>().map(|x| $f(x.value(row)))
        };
    }
    match arr.data_type() {
        DataType::Boolean => get!(BooleanArray, Kv::Bool),
        DataType::Int32 => get!(Int32Array, Kv::I32),
        DataType::Int64 => get!(Int64Array, Kv::I64),
        DataType::UInt32 => get!(UInt32Array, Kv::U32),
        DataType::UInt64 => get!(UInt64Array, Kv::U64),
        DataType::Float32 => get!(Float32Array, |v: f32| Kv::F32(v.to_bits())),
        DataType::Float64 => get!(Float64Array, |v: f64| Kv::F64(v.to_bits())),
        DataType::Utf8 => get!(StringArray, |v: &str| Kv::S(v.to_string())),
        DataType::LargeUtf8 => get!(LargeStringArray, |v: &str| Kv::S(v.to_string())),
        DataType::Binary => get!(BinaryArray, |v: &[u8]| Kv::B(v.to_vec())),
        DataType::LargeBinary => get!(LargeBinaryArray, |v: &[u8]| Kv::B(v.to_vec())),
        DataType::FixedSizeBinary(_) => get!(FixedSizeBinaryArray, |v: &[u8]| Kv::B(v.to_vec())),
        other => panic!("unsupported column type {other:?}"),
    }
}

#[derive(Clone)]
pub struct Profile {
    pub name: &'static str,
    pub schema: SchemaRef,
    pub key_cols: Vec<usize>,
    /// keys[i] are the cells of model key i+1, ascending.
    pub keys: Vec<Vec<Kv>>,
    /// Payload padding in bytes for the text column.
    pub pad: usize,
    /// Concrete rows behind one model key; `keys` holds `fan` consecutive entries per model key.
    pub fan: usize,
    /// Odd write ids spell a zero key component as negative zero (the same key).
    pub zero_alias: bool,
    index: std::collections::HashMap<Vec<Kv>, usize>,
}

/// Column roles: key component or payload.
fn build(name: &'static str, key_types: Vec<DataType>, keys: Vec<Vec<Kv>>, layout: u8) -> Profile {
    let mut fields: Vec<Field> = Vec::new();
    let mut key_cols = Vec::new();
    let payload = [
        Field::new("vid", DataType::Int64, false),
        Field::new("txt", DataType::Utf8, true),
        Field::new("num", DataType::Int32, true),
        Field::new("flt", DataType::Float64, true),
        Field::new("ok", DataType::Boolean, false),
    ];
    match layout {
        // keys first
        0 => {
            for (i, t) in key_types.iter().enumerate() {
                key_cols.push(fields.len());
                fields.push(Field::new(format!("k{i}"), t.clone(), false));
            }
            fields.extend(payload);
        }
        // keys last, in reverse column order
        1 => {
            fields.extend(payload);
            let base = fields.len();
            let n = key_types.len();
            for (i, t) in key_types.iter().enumerate().rev() {
                fields.push(Field::new(format!("k{i}"), t.clone(), false));
            }
            for i in 0..n {
                key_cols.push(base + (n - 1 - i));
            }
        }
        // keys interleaved with payload
        _ => {
            let mut p = payload.into_iter();
            fields.push(p.next().unwrap());
            for (i, t) in key_types.iter().enumerate() {
                key_cols.push(fields.len());
                fields.push(Field::new(format!("k{i}"), t.clone(), false));
                if let Some(f) = p.next() {
                    fields.push(f);
                }
            }
            fields.extend(p);
        }
    }
    let mut p = Profile {
        name,
        schema: Arc::new(Schema::new(fields)),
        key_cols,
        keys,
        pad: 0,
        fan: 1,
        zero_alias: false,
        index: Default::default(),
    };
    p.reindex();
    p
}

fn s(v: &str) -> Vec<Kv> {
    vec![Kv::S(v.to_string())]
}
fn b(v: &[u8]) -> Vec<Kv> {
    vec![Kv::B(v.to_vec())]
}

/// Profiles whose key types the engine can scan (known finding K02 excludes the others).
pub const SCANNABLE: &[&str] = &[
    "utf8", "i64", "pair", "bin", "u64", "f64", "i32", "u32", "f32", "pair2", "triple", "utf8long",
];
/// Profiles with many concrete rows per model key.
pub const FANS: &[&str] = &["fan-pair", "fan-i64", "fan-utf8"];

fn nan_profile(mut p: Profile) -> Profile {
    p.zero_alias = true;
    p
}

/// Ascending order of key cells, independent of the engine's.
fn order(a: &Kv, b: &Kv) -> std::cmp::Ordering {
    match (a, b) {
        (Kv::Bool(x), Kv::Bool(y)) => x.cmp(y),
        (Kv::I32(x), Kv::I32(y)) => x.cmp(y),
        (Kv::I64(x), Kv::I64(y)) => x.cmp(y),
        (Kv::U32(x), Kv::U32(y)) => x.cmp(y),
        (Kv::U64(x), Kv::U64(y)) => x.cmp(y),
        (Kv::F32(x), Kv::F32(y)) => f32::from_bits(*x).partial_cmp(&f32::from_bits(*y)).unwrap(),
        (Kv::F64(x), Kv::F64(y)) => f64::from_bits(*x).partial_cmp(&f64::from_bits(*y)).unwrap(),
        (Kv::S(x), Kv::S(y)) => x.as_bytes().cmp(y.as_bytes()),
        (Kv::B(x), Kv::B(y)) => x.cmp(y),
        _ => panic!("cells of different types"),
    }
}

/// A random schema (one to four key components, any layout) with random keys.
pub fn random_profile(n: usize, pick: &mut dyn FnMut(u64) -> u64) -> Profile {
    let all = [
        DataType::Boolean, DataType::Int32, DataType::Int64, DataType::UInt32, DataType::UInt64,
        DataType::Float32, DataType::Float64, DataType::Utf8, DataType::Binary,
    ];
    let parts = 1 + pick(4) as usize;
    let mut types: Vec<DataType> =
        (0..parts).map(|_| all[pick(all.len() as u64) as usize].clone()).collect();
    if types.iter().all(|t| *t == DataType::Boolean) {
        types.push(DataType::Utf8);
    }
    let layout = pick(3) as u8;
    // small per-component pools make components collide, so later components decide
    let mut pools: Vec<Vec<Kv>> = types.iter().map(|t| {
        (0..3 + pick(3)).map(|_| random_cell(t, pick)).collect()
    }).collect();
    if parts == 1 {
        pools[0] = (0..4 * n).map(|_| random_cell(&types[0], pick)).collect();
    }
    let mut keys: Vec<Vec<Kv>> = Vec::new();
    let mut tries = 0;
    while keys.len() < n + 4 && tries < 1000 {
        tries += 1;
        let k: Vec<Kv> = (0..types.len())
            .map(|c| {
                if tries > 200 || pick(6) == 0 { random_cell(&types[c], pick) } else { pools[c][pick(pools[c].len() as u64) as usize].clone() }
            })
            .collect();
        if !keys.contains(&k) {
            keys.push(k);
        }
    }
    keys.sort_by(|a, b| {
        a.iter().zip(b).map(|(x, y)| order(x, y)).find(|o| o.is_ne()).unwrap_or(std::cmp::Ordering::Equal)
    });
    build("random", types, keys, layout)
}

fn random_cell(t: &DataType, pick: &mut dyn FnMut(u64) -> u64) -> Kv {
    let raw = |pick: &mut dyn FnMut(u64) -> u64| (pick(1 << 32) << 32) | pick(1 << 32);
    let small = pick(3) == 0;
    match t {
        DataType::Boolean => Kv::Bool(pick(2) == 1),
        DataType::Int32 => Kv::I32(if small { pick(7) as i32 - 3 } else { raw(pick) as i32 }),
        DataType::Int64 => Kv::I64(if small { pick(7) as i64 - 3 } else { raw(pick) as i64 }),
        DataType::UInt32 => Kv::U32(if small { pick(5) as u32 } else { raw(pick) as u32 }),
        DataType::UInt64 => Kv::U64(if small { pick(5) } else { raw(pick) }),
        DataType::Float32 => {
            let v = if small { pick(9) as f32 / 4.0 - 1.0 } else { f32::from_bits(raw(pick) as u32) };
            Kv::F32(if v.is_finite() && v != 0.0 { v } else { 0.0 }.to_bits())
        }
        DataType::Float64 => {
            let v = if small { pick(9) as f64 / 4.0 - 1.0 } else { f64::from_bits(raw(pick)) };
            Kv::F64(if v.is_finite() && v != 0.0 { v } else { 0.0 }.to_bits())
        }
        DataType::Utf8 => {
            let alphabet = ['\u{0}', ' ', 'A', 'Z', 'a', 'b', '~', '\u{7f}', '\u{80}', '\u{e9}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{1f600}'];
            let n = if small { pick(3) } else { pick(6) };
            let mut s: String = (0..n).map(|_| alphabet[pick(alphabet.len() as u64) as usize]).collect();
            if pick(8) == 0 {
                s = format!("{}{s}", "long-common-prefix-".repeat(5));
            }
            Kv::S(s)
        }
        DataType::Binary => {
            let edge = [0u8, 1, 127, 128, 254, 255];
            let n = if small { pick(3) } else { pick(7) };
            Kv::B((0..n).map(|_| edge[pick(6) as usize]).collect())
        }
        other => panic!("{other:?}"),
    }
}

pub fn profile(name: &str) -> Profile {
    match name {
        "utf8" => build(
            "utf8",
            vec![DataType::Utf8],
            ["", "\u{0}", "A", "a", "a\u{0}", "aa", "ab", "b", "z", "\u{7f}", "\u{e9}", "\u{ffff}", "\u{10000}", "\u{10FFFF}"].iter().map(|x| s(x)).collect(),
            0,
        ),
        "utf8long" => build(
            "utf8long",
            vec![DataType::Utf8],
            (0..7)
                .map(|i| s(&format!("{}{}", "prefix-shared-".repeat(12), i)))
                .collect(),
            2,
        ),
        "i64" => build(
            "i64",
            vec![DataType::Int64],
            [i64::MIN, i64::MIN + 1, -(1 << 32), -300, -1, 0, 1, 9, 10, 256, 1 << 31, 1 << 40, i64::MAX].iter().map(|x| vec![Kv::I64(*x)]).collect(),
            1,
        ),
        "i32" => build(
            "i32",
            vec![DataType::Int32],
            [i32::MIN, -70_000, -2, -1, 0, 7, 10, 255, 256, 65_536, i32::MAX].iter().map(|x| vec![Kv::I32(*x)]).collect(),
            2,
        ),
        "u32" => build(
            "u32",
            vec![DataType::UInt32],
            [0, 1, 9, 10, 255, 256, 65_536, 1 << 31, (1 << 31) + 1, u32::MAX]
                .iter()
                .map(|x| vec![Kv::U32(*x)])
                .collect(),
            0,
        ),
        "u64" => build(
            "u64",
            vec![DataType::UInt64],
            [0, 2, 9, 10, 255, 256, 1 << 32, (1 << 63) - 1, 1 << 63, u64::MAX]
                .iter()
                .map(|x| vec![Kv::U64(*x)])
                .collect(),
            0,
        ),
        "f64" => build(
            "f64",
            vec![DataType::Float64],
            [-1.7e308f64, -2.0, -1.5, -0.25, -5e-324, 0.0, 5e-324, 0.25, 1.0, 1.5e300, 1.7e308]
                .iter()
                .map(|x| vec![Kv::F64(x.to_bits())])
                .collect(),
            0,
        ),
        "f64nan" => nan_profile(build(
            "f64nan",
            vec![DataType::Float64],
            [f64::NEG_INFINITY, f64::MIN, -1.0, 0.0, f64::MIN_POSITIVE, 1.5, 1e300, f64::INFINITY, f64::NAN]
                .iter()
                .map(|x| vec![Kv::F64(x.to_bits())])
                .collect(),
            0,
        )),
        "f32nan" => nan_profile(build(
            "f32nan",
            vec![DataType::Float32, DataType::Utf8],
            [(f32::NEG_INFINITY, "a"), (-1.0, "b"), (0.0, ""), (0.0, "b"), (f32::INFINITY, ""), (f32::INFINITY, "x"), (f32::NAN, ""), (f32::NAN, "a")]
                .iter()
                .map(|(x, y)| vec![Kv::F32(x.to_bits()), Kv::S(y.to_string())])
                .collect(),
            2,
        )),
        "bool" => build(
            "bool",
            vec![DataType::Boolean],
            vec![vec![Kv::Bool(false)], vec![Kv::Bool(true)]],
            2,
        ),
        "f32" => build(
            "f32",
            vec![DataType::Float32],
            [-3.3e38f32, -2.0, -1.5, -0.25, -1e-45, 0.0, 1e-45, 0.25, 1.0, 1.5e30, 3.3e38]
                .iter()
                .map(|x| vec![Kv::F32(x.to_bits())])
                .collect(),
            1,
        ),
        "bin" => build(
            "bin",
            vec![DataType::Binary],
            [&[][..], &[0], &[0, 0], &[0, 255], &[1], &[127], &[127, 0], &[128], &[128, 1], &[255], &[255, 255]]
                .iter()
                .map(|x| b(x))
                .collect(),
            0,
        ),
        "lbin" => build(
            "lbin",
            vec![DataType::LargeBinary],
            [&[][..], &[0], &[0, 1], &[2], &[127, 255], &[128], &[255]]
                .iter()
                .map(|x| b(x))
                .collect(),
            2,
        ),
        "fsb" => build(
            "fsb",
            vec![DataType::FixedSizeBinary(3)],
            [[0, 0, 0], [0, 0, 1], [0, 1, 0], [127, 0, 0], [128, 0, 0], [255, 0, 0], [255, 255, 255]]
                .iter()
                .map(|x| b(x))
                .collect(),
            0,
        ),
        "lutf8" => build(
            "lutf8",
            vec![DataType::LargeUtf8],
            ["", "A", "Aa", "B", "a", "ab", "~"].iter().map(|x| s(x)).collect(),
            0,
        ),
        "pair" => build(
            "pair",
            vec![DataType::Utf8, DataType::Int32],
            [("", -5), ("", 5), ("a", i32::MIN), ("a", -1), ("a", 3), ("ab", -9), ("b", -2), ("b", 0), ("b", 1), ("c", i32::MIN)]
                .iter()
                .map(|(x, y)| vec![Kv::S(x.to_string()), Kv::I32(*y)])
                .collect(),
            0,
        ),
        "pair2" => build(
            "pair2",
            vec![DataType::Int64, DataType::Utf8],
            [(i64::MIN, "z"), (-5, ""), (-5, "z"), (-5, "zz"), (0, ""), (0, "a"), (1, ""), (1, "b"), (7, "a"), (i64::MAX, "")]
                .iter()
                .map(|(x, y)| vec![Kv::I64(*x), Kv::S(y.to_string())])
                .collect(),
            1,
        ),
        "triple" => build(
            "triple",
            vec![DataType::Boolean, DataType::UInt64, DataType::Binary],
            [
                (false, 0, &[][..]),
                (false, 0, &[0]),
                (false, 9, &[]),
                (true, 0, &[255]),
                (true, 9, &[1]),
                (true, 9, &[1, 0]),
                (true, u64::MAX, &[]),
            ]
            .iter()
            .map(|(x, y, z)| vec![Kv::Bool(*x), Kv::U64(*y), Kv::B(z.to_vec())])
            .collect(),
            2,
        ),
        "fan-i64" => fan("fan-i64", vec![DataType::Int64], 400, 1, |i| vec![Kv::I64(i * 3 - 2000)]),
        "fan-utf8" => fan("fan-utf8", vec![DataType::Utf8], 700, 0, |i| {
            vec![Kv::S(format!("key-{i:06}{}", "p".repeat((i % 7) as usize)))]
        }),
        "fan-pair" => fan("fan-pair", vec![DataType::Utf8, DataType::Int32], 150, 2, |i| {
            vec![Kv::S(format!("g{:03}", i / 60)), Kv::I32((i % 60) as i32 - 30)]
        }),
        other => panic!("unknown profile {other}"),
    }
}

fn fan(
    name: &'static str,
    types: Vec<DataType>,
    fan: usize,
    layout: u8,
    key: impl Fn(i64) -> Vec<Kv>,
) -> Profile {
    let mut p = build(name, types, (0..(7 * fan) as i64).map(key).collect(), layout);
    p.fan = fan;
    p
}

impl Profile {
    fn reindex(&mut self) {
        self.index = self.keys.iter().cloned().enumerate().map(|(i, k)| (k, i)).collect();
    }

    /// Number of model keys available.
    pub fn nk(&self) -> usize {
        self.keys.len() / self.fan
    }

    /// Keep `n` of the model keys, chosen by `pick` (a source of random numbers), in order.
    pub fn select(&mut self, n: usize, mut pick: impl FnMut(u64) -> u64) {
        if self.fan > 1 {
            self.keys.truncate(n * self.fan);
        }
        while self.keys.len() > n * self.fan {
            let i = pick(self.keys.len() as u64) as usize;
            self.keys.remove(i);
        }
        self.reindex();
    }

    pub fn key_cells(&self, k: usize) -> &[Kv] {
        &self.keys[(k - 1) * self.fan]
    }

    pub fn expand(&self, rows: &[(usize, i64)]) -> Vec<(usize, i64)> {
        rows.iter()
            .flat_map(|(k, v)| ((k - 1) * self.fan..k * self.fan).map(move |i| (i, *v)))
            .collect()
    }

    pub fn key_owned(&self, k: usize) -> KeyOwned {
        self.owned((k - 1) * self.fan)
    }

    pub fn keys_owned(&self, k: usize) -> Vec<KeyOwned> {
        ((k - 1) * self.fan..k * self.fan).map(|i| self.owned(i)).collect()
    }

    fn owned(&self, i: usize) -> KeyOwned {
        let parts: Vec<KeyOwned> = self.keys[i]
            .iter()
            .map(|c| match c {
                Kv::Bool(v) => KeyOwned::from(*v),
                Kv::I32(v) => KeyOwned::from(*v),
                Kv::I64(v) => KeyOwned::from(*v),
                Kv::U32(v) => KeyOwned::from(*v),
                Kv::U64(v) => KeyOwned::from(*v),
                Kv::F32(v) => KeyOwned::from(f32::from_bits(*v)),
                Kv::F64(v) => KeyOwned::from(f64::from_bits(*v)),
                Kv::S(v) => KeyOwned::from(v.as_str()),
                Kv::B(v) => KeyOwned::from(v.as_slice()),
            })
            .collect();
        if parts.len() == 1 { parts.into_iter().next().unwrap() } else { KeyOwned::tuple(parts) }
    }

    /// The cell of column `name` for write `vid` (payload columns only).
    pub fn payload(&self, name: &str, vid: i64) -> Option<Kv> {
        match name {
            "vid" => Some(Kv::I64(vid)),
            "txt" => {
                if vid % 4 == 0 {
                    None
                } else {
                    Some(Kv::S(format!("v{vid}{}", "x".repeat(self.pad))))
                }
            }
            "num" => {
                if vid % 5 == 0 { None } else { Some(Kv::I32((vid * 7 - 3) as i32)) }
            }
            "flt" => {
                if vid % 3 == 0 { None } else { Some(Kv::F64((vid as f64 / 8.0 - 1.0).to_bits())) }
            }
            "ok" => Some(Kv::Bool(vid % 2 == 0)),
            other => panic!("column {other}"),
        }
    }

    /// Cell of column `col` for concrete key number `i`.
    pub fn cell(&self, col: usize, i: usize, vid: i64) -> Option<Kv> {
        if let Some(p) = self.key_cols.iter().position(|c| *c == col) {
            return Some(match &self.keys[i][p] {
                Kv::F32(0) if self.zero_alias && vid % 2 == 1 => Kv::F32((-0.0f32).to_bits()),
                Kv::F64(0) if self.zero_alias && vid % 2 == 1 => Kv::F64((-0.0f64).to_bits()),
                c => c.clone(),
            });
        }
        self.payload(self.schema.field(col).name(), vid)
    }

    pub fn batch(&self, rows: &[(usize, i64)]) -> RecordBatch {
        let rows = self.expand(rows);
        let cols = (0..self.schema.fields().len())
            .map(|c| {
                let vals: Vec<_> = rows.iter().map(|(k, v)| self.cell(c, *k, *v)).collect();
                array_of(self.schema.field(c).data_type(), &vals)
            })
            .collect();
        RecordBatch::try_new(self.schema.clone(), cols).unwrap()
    }

    pub fn dyn_row(&self, k: usize, vid: i64) -> DynRow {
        DynRow(
            (0..self.schema.fields().len())
                .map(|c| self.cell(c, (k - 1) * self.fan, vid).map(|v| v.cell()))
                .collect(),
        )
    }

    /// The same table with key columns that the schema lets be null (the engine must not).
    pub fn nullable_keys(&mut self) {
        let fields: Vec<Field> = self
            .schema
            .fields()
            .iter()
            .enumerate()
            .map(|(i, f)| {
                let f = f.as_ref().clone();
                if self.key_cols.contains(&i) { f.with_nullable(true) } else { f }
            })
            .collect();
        self.schema = Arc::new(Schema::new(fields));
    }

    /// Decode full rows into (key index, write id), checking every column.
    pub fn decode(&self, batches: &[RecordBatch]) -> Result<Vec<(usize, i64)>, String> {
        let mut out = Vec::new();
        for batch in batches {
            if batch.schema().fields() != self.schema.fields() {
                return Err(format!("result schema {:?}", batch.schema()));
            }
            for row in 0..batch.num_rows() {
                let key: Vec<Option<Kv>> =
                    self.key_cols.iter().map(|c| cell_at(batch.column(*c), row)).collect();
                let k = key
                    .iter()
                    .cloned()
                    .collect::<Option<Vec<Kv>>>()
                    .map(|cells| cells.into_iter().map(unsigned_zero).collect::<Vec<Kv>>())
                    .and_then(|cells| self.index.get(&cells).copied())
                    .ok_or_else(|| format!("row with unknown key {key:?}"))?;
                let vidc = self.schema.index_of("vid").unwrap();
                let vid = match cell_at(batch.column(vidc), row) {
                    Some(Kv::I64(v)) => v,
                    o => return Err(format!("row for key {k} has vid {o:?}")),
                };
                for c in 0..self.schema.fields().len() {
                    if self.key_cols.contains(&c) {
                        continue;
                    }
                    let name = self.schema.field(c).name();
                    let got = cell_at(batch.column(c), row);
                    let want = self.payload(name, vid);
                    if got != want {
                        return Err(format!(
                            "row key {k} vid {vid}: column {name} is {got:?}, written {want:?}"
                        ));
                    }
                }
                out.push((k, vid));
            }
        }
        self.collapse(&out)
    }

    /// Concrete rows to model rows: every model key shows all its rows, in order, from one write.
    pub fn collapse(&self, rows: &[(usize, i64)]) -> Result<Vec<(usize, i64)>, String> {
        if self.fan == 1 {
            return Ok(rows.iter().map(|(i, v)| (i + 1, *v)).collect());
        }
        let mut out = Vec::new();
        let mut at = 0;
        while at < rows.len() {
            let (i, v) = rows[at];
            let whole = i % self.fan == 0
                && rows.len() >= at + self.fan
                && (0..self.fan).all(|j| rows[at + j] == (i + j, v));
            if !whole {
                let got: Vec<_> = rows[at..].iter().take(4).collect();
                return Err(format!(
                    "rows of key group {} (fan {}) incomplete, mixed or out of order at result row {at}: {got:?}",
                    i / self.fan + 1,
                    self.fan
                ));
            }
            out.push((i / self.fan + 1, v));
            at += self.fan;
        }
        Ok(out)
    }

    /// Check a stored row in cell form.
    pub fn decode_dyn(&self, k: usize, row: &DynRow) -> Result<i64, String> {
        let vidc = self.schema.index_of("vid").unwrap();
        let vid = match row.0.get(vidc) {
            Some(Some(DynCell::I64(v))) => *v,
            o => return Err(format!("row for key {k} has vid {o:?}")),
        };
        let want = self.dyn_row(k, vid);
        let a = format!("{:?}", norm(&row.0));
        let b = format!("{:?}", norm(&want.0));
        if a != b {
            return Err(format!("row key {k} vid {vid}: cells {a}, written {b}"));
        }
        Ok(vid)
    }

    pub fn key_field(&self, comp: usize) -> &Field {
        self.schema.field(self.key_cols[comp])
    }

    pub fn key_scalar(&self, comp: usize, k: usize) -> ScalarValue {
        self.key_cells(k)[comp].scalar(self.key_field(comp).data_type())
    }

    /// key == model key k, as a predicate over all components.
    pub fn key_eq(&self, k: usize) -> Expr {
        let mut parts: Vec<Expr> = (0..self.key_cols.len())
            .map(|c| Expr::eq(self.key_field(c).name().as_str(), self.key_scalar(c, k)))
            .collect();
        if parts.len() == 1 { parts.pop().unwrap() } else { Expr::And(parts) }
    }
}

fn unsigned_zero(c: Kv) -> Kv {
    match c {
        Kv::F32(b) if b == (-0.0f32).to_bits() => Kv::F32(0),
        Kv::F64(b) if b == (-0.0f64).to_bits() => Kv::F64(0),
        c => c,
    }
}

fn norm(cells: &[Option<DynCell>]) -> Vec<Option<String>> {
    cells
        .iter()
        .map(|c| match c {
            None | Some(DynCell::Null) => None,
            Some(DynCell::Bool(v)) => Some(format!("{v}")),
            Some(DynCell::I32(v)) => Some(format!("{v}")),
            Some(DynCell::I64(v)) => Some(format!("{v}")),
            Some(DynCell::U32(v)) => Some(format!("{v}")),
            Some(DynCell::U64(v)) => Some(format!("{v}")),
            Some(DynCell::F32(v)) => Some(format!("{:x}", v.to_bits())),
            Some(DynCell::F64(v)) => Some(format!("{:x}", v.to_bits())),
            Some(DynCell::Str(v)) => Some(format!("{v:?}")),
            Some(DynCell::Bin(v)) => Some(format!("{v:?}")),
            _ => Some("?".into()),
        })
        .collect()
}
