//! Filtered, projected and limited reads: predicates of the specification as engine expressions.

use std::sync::Arc;

use arrow_schema::Schema;
use serde_json::Value;
use aisle::CmpOp;
use tonbo::db::{Expr, ScalarValue};

use crate::{
    driver::{Fail, Inst, Res, err},
    profile::{Kv, Profile, cell_at},
    replay::{Rng, rows_of},
};

/// A literal of the same value and a wider numeric type.
fn widen(s: ScalarValue) -> ScalarValue {
    match s {
        ScalarValue::Int32(v) => ScalarValue::Int64(v.map(i64::from)),
        ScalarValue::UInt32(v) => ScalarValue::UInt64(v.map(u64::from)),
        ScalarValue::Float32(v) => ScalarValue::Float64(v.map(f64::from)),
        s => s,
    }
}

struct Tr<'a> {
    p: &'a Profile,
    rng: &'a mut Rng,
    widen: bool,
}

fn op_of(s: &str) -> CmpOp {
    match s {
        "=" => CmpOp::Eq,
        "!=" => CmpOp::NotEq,
        "<" => CmpOp::Lt,
        "<=" => CmpOp::LtEq,
        ">" => CmpOp::Gt,
        ">=" => CmpOp::GtEq,
        o => panic!("operator {o}"),
    }
}

impl Tr<'_> {
    fn lit(&mut self, s: ScalarValue) -> ScalarValue {
        if self.widen && self.rng.chance(1, 2) { widen(s) } else { s }
    }

    fn cmp(&mut self, col: &str, op: CmpOp, v: ScalarValue) -> Expr {
        let v = self.lit(v);
        mkcmp(col, op, v)
    }

    fn comps(&self) -> usize {
        self.p.key_cols.len()
    }

    /// One key component against the same component of concrete key `i`.
    fn comp(&mut self, c: usize, op: CmpOp, i: usize) -> Expr {
        let f = self.p.key_field(c).clone();
        let s = self.p.keys[i][c].scalar(f.data_type());
        self.cmp(f.name(), op, s)
    }

    /// Lexicographic comparison of the whole key with concrete key `i`.
    fn key_cmp(&mut self, op: CmpOp, i: usize) -> Expr {
        let n = self.comps();
        if n == 1 {
            return self.comp(0, op, i);
        }
        match op {
            CmpOp::Eq => Expr::And((0..n).map(|c| self.comp(c, CmpOp::Eq, i)).collect()),
            CmpOp::NotEq => Expr::Or((0..n).map(|c| self.comp(c, CmpOp::NotEq, i)).collect()),
            _ => {
                let strict = match op {
                    CmpOp::Lt | CmpOp::LtEq => CmpOp::Lt,
                    _ => CmpOp::Gt,
                };
                let alts = (0..n)
                    .map(|c| {
                        let mut parts: Vec<Expr> =
                            (0..c).map(|j| self.comp(j, CmpOp::Eq, i)).collect();
                        let last = c + 1 == n;
                        parts.push(self.comp(c, if last { op } else { strict }, i));
                        if parts.len() == 1 { parts.pop().unwrap() } else { Expr::And(parts) }
                    })
                    .collect();
                Expr::Or(alts)
            }
        }
    }

    /// Comparison with model key k (a group of `fan` concrete keys).
    fn key(&mut self, op: CmpOp, k: usize) -> Expr {
        let (lo, hi) = ((k - 1) * self.p.fan, k * self.p.fan - 1);
        match op {
            CmpOp::Lt | CmpOp::GtEq => self.key_cmp(op, lo),
            CmpOp::LtEq | CmpOp::Gt => self.key_cmp(op, hi),
            _ if lo == hi => self.key_cmp(op, lo),
            CmpOp::Eq => Expr::And(vec![self.key_cmp(CmpOp::GtEq, lo), self.key_cmp(CmpOp::LtEq, hi)]),
            _ => Expr::Or(vec![self.key_cmp(CmpOp::Lt, lo), self.key_cmp(CmpOp::Gt, hi)]),
        }
    }

    /// A string prefix selecting exactly the concrete keys lo..=hi, if there is one.
    fn prefix(&mut self, lo: usize, hi: usize) -> Option<String> {
        if self.comps() != 1 {
            return None;
        }
        let strs: Option<Vec<&String>> = self
            .p
            .keys
            .iter()
            .map(|k| match &k[0] {
                Kv::S(s) => Some(s),
                _ => None,
            })
            .collect();
        let strs = strs?;
        let mut cands = Vec::new();
        for n in 0..=strs[lo].len() {
            if !strs[lo].is_char_boundary(n) {
                continue;
            }
            let p = &strs[lo][..n];
            let sel: Vec<usize> = (0..strs.len()).filter(|i| strs[*i].starts_with(p)).collect();
            if sel == (lo..=hi).collect::<Vec<_>>() {
                cands.push(p.to_string());
            }
        }
        if cands.is_empty() {
            return None;
        }
        let i = self.rng.below(cands.len() as u64) as usize;
        Some(cands.swap_remove(i))
    }

    fn key_range(&mut self, incl: bool, a: usize, b: usize) -> Expr {
        let fan = self.p.fan;
        let (lo, hi) = if incl { ((a - 1) * fan, b * fan - 1) } else { (a * fan - 1, (b - 1) * fan) };
        if incl && a <= b && self.rng.chance(1, 2) && let Some(p) = self.prefix(lo, hi) {
            return Expr::StartsWith { column: self.p.key_field(0).name().clone(), prefix: p };
        }
        if self.comps() == 1 {
            let f = self.p.key_field(0).clone();
            let low = self.p.keys[lo][0].scalar(f.data_type());
            let high = self.p.keys[hi][0].scalar(f.data_type());
            let (low, high) = (self.lit(low), self.lit(high));
            return Expr::between(f.name().as_str(), low, high, incl);
        }
        let (l, h) = if incl { (CmpOp::GtEq, CmpOp::LtEq) } else { (CmpOp::Gt, CmpOp::Lt) };
        Expr::And(vec![self.key_cmp(l, lo), self.key_cmp(h, hi)])
    }

    fn val(&self, c: &str, v: i64) -> ScalarValue {
        match c {
            "vid" => ScalarValue::Int64(Some(v)),
            "num" => ScalarValue::Int32(Some((v * 7 - 3) as i32)),
            "flt" => ScalarValue::Float64(Some(v as f64 / 8.0 - 1.0)),
            "txt" => ScalarValue::Utf8(Some(format!("v{v}{}", "x".repeat(self.p.pad)))),
            o => panic!("column {o}"),
        }
    }

    fn go(&mut self, p: &Value) -> Expr {
        let (t, c, op) = (p["t"].as_str().unwrap(), p["c"].as_str().unwrap(), p["op"].as_str().unwrap());
        let (a, b) = (p["a"].as_i64().unwrap(), p["b"].as_i64().unwrap());
        let s: Vec<i64> = p["s"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
        let kids = p["kids"].as_array().unwrap();
        match t {
            "true" => Expr::True,
            "false" => Expr::False,
            "key" => self.key(op_of(op), a as usize),
            "keyrange" => self.key_range(op == "[]", a as usize, b as usize),
            "keyin" => {
                if self.comps() == 1 && self.p.fan == 1 {
                    let f = self.p.key_field(0).clone();
                    let vals = s
                        .iter()
                        .map(|k| {
                            let v = self.p.keys[*k as usize - 1][0].scalar(f.data_type());
                            self.lit(v)
                        })
                        .collect();
                    Expr::in_list(f.name().as_str(), vals)
                } else {
                    Expr::Or(s.iter().map(|k| self.key(CmpOp::Eq, *k as usize)).collect())
                }
            }
            "val" => {
                let v = self.val(c, a);
                self.cmp(c, op_of(op), v)
            }
            "valrange" => {
                let (l, h) = (self.val(c, a), self.val(c, b));
                let (l, h) = (self.lit(l), self.lit(h));
                Expr::between(c, l, h, op == "[]")
            }
            "valin" => {
                let vals = s
                    .iter()
                    .map(|v| {
                        let v = self.val(c, *v);
                        self.lit(v)
                    })
                    .collect();
                Expr::in_list(c, vals)
            }
            "prefix" => Expr::StartsWith { column: "txt".into(), prefix: format!("v{a}") },
            "ok" => mkcmp("ok", CmpOp::Eq, ScalarValue::Boolean(Some(a == 1))),
            "null" => Expr::IsNull { column: c.into(), negated: a == 0 },
            "nullcmp" => {
                let none = if c == "vid" { ScalarValue::Int64(None) } else { ScalarValue::Int32(None) };
                mkcmp(c, op_of(op), none)
            }
            "not" => Expr::Not(Box::new(self.go(&kids[0]))),
            "and" => Expr::And(kids.iter().map(|k| self.go(k)).collect()),
            "or" => Expr::Or(kids.iter().map(|k| self.go(k)).collect()),
            o => panic!("predicate {o}"),
        }
    }
}

/// Run the queries of a step and compare their rows with the specification.
pub fn queries(inst: &Inst, step: &Value, rng: &mut Rng) -> Res<u64> {
    let mut n = 0;
    for q in step["qs"].as_array().into_iter().flatten() {
        query(inst, q, rng)?;
        n += 1;
    }
    Ok(n)
}

fn query(inst: &Inst, q: &Value, rng: &mut Rng) -> Res<()> {
    let p = &inst.profile;
    let widen = rng.chance(1, 4);
    let expr = Tr { p, rng: &mut *rng, widen }.go(&q["p"]);
    let limit = q["lim"].as_i64().filter(|l| *l >= 0).map(|l| l as usize * p.fan);
    let ncols = p.schema.fields().len();
    let cols: Vec<usize> = match rng.below(4) {
        0 | 1 => (0..ncols).collect(),
        2 => (0..ncols).filter(|_| rng.chance(1, 2)).collect(),
        _ => {
            let mut c: Vec<usize> = (0..ncols).filter(|_| rng.chance(1, 2)).collect();
            for i in (1..c.len()).rev() {
                c.swap(i, rng.below(i as u64 + 1) as usize);
            }
            c
        }
    };
    let cols = if cols.is_empty() { vec![rng.below(ncols as u64) as usize] } else { cols };
    let whole = cols.len() == ncols && cols.windows(2).all(|w| w[0] < w[1]);
    let proj = (!whole || rng.chance(1, 2)).then(|| {
        Arc::new(Schema::new(cols.iter().map(|c| p.schema.field(*c).clone()).collect::<Vec<_>>()))
    });
    let id = q["id"].as_u64().unwrap_or(0);
    let on = q["on"].as_str().unwrap();
    macro_rules! run {
        ($b:expr) => {{
            let mut b = $b.filter(expr.clone());
            if let Some(l) = limit {
                b = b.limit(l);
            }
            if let Some(s) = &proj {
                b = b.projection(s.clone());
            }
            inst.run("query", b.collect())?.map_err(err("query"))
        }};
    }
    let what = || {
        format!(
            "query on {on} {id} filter {expr:?} limit {limit:?} columns {:?}",
            cols.iter().map(|c| p.schema.field(*c).name().as_str()).collect::<Vec<_>>()
        )
    };
    let res = match on {
        "db" => run!(inst.db().scan()),
        "snap" => run!(inst.snaps[&id].scan(inst.db())),
        _ => run!(inst.txns[&id].scan()),
    };
    let batches = res.map_err(|f: Fail| f.context(&what()))?;
    let want: Vec<Vec<Option<Kv>>> = p
        .expand(&rows_of(&q["rows"]))
        .into_iter()
        .map(|(i, v)| cols.iter().map(|c| p.cell(*c, i, v)).collect())
        .collect();
    let mut got = Vec::new();
    for b in &batches {
        let names: Vec<&String> = b.schema_ref().fields().iter().map(|f| f.name()).collect();
        if names != cols.iter().map(|c| p.schema.field(*c).name()).collect::<Vec<_>>() {
            return Err(Fail::Mismatch(format!("{}: result columns {names:?}", what())));
        }
        for r in 0..b.num_rows() {
            got.push((0..cols.len()).map(|c| cell_at(b.column(c), r)).collect::<Vec<_>>());
        }
    }
    if got != want {
        let show = |x: &Vec<Vec<Option<Kv>>>| format!("{:?}", x.iter().take(6).collect::<Vec<_>>());
        return Err(Fail::Mismatch(format!(
            "{}: engine returned {} rows {}, specification requires {} rows {}",
            what(), got.len(), show(&got), want.len(), show(&want)
        )));
    }
    Ok(())
}

fn mkcmp(col: &str, op: CmpOp, value: ScalarValue) -> Expr {
    Expr::Cmp { column: col.to_string(), op, value }
}
