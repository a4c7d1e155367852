//! Replays the cases of Models.tla on derived models, against a server in memory.
mod db;
mod run;
mod sql;

use {
    chrono::{Duration, NaiveDate, NaiveDateTime},
    db::{Backend, ColDef, DbOpts, DbStream, Reply},
    mysql_connector::{
        macros::*,
        model::*,
        types::{AuthPlugin, Hex, Value},
        Connection, ConnectionOptions,
    },
    serde_json::Value as J,
    sql::{Stmt, Val},
    std::{
        collections::HashMap,
        sync::{Arc, Mutex},
    },
};

/// A value that differs from any other of its type, as far as the type has so many.
trait Gen: Sized {
    fn gen(key: &str) -> Self;
    fn value(&self) -> Value;
}

fn hash(key: &str) -> u64 {
    let mut h = key.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
    h ^= h >> 29;
    h = h.wrapping_mul(0xbf58476d1ce4e5b9);
    h ^ (h >> 32)
}

macro_rules! gen_int {
    ($($t:ty => $v:ident),*) => { $(impl Gen for $t {
        fn gen(key: &str) -> Self { hash(key) as $t }
        fn value(&self) -> Value { Value::$v(*self) }
    })* };
}
gen_int!(i8 => Tiny, i16 => Short, i32 => Int, i64 => Long, u8 => UTiny, u16 => UShort, u32 => UInt, u64 => ULong);

impl Gen for f32 {
    fn gen(key: &str) -> Self {
        (hash(key) % 16_000_000) as f32 / 16.0 - 300_000.0
    }
    fn value(&self) -> Value {
        Value::Float(*self)
    }
}
impl Gen for f64 {
    fn gen(key: &str) -> Self {
        (hash(key) % (1 << 50)) as f64 / 64.0 - 1e9
    }
    fn value(&self) -> Value {
        Value::Double(*self)
    }
}
impl Gen for bool {
    fn gen(key: &str) -> Self {
        hash(key) % 2 == 1
    }
    fn value(&self) -> Value {
        Value::Tiny(*self as i8)
    }
}
impl Gen for String {
    fn gen(key: &str) -> Self {
        format!("{key} {:x}", hash(key))
    }
    fn value(&self) -> Value {
        Value::Bytes(self.clone().into_bytes())
    }
}
impl Gen for Vec<u8> {
    fn gen(key: &str) -> Self {
        hash(key).to_le_bytes()[..(hash(key) % 9) as usize].to_vec()
    }
    fn value(&self) -> Value {
        Value::Bytes(self.clone())
    }
}
impl Gen for Hex {
    fn gen(key: &str) -> Self {
        Hex::new(<Vec<u8>>::gen(key))
    }
    fn value(&self) -> Value {
        Value::Bytes(self.to_vec())
    }
}
impl Gen for NaiveDate {
    fn gen(key: &str) -> Self {
        NaiveDate::from_num_days_from_ce_opt(1 + (hash(key) % 3_600_000) as i32).unwrap()
    }
    fn value(&self) -> Value {
        use chrono::Datelike;
        Value::Date(self.year() as u16, self.month() as u8, self.day() as u8)
    }
}
impl Gen for NaiveDateTime {
    fn gen(key: &str) -> Self {
        let s = (hash(key) >> 20) as u32;
        let us = if s % 3 == 0 { 0 } else { s % 1_000_000 };
        NaiveDate::gen(key).and_hms_micro_opt(s % 24, s % 59, s % 58, us).unwrap()
    }
    fn value(&self) -> Value {
        use chrono::{Datelike, Timelike};
        Value::Datetime(self.year() as u16, self.month() as u8, self.day() as u8, self.hour() as u8, self.minute() as u8, self.second() as u8, self.nanosecond() / 1000)
    }
}
impl Gen for Duration {
    fn gen(key: &str) -> Self {
        let us = (hash(key) % (2 * 838 * 3600 * 1_000_000)) as i64 - 838 * 3600 * 1_000_000;
        Duration::microseconds(if hash(key) % 3 == 0 { us / 1_000_000 * 1_000_000 } else { us })
    }
    fn value(&self) -> Value {
        let us = self.num_microseconds().unwrap();
        let a = us.unsigned_abs();
        Value::Time(us < 0, (a / 86_400_000_000) as u32, (a / 3_600_000_000 % 24) as u8, (a / 60_000_000 % 60) as u8, (a / 1_000_000 % 60) as u8, (a % 1_000_000) as u32)
    }
}
impl<T: Gen> Gen for Option<T> {
    fn gen(key: &str) -> Self {
        if hash(key) % 3 == 0 {
            None
        } else {
            Some(T::gen(key))
        }
    }
    fn value(&self) -> Value {
        match self {
            None => Value::Null,
            Some(x) => x.value(),
        }
    }
}

/// As the server prints it.
fn print(v: &Value) -> (u8, u16, Option<Vec<u8>>) {
    let frac = |us: u32| if us == 0 { String::new() } else { format!(".{us:06}") };
    let (ty, flags, s) = match v {
        Value::Null => return (db::T_STRING, 0, None),
        Value::Tiny(x) => (1, 0, x.to_string()),
        Value::Short(x) => (2, 0, x.to_string()),
        Value::Int(x) => (3, 0, x.to_string()),
        Value::Long(x) => (8, 0, x.to_string()),
        Value::UTiny(x) => (1, 32, x.to_string()),
        Value::UShort(x) => (2, 32, x.to_string()),
        Value::UInt(x) => (3, 32, x.to_string()),
        Value::ULong(x) => (8, 32, x.to_string()),
        Value::Float(x) => (4, 0, x.to_string()),
        Value::Double(x) => (5, 0, x.to_string()),
        Value::Bytes(x) => return (db::T_STRING, 0, Some(x.clone())),
        Value::Date(y, m, d) => (10, 0, format!("{y:04}-{m:02}-{d:02}")),
        Value::Datetime(y, mo, d, h, m, s, us) => (12, 0, format!("{y:04}-{mo:02}-{d:02} {h:02}:{m:02}:{s:02}{}", frac(*us))),
        Value::Time(neg, d, h, m, s, us) => (11, 0, format!("{}{:02}:{m:02}:{s:02}{}", if *neg { "-" } else { "" }, d * 24 + *h as u32, frac(*us))),
    };
    (ty, flags, Some(s.into_bytes()))
}

fn val(v: &Value) -> Val {
    match v {
        Value::Null => Val::Null,
        Value::Tiny(x) => Val::Int(*x as i128),
        Value::Short(x) => Val::Int(*x as i128),
        Value::Int(x) => Val::Int(*x as i128),
        Value::Long(x) => Val::Int(*x as i128),
        Value::UTiny(x) => Val::Int(*x as i128),
        Value::UShort(x) => Val::Int(*x as i128),
        Value::UInt(x) => Val::Int(*x as i128),
        Value::ULong(x) => Val::Int(*x as i128),
        Value::Float(x) => Val::F32(x.to_bits()),
        Value::Double(x) => Val::F64(x.to_bits()),
        Value::Bytes(x) => Val::Bytes(x.clone()),
        Value::Date(y, m, d) => Val::Date(*y, *m, *d),
        Value::Datetime(y, mo, d, h, m, s, us) => Val::Datetime(*y, *mo, *d, *h, *m, *s, *us),
        Value::Time(neg, d, h, m, s, us) => {
            let t = (((*d as i64 * 24 + *h as i64) * 60 + *m as i64) * 60 + *s as i64) * 1_000_000 + *us as i64;
            Val::Time(if *neg { -t } else { t })
        }
    }
}

/// The same value?
fn same(a: &Val, b: &Val) -> bool {
    a == b
        || match (a, b) {
            (Val::F32(x), Val::F64(y)) | (Val::F64(y), Val::F32(x)) => f32::from_bits(*x) as f64 == f64::from_bits(*y),
            _ => false,
        }
}

include!("records.in");

type Pair = inner::Pair;
type Cols = HashMap<(String, String), Value>;

trait Glue: Model + FromQueryResult + IntoQuery {
    /// A record whose fields are the values of their paths.
    fn full(pre: &str, path: &str) -> Self;
    /// The columns of such a record.
    fn cols(pre: &str, path: &str, out: &mut Cols);
    /// The values that fields are set to.
    fn sets(path: &str, out: &mut Cols);
    fn active(t: &J, path: &str) -> Self::ActiveModel;
    fn key(key: &str) -> (Self::Primary, Value);
    fn assign(a: &mut Self::ActiveModel, t: &J, path: &str);
}

/// Set for an optional field means: to something.
trait SetTo: Sized {
    fn set_to(key: &str) -> Self;
    fn null() -> Self {
        panic!("HARNESS: null")
    }
}
macro_rules! set_to {
    ($($t:ty),*) => { $(
        impl SetTo for $t { fn set_to(key: &str) -> Self { <$t>::gen(key) } }
        impl SetTo for Option<$t> { fn set_to(key: &str) -> Self { Some(<$t>::gen(key)) } fn null() -> Self { None } }
    )* };
}
set_to!(i8, i16, i32, i64, u8, u16, u32, u64, f32, f64, bool, String, Vec<u8>, NaiveDate, NaiveDateTime, Duration, Hex);

fn active<T: SetTo>(j: &J, key: &str) -> ActiveValue<T> {
    match j.as_str() {
        Some("set") => ActiveValue::Set(T::set_to(key)),
        Some("null") => ActiveValue::Set(T::null()),
        Some("unset") => ActiveValue::Unset,
        x => panic!("HARNESS: state {x:?}"),
    }
}

/// The name without the sign that it is not meant as a keyword.
fn nm(s: &str) -> String {
    s.strip_prefix("r#").unwrap_or(s).into()
}

macro_rules! glue {
    ($m:ident, $pk:ty, [$($f:ident: $ft:ty),*], [$($g:ident: $gt:ident { $($gf:ident: $gft:ty = $ga:ident),* }),*], [$($r:ident: $rt:ident),*]) => {
        impl Glue for $m {
            fn full(pre: &str, path: &str) -> Self {
                Self {
                    $($f: <$ft>::gen(&format!("{pre}{path}/{}", nm(stringify!($f)))),)*
                    $($g: $gt { $($gf: <$gft>::gen(&format!("{pre}{path}/{}_{}", nm(stringify!($g)), nm(stringify!($ga)))),)* },)*
                    $($r: <$rt>::full(pre, &format!("{path}.{}", nm(stringify!($r)))),)*
                }
            }
            #[allow(unused)]
            fn cols(pre: &str, path: &str, out: &mut Cols) {
                $(out.insert((path.into(), nm(stringify!($f))), <$ft>::gen(&format!("{pre}{path}/{}", nm(stringify!($f)))).value());)*
                $($(out.insert((path.into(), format!("{}_{}", nm(stringify!($g)), nm(stringify!($ga)))), <$gft>::gen(&format!("{pre}{path}/{}_{}", nm(stringify!($g)), nm(stringify!($ga)))).value());)*)*
                $(<$rt>::cols(pre, &format!("{path}.{}", nm(stringify!($r))), out);)*
            }
            #[allow(unused)]
            fn sets(path: &str, out: &mut Cols) {
                $(out.insert((path.into(), nm(stringify!($f))), <$ft as SetTo>::set_to(&format!("{path}/{}", nm(stringify!($f)))).value());)*
                $($(out.insert((path.into(), format!("{}_{}", nm(stringify!($g)), nm(stringify!($ga)))), <$gft>::gen(&format!("{path}/{}_{}", nm(stringify!($g)), nm(stringify!($ga)))).value());)*)*
                $(out.insert((path.into(), nm(stringify!($r))), <$rt>::key(&format!("{path}/{}", nm(stringify!($r)))).1);)*
                $(<$rt>::sets(&format!("{path}.{}", nm(stringify!($r))), out);)*
            }
            fn active(t: &J, path: &str) -> Self::ActiveModel {
                let mut a = Self::active_model();
                Self::assign(&mut a, t, path);
                a
            }
            fn assign(a: &mut Self::ActiveModel, t: &J, path: &str) {
                $(a.$f = active(&t["f"][&nm(stringify!($f))], &format!("{path}/{}", nm(stringify!($f))));)*
                $(a.$g = match t["g"][&nm(stringify!($g))].as_str() {
                    Some("set") => ActiveValue::Set($gt { $($gf: <$gft>::gen(&format!("{path}/{}_{}", nm(stringify!($g)), nm(stringify!($ga)))),)* }),
                    _ => ActiveValue::Unset,
                };)*
                $(a.$r = {
                    let c = &t["r"][&nm(stringify!($r))];
                    match c["k"].as_str() {
                        Some("set") => ActiveReference::Set(<$rt>::key(&format!("{path}/{}", nm(stringify!($r)))).0),
                        Some("insert") => ActiveReference::Insert(<$rt>::active(&c["t"][0], &format!("{path}.{}", nm(stringify!($r))))),
                        Some("unset") => ActiveReference::Unset,
                        x => panic!("HARNESS: reference {x:?}"),
                    }
                };)*
            }
            fn key(key: &str) -> (Self::Primary, Value) {
                (<$pk>::gen(key), <$pk>::gen(key).value())
            }
        }
    };
}

glue!(Tag, u32, [id: u32, name: String, note: Option<String>], [], []);
glue!(Zone, u64, [name: String, key: u64], [], [tag: Tag]);
glue!(Map, u32, [id: u32, name: String, difficulty: u8, last_played: Option<NaiveDateTime>], [], [zone: Zone]);
glue!(Entity, i64, [id: i64, name: String, heading: f32, spawn_after: Duration], [position: Vector3 {x: f32 = x, y: f32 = y, z: f64 = z}, size: Size {w: u16 = width, h: Option<i32> = height}], [map: Map, home: Map, tag: Tag]);
glue!(Own, u32, [id: u32, tag: u8], [], [own: Tag]);
glue!(Owner, i16, [id: i16, name: Option<String>], [], [own: Own, owner: Tag]);
glue!(Prefix, u16, [id: u16, b: i32], [c: Pair {a: u8 = a, b: String = b}], [ab: Tag, a: Tag, a_b: Tag, abc: Own]);
glue!(Node4, u64, [id: u64, name: Option<String>], [], []);
glue!(Node3, u64, [id: u64, name: Option<String>], [], [next: Node4]);
glue!(Node2, u64, [id: u64, name: Option<String>], [], [next: Node3, node: Node4]);
glue!(Node1, u64, [id: u64, name: Option<String>], [], [next: Node2]);
glue!(Bare, u8, [id: u8], [position: Vector3 {x: f32 = x, y: f32 = y, z: f64 = z}], []);
glue!(Key, i32, [id: i32], [], []);
glue!(Link, u32, [id: u32], [], [from_key: Key, to_key: Key, bare: Bare]);
glue!(Far2, u32, [id: u32, a_column_with_a_name_that_is_as_long_as_any_name_may_ever_get_a1: String, a_column_with_a_name_that_is_as_long_as_any_name_may_ever_get_a2: Option<i64>], [], [tag: Tag]);
glue!(Far, u64, [id: u64, a_column_with_a_name_that_is_as_long_as_any_name_may_ever_get_a1: String], [], [the_column_that_refers_to_the_second_of_the_long_named_tables_a: Far2, the_column_that_refers_to_the_second_of_the_long_named_tables_b: Far2]);
glue!(Wide, u32, [id: u32, w1: i32, w2: i32, w3: Option<String>, w4: i32, w5: i32, w6: Option<String>, w7: i32, w8: i32, w9: Option<String>, w10: i32, w11: i32, w12: Option<String>, w13: i32, w14: i32, w15: Option<String>, w16: i32, w17: i32, w18: Option<String>, w19: i32, w20: i32, w21: Option<String>, w22: i32, w23: i32, w24: Option<String>, w25: i32, w26: i32, w27: Option<String>, w28: i32, w29: i32, w30: Option<String>, w31: i32, w32: i32, w33: Option<String>, w34: i32, w35: i32, w36: Option<String>, w37: i32, w38: i32, w39: Option<String>, w40: i32, w41: i32, w42: Option<String>, w43: i32, w44: i32, w45: Option<String>, w46: i32, w47: i32, w48: Option<String>, w49: i32, w50: i32, w51: Option<String>, w52: i32, w53: i32, w54: Option<String>, w55: i32, w56: i32, w57: Option<String>, w58: i32, w59: i32, w60: Option<String>, w61: i32, w62: i32, w63: Option<String>, w64: i32, w65: i32, w66: Option<String>, w67: i32, w68: i32, w69: Option<String>, w70: i32], [position: Vector3 {x: f32 = x, y: f32 = y, z: f64 = z}], [tag: Tag, zag: Tag]);
glue!(Plain, i8, [a: i8, b: i16, c: i32, d: i64, e: u8, f: u16, g: u32, h: u64, i: f32, j: f64, k: bool, l: String, m: Vec<u8>, n: NaiveDate, o: NaiveDateTime, p: Duration, q: Hex,
    oa: Option<i8>, ob: Option<i16>, oc: Option<i32>, od: Option<i64>, oe: Option<u8>, of: Option<u16>, og: Option<u32>, oh: Option<u64>, oi: Option<f32>, oj: Option<f64>, ok: Option<bool>,
    ol: Option<String>, om: Option<Vec<u8>>, on: Option<NaiveDate>, oo: Option<NaiveDateTime>, op: Option<Duration>, oq: Option<Hex>], [], []);
glue!(Odd, u32, [r#type: String, Id: u32, camelCase: i32, camelcase_: Option<u8>, _lead: Option<i64>, größe: f64, __: bool],
    [r#in: Dim {r#type: i16 = r#type, größe: String = GRÖßE, _w: u8 = _w}], [r#ref: Tag, Straße: Tag]);
glue!(Odder, u64, [Straße: u64], [], [odd: Odd, Odd: Tag, r#loop: Odd, größe: Zone, größer: Tag]);

glue!(Paths, u16, [id: u16, text: String, bytes: Option<Vec<u8>>, day: NaiveDate, span: Option<Duration>, hex: Hex, at: Option<NaiveDateTime>], [pair: Pair {a: u8 = a, b: String = b}], []);

/// A statement that must come.
struct Want {
    update: bool,
    table: String,
    path: String,
    pk: String,
    keyed: bool,
    /// Column, and its value or the record whose generated key it is
    cols: Vec<(String, Result<Val, String>)>,
    done: bool,
}

#[derive(Default)]
struct Server {
    rows: Option<(Vec<ColDef>, Vec<Vec<Option<Vec<u8>>>>)>,
    wants: Vec<Want>,
    ids: HashMap<String, u64>,
    whr: Option<Val>,
    fault: String,
    failed: bool,
    last: u64,
    next: u64,
    errors: Vec<String>,
}

impl Server {
    fn save(&mut self, text: &str, update: bool, table: &str, cols: &[(String, Val)], conds: &[(sql::ColRef, Val)]) -> Reply {
        if self.failed {
            self.errors.push(format!("statement after one failed: {text}"));
        }
        let mut why = String::new();
        let at = self.wants.iter().position(|w| {
            if w.done || w.update != update || w.table != table {
                return false;
            }
            let mut left: Vec<&(String, Val)> = cols.iter().collect();
            for (c, v) in &w.cols {
                let v = match v {
                    Ok(v) => v.clone(),
                    Err(p) => match self.ids.get(p) {
                        Some(id) => Val::Int(*id as i128),
                        None => {
                            why = format!("record {p} was not inserted before");
                            return false;
                        }
                    },
                };
                match left.iter().position(|x| x.0 == *c) {
                    None => {
                        why = format!("column {c} is missing");
                        return false;
                    }
                    Some(i) => {
                        if !same(&left[i].1, &v) {
                            why = format!("column {c} is {:?} instead of {v:?}", left[i].1);
                            return false;
                        }
                        left.remove(i);
                    }
                }
            }
            if !left.is_empty() {
                why = format!("columns that were not set: {left:?}");
                return false;
            }
            if update {
                let ok = conds.len() == 1 && conds[0].0.name == w.pk && Some(&conds[0].1) == self.whr.as_ref();
                if !ok {
                    why = format!("not restricted to the record: {conds:?}");
                }
                return ok;
            }
            true
        });
        match at {
            None => {
                self.errors.push(format!("unexpected statement {text} {cols:?}: {why}"));
                Reply::Ok { affected: 1, id: 0 }
            }
            Some(i) => {
                let w = &mut self.wants[i];
                w.done = true;
                if w.path == self.fault {
                    self.failed = true;
                    return Reply::Err(3333, "no".into());
                }
                self.next += 1;
                // a generated key; something else where there was no need for one
                let k = self.next;
                self.last = if update { 0 } else if w.keyed { 4_000_000 + k } else { [1, 250, 255, 256, 65_537, 4_294_967_297, 1 << 40][(k % 7) as usize] + 3 * k };
                self.ids.insert(w.path.clone(), self.last);
                Reply::Ok { affected: 1, id: self.last }
            }
        }
    }
}

impl Backend for Server {
    fn bad(&mut self, what: String) {
        self.errors.push(what);
    }
    fn exec(&mut self, text: &str, st: Stmt) -> Reply {
        match st {
            Stmt::Select { .. } if self.rows.is_some() => {
                let (cols, rows) = self.rows.take().unwrap();
                Reply::Rows { cols, rows }
            }
            Stmt::Insert { table, rows } if rows.len() == 1 => self.save(text, false, &table, &rows[0], &[]),
            Stmt::Update { table, set, conds } => self.save(text, true, &table, &set, &conds),
            _ => {
                self.errors.push(format!("statement {text:?}"));
                Reply::Err(1064, "no".into())
            }
        }
    }
}

fn connect(server: &Arc<Mutex<Server>>) -> Arc<ConnectionOptions<DbStream>> {
    let dynserver: Arc<Mutex<dyn Backend>> = server.clone();
    Arc::new(ConnectionOptions::<DbStream> {
        user: "u".into(),
        connection: DbOpts(Some(dynserver)),
        max_allowed_packet: Some(1 << 22),
        auth_plugin: Some(AuthPlugin::Native),
        ..Default::default()
    })
}

fn pair(j: &J) -> (String, String) {
    (j[0].as_str().unwrap().into(), j[1].as_str().unwrap().into())
}

async fn query<M: Glue>(sc: &J) -> (Vec<String>, usize) {
    let mut errors = vec![];
    let table = sc["table"].as_str().unwrap();
    // the statement
    let text = M::build_query();
    match sql::parse(&text) {
        Ok((Stmt::Select { items, from, joins, conds, limit: usize::MAX, .. }, 0)) => {
            let mut have: Vec<(String, String)> = vec![];
            for i in &items {
                match i {
                    Val::Col(c) => have.push((c.table.clone().unwrap_or_else(|| table.into()), c.name.clone())),
                    x => errors.push(format!("{text}: selects {x:?}")),
                }
            }
            let mut want: Vec<_> = sc["fields"].as_array().unwrap().iter().map(|f| pair(&f["f"])).collect();
            have.sort();
            want.sort();
            if have != want {
                errors.push(format!("{text}: selects {have:?} instead of {want:?}"));
            }
            if from != Some((None, table.into(), table.into())) || !conds.is_empty() {
                errors.push(format!("{text}: not from `{table}`"));
            }
            let mut known = vec![table.to_string()];
            let mut have: Vec<String> = vec![];
            for j in &joins {
                let (a, b) = &j.on;
                let (a, b) = if a.table.as_deref() == Some(&j.alias) { (b, a) } else { (a, b) };
                if !known.contains(&a.table.clone().unwrap_or_default()) || known.contains(&j.alias) {
                    errors.push(format!("{text}: join of {} refers to what is not there, or is there already", j.alias));
                }
                known.push(j.alias.clone());
                have.push(format!("{} as {} on {:?}.{} = {:?}.{}", j.table, j.alias, a.table, a.name, b.table, b.name));
            }
            let mut want: Vec<_> = sc["joins"]
                .as_array()
                .unwrap()
                .iter()
                .map(|j| {
                    let (a, b) = (pair(&j["from"]), pair(&j["to"]));
                    format!("{} as {} on {:?}.{} = {:?}.{}", j["table"].as_str().unwrap(), j["alias"].as_str().unwrap(), Some(a.0), a.1, Some(b.0), b.1)
                })
                .collect();
            have.sort();
            want.sort();
            if have != want {
                errors.push(format!("{text}: joins {have:?} instead of {want:?}"));
            }
        }
        Ok(x) => errors.push(format!("{text}: is {x:?}")),
        Err(e) => errors.push(format!("{text}: {e}")),
    }
    // the rows
    let cols: Vec<(String, String)> = sc["cols"].as_array().unwrap().iter().map(pair).collect();
    let rows = 3;
    let labels = hash(&sc.to_string()) % 4 == 0;
    let mut data = vec![];
    let mut defs = vec![];
    for r in 0..rows {
        let mut vals = Cols::new();
        M::cols(&format!("{r}:"), table, &mut vals);
        let mut row = vec![];
        for (i, c) in cols.iter().enumerate() {
            let v = vals.get(c).cloned().unwrap_or(Value::Bytes(b"none of these".to_vec()));
            let (mut ty, mut flags, t) = print(&v);
            if v == Value::Null {
                // the column's type is that of other rows
                let mut k = 0;
                while ty == db::T_STRING && k < 40 {
                    let mut vals = Cols::new();
                    M::cols(&format!("{k}:"), table, &mut vals);
                    (ty, flags, _) = print(&vals[c]);
                    k += 1;
                }
            }
            if r == 0 {
                // the table's own name is not the alias; the label may be another one
                let org = sc["joins"].as_array().unwrap().iter().find(|j| j["alias"] == c.0).map_or(if c.0 == table { table } else { "" }, |j| j["table"].as_str().unwrap());
                let name = if labels { format!("label{i}") } else { c.1.clone() };
                defs.push(ColDef { table: c.0.clone(), org_table: org.into(), name, org_name: c.1.clone(), ty, flags });
            } else if defs[i].ty != ty {
                panic!("HARNESS: type of {c:?}");
            }
            row.push(t);
        }
        data.push(row);
    }
    let server = Arc::new(Mutex::new(Server { rows: Some((defs, data)), ..Default::default() }));
    let mut conn = match Connection::connect(connect(&server)).await {
        Ok(x) => x,
        Err(e) => return (vec![format!("connect: {e:?}")], 1),
    };
    let res = match conn.query::<M>(&text).await {
        Ok(mut rs) => rs.collect().await,
        Err(e) => Err(e),
    };
    let missing: Vec<_> = sc["fields"].as_array().unwrap().iter().filter(|f| f["at"] == 0).map(|f| pair(&f["f"])).collect();
    match res {
        Err(e) => {
            if missing.is_empty() {
                errors.push(format!("a complete result ({cols:?}) is refused: {e:?}"));
            } else if !matches!(e, mysql_connector::Error::Protocol(_)) {
                errors.push(format!("missing {missing:?} is reported as {e:?}"));
            }
        }
        Ok(ms) => {
            if !missing.is_empty() {
                errors.push(format!("{missing:?} missing from the result ({cols:?}), but read as {:?}", ms.first()));
            } else {
                if ms.len() != rows {
                    errors.push(format!("{} records", ms.len()));
                }
                for (r, m) in ms.iter().enumerate() {
                    let (have, want) = (format!("{m:?}"), format!("{:?}", M::full(&format!("{r}:"), table)));
                    if have != want {
                        errors.push(format!("columns {cols:?} read as {have} instead of {want}"));
                        break;
                    }
                }
            }
        }
    }
    errors.extend(std::mem::take(&mut server.lock().unwrap().errors));
    (errors, 2)
}

async fn save<M: Glue>(sc: &J) -> (Vec<String>, usize)
where
    M::Primary: Copy,
{
    let op = sc["op"].as_str().unwrap();
    let table = M::TABLE;
    let mut vals = Cols::new();
    M::cols("", table, &mut vals);
    let mut sets = Cols::new();
    M::sets(table, &mut sets);
    let list = sc["stmts"].as_array().unwrap();
    let mut errors = vec![];
    let mut wants = vec![];
    for s in list {
        let cols = s["cols"]
            .as_array()
            .unwrap()
            .iter()
            .map(|c| {
                let p = c["p"].as_str().unwrap();
                let q = c["q"].as_str().unwrap();
                let v = match c["k"].as_str().unwrap() {
                    "id" => Err(p.to_string()),
                    "null" => Ok(Val::Null),
                    "any" => Ok(val(&vals[&(p.to_string(), q.to_string())])),
                    _ => Ok(val(sets.get(&(p.to_string(), q.to_string())).unwrap_or_else(|| panic!("HARNESS: no value for {p}/{q}")))),
                };
                (c["c"].as_str().unwrap().to_string(), v)
            })
            .collect();
        wants.push(Want {
            update: s["kind"] == "update",
            table: s["table"].as_str().unwrap().into(),
            path: s["p"].as_str().unwrap().into(),
            pk: s["pk"].as_str().unwrap().into(),
            keyed: s["keyed"].as_bool().unwrap(),
            cols,
            done: false,
        });
    }
    let fault = sc["fault"].as_str().unwrap();
    let by_model = hash(&sc.to_string()) % 2 == 0;
    let whole = M::full("w:", table);
    let mut wv = Cols::new();
    M::cols("w:", table, &mut wv);
    let whr = if by_model { wv[&(table.to_string(), M::PRIMARY.to_string())].clone() } else { M::key("w").1 };
    let server = Arc::new(Mutex::new(Server { wants, fault: fault.into(), whr: Some(val(&whr)), next: hash(&sc.to_string()) % 7, ..Default::default() }));
    let mut conn = match Connection::connect(connect(&server)).await {
        Ok(x) => x,
        Err(e) => return (vec![format!("connect: {e:?}")], 1),
    };
    let res = match op {
        "insert" => M::active(&sc["tree"], table).insert(&mut conn).await.map(Some),
        "whole" => M::full("", table).into_active_model().insert(&mut conn).await.map(Some),
        "update" => {
            let mut u = if by_model { whole.update_model() } else { UpdateModel::new(M::key("w").0) };
            M::assign(&mut u, &sc["tree"], table);
            u.update(&mut conn).await.map(|_| None)
        }
        x => panic!("HARNESS: op {x}"),
    };
    let mut s = server.lock().unwrap();
    errors.append(&mut s.errors);
    match (&res, fault) {
        (Ok(_), "") => {
            for w in &s.wants {
                if !w.done {
                    errors.push(format!("record {} was not written", w.path));
                }
            }
            if let Ok(Some(id)) = res {
                if id != s.last {
                    errors.push(format!("insert returned {id} instead of the server's {}", s.last));
                }
            }
        }
        (Ok(_), f) => errors.push(format!("writing record {f} failed, but the call succeeded")),
        (Err(mysql_connector::Error::Server(_)), f) if f != "" => (),
        (Err(e), f) => errors.push(format!("{op} failed (fault '{f}'): {e:?}")),
    }
    (errors, 2)
}

fn replay(sc: &J, _: u64) -> (Vec<String>, usize) {
    // the specification writes letters beyond ASCII as "~"
    let mut text = sc.to_string();
    for (a, b) in [("T~ble", "Täble"), ("t~ble", "täble"), ("gr~~e", "größe"), ("GR~~E", "GRÖßE"), ("Stra~e", "Straße")] {
        text = text.replace(a, b);
    }
    let sc: &J = &serde_json::from_str(&text).unwrap();
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    fn about<M: Glue>(sc: &J) -> Vec<String> {
        let want = (sc["table"].as_str(), sc["pk"].as_str(), sc["ai"].as_bool());
        let have = (Some(M::TABLE), Some(M::PRIMARY), Some(M::AUTO_INCREMENT));
        if have == want {
            vec![]
        } else {
            vec![format!("table, key and whether it is generated are {have:?} instead of {want:?}")]
        }
    }
    macro_rules! go {
        ($($m:ident)*) => {
            match sc["model"].as_str().unwrap() {
                $(stringify!($m) => rt.block_on(async {
                    let mut r = if sc["op"].is_null() { query::<$m>(sc).await } else { save::<$m>(sc).await };
                    r.0.extend(about::<$m>(sc));
                    r
                }),)*
                x => panic!("HARNESS: model {x}"),
            }
        };
    }
    go!(Tag Zone Map Entity Own Owner Prefix Node1 Node2 Node3 Node4 Bare Key Link Plain Odd Odder Paths Far Far2 Wide)
}

fn main() {
    run::main(replay)
}
