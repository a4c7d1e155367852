//! Conversions between Rust values and database values.
use {
    crate::{
        bytes::{eval, int},
        val,
    },
    chrono::{Duration, NaiveDate, NaiveDateTime},
    mysql_connector::types::{Hex, Value},
    serde_json::Value as J,
    std::str::FromStr,
};

/// A Rust type the specification knows.
trait Rust: Sized {
    const NAME: &'static str;
    fn make(x: &J) -> Self;
    /// Equal, bit by bit
    fn same(&self, other: &Self) -> bool;
    fn show(&self) -> String;
}

macro_rules! number {
    ($($t:ident),*) => { $(impl Rust for $t {
        const NAME: &'static str = stringify!($t);
        fn make(x: &J) -> Self {
            let b = eval(&x[1]);
            <$t>::from_le_bytes(b[..].try_into().expect("HARNESS: width"))
        }
        fn same(&self, other: &Self) -> bool { self.to_le_bytes() == other.to_le_bytes() }
        fn show(&self) -> String { format!("{self:?} ({:?})", self.to_le_bytes()) }
    })* };
}
number!(i8, i16, i32, i64, u8, u16, u32, u64, f32, f64);

macro_rules! other {
    ($($t:ty, $n:literal, |$x:ident| $e:expr;)*) => { $(impl Rust for $t {
        const NAME: &'static str = $n;
        fn make($x: &J) -> Self { $e }
        fn same(&self, other: &Self) -> bool { self == other }
        fn show(&self) -> String { format!("{self:?}") }
    })* };
}
fn date(x: &J) -> NaiveDate {
    let y = x[1].as_i64().expect("HARNESS: year") as i32;
    NaiveDate::from_ymd_opt(y, int(&x[2]) as u32, int(&x[3]) as u32).expect("HARNESS: date")
}
other! {
    bool, "bool", |x| int(&x[1]) != 0;
    String, "String", |x| String::from_utf8(eval(&x[1])).expect("HARNESS: utf8");
    Vec<u8>, "Vec", |x| eval(&x[1]);
    Hex, "Hex", |x| Hex::new(eval(&x[1]));
    NaiveDate, "NaiveDate", |x| date(x);
    NaiveDateTime, "NaiveDateTime", |x| date(x).and_hms_micro_opt(int(&x[4]) as u32, int(&x[5]) as u32, int(&x[6]) as u32, int(&x[7]) as u32).expect("HARNESS: time");
    Duration, "Duration", |x| {
        let n = |i: usize| int(&x[i]) as i64;
        let s = ((n(2) * 24 + n(3)) * 60 + n(4)) * 60 + n(5);
        let d = Duration::seconds(s) + Duration::microseconds(n(6));
        if n(1) != 0 { -d } else { d }
    };
}

fn show<T: Rust>(r: &Result<T, String>) -> String {
    match r {
        Ok(x) => x.show(),
        Err(e) => format!("error {e}"),
    }
}

fn there<T: Rust>(sc: &J) -> Vec<String>
where
    T: TryInto<Value>,
    <T as TryInto<Value>>::Error: std::fmt::Debug,
    Value: TryInto<T> + TryInto<Option<T>> + TryFrom<Option<T>>,
    <Value as TryInto<T>>::Error: std::fmt::Debug,
    <Value as TryInto<Option<T>>>::Error: std::fmt::Debug,
    <Value as TryFrom<Option<T>>>::Error: std::fmt::Debug,
{
    let mut errors = vec![];
    let x = || T::make(&sc["x"]);
    let want = &sc["v"];
    let none = want.as_array().is_none_or(|a| a.is_empty());
    for (how, v) in [("", x().try_into().map_err(|e: <T as TryInto<Value>>::Error| format!("{e:?}"))), ("optional ", Value::try_from(Some(x())).map_err(|e| format!("{e:?}")))] {
        match v {
            Err(_) if none => (),
            Ok(v) if none => errors.push(format!("{how}{} has no database value, but becomes {}", x().show(), val::show(&v))),
            Err(e) => errors.push(format!("{how}{} is refused: {e}", x().show())),
            Ok(v) => {
                if !val::same(&v, &canon(val::parse(want))) {
                    errors.push(format!("{how}{} becomes {} instead of {}", x().show(), val::show(&v), val::show(&val::parse(want))));
                    continue;
                }
                let back: Result<T, _> = TryInto::<T>::try_into(v.clone()).map_err(|e| format!("{e:?}"));
                if !back.as_ref().is_ok_and(|y| y.same(&x())) {
                    errors.push(format!("{how}{} comes back as {}", x().show(), show(&back)));
                }
                match TryInto::<Option<T>>::try_into(v) {
                    Ok(Some(y)) if y.same(&x()) => (),
                    Ok(y) => errors.push(format!("optional {} comes back as {:?}", x().show(), y.map(|y| y.show()))),
                    Err(e) => errors.push(format!("optional {} comes back as error {e:?}", x().show())),
                }
            }
        }
    }
    match Value::try_from(None::<T>) {
        Ok(Value::Null) => (),
        Ok(v) => errors.push(format!("None becomes {}", val::show(&v))),
        Err(e) => errors.push(format!("None is refused: {e:?}")),
    }
    errors
}

/// A duration of zero has no sign.
fn canon(v: Value) -> Value {
    match v {
        Value::Time(_, 0, 0, 0, 0, 0) => Value::Time(false, 0, 0, 0, 0, 0),
        v => v,
    }
}

fn back<T: Rust>(sc: &J, errors: &mut Vec<String>)
where
    Value: TryInto<T> + TryInto<Option<T>>,
    <Value as TryInto<T>>::Error: std::fmt::Debug,
    <Value as TryInto<Option<T>>>::Error: std::fmt::Debug,
{
    let v = val::parse(&sc["x"]);
    let want = &sc["want"][T::NAME];
    let kind = want["r"].as_str().unwrap_or("err");
    if kind == "any" {
        return;
    }
    let null = v == Value::Null;
    for opt in [false, true] {
        let r: Result<Option<T>, String> =
            if opt { TryInto::<Option<T>>::try_into(v.clone()).map_err(|e| format!("{e:?}")) } else { TryInto::<T>::try_into(v.clone()).map(Some).map_err(|e| format!("{e:?}")) };
        let good = match (kind, &r) {
            ("err", Ok(None)) => opt && null,
            ("err", Err(_)) => !(opt && null),
            ("may", Err(_)) => true,
            ("val" | "may", Ok(Some(x))) => x.same(&T::make(&want["x"])),
            _ => false,
        };
        if !good {
            let r = match r {
                Ok(Some(x)) => x.show(),
                Ok(None) => "None".into(),
                Err(e) => format!("error {e}"),
            };
            errors.push(format!("{} as {}{} is {r} instead of {kind} {}", val::show(&v), if opt { "optional " } else { "" }, T::NAME, want["x"]));
        }
    }
}

fn hex(sc: &J) -> Vec<String> {
    let mut errors = vec![];
    let s: String = sc["x"].as_array().expect("HARNESS: text").iter().map(|c| c.as_u64().unwrap() as u8 as char).collect();
    let want = (sc["want"]["r"] == "val").then(|| eval(&sc["want"]["x"]));
    for (how, r) in [("from_str", Hex::from_str(&s).ok()), ("try_from_hex", Hex::try_from_hex(&s).ok()), ("try_from_hex of bytes", Hex::try_from_hex(s.as_bytes()).ok())] {
        let r = r.map(|h| h.into_bytes());
        if r != want {
            errors.push(format!("{how} of {s:?} is {r:?} instead of {want:?}"));
        }
    }
    let quoted = J::String(s.clone()).to_string();
    let escaped = format!("\"{}\"", s.chars().map(|c| format!("\\u{:04x}", c as u32)).collect::<String>());
    for (how, r) in [
        (&quoted, serde_json::from_str::<Hex>(&quoted)),
        (&escaped, serde_json::from_str::<Hex>(&escaped)),
        (&"a reader".to_string(), serde_json::from_reader::<_, Hex>(quoted.as_bytes())),
        (&"a value".to_string(), serde_json::from_value::<Hex>(J::String(s.clone()))),
    ] {
        let r = r.ok().map(|h| h.into_bytes());
        if r != want {
            errors.push(format!("{quoted} ({how}) is deserialised as {r:?} instead of {want:?}"));
        }
    }
    if let Some(b) = want {
        let json = serde_json::to_string(&Hex::new(b.clone())).unwrap();
        if serde_json::from_str::<Hex>(&json).ok() != Some(Hex::new(b.clone())) {
            errors.push(format!("{b:?} is serialised as {json}, which is not read as it"));
        }
        let shown = Hex::new(b.clone()).to_string();
        if Hex::from_str(&shown) != Ok(Hex::new(b.clone())) {
            errors.push(format!("{b:?} is shown as {shown:?}, which is not read as it"));
        }
    }
    errors
}

macro_rules! types {
    ($f:ident) => {
        $f!(i8, i16, i32, i64, u8, u16, u32, u64, f32, f64, bool, String, Vec<u8>, Hex, NaiveDate, NaiveDateTime, Duration)
    };
}

pub fn replay(sc: &J) -> (Vec<String>, usize) {
    match sc["fam"].as_str() {
        Some("there") => {
            let t = sc["x"][0].as_str().expect("HARNESS: type");
            macro_rules! go {
                ($($t:ty),*) => { $(if t == <$t as Rust>::NAME { return (there::<$t>(sc), 4); })* };
            }
            types!(go);
            panic!("HARNESS: type {t}")
        }
        Some("back") => {
            let mut errors = vec![];
            macro_rules! go {
                ($($t:ty),*) => { $(back::<$t>(sc, &mut errors);)* };
            }
            types!(go);
            (errors, 34)
        }
        Some("hex") => (hex(sc), 7),
        x => panic!("HARNESS: family {x:?}"),
    }
}
