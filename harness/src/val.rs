//! Database values of the specification: tagged tuples.
use {
    crate::bytes::{eval, int},
    mysql_connector::types::Value,
    serde_json::Value as J,
};

pub fn parse(j: &J) -> Value {
    let a = j.as_array().unwrap_or_else(|| panic!("HARNESS: value {j}"));
    let n = |i: usize| int(&a[i]);
    match a[0].as_str().expect("HARNESS: value tag") {
        "Null" => Value::Null,
        "Tiny" => Value::Tiny(n(1) as i8),
        "Short" => Value::Short(n(1) as i16),
        "Int" => Value::Int(n(1) as i32),
        "Long" => Value::Long(n(1) as i64),
        "UTiny" => Value::UTiny(n(1) as u8),
        "UShort" => Value::UShort(n(1) as u16),
        "UInt" => Value::UInt(n(1) as u32),
        "ULong" => Value::ULong(n(1) as u64),
        "Float" => Value::Float(f32::from_bits(n(1) as u32)),
        "Double" => Value::Double(f64::from_bits(n(1) as u64)),
        "Bytes" => Value::Bytes(eval(&a[1])),
        "Date" => Value::Date(n(1) as u16, n(2) as u8, n(3) as u8),
        "Time" => Value::Time(n(1) != 0, n(2) as u32, n(3) as u8, n(4) as u8, n(5) as u8, n(6) as u32),
        "Datetime" => Value::Datetime(n(1) as u16, n(2) as u8, n(3) as u8, n(4) as u8, n(5) as u8, n(6) as u8, n(7) as u32),
        x => panic!("HARNESS: value tag {x}"),
    }
}

pub fn list(j: &J) -> Vec<Value> {
    match j {
        J::Array(a) => a.iter().map(parse).collect(),
        J::Object(o) if o.is_empty() => Vec::new(),
        J::Null => Vec::new(),
        x => panic!("HARNESS: values {x}"),
    }
}

pub fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Float(a), Value::Float(b)) => a.to_bits() == b.to_bits(),
        (Value::Double(a), Value::Double(b)) => a.to_bits() == b.to_bits(),
        _ => a == b,
    }
}

pub fn same_row(a: &[Value], b: &[Value]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b))
}

pub fn show(v: &Value) -> String {
    match v {
        Value::Bytes(b) => format!("Bytes({})", crate::bytes::short(b)),
        v => format!("{v:?}"),
    }
}

pub fn show_row(v: &[Value]) -> String {
    let s: Vec<_> = v.iter().take(12).map(show).collect();
    format!("[{}]({})", s.join(","), v.len())
}

pub fn show_rows(v: &[Vec<Value>]) -> String {
    let s: Vec<_> = v.iter().take(6).map(|x| show_row(x)).collect();
    format!("[{}]({})", s.join(","), v.len())
}
