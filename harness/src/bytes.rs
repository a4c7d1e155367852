//! Byte expressions of the specification: numbers, runs, texts and symbolic terms.
use serde_json::Value as J;

#[derive(Debug, Clone)]
pub enum Pat {
    Bytes(Vec<u8>),
    /// Ciphertext of `plain` for the named key.
    Rsa { key: String, plain: Vec<u8>, len: usize },
}

impl Pat {
    pub fn len(&self) -> usize {
        match self {
            Pat::Bytes(b) => b.len(),
            Pat::Rsa { len, .. } => *len,
        }
    }
}

pub fn eval(j: &J) -> Vec<u8> {
    let mut out = Vec::new();
    for p in pats(j) {
        match p {
            Pat::Bytes(b) => out.extend_from_slice(&b),
            Pat::Rsa { .. } => panic!("HARNESS: rsa term can only be matched"),
        }
    }
    out
}

fn push(out: &mut Vec<Pat>, b: &[u8]) {
    if let Some(Pat::Bytes(last)) = out.last_mut() {
        last.extend_from_slice(b);
    } else {
        out.push(Pat::Bytes(b.to_vec()));
    }
}

fn elem(out: &mut Vec<Pat>, j: &J) {
    match j {
        J::Number(n) => push(out, &[n.as_u64().expect("HARNESS: byte") as u8]),
        J::String(s) => push(out, s.as_bytes()),
        J::Array(a) if a.len() == 2 => {
            let b = a[0].as_u64().expect("HARNESS: run byte") as u8;
            let n = a[1].as_u64().expect("HARNESS: run length") as usize;
            push(out, &vec![b; n]);
        }
        J::Object(o) => {
            let sym = o["sym"].as_str().expect("HARNESS: sym");
            match sym {
                "native" => push(out, &crate::crypto::native(&eval(&o["nonce"]), &eval(&o["pw"]))),
                "sha2" => push(out, &crate::crypto::sha2(&eval(&o["nonce"]), &eval(&o["pw"]))),
                "pem" => push(out, crate::crypto::pem(o["key"].as_str().unwrap(), o["form"].as_str().unwrap()).as_slice()),
                "rsa" => {
                    let key = o["key"].as_str().unwrap().to_owned();
                    let pw = eval(&o["pw"]);
                    let nonce = eval(&o["nonce"]);
                    let mut plain = pw;
                    plain.push(0);
                    for (i, b) in plain.iter_mut().enumerate() {
                        *b ^= nonce[i % nonce.len()];
                    }
                    let len = crate::crypto::octets(&key);
                    out.push(Pat::Rsa { key, plain, len });
                }
                x => panic!("HARNESS: unknown sym {x}"),
            }
        }
        x => panic!("HARNESS: byte element {x}"),
    }
}

pub fn pats(j: &J) -> Vec<Pat> {
    let mut out = Vec::new();
    match j {
        J::Null => (),
        J::String(_) => elem(&mut out, j),
        // TLC prints the empty sequence and the empty function alike
        J::Object(o) if o.is_empty() => (),
        J::Object(_) => elem(&mut out, j),
        J::Array(a) => {
            for e in a {
                elem(&mut out, e);
            }
        }
        x => panic!("HARNESS: bytes {x}"),
    }
    out
}

/// Integer given as number or as little endian bytes.
pub fn int(j: &J) -> i128 {
    match j {
        J::Number(n) => n.as_i64().map(|x| x as i128).unwrap_or_else(|| n.as_u64().unwrap() as i128),
        J::Array(a) => {
            let mut x: u128 = 0;
            for (i, b) in a.iter().enumerate() {
                x |= (b.as_u64().unwrap() as u128) << (8 * i);
            }
            x as i128
        }
        x => panic!("HARNESS: int {x}"),
    }
}

pub fn short(b: &[u8]) -> String {
    let n = b.len().min(48);
    let hex: String = b[..n].iter().map(|x| format!("{x:02x}")).collect();
    if b.len() > n {
        format!("{hex}..({} bytes)", b.len())
    } else {
        format!("{hex}({} bytes)", b.len())
    }
}
