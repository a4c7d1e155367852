//! Reference computations for the symbolic terms of the specification, independent of the code
//! under test (own formulas on the hash crates, RSA decryption with the private key).
use {
    base64::Engine as _,
    num::{bigint::BigUint, Integer, One, Zero},
    sha1::{Digest, Sha1},
    std::{collections::HashMap, sync::OnceLock},
};

fn h1(parts: &[&[u8]]) -> Vec<u8> {
    let mut h = Sha1::new();
    parts.iter().for_each(|p| h.update(p));
    h.finalize().to_vec()
}

fn h256(parts: &[&[u8]]) -> Vec<u8> {
    let mut h = sha2::Sha256::new();
    parts.iter().for_each(|p| h.update(p));
    h.finalize().to_vec()
}

fn xor(a: Vec<u8>, b: Vec<u8>) -> Vec<u8> {
    a.iter().zip(b).map(|(x, y)| x ^ y).collect()
}

pub fn native(nonce: &[u8], pw: &[u8]) -> Vec<u8> {
    let s1 = h1(&[pw]);
    let s2 = h1(&[&s1]);
    xor(s1, h1(&[nonce, &s2]))
}

pub fn sha2(nonce: &[u8], pw: &[u8]) -> Vec<u8> {
    let s1 = h256(&[pw]);
    let s2 = h256(&[&s1]);
    xor(s1, h256(&[&s2, nonce]))
}

pub struct Key {
    pub n: BigUint,
    pub e: BigUint,
    pub d: BigUint,
}

fn prime(rng: &mut Lcg, bits: usize, e: &BigUint) -> BigUint {
    loop {
        let mut x = BigUint::zero();
        for _ in 0..bits.div_ceil(32) {
            x = (x << 32) + BigUint::from(rng.next());
        }
        x %= BigUint::one() << bits;
        x |= BigUint::from(3u32) << (bits - 2);
        x |= BigUint::one();
        if (&x - 1u32).gcd(e) != BigUint::one() {
            continue;
        }
        if is_prime(&x, rng) {
            return x;
        }
    }
}

fn is_prime(n: &BigUint, rng: &mut Lcg) -> bool {
    for p in [3u32, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47] {
        if (n % p).is_zero() {
            return false;
        }
    }
    let one = BigUint::one();
    let n1 = n - &one;
    let s = n1.trailing_zeros().unwrap();
    let d = &n1 >> s;
    'w: for _ in 0..16 {
        let a = BigUint::from(rng.next()) + 2u32;
        let mut x = a.modpow(&d, n);
        if x == one || x == n1 {
            continue;
        }
        for _ in 0..s - 1 {
            x = x.modpow(&BigUint::from(2u32), n);
            if x == n1 {
                continue 'w;
            }
        }
        return false;
    }
    true
}

struct Lcg(u64);
impl Lcg {
    fn next(&mut self) -> u32 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (self.0 >> 32) as u32
    }
}

/// Named keys: "k<bits>" and "k<bits>b" (another key of that size).
pub fn key(name: &str) -> &'static Key {
    static KEYS: OnceLock<std::sync::Mutex<HashMap<String, &'static Key>>> = OnceLock::new();
    let mut keys = KEYS.get_or_init(Default::default).lock().unwrap();
    if let Some(k) = keys.get(name) {
        return k;
    }
    let bits: usize = name.trim_start_matches('k').trim_end_matches('b').parse().expect("HARNESS: key name");
    let mut rng = Lcg(0x5eed ^ bits as u64 ^ ((name.ends_with('b') as u64) << 40));
    let e = BigUint::from(65537u32);
    let k = loop {
        let p = prime(&mut rng, bits / 2, &e);
        let q = prime(&mut rng, bits - bits / 2, &e);
        let n = &p * &q;
        if p == q || n.bits() as usize != bits {
            continue;
        }
        let phi = (&p - 1u32) * (&q - 1u32);
        // d = e^-1 mod phi
        let d = modinv(&e, &phi);
        break Key { n, e: e.clone(), d };
    };
    let k: &'static Key = Box::leak(Box::new(k));
    keys.insert(name.to_owned(), k);
    k
}

fn modinv(a: &BigUint, m: &BigUint) -> BigUint {
    use num::bigint::BigInt;
    let (a, m) = (BigInt::from(a.clone()), BigInt::from(m.clone()));
    let g = a.extended_gcd(&m);
    let x = ((g.x % &m) + &m) % &m;
    x.to_biguint().unwrap()
}

pub fn octets(name: &str) -> usize {
    (key(name).n.bits() as usize).div_ceil(8)
}

fn der_len(n: usize) -> Vec<u8> {
    if n < 128 {
        vec![n as u8]
    } else {
        let b: Vec<u8> = n.to_be_bytes().iter().copied().skip_while(|x| *x == 0).collect();
        let mut v = vec![0x80 | b.len() as u8];
        v.extend(b);
        v
    }
}

fn der(tag: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![tag];
    v.extend(der_len(body.len()));
    v.extend_from_slice(body);
    v
}

fn der_uint(x: &BigUint) -> Vec<u8> {
    let mut b = x.to_bytes_be();
    if b[0] & 0x80 != 0 {
        b.insert(0, 0);
    }
    der(2, &b)
}

pub fn der_key(name: &str, pkcs1: bool) -> Vec<u8> {
    let k = key(name);
    let mut body = der_uint(&k.n);
    body.extend(der_uint(&k.e));
    let p1 = der(0x30, &body);
    if pkcs1 {
        return p1;
    }
    let alg = der(0x30, &[0x06, 0x09, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x01, 0x05, 0x00]);
    let mut bits = vec![0];
    bits.extend(p1);
    let mut all = alg;
    all.extend(der(3, &bits));
    der(0x30, &all)
}

/// form: "pkcs1" | "pkcs8", optionally with a suffix that changes the layout ("-oneline", "-crlf")
pub fn pem(name: &str, form: &str) -> Vec<u8> {
    let pkcs1 = form.starts_with("pkcs1");
    let der = der_key(name, pkcs1);
    let nl = if form.ends_with("-crlf") { "\r\n" } else { "\n" };
    let label = if pkcs1 { "RSA PUBLIC KEY" } else { "PUBLIC KEY" };
    let b64 = base64::engine::general_purpose::STANDARD.encode(der);
    let mut s = format!("-----BEGIN {label}-----{nl}");
    if form.ends_with("-oneline") {
        s += &b64;
        s += nl;
    } else {
        for c in b64.as_bytes().chunks(64) {
            s += std::str::from_utf8(c).unwrap();
            s += nl;
        }
    }
    s += &format!("-----END {label}-----{nl}");
    s.into_bytes()
}

fn mgf1(seed: &[u8], len: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut i = 0u32;
    while out.len() < len {
        out.extend(h1(&[seed, &i.to_be_bytes()]));
        i += 1;
    }
    out.truncate(len);
    out
}

/// RSAES-OAEP (SHA-1, empty label) decryption, RFC 8017 section 7.1.2.
pub fn oaep_decrypt(name: &str, ct: &[u8]) -> Result<Vec<u8>, String> {
    let k = key(name);
    let len = octets(name);
    if ct.len() != len {
        return Err(format!("ciphertext of {} octets for a key of {len}", ct.len()));
    }
    let c = BigUint::from_bytes_be(ct);
    if c >= k.n {
        return Err("ciphertext representative out of range".into());
    }
    let m = c.modpow(&k.d, &k.n).to_bytes_be();
    let mut em = vec![0; len - m.len().min(len)];
    em.extend(m);
    if em[0] != 0 {
        return Err("leading octet".into());
    }
    let (seed, db) = em[1..].split_at(20);
    let seed = xor(seed.to_vec(), mgf1(db, 20));
    let db = xor(db.to_vec(), mgf1(&seed, db.len()));
    if db[..20] != h1(&[b""])[..] {
        return Err("label hash".into());
    }
    let rest = &db[20..];
    match rest.iter().position(|x| *x != 0) {
        Some(i) if rest[i] == 1 => Ok(rest[i + 1..].to_vec()),
        _ => Err("padding".into()),
    }
}
