//! Independent implementations of the primitives KDBX 3.1 uses. Written from the standards
//! (FIPS 197, FIPS 180-4, the Salsa20 specification, RFC 4648, RFC 1952), not from kpdb.

pub fn sha256(parts: &[&[u8]]) -> [u8; 32] {
    const K: [u32; 64] = [
        0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5,
        0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174,
        0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da,
        0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967,
        0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85,
        0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070,
        0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3,
        0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2,
    ];
    let mut h: [u32; 8] = [
        0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19,
    ];
    let mut msg: Vec<u8> = Vec::new();
    for p in parts {
        msg.extend_from_slice(p);
    }
    let bits = (msg.len() as u64) * 8;
    msg.push(0x80);
    while msg.len() % 64 != 56 {
        msg.push(0);
    }
    msg.extend_from_slice(&bits.to_be_bytes());
    for chunk in msg.chunks_exact(64) {
        let mut w = [0u32; 64];
        for i in 0..16 {
            w[i] = u32::from_be_bytes([chunk[4 * i], chunk[4 * i + 1], chunk[4 * i + 2], chunk[4 * i + 3]]);
        }
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
        }
        let mut v = h;
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(K[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(maj);
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    let mut out = [0u8; 32];
    for i in 0..8 {
        out[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    out
}

fn xtime(a: u8) -> u8 {
    (a << 1) ^ (if a & 0x80 != 0 { 0x1b } else { 0 })
}

fn gmul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 != 0 {
            r ^= a;
        }
        a = xtime(a);
        b >>= 1;
    }
    r
}

struct Tables {
    sbox: [u8; 256],
    inv: [u8; 256],
    te: [[u32; 256]; 4],
    td: [[u32; 256]; 4],
}

fn tables() -> &'static Tables {
    use std::sync::OnceLock;
    static T: OnceLock<Tables> = OnceLock::new();
    T.get_or_init(|| {
        let mut sbox = [0u8; 256];
        let mut inv = [0u8; 256];
        for i in 0..256usize {
            // multiplicative inverse by search, then the affine map
            let mut x = 0u8;
            if i != 0 {
                for c in 1..=255u8 {
                    if gmul(i as u8, c) == 1 {
                        x = c;
                        break;
                    }
                }
            }
            let s = x ^ x.rotate_left(1) ^ x.rotate_left(2) ^ x.rotate_left(3) ^ x.rotate_left(4) ^ 0x63;
            sbox[i] = s;
            inv[s as usize] = i as u8;
        }
        let mut te = [[0u32; 256]; 4];
        let mut td = [[0u32; 256]; 4];
        for i in 0..256 {
            let s = sbox[i];
            let e = u32::from_be_bytes([gmul(s, 2), s, s, gmul(s, 3)]);
            let d = inv[i];
            let dd = u32::from_be_bytes([gmul(d, 14), gmul(d, 9), gmul(d, 13), gmul(d, 11)]);
            for k in 0..4 {
                te[k][i] = e.rotate_right(8 * k as u32);
                td[k][i] = dd.rotate_right(8 * k as u32);
            }
        }
        Tables { sbox, inv, te, td }
    })
}

pub struct Aes256 {
    ek: [u32; 60],
    dk: [u32; 60],
}

impl Aes256 {
    pub fn new(key: &[u8; 32]) -> Aes256 {
        let t = tables();
        let sub = |w: u32| -> u32 {
            let b = w.to_be_bytes();
            u32::from_be_bytes([
                t.sbox[b[0] as usize],
                t.sbox[b[1] as usize],
                t.sbox[b[2] as usize],
                t.sbox[b[3] as usize],
            ])
        };
        let mut w = [0u32; 60];
        for i in 0..8 {
            w[i] = u32::from_be_bytes([key[4 * i], key[4 * i + 1], key[4 * i + 2], key[4 * i + 3]]);
        }
        let mut rcon = 1u8;
        for i in 8..60 {
            let mut x = w[i - 1];
            if i % 8 == 0 {
                x = sub(x.rotate_left(8)) ^ ((rcon as u32) << 24);
                rcon = xtime(rcon);
            } else if i % 8 == 4 {
                x = sub(x);
            }
            w[i] = w[i - 8] ^ x;
        }
        // equivalent inverse cipher round keys
        let mut d = [0u32; 60];
        for r in 0..15 {
            for c in 0..4 {
                let x = w[4 * (14 - r) + c];
                d[4 * r + c] = if r == 0 || r == 14 {
                    x
                } else {
                    let b = x.to_be_bytes();
                    t.td[0][t.sbox[b[0] as usize] as usize]
                        ^ t.td[1][t.sbox[b[1] as usize] as usize]
                        ^ t.td[2][t.sbox[b[2] as usize] as usize]
                        ^ t.td[3][t.sbox[b[3] as usize] as usize]
                };
            }
        }
        Aes256 { ek: w, dk: d }
    }

    pub fn encrypt(&self, block: &[u8]) -> [u8; 16] {
        let t = tables();
        let k = &self.ek;
        let mut s = [0u32; 4];
        for c in 0..4 {
            s[c] = u32::from_be_bytes([block[4 * c], block[4 * c + 1], block[4 * c + 2], block[4 * c + 3]]) ^ k[c];
        }
        for r in 1..14 {
            let mut n = [0u32; 4];
            for c in 0..4 {
                n[c] = t.te[0][(s[c] >> 24) as usize]
                    ^ t.te[1][((s[(c + 1) & 3] >> 16) & 255) as usize]
                    ^ t.te[2][((s[(c + 2) & 3] >> 8) & 255) as usize]
                    ^ t.te[3][(s[(c + 3) & 3] & 255) as usize]
                    ^ k[4 * r + c];
            }
            s = n;
        }
        let mut out = [0u8; 16];
        for c in 0..4 {
            let x = u32::from_be_bytes([
                t.sbox[(s[c] >> 24) as usize],
                t.sbox[((s[(c + 1) & 3] >> 16) & 255) as usize],
                t.sbox[((s[(c + 2) & 3] >> 8) & 255) as usize],
                t.sbox[(s[(c + 3) & 3] & 255) as usize],
            ]) ^ k[56 + c];
            out[4 * c..4 * c + 4].copy_from_slice(&x.to_be_bytes());
        }
        out
    }

    pub fn decrypt(&self, block: &[u8]) -> [u8; 16] {
        let t = tables();
        let k = &self.dk;
        let mut s = [0u32; 4];
        for c in 0..4 {
            s[c] = u32::from_be_bytes([block[4 * c], block[4 * c + 1], block[4 * c + 2], block[4 * c + 3]]) ^ k[c];
        }
        for r in 1..14 {
            let mut n = [0u32; 4];
            for c in 0..4 {
                n[c] = t.td[0][(s[c] >> 24) as usize]
                    ^ t.td[1][((s[(c + 3) & 3] >> 16) & 255) as usize]
                    ^ t.td[2][((s[(c + 2) & 3] >> 8) & 255) as usize]
                    ^ t.td[3][(s[(c + 1) & 3] & 255) as usize]
                    ^ k[4 * r + c];
            }
            s = n;
        }
        let mut out = [0u8; 16];
        for c in 0..4 {
            let x = u32::from_be_bytes([
                t.inv[(s[c] >> 24) as usize],
                t.inv[((s[(c + 3) & 3] >> 16) & 255) as usize],
                t.inv[((s[(c + 2) & 3] >> 8) & 255) as usize],
                t.inv[(s[(c + 1) & 3] & 255) as usize],
            ]) ^ k[56 + c];
            out[4 * c..4 * c + 4].copy_from_slice(&x.to_be_bytes());
        }
        out
    }
}

pub fn cbc_encrypt_raw(key: &[u8; 32], iv: &[u8; 16], data: &[u8]) -> Vec<u8> {
    assert!(data.len() % 16 == 0);
    let aes = Aes256::new(key);
    let mut prev = *iv;
    let mut out = Vec::with_capacity(data.len());
    for b in data.chunks_exact(16) {
        let mut x = [0u8; 16];
        for i in 0..16 {
            x[i] = b[i] ^ prev[i];
        }
        prev = aes.encrypt(&x);
        out.extend_from_slice(&prev);
    }
    out
}

pub fn cbc_decrypt_raw(key: &[u8; 32], iv: &[u8; 16], data: &[u8]) -> Vec<u8> {
    assert!(data.len() % 16 == 0);
    let aes = Aes256::new(key);
    let mut prev = *iv;
    let mut out = Vec::with_capacity(data.len());
    for b in data.chunks_exact(16) {
        let d = aes.decrypt(b);
        for i in 0..16 {
            out.push(d[i] ^ prev[i]);
        }
        prev.copy_from_slice(b);
    }
    out
}

pub fn pkcs7_pad(data: &[u8]) -> Vec<u8> {
    let n = 16 - data.len() % 16;
    let mut v = data.to_vec();
    v.extend(std::iter::repeat(n as u8).take(n));
    v
}

pub fn pkcs7_unpad(data: &[u8]) -> Result<&[u8], String> {
    let n = *data.last().ok_or("empty ciphertext")? as usize;
    if n == 0 || n > 16 || n > data.len() || data[data.len() - n..].iter().any(|&b| b as usize != n) {
        return Err("bad PKCS#7 padding".into());
    }
    Ok(&data[..data.len() - n])
}

pub struct Salsa20 {
    key: [u8; 32],
    nonce: [u8; 8],
    pos: u64,
    block_no: u64,
    block: [u8; 64],
}

pub const KDBX_NONCE: [u8; 8] = [0xE8, 0x30, 0x09, 0x4B, 0x97, 0x20, 0x5D, 0x2A];

impl Salsa20 {
    pub fn new(key: &[u8; 32], nonce: &[u8; 8]) -> Salsa20 {
        let mut s = Salsa20 { key: *key, nonce: *nonce, pos: 0, block_no: u64::MAX, block: [0; 64] };
        s.fill(0);
        s
    }

    /// The inner stream of a KDBX 3.1 file with the given protected stream key.
    pub fn inner(protected_stream_key: &[u8; 32]) -> Salsa20 {
        Salsa20::new(&sha256(&[protected_stream_key]), &KDBX_NONCE)
    }

    pub fn position(&self) -> u64 {
        self.pos
    }

    fn fill(&mut self, n: u64) {
        if self.block_no == n {
            return;
        }
        let le = |b: &[u8]| u32::from_le_bytes([b[0], b[1], b[2], b[3]]);
        let k = &self.key;
        let sigma = b"expand 32-byte k";
        let ctr = n.to_le_bytes();
        let x: [u32; 16] = [
            le(&sigma[0..4]), le(&k[0..4]), le(&k[4..8]), le(&k[8..12]),
            le(&k[12..16]), le(&sigma[4..8]), le(&self.nonce[0..4]), le(&self.nonce[4..8]),
            le(&ctr[0..4]), le(&ctr[4..8]), le(&sigma[8..12]), le(&k[16..20]),
            le(&k[20..24]), le(&k[24..28]), le(&k[28..32]), le(&sigma[12..16]),
        ];
        let mut z = x;
        fn qr(z: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize) {
            z[b] ^= z[a].wrapping_add(z[d]).rotate_left(7);
            z[c] ^= z[b].wrapping_add(z[a]).rotate_left(9);
            z[d] ^= z[c].wrapping_add(z[b]).rotate_left(13);
            z[a] ^= z[d].wrapping_add(z[c]).rotate_left(18);
        }
        for _ in 0..10 {
            qr(&mut z, 0, 4, 8, 12);
            qr(&mut z, 5, 9, 13, 1);
            qr(&mut z, 10, 14, 2, 6);
            qr(&mut z, 15, 3, 7, 11);
            qr(&mut z, 0, 1, 2, 3);
            qr(&mut z, 5, 6, 7, 4);
            qr(&mut z, 10, 11, 8, 9);
            qr(&mut z, 15, 12, 13, 14);
        }
        for i in 0..16 {
            self.block[4 * i..4 * i + 4].copy_from_slice(&z[i].wrapping_add(x[i]).to_le_bytes());
        }
        self.block_no = n;
    }

    pub fn apply(&mut self, data: &[u8]) -> Vec<u8> {
        let mut out = Vec::with_capacity(data.len());
        for &b in data {
            self.fill(self.pos / 64);
            out.push(b ^ self.block[(self.pos % 64) as usize]);
            self.pos += 1;
        }
        out
    }
}

const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

pub fn b64(data: &[u8]) -> String {
    let mut s = String::with_capacity(data.len() * 4 / 3 + 4);
    for c in data.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                s.push(B64[(n >> (18 - 6 * i)) as usize & 63] as char);
            } else {
                s.push('=');
            }
        }
    }
    s
}

/// Strict RFC 4648 decoding: canonical padding, no other characters.
pub fn unb64(s: &str) -> Result<Vec<u8>, String> {
    let b = s.as_bytes();
    if b.len() % 4 != 0 {
        return Err(format!("base64 length {}", b.len()));
    }
    let mut out = Vec::with_capacity(b.len() / 4 * 3);
    let n = b.len() / 4;
    for (i, q) in b.chunks_exact(4).enumerate() {
        let pad = if i + 1 == n { q.iter().rev().take_while(|&&c| c == b'=').count() } else { 0 };
        if pad > 2 {
            return Err("base64 padding".into());
        }
        let mut v = 0u32;
        for (j, &c) in q.iter().enumerate() {
            let d = if j >= 4 - pad {
                0
            } else {
                B64.iter().position(|&x| x == c).ok_or_else(|| format!("base64 char {:?}", c as char))? as u32
            };
            v = v << 6 | d;
        }
        let bytes = [(v >> 16) as u8, (v >> 8) as u8, v as u8];
        let keep = 3 - pad;
        if bytes[keep..].iter().any(|&x| x != 0) {
            return Err("base64 trailing bits".into());
        }
        out.extend_from_slice(&bytes[..keep]);
    }
    Ok(out)
}

pub fn hex(data: &[u8]) -> String {
    data.iter().map(|b| format!("{:02x}", b)).collect()
}

pub fn unhex(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 || !s.is_ascii() {
        return None;
    }
    (0..s.len() / 2)
        .map(|i| {
            let t = &s[2 * i..2 * i + 2];
            if t.bytes().all(|c| c.is_ascii_hexdigit()) { u8::from_str_radix(t, 16).ok() } else { None }
        })
        .collect()
}

pub fn crc32(data: &[u8]) -> u32 {
    use std::sync::OnceLock;
    static T: OnceLock<[u32; 256]> = OnceLock::new();
    let t = T.get_or_init(|| {
        let mut t = [0u32; 256];
        for i in 0..256u32 {
            let mut c = i;
            for _ in 0..8 {
                c = if c & 1 != 0 { 0xEDB88320 ^ (c >> 1) } else { c >> 1 };
            }
            t[i as usize] = c;
        }
        t
    });
    let mut c = !0u32;
    for &b in data {
        c = t[((c ^ b as u32) & 255) as usize] ^ (c >> 8);
    }
    !c
}

/// One gzip member. Levels 0..=9; `name` adds the optional file name field.
pub fn gzip(data: &[u8], level: u8, name: Option<&str>) -> Vec<u8> {
    let mut out = vec![0x1f, 0x8b, 8, if name.is_some() { 8 } else { 0 }, 0, 0, 0, 0, 0, 0xff];
    if let Some(n) = name {
        out.extend(n.bytes().filter(|&b| b != 0));
        out.push(0);
    }
    out.extend(miniz_oxide::deflate::compress_to_vec(data, level));
    out.extend_from_slice(&crc32(data).to_le_bytes());
    out.extend_from_slice(&(data.len() as u32).to_le_bytes());
    out
}

/// Strict decoding of exactly one gzip member without trailing data.
pub fn gunzip(d: &[u8]) -> Result<Vec<u8>, String> {
    if d.len() < 18 || d[0] != 0x1f || d[1] != 0x8b || d[2] != 8 {
        return Err("not gzip".into());
    }
    let flags = d[3];
    let mut p = 10;
    if flags & 4 != 0 {
        let n = d[p] as usize | (*d.get(p + 1).ok_or("gzip")? as usize) << 8;
        p += 2 + n;
    }
    for bit in [8u8, 16] {
        if flags & bit != 0 {
            while *d.get(p).ok_or("gzip")? != 0 {
                p += 1;
            }
            p += 1;
        }
    }
    if flags & 2 != 0 {
        p += 2;
    }
    if p + 8 > d.len() {
        return Err("gzip too short".into());
    }
    let out = miniz_oxide::inflate::decompress_to_vec(&d[p..d.len() - 8]).map_err(|e| format!("inflate {:?}", e.status))?;
    let tail = &d[d.len() - 8..];
    if u32::from_le_bytes([tail[0], tail[1], tail[2], tail[3]]) != crc32(&out) {
        return Err("gzip crc".into());
    }
    if u32::from_le_bytes([tail[4], tail[5], tail[6], tail[7]]) != out.len() as u32 {
        return Err("gzip length".into());
    }
    Ok(out)
}

/// Known-answer tests of everything above, run at the start of every check: a wrong primitive in
/// the harness must be a harness error and never an alarm.
pub fn self_test() -> Result<(), String> {
    let ok = |c: bool, n: &str| if c { Ok(()) } else { Err(format!("self test failed: {}", n)) };
    ok(hex(&sha256(&[b""])) == "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855", "sha256 empty")?;
    ok(hex(&sha256(&[b"a", b"bc"])) == "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad", "sha256 abc")?;
    ok(
        hex(&sha256(&[b"abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq"]))
            == "248d6a61d20638b8e5c026930c3e6039a33ce45964ff2167f6ecedd419db06c1",
        "sha256 448 bits",
    )?;
    let mut key = [0u8; 32];
    let mut pt = [0u8; 16];
    for i in 0..32 {
        key[i] = i as u8;
    }
    for i in 0..16 {
        pt[i] = (i * 0x11) as u8;
    }
    let aes = Aes256::new(&key);
    let ct = aes.encrypt(&pt);
    ok(hex(&ct) == "8ea2b7ca516745bfeafc49904b496089", "aes256 FIPS 197 C.3")?;
    ok(aes.decrypt(&ct) == pt, "aes256 inverse")?;
    // NIST SP 800-38A F.2.5
    let k = unhex("603deb1015ca71be2b73aef0857d77811f352c073b6108d72d9810a30914dff4").unwrap();
    let mut kk = [0u8; 32];
    kk.copy_from_slice(&k);
    let p = unhex("6bc1bee22e409f96e93d7e117393172aae2d8a571e03ac9c9eb76fac45af8e51").unwrap();
    let c = cbc_encrypt_raw(&kk, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15], &p);
    ok(hex(&c) == "f58c4c04d6e5f1ba779eabfb5f7bfbd69cfc4e967edb808d679f777bc6702c7d", "aes256 cbc")?;
    ok(cbc_decrypt_raw(&kk, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15], &c) == p, "aes256 cbc inverse")?;
    // ECRYPT Salsa20/20 256-bit set 1 vector 0
    let mut k = [0u8; 32];
    k[0] = 0x80;
    let ks = Salsa20::new(&k, &[0; 8]).apply(&[0u8; 64]);
    ok(hex(&ks[..16]) == "e3be8fdd8beca2e3ea8ef9475b29a6e7", "salsa20 block 0")?;
    let ks = Salsa20::new(&k, &[0; 8]).apply(&[0u8; 512]);
    ok(hex(&ks[192..208]) == "57be81f47b17d9ae7c4ff15429a73e10", "salsa20 block 3")?;
    ok(b64(b"foobar") == "Zm9vYmFy" && b64(b"fooba") == "Zm9vYmE=" && b64(b"foob") == "Zm9vYg==", "base64")?;
    ok(unb64("Zm9vYg==").as_deref() == Ok(b"foob") && unb64("Zm9vYh==").is_err(), "unbase64")?;
    ok(crc32(b"123456789") == 0xcbf43926, "crc32")?;
    let z = gzip(b"hello hello hello", 6, Some("x"));
    ok(gunzip(&z).as_deref() == Ok(b"hello hello hello"), "gzip")?;
    Ok(())
}
