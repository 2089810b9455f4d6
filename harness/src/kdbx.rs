//! An independent implementation of the KDBX 3.1 container: header, key derivation, payload blocks.

use crate::crypto::*;
use crate::model::Bytes;
use serde::{Deserialize, Serialize};

pub const SIG1: [u8; 4] = [0x03, 0xD9, 0xA2, 0x9A];
pub const SIG2: [u8; 4] = [0x67, 0xFB, 0x4B, 0xB5];
pub const SIG2_KDB1: [u8; 4] = [0x65, 0xFB, 0x4B, 0xB5];
pub const AES_ID: [u8; 16] =
    [0x31, 0xC1, 0xF2, 0xE6, 0xBF, 0x71, 0x43, 0x50, 0xBE, 0x58, 0x05, 0x21, 0x6A, 0xFC, 0x5A, 0xFF];

pub const END: u8 = 0;
pub const COMMENT: u8 = 1;
pub const CIPHER: u8 = 2;
pub const COMPRESSION: u8 = 3;
pub const MASTER_SEED: u8 = 4;
pub const TRANSFORM_SEED: u8 = 5;
pub const ROUNDS: u8 = 6;
pub const IV: u8 = 7;
pub const STREAM_KEY: u8 = 8;
pub const START: u8 = 9;
pub const STREAM_CIPHER: u8 = 10;

/// The nine mandatory fields.
pub const REQUIRED: [u8; 9] =
    [CIPHER, COMPRESSION, MASTER_SEED, TRANSFORM_SEED, ROUNDS, IV, STREAM_KEY, START, STREAM_CIPHER];

pub fn size_of(id: u8) -> Option<usize> {
    Some(match id {
        CIPHER | IV => 16,
        COMPRESSION | STREAM_CIPHER => 4,
        MASTER_SEED | TRANSFORM_SEED | STREAM_KEY | START => 32,
        ROUNDS => 8,
        _ => return None,
    })
}

/// A header as a list of fields in file order (without the end field).
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Header {
    pub sig1: [u8; 4],
    pub sig2: [u8; 4],
    pub version: (u16, u16), // major, minor
    pub fields: Vec<(u8, Bytes)>,
    pub end: Bytes,
}

/// The secrets of one file.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Salts {
    pub master_seed: [u8; 32],
    pub transform_seed: [u8; 32],
    pub iv: [u8; 16],
    pub stream_key: [u8; 32],
    pub start: [u8; 32],
}

impl Salts {
    pub fn from_seed(seed: u64) -> Salts {
        let b = pattern(144, seed);
        let a32 = |o: usize| <[u8; 32]>::try_from(&b[o..o + 32]).unwrap();
        Salts {
            master_seed: a32(0),
            transform_seed: a32(32),
            stream_key: a32(64),
            start: a32(96),
            iv: <[u8; 16]>::try_from(&b[128..144]).unwrap(),
        }
    }
}

/// `n` pseudo-random bytes.
pub fn pattern(n: usize, seed: u64) -> Vec<u8> {
    let mut out = Vec::with_capacity(n + 8);
    let mut i = 0u64;
    while out.len() < n {
        out.extend_from_slice(&crate::rng::mix(seed.wrapping_mul(0x2545_F491_4F6C_DD1D).wrapping_add(i)).to_le_bytes());
        i += 1;
    }
    out.truncate(n);
    out
}

impl Header {
    pub fn standard(salts: &Salts, gzip: bool, rounds: u64, comment: Option<&[u8]>, version: (u16, u16)) -> Header {
        let mut fields = Vec::new();
        if let Some(c) = comment {
            fields.push((COMMENT, Bytes(c.to_vec())));
        }
        fields.push((CIPHER, Bytes(AES_ID.to_vec())));
        fields.push((COMPRESSION, Bytes((gzip as u32).to_le_bytes().to_vec())));
        fields.push((MASTER_SEED, Bytes(salts.master_seed.to_vec())));
        fields.push((TRANSFORM_SEED, Bytes(salts.transform_seed.to_vec())));
        fields.push((ROUNDS, Bytes(rounds.to_le_bytes().to_vec())));
        fields.push((IV, Bytes(salts.iv.to_vec())));
        fields.push((STREAM_KEY, Bytes(salts.stream_key.to_vec())));
        fields.push((START, Bytes(salts.start.to_vec())));
        fields.push((STREAM_CIPHER, Bytes(2u32.to_le_bytes().to_vec())));
        Header { sig1: SIG1, sig2: SIG2, version, fields, end: Bytes(b"\r\n\r\n".to_vec()) }
    }

    pub fn bytes(&self) -> Vec<u8> {
        let mut o = Vec::new();
        o.extend_from_slice(&self.sig1);
        o.extend_from_slice(&self.sig2);
        o.extend_from_slice(&self.version.1.to_le_bytes());
        o.extend_from_slice(&self.version.0.to_le_bytes());
        for (id, data) in self.fields.iter().chain(std::iter::once(&(END, self.end.clone()))) {
            o.push(*id);
            o.extend_from_slice(&(data.0.len() as u16).to_le_bytes());
            o.extend_from_slice(&data.0);
        }
        o
    }

    /// Strict parse; returns the header and its length.
    pub fn parse(b: &[u8]) -> Result<(Header, usize), String> {
        let take = |i: usize, n: usize| b.get(i..i + n).ok_or_else(|| format!("file ends in the header at {}", i));
        let mut h = Header {
            sig1: take(0, 4)?.try_into().unwrap(),
            sig2: take(4, 4)?.try_into().unwrap(),
            version: (0, 0),
            fields: Vec::new(),
            end: Bytes::default(),
        };
        if h.sig1 != SIG1 || h.sig2 != SIG2 {
            return Err("wrong signature".into());
        }
        let v = take(8, 4)?;
        h.version = (u16::from_le_bytes([v[2], v[3]]), u16::from_le_bytes([v[0], v[1]]));
        let mut i = 12;
        loop {
            let f = take(i, 3)?;
            let (id, n) = (f[0], u16::from_le_bytes([f[1], f[2]]) as usize);
            let data = take(i + 3, n)?.to_vec();
            i += 3 + n;
            if id == END {
                h.end = Bytes(data);
                return Ok((h, i));
            }
            if id > STREAM_CIPHER {
                return Err(format!("unknown header field {}", id));
            }
            if let Some(s) = size_of(id) {
                if s != n {
                    return Err(format!("header field {} has size {}", id, n));
                }
            }
            if h.fields.iter().any(|(k, _)| *k == id) {
                return Err(format!("header field {} appears twice", id));
            }
            h.fields.push((id, Bytes(data)));
        }
    }

    pub fn field(&self, id: u8) -> Option<&[u8]> {
        self.fields.iter().find(|(k, _)| *k == id).map(|(_, v)| &v.0[..])
    }

    fn arr<const N: usize>(&self, id: u8) -> Result<[u8; N], String> {
        self.field(id).and_then(|v| v.try_into().ok()).ok_or_else(|| format!("header field {} is missing", id))
    }

    pub fn salts(&self) -> Result<Salts, String> {
        Ok(Salts {
            master_seed: self.arr(MASTER_SEED)?,
            transform_seed: self.arr(TRANSFORM_SEED)?,
            iv: self.arr(IV)?,
            stream_key: self.arr(STREAM_KEY)?,
            start: self.arr(START)?,
        })
    }
    pub fn rounds(&self) -> Result<u64, String> {
        Ok(u64::from_le_bytes(self.arr(ROUNDS)?))
    }
    pub fn gzip(&self) -> Result<bool, String> {
        match u32::from_le_bytes(self.arr(COMPRESSION)?) {
            0 => Ok(false),
            1 => Ok(true),
            n => Err(format!("compression {}", n)),
        }
    }
}

/// The final key of KDBX 3.1.
pub fn final_key(composite: &[u8; 32], salts_master: &[u8; 32], transform_seed: &[u8; 32], rounds: u64) -> [u8; 32] {
    let aes = Aes256::new(transform_seed);
    let mut a: [u8; 16] = composite[..16].try_into().unwrap();
    let mut b: [u8; 16] = composite[16..].try_into().unwrap();
    for _ in 0..rounds {
        a = aes.encrypt(&a);
        b = aes.encrypt(&b);
    }
    let transformed = sha256(&[&a, &b]);
    sha256(&[salts_master, &transformed])
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Block {
    pub id: u32,
    pub hash: Bytes,
    pub size: u32,
    pub data: Bytes,
}

impl Block {
    pub fn good(id: u32, data: Vec<u8>) -> Block {
        Block { id, hash: Bytes(sha256(&[&data]).to_vec()), size: data.len() as u32, data: Bytes(data) }
    }
    pub fn last(id: u32) -> Block {
        Block { id, hash: Bytes(vec![0; 32]), size: 0, data: Bytes(Vec::new()) }
    }
    pub fn put(&self, o: &mut Vec<u8>) {
        o.extend_from_slice(&self.id.to_le_bytes());
        o.extend_from_slice(&self.hash.0);
        o.extend_from_slice(&self.size.to_le_bytes());
        o.extend_from_slice(&self.data.0);
    }
}

/// Cuts `data` at the cyclic chunk sizes; an empty `sizes` means one block.
pub fn split_blocks(data: &[u8], sizes: &[u32]) -> Vec<Block> {
    let mut out = Vec::new();
    let (mut i, mut k) = (0, 0);
    while i < data.len() {
        let n = if sizes.is_empty() { data.len() } else { sizes[k % sizes.len()].max(1) as usize };
        let e = (i + n).min(data.len());
        out.push(Block::good(k as u32, data[i..e].to_vec()));
        i = e;
        k += 1;
    }
    out.push(Block::last(k as u32));
    out
}

/// start bytes followed by the blocks
pub fn payload(start: &[u8], blocks: &[Block]) -> Vec<u8> {
    let mut o = start.to_vec();
    for b in blocks {
        b.put(&mut o);
    }
    o
}

/// Header bytes followed by the payload encrypted with the final key.
pub fn seal_file(header: &[u8], key: &[u8; 32], iv: &[u8; 16], payload: &[u8]) -> Vec<u8> {
    let mut o = header.to_vec();
    o.extend_from_slice(&cbc_encrypt_raw(key, iv, &pkcs7_pad(payload)));
    o
}

#[derive(Clone, Debug)]
pub struct Decoded {
    pub header: Header,
    pub header_len: usize,
    pub salts: Salts,
    pub payload: Vec<u8>,
    pub blocks: usize,
    pub xml: Vec<u8>,
}

/// Strict decoder.
pub fn decode(file: &[u8], composite: &[u8; 32]) -> Result<Decoded, String> {
    let (header, n) = Header::parse(file)?;
    let salts = header.salts()?;
    if header.field(CIPHER) != Some(&AES_ID[..]) {
        return Err("cipher is missing or not AES".into());
    }
    if header.field(STREAM_CIPHER) != Some(&[2, 0, 0, 0][..]) {
        return Err("inner stream is missing or not Salsa20".into());
    }
    let gzip = header.gzip()?;
    let key = final_key(composite, &salts.master_seed, &salts.transform_seed, header.rounds()?);
    let enc = &file[n..];
    if enc.is_empty() || enc.len() % 16 != 0 {
        return Err(format!("encrypted payload has {} bytes", enc.len()));
    }
    let dec = cbc_decrypt_raw(&key, &salts.iv, enc);
    let payload = pkcs7_unpad(&dec)?.to_vec();
    if payload.len() < 32 || payload[..32] != salts.start {
        return Err("start bytes differ (wrong key)".into());
    }
    let mut data = Vec::new();
    let (mut i, mut k) = (32, 0u32);
    loop {
        let h = payload.get(i..i + 40).ok_or("payload ends in a block header")?;
        let id = u32::from_le_bytes(h[..4].try_into().unwrap());
        let size = u32::from_le_bytes(h[36..40].try_into().unwrap()) as usize;
        if id != k {
            return Err(format!("block {} has number {}", k, id));
        }
        i += 40;
        if size == 0 {
            if h[4..36] != [0; 32] {
                return Err("final block has a hash".into());
            }
            break;
        }
        let d = payload.get(i..i + size).ok_or("payload ends in a block")?;
        if sha256(&[d]) != h[4..36] {
            return Err(format!("hash of block {} is wrong", k));
        }
        data.extend_from_slice(d);
        i += size;
        k += 1;
    }
    if i != payload.len() {
        return Err(format!("{} bytes after the final block", payload.len() - i));
    }
    let xml = if gzip { gunzip(&data)? } else { data };
    Ok(Decoded { header, header_len: n, salts, payload, blocks: k as usize, xml })
}
