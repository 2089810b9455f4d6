//! Whole files built by the harness's own encoder.

use crate::crypto::*;
use crate::kdbx::*;
use crate::model::*;
use crate::xmlmap::*;
use crate::xmlmini::{serialize, El};

/// Header of a laid-out file: the standard fields in a seeded order.
pub fn header(db: &MDb, l: &Layout, salts: &Salts) -> Header {
    let mut h = Header::standard(salts, db.gzip, db.rounds, db.comment.as_ref().map(|c| &c.0[..]), db.version);
    if l.hdr_seed != 0 {
        let mut r = Roller::new(l.hdr_seed);
        for i in (1..h.fields.len()).rev() {
            let j = r.below(i + 1);
            h.fields.swap(i, j);
        }
    }
    h.end = l.hdr_end.clone();
    h
}

/// Everything needed to finish a file from a (possibly damaged) XML tree.
pub struct Parts {
    pub header: Header,
    pub salts: Salts,
    pub key: [u8; 32],
}

pub fn parts(db: &MDb, l: &Layout, creds: &MCreds, seed: u64) -> Parts {
    let salts = Salts::from_seed(seed);
    let header = header(db, l, &salts);
    let key = final_key(&creds.composite(), &salts.master_seed, &salts.transform_seed, db.rounds);
    Parts { header, salts, key }
}

impl Parts {
    /// Adds the header hash (if the layout wants one) and encrypts the protected values.
    pub fn finish_xml(&self, mut root: El, l: &Layout) -> El {
        if l.header_hash {
            add_header_hash(&mut root, &sha256(&[&self.header.bytes()]), l.seed);
        }
        seal(&mut root, &mut Salsa20::inner(&self.salts.stream_key));
        root
    }
    pub fn compress(&self, xml: &[u8], l: &Layout) -> Vec<u8> {
        if self.header.gzip().unwrap_or(false) {
            gzip(xml, l.gz_level, if l.gz_name { Some("db.xml") } else { None })
        } else {
            xml.to_vec()
        }
    }
    pub fn file_from_xml_bytes(&self, xml: &[u8], l: &Layout) -> Vec<u8> {
        let blocks = split_blocks(&self.compress(xml, l), &l.blocks);
        self.file_from_payload(&payload(&self.salts.start, &blocks))
    }
    pub fn file_from_payload(&self, p: &[u8]) -> Vec<u8> {
        seal_file(&self.header.bytes(), &self.key, &self.salts.iv, p)
    }
}

/// A complete file.
pub fn encode(db: &MDb, l: &Layout, creds: &MCreds, seed: u64) -> Vec<u8> {
    let p = parts(db, l, creds, seed);
    let root = p.finish_xml(to_xml(db, l), l);
    p.file_from_xml_bytes(&serialize(&root, &l.style), l)
}

/// Decodes a file with the harness's decoder.
pub struct Full {
    pub dec: Decoded,
    pub tree: El,
    pub db: MDb,
    pub extra: Extra,
}

pub fn decode_full(file: &[u8], creds: &MCreds, strict: bool) -> Result<Full, String> {
    let dec = decode(file, &creds.composite())?;
    let tree = crate::xmlmini::parse(&dec.xml)?;
    let mut cipher = Salsa20::inner(&dec.salts.stream_key);
    let (meta, root, extra) = from_xml(&tree, &mut cipher, strict)?;
    let db = MDb {
        comment: dec.header.field(COMMENT).map(|c| Bytes(c.to_vec())),
        gzip: dec.header.gzip()?,
        rounds: dec.header.rounds()?,
        version: dec.header.version,
        meta,
        root,
    };
    Ok(Full { dec, tree, db, extra })
}
