//! Files written by real programs (copies of those in the repository's data directory).

use crate::file::{decode_full, Full};
use crate::model::*;

pub const N: usize = 3;

const FILES: [(&[u8], Option<&[u8]>, Option<&str>); N] = [
    (include_bytes!("../samples/db-password.kdbx"), None, Some("test")),
    (include_bytes!("../samples/db-key-file.kdbx"), Some(include_bytes!("../samples/db-key-file.key")), None),
    (include_bytes!("../samples/db-both.kdbx"), Some(include_bytes!("../samples/db-both.key")), Some("test")),
];

/// The file, its credentials, and its content by the harness's own decoder.
pub fn sample(i: usize) -> Result<(&'static [u8], MCreds, Full), String> {
    let (file, key, pw) = FILES[i % N];
    let keyfile = match key {
        None => None,
        Some(k) => {
            // an XML key file on one line
            let t = String::from_utf8_lossy(k);
            let b = t.split("<Data>").nth(1).and_then(|r| r.split("</Data>").next()).ok_or("sample key file")?;
            Some(MKeyFile { key: Bytes(crate::crypto::unb64(b)?), ty: KfType::Xml })
        }
    };
    let c = MCreds { password: pw.map(|p| p.to_string()), keyfile };
    let full = decode_full(file, &c, false)?;
    Ok((file, c, full))
}

pub fn key_file(i: usize) -> Option<&'static [u8]> {
    FILES[i % N].1
}
