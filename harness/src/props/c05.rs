//! Saved files decode with the harness's own strict implementation.

use super::common::*;
use crate::crypto::sha256;
use crate::ensure;

type Case = (MDb, MCreds);

fn check((m, c): &Case, o: &mut Obs) -> Check {
    let n = features(m, o);
    o.nontrivial = m.root.count_entries() > 0 && n >= 6;
    let d = conv::database(m, c);
    let file = save(&d)?;
    verify(&file, m, c)?;
    // a file that was opened and saved again
    let d2 = open_ok(&file, c)?;
    let file2 = save(&d2)?;
    o.evals = 3;
    verify(&file2, &m.as_saved(), c).map_err(|e| format!("saved after reopening: {}", e))
}

pub fn verify(file: &[u8], m: &MDb, c: &MCreds) -> Check {
    let full = decode_full(file, c, true).map_err(|e| format!("not a standard file: {}", e))?;
    let h = &full.dec.header;
    for id in kdbx::REQUIRED {
        ensure!(h.field(id).is_some(), "header field {} is missing", id);
    }
    let extra: Vec<u8> = h.fields.iter().map(|f| f.0).filter(|i| !kdbx::REQUIRED.contains(i) && *i != kdbx::COMMENT).collect();
    ensure!(extra.is_empty(), "unknown header fields {:?}", extra);
    let want = sha256(&[&file[..full.dec.header_len]]);
    ensure!(full.extra.header_hash.as_deref() == Some(&want[..]), "header hash {:?} is not that of the header", full.extra.header_hash);
    ensure!(full.extra.root_present, "no root group");
    let mut prot = 0;
    m.root.walk_entries(true, &mut |e| {
        prot += e.strings.values().filter(|v| v.p).count();
        prot += e.binaries.values().filter(|b| matches!(b, MBin::Protected(_))).count();
    });
    ensure!(full.extra.protected == prot, "{} protected values in the file, {} in the database", full.extra.protected, prot);
    ensure!(full.dec.blocks > 0, "no data block");
    same("content of the saved file", &m.as_saved(), &full.db)
}

fn strat() -> BoxedStrategy<Case> {
    (gen::db(), gen::creds()).boxed()
}
fn big() -> BoxedStrategy<Case> {
    (gen::db_big(), gen::creds()).boxed()
}

pub fn prop() -> Prop {
    Prop {
        id: "C05",
        rule: "the database has at least one entry and exercises at least six of the feature classes counted under 'classes'",
        assumptions: &[
            "the independent implementation is the harness's own (SHA-256, AES, Salsa20, XML, dates, container), checked by known-answer vectors at start",
            "dates in the years 0000 to 9999",
        ],
        lanes: vec![lane("decode", 3000, 60_000, strat, check), lane("large", 16, 200, big, check)],
    }
}
