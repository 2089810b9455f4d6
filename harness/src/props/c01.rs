//! Round trip through the library's own writer and reader.

use super::common::*;
use crate::ensure;

pub(super) type Case = (MDb, MCreds);

pub(super) fn check((m, c): &Case, o: &mut Obs) -> Check {
    let n = features(m, o);
    o.nontrivial = m.root.count_entries() > 0 && n >= 6;
    o.evals = 4;
    let d = conv::database(m, c);
    let file = save(&d)?;
    // saving leaves the database as it was
    same("database after save", m, &conv::from_db(&d)?)?;
    let d2 = open_ok(&file, c)?;
    let exp = m.as_saved();
    same("reopened", &exp, &conv::from_db(&d2)?)?;
    // the reopened database is as good as the original
    let file2 = save(&d2)?;
    ensure!(file2 != file, "two saves produced identical bytes");
    let d3 = open_ok(&file2, c).map_err(|e| format!("second generation: {}", e))?;
    same("second generation", &exp, &conv::from_db(&d3)?)
}

pub(super) fn normal() -> BoxedStrategy<Case> {
    (gen::db(), gen::creds()).boxed()
}
fn times() -> BoxedStrategy<Case> {
    (gen::db_extreme_times(), gen::creds()).boxed()
}
pub(super) fn big() -> BoxedStrategy<Case> {
    (gen::db_big(), gen::creds()).boxed()
}

fn nested() -> BoxedStrategy<Chain> {
    use proptest::sample::select;
    chain(prop_oneof![3 => 1u32..=1000, 1 => Just(1000), 1 => select(vec![127u32, 128, 129, 255, 256, 257, 511, 512, 513, 998, 999, 1000])].boxed())
}

fn check_nested(ch: &Chain, o: &mut Obs) -> Check {
    o.nontrivial = ch.depth > 100;
    o.evals = 2;
    o.class_if(ch.depth > 100, "depth > 100");
    o.class_if(ch.depth > 500, "depth > 500");
    let m = ch.db();
    let c = MCreds::pw("p");
    let d = conv::database(&m, &c);
    let d2 = small_stack(|| open_ok(&save(&d)?, &c))?;
    let got = conv::from_db(&d2)?;
    small_stack(move || drop(d2));
    same("reopened", &m.as_saved(), &got)
}

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        rule: "the database has at least one entry and exercises at least six of the feature classes counted under 'classes' (subgroups, history, protected string, attachments, whitespace-only text, ...)",
        assumptions: &[
            "history items have no history of their own",
            "StringKey::Other never holds a case variant of a standard key",
            "identifiers may repeat, except as keys of custom icons",
            "transform rounds up to 6000; rich content on trees up to 48 levels deep, chains of groups up to 1000",
        ],
        lanes: vec![
            lane("roundtrip", 3000, 60_000, normal, check),
            lane("any-time", 800, 10_000, times, check),
            lane("large", 24, 300, big, check),
            lane("nested", 120, 2_000, nested, check_nested),
        ],
    }
}
