//! Nothing but the given streams is used.

use super::common::*;
use super::*;
use crate::ensure;
use crate::outside;

/// The histories, contents and failures of the other properties, judged by what they ask of the
/// system; whether their results are right is not judged here.
macro_rules! watched {
    ($name:literal, $quick:literal, $thorough:literal, $strat:expr, $check:path) => {
        lane($name, $quick, $thorough, $strat, |c, o: &mut Obs| {
            let mut inner = Obs::default();
            let (_, seen) = outside::during(|| guard(|| $check(c, &mut inner)));
            o.nontrivial = inner.nontrivial;
            o.evals = inner.evals;
            ensure!(seen.is_empty(), "the surroundings were used: {}", seen.join("; "));
            Ok(())
        })
    };
}

fn control(_: &u8, o: &mut Obs) -> Check {
    o.nontrivial = true;
    outside::self_test()
}

pub fn prop() -> Prop {
    Prop {
        id: "C34",
        rule: "as for the property whose cases are run",
        assumptions: &["what is not done through the functions of the C library is not seen"],
        lanes: vec![
            lane("control", 1, 1, || proptest::strategy::Just(0u8).boxed(), control),
            watched!("mixed", 400, 15_000, || c26::strat(1..2, 2..20), c26::check_sequence),
            watched!("contents", 400, 10_000, c01::normal, c01::check),
            watched!("large", 6, 60, c01::big, c01::check),
            watched!("sessions", 300, 10_000, c22::strat, c22::check),
            watched!("edits", 300, 10_000, c15::strat, c15::check),
            watched!("searches", 150, 4_000, c13::strat, c13::check),
            watched!("fields", 300, 10_000, c16::estrat, c16::entry_ops),
            watched!("spoilt", 400, 10_000, c23::strat, c23::check),
            watched!("failing streams", 16, 400, c10::strat, c10::check),
            watched!("damaged", 500, 20_000, c03::damaged, c03::check_damaged),
            watched!("inner", 600, 20_000, c03::inner, c03::check_inner),
            watched!("elements", 500, 20_000, c03::tree, c03::check_tree),
            watched!("wrong", 400, 10_000, c27::open_s, c27::check_open),
            watched!("unsavable", 200, 5_000, c27::save_s, c27::check_save),
            watched!("key files", 500, 20_000, c03::keydata, c03::check_key),
            watched!("new key files", 100, 2_000, || proptest::arbitrary::any::<u64>().boxed(), c11::fresh),
        ],
    }
}
