//! Value conversions.

use super::common::*;
use crate::crypto::unhex;
use crate::ensure;
use kpdb::{Color, Icon, Obfuscation, StringKey};
use proptest::collection::vec;
use proptest::sample::select;

fn color_text(v: &Vec<String>, o: &mut Obs) -> Check {
    o.evals = v.len() as u64;
    for s in v {
        let exp = match s.strip_prefix('#') {
            Some(h) if h.len() == 6 && h.bytes().all(|b| b.is_ascii_hexdigit()) => unhex(h),
            _ => None,
        };
        o.class(if exp.is_some() { "color" } else { "no color" });
        o.nontrivial |= exp.is_some() || s.chars().count() == 7;
        let got = guard(|| Color::from_hex_string(s)).map_err(|p| format!("from_hex_string({:?}): {}", s, p))?;
        match (exp, got) {
            (Some(e), Ok(c)) => {
                ensure!([c.red, c.green, c.blue] == e[..], "{:?} is read as ({}, {}, {})", s, c.red, c.green, c.blue);
                let back = c.to_hex_string();
                ensure!(back.eq_ignore_ascii_case(s), "{:?} is written as {:?}", s, back);
            }
            (None, Err(_)) => {}
            (Some(_), Err(e)) => return Err(format!("{:?} is rejected: {:?}", s, e)),
            (None, Ok(c)) => return Err(format!("{:?} is accepted as ({}, {}, {})", s, c.red, c.green, c.blue)),
        }
    }
    Ok(())
}

fn texts() -> BoxedStrategy<Vec<String>> {
    let hexd = || select("0123456789abcdefABCDEF".chars().collect::<Vec<_>>());
    let near = (vec(hexd(), 6), 0usize..8, prop_oneof![any::<char>(), select("gG/:@`+- #é٣０\0\u{10ffff}xX.".chars().collect::<Vec<_>>())], 0u8..5).prop_map(|(h, i, c, how)| {
        let mut v: Vec<char> = std::iter::once('#').chain(h).collect();
        match how {
            0 => {
                let i = i % v.len();
                v[i] = c
            }
            1 => v.insert(i % 8, c),
            2 => {
                v.remove(i % 7);
            }
            3 => v.truncate(i),
            _ => {}
        }
        v.into_iter().collect::<String>()
    });
    let s = prop_oneof![
        3 => vec(hexd(), 6).prop_map(|v| format!("#{}", v.into_iter().collect::<String>())),
        5 => near,
        1 => gen::any_text(),
        // seven bytes or seven characters with others than ASCII
        2 => vec(select("#0aé€\u{10ffff}+".chars().collect::<Vec<_>>()), 2..8).prop_map(|v| v.into_iter().collect::<String>()),
    ];
    vec(s, 1..60).boxed()
}

/// All colors with the given red part.
fn all_colors(red: &u8, o: &mut Obs) -> Check {
    o.nontrivial = true;
    o.evals = 65536;
    for n in 0..=65535u32 {
        let (g, b) = ((n >> 8) as u8, n as u8);
        let c = Color { red: *red, green: g, blue: b };
        let s = c.to_hex_string();
        let h = s.strip_prefix('#').filter(|h| h.len() == 6).and_then(unhex);
        ensure!(h.as_deref() == Some(&[*red, g, b][..]), "({}, {}, {}) is written as {:?}", red, g, b, s);
        let back = Color::from_hex_string(&s).map_err(|e| format!("{:?}: {:?}", s, e))?;
        ensure!(back == c, "{:?} is read as ({}, {}, {})", s, back.red, back.green, back.blue);
        if n % 7 == 0 {
            let up = s.to_uppercase();
            let back = Color::from_hex_string(&up).map_err(|e| format!("{:?}: {:?}", up, e))?;
            ensure!(back == c, "{:?} is read as ({}, {}, {})", up, back.red, back.green, back.blue);
        }
    }
    Ok(())
}

fn reds(_: Tier) -> Vec<u8> {
    (0..=255).collect()
}

/// Numbers from..from+n
type Range = (i64, i64);

fn numbers((from, n): &Range, o: &mut Obs) -> Check {
    o.nontrivial = true;
    o.evals = *n as u64 * 2;
    for k in *from..from + n {
        let i = k as i32;
        match Icon::from_i32(i) {
            Ok(x) => {
                ensure!((0..=68).contains(&i), "icon {} is accepted as {:?}", i, x);
                ensure!(conv::icon_number(&x) == i, "icon {} is {:?}", i, x);
                let back = x.to_i32();
                ensure!(back == i, "icon {} converts back to {}", i, back);
            }
            Err(_) => ensure!(!(0..=68).contains(&i), "icon {} is rejected", i),
        }
        match Obfuscation::from_i32(i) {
            Ok(x) => {
                ensure!((0..=1).contains(&i), "obfuscation {} is accepted", i);
                ensure!((x == Obfuscation::None) == (i == 0), "obfuscation {} is {:?}", i, x);
                ensure!(x.to_i32() == i, "obfuscation {} converts back to {}", i, x.to_i32());
            }
            Err(_) => ensure!(!(0..=1).contains(&i), "obfuscation {} is rejected", i),
        }
    }
    Ok(())
}

fn ranges(t: Tier) -> Vec<Range> {
    let mut v = vec![(-1000, 1000), (0, 1), (1, 1), (2, 66), (68, 1), (69, 1), (70, 5000), (i32::MIN as i64, 2000), (i32::MAX as i64 - 1999, 2000)];
    // multiples of powers of two around the valid range (truncating conversions)
    for s in 7..31 {
        v.push(((1i64 << s) - 5, 80));
        v.push((-(1i64 << s) - 5, 80));
    }
    let step = match t {
        Tier::Quick => 1i64 << 26,
        Tier::Thorough => 1i64 << 22,
    };
    let len = match t {
        Tier::Quick => 4000,
        Tier::Thorough => 1i64 << 22,
    };
    let mut k = i32::MIN as i64;
    while k < i32::MAX as i64 {
        v.push((k, len.min(i32::MAX as i64 - k + 1)));
        k += step;
    }
    v
}

fn key_text(v: &Vec<String>, o: &mut Obs) -> Check {
    o.evals = v.len() as u64;
    for s in v {
        let std = [("notes", StringKey::Notes), ("password", StringKey::Password), ("title", StringKey::Title), ("url", StringKey::Url), ("username", StringKey::Username)];
        let hit = std.iter().find(|(n, _)| s.eq_ignore_ascii_case(n));
        let got = guard(|| StringKey::from_string(s)).map_err(|p| format!("StringKey::from_string({:?}): {}", s, p))?;
        match hit {
            Some((n, k)) => {
                o.nontrivial = true;
                o.class(n);
                ensure!(got == *k, "{:?} is read as {:?}", s, got);
                let name = got.to_string();
                ensure!(name == conv::key_name(k), "{:?} is named {:?}", got, name);
                ensure!(StringKey::from_string(&name) == got, "{:?} is not read back", name);
            }
            None => {
                // a name that only some foldings equate with a standard one is left open
                if std.iter().any(|(n, _)| s.to_lowercase() == *n || s.to_uppercase() == n.to_uppercase()) {
                    continue;
                }
                o.class("other");
                ensure!(got == StringKey::Other(s.clone()), "{:?} is read as {:?}", s, got);
                ensure!(got.to_string() == *s, "{:?} is named {:?}", got, got.to_string());
            }
        }
    }
    Ok(())
}

fn select_at(c: &[char], m: u8) -> char {
    c[m as usize % c.len()]
}

fn names() -> BoxedStrategy<Vec<String>> {
    let std = || select(vec!["Notes", "Password", "Title", "URL", "UserName"]);
    let s = prop_oneof![
        4 => (std(), any::<u16>()).prop_map(|(s, m)| s.chars().enumerate().map(|(i, c)| if m >> i & 1 == 1 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect::<String>()),
        2 => (std(), any::<u32>(), any::<char>()).prop_map(|(s, i, c)| {
            let mut v: Vec<char> = s.chars().collect();
            let k = at(i, v.len());
            v[k] = c;
            v.into_iter().collect::<String>()
        }),
        1 => (std(), select(vec![" ", "s", "\0", "\n", "\u{200b}", "_", "."])).prop_map(|(a, b)| format!("{}{}", a, b)),
        1 => (std(), select(vec![" ", "s", "\0", "\n", "\u{feff}"])).prop_map(|(a, b)| format!("{}{}", b, a)),
        1 => std().prop_map(|s| s[..s.len() - 1].to_string()),
        1 => gen::known_name(),
        2 => (std(), any::<u32>(), select(vec!['\u{307}', '\u{301}', '\u{308}', '\u{200d}', '\u{ad}', 'ı', 'i', '\u{feff}'])).prop_map(|(s, i, c)| {
            let mut v: Vec<char> = s.chars().collect();
            v.insert(at(i, s.len() + 1), c);
            v.into_iter().collect::<String>()
        }),
        2 => (std(), any::<u8>()).prop_map(|(s, m)| {
            // letters that look the same or fold to the same
            let alike = |c: char| match c.to_ascii_lowercase() {
                'i' => select_at(&['İ', 'ı', 'і', 'í', 'i'], m),
                's' => select_at(&['ſ', 'ѕ', 'ß', 's'], m),
                'o' => select_at(&['ο', 'о', '0', 'o'], m),
                'e' => select_at(&['е', 'é', '€', 'e'], m),
                'l' => select_at(&['1', 'Ⅼ', 'ł', 'I'], m),
                'u' => select_at(&['υ', 'ü', 'v', 'u'], m),
                c => c,
            };
            s.chars().enumerate().map(|(i, c)| if m >> (i % 8) & 1 == 1 { alike(c) } else { c }).collect::<String>()
        }),
        1 => select(vec!["User Name", "User", "Pass", "PasswordX", "Uri", "titel", "note", "Ｔitle", "Tıtle", "paſſword", "", "Login", "Website", "KPH: x"]).prop_map(|s| s.to_string()),
        2 => gen::any_text(),
    ];
    vec(s, 1..60).boxed()
}

pub fn prop() -> Prop {
    Prop {
        id: "C17",
        rule: "a valid value, or an invalid one of the right length; all 2^24 colors and every number range count",
        assumptions: &["names that only non-ASCII case folding equates with a standard name are left open"],
        lanes: vec![
            lane("color-text", 2500, 60_000, texts, color_text),
            Box::new(EnumLane { name: "all-colors", cases: reds, check: all_colors }),
            Box::new(EnumLane { name: "numbers", cases: ranges, check: numbers }),
            lane("string-keys", 2500, 60_000, names, key_text),
        ],
    }
}
