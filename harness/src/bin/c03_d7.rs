//! Known finding D7: the long form of the string macros with four or more keys of which one is an
//! expression. While the defect is there this program doesn't compile.
use frozen_collections::*;
fz_string_map!(static S: St<&'static str, u64>, {"a": 1u64, "bb": 2u64, "ccc": 3u64, ("dddd"): 4u64});
fn main() {
    fz_string_map!(let m: Mt<&'static str, u64>, {"a": 1u64, "bb": 2u64, "ccc": 3u64, ("dddd"): 4u64});
    fz_string_set!(let s: Ss<&'static str>, {"a", "bb", "ccc", ("dddd")});
    for (i, k) in ["a", "bb", "ccc", "dddd"].into_iter().enumerate() {
        assert_eq!(m.get(k), Some(&(i as u64 + 1)));
        assert_eq!(S.get(k), Some(&(i as u64 + 1)));
        assert!(s.contains(k));
    }
    assert!(m.get("x").is_none() && !s.contains("") && m.len() == 4 && s.len() == 4);
}
