PROP = "T01"
FILE = "bfffs-core/src/property.rs"
EDITS = [("            Self::LOCAL => \"local\".fmt(f),\n            _ => \"inherited\".fmt(f)\n", "            Self::LOCAL => \"local\".fmt(f),\n            Self::FROM_PARENT | Self::FROM_GRANDPARENT =>\n                \"inherited\".fmt(f),\n            Self::Set(i) => write!(f, \"inherited from {i}\"),\n")]
NEEDS = "a property inherited from a great-grandparent or further up"
BREAKS = "its source prints as something that is not the documented name and does not read back"
DEMO = r'''//% thiserror = "1"
//% serde = { version = "1", features = ["derive"] }
//% serde_derive = "1"
//% speedy = { version = "0.8", features = ["uuid"] }
#![allow(dead_code, unused_imports)]
#[path = "@REPO@/bfffs-core/src/property.rs"] mod property;
use property::*;
use std::str::FromStr;

fn main() {
    for i in 0..=255u8 {
        let s = PropertySource::Set(i);
        let r = PropertySource::from_str(&s.to_string()).unwrap();
        assert_eq!(r.is_inherited(), s.is_inherited());
        assert_eq!(r.to_string(), s.to_string());
    }
}
'''
