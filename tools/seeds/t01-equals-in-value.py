PROP = "T01"
FILE = "bfffs-core/src/property.rs"
EDITS = [("        let mut words = s.splitn(2, '=');\n", "        let mut words = s.split('=');\n")]
NEEDS = "a mountpoint whose path contains an equals sign"
BREAKS = "the path is cut at its first equals sign, so setting and reading back the property changes it"
DEMO = r'''//% thiserror = "1"
//% serde = { version = "1", features = ["derive"] }
//% serde_derive = "1"
//% speedy = { version = "0.8", features = ["uuid"] }
#![allow(dead_code, unused_imports)]
#[path = "@REPO@/bfffs-core/src/property.rs"] mod property;
use property::*;
use std::str::FromStr;

fn main() {
    for p in ["/mnt", "/", "/a=b", "/a=b=c/", "=", ""] {
        let v = Property::Mountpoint(p.to_string());
        assert_eq!(Property::from_str(&format!("{}={}", v.name(), v)), Ok(v));
    }
}
'''
