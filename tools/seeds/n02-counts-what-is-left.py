PROP = 'N02'
FILE = 'bfffs-core/src/fs.rs'
EDITS = [('                                           usize::from(bucketing.returned));', '                                           bucketing.bucket.len());')]
KIT = ['vp/__init__.py', 'vp/gens.py', 'vp/rustsrc.py', 'replay/stack/vpfs.rs']
NEEDS = 'at least three names with the same hash; the listing interrupted among them (with two names both counts agree)'
BREAKS = 'the cookie of a name within a bucket counts the names left instead of those shown, so that a listing continued there skips or repeats some'
DEMO = r'''//! kit fstree
//% serde = { version = "1", features = ["derive", "rc"] }
//% serde_derive = "1"
//% speedy = { version = "0.8", features = ["uuid"] }
//% uuid = { version = "1", features = ["v4"] }
//% futures = "0.3"
//% divbuf = { version = "0.4.0", features = ["experimental"] }
//% metrohash = "1.0"
//% tracing = { version = "0.1", features = ["attributes"] }
//% auto_enums = { version = "0.8", features = ["futures03"] }
//% pin-project = "1"
//% thiserror = "1"
//% libc = "0.2"
//% nix = { version = "0.29", features = ["time"] }
#![allow(dead_code, unused_imports, unused_macros, unused_mut, unused_variables)]
#[macro_use] pub mod vpfs; pub mod types; pub mod util; pub mod property; pub mod tree; pub mod fs_tree; pub mod dml; pub mod database; pub mod dataset; pub mod fs;
pub use types::*;
use crate::{fs_tree::*, database::*, fs::{vp_access, Fs, FileData}}; use futures::StreamExt;
use std::{ffi::{OsStr, OsString}, sync::{Arc, Mutex}};
pub fn coin() -> bool { false }
fn wait<T>(f: impl std::future::Future<Output = T>) -> T { futures::executor::block_on(f) }
fn dir(v: &[(u64, u64)]) -> Tree {
    let t: Tree = Default::default(); let mut i = 0;
    for (h, n) in v { let b: Vec<Dirent> = (0..*n).map(|_| { i += 1; Dirent { ino: i, dtype: 8, name: format!("f{i}").into() } }).collect(); t.lock().unwrap().insert(FSKey::new(5, ObjKey::DirEntry(*h)), if b.len() == 1 { FSValue::DirEntry(b[0].clone()) } else { FSValue::DirEntries(b) }); }
    t
}
fn read(t: &Tree, at: i64, most: usize) -> Vec<(u64, i64)> { let fs = Fs { db: Arc::new(Database(t.clone())), tree: 0 }; let mut s = Box::pin(fs.readdir(&FileData { ino: 5 }, at)); let mut out = vec![]; while out.len() < most { match wait(s.next()) { Some(Ok(d)) => out.push((d.d_fileno, d.d_off)), Some(Err(e)) => panic!("{e}"), None => break } } out }
fn main() { let t = dir(&[(7, 5), (9, 1)]); let mut seen = vec![]; let mut at = 0; loop { let p = read(&t, at, 1); if p.is_empty() { break } at = p.last().unwrap().1; seen.extend(p.iter().map(|x| x.0)); if seen.len() > 50 { break } }
    seen.sort(); assert_eq!(seen, [1, 2, 3, 4, 5, 6]); }
'''
