PROP = 'K01'
FILE = 'bfffs-core/src/fs_tree.rs'
EDITS = [('        let inohash = hasher.finish() & ( (1<<56) - 1);', '        let inohash = hasher.finish() & ( (1<<60) - 1);')]
KIT = ['vp/__init__.py', 'vp/gens.py', 'vp/rustsrc.py', 'replay/stack/vpfs.rs']
NEEDS = 'an inode whose hash has one of the bits 57 or 59 set (three of four)'
BREAKS = "the hash of an unlinked file's number spills into the type bits of its key, so that the file is not in the range that is cleaned up after a crash"
DEMO = r'''//! kit fstree
//% serde = { version = "1", features = ["derive", "rc"] }
//% serde_derive = "1"
//% speedy = { version = "0.8", features = ["uuid"] }
//% uuid = { version = "1", features = ["v4"] }
//% futures = "0.3"
//% divbuf = { version = "0.4.0", features = ["experimental"] }
//% metrohash = "1.0"
//% tracing = { version = "0.1", features = ["attributes"] }
//% auto_enums = { version = "0.8", features = ["futures03"] }
//% pin-project = "1"
//% thiserror = "1"
//% libc = "0.2"
//% nix = { version = "0.29", features = ["time"] }
#![allow(dead_code, unused_imports, unused_macros, unused_mut, unused_variables)]
#[macro_use] pub mod vpfs; pub mod types; pub mod util; pub mod property; pub mod tree; pub mod fs_tree; pub mod dml; pub mod database; pub mod dataset; pub mod fs;
pub use types::*;
use crate::{fs_tree::*, database::*, fs::{vp_access, Fs, FileData}}; use futures::StreamExt;
use std::{ffi::{OsStr, OsString}, sync::{Arc, Mutex}};
pub fn coin() -> bool { false }
fn wait<T>(f: impl std::future::Future<Output = T>) -> T { futures::executor::block_on(f) }
fn dir(v: &[(u64, u64)]) -> Tree {
    let t: Tree = Default::default(); let mut i = 0;
    for (h, n) in v { let b: Vec<Dirent> = (0..*n).map(|_| { i += 1; Dirent { ino: i, dtype: 8, name: format!("f{i}").into() } }).collect(); t.lock().unwrap().insert(FSKey::new(5, ObjKey::DirEntry(*h)), if b.len() == 1 { FSValue::DirEntry(b[0].clone()) } else { FSValue::DirEntries(b) }); }
    t
}
fn read(t: &Tree, at: i64, most: usize) -> Vec<(u64, i64)> { let fs = Fs { db: Arc::new(Database(t.clone())), tree: 0 }; let mut s = Box::pin(fs.readdir(&FileData { ino: 5 }, at)); let mut out = vec![]; while out.len() < most { match wait(s.next()) { Some(Ok(d)) => out.push((d.d_fileno, d.d_off)), Some(Err(e)) => panic!("{e}"), None => break } } out }
fn main() { for ino in 0..100u64 { let k = FSKey::new(0, ObjKey::dying_inode(ino)); assert!(FSKey::dying_inode_range().contains(&k), "inode {ino}: {k:?}"); assert!(k.is_dying_inode()); } }
'''
