PROP = 'N01'
FILE = 'bfffs-core/src/fs.rs'
EDITS = [('                        let value = old.into_fsvalue();\n                        let fut = dataset.as_ref()\n                        .insert(key, value)\n                        .and_then(|_| future::err(T::ENOTFOUND));\n                        fut.boxed()', '                        future::err(T::ENOTFOUND).boxed()')]
KIT = ['vp/__init__.py', 'vp/gens.py', 'vp/rustsrc.py', 'replay/stack/vpfs.rs']
NEEDS = 'removing a name that does not exist, while another one with the same hash does'
BREAKS = 'removing an absent name deletes the single item whose name collides with it'
DEMO = r'''//! kit fstree
//% serde = { version = "1", features = ["derive", "rc"] }
//% serde_derive = "1"
//% speedy = { version = "0.8", features = ["uuid"] }
//% uuid = { version = "1", features = ["v4"] }
//% futures = "0.3"
//% divbuf = { version = "0.4.0", features = ["experimental"] }
//% metrohash = "1.0"
//% tracing = { version = "0.1", features = ["attributes"] }
//% auto_enums = { version = "0.8", features = ["futures03"] }
//% pin-project = "1"
//% thiserror = "1"
//% libc = "0.2"
//% nix = { version = "0.29", features = ["time"] }
#![allow(dead_code, unused_imports, unused_macros, unused_mut, unused_variables)]
#[macro_use] pub mod vpfs; pub mod types; pub mod util; pub mod property; pub mod tree; pub mod fs_tree; pub mod dml; pub mod database; pub mod dataset; pub mod fs;
pub use types::*;
use crate::{fs_tree::*, database::*, fs::{vp_access, Fs, FileData}}; use futures::StreamExt;
use std::{ffi::{OsStr, OsString}, sync::{Arc, Mutex}};
pub fn coin() -> bool { false }
fn wait<T>(f: impl std::future::Future<Output = T>) -> T { futures::executor::block_on(f) }

fn d(n: &str, ino: u64) -> Dirent { Dirent { ino, dtype: 8, name: n.into() } }
fn x(ns: ExtAttrNamespace, n: &str, v: u64) -> ExtAttr { ExtAttr::Blob(BlobExtAttr { namespace: ns, name: n.into(), extent: BlobExtent { lsize: v as u32, rid: RID(v) } }) }
fn put<T: HTItem>(f: &Arc<ReadWriteFilesystem>, k: FSKey, v: T, n: &str) -> Option<T> { wait(vp_access::insert(f.clone(), k, v, n.into())).unwrap() }
fn get(f: &Arc<ReadWriteFilesystem>, k: FSKey, n: &str) -> Option<u64> { wait(vp_access::get::<Dirent>(f, false, k, 0, n.into())).ok().map(|d| d.ino) }
fn main() { let t: Tree = Default::default(); let f = Arc::new(ReadWriteFilesystem(t.clone())); let k = FSKey::new(5, ObjKey::DirEntry(7));
    put(&f, k, d("a", 10), "a"); assert!(wait(vp_access::remove::<Dirent>(f.clone(), k, 0, "b".into())).is_err()); assert_eq!(get(&f, k, "a"), Some(10)); }
'''
