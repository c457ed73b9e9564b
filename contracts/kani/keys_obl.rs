// K01: keys of the file system's tree.
use crate::{fs_tree::*, property::PropertyName, vpk::H};
use speedy::{BigEndian, Readable, Writable};
use std::{cmp::Ordering, ffi::OsStr, os::unix::ffi::OsStrExt, sync::atomic::Ordering::Relaxed};
const M: u64 = 1 << 56;
fn prop(p: u64) -> PropertyName { match p % 5 { 0 => PropertyName::Atime, 1 => PropertyName::BaseMountpoint, 2 => PropertyName::Mountpoint, 3 => PropertyName::Name, _ => PropertyName::RecordSize } }
/// every item key there is: kind, and what distinguishes items of that kind
fn item(kind: u8, x: u64) -> ObjKey { match kind { 0 => ObjKey::DirEntry(x), 1 => ObjKey::Inode, 2 => ObjKey::Extent(x), 3 => ObjKey::ExtAttr(x), 4 => ObjKey::Property(prop(x)), _ => ObjKey::DyingInode(x) } }
fn hash(h: u64) { H.store(h, Relaxed) }
fn within(r: std::ops::Range<FSKey>, k: &FSKey) -> bool { r.contains(k) }

obligations! {
    key_parts(o: u64, kind: u8, x: u64) if kind < 6 && x < M => {
        let (i, k) = (item(kind, x), FSKey::new(o, item(kind, x)));
        k.object() == o && k.objtype() == kind && k.offset() == i.offset() && i.offset() < M
            && i.offset() == match kind { 1 => 0, 4 => x % 5, _ => x }
    }
    keys_are_distinct(o1: u64, k1: u8, x1: u64, o2: u64, k2: u8, x2: u64) if k1 < 6 && k2 < 6 && x1 < M && x2 < M => {
        (FSKey::new(o1, item(k1, x1)) == FSKey::new(o2, item(k2, x2))) == (o1 == o2 && item(k1, x1) == item(k2, x2))
    }
    items_are_distinct(k1: u8, x1: u64, k2: u8, x2: u64) if k1 < 6 && k2 < 6 => {
        (item(k1, x1) == item(k2, x2)) == (k1 == k2 && (k1 == 1 || x1 == x2 || k1 == 4 && x1 % 5 == x2 % 5))
    }
    keys_sort_by_object_kind_and_offset(o1: u64, k1: u8, x1: u64, o2: u64, k2: u8, x2: u64) if k1 < 6 && k2 < 6 && x1 < M && x2 < M => {
        let (a, b) = (FSKey::new(o1, item(k1, x1)), FSKey::new(o2, item(k2, x2)));
        let want = if o1 != o2 { o1.cmp(&o2) } else if k1 != k2 { k1.cmp(&k2) } else { a.offset().cmp(&b.offset()) };
        a.cmp(&b) == want && a.partial_cmp(&b) == Some(want) && (a < b) == (want == Ordering::Less)
    }
    every_key_sorts_by_its_parts(x: u128, y: u128) if true => {
        let (a, b) = (FSKey(x), FSKey(y));
        let want = if a.object() != b.object() { a.object().cmp(&b.object()) } else if a.objtype() != b.objtype() { a.objtype().cmp(&b.objtype()) } else { a.offset().cmp(&b.offset()) };
        a.cmp(&b) == want && (a == b) == (x == y)
    }
    kinds_are_told_apart(o: u64, kind: u8, x: u64) if kind < 6 && x < M => {
        let k = FSKey::new(o, item(kind, x));
        k.is_direntry() == (kind == 0) && k.is_inode() == (kind == 1) && k.is_extattr() == (kind == 3) && k.is_dying_inode() == (kind == 5)
    }
    object_range(ino: u64, x: u128) if ino < u64::MAX => { let k = FSKey(x); within(FSKey::obj_range(ino), &k) == (k.object() == ino) }
    directory_range(ino: u64, off: u64, x: u128) if off < M => { let k = FSKey(x); within(FSKey::dirent_range(ino, off), &k) == (k.object() == ino && k.objtype() == 0 && k.offset() >= off) }
    attribute_range(ino: u64, x: u128) if true => { let k = FSKey(x); within(FSKey::extattr_range(ino), &k) == (k.object() == ino && k.objtype() == 3) }
    dying_range(x: u128) if true => { let k = FSKey(x); within(FSKey::dying_inode_range(), &k) == (k.object() == 0 && k.objtype() == 5) }
    extent_range_between(ino: u64, s: u64, e: u64, x: u128) if s <= e && e < M => { let k = FSKey(x); within(FSKey::extent_range(ino, s..e), &k) == (k.object() == ino && k.objtype() == 2 && s <= k.offset() && k.offset() < e) }
    extent_range_from(ino: u64, s: u64, x: u128) if s < M => { let k = FSKey(x); within(FSKey::extent_range(ino, s..), &k) == (k.object() == ino && k.objtype() == 2 && s <= k.offset()) }
    extent_range_up_to(ino: u64, e: u64, x: u128) if e < M => { let k = FSKey(x); within(FSKey::extent_range(ino, ..e), &k) == (k.object() == ino && k.objtype() == 2 && k.offset() < e) }
    extent_range_all(ino: u64, x: u128) if true => { let k = FSKey(x); within(FSKey::extent_range(ino, ..), &k) == (k.object() == ino && k.objtype() == 2) }
    names_give_directory_keys(o: u64, a: u8, b: u8, n: u8, h: u64) unwind 8 if a != b'/' && b != b'/' && n <= 2 => {
        hash(h); let s = [a, b];
        let k = FSKey::new(o, ObjKey::dir_entry(OsStr::from_bytes(&s[..n as usize])));
        // the cookie of the entry behind the last one is representable, and not the cookie of the start
        k.object() == o && k.is_direntry() && k.offset() < M - 1
    }
    attributes_give_attribute_keys(o: u64, a: u8, b: u8, n: u8, sys: bool, h: u64) unwind 8 if n <= 2 => {
        hash(h); let s = [a, b];
        let k = FSKey::new(o, ObjKey::extattr(if sys { ExtAttrNamespace::System } else { ExtAttrNamespace::User }, OsStr::from_bytes(&s[..n as usize])));
        k.object() == o && k.is_extattr() && k.offset() < M
    }
    dying_inodes_give_dying_keys(ino: u64, h: u64) unwind 8 if true => { hash(h); let k = FSKey::new(0, ObjKey::dying_inode(ino)); k.object() == 0 && k.is_dying_inode() && k.offset() < M && within(FSKey::dying_inode_range(), &k) }
    the_hash_decides(h1: u64, h2: u64) unwind 8 if h1 % M < M - 1 && h2 % M < M - 1 => {
        let n = OsStr::from_bytes(b"a");
        hash(h1); let (a, b, c) = (ObjKey::dir_entry(n), ObjKey::extattr(ExtAttrNamespace::User, n), ObjKey::dying_inode(7));
        hash(h2); let (d, e, f) = (ObjKey::dir_entry(n), ObjKey::extattr(ExtAttrNamespace::User, n), ObjKey::dying_inode(7));
        let same = h1 % M == h2 % M;
        (a == d) == same && (b == e) == same && (c == f) == same
    }
    stored_keys(x: u128) unwind 20 if true => {
        let k = FSKey(x); let mut b = [0u8; 16]; let mut c = [0u8; 16];
        k.write_to_buffer(&mut b).is_ok() && matches!(FSKey::read_from_buffer(&b), Ok(y) if y == k) && k.write_to_buffer_with_ctx(BigEndian::default(), &mut c).is_ok() && matches!(FSKey::read_from_buffer_with_ctx(BigEndian::default(), &c), Ok(y) if y == k)
    }
    stored_items(kind: u8, x: u64) unwind 12 if kind < 6 => {
        let i = item(kind, x); let mut b = [0u8; 9];
        let w = match kind { 1 => 1, 4 => 5, _ => 9 };
        i.write_to_buffer(&mut b[..w]).is_ok() && b[0] == kind && matches!(ObjKey::read_from_buffer(&b[..w]), Ok(j) if j == i) && ObjKey::read_from_buffer(&b[..w - 1]).is_err()
    }
    unknown_items_are_refused(d: u8, b1: u64) unwind 12 if d > 5 => { let mut b = [0u8; 9]; b[0] = d; b[1..].copy_from_slice(&b1.to_le_bytes()); ObjKey::read_from_buffer(&b).is_err() }
}
