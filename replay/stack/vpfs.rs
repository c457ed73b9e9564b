//! Stands in for crates that are absent here: the same names with the same meaning, as far as fs_tree.rs and the cut parts of fs.rs use them.
#![allow(dead_code, non_camel_case_types)]
/// bitfield!: a tuple struct and getters of bit ranges. The setters are all named _, so there are none
#[macro_export] macro_rules! vp_bitfield {
    ($(#[$m:meta])* $v:vis struct $n:ident($t:ty); $($rest:tt)*) => { $(#[$m])* $v struct $n(pub $t); impl $n { $crate::vp_fields!{ $t; $($rest)* } } };
}
#[macro_export] macro_rules! vp_fields {
    ($b:ty;) => {};
    ($b:ty; $t:ty; $v:vis $f:ident, _: $hi:expr, $lo:expr; $($rest:tt)*) => { $v fn $f(&self) -> $t { let w = (std::mem::size_of::<$b>() * 8) as u32; ((self.0 << (w - 1 - $hi)) >> (w - 1 - $hi + $lo)) as $t } $crate::vp_fields!{ $b; $($rest)* } };
}
pub use crate::vp_bitfield as bitfield;
pub mod hexdump { pub fn hexdump_iter(b: &[u8]) -> impl ExactSizeIterator<Item = Box<String>> + '_ { b.chunks(16).map(|c| Box::new(format!("{c:02x?}"))) } }
pub mod time { pub struct OffsetDateTime(i128); #[derive(Debug)] pub struct E;
    impl OffsetDateTime { pub fn from_unix_timestamp_nanos(n: i128) -> Result<Self, E> { Ok(OffsetDateTime(n)) } pub fn format<T>(&self, _: &T) -> Result<String, E> { Ok(self.0.to_string()) } }
    pub mod format_description { pub mod well_known { pub struct Rfc3339; } } }
/// FreeBSD's
pub mod libc {
    pub type dev_t = u64; pub type c_char = i8;
    pub const EXTATTR_NAMESPACE_USER: i32 = 1; pub const EXTATTR_NAMESPACE_SYSTEM: i32 = 2;
    pub const DT_FIFO: u8 = 1; pub const DT_CHR: u8 = 2; pub const DT_DIR: u8 = 4; pub const DT_BLK: u8 = 6; pub const DT_REG: u8 = 8; pub const DT_LNK: u8 = 10; pub const DT_SOCK: u8 = 12;
    pub const S_IFIFO: u16 = 0o010000; pub const S_IFCHR: u16 = 0o020000; pub const S_IFDIR: u16 = 0o040000; pub const S_IFBLK: u16 = 0o060000; pub const S_IFREG: u16 = 0o100000; pub const S_IFLNK: u16 = 0o120000; pub const S_IFSOCK: u16 = 0o140000;
    #[derive(Clone, Copy)] pub struct dirent { pub d_fileno: u64, pub d_off: i64, pub d_reclen: u16, pub d_type: u8, pub d_namlen: u16, pub d_name: [c_char; 256] }
}
