// T02: identifiers keep their value, order and fixed width when serialized.
use crate::types::*;
use speedy::{BigEndian, LittleEndian, Readable, Writable};
use std::cmp::Ordering;

// A fixed-width binary serde format: what the derived and hand-written serde impls write and read.
#[derive(Debug)]
pub struct E;
impl std::fmt::Display for E { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }
impl std::error::Error for E {}
impl serde::ser::Error for E { fn custom<T: std::fmt::Display>(_: T) -> Self { E } }
impl serde::de::Error for E { fn custom<T: std::fmt::Display>(_: T) -> Self { E } }
pub struct Out { pub b: [u8; 24], pub n: usize }
impl Out { fn put(&mut self, x: u64, w: usize) -> Result2<()> { let x = x.to_le_bytes(); let mut i = 0; while i < w { if self.n >= 24 { return Err(E) } self.b[self.n] = x[i]; self.n += 1; i += 1; } Ok(()) } }
pub type Result2<T> = std::result::Result<T, E>;
impl serde::Serializer for &mut Out {
    type Ok = (); type Error = E;
    type SerializeSeq = serde::ser::Impossible<(), E>; type SerializeTuple = Self; type SerializeTupleStruct = serde::ser::Impossible<(), E>;
    type SerializeTupleVariant = serde::ser::Impossible<(), E>; type SerializeMap = serde::ser::Impossible<(), E>;
    type SerializeStruct = Self; type SerializeStructVariant = serde::ser::Impossible<(), E>;
    fn serialize_bool(self, v: bool) -> Result2<()> { self.put(v as u64, 1) }
    fn serialize_i8(self, _: i8) -> Result2<()> { Err(E) } fn serialize_i16(self, _: i16) -> Result2<()> { Err(E) }
    fn serialize_i32(self, _: i32) -> Result2<()> { Err(E) } fn serialize_i64(self, _: i64) -> Result2<()> { Err(E) }
    fn serialize_u8(self, v: u8) -> Result2<()> { self.put(v as u64, 1) } fn serialize_u16(self, v: u16) -> Result2<()> { self.put(v as u64, 2) }
    fn serialize_u32(self, v: u32) -> Result2<()> { self.put(v as u64, 4) } fn serialize_u64(self, v: u64) -> Result2<()> { self.put(v, 8) }
    fn serialize_f32(self, _: f32) -> Result2<()> { Err(E) } fn serialize_f64(self, _: f64) -> Result2<()> { Err(E) }
    fn serialize_char(self, _: char) -> Result2<()> { Err(E) } fn serialize_str(self, _: &str) -> Result2<()> { Err(E) }
    fn serialize_bytes(self, _: &[u8]) -> Result2<()> { Err(E) } fn serialize_none(self) -> Result2<()> { Err(E) }
    fn serialize_some<T: ?Sized + serde::Serialize>(self, _: &T) -> Result2<()> { Err(E) } fn serialize_unit(self) -> Result2<()> { Err(E) }
    fn serialize_unit_struct(self, _: &'static str) -> Result2<()> { Err(E) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result2<()> { Err(E) }
    fn serialize_newtype_struct<T: ?Sized + serde::Serialize>(self, _: &'static str, v: &T) -> Result2<()> { v.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + serde::Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result2<()> { Err(E) }
    fn serialize_seq(self, _: Option<usize>) -> Result2<Self::SerializeSeq> { Err(E) }
    fn serialize_tuple(self, _: usize) -> Result2<Self> { Ok(self) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result2<Self::SerializeTupleStruct> { Err(E) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result2<Self::SerializeTupleVariant> { Err(E) }
    fn serialize_map(self, _: Option<usize>) -> Result2<Self::SerializeMap> { Err(E) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result2<Self> { Ok(self) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result2<Self::SerializeStructVariant> { Err(E) }
    fn is_human_readable(&self) -> bool { false }
}
impl serde::ser::SerializeTuple for &mut Out { type Ok = (); type Error = E;
    fn serialize_element<T: ?Sized + serde::Serialize>(&mut self, v: &T) -> Result2<()> { v.serialize(&mut **self) } fn end(self) -> Result2<()> { Ok(()) } }
impl serde::ser::SerializeStruct for &mut Out { type Ok = (); type Error = E;
    fn serialize_field<T: ?Sized + serde::Serialize>(&mut self, _: &'static str, v: &T) -> Result2<()> { v.serialize(&mut **self) } fn end(self) -> Result2<()> { Ok(()) } }
pub struct In<'a> { pub b: &'a [u8], pub n: usize }
impl<'a> In<'a> { fn get(&mut self, w: usize) -> Result2<u64> { let mut x = [0u8; 8]; let mut i = 0; while i < w { if self.n >= self.b.len() { return Err(E) } x[i] = self.b[self.n]; self.n += 1; i += 1; } Ok(u64::from_le_bytes(x)) } }
impl<'de, 'a, 'b> serde::Deserializer<'de> for &'b mut In<'a> {
    type Error = E;
    fn deserialize_any<V: serde::de::Visitor<'de>>(self, _: V) -> Result2<V::Value> { Err(E) }
    fn deserialize_u8<V: serde::de::Visitor<'de>>(self, v: V) -> Result2<V::Value> { let x = self.get(1)?; v.visit_u8(x as u8) }
    fn deserialize_u16<V: serde::de::Visitor<'de>>(self, v: V) -> Result2<V::Value> { let x = self.get(2)?; v.visit_u16(x as u16) }
    fn deserialize_u32<V: serde::de::Visitor<'de>>(self, v: V) -> Result2<V::Value> { let x = self.get(4)?; v.visit_u32(x as u32) }
    fn deserialize_u64<V: serde::de::Visitor<'de>>(self, v: V) -> Result2<V::Value> { let x = self.get(8)?; v.visit_u64(x) }
    fn deserialize_tuple<V: serde::de::Visitor<'de>>(self, n: usize, v: V) -> Result2<V::Value> { v.visit_seq(Items { r: self, left: n }) }
    fn deserialize_struct<V: serde::de::Visitor<'de>>(self, _: &'static str, f: &'static [&'static str], v: V) -> Result2<V::Value> { v.visit_seq(Items { r: self, left: f.len() }) }
    fn deserialize_newtype_struct<V: serde::de::Visitor<'de>>(self, _: &'static str, v: V) -> Result2<V::Value> { v.visit_newtype_struct(self) }
    fn is_human_readable(&self) -> bool { false }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u128 f32 f64 char str string bytes byte_buf option unit unit_struct seq tuple_struct map enum identifier ignored_any }
}
pub struct Items<'b, 'a> { r: &'b mut In<'a>, left: usize }
impl<'de, 'b, 'a> serde::de::SeqAccess<'de> for Items<'b, 'a> { type Error = E;
    fn next_element_seed<T: serde::de::DeserializeSeed<'de>>(&mut self, s: T) -> Result2<Option<T::Value>> { if self.left == 0 { return Ok(None) } self.left -= 1; s.deserialize(&mut *self.r).map(Some) } }

fn serde_rt<T: serde::Serialize + for<'d> serde::Deserialize<'d> + PartialEq>(t: &T, width: usize) -> bool {
    let mut o = Out { b: [0; 24], n: 0 };
    if t.serialize(&mut o).is_err() || o.n != width { return false }
    let mut i = In { b: &o.b[..width], n: 0 };
    match T::deserialize(&mut i) { Ok(u) => u == *t && i.n == width, Err(_) => false }
}
// Width, round trip in both byte orders, and refusal of a buffer one byte short.
macro_rules! speedy_rt { ($t:ty, $x:expr, $w:literal) => {{
    let x: $t = $x;
    let mut ok = match Writable::<LittleEndian>::bytes_needed(&x) { Ok(n) => n == $w, Err(_) => false };
    let mut b = [0xA5u8; $w + 2];
    ok = ok && x.write_to_buffer(&mut b[..$w]).is_ok();
    ok = ok && match <$t>::read_from_buffer(&b[..$w]) { Ok(y) => y == x, Err(_) => false };
    ok = ok && match <$t>::read_with_length_from_buffer(&b) { (Ok(y), n) => y == x && n == $w, _ => false };
    ok = ok && <$t>::read_from_buffer(&b[..$w - 1]).is_err();
    ok = ok && b[$w] == 0xA5 && b[$w + 1] == 0xA5;
    let mut c = [0u8; $w];
    ok = ok && x.write_to_buffer_with_ctx(BigEndian::default(), &mut c).is_ok();
    ok && match <$t>::read_from_buffer_with_ctx(BigEndian::default(), &c) { Ok(y) => y == x, Err(_) => false }
}} }
fn uuid(x: u128) -> Uuid { Uuid::from_uuid(uuid::Uuid::from_u128(x)) }

obligations! {
    pba_width_and_round_trip(cluster: u16, lba: u64) if true => {
        let p = PBA::new(cluster, lba);
        p.cluster == cluster && p.lba == lba && PBA::TYPICAL_SIZE == 10 && speedy_rt!(PBA, PBA::new(cluster, lba), 10)
    }
    rid_width_and_round_trip(r: u64) if true => { RID::TYPICAL_SIZE == 8 && speedy_rt!(RID, RID(r), 8) }
    txg_width_and_round_trip(t: u32) if true => { speedy_rt!(TxgT, TxgT(t), 4) }
    uuid_width_and_round_trip(x: u128) unwind 20 if true => { speedy_rt!(Uuid, uuid(x), 16) }
    pba_serde(cluster: u16, lba: u64) unwind 20 if true => { serde_rt(&PBA::new(cluster, lba), 10) }
    rid_serde(r: u64) unwind 20 if true => { serde_rt(&RID(r), 8) }
    txg_serde(t: u32) unwind 20 if true => { serde_rt(&TxgT(t), 4) }
    uuid_serde(x: u128) unwind 20 if true => { serde_rt(&uuid(x), 16) }
    pba_order(c1: u16, l1: u64, c2: u16, l2: u64) if true => {
        let (p, q) = (PBA::new(c1, l1), PBA::new(c2, l2));
        let want = if c1 < c2 { Ordering::Less } else if c1 > c2 { Ordering::Greater } else if l1 < l2 { Ordering::Less } else if l1 > l2 { Ordering::Greater } else { Ordering::Equal };
        p.cmp(&q) == want && p.partial_cmp(&q) == Some(want) && (p == q) == (want == Ordering::Equal) && (p < q) == (want == Ordering::Less)
            && (p <= q) == (want != Ordering::Greater) && (p > q) == (want == Ordering::Greater) && (p >= q) == (want != Ordering::Less)
    }
    rid_order(a: u64, b: u64) if true => { RID(a).cmp(&RID(b)) == a.cmp(&b) && RID(a).partial_cmp(&RID(b)) == Some(a.cmp(&b)) && (RID(a) == RID(b)) == (a == b) && (RID(a) < RID(b)) == (a < b) }
    txg_order(a: u32, b: u32) if true => { TxgT(a).cmp(&TxgT(b)) == a.cmp(&b) && TxgT(a).partial_cmp(&TxgT(b)) == Some(a.cmp(&b)) && (TxgT(a) == TxgT(b)) == (a == b) && (TxgT(a) < TxgT(b)) == (a < b) }
    uuid_eq(a: u128, b: u128) unwind 20 if true => { (uuid(a) == uuid(b)) == (a == b) }
    txg_from_into(t: u32) if true => { u32::from(TxgT::from(t)) == t && TxgT::from(t) == TxgT(t) && TXG_MAX == TxgT(u32::MAX - 1) }
    txg_add(a: u32, b: u32) if a.checked_add(b).is_some() => { (TxgT(a) + b).0 as u64 == a as u64 + b as u64 }
    txg_add_assign(a: u32, b: u32) if a.checked_add(b).is_some() => { let mut t = TxgT(a); t += b; t.0 as u64 == a as u64 + b as u64 }
    txg_sub(a: u32, b: u32) if a >= b => { (TxgT(a) - b).0 as u64 + b as u64 == a as u64 }
    txg_checked_add(a: u32, b: u32) if true => {
        let s = a as u64 + b as u64;
        match TxgT(a).checked_add(TxgT(b)) { Some(t) => t.0 as u64 == s, None => s > u32::MAX as u64 }
    }
}
