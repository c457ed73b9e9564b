//! An in-memory stand-in for the RAID layer: applies every call at once and records misuse.
use crate::{label::*, types::*, vdev::*};
use divbuf::{DivBufShared, DivBuf};
use futures::{Future, FutureExt, future};
use std::{num::NonZeroU64, path::Path, pin::Pin, sync::{Arc, Mutex}};
#[path = "@REPO@/bfffs-core/src/raid/vdev_raid_api.rs"] mod api;
pub use api::VdevRaidApi;
#[derive(Clone, Debug)] pub struct Status;
#[derive(Default)] pub struct Manager;
impl Manager {
    pub fn import(&mut self, _uuid: Uuid) -> impl Future<Output = Result<(RaidImpl, LabelReader)>> { future::err(Error::ENOENT) }
    pub async fn taste<P: AsRef<Path>>(&mut self, _p: P) -> Result<LabelReader> { Err(Error::ENOENT) }
}
#[derive(Clone, Copy, Debug, PartialEq)] pub enum Zs { Empty, Open(u64), Finished }
#[derive(Clone)] struct St { z: Vec<Zs>, area: [Vec<u8>; 2], errors: Vec<String>, pending: Vec<Option<u64>> }
pub struct Dev { n: u32, size: u64, gap: u64, stripe: u64, st: Mutex<St> }
#[derive(Clone)] pub struct RaidImpl(pub Arc<Dev>);
impl RaidImpl {
    pub fn new(n: u32, size: u64, gap: u64, stripe: u64) -> Self {
        let b = (n as usize).div_ceil(255) * 4096;
        RaidImpl(Arc::new(Dev { n, size, gap, stripe, st: Mutex::new(St { z: vec![Zs::Empty; n as usize], area: [vec![0; b], vec![0; b]], errors: vec![], pending: vec![None; n as usize] }) }))
    }
}
impl Dev {
    /// what survives: finished zones, and open zones that must be reopened before use
    pub fn copy(&self) -> RaidImpl {
        let mut s = self.st.lock().unwrap().clone(); s.errors.clear();
        for i in 0..s.z.len() { if let Zs::Open(w) = s.z[i] { s.pending[i] = Some(w); s.z[i] = Zs::Finished; } }
        RaidImpl(Arc::new(Dev { n: self.n, size: self.size, gap: self.gap, stripe: self.stripe, st: Mutex::new(s) }))
    }
    pub fn errors(&self) -> Vec<String> { self.st.lock().unwrap().errors.clone() }
    pub fn zones_now(&self) -> Vec<Zs> { self.st.lock().unwrap().z.clone() }
    pub fn poke(&self, a: usize, at: usize, x: u8) { self.st.lock().unwrap().area[a][at] ^= x; }
    pub fn duplicate(&self, a: usize, from: usize, to: usize) { let mut s = self.st.lock().unwrap(); let b = s.area[a][from * 4096..(from + 1) * 4096].to_vec(); s.area[a][to * 4096..(to + 1) * 4096].copy_from_slice(&b); }
    pub fn zero(&self, a: usize, b: usize) { self.st.lock().unwrap().area[a][b * 4096..(b + 1) * 4096].fill(0); }
    fn start(&self, z: ZoneT) -> u64 { 10 + z as u64 * (self.size + self.gap) }
    fn bad(&self, s: &mut St, e: String) -> BoxVdevFut { s.errors.push(e); Box::pin(future::err(Error::EINVAL)) }
}
fn ok() -> BoxVdevFut { Box::pin(future::ok(())) }
impl Vdev for RaidImpl {
    fn lba2zone(&self, lba: LbaT) -> Option<ZoneT> { if lba < 10 { return None; } let p = self.0.size + self.0.gap; let z = (lba - 10) / p; if z < self.0.n as u64 && (lba - 10) % p < self.0.size { Some(z as ZoneT) } else { None } }
    fn optimum_queue_depth(&self) -> u32 { 1 }
    fn size(&self) -> LbaT { self.0.start(self.0.n) }
    fn zone_limits(&self, z: ZoneT) -> (LbaT, LbaT) { (self.0.start(z), self.0.start(z) + self.0.size) }
    fn zones(&self) -> ZoneT { self.0.n }
}
impl VdevRaidApi for RaidImpl {
    fn erase_zone(&self, z: ZoneT) -> BoxVdevFut { let mut s = self.0.st.lock().unwrap(); if s.z[z as usize] != Zs::Finished || s.pending[z as usize].is_some() { let e = format!("erase of zone {z}, which is {:?}", s.z[z as usize]); return self.0.bad(&mut s, e); } s.z[z as usize] = Zs::Empty; ok() }
    fn attach(&mut self, _uuid: Uuid, _path: &Path) -> Result<()> { Err(Error::EINVAL) }
    fn fault(&mut self, _uuid: Uuid) -> Result<()> { Err(Error::EINVAL) }
    fn finish_zone(&self, z: ZoneT) -> BoxVdevFut { let mut s = self.0.st.lock().unwrap(); if !matches!(s.z[z as usize], Zs::Open(_)) { let e = format!("finish of zone {z}, which is {:?}", s.z[z as usize]); return self.0.bad(&mut s, e); } s.z[z as usize] = Zs::Finished; ok() }
    fn flush_zone(&self, z: ZoneT) -> (LbaT, BoxVdevFut) { let mut s = self.0.st.lock().unwrap(); match s.z[z as usize] { Zs::Open(w) => { let g = w.div_ceil(self.0.stripe) * self.0.stripe - w; s.z[z as usize] = Zs::Open(w + g); (g, ok()) } q => (0, self.0.bad(&mut s, format!("flush of zone {z}, which is {q:?}"))) } }
    fn open_zone(&self, z: ZoneT) -> BoxVdevFut { let mut s = self.0.st.lock().unwrap(); if s.z[z as usize] != Zs::Empty { let e = format!("open of zone {z}, which is {:?}", s.z[z as usize]); return self.0.bad(&mut s, e); } 
        // blocks may be written before the open completes
        s.z[z as usize] = Zs::Open(0); ok() }
    fn read_at(&self, _buf: IoVecMut, _lba: LbaT) -> BoxVdevFut { ok() }
    fn read_long(&self, _len: LbaT, _lba: LbaT) -> Pin<Box<dyn Future<Output = Result<Box<dyn Iterator<Item = DivBufShared> + Send>>> + Send>> { Box::pin(future::err(Error::EINVAL)) }
    fn read_spacemap(&self, mut buf: IoVecMut, idx: u32) -> BoxVdevFut { let mut s = self.0.st.lock().unwrap(); if idx > 1 || buf.len() != s.area[0].len() { return self.0.bad(&mut s, format!("read of space map {idx}, {} bytes", buf.len())); } buf[..].copy_from_slice(&s.area[idx as usize]); ok() }
    fn reopen_zone(&self, z: ZoneT, a: LbaT) -> BoxVdevFut { let mut s = self.0.st.lock().unwrap(); if s.pending[z as usize] != Some(a) { let e = format!("reopening zone {z} at {a}, written so far: {:?}", s.pending[z as usize]); return self.0.bad(&mut s, e); } s.pending[z as usize] = None; s.z[z as usize] = Zs::Open(a); ok() }
    fn repair_label(&self, _l: LabelWriter, _m: usize, _t: TxgT) -> BoxVdevFut { ok() }
    fn repair_mirror_zone(&self, _m: usize, _z: ZoneT, _l: Option<NonZeroU64>) -> BoxVdevFut { ok() }
    fn repair_raid_zone(&self, _z: ZoneT) -> BoxVdevFut { ok() }
    fn restore(&mut self, _m: usize) -> Result<()> { Ok(()) }
    fn status(&self) -> Status { Status }
    fn sync_all(&self, _m: Option<usize>) -> BoxVdevFut { ok() }
    fn uuid(&self) -> Uuid { Uuid::default() }
    fn write_at(&self, buf: IoVec, z: ZoneT, lba: LbaT) -> BoxVdevFut {
        let mut s = self.0.st.lock().unwrap(); let n = (buf.len() as u64).div_ceil(4096);
        if z >= self.0.n { return self.0.bad(&mut s, format!("write to zone {z}")); }
        match s.z[z as usize] { Zs::Open(w) if self.0.start(z) + w == lba && w + n <= self.0.size => { s.z[z as usize] = Zs::Open(w + n); ok() } q => self.0.bad(&mut s, format!("write of {n} blocks at {lba} to zone {z}, which is {q:?}")) }
    }
    fn write_label(&self, _l: LabelWriter, _t: TxgT) -> BoxVdevFut { ok() }
    fn write_spacemap(&self, sg: SGList, idx: u32, block: LbaT) -> BoxVdevFut {
        let mut s = self.0.st.lock().unwrap(); let b: Vec<u8> = sg.iter().flat_map(|v| v.iter().copied()).collect();
        if idx > 1 || b.len() != 4096 || (block as usize + 1) * 4096 > s.area[0].len() { return self.0.bad(&mut s, format!("write of {} bytes to block {block} of space map {idx}", b.len())); }
        s.area[idx as usize][block as usize * 4096..(block as usize + 1) * 4096].copy_from_slice(&b); ok()
    }
}
