// Shared by the Kani crates and the concrete programs.
//
// `obligations!` declares contract functions: each calls the real code; its precondition and the postcondition
// "the result is true" are its contract. Under Kani every one is proved by a harness whose arguments are
// unconstrained (the full range of their types) but for the precondition; compiled normally, the same functions are run on
// boundary and random values, and on the counterexamples Kani reports.
pub struct Src<'a> { pub bytes: Vec<Vec<u8>>, pub pos: usize, pub rng: &'a mut u64, pub replay: bool }
impl<'a> Src<'a> {
    pub fn next(&mut self) -> u64 {
        *self.rng ^= *self.rng << 13; *self.rng ^= *self.rng >> 7; *self.rng ^= *self.rng << 17; *self.rng
    }
    fn raw(&mut self, n: usize) -> u128 {
        if self.replay {
            let v = self.bytes[self.pos].clone(); self.pos += 1;
            let mut x = 0u128; for (i, b) in v.iter().enumerate() { x |= (*b as u128) << (8 * i) } x
        } else {
            let bits = 8 * n as u32;
            let r = self.next();
            let x: u128 = match r % 8 {
                0 => (self.next() % 5) as u128,
                1 => u128::MAX - (self.next() % 5) as u128,
                2 => 1u128 << (self.next() % bits as u64),
                3 => (1u128 << (self.next() % bits as u64)).wrapping_sub(1),
                4 => (self.next() % 300) as u128,
                _ => (self.next() as u128) << 64 | self.next() as u128,
            };
            let x = if bits == 128 { x } else { x & ((1u128 << bits) - 1) };
            self.bytes.push(x.to_le_bytes()[..n].to_vec());
            x
        }
    }
}
pub trait Pick: Sized { fn pick(s: &mut Src) -> Self; }
macro_rules! picks { ($($t:ident)*) => { $(impl Pick for $t { fn pick(s: &mut Src) -> Self { s.raw(std::mem::size_of::<$t>()) as $t } })* } }
picks! { u8 u16 u32 u64 u128 usize i64 }
impl Pick for bool { fn pick(s: &mut Src) -> Self { s.raw(1) & 1 == 1 } }

macro_rules! obligations {
    ($($(#[$m:meta])* $name:ident($($a:ident: $t:ty),* $(,)?) $(unwind $u:literal)? if $pre:expr => $body:block)*) => {
        $(
            pub fn $name($($a: $t),*) -> bool $body
        )*
        #[cfg(kani)]
        mod harness { use super::*; $(
            #[kani::proof] $(#[kani::unwind($u)])?
            fn $name() {
                $(let $a: $t = kani::any();)*
                kani::assume($pre);
                assert!(super::$name($($a),*), "postcondition");
            }
        )* }
        #[cfg(not(kani))]
        pub const TABLE: &[(&str, fn(&mut Src) -> Option<(bool, String)>)] = &[
            $((stringify!($name), |_s: &mut Src| { $(let $a = <$t>::pick(_s);)* let d = String::new() $(+ &format!("{}={:?} ", stringify!($a), $a))*; if !($pre) { return None } Some(($name($($a),*), d)) })),*
        ];
    }
}
