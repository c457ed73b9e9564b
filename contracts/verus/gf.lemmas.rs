// GF(2^8) with the polynomial x^8+x^4+x^3+x^2+1, the field ISA-L works in; its laws are proved here, none is assumed.
pub open spec fn xt(a: u8) -> u8 { (a << 1) ^ (if a & 0x80 != 0 { 0x1du8 } else { 0 }) }
pub open spec fn st(r: u8, bit: bool, b: u8) -> u8 { xt(r) ^ (if bit { b } else { 0 }) }
pub open spec fn gm(a: u8, b: u8) -> u8 {
    st(st(st(st(st(st(st(st(0, a & 0x80 != 0, b), a & 0x40 != 0, b), a & 0x20 != 0, b), a & 0x10 != 0, b), a & 8 != 0, b), a & 4 != 0, b), a & 2 != 0, b), a & 1 != 0, b)
}
proof fn lemma_xt_lin(a: u8, b: u8) ensures xt(a ^ b) == xt(a) ^ xt(b), xt(0) == 0 {
  assert(((a ^ b) << 1) ^ (if (a ^ b) & 0x80 != 0 { 0x1du8 } else { 0 }) == ((a << 1) ^ (if a & 0x80 != 0 { 0x1du8 } else { 0 })) ^ ((b << 1) ^ (if b & 0x80 != 0 { 0x1du8 } else { 0 }))) by(bit_vector);
  assert((0u8 << 1) ^ 0u8 == 0) by(bit_vector);
  assert(0u8 & 0x80 == 0) by(bit_vector);
}
proof fn lemma_gm_right(a: u8, b: u8, c: u8) ensures gm(a, b ^ c) == gm(a, b) ^ gm(a, c)
{
   lemma_st8(a,b,c);
}
spec fn bt(a: u8, i: int) -> bool { if i == 0 { a & 1 != 0 } else if i == 1 { a & 2 != 0 } else if i == 2 { a & 4 != 0 } else if i == 3 { a & 8 != 0 } else if i == 4 { a & 0x10 != 0 } else if i == 5 { a & 0x20 != 0 } else if i == 6 { a & 0x40 != 0 } else { a & 0x80 != 0 } }
/// Horner: the top n bits
spec fn hn(a: u8, b: u8, n: nat) -> u8 decreases n { if n == 0 { 0 } else { st(hn(a, b, (n - 1) as nat), bt(a, 8 - n), b) } }
proof fn lemma_hn(a: u8, b: u8) ensures gm(a, b) == hn(a, b, 8) { reveal_with_fuel(hn, 9); }
proof fn lemma_x(a: u8, b: u8, c: u8) ensures (a ^ b) ^ c == a ^ (b ^ c), a ^ b == b ^ a, a ^ 0 == a, 0 ^ a == a, a ^ a == 0 
{ assert((a ^ b) ^ c == a ^ (b ^ c)) by(bit_vector); assert(a ^ b == b ^ a) by(bit_vector); assert(a ^ 0 == a) by(bit_vector); assert(0 ^ a == a) by(bit_vector); assert(a ^ a == 0) by(bit_vector);}
proof fn lemma_st8(a: u8, b: u8, c: u8) ensures gm(a, b ^ c) == gm(a, b) ^ gm(a, c) { lemma_hn(a, b); lemma_hn(a, c); lemma_hn(a, b ^ c); lemma_hr(a, b, c, 8); }
proof fn lemma_hr(a: u8, b: u8, c: u8, n: nat) requires n <= 8 ensures hn(a, b ^ c, n) == hn(a, b, n) ^ hn(a, c, n) decreases n
{
    if n == 0 { assert(0u8 ^ 0 == 0) by(bit_vector); } else {
        let p = (n - 1) as nat; lemma_hr(a, b, c, p); lemma_xt_lin(hn(a, b, p), hn(a, c, p));
        let x = xt(hn(a, b, p)); let y = xt(hn(a, c, p));
        assert((x ^ y) ^ (b ^ c) == (x ^ b) ^ (y ^ c)) by(bit_vector);
        assert((x ^ y) ^ 0 == (x ^ 0) ^ (y ^ 0)) by(bit_vector);
    }
}
proof fn lemma_hl(a: u8, b: u8, c: u8, n: nat) requires n <= 8 ensures hn(a ^ b, c, n) == hn(a, c, n) ^ hn(b, c, n) decreases n
{
    if n == 0 { assert(0u8 ^ 0 == 0) by(bit_vector); } else {
        let p = (n - 1) as nat; lemma_hl(a, b, c, p); lemma_xt_lin(hn(a, c, p), hn(b, c, p));
        let x = xt(hn(a, c, p)); let y = xt(hn(b, c, p));
        assert((x ^ y) ^ 0 == (x ^ c) ^ (y ^ c)) by(bit_vector);
        assert((x ^ y) ^ c == (x ^ c) ^ (y ^ 0)) by(bit_vector);
        assert((x ^ y) ^ c == (x ^ 0) ^ (y ^ c)) by(bit_vector);
        assert((x ^ y) ^ 0 == (x ^ 0) ^ (y ^ 0)) by(bit_vector);
        lemma_bt(a, b, 8 - n);
    }
}
proof fn lemma_bt(a: u8, b: u8, i: int) requires 0 <= i < 8 ensures bt(a ^ b, i) == (bt(a, i) != bt(b, i)) {
    assert(((a ^ b) & 1 != 0) == ((a & 1 != 0) != (b & 1 != 0))) by(bit_vector);
    assert(((a ^ b) & 2 != 0) == ((a & 2 != 0) != (b & 2 != 0))) by(bit_vector);
    assert(((a ^ b) & 4 != 0) == ((a & 4 != 0) != (b & 4 != 0))) by(bit_vector);
    assert(((a ^ b) & 8 != 0) == ((a & 8 != 0) != (b & 8 != 0))) by(bit_vector);
    assert(((a ^ b) & 0x10 != 0) == ((a & 0x10 != 0) != (b & 0x10 != 0))) by(bit_vector);
    assert(((a ^ b) & 0x20 != 0) == ((a & 0x20 != 0) != (b & 0x20 != 0))) by(bit_vector);
    assert(((a ^ b) & 0x40 != 0) == ((a & 0x40 != 0) != (b & 0x40 != 0))) by(bit_vector);
    assert(((a ^ b) & 0x80 != 0) == ((a & 0x80 != 0) != (b & 0x80 != 0))) by(bit_vector);
}
proof fn lemma_gm_xt(a: u8, b: u8) ensures gm(xt(a), b) == xt(gm(a, b)) {
    // xt(a) = a<<1 with reduction
    let s = a << 1; let t = if a & 0x80 != 0 { 0x1du8 } else { 0 };
    lemma_hn(a, b); lemma_hn(xt(a), b); lemma_hn(s, b); lemma_hn(t, b);
    lemma_hl(s, t, b, 8);
    assert(gm(s, b) ^ gm(t, b) == xt(gm(a, b))) by {
        // bits of s
        assert(s == a << 1);
        lemma_shl(a, b);
    }
}
proof fn lemma_shl(a: u8, b: u8) ensures gm(a << 1, b) ^ gm(if a & 0x80 != 0 { 0x1du8 } else { 0 }, b) == xt(gm(a, b)) 
{
    let top = a & 0x80 != 0; let s = a << 1;
    lemma_hn(a, b); lemma_hn(s, b);
    lemma_shn(a, b, 7);
    lemma_shbits(a);
    let h = hn(s, b, 7);
    assert(hn(s, b, 8) == st(h, bt(s, 0), b));
    lemma_x(xt(h), 0, 0);
    let y = if top { xp(b, 7) } else { 0 };
    lemma_xt_lin(h, y);
    let b1 = xt(b); let b2 = xt(b1); let b3 = xt(b2); let b4 = xt(b3); let b5 = xt(b4); let b6 = xt(b5); let b7 = xt(b6); let b8 = xt(b7);
    reveal_with_fuel(xp, 9);
    assert(b1 == ((b << 1) ^ (if b & 0x80 != 0 { 0x1du8 } else { 0 })) && b2 == ((b1 << 1) ^ (if b1 & 0x80 != 0 { 0x1du8 } else { 0 })) && b3 == ((b2 << 1) ^ (if b2 & 0x80 != 0 { 0x1du8 } else { 0 })) && b4 == ((b3 << 1) ^ (if b3 & 0x80 != 0 { 0x1du8 } else { 0 })) && b5 == ((b4 << 1) ^ (if b4 & 0x80 != 0 { 0x1du8 } else { 0 })) && b6 == ((b5 << 1) ^ (if b5 & 0x80 != 0 { 0x1du8 } else { 0 })) && b7 == ((b6 << 1) ^ (if b6 & 0x80 != 0 { 0x1du8 } else { 0 })) && b8 == ((b7 << 1) ^ (if b7 & 0x80 != 0 { 0x1du8 } else { 0 })) ==> b8 == b4 ^ b3 ^ b2 ^ b) by(bit_vector);
    if top {
        assert(gm(0x1d, b) == b8) by {
            lemma_x(0, b, b);
            assert(0x1du8 & 0x80 == 0 && 0x1du8 & 0x40 == 0 && 0x1du8 & 0x20 == 0 && 0x1du8 & 0x10 != 0 && 0x1du8 & 8 != 0 && 0x1du8 & 4 != 0 && 0x1du8 & 2 == 0 && 0x1du8 & 1 != 0) by(bit_vector);
            assert(xt(0) == 0) by { lemma_xt_lin(0, 0); }
            // Horner over 0001 1101
            lemma_x(b, 0, 0); let q4 = st(0, true, b); assert(q4 == b);
            let q3 = st(q4, true, b); assert(q3 == b1 ^ b);
            lemma_xt_lin(b1, b); let q2 = st(q3, true, b); assert(q2 == (b2 ^ b1) ^ b);
            lemma_xt_lin(b2 ^ b1, b); lemma_xt_lin(b2, b1); let q1 = st(q2, false, b); lemma_x(xt(q2), 0, 0); assert(q1 == (b3 ^ b2) ^ b1);
            lemma_xt_lin(b3 ^ b2, b1); lemma_xt_lin(b3, b2); let q0 = st(q1, true, b); assert(q0 == ((b4 ^ b3) ^ b2) ^ b);
            assert(st(0, false, b) == 0);
            assert(gm(0x1d, b) == q0);
            assert(b4 ^ b3 ^ b2 ^ b == (b4 ^ b3 ^ b2) ^ b) by(bit_vector);
        }
        assert(xt(h ^ y) == xt(h) ^ b8);
    } else {
        assert(gm(0, b) == 0) by { lemma_xt_lin(0, 0); lemma_x(0, 0, 0); 
            assert(0u8 & 0x80 == 0 && 0u8 & 0x40 == 0 && 0u8 & 0x20 == 0 && 0u8 & 0x10 == 0 && 0u8 & 8 == 0 && 0u8 & 4 == 0 && 0u8 & 2 == 0 && 0u8 & 1 == 0) by(bit_vector); }
        lemma_x(xt(h), 0, 0); lemma_x(h, 0, 0);
    }
}
spec fn xp(b: u8, n: nat) -> u8 decreases n { if n == 0 { b } else { xt(xp(b, (n - 1) as nat)) } }
proof fn lemma_shbits(a: u8) ensures bt(a << 1, 0) == false, forall|i: int| 1 <= i < 8 ==> bt(a << 1, i) == bt(a, i - 1), (a & 0x80 != 0) == bt(a, 7) {
    assert((a << 1) & 1 == 0) by(bit_vector);
    assert(((a << 1) & 2 != 0) == (a & 1 != 0)) by(bit_vector);
    assert(((a << 1) & 4 != 0) == (a & 2 != 0)) by(bit_vector);
    assert(((a << 1) & 8 != 0) == (a & 4 != 0)) by(bit_vector);
    assert(((a << 1) & 0x10 != 0) == (a & 8 != 0)) by(bit_vector);
    assert(((a << 1) & 0x20 != 0) == (a & 0x10 != 0)) by(bit_vector);
    assert(((a << 1) & 0x40 != 0) == (a & 0x20 != 0)) by(bit_vector);
    assert(((a << 1) & 0x80 != 0) == (a & 0x40 != 0)) by(bit_vector);
}
proof fn lemma_shn(a: u8, b: u8, n: nat) requires n <= 7 ensures hn(a, b, n + 1) == hn(a << 1, b, n) ^ (if a & 0x80 != 0 { xp(b, n) } else { 0 }) decreases n
{
    lemma_shbits(a);
    let top = a & 0x80 != 0;
    if n == 0 { assert(hn(a, b, 1) == st(hn(a, b, 0), bt(a, 7), b)); lemma_xt_lin(0, 0); lemma_x(0, b, 0); lemma_x(0, 0, 0); }
    else {
        let p = (n - 1) as nat; lemma_shn(a, b, p);
        let h = hn(a << 1, b, p); let y = if top { xp(b, p) } else { 0 };
        lemma_xt_lin(h, y); 
        assert(hn(a, b, n + 1) == st(hn(a, b, n), bt(a, 8 - (n + 1)), b));
        assert(bt(a << 1, 8 - n) == bt(a, 7 - n));
        let c = if bt(a, 7 - n) { b } else { 0 };
        let u = xt(h); let v = xt(y);
        assert((u ^ v) ^ c == (u ^ c) ^ v) by(bit_vector);
    }
}
proof fn lemma_gm_assoc(a: u8, b: u8, c: u8) ensures gm(gm(a, b), c) == gm(a, gm(b, c)) { lemma_hn(a, b); lemma_hn(a, gm(b, c)); lemma_as(a, b, c, 8); }
proof fn lemma_as(a: u8, b: u8, c: u8, n: nat) requires n <= 8 ensures gm(hn(a, b, n), c) == hn(a, gm(b, c), n) decreases n
{
    if n == 0 { lemma_zero(c); } else {
        let p = (n - 1) as nat; lemma_as(a, b, c, p); let h = hn(a, b, p); lemma_gm_xt(h, c);
        let z = if bt(a, 8 - n) { b } else { 0 };
        lemma_hn(xt(h), c); lemma_hn(z, c); lemma_hn(xt(h) ^ z, c); lemma_hl(xt(h), z, c, 8); lemma_zero(c);
    }
}
proof fn lemma_hz(a: u8, n: nat) ensures hn(a, 0, n) == 0 decreases n { lemma_xt_lin(0, 0); lemma_x(0, 0, 0); if n > 0 { lemma_hz(a, (n - 1) as nat); } }
proof fn lemma_zero(b: u8) ensures gm(0, b) == 0, gm(b, 0) == 0, gm(1, b) == b {
    lemma_hn(b, 0); lemma_hz(b, 8); lemma_x(b, 0, 0);
    lemma_xt_lin(0, 0); lemma_x(0, b, 0); lemma_x(0, 0, 0); 
    assert(0u8 & 0x80 == 0 && 0u8 & 0x40 == 0 && 0u8 & 0x20 == 0 && 0u8 & 0x10 == 0 && 0u8 & 8 == 0 && 0u8 & 4 == 0 && 0u8 & 2 == 0 && 0u8 & 1 == 0) by(bit_vector);
    assert(1u8 & 0x80 == 0 && 1u8 & 0x40 == 0 && 1u8 & 0x20 == 0 && 1u8 & 0x10 == 0 && 1u8 & 8 == 0 && 1u8 & 4 == 0 && 1u8 & 2 == 0 && 1u8 & 1 != 0) by(bit_vector);
}
