@lib
pub open spec fn blen(n: int) -> int { (n + 63) / 64 }

pub open spec fn pad_of(n: int) -> u64 {
    if n % 64 == 0 { 0xFFFFFFFFFFFFFFFFu64 } else { 0xFFFFFFFFFFFFFFFFu64 << ((64 - n % 64) as u64) }
}

// bit i of the bit string starting at word off
pub open spec fn bat(s: Seq<u64>, off: int, i: int) -> bool { bit(s[off + i / 64], i % 64) }

impl graphBits {
    pub open spec fn lo(self) -> int { self.data.off as int }
    pub open spec fn hi(self) -> int { self.data.off + blen(self.valid_len as int) }
    pub open spec fn n(self) -> int { self.valid_len as int }
    // points to live memory and describes a non-empty bit string in it
    pub open spec fn wfp(self, m: Mem) -> bool {
        self.data.gen@ == m.gen@ && 0 < self.valid_len < 0x1_0000_0000_0000 && self.hi() <= m@.len() && m@.len() < 0x1_0000_0000_0000
        && self.pad_cover == pad_of(self.valid_len as int)
    }
    pub open spec fn has(self, m: Mem, i: int) -> bool {
        0 <= i < self.valid_len && bat(m@, self.data.off as int, i)
    }
    // no stray bits behind the last valid one
    pub open spec fn clean(self, m: Mem) -> bool {
        forall|i: int| self.valid_len <= i < 64 * blen(self.valid_len as int) ==> !#[trigger] bat(m@, self.data.off as int, i)
    }
    pub open spec fn wf(self, m: Mem) -> bool { self.wfp(m) && self.clean(m) }
    // the set of indices represented
    pub open spec fn set_in(self, m: Mem) -> Set<int> {
        Set::range(0, self.valid_len as int).filter(|i: int| bat(m@, self.data.off as int, i))
    }
}

pub open spec fn only_block(a: Mem, b: Mem, g: graphBits) -> bool {
    a.gen == b.gen && same_outside(a@, b@, g.lo(), g.hi())
}

proof fn lemma_set_bit(w: u64, k: u64, j: u64)
    by(bit_vector)
    requires k < 64, j < 64,
    ensures
        ((w | (0x8000000000000000u64 >> k)) & (0x8000000000000000u64 >> j) != 0) == ((w & (0x8000000000000000u64 >> j) != 0) || j == k),
        ((w & !(0x8000000000000000u64 >> k)) & (0x8000000000000000u64 >> j) != 0) == ((w & (0x8000000000000000u64 >> j) != 0) && j != k),
        ((w ^ (0x8000000000000000u64 >> k)) & (0x8000000000000000u64 >> j) != 0) == ((w & (0x8000000000000000u64 >> j) != 0) != (j == k)),
{}

proof fn lemma_word_ops(a: u64, b: u64, j: u64)
    by(bit_vector)
    requires j < 64,
    ensures
        ((a & b) & (0x8000000000000000u64 >> j) != 0) == ((a & (0x8000000000000000u64 >> j) != 0) && (b & (0x8000000000000000u64 >> j) != 0)),
        ((a | b) & (0x8000000000000000u64 >> j) != 0) == ((a & (0x8000000000000000u64 >> j) != 0) || (b & (0x8000000000000000u64 >> j) != 0)),
        ((a ^ b) & (0x8000000000000000u64 >> j) != 0) == ((a & (0x8000000000000000u64 >> j) != 0) != (b & (0x8000000000000000u64 >> j) != 0)),
        ((a & !b) & (0x8000000000000000u64 >> j) != 0) == ((a & (0x8000000000000000u64 >> j) != 0) && !(b & (0x8000000000000000u64 >> j) != 0)),
{}

pub broadcast proof fn bit_and(a: u64, b: u64, j: int)
    requires 0 <= j < 64,
    ensures #[trigger] bit(a & b, j) == (bit(a, j) && bit(b, j)),
{ reveal(bitu); lemma_word_ops(a, b, j as u64); }

pub broadcast proof fn bit_or(a: u64, b: u64, j: int)
    requires 0 <= j < 64,
    ensures #[trigger] bit(a | b, j) == (bit(a, j) || bit(b, j)),
{ reveal(bitu); lemma_word_ops(a, b, j as u64); }

pub broadcast proof fn bit_xor(a: u64, b: u64, j: int)
    requires 0 <= j < 64,
    ensures #[trigger] bit(a ^ b, j) == (bit(a, j) != bit(b, j)),
{ reveal(bitu); lemma_word_ops(a, b, j as u64); }

proof fn lemma_not(a: u64, j: u64)
    by(bit_vector)
    requires j < 64,
    ensures ((!a) & (0x8000000000000000u64 >> j) != 0) == !(a & (0x8000000000000000u64 >> j) != 0),
{}
pub broadcast proof fn bit_not(a: u64, j: int)
    requires 0 <= j < 64,
    ensures #[trigger] bit(!a, j) == !bit(a, j),
{ reveal(bitu); lemma_not(a, j as u64); }

proof fn lemma_one(k: u64, j: u64)
    by(bit_vector)
    requires k < 64, j < 64,
    ensures ((0x8000000000000000u64 >> k) & (0x8000000000000000u64 >> j) != 0) == (k == j),
       0u64 & (0x8000000000000000u64 >> j) == 0,
{}
pub broadcast proof fn bit_one(k: u64, j: int)
    requires 0 <= j < 64, k < 64,
    ensures #[trigger] bit(0x8000000000000000u64 >> k, j) == (k == j),
{ reveal(bitu); lemma_one(k, j as u64); }
pub broadcast proof fn bit_zero(j: int)
    requires 0 <= j < 64,
    ensures !#[trigger] bit(0u64, j),
{ reveal(bitu); lemma_one(0, j as u64); }

proof fn lemma_upto(k: u64, j: u64)
    by(bit_vector)
    requires k < 64, j < 64,
    ensures ((0xFFFFFFFFFFFFFFFFu64 >> k) & (0x8000000000000000u64 >> j) != 0) == (k <= j),
        k > 0 ==> (((0xFFFFFFFFFFFFFFFFu64 << sub(64, k)) & (0x8000000000000000u64 >> j) != 0) == (j < k)),
        0xFFFFFFFFFFFFFFFFu64 & (0x8000000000000000u64 >> j) != 0,
{}
pub broadcast proof fn bit_from(k: u64, j: int)
    requires 0 <= j < 64, k < 64,
    ensures #[trigger] bit(0xFFFFFFFFFFFFFFFFu64 >> k, j) == (k <= j),
{ reveal(bitu); lemma_upto(k, j as u64); }
pub broadcast proof fn bit_pad(n: int, j: int)
    requires 0 <= j < 64, 0 < n,
    ensures #[trigger] bit(pad_of(n), j) == (n % 64 == 0 || j < n % 64),
{ reveal(bitu); lemma_upto((n % 64) as u64, j as u64); }

pub broadcast group bit_lemmas { bit_and, bit_or, bit_xor, bit_not, bit_one, bit_zero, bit_from, bit_pad }

proof fn lemma_shift6(i: u64)
    by(bit_vector)
    ensures i >> 6 == i / 64, i <= 0xFFFF_FFFF_FFFF_FFC0 ==> add(i, 63) >> 6 == i / 64 + (if i % 64 != 0 { 1u64 } else { 0 }), i & 0x3f == i % 64, i & 0x3f < 64,
{}
proof fn lemma_shl6(b: u64)
    by(bit_vector)
    requires b < 0x0400_0000_0000_0000,
    ensures b << 6 == mul(b, 64),
{}

// number of bits set among the first k of a word
pub open spec fn wc(w: u64, k: int) -> int
    decreases k,
{ if k <= 0 { 0 } else { wc(w, k - 1) + (if bit(w, k - 1) { 1int } else { 0int }) } }

// compiler builtin: number of one bits of a word
pub fn popcountll(x: u64) -> (r: u32)
    ensures r == wc(x, 64), r <= 64,
{
    let mut k: u64 = 0;
    let mut r: u32 = 0;
    while k < 64
        invariant k <= 64, r == wc(x, k as int), r <= k,
        decreases 64 - k,
    {
        proof { reveal(bitu); }
        if x & (0x8000000000000000u64 >> k) != 0 { r = r + 1; }
        k = k + 1;
    }
    r
}
pub open spec fn b1(n: u64, k: u64) -> u64 { (n >> k) & 1 }
pub open spec fn byte_sum(n: u64) -> u64 {
    add(add(add(b1(n, 0), b1(n, 1)), add(b1(n, 2), b1(n, 3))), add(add(b1(n, 4), b1(n, 5)), add(b1(n, 6), b1(n, 7))))
}
pub open spec fn sw1(n: u64) -> u64 { sub(n, ((n >> 1) & 0x5555555555555555)) }
pub open spec fn sw2(n: u64) -> u64 { let n1 = sw1(n); add((n1 & 0x3333333333333333), ((n1 >> 2) & 0x3333333333333333)) }
pub open spec fn sw3(n: u64) -> u64 { let n2 = sw2(n); (add(n2, (n2 >> 4))) & 0x0f0f0f0f0f0f0f0f }
pub open spec fn by8(n: u64, s: u64) -> u64 { (n >> s) & 0xff }

proof fn lemma_sw3(n: u64)
    by(bit_vector)
    ensures
        by8(sw3(n), 0) == byte_sum(by8(n, 0)), by8(sw3(n), 8) == byte_sum(by8(n, 8)),
        by8(sw3(n), 16) == byte_sum(by8(n, 16)), by8(sw3(n), 24) == byte_sum(by8(n, 24)),
        by8(sw3(n), 32) == byte_sum(by8(n, 32)), by8(sw3(n), 40) == byte_sum(by8(n, 40)),
        by8(sw3(n), 48) == byte_sum(by8(n, 48)), by8(sw3(n), 56) == byte_sum(by8(n, 56)),
        (n >> 1) & 0x5555555555555555 <= n,
        sw1(n) & 0x3333333333333333 <= 0x3333333333333333, (sw1(n) >> 2) & 0x3333333333333333 <= 0x3333333333333333,
        sw2(n) <= 0x4444444444444444, sw2(n) >> 4 <= 0x0444444444444444,
{}
proof fn lemma_sw_sum(m: u64)
    by(bit_vector)
    requires by8(m, 0) <= 8, by8(m, 8) <= 8, by8(m, 16) <= 8, by8(m, 24) <= 8,
        by8(m, 32) <= 8, by8(m, 40) <= 8, by8(m, 48) <= 8, by8(m, 56) <= 8,
    ensures ({
        let a = add(m, m >> 8); let b = add(a, a >> 16); let c = add(b, b >> 32);
        &&& (c & 0x7f) == add(add(add(by8(m, 0), by8(m, 8)), add(by8(m, 16), by8(m, 24))),
                add(add(by8(m, 32), by8(m, 40)), add(by8(m, 48), by8(m, 56))))
        &&& m <= 0x0808080808080808 &&& (m >> 8) <= 0x0808080808080808
        &&& a <= 0x1010101010101010 &&& (a >> 16) <= 0x1010101010101010
        &&& b <= 0x2020202020202020 &&& (b >> 32) <= 0x2020202020202020
    }),
{}
proof fn lemma_byte_sum(n: u64)
    by(bit_vector)
    ensures byte_sum(n) <= 8,
{}
proof fn lemma_byte_bits(w: u64, t: u64)
    by(bit_vector)
    requires t < 8,
    ensures ({
        let v = (w >> sub(56, mul(8, t))) & 0xff;
        byte_sum(v) == add(add(add(if w & (0x8000000000000000u64 >> mul(8, t)) != 0 { 1u64 } else { 0u64 },
            if w & (0x8000000000000000u64 >> add(mul(8, t), 1)) != 0 { 1u64 } else { 0u64 }),
            add(if w & (0x8000000000000000u64 >> add(mul(8, t), 2)) != 0 { 1u64 } else { 0u64 },
            if w & (0x8000000000000000u64 >> add(mul(8, t), 3)) != 0 { 1u64 } else { 0u64 })),
            add(add(if w & (0x8000000000000000u64 >> add(mul(8, t), 4)) != 0 { 1u64 } else { 0u64 },
            if w & (0x8000000000000000u64 >> add(mul(8, t), 5)) != 0 { 1u64 } else { 0u64 }),
            add(if w & (0x8000000000000000u64 >> add(mul(8, t), 6)) != 0 { 1u64 } else { 0u64 },
            if w & (0x8000000000000000u64 >> add(mul(8, t), 7)) != 0 { 1u64 } else { 0u64 })))
    }),
{}
proof fn lemma_byte_wc(w: u64, t: u64)
    requires t < 8,
    ensures wc(w, 8 * t + 8) == wc(w, 8 * t as int) + byte_sum(by8(w, (56 - 8 * t) as u64)),
{
    lemma_byte_bits(w, t);
    reveal(bitu);
    reveal_with_fuel(wc, 9);
}
proof fn lemma_popcount(n: u64)
    ensures ({
        let m = sw3(n);
        let a = add(m, m >> 8); let b = add(a, a >> 16); let c = add(b, b >> 32);
        &&& (n >> 1) & 0x5555555555555555 <= n
        &&& sw1(n) & 0x3333333333333333 <= 0x3333333333333333 &&& (sw1(n) >> 2) & 0x3333333333333333 <= 0x3333333333333333
        &&& sw2(n) <= 0x4444444444444444 &&& sw2(n) >> 4 <= 0x0444444444444444
        &&& m <= 0x0808080808080808 &&& (m >> 8) <= 0x0808080808080808
        &&& a <= 0x1010101010101010 &&& (a >> 16) <= 0x1010101010101010
        &&& b <= 0x2020202020202020 &&& (b >> 32) <= 0x2020202020202020
        &&& (c & 0x7f) == wc(n, 64)
    }),
{
    lemma_sw3(n);
    lemma_byte_sum(by8(n, 0)); lemma_byte_sum(by8(n, 8)); lemma_byte_sum(by8(n, 16)); lemma_byte_sum(by8(n, 24));
    lemma_byte_sum(by8(n, 32)); lemma_byte_sum(by8(n, 40)); lemma_byte_sum(by8(n, 48)); lemma_byte_sum(by8(n, 56));
    lemma_sw_sum(sw3(n));
    lemma_byte_wc(n, 0); lemma_byte_wc(n, 1); lemma_byte_wc(n, 2); lemma_byte_wc(n, 3);
    lemma_byte_wc(n, 4); lemma_byte_wc(n, 5); lemma_byte_wc(n, 6); lemma_byte_wc(n, 7);
}

// number of indices below n in the bit string at word off
pub open spec fn cardn(s: Seq<u64>, off: int, n: int) -> int
    decreases n,
{ if n <= 0 { 0 } else { cardn(s, off, n - 1) + (if bat(s, off, n - 1) { 1int } else { 0int }) } }

proof fn lemma_cardn_bound(s: Seq<u64>, off: int, n: int)
    requires n >= 0,
    ensures 0 <= cardn(s, off, n) <= n,
    decreases n,
{ if n > 0 { lemma_cardn_bound(s, off, n - 1); } }

proof fn lemma_cardn_word_part(s: Seq<u64>, off: int, i: int, k: int)
    requires 0 <= i, 0 <= k <= 64,
    ensures cardn(s, off, 64 * i + k) == cardn(s, off, 64 * i) + wc(s[off + i], k),
    decreases k,
{
    if k > 0 {
        lemma_cardn_word_part(s, off, i, k - 1);
        assert((64 * i + k - 1) / 64 == i && (64 * i + k - 1) % 64 == k - 1);
    }
}

proof fn lemma_cardn_pad(s: Seq<u64>, off: int, n: int, m: int)
    requires 0 <= n <= m, forall|i: int| n <= i < m ==> !#[trigger] bat(s, off, i),
    ensures cardn(s, off, m) == cardn(s, off, n),
    decreases m - n,
{ if n < m { lemma_cardn_pad(s, off, n, m - 1); } }

pub open spec fn bset(s: Seq<u64>, off: int, n: int) -> Set<int> {
    Set::range(0, n).filter(|i: int| bat(s, off, i))
}

proof fn lemma_cardn_set(s: Seq<u64>, off: int, n: int)
    requires 0 <= n,
    ensures cardn(s, off, n) == bset(s, off, n).len(),
    decreases n,
{
    if n > 0 {
        lemma_cardn_set(s, off, n - 1);
        if bat(s, off, n - 1) {
            assert(bset(s, off, n) =~= bset(s, off, n - 1).insert(n - 1));
        } else {
            assert(bset(s, off, n) =~= bset(s, off, n - 1));
        }
    } else {
        assert(bset(s, off, n) =~= Set::empty());
    }
}

proof fn lemma_set_count(g: graphBits, m: Mem)
    ensures g.set_in(m).len() == cardn(m@, g.lo(), g.n()),
{
    lemma_cardn_set(m@, g.lo(), g.n());
    assert(g.set_in(m) =~= bset(m@, g.lo(), g.n()));
}

// elements selected by the bits, in order
pub open spec fn pick(s: Seq<u64>, off: int, el: Seq<u64>, elo: int, n: int) -> Seq<u64>
    decreases n,
{
    if n <= 0 { Seq::empty() }
    else if bat(s, off, n - 1) { pick(s, off, el, elo, n - 1).push(el[elo + n - 1]) }
    else { pick(s, off, el, elo, n - 1) }
}
proof fn lemma_pick_len(s: Seq<u64>, off: int, el: Seq<u64>, elo: int, n: int)
    requires 0 <= n,
    ensures pick(s, off, el, elo, n).len() == cardn(s, off, n),
    decreases n,
{ if n > 0 { lemma_pick_len(s, off, el, elo, n - 1); } }
proof fn lemma_cardn_mono(s: Seq<u64>, off: int, a: int, b: int)
    requires 0 <= a <= b,
    ensures cardn(s, off, a) <= cardn(s, off, b),
    decreases b - a,
{ if a < b { lemma_cardn_mono(s, off, a, b - 1); } }
proof fn lemma_pick_frame(s: Seq<u64>, t: Seq<u64>, off: int, el: Seq<u64>, elo: int, n: int)
    requires forall|k: int| 0 <= k < n ==> #[trigger] bat(s, off, k) == bat(t, off, k),
    ensures pick(s, off, el, elo, n) == pick(t, off, el, elo, n),
    decreases n,
{ if n > 0 { assert(bat(s, off, n - 1) == bat(t, off, n - 1)); lemma_pick_frame(s, t, off, el, elo, n - 1); } }

// bit-level effect of an operation on the whole block of g
pub open spec fn bits_same(a: Seq<u64>, b: Seq<u64>, off: int, n: int) -> bool {
    forall|k: int| 0 <= k < n ==> #[trigger] bat(b, off, k) == bat(a, off, k)
}

proof fn lemma_wc_bound(w: u64, k: int)
    requires 0 <= k,
    ensures 0 <= wc(w, k) <= k,
    decreases k,
{ if k > 0 { lemma_wc_bound(w, k - 1); } }

proof fn lemma_pad_shift(n: u64)
    ensures n & 0x3f == n % 64, n % 64 != 0 ==> pad_of(n as int) == 0xFFFFFFFFFFFFFFFFu64 << ((64 - (n & 0x3f)) as u64),
        0xFFFFFFFFFFFFFFFFu64 << 0u64 == 0xFFFFFFFFFFFFFFFFu64,
        ((64 - (n & 0x3f)) as u64) & 0x3f == (64 - n % 64) % 64,
{
    lemma_shift6(n);
    lemma_shift6((64 - (n & 0x3f)) as u64);
    assert(0xFFFFFFFFFFFFFFFFu64 << 0u64 == 0xFFFFFFFFFFFFFFFFu64) by(bit_vector);
}

// masking the last word of a clean string changes nothing
proof fn lemma_same_bits(a: u64, b: u64)
    requires forall|j: int| 0 <= j < 64 ==> #[trigger] bit(a, j) == bit(b, j),
    ensures a == b,
{
    assert forall|j: u64| j < 64 implies #[trigger] bitu(a, j) == bitu(b, j) by { assert(bit(a, j as int) == bit(b, j as int)); }
    reveal(bitu);
    lemma_ext_u64(a, b);
}
proof fn lemma_ext_u64(a: u64, b: u64)
    requires forall|j: u64| j < 64 ==> #[trigger] bitu(a, j) == bitu(b, j),
    ensures a == b,
{
    reveal(bitu);
    if a != b {
        let x = a ^ b;
        assert(x != 0) by(bit_vector) requires x == a ^ b, a != b;
        lemma_some_bit(x);
        let j = choose|j: u64| j < 64 && #[trigger] bitu(x, j);
        lemma_word_ops(a, b, j);
        assert(bitu(a, j) == bitu(b, j));
    }
}
// by halving: a non-zero word has a bit
proof fn lemma_some_bit(x: u64)
    requires x != 0,
    ensures exists|j: u64| j < 64 && #[trigger] bitu(x, j),
{
    assert(x & (0xFFFFFFFFFFFFFFFFu64 >> 0u64) == x) by(bit_vector);
    lemma_some_bit_from(x, 0);
}
proof fn lemma_some_bit_from(x: u64, k: u64)
    requires x != 0, k <= 64, k < 64 ==> x & (0xFFFFFFFFFFFFFFFFu64 >> k) == x, k == 64 ==> x == 0,
    ensures exists|j: u64| j < 64 && #[trigger] bitu(x, j),
    decreases 64 - k,
{
    reveal(bitu);
    if x & (0x8000000000000000u64 >> k) != 0 {
        assert(bitu(x, k));
    } else {
        if k < 63 {
            assert(x & (0xFFFFFFFFFFFFFFFFu64 >> add(k, 1)) == x) by(bit_vector)
                requires k < 63, x & (0xFFFFFFFFFFFFFFFFu64 >> k) == x, x & (0x8000000000000000u64 >> k) == 0;
            lemma_some_bit_from(x, (k + 1) as u64);
        } else {
            assert(x == 0) by(bit_vector)
                requires k == 63, x & (0xFFFFFFFFFFFFFFFFu64 >> k) == x, x & (0x8000000000000000u64 >> k) == 0;
        }
    }
}
proof fn lemma_clean_mask(g: graphBits, m: Mem)
    requires g.wf(m),
    ensures m@[g.hi() - 1] & g.pad_cover == m@[g.hi() - 1],
{
    broadcast use bit_lemmas;
    let w = m@[g.hi() - 1];
    assert forall|j: int| 0 <= j < 64 implies #[trigger] bit(w & g.pad_cover, j) == bit(w, j) by {
        let i = 64 * (blen(g.n()) - 1) + j;
        assert(i / 64 == blen(g.n()) - 1 && i % 64 == j);
        assert(bat(m@, g.lo(), i) == bit(w, j));
    }
    lemma_same_bits(w & g.pad_cover, w);
}
// the word next() inspects for index i
pub open spec fn nmask(g: graphBits, m: Mem, i: u64) -> u64 { m@[g.data.off + (i >> 6)] & (ALL_ONES >> (i & 0x3f)) }
// r is the smallest index >= i in the set, or the length if there is none
pub open spec fn next_is(g: graphBits, m: Mem, i: int, r: int) -> bool {
    &&& 0 <= r <= g.valid_len && (i <= r || r == g.valid_len)
    &&& r < g.valid_len ==> bat(m@, g.lo(), r)
    &&& forall|k: int| i <= k < r ==> !#[trigger] bat(m@, g.lo(), k)
}
proof fn lemma_next(g: graphBits, m: Mem, i: u64)
    requires g.wf(m),
    ensures i < g.valid_len ==> ({
        let base = i >> 6;
        let mask = nmask(g, m, i);
        &&& base == i / 64
        &&& (base << 6) == base * 64
        &&& (((base + 1) as u64) << 6) == (base + 1) * 64
        &&& forall|z: int| 0 <= z < 64 && #[trigger] bit(mask, z) && (forall|y: int| 0 <= y < z ==> !#[trigger] bit(mask, y))
                ==> next_is(g, m, i as int, 64 * base + z)
        &&& forall|j: int, r: int| mask == 0 && j == 64 * (base + 1) && #[trigger] next_is(g, m, j, r) ==> next_is(g, m, i as int, r)
    }),
{
    broadcast use bit_lemmas;
    if i < g.valid_len {
        lemma_shift6(i);
        lemma_shl6(i >> 6); lemma_shl6(((i >> 6) + 1) as u64);
        let base = i >> 6;
        let mask = nmask(g, m, i);
        assert forall|k: int| i <= k < 64 * (base + 1) implies #[trigger] bat(m@, g.lo(), k) == bit(mask, k % 64) by {
            assert(k / 64 == base);
        }
        assert forall|z: int| 0 <= z < 64 && #[trigger] bit(mask, z) && (forall|y: int| 0 <= y < z ==> !#[trigger] bit(mask, y))
                implies next_is(g, m, i as int, 64 * base + z) by {
            let k = 64 * base + z;
            assert(k / 64 == base && k % 64 == z);
            assert(bat(m@, g.lo(), k));
            assert forall|k: int| i <= k < 64 * base + z implies !#[trigger] bat(m@, g.lo(), k) by {
                assert(0 <= k % 64 < z);
            }
        }
    }
}

@fn graphBits::set(i)
@requires
    self.wfp(*old(mem)), i < self.valid_len,
@ensures
    only_block(*old(mem), *final(mem), *self),
    forall|k: int| 0 <= k < 64 * blen(self.n()) ==> #[trigger] bat(final(mem)@, self.lo(), k) == (bat(old(mem)@, self.lo(), k) || k == i),
    self.set_in(*final(mem)) =~= self.set_in(*old(mem)).insert(i as int),
    self.clean(*old(mem)) ==> self.clean(*final(mem)),
@at begin
    broadcast use bit_lemmas;
    proof { lemma_shift6(i); }
@at end
    assert(forall|k: int| 0 <= k < 64 * blen(self.n()) ==> #[trigger] bat(mem@, self.lo(), k) == (bat(old(mem)@, self.lo(), k) || k == i));

@fn graphBits::reset(i)
@requires
    self.wfp(*old(mem)), i < self.valid_len,
@ensures
    only_block(*old(mem), *final(mem), *self),
    forall|k: int| 0 <= k < 64 * blen(self.n()) ==> #[trigger] bat(final(mem)@, self.lo(), k) == (bat(old(mem)@, self.lo(), k) && k != i),
    self.set_in(*final(mem)) =~= self.set_in(*old(mem)).remove(i as int),
    self.clean(*old(mem)) ==> self.clean(*final(mem)),
@at begin
    broadcast use bit_lemmas;
    proof { lemma_shift6(i); }
@at end
    assert(forall|k: int| 0 <= k < 64 * blen(self.n()) ==> #[trigger] bat(mem@, self.lo(), k) == (bat(old(mem)@, self.lo(), k) && k != i));

@fn graphBits::toggle(i)
@requires
    self.wfp(*old(mem)), i < self.valid_len,
@ensures
    only_block(*old(mem), *final(mem), *self),
    forall|k: int| 0 <= k < 64 * blen(self.n()) ==> #[trigger] bat(final(mem)@, self.lo(), k) == (bat(old(mem)@, self.lo(), k) != (k == i)),
    self.set_in(*final(mem)) =~= (if self.has(*old(mem), i as int) { self.set_in(*old(mem)).remove(i as int) } else { self.set_in(*old(mem)).insert(i as int) }),
    self.clean(*old(mem)) ==> self.clean(*final(mem)),
@at begin
    broadcast use bit_lemmas;
    proof { lemma_shift6(i); }
@at end
    assert(forall|k: int| 0 <= k < 64 * blen(self.n()) ==> #[trigger] bat(mem@, self.lo(), k) == (bat(old(mem)@, self.lo(), k) != (k == i)));

@fn graphBits::op_index(i)
@requires
    self.wfp(*mem), i < self.valid_len,
@ensures
    r == self.has(*mem, i as int),
    r == self.set_in(*mem).contains(i as int),
@at begin
    broadcast use bit_lemmas;
    proof { lemma_shift6(i); reveal(bitu); }

@fn graphBits::block_empty(i)
@requires
    self.wfp(*mem), i < 64 * blen(self.n()),
@ensures
    r ==> forall|k: int| 64 * (i / 64) <= k < 64 * (i / 64) + 64 ==> !#[trigger] bat(mem@, self.lo(), k),
@at begin
    broadcast use bit_lemmas;
    proof { lemma_shift6(i); }

@fn graphBits::refer_from_graphBits(other)
@ensures
    *final(self) == *other,

@fn graphBits::refer_from_p_u_b(ext_data, n_bits, cleanout)
@requires
    ext_data.gen@ == old(mem).gen@, 0 < n_bits < 0x1_0000_0000_0000,
    ext_data.off + blen(n_bits as int) <= old(mem)@.len() < 0x1_0000_0000_0000,
@ensures
    final(self).data == ext_data, final(self).valid_len == n_bits, final(self).wfp(*final(mem)),
    only_block(*old(mem), *final(mem), *final(self)),
    !cleanout ==> *final(mem) == *old(mem),
    cleanout ==> (forall|k: int| 0 <= k < 64 * blen(n_bits as int) ==> !#[trigger] bat(final(mem)@, ext_data.off as int, k)),
    cleanout ==> final(self).clean(*final(mem)) && final(self).set_in(*final(mem)) =~= Set::empty(),
@at begin
    proof { lemma_shift6(n_bits); lemma_pad_shift(n_bits); }

@fn graphBits::new_p_u_b(ext_data, n_bits, cleanout)
@requires
    ext_data.gen@ == old(mem).gen@, 0 < n_bits < 0x1_0000_0000_0000,
    ext_data.off + blen(n_bits as int) <= old(mem)@.len() < 0x1_0000_0000_0000,
@ensures
    r.data == ext_data, r.valid_len == n_bits, r.wfp(*final(mem)),
    only_block(*old(mem), *final(mem), r),
    !cleanout ==> *final(mem) == *old(mem),
    cleanout ==> (forall|k: int| 0 <= k < 64 * blen(n_bits as int) ==> !#[trigger] bat(final(mem)@, ext_data.off as int, k)),
    cleanout ==> r.clean(*final(mem)) && r.set_in(*final(mem)) =~= Set::empty(),

@fn graphBits::clear(N)
@locals u64 i, u64 clear_len, u64 dlen
@requires
    self.wfp(*old(mem)),
@ensures
    only_block(*old(mem), *final(mem), *self),
    // every index up to N (all of them for N = 0) is gone, the words behind are untouched
    forall|k: int| 0 <= k < 64 * blen(self.n()) ==> #[trigger] bat(final(mem)@, self.lo(), k)
        == (N != 0 && k / 64 > N / 64 && bat(old(mem)@, self.lo(), k)),
    N == 0 || N >= self.valid_len ==> self.clean(*final(mem)) && self.set_in(*final(mem)) =~= Set::empty(),
    self.clean(*old(mem)) ==> self.clean(*final(mem)),
    forall|w: int| self.lo() <= w < self.hi() ==> #[trigger] final(mem)@[w] == (if N != 0 && w - self.lo() > N / 64 { old(mem)@[w] } else { 0u64 }),
@loop 1
@invariant
    self.wfp(*old(mem)), only_block(*old(mem), *mem, *self),
    clear_len <= blen(self.n()), i <= clear_len,
    forall|w: int| self.lo() <= w < self.hi() ==> #[trigger] mem@[w] == (if w < self.lo() + i { 0u64 } else { old(mem)@[w] }),
@loop_decreases
    clear_len - i
@at begin
    broadcast use bit_lemmas;
    proof { lemma_shift6(N); lemma_shift6(self.valid_len); }
@at end
    assert forall|k: int| 0 <= k < 64 * blen(self.n()) implies #[trigger] bat(mem@, self.lo(), k)
        == (N != 0 && k / 64 > N / 64 && bat(old(mem)@, self.lo(), k)) by {
        assert(self.lo() <= self.lo() + k / 64 < self.hi());
    }

@fn graphBits::copy_data(other)
@requires
    self.wfp(*old(mem)), other.data.gen@ == old(mem).gen@, other.lo() + blen(self.n()) <= old(mem)@.len(),
    self.lo() <= other.lo() || other.lo() + blen(self.n()) <= self.lo(),
@ensures
    only_block(*old(mem), *final(mem), *self),
    forall|w: int| self.lo() <= w < self.hi() ==> #[trigger] final(mem)@[w] == old(mem)@[other.lo() + (w - self.lo())],
    forall|k: int| 0 <= k < 64 * blen(self.n()) ==> #[trigger] bat(final(mem)@, self.lo(), k) == bat(old(mem)@, other.lo(), k),
    self.valid_len == other.valid_len ==> self.set_in(*final(mem)) =~= other.set_in(*old(mem)),
    self.valid_len == other.valid_len && other.clean(*old(mem)) ==> self.clean(*final(mem)),
@at begin
    proof { lemma_shift6(self.valid_len); }
@at end
    assert forall|k: int| 0 <= k < 64 * blen(self.n()) implies #[trigger] bat(mem@, self.lo(), k) == bat(old(mem)@, other.lo(), k) by {
        assert(self.lo() <= self.lo() + k / 64 < self.hi());
    }

@fn graphBits::copy_data_x(other)
@requires
    self.wfp(*old(mem)), other.data.gen@ == mem2.gen@, other.lo() + blen(self.n()) <= mem2@.len(), mem2@.len() < 0x1_0000_0000_0000,
@ensures
    only_block(*old(mem), *final(mem), *self),
    forall|w: int| self.lo() <= w < self.hi() ==> #[trigger] final(mem)@[w] == mem2@[other.lo() + (w - self.lo())],
    forall|k: int| 0 <= k < 64 * blen(self.n()) ==> #[trigger] bat(final(mem)@, self.lo(), k) == bat(mem2@, other.lo(), k),
    self.valid_len == other.valid_len ==> self.set_in(*final(mem)) =~= other.set_in(*mem2),
    self.valid_len == other.valid_len && other.clean(*mem2) ==> self.clean(*final(mem)),
@at begin
    proof { lemma_shift6(self.valid_len); }
@at end
    assert forall|k: int| 0 <= k < 64 * blen(self.n()) implies #[trigger] bat(mem@, self.lo(), k) == bat(mem2@, other.lo(), k) by {
        assert(self.lo() <= self.lo() + k / 64 < self.hi());
    }

@fn graphBits::copy_from(other, data_ptr)
@requires
    other.wfp(*old(mem)), data_ptr.gen@ == old(mem).gen@, data_ptr.off + blen(other.n()) <= old(mem)@.len(),
    data_ptr.off <= other.lo() || other.hi() <= data_ptr.off,
@ensures
    final(self).data == data_ptr, final(self).valid_len == other.valid_len, final(self).wfp(*final(mem)),
    only_block(*old(mem), *final(mem), *final(self)),
    forall|w: int| final(self).lo() <= w < final(self).hi() ==> #[trigger] final(mem)@[w] == old(mem)@[other.lo() + (w - final(self).lo())],
    forall|k: int| 0 <= k < 64 * blen(other.n()) ==> #[trigger] bat(final(mem)@, data_ptr.off as int, k) == bat(old(mem)@, other.lo(), k),
    final(self).set_in(*final(mem)) =~= other.set_in(*old(mem)),
    other.clean(*old(mem)) ==> final(self).clean(*final(mem)),

@fn graphBits::next(i)
@requires
    self.wf(*mem), i < 0x2_0000_0000_0000,
@ensures
    next_is(*self, *mem, i as int, r as int),
@decreases
    0x2_0000_0000_0000int + 64 - i
@at begin
    proof { lemma_shift6(i); lemma_next(*self, *mem, i); }
@at after /let mut mask: u64 =/
    assert(mask == nmask(*self, *mem, i));

@fn clz(n)
@requires
    n != 0,
@ensures
    r < 64, bit(n, r as int), forall|k: int| 0 <= k < r ==> !#[trigger] bit(n, k),

@fn bitcount(n)
@ensures
    r == wc(n, 64), r <= 64,
@at begin
    proof { lemma_popcount(n); lemma_wc_bound(n, 64); }

@fn graphBits::count()
@locals u64 sum, u64 dlen, u64 i
@requires
    self.wfp(*old(mem)),
@ensures
    r == self.set_in(*old(mem)).len(), r <= self.valid_len,
    only_block(*old(mem), *final(mem), *self),
    bits_same(old(mem)@, final(mem)@, self.lo(), self.n()),
    self.set_in(*final(mem)) =~= self.set_in(*old(mem)),
    self.clean(*final(mem)),
    self.clean(*old(mem)) ==> final(mem)@ =~= old(mem)@,
    forall|k: int| 0 <= k < 64 * blen(self.n()) ==> #[trigger] bat(final(mem)@, self.lo(), k) == (k < self.n() && bat(old(mem)@, self.lo(), k)),
@loop 1
@invariant
    self.wfp(*old(mem)), only_block(*old(mem), *mem, *self), dlen == blen(self.n()), i <= dlen,
    self.clean(*mem), bits_same(old(mem)@, mem@, self.lo(), self.n()),
    sum == cardn(mem@, self.lo(), 64 * i as int), sum <= 64 * i,
    self.clean(*old(mem)) ==> mem@ =~= old(mem)@,
@loop_decreases
    dlen - i
@at begin
    broadcast use bit_lemmas;
    proof { lemma_shift6(self.valid_len); }
@at loop 1 before
    proof {
        assert(forall|k: int| 0 <= k < 64 * blen(self.n()) ==> #[trigger] bat(mem@, self.lo(), k) == (k < self.n() && bat(old(mem)@, self.lo(), k)));
        if self.clean(*old(mem)) { lemma_clean_mask(*self, *old(mem)); }
    }
@at loop 1 begin
    proof { lemma_cardn_word_part(mem@, self.lo(), i as int, 64); lemma_wc_bound(mem@[self.lo() + i], 64); }
@at end
@at loop 1 after
    proof {
        lemma_cardn_pad(mem@, self.lo(), self.n(), 64 * blen(self.n()));
        lemma_cardn_bound(mem@, self.lo(), self.n());
        lemma_set_count(*self, *mem);
        assert(self.set_in(*mem) =~= self.set_in(*old(mem)));
    }

@fn graphBits::op_and_assign(other)
@locals u64 dlen, u64 i
@requires
    self.wfp(*old(mem)), other.wfp(*old(mem)), other.valid_len == self.valid_len,
    self.lo() == other.lo() || self.hi() <= other.lo() || other.hi() <= self.lo(),
@ensures
    only_block(*old(mem), *final(mem), *self),
    forall|k: int| 0 <= k < 64 * blen(self.n()) ==> #[trigger] bat(final(mem)@, self.lo(), k) == (k < self.n() && (bat(old(mem)@, self.lo(), k) && bat(old(mem)@, other.lo(), k))),
    self.set_in(*final(mem)) =~= self.set_in(*old(mem)).intersect(other.set_in(*old(mem))),
    self.clean(*final(mem)),
@loop 1
@invariant
    self.wfp(*old(mem)), other.wfp(*old(mem)), other.valid_len == self.valid_len,
    self.lo() == other.lo() || self.hi() <= other.lo() || other.hi() <= self.lo(),
    only_block(*old(mem), *mem, *self), dlen == blen(self.n()), i <= dlen,
    forall|w: int| self.lo() <= w < self.hi() ==> #[trigger] mem@[w] ==
        (if w < self.lo() + i { old(mem)@[w] & old(mem)@[other.lo() + (w - self.lo())] } else { old(mem)@[w] }),
@loop_decreases
    dlen - i
@at begin
    broadcast use bit_lemmas;
    proof { lemma_shift6(self.valid_len); }
    let ghost mut m1 = mem@;
@at loop 1 after
    proof {
        m1 = mem@;
        assert forall|k: int| 0 <= k < 64 * blen(self.n()) implies #[trigger] bat(m1, self.lo(), k) == ((bat(old(mem)@, self.lo(), k) && bat(old(mem)@, other.lo(), k))) by {
            assert(self.lo() <= self.lo() + k / 64 < self.hi());
        }
    }
@at end
    assert forall|k: int| 0 <= k < 64 * blen(self.n()) implies #[trigger] bat(mem@, self.lo(), k) == (k < self.n() && (bat(old(mem)@, self.lo(), k) && bat(old(mem)@, other.lo(), k))) by {
        assert(bat(m1, self.lo(), k) == ((bat(old(mem)@, self.lo(), k) && bat(old(mem)@, other.lo(), k))));
        assert(self.lo() <= self.lo() + k / 64 < self.hi());
    }

@fn graphBits::op_or_assign(other)
@locals u64 dlen, u64 i
@requires
    self.wfp(*old(mem)), other.wfp(*old(mem)), other.valid_len == self.valid_len,
    self.lo() == other.lo() || self.hi() <= other.lo() || other.hi() <= self.lo(),
@ensures
    only_block(*old(mem), *final(mem), *self),
    forall|k: int| 0 <= k < 64 * blen(self.n()) ==> #[trigger] bat(final(mem)@, self.lo(), k) == (k < self.n() && (bat(old(mem)@, self.lo(), k) || bat(old(mem)@, other.lo(), k))),
    self.set_in(*final(mem)) =~= self.set_in(*old(mem)).union(other.set_in(*old(mem))),
    self.clean(*final(mem)),
@loop 1
@invariant
    self.wfp(*old(mem)), other.wfp(*old(mem)), other.valid_len == self.valid_len,
    self.lo() == other.lo() || self.hi() <= other.lo() || other.hi() <= self.lo(),
    only_block(*old(mem), *mem, *self), dlen == blen(self.n()), i <= dlen,
    forall|w: int| self.lo() <= w < self.hi() ==> #[trigger] mem@[w] ==
        (if w < self.lo() + i { old(mem)@[w] | old(mem)@[other.lo() + (w - self.lo())] } else { old(mem)@[w] }),
@loop_decreases
    dlen - i
@at begin
    broadcast use bit_lemmas;
    proof { lemma_shift6(self.valid_len); }
    let ghost mut m1 = mem@;
@at loop 1 after
    proof {
        m1 = mem@;
        assert forall|k: int| 0 <= k < 64 * blen(self.n()) implies #[trigger] bat(m1, self.lo(), k) == ((bat(old(mem)@, self.lo(), k) || bat(old(mem)@, other.lo(), k))) by {
            assert(self.lo() <= self.lo() + k / 64 < self.hi());
        }
    }
@at end
    assert forall|k: int| 0 <= k < 64 * blen(self.n()) implies #[trigger] bat(mem@, self.lo(), k) == (k < self.n() && (bat(old(mem)@, self.lo(), k) || bat(old(mem)@, other.lo(), k))) by {
        assert(bat(m1, self.lo(), k) == ((bat(old(mem)@, self.lo(), k) || bat(old(mem)@, other.lo(), k))));
        assert(self.lo() <= self.lo() + k / 64 < self.hi());
    }

@fn graphBits::op_xor_assign(other)
@locals u64 dlen, u64 i
@requires
    self.wfp(*old(mem)), other.wfp(*old(mem)), other.valid_len == self.valid_len,
    self.lo() == other.lo() || self.hi() <= other.lo() || other.hi() <= self.lo(),
@ensures
    only_block(*old(mem), *final(mem), *self),
    forall|k: int| 0 <= k < 64 * blen(self.n()) ==> #[trigger] bat(final(mem)@, self.lo(), k) == (k < self.n() && (bat(old(mem)@, self.lo(), k) != bat(old(mem)@, other.lo(), k))),
    self.set_in(*final(mem)) =~= self.set_in(*old(mem)).difference(other.set_in(*old(mem))).union(other.set_in(*old(mem)).difference(self.set_in(*old(mem)))),
    self.clean(*final(mem)),
@loop 1
@invariant
    self.wfp(*old(mem)), other.wfp(*old(mem)), other.valid_len == self.valid_len,
    self.lo() == other.lo() || self.hi() <= other.lo() || other.hi() <= self.lo(),
    only_block(*old(mem), *mem, *self), dlen == blen(self.n()), i <= dlen,
    forall|w: int| self.lo() <= w < self.hi() ==> #[trigger] mem@[w] ==
        (if w < self.lo() + i { old(mem)@[w] ^ old(mem)@[other.lo() + (w - self.lo())] } else { old(mem)@[w] }),
@loop_decreases
    dlen - i
@at begin
    broadcast use bit_lemmas;
    proof { lemma_shift6(self.valid_len); }
    let ghost mut m1 = mem@;
@at loop 1 after
    proof {
        m1 = mem@;
        assert forall|k: int| 0 <= k < 64 * blen(self.n()) implies #[trigger] bat(m1, self.lo(), k) == ((bat(old(mem)@, self.lo(), k) != bat(old(mem)@, other.lo(), k))) by {
            assert(self.lo() <= self.lo() + k / 64 < self.hi());
        }
    }
@at end
    assert forall|k: int| 0 <= k < 64 * blen(self.n()) implies #[trigger] bat(mem@, self.lo(), k) == (k < self.n() && (bat(old(mem)@, self.lo(), k) != bat(old(mem)@, other.lo(), k))) by {
        assert(bat(m1, self.lo(), k) == ((bat(old(mem)@, self.lo(), k) != bat(old(mem)@, other.lo(), k))));
        assert(self.lo() <= self.lo() + k / 64 < self.hi());
    }

@fn graphBits::op_sub_assign(other)
@locals u64 dlen, u64 i
@requires
    self.wfp(*old(mem)), other.wfp(*old(mem)), other.valid_len == self.valid_len,
    self.lo() == other.lo() || self.hi() <= other.lo() || other.hi() <= self.lo(),
@ensures
    only_block(*old(mem), *final(mem), *self),
    forall|k: int| 0 <= k < 64 * blen(self.n()) ==> #[trigger] bat(final(mem)@, self.lo(), k) == (k < self.n() && (bat(old(mem)@, self.lo(), k) && !bat(old(mem)@, other.lo(), k))),
    self.set_in(*final(mem)) =~= self.set_in(*old(mem)).difference(other.set_in(*old(mem))),
    self.clean(*final(mem)),
@loop 1
@invariant
    self.wfp(*old(mem)), other.wfp(*old(mem)), other.valid_len == self.valid_len,
    self.lo() == other.lo() || self.hi() <= other.lo() || other.hi() <= self.lo(),
    only_block(*old(mem), *mem, *self), dlen == blen(self.n()), i <= dlen,
    forall|w: int| self.lo() <= w < self.hi() ==> #[trigger] mem@[w] ==
        (if w < self.lo() + i { old(mem)@[w] & !old(mem)@[other.lo() + (w - self.lo())] } else { old(mem)@[w] }),
@loop_decreases
    dlen - i
@at begin
    broadcast use bit_lemmas;
    proof { lemma_shift6(self.valid_len); }
    let ghost mut m1 = mem@;
@at loop 1 after
    proof {
        m1 = mem@;
        assert forall|k: int| 0 <= k < 64 * blen(self.n()) implies #[trigger] bat(m1, self.lo(), k) == ((bat(old(mem)@, self.lo(), k) && !bat(old(mem)@, other.lo(), k))) by {
            assert(self.lo() <= self.lo() + k / 64 < self.hi());
        }
    }
@at end
    assert forall|k: int| 0 <= k < 64 * blen(self.n()) implies #[trigger] bat(mem@, self.lo(), k) == (k < self.n() && (bat(old(mem)@, self.lo(), k) && !bat(old(mem)@, other.lo(), k))) by {
        assert(bat(m1, self.lo(), k) == ((bat(old(mem)@, self.lo(), k) && !bat(old(mem)@, other.lo(), k))));
        assert(self.lo() <= self.lo() + k / 64 < self.hi());
    }

@fn graphBits::get_subset_v(elements)
@locals Vec<u64> ans, u64 i, u64 ct
@requires
    self.wfp(*old(mem)), self.valid_len <= elements@.len(),
@ensures
    // the selected elements, each once, in the order of the list
    r@ == pick(old(mem)@, self.lo(), elements@, 0, self.n()),
    r@.len() == self.set_in(*old(mem)).len(),
    only_block(*old(mem), *final(mem), *self),
    bits_same(old(mem)@, final(mem)@, self.lo(), self.n()),
    self.clean(*final(mem)), self.clean(*old(mem)) ==> final(mem)@ =~= old(mem)@,
@loop 1
@invariant
    self.wfp(*old(mem)), self.wfp(*mem), self.valid_len <= elements@.len(),
    only_block(*old(mem), *mem, *self), bits_same(old(mem)@, mem@, self.lo(), self.n()),
    self.clean(*mem), self.clean(*old(mem)) ==> mem@ =~= old(mem)@,
    i <= self.valid_len, ct == cardn(mem@, self.lo(), i as int), ans@.len() == cardn(mem@, self.lo(), self.n()),
    ans@.take(ct as int) == pick(mem@, self.lo(), elements@, 0, i as int),
@loop_decreases
    self.valid_len - i
@at loop 1 before
    proof { lemma_set_count(*self, *mem); lemma_set_count(*self, *old(mem)); assert(ans@.take(0) =~= Seq::<u64>::empty()); }
@at loop 1 begin
    proof { lemma_cardn_mono(mem@, self.lo(), i + 1, self.n()); lemma_cardn_bound(mem@, self.lo(), self.n()); }
    let ghost a0 = ans@;
@at loop 1 body_end
    proof {
        lemma_pick_len(mem@, self.lo(), elements@, 0, i as int);
        if bat(mem@, self.lo(), i as int) {
            assert(ans@.take(ct as int) =~= a0.take(ct - 1).push(elements@[0 + i]));
        }
    }
@at loop 1 after
    proof {
        lemma_pick_frame(mem@, old(mem)@, self.lo(), elements@, 0, self.n());
        assert(ans@.take(ans@.len() as int) =~= ans@);
    }

@fn graphBits::get_subset_cp_u(elements, len)
@locals Vec<u64> ans, u64 i, u64 ct
@requires
    self.wfp(*old(mem)), elements_off + self.valid_len <= elements@.len() < 0x1_0000_0000_0000,
@ensures
    // the selected elements, each once, in the order of the list
    r@ == pick(old(mem)@, self.lo(), elements@, elements_off as int, self.n()),
    r@.len() == self.set_in(*old(mem)).len(),
    only_block(*old(mem), *final(mem), *self),
    bits_same(old(mem)@, final(mem)@, self.lo(), self.n()),
    self.clean(*final(mem)), self.clean(*old(mem)) ==> final(mem)@ =~= old(mem)@,
@loop 1
@invariant
    self.wfp(*old(mem)), self.wfp(*mem), elements_off + self.valid_len <= elements@.len() < 0x1_0000_0000_0000,
    only_block(*old(mem), *mem, *self), bits_same(old(mem)@, mem@, self.lo(), self.n()),
    self.clean(*mem), self.clean(*old(mem)) ==> mem@ =~= old(mem)@,
    i <= self.valid_len, ct == cardn(mem@, self.lo(), i as int), ans@.len() == cardn(mem@, self.lo(), self.n()),
    ans@.take(ct as int) == pick(mem@, self.lo(), elements@, elements_off as int, i as int),
@loop_decreases
    self.valid_len - i
@at loop 1 before
    proof { lemma_set_count(*self, *mem); lemma_set_count(*self, *old(mem)); assert(ans@.take(0) =~= Seq::<u64>::empty()); }
@at loop 1 begin
    proof { lemma_cardn_mono(mem@, self.lo(), i + 1, self.n()); lemma_cardn_bound(mem@, self.lo(), self.n()); }
    let ghost a0 = ans@;
@at loop 1 body_end
    proof {
        lemma_pick_len(mem@, self.lo(), elements@, elements_off as int, i as int);
        if bat(mem@, self.lo(), i as int) {
            assert(ans@.take(ct as int) =~= a0.take(ct - 1).push(elements@[elements_off as int + i]));
        }
    }
@at loop 1 after
    proof {
        lemma_pick_frame(mem@, old(mem)@, self.lo(), elements@, elements_off as int, self.n());
        assert(ans@.take(ans@.len() as int) =~= ans@);
    }
