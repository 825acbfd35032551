// Memory model and standard-library contracts.
// A Mem is the block behind a std::vector<u64> that raw pointers point into;
// its generation changes whenever the block may be reallocated or swapped, so
// a pointer kept across such a call can no longer be dereferenced.
pub struct Mem { pub v: Vec<u64>, pub gen: Ghost<int> }

#[derive(Clone, Copy)]
pub struct Ptr { pub off: u64, pub gen: Ghost<int> }

pub struct Pair<A, B> { pub first: A, pub second: B }

pub struct CmError;

// a steady clock since it was started: last is the latest reading
#[derive(Clone, Copy)]
pub struct Clock { pub last: Ghost<real> }
pub fn clock_now() -> (r: Clock)
    ensures r.last@ == 0real,
{ Clock { last: Ghost(0real) } }

impl Ptr {
    pub fn add(self, i: u64) -> (r: Ptr)
        requires self.off + i <= u64::MAX,
        ensures r.off == self.off + i, r.gen == self.gen,
    { Ptr { off: self.off + i, gen: self.gen } }
}

pub open spec fn same_outside(a: Seq<u64>, b: Seq<u64>, lo: int, hi: int) -> bool {
    a.len() == b.len() && forall|k: int| 0 <= k < a.len() && !(lo <= k < hi) ==> #[trigger] b[k] == a[k]
}

impl Mem {
    pub open spec fn view(&self) -> Seq<u64> { self.v@ }

    pub fn empty() -> (r: Mem)
        ensures r@.len() == 0,
    { Mem { v: Vec::new(), gen: Ghost(arbitrary()) } }

    pub fn load(&self, p: Ptr, i: u64) -> (r: u64)
        requires p.gen@ == self.gen@, p.off + i < self@.len(),
        ensures r == self@[p.off + i],
    { let n = self.v.len(); self.v[(p.off + i) as usize] }

    pub fn store(&mut self, p: Ptr, i: u64, x: u64)
        requires p.gen@ == old(self).gen@, p.off + i < old(self)@.len(),
        ensures final(self).gen == old(self).gen, final(self)@ == old(self)@.update(p.off + i, x),
    { let n = self.v.len(); self.v[(p.off + i) as usize] = x; }

    pub fn get(&self, i: u64) -> (r: u64)
        requires i < self@.len(),
        ensures r == self@[i as int],
    { self.v[i as usize] }

    pub fn set(&mut self, i: u64, x: u64)
        requires i < old(self)@.len(),
        ensures final(self).gen == old(self).gen, final(self)@ == old(self)@.update(i as int, x),
    { self.v[i as usize] = x; }

    pub fn len(&self) -> (r: usize)
        ensures r == self@.len(),
    { self.v.len() }

    pub fn data(&self) -> (r: Ptr)
        ensures r.off == 0, r.gen == self.gen,
    { Ptr { off: 0, gen: self.gen } }

    // &(v[i]): the standard allows only valid elements here
    pub fn addr_of(&self, i: u64) -> (r: Ptr)
        requires i < self@.len(),
        ensures r.off == i, r.gen == self.gen,
    { Ptr { off: i, gen: self.gen } }

    pub fn resize(&mut self, n: u64)
        ensures final(self)@.len() == n, n < 0x1000_0000_0000,
            forall|k: int| 0 <= k < n ==> #[trigger] final(self)@[k] == (if k < old(self)@.len() { old(self)@[k] } else { 0u64 }),
    {
        if n >= 0x1000_0000_0000 { bad_alloc(); }
        vec_resize_u64(&mut self.v, n);
        self.gen = Ghost(arbitrary());
    }

    // swap with a vector outside any region
    pub fn swap(&mut self, o: &mut Vec<u64>)
        ensures final(self)@ == old(o)@, final(o)@ == old(self)@,
    {
        std::mem::swap(&mut self.v, o);
        self.gen = Ghost(arbitrary());
    }

    // std::copy(first, last, dest) on one region; dest may coincide with or precede the source
    pub fn copy(&mut self, first: Ptr, last: Ptr, dest: Ptr)
        requires first.gen@ == old(self).gen@, last.gen@ == old(self).gen@, dest.gen@ == old(self).gen@,
            first.off <= last.off <= old(self)@.len(), dest.off + (last.off - first.off) <= old(self)@.len(),
            dest.off <= first.off || last.off <= dest.off,
        ensures final(self).gen == old(self).gen,
            same_outside(old(self)@, final(self)@, dest.off as int, dest.off + (last.off - first.off)),
            forall|k: int| dest.off <= k < dest.off + (last.off - first.off) ==>
                #[trigger] final(self)@[k] == old(self)@[first.off + (k - dest.off)],
    {
        let n = last.off - first.off;
        let mut i: u64 = 0;
        let len = self.v.len();
        while i < n
            invariant
                n == last.off - first.off, i <= n, first.off <= last.off, len == self@.len(), self@.len() == old(self)@.len(),
                last.off <= len, dest.off + n <= len,
                dest.off <= first.off || last.off <= dest.off,
                self.gen == old(self).gen,
                same_outside(old(self)@, self@, dest.off as int, dest.off + i),
                forall|k: int| dest.off <= k < dest.off + i ==> #[trigger] self@[k] == old(self)@[first.off + (k - dest.off)],
            decreases n - i,
        {
            let x = self.v[(first.off + i) as usize];
            assert(x == old(self)@[first.off + i]);
            self.v[(dest.off + i) as usize] = x;
            i = i + 1;
        }
    }

    // std::copy from another region
    pub fn copy_from(&mut self, src: &Mem, first: Ptr, last: Ptr, dest: Ptr)
        requires first.gen@ == src.gen@, last.gen@ == src.gen@, dest.gen@ == old(self).gen@,
            first.off <= last.off <= src@.len(), dest.off + (last.off - first.off) <= old(self)@.len(),
        ensures final(self).gen == old(self).gen,
            same_outside(old(self)@, final(self)@, dest.off as int, dest.off + (last.off - first.off)),
            forall|k: int| dest.off <= k < dest.off + (last.off - first.off) ==>
                #[trigger] final(self)@[k] == src@[first.off + (k - dest.off)],
    {
        let n = last.off - first.off;
        let mut i: u64 = 0;
        let len = self.v.len();
        let slen = src.v.len();
        while i < n
            invariant
                n == last.off - first.off, i <= n, first.off <= last.off, len == self@.len(), slen == src@.len(), self@.len() == old(self)@.len(),
                last.off <= slen, dest.off + n <= len,
                self.gen == old(self).gen,
                same_outside(old(self)@, self@, dest.off as int, dest.off + i),
                forall|k: int| dest.off <= k < dest.off + i ==> #[trigger] self@[k] == src@[first.off + (k - dest.off)],
            decreases n - i,
        {
            let x = src.v[(first.off + i) as usize];
            assert(x == src@[first.off + i]);
            self.v[(dest.off + i) as usize] = x;
            i = i + 1;
        }
    }

    pub fn fill(&mut self, first: Ptr, last: Ptr, x: u64)
        requires first.gen@ == old(self).gen@, last.gen@ == old(self).gen@,
            first.off <= last.off <= old(self)@.len(),
        ensures final(self).gen == old(self).gen,
            same_outside(old(self)@, final(self)@, first.off as int, last.off as int),
            forall|k: int| first.off <= k < last.off ==> #[trigger] final(self)@[k] == x,
    {
        let len = self.v.len();
        let mut i: u64 = first.off;
        while i < last.off
            invariant
                first.off <= i <= last.off, last.off <= len, len == self@.len(), self@.len() == old(self)@.len(),
                self.gen == old(self).gen,
                same_outside(old(self)@, self@, first.off as int, i as int),
                forall|k: int| first.off <= k < i ==> #[trigger] self@[k] == x,
            decreases last.off - i,
        {
            self.v[i as usize] = x;
            i = i + 1;
        }
    }
}

// a vector of 2^44 words does not fit the address space: std::bad_alloc or length_error, no normal return
#[verifier::external_body]
pub fn bad_alloc()
    ensures false,
{ panic!() }

// &(v[i]) of an ordinary vector
pub fn addr_of<T>(v: &Vec<T>, i: u64) -> (r: u64)
    requires i < v@.len(),
    ensures r == i,
{ i }

pub fn vec_back_index<T>(v: &Vec<T>) -> (r: u64)
    requires v@.len() > 0,
    ensures r == v@.len() - 1,
{ (v.len() - 1) as u64 }

pub fn vec_push<T>(v: &mut Vec<T>, x: T)
    ensures final(v)@ == old(v)@.push(x), final(v)@.len() < 0x1000_0000_0000,
{ if v.len() >= 0xFFF_FFFF_FFFF { bad_alloc(); } v.push(x); }

// std::make_shared: a shared_ptr is a vector of at most one element, its pointee
pub fn vec_one<T>(x: T) -> (r: Vec<T>)
    ensures r@.len() == 1, r@[0] == x,
{ let mut v = Vec::new(); v.push(x); v }

pub fn vec_pop_back<T>(v: &mut Vec<T>)
    requires old(v)@.len() > 0,
    ensures final(v)@ == old(v)@.drop_last(),
{ let _ = v.pop(); }

pub fn vec_resize_u64(v: &mut Vec<u64>, n: u64)
    ensures final(v)@.len() == n, n < 0x1000_0000_0000,
        forall|k: int| 0 <= k < n ==> #[trigger] final(v)@[k] == (if k < old(v)@.len() { old(v)@[k] } else { 0u64 }),
{
    if n >= 0x1000_0000_0000 { bad_alloc(); }
    while v.len() > n as usize
        invariant n <= usize::MAX, v@.len() <= old(v)@.len(),
            v@.len() >= n || v@.len() == old(v)@.len(),
            forall|k: int| 0 <= k < v@.len() ==> #[trigger] v@[k] == old(v)@[k],
        decreases v@.len(),
    { let _ = v.pop(); }
    while v.len() < n as usize
        invariant v@.len() <= n || v@.len() == old(v)@.len(), v@.len() <= n,
            v@.len() >= old(v)@.len() || v@.len() == n,
            forall|k: int| 0 <= k < v@.len() ==> #[trigger] v@[k] == (if k < old(v)@.len() { old(v)@[k] } else { 0u64 }),
        decreases n - v@.len(),
    { v.push(0u64); }
}

pub fn vec_new_sized(n: u64) -> (r: Vec<u64>)
    ensures r@.len() == n, forall|k: int| 0 <= k < n ==> #[trigger] r@[k] == 0u64,
{ let mut v: Vec<u64> = Vec::new(); vec_resize_u64(&mut v, n); v }

pub fn vec_new_sets(n: u64) -> (r: Vec<StdSet>)
    ensures r@.len() == n, n < 0x1000_0000_0000, forall|k: int| 0 <= k < n ==> #[trigger] r@[k]@ == Set::<u64>::empty(),
{
    if n >= 0x1000_0000_0000 { bad_alloc(); }
    let mut v: Vec<StdSet> = Vec::new();
    while v.len() < n as usize
        invariant n <= usize::MAX, v@.len() <= n, forall|k: int| 0 <= k < v@.len() ==> #[trigger] v@[k]@ == Set::<u64>::empty(),
        decreases n - v@.len(),
    { v.push(StdSet::new()); }
    v
}

pub fn vec_swap(v: &mut Vec<u64>, i: u64, j: u64)
    requires i < old(v)@.len(), j < old(v)@.len(),
    ensures final(v)@ == old(v)@.update(i as int, old(v)@[j as int]).update(j as int, old(v)@[i as int]),
{ let a = v[i as usize]; let b = v[j as usize]; v[i as usize] = b; v[j as usize] = a; }

pub fn u64_min(a: u64, b: u64) -> (r: u64) ensures r == if a < b { a } else { b } { if b < a { b } else { a } }
pub fn u64_max(a: u64, b: u64) -> (r: u64) ensures r == if a < b { b } else { a } { if a < b { b } else { a } }

// uninitialised or otherwise unspecified values
#[verifier::external_body] pub fn arb_u64() -> u64 { unimplemented!() }
#[verifier::external_body] pub fn arb_u32() -> u32 { unimplemented!() }
#[verifier::external_body] pub fn arb_i32() -> i32 { unimplemented!() }
#[verifier::external_body] pub fn arb_i64() -> i64 { unimplemented!() }
#[verifier::external_body] pub fn arb_i16() -> i16 { unimplemented!() }
#[verifier::external_body] pub fn arb_i8() -> i8 { unimplemented!() }
#[verifier::external_body] pub fn arb_bool() -> bool { unimplemented!() }
#[verifier::external_body] pub fn arb_ptr() -> Ptr { unimplemented!() }

// bits of a word, most significant first
pub open spec fn bit(w: u64, k: int) -> bool { bitu(w, k as u64) }
#[verifier::opaque]
pub open spec fn bitu(w: u64, k: u64) -> bool { (w & (0x8000000000000000u64 >> k)) != 0 }

// compiler builtin: number of leading zeros of a non-zero word
proof fn lemma_clz_step(x: u64, k: u64)
    by(bit_vector)
    requires k < 64, x & (0x8000000000000000u64 >> k) == 0, k == 0 || x >> ((64 - k) as u64) == 0,
    ensures x >> ((63 - k) as u64) == 0, k == 63 ==> x == 0,
{}
pub fn clzll(x: u64) -> (r: u32)
    requires x != 0,
    ensures r < 64, bit(x, r as int), forall|k: int| 0 <= k < r ==> !#[trigger] bit(x, k),
{
    let mut k: u64 = 0;
    proof { reveal(bitu); }
    while x & (0x8000000000000000u64 >> k) == 0
        invariant x != 0, k < 64, k == 0 || x >> ((64 - k) as u64) == 0, forall|j: int| 0 <= j < k ==> !#[trigger] bit(x, j),
        decreases 64 - k,
    {
        proof { lemma_clz_step(x, k); reveal(bitu); }
        k = k + 1;
    }
    proof { reveal(bitu); }
    k as u32
}

// [lo, hi) holds the same elements in another order; p and q are the way there and back
pub open spec fn shuffled_by<T>(a: Seq<T>, b: Seq<T>, lo: int, hi: int, p: Seq<int>, q: Seq<int>) -> bool {
    &&& a.len() == b.len() && p.len() == a.len() && q.len() == a.len()
    &&& forall|k: int| 0 <= k < a.len() && !(lo <= k < hi) ==> #[trigger] b[k] == a[k]
    &&& forall|k: int| lo <= k < hi ==> lo <= #[trigger] p[k] < hi && q[p[k]] == k && b[k] == a[p[k]]
    &&& forall|k: int| lo <= k < hi ==> lo <= #[trigger] q[k] < hi && p[q[k]] == k
}
pub open spec fn shuffled<T>(a: Seq<T>, b: Seq<T>, lo: int, hi: int) -> bool {
    exists|p: Seq<int>, q: Seq<int>| #[trigger] shuffled_by(a, b, lo, hi, p, q)
}
// std::sort with any strict weak order
#[verifier::external_body]
pub fn vec_sort_range<T>(v: &mut Vec<T>, lo: u64, hi: u64)
    requires lo <= hi <= old(v)@.len(),
    ensures shuffled(old(v)@, final(v)@, lo as int, hi as int),
{ unimplemented!() }

// std::set<u64>
#[verifier::external_body]
pub struct StdSet { s: std::collections::BTreeSet<u64> }
pub open spec fn lists(l: Seq<u64>, s: Set<u64>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < l.len() ==> #[trigger] l[i] < #[trigger] l[j]
    &&& forall|i: int| 0 <= i < l.len() ==> s.contains(#[trigger] l[i])
    &&& forall|x: u64| #[trigger] s.contains(x) ==> exists|i: int| 0 <= i < l.len() && l[i] == x
    &&& l.len() == s.len()
}
pub open spec fn ranges(v: Seq<u64>, lo: int, hi: int, x: u64) -> bool { exists|k: int| lo <= k < hi && #[trigger] v[k] == x }
impl StdSet {
    pub uninterp spec fn view(&self) -> Set<u64>;
    #[verifier::external_body]
    pub fn new() -> (r: StdSet) ensures r@ == Set::<u64>::empty(), { unimplemented!() }
    #[verifier::external_body]
    pub fn of_range(v: &Vec<u64>, lo: u64, hi: u64) -> (r: StdSet)
        requires lo <= hi <= v@.len(),
        ensures forall|x: u64| #[trigger] r@.contains(x) == ranges(v@, lo as int, hi as int, x),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, x: u64) ensures final(self)@ == old(self)@.insert(x), { unimplemented!() }
    #[verifier::external_body]
    pub fn erase(&mut self, x: u64)
        requires old(self)@.contains(x),        // erase(find(x)): end() must not be erased
        ensures final(self)@ == old(self)@.remove(x),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn has(&self, x: u64) -> (r: bool) ensures r == self@.contains(x), { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0), { unimplemented!() }
    #[verifier::external_body]
    pub fn size(&self) -> (r: u64) ensures r == self@.len(), { unimplemented!() }
    // the elements in the order of iteration
    #[verifier::external_body]
    pub fn list(&self) -> (r: Vec<u64>) ensures lists(r@, self@), r@.len() < 0x1000_0000_0000, { unimplemented!() }
}
// pybind11::array_t with one or two dimensions; a view shares the elements of its array
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct NdArray<T> { d: Vec<T> }
impl<T: Copy> NdArray<T> {
    pub uninterp spec fn dims(&self) -> int;
    pub uninterp spec fn n0(&self) -> int;
    pub uninterp spec fn n1(&self) -> int;
    pub uninterp spec fn el(&self, i: int, j: int) -> T;
    #[verifier::external_body]
    pub fn is_2d(&self) -> (r: bool)
        ensures r == (self.dims() == 2), 0 <= self.n0() <= i64::MAX, 0 <= self.n1() <= i64::MAX,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_1d(&self) -> (r: bool)
        ensures r == (self.dims() == 1), 0 <= self.n0() <= i64::MAX,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn at1(&self, i: i64) -> (r: T)
        requires self.dims() == 1, 0 <= i < self.n0(),
        ensures r == self.el(i as int, 0),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn shape(&self, k: i64) -> (r: i64)
        requires self.dims() <= 2, 0 <= k < self.dims(),
        ensures r == (if k == 0 { self.n0() } else { self.n1() }), r >= 0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn at(&self, i: i64, j: i64) -> (r: T)
        requires self.dims() == 2, 0 <= i < self.n0(), 0 <= j < self.n1(),
        ensures r == self.el(i as int, j as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn put(&mut self, i: i64, j: i64, x: T)
        requires old(self).dims() == 2, 0 <= i < old(self).n0(), 0 <= j < old(self).n1(),
        ensures final(self).dims() == 2, final(self).n0() == old(self).n0(), final(self).n1() == old(self).n1(),
            forall|a: int, b: int| #[trigger] final(self).el(a, b) == (if a == i && b == j { x } else { old(self).el(a, b) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn new1(n: u64) -> (r: NdArray<T>)
        ensures r.dims() == 1, r.n0() == n, n <= i64::MAX,
    { unimplemented!() }
    // the elements do not change, but they are not needed here
    #[verifier::external_body]
    pub fn reshape2(&mut self, a: u64, b: u64)
        requires old(self).dims() == 1, a * b == old(self).n0(),
        ensures final(self).dims() == 2, final(self).n0() == a, final(self).n1() == b, a <= i64::MAX, b <= i64::MAX,
    { unimplemented!() }
}
