// A string that is only handed on: the name of a file.
#[derive(Clone, Copy)]
pub struct Str { pub id: u64 }
// what the file system holds
pub uninterp spec fn has_file(s: Str) -> bool;
pub uninterp spec fn text_of(s: Str) -> Seq<u8>;
// ---- formatted input and output of numbers, in the C locale
pub open spec fn is_space(c: u8) -> bool { c == 32 || 9 <= c <= 13 }
pub open spec fn is_digit(c: u8) -> bool { 48 <= c <= 57 }
pub open spec fn after_space(s: Seq<u8>) -> Seq<u8>
    decreases s.len(),
{ if s.len() > 0 && is_space(s[0]) { after_space(s.skip(1)) } else { s } }
// the value of the digits s starts with, appended to v, and what follows them
pub open spec fn digits(s: Seq<u8>, v: int) -> (int, Seq<u8>)
    decreases s.len(),
{ if s.len() > 0 && is_digit(s[0]) { digits(s.skip(1), 10 * v + (s[0] - 48)) } else { (v, s) } }
pub open spec fn signed(s: Seq<u8>) -> bool { s.len() > 0 && (s[0] == 43 || s[0] == 45) }
// a number after white space, and what follows it; a minus sign negates modulo 2^64
pub open spec fn take_num(s: Seq<u8>) -> Option<(u64, Seq<u8>)> {
    let t = after_space(s);
    let u = if signed(t) { t.skip(1) } else { t };
    let (v, r) = digits(u, 0);
    if u.len() == 0 || !is_digit(u[0]) || v > u64::MAX { None }
    else if t[0] == 45 && v > 0 { Some(((0x1_0000_0000_0000_0000 - v) as u64, r)) }
    else { Some((v as u64, r)) }
}
// the text after the first d in s, or after n characters (n < 0: any number of them); and whether s ended before
pub open spec fn skip_past(s: Seq<u8>, n: int, d: int) -> (Seq<u8>, bool)
    decreases s.len(),
{
    if n == 0 { (s, false) } else if s.len() == 0 { (s, true) } else if s[0] == d { (s.skip(1), false) } else { skip_past(s.skip(1), n - 1, d) }
}
pub open spec fn dec(n: int) -> Seq<u8>
    decreases n,
{ if n < 10 { seq![(48 + n) as u8] } else { dec(n / 10).push((48 + n % 10) as u8) } }
// std::ifstream without read errors
pub struct IFile { pub rest: Ghost<Seq<u8>>, pub ended: Ghost<bool>, pub failed: Ghost<bool>, pub opened: Ghost<bool> }
impl IFile {
    pub open spec fn ok(self) -> bool { self.ended@ ==> self.rest@.len() == 0 }
    pub open spec fn good(self) -> bool { !self.ended@ && !self.failed@ }
    #[verifier::external_body]
    pub fn open(s: Str) -> (r: IFile)
        ensures r.ok(), r.opened@ == has_file(s), r.failed@ == !has_file(s), !r.ended@, has_file(s) ==> r.rest@ == text_of(s),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_open(&self) -> (r: bool) ensures r == self.opened@, { unimplemented!() }
    #[verifier::external_body]
    pub fn eof(&self) -> (r: bool) ensures r == self.ended@, { unimplemented!() }
    #[verifier::external_body]
    pub fn fail(&self) -> (r: bool) ensures r == self.failed@, { unimplemented!() }
    #[verifier::external_body]
    pub fn close(&mut self) ensures final(self).rest@ == old(self).rest@, { unimplemented!() }
    #[verifier::external_body]
    pub fn peek(&mut self) -> (r: i32)
        requires old(self).ok(),
        ensures final(self).ok(), final(self).opened@ == old(self).opened@, final(self).rest@ == old(self).rest@,
            old(self).good() && old(self).rest@.len() > 0 ==> *final(self) == *old(self) && r == old(self).rest@[0],
            old(self).good() && old(self).rest@.len() == 0 ==> final(self).ended@ && !final(self).failed@ && r == -1,
            !old(self).good() ==> final(self).failed@ && final(self).ended@ == old(self).ended@ && r == -1,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn ignore(&mut self, n: i64, d: i32)
        requires old(self).ok(), n >= 0,
        ensures final(self).ok(), final(self).opened@ == old(self).opened@,
            old(self).good() ==> !final(self).failed@ && (final(self).rest@, final(self).ended@) == skip_past(old(self).rest@, if n == i64::MAX { -1 } else { n as int }, d as int),
            !old(self).good() ==> final(self).failed@ && final(self).ended@ == old(self).ended@ && final(self).rest@ == old(self).rest@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_u64(&mut self, x: &mut u64)
        requires old(self).ok(),
        ensures final(self).ok(), final(self).opened@ == old(self).opened@,
            old(self).good() ==> match take_num(old(self).rest@) {
                Some((v, t)) => !final(self).failed@ && *final(x) == v && final(self).rest@ == t && final(self).ended@ == (t.len() == 0),
                None => final(self).failed@,
            },
            !old(self).good() ==> final(self).failed@ && final(self).ended@ == old(self).ended@ && final(self).rest@ == old(self).rest@ && *final(x) == *old(x),
    { unimplemented!() }
}
// std::ofstream without write errors: the text of the file once it is closed
pub struct OFile { pub out: Ghost<Seq<u8>>, pub opened: Ghost<bool>, pub name: Ghost<Str> }
pub uninterp spec fn may_write(s: Str) -> bool;
impl OFile {
    #[verifier::external_body]
    pub fn open(s: Str) -> (r: OFile)
        ensures r.out@ == Seq::<u8>::empty(), r.opened@ == may_write(s), r.name@ == s,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn none() -> (r: OFile)
        ensures r.out@ == Seq::<u8>::empty(), !r.opened@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_open(&self) -> (r: bool) ensures r == self.opened@, { unimplemented!() }
    #[verifier::external_body]
    pub fn close(&mut self) ensures *final(self) == *old(self), { unimplemented!() }
    #[verifier::external_body]
    pub fn write_lit(&mut self, t: Ghost<Seq<u8>>)
        ensures *final(self) == (OFile { out: Ghost(old(self).out@ + t@), ..*old(self) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_u64(&mut self, x: u64)
        ensures *final(self) == (OFile { out: Ghost(old(self).out@ + dec(x as int)), ..*old(self) }),
    { unimplemented!() }
}
