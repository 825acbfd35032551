// A second name of an object: what it shows is the object as it is now.  Functions that go on to use both names are not translated.
#[verifier::external_body]
pub fn alias<T>(x: &T) -> (r: T) ensures r == *x, { unimplemented!() }
