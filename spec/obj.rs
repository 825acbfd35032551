// A Python object or array that is only handed on.
#[derive(Clone, Copy)]
pub struct PyObj { pub id: u64 }
