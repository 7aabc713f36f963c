//! An input protocol that delegates every primitive to the real one and counts the calls, so
//! that "work is linear in the input" is checked without a clock.
use parquet_format_safe::thrift::protocol::*;
use parquet_format_safe::thrift::Result;

pub struct Counting<P> {
    pub inner: P,
    pub calls: usize,
    pub limit: usize,
}

impl<P> Counting<P> {
    fn tick(&mut self) {
        self.calls += 1;
        if self.calls > self.limit {
            panic!("does not terminate in linear work: more than {} protocol calls", self.limit);
        }
    }
}

macro_rules! fwd {
    ($($f:ident : $t:ty),* $(,)?) => { $(fn $f(&mut self) -> Result<$t> { self.tick(); self.inner.$f() })* };
}

impl<P: TInputProtocol> TInputProtocol for Counting<P> {
    fwd! {
        read_message_begin: TMessageIdentifier,
        read_message_end: (),
        read_struct_begin: Option<TStructIdentifier>,
        read_struct_end: (),
        read_field_begin: TFieldIdentifier,
        read_field_end: (),
        read_bool: bool,
        read_bytes: Vec<u8>,
        read_i8: i8,
        read_i16: i16,
        read_i32: i32,
        read_i64: i64,
        read_double: f64,
        read_string: String,
        read_list_begin: TListIdentifier,
        read_list_end: (),
        read_set_begin: TSetIdentifier,
        read_set_end: (),
        read_map_begin: TMapIdentifier,
        read_map_end: (),
        read_byte: u8,
    }
}
