//! Driving the crate under test and comparing what it did.
use crate::engine::*;
use crate::io::*;
use crate::model::*;
use crate::schema::*;
use crate::{ensure, fail};
use parquet_format_safe::thrift::protocol::*;
use parquet_format_safe::thrift::{ApplicationErrorKind, Error, ProtocolErrorKind, TransportErrorKind};

/// An error reduced to what callers can act on: its class and its kind.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Sig {
    T(TransportErrorKind),
    P(ProtocolErrorKind),
    A(ApplicationErrorKind),
}
pub const EOF: Sig = Sig::T(TransportErrorKind::EndOfFile);
pub const SIZE: Sig = Sig::P(ProtocolErrorKind::SizeLimit);
pub const DEPTH: Sig = Sig::P(ProtocolErrorKind::DepthLimit);
pub const INVALID: Sig = Sig::P(ProtocolErrorKind::InvalidData);

pub fn sig(e: &Error) -> Sig {
    match e {
        Error::Transport(x) => Sig::T(x.kind),
        Error::Protocol(x) => Sig::P(x.kind),
        Error::Application(x) => Sig::A(x.kind),
    }
}

/// How a transport error kind reaches the caller.
pub fn expect_io(k: std::io::ErrorKind) -> Sig {
    use std::io::ErrorKind as K;
    Sig::T(match k {
        K::ConnectionReset | K::ConnectionRefused | K::NotConnected => TransportErrorKind::NotOpen,
        K::AlreadyExists => TransportErrorKind::AlreadyOpen,
        K::TimedOut => TransportErrorKind::TimedOut,
        K::UnexpectedEof => TransportErrorKind::EndOfFile,
        _ => TransportErrorKind::Unknown,
    })
}

pub type Out = Result<BV, Sig>;

pub fn show(o: &Out) -> String {
    match o {
        Ok(v) => cut(&v.dbg(), 300),
        Err(e) => format!("{e:?}"),
    }
}
pub fn cut(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        format!("{}..", s.chars().take(n).collect::<String>())
    }
}
pub fn hx(b: &[u8]) -> String {
    cut(&hex(b), 400)
}

/// Read one value; `asyn` selects the API. Returns the outcome and the bytes taken from the source.
pub fn read_from(root: &Root, rd: &mut Reader<'_>, budget: usize, asyn: bool) -> Out {
    if asyn {
        let mut p: AsyncIn = TCompactInputStreamProtocol::new(rd as &mut dyn AR, budget);
        block_on((root.read_async)(&mut p)).map_err(|e| sig(&e))
    } else {
        let mut p: SyncIn = TCompactInputProtocol::new(rd as &mut dyn RS, budget);
        (root.read)(&mut p).map_err(|e| sig(&e))
    }
}
pub fn read(root: &Root, b: &[u8], budget: usize, asyn: bool) -> (Out, usize) {
    let mut rd = Reader::new(b);
    let o = read_from(root, &mut rd, budget, asyn);
    (o, rd.pos)
}
pub fn read_boxed(root: &Root, b: &[u8], budget: usize) -> (Out, usize) {
    let mut rd = Reader::new(b);
    let o = {
        let mut p = Box::new(TCompactInputProtocol::new(&mut rd as &mut dyn RS, budget));
        (root.read_boxed)(&mut p).map_err(|e| sig(&e))
    };
    (o, rd.pos)
}

pub fn write_to(v: &dyn Val, w: &mut Writer, asyn: bool) -> Result<usize, Sig> {
    if asyn {
        let mut p: AsyncOut = TCompactOutputStreamProtocol::new(w as &mut dyn AW);
        block_on(v.write_async(&mut p)).map_err(|e| sig(&e))
    } else {
        let mut p: SyncOut = TCompactOutputProtocol::new(w as &mut dyn std::io::Write);
        v.write(&mut p).map_err(|e| sig(&e))
    }
}
/// Write to an in-memory sink; an error there is a violation of whatever is being checked.
pub fn write(v: &dyn Val, asyn: bool) -> R<(Vec<u8>, usize)> {
    let mut w = Writer::new();
    match write_to(v, &mut w, asyn) {
        Ok(n) => Ok((w.out, n)),
        Err(e) => fail!("writing to memory failed with {e:?}: {}", cut(&v.dbg(), 300)),
    }
}
pub fn write_dyn(v: &dyn Val) -> R<(Vec<u8>, usize)> {
    let mut w = Writer::new();
    let r = {
        let inner: SyncOut = TCompactOutputProtocol::new(&mut w as &mut dyn std::io::Write);
        let mut p: DynOut = Box::new(inner);
        v.write_dyn(&mut p)
    };
    match r {
        Ok(n) => Ok((w.out, n)),
        Err(e) => fail!("writing through a boxed protocol failed with {:?}", sig(&e)),
    }
}

pub fn same_outcome(what: &str, a: &Out, ap: usize, b: &Out, bp: usize, input: &[u8]) -> R {
    let same = match (a, b) {
        (Ok(x), Ok(y)) => x.tv() == y.tv() && ap == bp,
        (Err(x), Err(y)) => x == y || crate::alloc::refused(),
        _ => false,
    };
    ensure!(same, "{what}: {} after {ap} bytes, against {} after {bp} bytes; input {}", show(a), show(b), hx(input));
    Ok(())
}

/// The same answer, with the same bytes taken where it is a value.
pub fn agree<T: PartialEq>(a: &Result<T, Sig>, ap: usize, b: &Result<T, Sig>, bp: usize) -> bool {
    match (a, b) {
        (Ok(x), Ok(y)) => x == y && ap == bp,
        (Err(x), Err(y)) => x == y || crate::alloc::refused(),
        _ => false,
    }
}

/// The model value of `o` must be `want` and exactly `n` bytes must have been taken.
pub fn expect_ok(what: &str, o: &Out, pos: usize, want: &TV, n: usize, input: &[u8]) -> R<()> {
    match o {
        Ok(v) => {
            let got = v.tv();
            ensure!(got == *want, "{what}: decoded {got:?}, expected {want:?}; input {}", hx(input));
            ensure!(pos == n, "{what}: took {pos} of {n} bytes; input {}", hx(input));
            Ok(())
        }
        Err(e) => fail!("{what}: rejected with {e:?}, expected {want:?}; input {}", hx(input)),
    }
}

pub fn tt_to_ttype(t: TT) -> TType {
    match t {
        TT::Bool => TType::Bool,
        TT::I8 => TType::I08,
        TT::I16 => TType::I16,
        TT::I32 => TType::I32,
        TT::I64 => TType::I64,
        TT::Double => TType::Double,
        TT::Bin => TType::String,
        TT::List => TType::List,
        TT::Set => TType::Set,
        TT::Map => TType::Map,
        TT::Struct => TType::Struct,
    }
}
pub fn ttype_to_tt(t: TType) -> Option<TT> {
    ALL_TT.iter().copied().find(|x| tt_to_ttype(*x) == t)
}
