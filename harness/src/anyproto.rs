//! Protocols of our own, to see what the crate asks of *any* protocol implementation: a recorder
//! that logs every call made on an output protocol, and a strict player that answers the calls
//! made on an input protocol from a script and objects to any other call.
use crate::engine::Source;
use crate::model::*;
use crate::schema::*;
use crate::util::*;
use async_trait::async_trait;
use parquet_format_safe::thrift::protocol::*;
use parquet_format_safe::thrift::{ApplicationError, ApplicationErrorKind, Error, ProtocolError, ProtocolErrorKind, Result as TR, TransportError, TransportErrorKind};
use std::collections::VecDeque;

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Message(TMessageIdentifier),
    MessageEnd,
    Struct(Option<String>),
    StructEnd,
    Field(Option<String>, TType, Option<i16>),
    FieldEnd,
    Stop,
    List(TType, u32),
    ListEnd,
    Set(TType, u32),
    SetEnd,
    Map(Option<TType>, Option<TType>, u32),
    MapEnd,
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    Double(u64),
    Bytes(Vec<u8>),
    Str(String),
    /// a string or binary that is only skipped: either call will do
    Text(Vec<u8>),
    Byte(u8),
    Flush,
}

/// What the `k`-th refused call answers; every one is different.
pub fn marker(k: usize) -> Error {
    let message = format!("refused call {k}");
    match k % 3 {
        0 => Error::Application(ApplicationError { kind: ApplicationErrorKind::MissingResult, message }),
        1 => Error::Protocol(ProtocolError { kind: ProtocolErrorKind::BadVersion, message }),
        _ => Error::Transport(TransportError { kind: TransportErrorKind::NegativeSize, message }),
    }
}
pub fn same_error(a: &Error, b: &Error) -> bool {
    sig(a) == sig(b) && format!("{a:?}") == format!("{b:?}")
}

/// A future that is pending once, when told so.
struct Yield(bool);
impl std::future::Future for Yield {
    type Output = ();
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<()> {
        if self.0 {
            self.0 = false;
            cx.waker().wake_by_ref();
            return std::task::Poll::Pending;
        }
        std::task::Poll::Ready(())
    }
}

/// The log of an output protocol.
#[derive(Default)]
pub struct Rec {
    pub evs: Vec<Ev>,
    /// sum of the counts handed out
    pub total: usize,
    /// calls made, the refused one included
    pub calls: usize,
    pub fail_at: Option<usize>,
    pub after_failure: usize,
    pub stall: bool,
    x: u64,
}

impl Rec {
    pub fn new(salt: u64, fail_at: Option<usize>, stall: bool) -> Rec {
        Rec { fail_at, stall, x: salt | 1, ..Default::default() }
    }
    fn rand(&mut self) -> u64 {
        self.x ^= self.x << 13;
        self.x ^= self.x >> 7;
        self.x ^= self.x << 17;
        self.x
    }
    fn put(&mut self, e: Ev) -> TR<usize> {
        let k = self.calls;
        self.calls += 1;
        match self.fail_at {
            Some(f) if k == f => return Err(marker(k)),
            Some(f) if k > f => {
                self.after_failure += 1;
                return Err(marker(k));
            }
            _ => {}
        }
        let n = (self.rand() % 11) as usize;
        self.evs.push(e);
        self.total += n;
        Ok(n)
    }
}

/// The protocol that writes into a [`Rec`].
pub struct RecP<'a>(pub &'a mut Rec);
/// the same, asynchronous
pub struct RecA<'a>(pub &'a mut Rec);

fn ev_msg(i: &TMessageIdentifier) -> Ev {
    Ev::Message(i.clone())
}
fn ev_struct(i: &TStructIdentifier) -> Ev {
    Ev::Struct(Some(i.name.clone()))
}
fn ev_field(i: &TFieldIdentifier) -> Ev {
    Ev::Field(i.name.clone(), i.field_type, i.id)
}
fn ev_list(i: &TListIdentifier) -> Ev {
    Ev::List(i.element_type, i.size)
}
fn ev_set(i: &TSetIdentifier) -> Ev {
    Ev::Set(i.element_type, i.size)
}
fn ev_map(i: &TMapIdentifier) -> Ev {
    Ev::Map(i.key_type, i.value_type, i.size)
}
fn unit<T>(r: TR<T>) -> TR<()> {
    r.map(|_| ())
}

impl TOutputProtocol for RecP<'_> {
    fn write_message_begin(&mut self, i: &TMessageIdentifier) -> TR<usize> {
        self.0.put(ev_msg(i))
    }
    fn write_message_end(&mut self) -> TR<usize> {
        self.0.put(Ev::MessageEnd)
    }
    fn write_struct_begin(&mut self, i: &TStructIdentifier) -> TR<usize> {
        self.0.put(ev_struct(i))
    }
    fn write_struct_end(&mut self) -> TR<usize> {
        self.0.put(Ev::StructEnd)
    }
    fn write_field_begin(&mut self, i: &TFieldIdentifier) -> TR<usize> {
        self.0.put(ev_field(i))
    }
    fn write_field_end(&mut self) -> TR<usize> {
        self.0.put(Ev::FieldEnd)
    }
    fn write_field_stop(&mut self) -> TR<usize> {
        self.0.put(Ev::Stop)
    }
    fn write_bool(&mut self, b: bool) -> TR<usize> {
        self.0.put(Ev::Bool(b))
    }
    fn write_bytes(&mut self, b: &[u8]) -> TR<usize> {
        self.0.put(Ev::Bytes(b.to_vec()))
    }
    fn write_i8(&mut self, i: i8) -> TR<usize> {
        self.0.put(Ev::I8(i))
    }
    fn write_i16(&mut self, i: i16) -> TR<usize> {
        self.0.put(Ev::I16(i))
    }
    fn write_i32(&mut self, i: i32) -> TR<usize> {
        self.0.put(Ev::I32(i))
    }
    fn write_i64(&mut self, i: i64) -> TR<usize> {
        self.0.put(Ev::I64(i))
    }
    fn write_double(&mut self, d: f64) -> TR<usize> {
        self.0.put(Ev::Double(d.to_bits()))
    }
    fn write_string(&mut self, s: &str) -> TR<usize> {
        self.0.put(Ev::Str(s.to_string()))
    }
    fn write_list_begin(&mut self, i: &TListIdentifier) -> TR<usize> {
        self.0.put(ev_list(i))
    }
    fn write_list_end(&mut self) -> TR<usize> {
        self.0.put(Ev::ListEnd)
    }
    fn write_set_begin(&mut self, i: &TSetIdentifier) -> TR<usize> {
        self.0.put(ev_set(i))
    }
    fn write_set_end(&mut self) -> TR<usize> {
        self.0.put(Ev::SetEnd)
    }
    fn write_map_begin(&mut self, i: &TMapIdentifier) -> TR<usize> {
        self.0.put(ev_map(i))
    }
    fn write_map_end(&mut self) -> TR<usize> {
        self.0.put(Ev::MapEnd)
    }
    fn flush(&mut self) -> TR<()> {
        unit(self.0.put(Ev::Flush))
    }
    fn write_byte(&mut self, b: u8) -> TR<usize> {
        self.0.put(Ev::Byte(b))
    }
}

impl RecA<'_> {
    async fn put(&mut self, e: Ev) -> TR<usize> {
        let pend = self.0.stall && self.0.rand() % 4 == 0;
        Yield(pend).await;
        self.0.put(e)
    }
}

#[async_trait]
impl TOutputStreamProtocol for RecA<'_> {
    async fn write_message_begin(&mut self, i: &TMessageIdentifier) -> TR<usize> {
        self.put(ev_msg(i)).await
    }
    async fn write_message_end(&mut self) -> TR<usize> {
        self.put(Ev::MessageEnd).await
    }
    async fn write_struct_begin(&mut self, i: &TStructIdentifier) -> TR<usize> {
        self.put(ev_struct(i)).await
    }
    fn write_struct_end(&mut self) -> TR<usize> {
        self.0.put(Ev::StructEnd)
    }
    async fn write_field_begin(&mut self, i: &TFieldIdentifier) -> TR<usize> {
        self.put(ev_field(i)).await
    }
    fn write_field_end(&mut self) -> TR<usize> {
        self.0.put(Ev::FieldEnd)
    }
    async fn write_field_stop(&mut self) -> TR<usize> {
        self.put(Ev::Stop).await
    }
    async fn write_bool(&mut self, b: bool) -> TR<usize> {
        self.put(Ev::Bool(b)).await
    }
    async fn write_bytes(&mut self, b: &[u8]) -> TR<usize> {
        self.put(Ev::Bytes(b.to_vec())).await
    }
    async fn write_i8(&mut self, i: i8) -> TR<usize> {
        self.put(Ev::I8(i)).await
    }
    async fn write_i16(&mut self, i: i16) -> TR<usize> {
        self.put(Ev::I16(i)).await
    }
    async fn write_i32(&mut self, i: i32) -> TR<usize> {
        self.put(Ev::I32(i)).await
    }
    async fn write_i64(&mut self, i: i64) -> TR<usize> {
        self.put(Ev::I64(i)).await
    }
    async fn write_double(&mut self, d: f64) -> TR<usize> {
        self.put(Ev::Double(d.to_bits())).await
    }
    async fn write_string(&mut self, s: &str) -> TR<usize> {
        self.put(Ev::Str(s.to_string())).await
    }
    async fn write_list_begin(&mut self, i: &TListIdentifier) -> TR<usize> {
        self.put(ev_list(i)).await
    }
    async fn write_list_end(&mut self) -> TR<usize> {
        self.put(Ev::ListEnd).await
    }
    async fn write_set_begin(&mut self, i: &TSetIdentifier) -> TR<usize> {
        self.put(ev_set(i)).await
    }
    async fn write_set_end(&mut self) -> TR<usize> {
        self.put(Ev::SetEnd).await
    }
    async fn write_map_begin(&mut self, i: &TMapIdentifier) -> TR<usize> {
        self.put(ev_map(i)).await
    }
    async fn write_map_end(&mut self) -> TR<usize> {
        self.put(Ev::MapEnd).await
    }
    async fn flush(&mut self) -> TR<()> {
        unit(self.put(Ev::Flush).await)
    }
    async fn write_byte(&mut self, b: u8) -> TR<usize> {
        self.put(Ev::Byte(b)).await
    }
}

/// The script of an input protocol.
pub struct Script {
    pub evs: VecDeque<Ev>,
    pub calls: usize,
    pub fail_at: Option<usize>,
    pub after_failure: usize,
    pub stall: bool,
    /// the first call that does not fit the script
    pub bad: Option<String>,
    x: u64,
}

impl Script {
    pub fn new(evs: &[Ev], salt: u64, fail_at: Option<usize>, stall: bool) -> Script {
        Script { evs: evs.iter().cloned().collect(), calls: 0, fail_at, after_failure: 0, stall, bad: None, x: salt | 1 }
    }
    fn rand(&mut self) -> u64 {
        self.x ^= self.x << 13;
        self.x ^= self.x >> 7;
        self.x ^= self.x << 17;
        self.x
    }
    fn object<T>(&mut self, msg: String) -> TR<T> {
        if self.bad.is_none() {
            self.bad = Some(msg);
        }
        Err(Error::Application(ApplicationError { kind: ApplicationErrorKind::InternalError, message: "off the script".to_string() }))
    }
    fn next<T>(&mut self, call: &str, f: impl FnOnce(&Ev) -> Option<T>) -> TR<T> {
        let k = self.calls;
        self.calls += 1;
        match self.fail_at {
            Some(x) if k == x => return Err(marker(k)),
            Some(x) if k > x => {
                self.after_failure += 1;
                return Err(marker(k));
            }
            _ => {}
        }
        if self.bad.is_some() {
            return self.object(String::new());
        }
        let Some(e) = self.evs.pop_front() else {
            return self.object(format!("{call} is called after the end of the value"));
        };
        match f(&e) {
            Some(x) => Ok(x),
            None => self.object(format!("{call} is called where the value goes on with {e:?}")),
        }
    }
    fn name(&mut self) -> Option<String> {
        // names are up to the protocol and carry no meaning for the reader
        match self.rand() % 3 {
            0 => None,
            1 => Some(String::new()),
            _ => Some("name".to_string()),
        }
    }
}

macro_rules! answer {
    ($s:expr, $call:literal, $($p:pat => $v:expr),+ $(,)?) => {
        $s.next($call, |e| match e { $($p => Some($v),)+ _ => None })
    };
}

impl Script {
    fn message_begin(&mut self) -> TR<TMessageIdentifier> {
        answer!(self, "read_message_begin", Ev::Message(i) => i.clone())
    }
    fn message_end(&mut self) -> TR<()> {
        answer!(self, "read_message_end", Ev::MessageEnd => ())
    }
    fn struct_begin(&mut self) -> TR<Option<TStructIdentifier>> {
        let n = self.name();
        answer!(self, "read_struct_begin", Ev::Struct(_) => n.map(TStructIdentifier::new))
    }
    fn struct_end(&mut self) -> TR<()> {
        answer!(self, "read_struct_end", Ev::StructEnd => ())
    }
    fn field_begin(&mut self) -> TR<TFieldIdentifier> {
        let (n, stop_id) = (self.name(), if self.rand() % 2 == 0 { Some(0) } else { None });
        answer!(self, "read_field_begin",
            Ev::Field(_, t, id) => TFieldIdentifier { name: n, field_type: *t, id: *id },
            Ev::Stop => TFieldIdentifier { name: None, field_type: TType::Stop, id: stop_id },
        )
    }
    fn field_end(&mut self) -> TR<()> {
        answer!(self, "read_field_end", Ev::FieldEnd => ())
    }
    fn bool(&mut self) -> TR<bool> {
        answer!(self, "read_bool", Ev::Bool(x) => *x)
    }
    fn bytes(&mut self) -> TR<Vec<u8>> {
        answer!(self, "read_bytes", Ev::Bytes(x) => x.clone(), Ev::Text(x) => x.clone())
    }
    fn i8(&mut self) -> TR<i8> {
        answer!(self, "read_i8", Ev::I8(x) => *x)
    }
    fn i16(&mut self) -> TR<i16> {
        answer!(self, "read_i16", Ev::I16(x) => *x)
    }
    fn i32(&mut self) -> TR<i32> {
        answer!(self, "read_i32", Ev::I32(x) => *x)
    }
    fn i64(&mut self) -> TR<i64> {
        answer!(self, "read_i64", Ev::I64(x) => *x)
    }
    fn double(&mut self) -> TR<f64> {
        answer!(self, "read_double", Ev::Double(x) => f64::from_bits(*x))
    }
    fn string(&mut self) -> TR<String> {
        answer!(self, "read_string", Ev::Str(x) => x.clone(), Ev::Text(x) => String::from_utf8_lossy(x).into_owned())
    }
    fn list_begin(&mut self) -> TR<TListIdentifier> {
        answer!(self, "read_list_begin", Ev::List(t, n) => TListIdentifier { element_type: *t, size: *n })
    }
    fn list_end(&mut self) -> TR<()> {
        answer!(self, "read_list_end", Ev::ListEnd => ())
    }
    fn set_begin(&mut self) -> TR<TSetIdentifier> {
        answer!(self, "read_set_begin", Ev::Set(t, n) => TSetIdentifier { element_type: *t, size: *n })
    }
    fn set_end(&mut self) -> TR<()> {
        answer!(self, "read_set_end", Ev::SetEnd => ())
    }
    fn map_begin(&mut self) -> TR<TMapIdentifier> {
        answer!(self, "read_map_begin", Ev::Map(k, v, n) => TMapIdentifier { key_type: *k, value_type: *v, size: *n })
    }
    fn map_end(&mut self) -> TR<()> {
        answer!(self, "read_map_end", Ev::MapEnd => ())
    }
    fn byte(&mut self) -> TR<u8> {
        answer!(self, "read_byte", Ev::Byte(x) => *x)
    }
}

pub struct PlayP<'a>(pub &'a mut Script);
pub struct PlayA<'a>(pub &'a mut Script);

macro_rules! players {
    ($($m:ident $i:ident $t:ty),* $(,)?) => {
        impl TInputProtocol for PlayP<'_> {
            $(fn $m(&mut self) -> TR<$t> { self.0.$i() })*
        }
        #[async_trait]
        impl TInputStreamProtocol for PlayA<'_> {
            $(async fn $m(&mut self) -> TR<$t> {
                let pend = self.0.stall && self.0.rand() % 4 == 0;
                Yield(pend).await;
                self.0.$i()
            })*
        }
    };
}
players! {
    read_message_begin message_begin TMessageIdentifier,
    read_message_end message_end (),
    read_struct_begin struct_begin Option<TStructIdentifier>,
    read_struct_end struct_end (),
    read_field_begin field_begin TFieldIdentifier,
    read_field_end field_end (),
    read_bool bool bool,
    read_bytes bytes Vec<u8>,
    read_i8 i8 i8,
    read_i16 i16 i16,
    read_i32 i32 i32,
    read_i64 i64 i64,
    read_double double f64,
    read_string string String,
    read_list_begin list_begin TListIdentifier,
    read_list_end list_end (),
    read_set_begin set_begin TSetIdentifier,
    read_set_end set_end (),
    read_map_begin map_begin TMapIdentifier,
    read_map_end map_end (),
    read_byte byte u8,
}

/// The field names of the Parquet definition, from the crate's Rust names.
pub fn wire_name(f: &Field) -> &'static str {
    match f.name {
        "type_" => "type",
        "is_adjusted_to_u_t_c" => "isAdjustedToUTC",
        "bit_width" => "bitWidth",
        "is_signed" => "isSigned",
        "num_bytes" => "numBytes",
        "logical_type" => "logicalType",
        "AESGCMV1" => "AES_GCM_V1",
        "AESGCMCTRV1" => "AES_GCM_CTR_V1",
        "ENCRYPTIONWITHFOOTERKEY" => "ENCRYPTION_WITH_FOOTER_KEY",
        "ENCRYPTIONWITHCOLUMNKEY" => "ENCRYPTION_WITH_COLUMN_KEY",
        "TYPEORDER" => "TYPE_ORDER",
        n => n,
    }
}

fn ft_tt(f: FT) -> TT {
    match f {
        FT::Bool => TT::Bool,
        FT::I8 => TT::I8,
        FT::I16 => TT::I16,
        FT::I32 => TT::I32,
        FT::I64 => TT::I64,
        FT::Str | FT::Bin => TT::Bin,
        FT::List(_) => TT::List,
        FT::Struct(_) => TT::Struct,
    }
}

/// The calls that read (or write) `v`; fields the schema does not know are for skipping.
pub fn script_of(v: &TV, ft: Option<FT>, out: &mut Vec<Ev>) {
    match v {
        TV::Bool(x) => out.push(Ev::Bool(*x)),
        TV::I8(x) => out.push(Ev::I8(*x)),
        TV::I16(x) => out.push(Ev::I16(*x)),
        TV::I32(x) => out.push(Ev::I32(*x)),
        TV::I64(x) => out.push(Ev::I64(*x)),
        TV::Double(x) => out.push(Ev::Double(*x)),
        TV::Bin(b) => out.push(match ft {
            Some(FT::Str) => Ev::Str(String::from_utf8(b.clone()).unwrap_or_default()),
            Some(_) => Ev::Bytes(b.clone()),
            None => Ev::Text(b.clone()),
        }),
        TV::List(t, xs) => {
            out.push(Ev::List(tt_to_ttype(*t), xs.len() as u32));
            let e = match ft {
                Some(FT::List(e)) => Some(*e),
                _ => None,
            };
            xs.iter().for_each(|x| script_of(x, e, out));
            out.push(Ev::ListEnd);
        }
        TV::Set(t, xs) => {
            out.push(Ev::Set(tt_to_ttype(*t), xs.len() as u32));
            xs.iter().for_each(|x| script_of(x, None, out));
            out.push(Ev::SetEnd);
        }
        TV::Map(k, t, xs) => {
            if xs.is_empty() {
                out.push(Ev::Map(None, None, 0));
            } else {
                out.push(Ev::Map(Some(tt_to_ttype(*k)), Some(tt_to_ttype(*t)), xs.len() as u32));
            }
            for (a, b) in xs {
                script_of(a, None, out);
                script_of(b, None, out);
            }
            out.push(Ev::MapEnd);
        }
        TV::Struct(fs) => {
            out.push(Ev::Struct(None));
            let sc = match ft {
                Some(FT::Struct(f)) => Some(f()),
                _ => None,
            };
            for (id, x) in fs {
                out.push(Ev::Field(None, tt_to_ttype(x.tt()), Some(*id)));
                let e = sc.and_then(|sc| sc.fields.iter().find(|d| d.id == *id)).map(|d| d.ft);
                script_of(x, e, out);
                out.push(Ev::FieldEnd);
            }
            out.push(Ev::Stop);
            out.push(Ev::StructEnd);
        }
    }
}

/// Read a log as a value of the type `ft`, strictly.
pub fn parse_log(evs: &mut std::slice::Iter<'_, Ev>, ft: FT) -> Result<TV, String> {
    fn one<'a>(evs: &mut std::slice::Iter<'a, Ev>, what: &str) -> Result<&'a Ev, String> {
        evs.next().ok_or_else(|| format!("the calls end where {what} is due"))
    }
    fn end(evs: &mut std::slice::Iter<'_, Ev>, want: Ev) -> Result<(), String> {
        let e = one(evs, &format!("{want:?}"))?;
        if *e != want {
            return Err(format!("{e:?} where {want:?} is due"));
        }
        Ok(())
    }
    let e = one(evs, "a value")?;
    Ok(match (ft, e) {
        (FT::Bool, Ev::Bool(x)) => TV::Bool(*x),
        (FT::I8, Ev::I8(x)) => TV::I8(*x),
        (FT::I16, Ev::I16(x)) => TV::I16(*x),
        (FT::I32, Ev::I32(x)) => TV::I32(*x),
        (FT::I64, Ev::I64(x)) => TV::I64(*x),
        (FT::Str, Ev::Str(x)) => TV::Bin(x.as_bytes().to_vec()),
        (FT::Bin, Ev::Bytes(x)) => TV::Bin(x.clone()),
        (FT::List(t), Ev::List(tt, n)) => {
            if *tt != tt_to_ttype(ft_tt(*t)) {
                return Err(format!("a list of {:?} is announced as one of {tt:?}", ft_tt(*t)));
            }
            let mut xs = vec![];
            for _ in 0..*n {
                xs.push(parse_log(evs, *t)?);
            }
            end(evs, Ev::ListEnd)?;
            TV::List(ft_tt(*t), xs)
        }
        (FT::Struct(sc), Ev::Struct(name)) => {
            let sc = sc();
            if name.as_deref() != Some(sc.name) {
                return Err(format!("struct {} is announced as {name:?}", sc.name));
            }
            let mut fs = vec![];
            loop {
                match one(evs, "a field")? {
                    Ev::Stop => break,
                    Ev::Field(name, t, Some(id)) => {
                        let Some(fd) = sc.fields.iter().find(|d| d.id == *id) else {
                            return Err(format!("{} has no field {id}", sc.name));
                        };
                        if *t != tt_to_ttype(ft_tt(fd.ft)) {
                            return Err(format!("{}.{} is announced as {t:?}", sc.name, fd.name));
                        }
                        if name.as_deref() != Some(wire_name(fd)) {
                            return Err(format!("{}.{} is announced under the name {name:?}", sc.name, fd.name));
                        }
                        if fs.iter().any(|(i, _)| i == id) {
                            return Err(format!("{}.{} is written twice", sc.name, fd.name));
                        }
                        fs.push((*id, parse_log(evs, fd.ft)?));
                        end(evs, Ev::FieldEnd)?;
                    }
                    e => return Err(format!("{e:?} where a field of {} is due", sc.name)),
                }
            }
            end(evs, Ev::StructEnd)?;
            TV::Struct(fs)
        }
        (_, e) => return Err(format!("{e:?} where a value of type {:?} is due", ft_tt(ft))),
    })
}

/// A call with random arguments.
pub fn any_call(s: &mut Source) -> Ev {
    use crate::gen;
    const TYPES: [TType; 16] = [TType::Stop, TType::Void, TType::Bool, TType::I08, TType::Double, TType::I16, TType::I32, TType::I64, TType::String, TType::Utf7, TType::Struct, TType::Map, TType::Set, TType::List, TType::Utf8, TType::Utf16];
    const KINDS: [TMessageType; 4] = [TMessageType::Call, TMessageType::Reply, TMessageType::Exception, TMessageType::OneWay];
    fn name(s: &mut Source) -> String {
        let n = s.below(6);
        gen::text(s, n)
    }
    match s.below(23) {
        0 => {
            let (n, t, q) = (name(s), s.pick(&KINDS), gen::int(s, 32) as u32);
            Ev::Message(TMessageIdentifier::new(n, t, q))
        }
        1 => Ev::MessageEnd,
        2 => Ev::Struct(Some(name(s))),
        3 => Ev::StructEnd,
        4 => {
            let n = if s.bool() { Some(name(s)) } else { None };
            let id = if s.bool() { Some(gen::int(s, 16) as i16) } else { None };
            Ev::Field(n, s.pick(&TYPES), id)
        }
        5 => Ev::FieldEnd,
        6 => Ev::Stop,
        7 => Ev::List(s.pick(&TYPES), gen::int(s, 32) as u32),
        8 => Ev::ListEnd,
        9 => Ev::Set(s.pick(&TYPES), gen::int(s, 32) as u32),
        10 => Ev::SetEnd,
        11 => {
            let k = if s.bool() { Some(s.pick(&TYPES)) } else { None };
            let v = if s.bool() { Some(s.pick(&TYPES)) } else { None };
            Ev::Map(k, v, gen::int(s, 32) as u32)
        }
        12 => Ev::MapEnd,
        13 => Ev::Bool(s.bool()),
        14 => Ev::I8(gen::int(s, 8) as i8),
        15 => Ev::I16(gen::int(s, 16) as i16),
        16 => Ev::I32(gen::int(s, 32) as i32),
        17 => Ev::I64(gen::int(s, 64)),
        18 => Ev::Double(s.u64()),
        19 => {
            let n = s.below(6);
            Ev::Bytes(gen::fill(s, n))
        }
        20 => Ev::Str(name(s)),
        21 => Ev::Byte(s.byte()),
        _ => Ev::Flush,
    }
}

/// Make the call `e` on an output protocol.
pub fn call_out(p: &mut dyn TOutputProtocol, e: &Ev) -> TR<usize> {
    match e {
        Ev::Message(i) => p.write_message_begin(i),
        Ev::MessageEnd => p.write_message_end(),
        Ev::Struct(n) => p.write_struct_begin(&TStructIdentifier::new(n.clone().unwrap_or_default())),
        Ev::StructEnd => p.write_struct_end(),
        Ev::Field(n, t, id) => p.write_field_begin(&TFieldIdentifier { name: n.clone(), field_type: *t, id: *id }),
        Ev::FieldEnd => p.write_field_end(),
        Ev::Stop => p.write_field_stop(),
        Ev::List(t, n) => p.write_list_begin(&TListIdentifier::new(*t, *n)),
        Ev::ListEnd => p.write_list_end(),
        Ev::Set(t, n) => p.write_set_begin(&TSetIdentifier::new(*t, *n)),
        Ev::SetEnd => p.write_set_end(),
        Ev::Map(k, v, n) => p.write_map_begin(&TMapIdentifier::new(*k, *v, *n)),
        Ev::MapEnd => p.write_map_end(),
        Ev::Bool(x) => p.write_bool(*x),
        Ev::I8(x) => p.write_i8(*x),
        Ev::I16(x) => p.write_i16(*x),
        Ev::I32(x) => p.write_i32(*x),
        Ev::I64(x) => p.write_i64(*x),
        Ev::Double(x) => p.write_double(f64::from_bits(*x)),
        Ev::Bytes(x) | Ev::Text(x) => p.write_bytes(x),
        Ev::Str(x) => p.write_string(x),
        Ev::Byte(x) => p.write_byte(*x),
        Ev::Flush => p.flush().map(|_| 0),
    }
}

/// Make the reading call that `e` answers; gives back what was read, as a call.
pub fn call_in<P: TInputProtocol>(p: &mut P, e: &Ev) -> TR<Ev> {
    Ok(match e {
        Ev::Message(_) => Ev::Message(p.read_message_begin()?),
        Ev::MessageEnd => {
            p.read_message_end()?;
            Ev::MessageEnd
        }
        Ev::Struct(_) => {
            p.read_struct_begin()?;
            e.clone()
        }
        Ev::StructEnd => {
            p.read_struct_end()?;
            Ev::StructEnd
        }
        Ev::Field(n, ..) => {
            let f = p.read_field_begin()?;
            Ev::Field(n.clone(), f.field_type, f.id)
        }
        Ev::FieldEnd => {
            p.read_field_end()?;
            Ev::FieldEnd
        }
        Ev::Stop => match p.read_field_begin()?.field_type {
            TType::Stop => Ev::Stop,
            t => Ev::Field(None, t, None),
        },
        Ev::List(..) => {
            let i = p.read_list_begin()?;
            Ev::List(i.element_type, i.size)
        }
        Ev::ListEnd => {
            p.read_list_end()?;
            Ev::ListEnd
        }
        Ev::Set(..) => {
            let i = p.read_set_begin()?;
            Ev::Set(i.element_type, i.size)
        }
        Ev::SetEnd => {
            p.read_set_end()?;
            Ev::SetEnd
        }
        Ev::Map(..) => {
            let i = p.read_map_begin()?;
            Ev::Map(i.key_type, i.value_type, i.size)
        }
        Ev::MapEnd => {
            p.read_map_end()?;
            Ev::MapEnd
        }
        Ev::Bool(_) => Ev::Bool(p.read_bool()?),
        Ev::I8(_) => Ev::I8(p.read_i8()?),
        Ev::I16(_) => Ev::I16(p.read_i16()?),
        Ev::I32(_) => Ev::I32(p.read_i32()?),
        Ev::I64(_) => Ev::I64(p.read_i64()?),
        Ev::Double(_) => Ev::Double(p.read_double()?.to_bits()),
        Ev::Bytes(_) => Ev::Bytes(p.read_bytes()?),
        Ev::Text(_) => Ev::Text(p.read_bytes()?),
        Ev::Str(_) => Ev::Str(p.read_string()?),
        Ev::Byte(_) => Ev::Byte(p.read_byte()?),
        Ev::Flush => Ev::Flush,
    })
}
