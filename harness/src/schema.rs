//! The Parquet metadata schema, transcribed from the Parquet format's own thrift definition
//! (field ids, types, requiredness, enum codes), and the glue from it to the crate's types.
use crate::anyproto::{PlayA, PlayP, RecA, RecP};
use crate::engine::Source;
use crate::gen::{self, G};
use crate::io::{AR, AW, RS};
use crate::model::{TT, TV};
use parquet_format_safe::thrift::protocol::*;
use parquet_format_safe::thrift::Result as TResult;
use parquet_format_safe::*;
use std::any::Any;
use std::cmp::Ordering;
use std::future::Future;
use std::pin::Pin;
use std::sync::OnceLock;

#[derive(Clone, Copy)]
pub enum FT {
    Bool,
    I8,
    I16,
    I32,
    I64,
    Str,
    Bin,
    List(&'static FT),
    Struct(fn() -> &'static Schema),
}

pub struct Field {
    pub id: i16,
    pub name: &'static str,
    pub req: bool,
    pub ft: FT,
}
pub struct Schema {
    pub name: &'static str,
    pub union: bool,
    pub fields: Vec<Field>,
}

/// Why a well-formed Thrift value is not a value of a Parquet type.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rej {
    Missing,
    Union,
    Utf8,
    /// a known field carries another wire type than the schema says: nothing is specified
    Type,
}

pub trait Fld: Sized + Clone + 'static {
    const COST: i64;
    fn ft() -> FT;
    fn tt() -> TT;
    fn gen(s: &mut Source, g: &mut G) -> Self;
    fn tv(&self) -> TV;
    fn from_tv(v: &TV) -> Result<Self, Rej>;
}

macro_rules! fld_int {
    ($t:ty, $v:ident, $bits:expr) => {
        impl Fld for $t {
            const COST: i64 = 1;
            fn ft() -> FT {
                FT::$v
            }
            fn tt() -> TT {
                TT::$v
            }
            fn gen(s: &mut Source, g: &mut G) -> Self {
                g.fuel -= 1;
                g.int(s, $bits) as $t
            }
            fn tv(&self) -> TV {
                TV::$v(*self)
            }
            fn from_tv(v: &TV) -> Result<Self, Rej> {
                match v {
                    TV::$v(x) => Ok(*x),
                    _ => Err(Rej::Type),
                }
            }
        }
    };
}
fld_int!(i8, I8, 8);
fld_int!(i16, I16, 16);
fld_int!(i32, I32, 32);
fld_int!(i64, I64, 64);

impl Fld for bool {
    const COST: i64 = 1;
    fn ft() -> FT {
        FT::Bool
    }
    fn tt() -> TT {
        TT::Bool
    }
    fn gen(s: &mut Source, g: &mut G) -> Self {
        g.fuel -= 1;
        s.bool()
    }
    fn tv(&self) -> TV {
        TV::Bool(*self)
    }
    fn from_tv(v: &TV) -> Result<Self, Rej> {
        match v {
            TV::Bool(x) => Ok(*x),
            _ => Err(Rej::Type),
        }
    }
}
impl Fld for String {
    const COST: i64 = 3;
    fn ft() -> FT {
        FT::Str
    }
    fn tt() -> TT {
        TT::Bin
    }
    fn gen(s: &mut Source, g: &mut G) -> Self {
        g.fuel -= 1;
        String::from_utf8(g.string(s, false)).unwrap()
    }
    fn tv(&self) -> TV {
        TV::Bin(self.as_bytes().to_vec())
    }
    fn from_tv(v: &TV) -> Result<Self, Rej> {
        match v {
            TV::Bin(x) => String::from_utf8(x.clone()).map_err(|_| Rej::Utf8),
            _ => Err(Rej::Type),
        }
    }
}
impl Fld for Vec<u8> {
    const COST: i64 = 3;
    fn ft() -> FT {
        FT::Bin
    }
    fn tt() -> TT {
        TT::Bin
    }
    fn gen(s: &mut Source, g: &mut G) -> Self {
        g.fuel -= 1;
        g.string(s, true)
    }
    fn tv(&self) -> TV {
        TV::Bin(self.clone())
    }
    fn from_tv(v: &TV) -> Result<Self, Rej> {
        match v {
            TV::Bin(x) => Ok(x.clone()),
            _ => Err(Rej::Type),
        }
    }
}
impl<T: Fld> Fld for Vec<T> {
    const COST: i64 = 4;
    fn ft() -> FT {
        FT::List(Box::leak(Box::new(T::ft())))
    }
    fn tt() -> TT {
        TT::List
    }
    fn gen(s: &mut Source, g: &mut G) -> Self {
        g.fuel -= 1;
        let n = g.list_len(s, T::COST);
        gen::many(s, g, n, |s, g| T::gen(s, g))
    }
    fn tv(&self) -> TV {
        TV::List(T::tt(), self.iter().map(|x| x.tv()).collect())
    }
    fn from_tv(v: &TV) -> Result<Self, Rej> {
        match v {
            // an empty list may carry any element type
            TV::List(t, xs) if *t == T::tt() || xs.is_empty() => xs.iter().map(T::from_tv).collect(),
            _ => Err(Rej::Type),
        }
    }
}

pub type SyncIn<'a> = TCompactInputProtocol<&'a mut (dyn RS + 'a)>;
pub type SyncOut<'a> = TCompactOutputProtocol<&'a mut (dyn std::io::Write + 'a)>;
pub type AsyncIn<'a> = TCompactInputStreamProtocol<&'a mut (dyn AR + 'a)>;
pub type AsyncOut<'a> = TCompactOutputStreamProtocol<&'a mut (dyn AW + 'a)>;
pub type DynOut<'a> = Box<dyn TOutputProtocol + 'a>;
pub type CountIn<'a> = crate::counting::Counting<SyncIn<'a>>;
pub type BoxFut<'a, T> = Pin<Box<dyn Future<Output = T> + Send + 'a>>;

pub trait Val: Send + Sync + Any {
    fn tv(&self) -> TV;
    fn write(&self, p: &mut SyncOut<'_>) -> TResult<usize>;
    fn write_dyn(&self, p: &mut DynOut<'_>) -> TResult<usize>;
    fn write_async<'a, 'b>(&'a self, p: &'a mut AsyncOut<'b>) -> BoxFut<'a, TResult<usize>>
    where
        'b: 'a;
    fn write_rec(&self, p: &mut RecP<'_>) -> TResult<usize>;
    fn write_rec_async<'a, 'b>(&'a self, p: &'a mut RecA<'b>) -> BoxFut<'a, TResult<usize>>
    where
        'b: 'a;
    /// the same value built through the type's constructor, if it has one
    fn rebuilt(&self) -> Option<TV>;
    fn dbg(&self) -> String;
    fn eq_any(&self, o: &dyn Val) -> bool;
    fn copied(&self) -> BV;
    /// `Ord::cmp` and `PartialOrd::partial_cmp`; the other value is of the same type
    fn cmp_any(&self, o: &dyn Val) -> (Ordering, Option<Ordering>);
    fn hash_of(&self) -> u64;
    fn as_any(&self) -> &dyn Any;
}
pub type BV = Box<dyn Val>;

pub struct Root {
    pub name: &'static str,
    pub is_struct: bool,
    pub ft: fn() -> FT,
    pub size_of: usize,
    pub gen: fn(&mut Source, &mut G) -> BV,
    pub from_tv: fn(&TV) -> Result<BV, Rej>,
    pub read: for<'a, 'b> fn(&'a mut SyncIn<'b>) -> TResult<BV>,
    pub read_boxed: for<'a, 'b> fn(&'a mut Box<SyncIn<'b>>) -> TResult<BV>,
    pub read_counting: for<'a, 'b> fn(&'a mut CountIn<'b>) -> TResult<BV>,
    pub read_async: for<'a, 'b> fn(&'a mut AsyncIn<'b>) -> BoxFut<'a, TResult<BV>>,
    pub read_play: for<'a, 'b> fn(&'a mut PlayP<'b>) -> TResult<BV>,
    pub read_play_boxed: for<'a, 'b> fn(&'a mut Box<PlayP<'b>>) -> TResult<BV>,
    pub read_play_async: for<'a, 'b> fn(&'a mut PlayA<'b>) -> BoxFut<'a, TResult<BV>>,
}

impl Root {
    pub fn schema(&self) -> Option<&'static Schema> {
        match (self.ft)() {
            FT::Struct(f) => Some(f()),
            _ => None,
        }
    }
}

fn bx<T: Val>(v: T) -> BV {
    Box::new(v)
}

macro_rules! val_impl {
    ($t:ident, $rebuilt:expr) => {
        impl Val for $t {
            fn tv(&self) -> TV {
                Fld::tv(self)
            }
            fn write(&self, p: &mut SyncOut<'_>) -> TResult<usize> {
                self.write_to_out_protocol(p)
            }
            fn write_dyn(&self, p: &mut DynOut<'_>) -> TResult<usize> {
                self.write_to_out_protocol(p)
            }
            fn write_async<'a, 'b>(&'a self, p: &'a mut AsyncOut<'b>) -> BoxFut<'a, TResult<usize>>
            where
                'b: 'a,
            {
                Box::pin(self.write_to_out_stream_protocol(p))
            }
            fn write_rec(&self, p: &mut RecP<'_>) -> TResult<usize> {
                self.write_to_out_protocol(p)
            }
            fn write_rec_async<'a, 'b>(&'a self, p: &'a mut RecA<'b>) -> BoxFut<'a, TResult<usize>>
            where
                'b: 'a,
            {
                Box::pin(self.write_to_out_stream_protocol(p))
            }
            fn rebuilt(&self) -> Option<TV> {
                let f: fn(&$t) -> Option<$t> = $rebuilt;
                f(self).map(|x| Fld::tv(&x))
            }
            fn dbg(&self) -> String {
                format!("{self:?}")
            }
            fn eq_any(&self, o: &dyn Val) -> bool {
                o.as_any().downcast_ref::<$t>().map_or(false, |x| x == self)
            }
            fn copied(&self) -> BV {
                bx(self.clone())
            }
            fn cmp_any(&self, o: &dyn Val) -> (Ordering, Option<Ordering>) {
                let o = o.as_any().downcast_ref::<$t>().unwrap();
                (Ord::cmp(self, o), PartialOrd::partial_cmp(self, o))
            }
            fn hash_of(&self) -> u64 {
                use std::hash::{Hash, Hasher};
                let mut h = std::collections::hash_map::DefaultHasher::new();
                self.hash(&mut h);
                h.finish()
            }
            fn as_any(&self) -> &dyn Any {
                self
            }
        }
    };
}

macro_rules! put {
    (req, $out:ident, $id:expr, $v:expr) => {
        $out.push(($id, Fld::tv(&$v)))
    };
    (opt, $out:ident, $id:expr, $v:expr) => {
        if let Some(x) = &$v {
            $out.push(($id, Fld::tv(x)))
        }
    };
}
macro_rules! genf {
    (req, $t:ty, $s:ident, $g:ident, $own:expr, $id:expr) => {{
        $g.at = ($own, $id);
        <$t as Fld>::gen($s, $g)
    }};
    (opt, $t:ty, $s:ident, $g:ident, $own:expr, $id:expr) => {{
        $g.at = ($own, $id);
        if $g.some($s) || $g.wants() {
            Some(<$t as Fld>::gen($s, $g))
        } else {
            None
        }
    }};
}
macro_rules! getf {
    (req, $t:ty, $m:ident) => {
        $m.ok_or(Rej::Missing)?
    };
    (opt, $t:ty, $m:ident) => {
        $m
    };
}
macro_rules! is_req {
    (req) => {
        true
    };
    (opt) => {
        false
    };
}

macro_rules! pq_struct {
    ($t:ident { $($id:literal $req:ident $f:ident : $ty:ty),* $(,)? }) => {
        impl Fld for $t {
            const COST: i64 = 8;
            fn ft() -> FT {
                fn schema() -> &'static Schema {
                    static S: OnceLock<Schema> = OnceLock::new();
                    S.get_or_init(|| Schema {
                        name: stringify!($t),
                        union: false,
                        fields: vec![$(Field { id: $id, name: stringify!($f), req: is_req!($req), ft: <$ty as Fld>::ft() }),*],
                    })
                }
                FT::Struct(schema)
            }
            fn tt() -> TT {
                TT::Struct
            }
            #[allow(unused_variables)]
            fn gen(s: &mut Source, g: &mut G) -> Self {
                g.fuel -= 1;
                $(let $f = genf!($req, $ty, s, g, stringify!($t), $id);)*
                $t { $($f),* }
            }
            #[allow(unused_mut)]
            fn tv(&self) -> TV {
                let mut out: Vec<(i16, TV)> = vec![];
                $(put!($req, out, $id, self.$f);)*
                TV::Struct(out)
            }
            #[allow(unused_variables)]
            fn from_tv(v: &TV) -> Result<Self, Rej> {
                let TV::Struct(fs) = v else { return Err(Rej::Type) };
                $(let mut $f: Option<$ty> = None;)*
                for (id, x) in fs {
                    match *id {
                        $($id => $f = Some(<$ty as Fld>::from_tv(x)?),)*
                        _ => {}
                    }
                }
                Ok($t { $($f: getf!($req, $ty, $f)),* })
            }
        }
        val_impl!($t, |_v| Some($t::new($(_v.$f.clone()),*)));
    };
}
macro_rules! pq_union {
    ($t:ident { $($id:literal $f:ident : $ty:ty),* $(,)? }) => {
        impl Fld for $t {
            const COST: i64 = 8;
            fn ft() -> FT {
                fn schema() -> &'static Schema {
                    static S: OnceLock<Schema> = OnceLock::new();
                    S.get_or_init(|| Schema {
                        name: stringify!($t),
                        union: true,
                        fields: vec![$(Field { id: $id, name: stringify!($f), req: false, ft: <$ty as Fld>::ft() }),*],
                    })
                }
                FT::Struct(schema)
            }
            fn tt() -> TT {
                TT::Struct
            }
            fn gen(s: &mut Source, g: &mut G) -> Self {
                g.fuel -= 1;
                let all: &[i16] = &[$($id),*];
                let k = all[s.below(all.len())];
                match k {
                    $($id => {
                        g.at = (stringify!($t), $id);
                        $t::$f(<$ty as Fld>::gen(s, g))
                    })*
                    _ => unreachable!(),
                }
            }
            fn tv(&self) -> TV {
                match self {
                    $($t::$f(x) => TV::Struct(vec![($id, Fld::tv(x))]),)*
                }
            }
            fn from_tv(v: &TV) -> Result<Self, Rej> {
                let TV::Struct(fs) = v else { return Err(Rej::Type) };
                // the members are decoded before they are counted, so an inner defect counts too
                let mut r = None;
                for (id, x) in fs {
                    match *id {
                        $($id => {
                            let y = $t::$f(<$ty as Fld>::from_tv(x)?);
                            if r.is_none() { r = Some(y); }
                        })*
                        _ => {}
                    }
                }
                if fs.len() != 1 { return Err(Rej::Union); }
                r.ok_or(Rej::Union)
            }
        }
        val_impl!($t, |_| None);
    };
}
macro_rules! pq_enum {
    ($t:ident { $($f:ident = $n:literal),* $(,)? }) => {
        impl Fld for $t {
            const COST: i64 = 1;
            fn ft() -> FT {
                FT::I32
            }
            fn tt() -> TT {
                TT::I32
            }
            fn gen(s: &mut Source, g: &mut G) -> Self {
                g.fuel -= 1;
                let known: &[i32] = &[$($n),*];
                if s.chance(1, 4) {
                    $t(gen::int(s, 32) as i32)
                } else {
                    $t(known[s.below(known.len())])
                }
            }
            fn tv(&self) -> TV {
                TV::I32(self.0)
            }
            fn from_tv(v: &TV) -> Result<Self, Rej> {
                match v {
                    TV::I32(x) => Ok($t(*x)),
                    _ => Err(Rej::Type),
                }
            }
        }
        val_impl!($t, |v| Some($t::from(v.0)));
    };
}

/// One Parquet enum: its codes by name, and the crate's conversions.
pub struct EnumInfo {
    pub name: &'static str,
    /// (name, code of the format, code the crate's constant carries)
    pub members: Vec<(&'static str, i32, i32)>,
    pub listed: Vec<i32>,
    pub from_val: fn(i32) -> i32,
    pub from_ref: fn(&i32) -> i32,
    pub into_val: fn(i32) -> i32,
    pub into_ref: fn(i32) -> i32,
    pub root: &'static str,
}

macro_rules! all_types {
    (structs { $($st:ident { $($sb:tt)* })* } unions { $($ut:ident { $($ub:tt)* })* } enums { $($et:ident { $($ef:ident = $en:literal),* $(,)? })* }) => {
        $(pq_struct!($st { $($sb)* });)*
        $(pq_union!($ut { $($ub)* });)*
        $(pq_enum!($et { $($ef = $en),* });)*

        pub fn roots() -> &'static [Root] {
            static R: OnceLock<Vec<Root>> = OnceLock::new();
            R.get_or_init(|| vec![
                $(all_types!(@root $st true),)*
                $(all_types!(@root $ut true),)*
                $(all_types!(@root $et false),)*
            ])
        }
        pub fn enums() -> Vec<EnumInfo> {
            vec![$(EnumInfo {
                name: stringify!($et),
                members: vec![$((stringify!($ef), $en, $et::$ef.0)),*],
                listed: $et::ENUM_VALUES.iter().map(|x| x.0).collect(),
                from_val: |x| $et::from(x).0,
                from_ref: |x| $et::from(x).0,
                into_val: |x| i32::from($et(x)),
                into_ref: |x| i32::from(&$et(x)),
                root: stringify!($et),
            }),*]
        }
    };
    (@root $t:ident true) => {
        Root {
            name: stringify!($t),
            is_struct: true,
            ft: <$t as Fld>::ft,
            size_of: std::mem::size_of::<$t>(),
            gen: |s, g| bx(<$t as Fld>::gen(s, g)),
            from_tv: |v| <$t as Fld>::from_tv(v).map(bx),
            read: |p| $t::read_from_in_protocol(p).map(bx),
            read_boxed: |p| <$t as ReadThrift>::read_from_in_protocol(p).map(bx),
            read_counting: |p| <$t as ReadThrift>::read_from_in_protocol(p).map(bx),
            read_async: |p| Box::pin(async move { $t::stream_from_in_protocol(p).await.map(bx) }),
            read_play: |p| $t::read_from_in_protocol(p).map(bx),
            read_play_boxed: |p| <$t as ReadThrift>::read_from_in_protocol(p).map(bx),
            read_play_async: |p| Box::pin(async move { <$t as AsyncReadThrift>::stream_from_in_protocol(p).await.map(bx) }),
        }
    };
    (@root $t:ident false) => {
        Root {
            name: stringify!($t),
            is_struct: false,
            ft: <$t as Fld>::ft,
            size_of: std::mem::size_of::<$t>(),
            gen: |s, g| bx(<$t as Fld>::gen(s, g)),
            from_tv: |v| <$t as Fld>::from_tv(v).map(bx),
            read: |p| <$t as ReadThrift>::read_from_in_protocol(p).map(bx),
            read_boxed: |p| <$t as ReadThrift>::read_from_in_protocol(p).map(bx),
            read_counting: |p| <$t as ReadThrift>::read_from_in_protocol(p).map(bx),
            read_async: |p| Box::pin(async move { <$t as AsyncReadThrift>::stream_from_in_protocol(p).await.map(bx) }),
            read_play: |p| <$t as ReadThrift>::read_from_in_protocol(p).map(bx),
            read_play_boxed: |p| <$t as ReadThrift>::read_from_in_protocol(p).map(bx),
            read_play_async: |p| Box::pin(async move { <$t as AsyncReadThrift>::stream_from_in_protocol(p).await.map(bx) }),
        }
    };
}

all_types! {
structs {
    Statistics { 1 opt max: Vec<u8>, 2 opt min: Vec<u8>, 3 opt null_count: i64, 4 opt distinct_count: i64, 5 opt max_value: Vec<u8>, 6 opt min_value: Vec<u8> }
    StringType {}
    UUIDType {}
    MapType {}
    ListType {}
    EnumType {}
    DateType {}
    NullType {}
    DecimalType { 1 req scale: i32, 2 req precision: i32 }
    MilliSeconds {}
    MicroSeconds {}
    NanoSeconds {}
    TimestampType { 1 req is_adjusted_to_u_t_c: bool, 2 req unit: TimeUnit }
    TimeType { 1 req is_adjusted_to_u_t_c: bool, 2 req unit: TimeUnit }
    IntType { 1 req bit_width: i8, 2 req is_signed: bool }
    JsonType {}
    BsonType {}
    SchemaElement { 1 opt type_: Type, 2 opt type_length: i32, 3 opt repetition_type: FieldRepetitionType, 4 req name: String, 5 opt num_children: i32, 6 opt converted_type: ConvertedType, 7 opt scale: i32, 8 opt precision: i32, 9 opt field_id: i32, 10 opt logical_type: LogicalType }
    DataPageHeader { 1 req num_values: i32, 2 req encoding: Encoding, 3 req definition_level_encoding: Encoding, 4 req repetition_level_encoding: Encoding, 5 opt statistics: Statistics }
    IndexPageHeader {}
    DictionaryPageHeader { 1 req num_values: i32, 2 req encoding: Encoding, 3 opt is_sorted: bool }
    DataPageHeaderV2 { 1 req num_values: i32, 2 req num_nulls: i32, 3 req num_rows: i32, 4 req encoding: Encoding, 5 req definition_levels_byte_length: i32, 6 req repetition_levels_byte_length: i32, 7 opt is_compressed: bool, 8 opt statistics: Statistics }
    SplitBlockAlgorithm {}
    XxHash {}
    Uncompressed {}
    BloomFilterHeader { 1 req num_bytes: i32, 2 req algorithm: BloomFilterAlgorithm, 3 req hash: BloomFilterHash, 4 req compression: BloomFilterCompression }
    PageHeader { 1 req type_: PageType, 2 req uncompressed_page_size: i32, 3 req compressed_page_size: i32, 4 opt crc: i32, 5 opt data_page_header: DataPageHeader, 6 opt index_page_header: IndexPageHeader, 7 opt dictionary_page_header: DictionaryPageHeader, 8 opt data_page_header_v2: DataPageHeaderV2 }
    KeyValue { 1 req key: String, 2 opt value: String }
    SortingColumn { 1 req column_idx: i32, 2 req descending: bool, 3 req nulls_first: bool }
    PageEncodingStats { 1 req page_type: PageType, 2 req encoding: Encoding, 3 req count: i32 }
    ColumnMetaData { 1 req type_: Type, 2 req encodings: Vec<Encoding>, 3 req path_in_schema: Vec<String>, 4 req codec: CompressionCodec, 5 req num_values: i64, 6 req total_uncompressed_size: i64, 7 req total_compressed_size: i64, 8 opt key_value_metadata: Vec<KeyValue>, 9 req data_page_offset: i64, 10 opt index_page_offset: i64, 11 opt dictionary_page_offset: i64, 12 opt statistics: Statistics, 13 opt encoding_stats: Vec<PageEncodingStats>, 14 opt bloom_filter_offset: i64 }
    EncryptionWithFooterKey {}
    EncryptionWithColumnKey { 1 req path_in_schema: Vec<String>, 2 opt key_metadata: Vec<u8> }
    ColumnChunk { 1 opt file_path: String, 2 req file_offset: i64, 3 opt meta_data: ColumnMetaData, 4 opt offset_index_offset: i64, 5 opt offset_index_length: i32, 6 opt column_index_offset: i64, 7 opt column_index_length: i32, 8 opt crypto_metadata: ColumnCryptoMetaData, 9 opt encrypted_column_metadata: Vec<u8> }
    RowGroup { 1 req columns: Vec<ColumnChunk>, 2 req total_byte_size: i64, 3 req num_rows: i64, 4 opt sorting_columns: Vec<SortingColumn>, 5 opt file_offset: i64, 6 opt total_compressed_size: i64, 7 opt ordinal: i16 }
    TypeDefinedOrder {}
    PageLocation { 1 req offset: i64, 2 req compressed_page_size: i32, 3 req first_row_index: i64 }
    OffsetIndex { 1 req page_locations: Vec<PageLocation> }
    ColumnIndex { 1 req null_pages: Vec<bool>, 2 req min_values: Vec<Vec<u8>>, 3 req max_values: Vec<Vec<u8>>, 4 req boundary_order: BoundaryOrder, 5 opt null_counts: Vec<i64> }
    AesGcmV1 { 1 opt aad_prefix: Vec<u8>, 2 opt aad_file_unique: Vec<u8>, 3 opt supply_aad_prefix: bool }
    AesGcmCtrV1 { 1 opt aad_prefix: Vec<u8>, 2 opt aad_file_unique: Vec<u8>, 3 opt supply_aad_prefix: bool }
    FileMetaData { 1 req version: i32, 2 req schema: Vec<SchemaElement>, 3 req num_rows: i64, 4 req row_groups: Vec<RowGroup>, 5 opt key_value_metadata: Vec<KeyValue>, 6 opt created_by: String, 7 opt column_orders: Vec<ColumnOrder>, 8 opt encryption_algorithm: EncryptionAlgorithm, 9 opt footer_signing_key_metadata: Vec<u8> }
    FileCryptoMetaData { 1 req encryption_algorithm: EncryptionAlgorithm, 2 opt key_metadata: Vec<u8> }
}
unions {
    TimeUnit { 1 MILLIS: MilliSeconds, 2 MICROS: MicroSeconds, 3 NANOS: NanoSeconds }
    LogicalType { 1 STRING: StringType, 2 MAP: MapType, 3 LIST: ListType, 4 ENUM: EnumType, 5 DECIMAL: DecimalType, 6 DATE: DateType, 7 TIME: TimeType, 8 TIMESTAMP: TimestampType, 10 INTEGER: IntType, 11 UNKNOWN: NullType, 12 JSON: JsonType, 13 BSON: BsonType, 14 UUID: UUIDType }
    BloomFilterAlgorithm { 1 BLOCK: SplitBlockAlgorithm }
    BloomFilterHash { 1 XXHASH: XxHash }
    BloomFilterCompression { 1 UNCOMPRESSED: Uncompressed }
    ColumnCryptoMetaData { 1 ENCRYPTIONWITHFOOTERKEY: EncryptionWithFooterKey, 2 ENCRYPTIONWITHCOLUMNKEY: EncryptionWithColumnKey }
    ColumnOrder { 1 TYPEORDER: TypeDefinedOrder }
    EncryptionAlgorithm { 1 AESGCMV1: AesGcmV1, 2 AESGCMCTRV1: AesGcmCtrV1 }
}
enums {
    Type { BOOLEAN = 0, INT32 = 1, INT64 = 2, INT96 = 3, FLOAT = 4, DOUBLE = 5, BYTE_ARRAY = 6, FIXED_LEN_BYTE_ARRAY = 7 }
    ConvertedType { UTF8 = 0, MAP = 1, MAP_KEY_VALUE = 2, LIST = 3, ENUM = 4, DECIMAL = 5, DATE = 6, TIME_MILLIS = 7, TIME_MICROS = 8, TIMESTAMP_MILLIS = 9, TIMESTAMP_MICROS = 10, UINT_8 = 11, UINT_16 = 12, UINT_32 = 13, UINT_64 = 14, INT_8 = 15, INT_16 = 16, INT_32 = 17, INT_64 = 18, JSON = 19, BSON = 20, INTERVAL = 21 }
    FieldRepetitionType { REQUIRED = 0, OPTIONAL = 1, REPEATED = 2 }
    Encoding { PLAIN = 0, PLAIN_DICTIONARY = 2, RLE = 3, BIT_PACKED = 4, DELTA_BINARY_PACKED = 5, DELTA_LENGTH_BYTE_ARRAY = 6, DELTA_BYTE_ARRAY = 7, RLE_DICTIONARY = 8, BYTE_STREAM_SPLIT = 9 }
    CompressionCodec { UNCOMPRESSED = 0, SNAPPY = 1, GZIP = 2, LZO = 3, BROTLI = 4, LZ4 = 5, ZSTD = 6, LZ4_RAW = 7 }
    PageType { DATA_PAGE = 0, INDEX_PAGE = 1, DICTIONARY_PAGE = 2, DATA_PAGE_V2 = 3 }
    BoundaryOrder { UNORDERED = 0, ASCENDING = 1, DESCENDING = 2 }
}
}

pub fn root(name: &str) -> &'static Root {
    roots().iter().find(|r| r.name == name).unwrap()
}

/// a root type: the big containers more often than the empty markers, but all of them
pub fn pick_root(s: &mut Source) -> &'static Root {
    const HEAVY: &[&str] = &["FileMetaData", "RowGroup", "ColumnChunk", "ColumnMetaData", "PageHeader", "SchemaElement", "ColumnIndex", "OffsetIndex", "Statistics", "DataPageHeaderV2", "BloomFilterHeader", "LogicalType", "FileCryptoMetaData"];
    if s.chance(1, 2) {
        root(HEAVY[s.below(HEAVY.len())])
    } else {
        &roots()[s.below(roots().len())]
    }
}
pub fn pick_struct(s: &mut Source) -> &'static Root {
    loop {
        let r = pick_root(s);
        if r.is_struct {
            return r;
        }
        // enums are a small minority of the roots; fall back deterministically
        if s.used.len() > 1_000_000 {
            return root("FileMetaData");
        }
    }
}
