//! A serde serializer that records what it is given as a list of events and can fail at any of
//! them, once or from then on.

use crate::alloc::host;
use crate::sched;
use serde::ser::{self, Serialize};
use std::fmt;

#[derive(Debug)]
pub struct FaultError(String);
impl fmt::Display for FaultError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for FaultError {}
impl ser::Error for FaultError {
    fn custom<T: fmt::Display>(m: T) -> Self {
        FaultError(m.to_string())
    }
}

#[derive(Default)]
pub struct Rec {
    pub events: Vec<String>,
    pub fail_at: Option<u64>,
    pub permanent: bool,
    pub calls: u64,
    pub failed: bool,
    /// announced and counted elements of the open sequences and maps
    pub open: Vec<(Option<usize>, usize)>,
    /// a length was announced that was not delivered
    pub broken: Option<String>,
}

impl Rec {
    fn ev(&mut self, s: impl FnOnce() -> String) -> Result<(), FaultError> {
        host(|| {
            sched::point();
            let n = self.calls;
            self.calls += 1;
            if self.fail_at == Some(n) || (self.failed && self.permanent) {
                if !self.failed {
                    sched::count(if self.permanent { "fault.serializer_error_permanent" } else { "fault.serializer_error_transient" });
                }
                self.failed = true;
                return Err(FaultError("simulated: serializer error".into()));
            }
            self.events.push(s());
            Ok(())
        })
    }
}

impl Rec {
    fn begin(&mut self, n: Option<usize>, s: &str) -> Result<(), FaultError> {
        self.ev(|| s.into())?;
        host(|| self.open.push((n, 0)));
        Ok(())
    }
    fn element(&mut self) {
        if let Some(o) = self.open.last_mut() {
            o.1 += 1;
        }
    }
    fn finish(&mut self, s: &str) -> Result<(), FaultError> {
        self.ev(|| s.into())?;
        if let Some((Some(n), m)) = self.open.pop() {
            if n != m {
                host(|| self.broken = Some(format!("{} elements announced, {} delivered", n, m)));
            }
        }
        Ok(())
    }
}

type R = Result<(), FaultError>;

macro_rules! prim {
    ($($f:ident $t:ty),*) => { $( fn $f(self, v: $t) -> R { self.ev(|| format!("{:?}", v)) } )* };
}

impl ser::Serializer for &mut Rec {
    type Ok = ();
    type Error = FaultError;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Self;
    type SerializeTupleVariant = Self;
    type SerializeMap = Self;
    type SerializeStruct = Self;
    type SerializeStructVariant = Self;

    prim!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64,
          serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_f32 f32,
          serialize_f64 f64);
    // a character and a string are the same to a JSON reader
    fn serialize_char(self, v: char) -> R {
        self.ev(|| format!("{:?}", v.to_string()))
    }
    fn serialize_str(self, v: &str) -> R {
        self.ev(|| format!("{:?}", v))
    }
    fn serialize_bytes(self, v: &[u8]) -> R {
        self.ev(|| format!("{:?}", v))
    }
    fn serialize_none(self) -> R {
        self.ev(|| "null".into())
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> R {
        v.serialize(self)
    }
    fn serialize_unit(self) -> R {
        self.ev(|| "null".into())
    }
    fn serialize_unit_struct(self, _: &'static str) -> R {
        self.ev(|| "null".into())
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> R {
        self.ev(|| format!("{:?}", v))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> R {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, v: &T) -> R {
        v.serialize(self)
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Self, FaultError> {
        self.begin(n, "[")?;
        Ok(self)
    }
    fn serialize_tuple(self, n: usize) -> Result<Self, FaultError> {
        self.serialize_seq(Some(n))
    }
    fn serialize_tuple_struct(self, _: &'static str, n: usize) -> Result<Self, FaultError> {
        self.serialize_seq(Some(n))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, n: usize) -> Result<Self, FaultError> {
        self.serialize_seq(Some(n))
    }
    fn serialize_map(self, n: Option<usize>) -> Result<Self, FaultError> {
        self.begin(n, "{")?;
        Ok(self)
    }
    fn serialize_struct(self, _: &'static str, n: usize) -> Result<Self, FaultError> {
        self.serialize_map(Some(n))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, n: usize) -> Result<Self, FaultError> {
        self.serialize_map(Some(n))
    }
}

macro_rules! seqs {
    ($($tr:ident $f:ident),*) => { $(
        impl ser::$tr for &mut Rec {
            type Ok = ();
            type Error = FaultError;
            fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> R { self.element(); v.serialize(&mut **self) }
            fn end(self) -> R { self.finish("]") }
        } )*
    };
}
seqs!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);

impl ser::SerializeMap for &mut Rec {
    type Ok = ();
    type Error = FaultError;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, v: &T) -> R {
        self.element();
        v.serialize(&mut **self)
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> R {
        v.serialize(&mut **self)
    }
    fn end(self) -> R {
        self.finish("}")
    }
}

macro_rules! structs {
    ($($tr:ident),*) => { $(
        impl ser::$tr for &mut Rec {
            type Ok = ();
            type Error = FaultError;
            fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> R {
                self.element();
                self.ev(|| format!("{:?}", k))?;
                v.serialize(&mut **self)
            }
            fn end(self) -> R { self.finish("}") }
        } )*
    };
}
structs!(SerializeStruct, SerializeStructVariant);
