//! A serializer that writes nothing and checks that the number of elements and fields
//! announced to the format is the number handed over.
use serde::ser::*;

#[derive(Debug)]
pub struct E(pub String);
impl std::fmt::Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for E {}
impl Error for E {
    fn custom<T: std::fmt::Display>(m: T) -> E {
        E(m.to_string())
    }
}
pub struct Count;
pub struct Comp {
    name: &'static str,
    want: Option<usize>,
    got: usize,
}
impl Comp {
    fn el<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        self.got += 1;
        v.serialize(Count)
    }
    fn fin(self) -> Result<(), E> {
        match self.want {
            Some(w) if w != self.got => Err(E(format!("{} announced {} elements and wrote {}", self.name, w, self.got))),
            _ => Ok(()),
        }
    }
}
macro_rules! leaf {
    ($($f:ident $t:ty),*) => { $(fn $f(self, _: $t) -> Result<(), E> { Ok(()) })* };
}
impl Serializer for Count {
    type Ok = ();
    type Error = E;
    type SerializeSeq = Comp;
    type SerializeTuple = Comp;
    type SerializeTupleStruct = Comp;
    type SerializeTupleVariant = Comp;
    type SerializeMap = Comp;
    type SerializeStruct = Comp;
    type SerializeStructVariant = Comp;
    leaf!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16,
          serialize_u32 u32, serialize_u64 u64, serialize_f32 f32, serialize_f64 f64, serialize_char char, serialize_str &str, serialize_bytes &[u8]);
    fn serialize_none(self) -> Result<(), E> {
        Ok(())
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<(), E> {
        v.serialize(Count)
    }
    fn serialize_unit(self) -> Result<(), E> {
        Ok(())
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), E> {
        Ok(())
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<(), E> {
        Ok(())
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<(), E> {
        v.serialize(Count)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, v: &T) -> Result<(), E> {
        v.serialize(Count)
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Comp, E> {
        Ok(Comp { name: "sequence", want: n, got: 0 })
    }
    fn serialize_tuple(self, n: usize) -> Result<Comp, E> {
        Ok(Comp { name: "tuple", want: Some(n), got: 0 })
    }
    fn serialize_tuple_struct(self, name: &'static str, n: usize) -> Result<Comp, E> {
        Ok(Comp { name, want: Some(n), got: 0 })
    }
    fn serialize_tuple_variant(self, name: &'static str, _: u32, _: &'static str, n: usize) -> Result<Comp, E> {
        Ok(Comp { name, want: Some(n), got: 0 })
    }
    fn serialize_map(self, n: Option<usize>) -> Result<Comp, E> {
        Ok(Comp { name: "map", want: n, got: 0 })
    }
    fn serialize_struct(self, name: &'static str, n: usize) -> Result<Comp, E> {
        Ok(Comp { name, want: Some(n), got: 0 })
    }
    fn serialize_struct_variant(self, name: &'static str, _: u32, _: &'static str, n: usize) -> Result<Comp, E> {
        Ok(Comp { name, want: Some(n), got: 0 })
    }
}
macro_rules! comp {
    ($($tr:ident $m:ident),*) => { $(impl $tr for Comp {
        type Ok = ();
        type Error = E;
        fn $m<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> { self.el(v) }
        fn end(self) -> Result<(), E> { self.fin() }
    })* };
}
comp!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
impl SerializeStruct for Comp {
    type Ok = ();
    type Error = E;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, _: &'static str, v: &T) -> Result<(), E> {
        self.el(v)
    }
    fn end(self) -> Result<(), E> {
        self.fin()
    }
}
impl SerializeStructVariant for Comp {
    type Ok = ();
    type Error = E;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, _: &'static str, v: &T) -> Result<(), E> {
        self.el(v)
    }
    fn end(self) -> Result<(), E> {
        self.fin()
    }
}
impl SerializeMap for Comp {
    type Ok = ();
    type Error = E;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        self.el(v)
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        v.serialize(Count)
    }
    fn end(self) -> Result<(), E> {
        self.fin()
    }
}
