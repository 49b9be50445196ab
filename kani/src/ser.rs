//! C22: values written to a list of tokens read back equal.
use crate::container::*;
use crate::nd::*;
use cavalier_contours::core::math::Vector2;
use cavalier_contours::polyline::*;
use serde::{de, ser, Deserialize, Serialize};

/// token (a plain struct, which the solver reads better than an enum)
#[derive(Copy, Clone)]
pub struct Tok {
    kind: u8,
    f: f64,
    u: u64,
    k: &'static str,
}
const F: u8 = 0;
const U: u8 = 1;
const B: u8 = 2;
const KEY: u8 = 3;
/// sequence or tuple, with the announced length
const SEQ: u8 = 4;
const MAP: u8 = 5;
const END: u8 = 6;
const NONE: Tok = Tok { kind: END, f: 0., u: 0, k: "" };
#[derive(Debug)]
pub struct E;
impl std::fmt::Display for E {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: std::fmt::Display>(_: T) -> E {
        E
    }
}
impl de::Error for E {
    fn custom<T: std::fmt::Display>(_: T) -> E {
        E
    }
    fn invalid_type(_: de::Unexpected, _: &dyn de::Expected) -> E {
        E
    }
    fn invalid_value(_: de::Unexpected, _: &dyn de::Expected) -> E {
        E
    }
    fn invalid_length(_: usize, _: &dyn de::Expected) -> E {
        E
    }
    fn unknown_field(_: &str, _: &'static [&'static str]) -> E {
        E
    }
    fn missing_field(_: &'static str) -> E {
        E
    }
    fn duplicate_field(_: &'static str) -> E {
        E
    }
}
const CAP: usize = 48;
pub struct Out {
    t: [Tok; CAP],
    n: usize,
    /// the elements written differ in number from the announcement
    bad: bool,
}
impl Out {
    fn new() -> Out {
        Out { t: [NONE; CAP], n: 0, bad: false }
    }
    fn put(&mut self, t: Tok) -> Result<(), E> {
        self.t[self.n] = t;
        self.n += 1;
        Ok(())
    }
}
pub struct Comp<'a> {
    o: &'a mut Out,
    want: usize,
    got: usize,
}
impl Comp<'_> {
    fn fin(self) -> Result<(), E> {
        if self.want != self.got {
            self.o.bad = true;
        }
        self.o.put(NONE)
    }
}
macro_rules! no {
    ($($n:ident($($t:ty),*) -> $r:ty;)*) => { $(fn $n(self, $(_: $t),*) -> Result<$r, E> { Err(E) })* };
}
type Never = ser::Impossible<(), E>;
impl<'a> ser::Serializer for &'a mut Out {
    type Ok = ();
    type Error = E;
    type SerializeSeq = Comp<'a>;
    type SerializeTuple = Comp<'a>;
    type SerializeTupleStruct = Never;
    type SerializeTupleVariant = Never;
    type SerializeMap = Never;
    type SerializeStruct = Comp<'a>;
    type SerializeStructVariant = Never;
    fn serialize_bool(self, v: bool) -> Result<(), E> {
        self.put(Tok { kind: B, u: v as u64, ..NONE })
    }
    fn serialize_u64(self, v: u64) -> Result<(), E> {
        self.put(Tok { kind: U, u: v, ..NONE })
    }
    fn serialize_f64(self, v: f64) -> Result<(), E> {
        self.put(Tok { kind: F, f: v, ..NONE })
    }
    fn serialize_seq(self, len: Option<usize>) -> Result<Comp<'a>, E> {
        let want = len.ok_or(E)?;
        self.put(Tok { kind: SEQ, u: want as u64, ..NONE })?;
        Ok(Comp { o: self, want, got: 0 })
    }
    fn serialize_tuple(self, want: usize) -> Result<Comp<'a>, E> {
        self.put(Tok { kind: SEQ, u: want as u64, ..NONE })?;
        Ok(Comp { o: self, want, got: 0 })
    }
    fn serialize_struct(self, _: &'static str, want: usize) -> Result<Comp<'a>, E> {
        self.put(Tok { kind: MAP, u: want as u64, ..NONE })?;
        Ok(Comp { o: self, want, got: 0 })
    }
    no! {
        serialize_i8(i8) -> (); serialize_i16(i16) -> (); serialize_i32(i32) -> (); serialize_i64(i64) -> ();
        serialize_u8(u8) -> (); serialize_u16(u16) -> (); serialize_u32(u32) -> (); serialize_f32(f32) -> ();
        serialize_char(char) -> (); serialize_str(&str) -> (); serialize_bytes(&[u8]) -> (); serialize_none() -> ();
        serialize_unit() -> (); serialize_unit_struct(&'static str) -> (); serialize_unit_variant(&'static str, u32, &'static str) -> ();
        serialize_tuple_struct(&'static str, usize) -> Never;
        serialize_tuple_variant(&'static str, u32, &'static str, usize) -> Never;
        serialize_map(Option<usize>) -> Never;
        serialize_struct_variant(&'static str, u32, &'static str, usize) -> Never;
    }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<(), E> {
        Err(E)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), E> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), E> {
        Err(E)
    }
}
impl ser::SerializeSeq for Comp<'_> {
    type Ok = ();
    type Error = E;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        self.got += 1;
        v.serialize(&mut *self.o)
    }
    fn end(self) -> Result<(), E> {
        self.fin()
    }
}
impl ser::SerializeTuple for Comp<'_> {
    type Ok = ();
    type Error = E;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        self.got += 1;
        v.serialize(&mut *self.o)
    }
    fn end(self) -> Result<(), E> {
        self.fin()
    }
}
impl ser::SerializeStruct for Comp<'_> {
    type Ok = ();
    type Error = E;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), E> {
        self.got += 1;
        self.o.put(Tok { kind: KEY, k, ..NONE })?;
        v.serialize(&mut *self.o)
    }
    fn end(self) -> Result<(), E> {
        self.fin()
    }
}
pub struct In<'a> {
    o: &'a Out,
    i: usize,
}
impl<'a> In<'a> {
    fn next(&mut self) -> Tok {
        let t = if self.i < self.o.n { self.o.t[self.i] } else { NONE };
        self.i += 1;
        t
    }
    fn peek_end(&self) -> bool {
        self.i >= self.o.n || self.o.t[self.i].kind == END
    }
}
struct Acc<'b, 'a>(&'b mut In<'a>, usize);
impl<'de> de::SeqAccess<'de> for Acc<'_, '_> {
    type Error = E;
    fn next_element_seed<T: de::DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        // a format that relies on the announced number of elements
        if self.1 == 0 || self.0.peek_end() {
            return Ok(None);
        }
        self.1 -= 1;
        s.deserialize(&mut *self.0).map(Some)
    }
}
impl<'de> de::MapAccess<'de> for Acc<'_, '_> {
    type Error = E;
    fn next_key_seed<K: de::DeserializeSeed<'de>>(&mut self, s: K) -> Result<Option<K::Value>, E> {
        if self.1 == 0 || self.0.peek_end() {
            return Ok(None);
        }
        self.1 -= 1;
        s.deserialize(&mut *self.0).map(Some)
    }
    fn next_value_seed<V: de::DeserializeSeed<'de>>(&mut self, s: V) -> Result<V::Value, E> {
        s.deserialize(&mut *self.0)
    }
}
impl<'de> de::Deserializer<'de> for &mut In<'_> {
    type Error = E;
    fn deserialize_any<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let t = self.next();
        match t.kind {
            F => v.visit_f64(t.f),
            U => v.visit_u64(t.u),
            B => v.visit_bool(t.u == 1),
            KEY => v.visit_str(t.k),
            SEQ => {
                let r = v.visit_seq(Acc(self, t.u as usize))?;
                self.i += 1;
                Ok(r)
            }
            MAP => {
                let r = v.visit_map(Acc(self, t.u as usize))?;
                self.i += 1;
                Ok(r)
            }
            _ => Err(E),
        }
    }
    fn deserialize_ignored_any<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let mut depth = 0;
        loop {
            let t = self.next();
            if t.kind == SEQ || t.kind == MAP {
                depth += 1;
            } else if t.kind == END {
                depth -= 1;
            }
            if depth <= 0 {
                break;
            }
        }
        v.visit_unit()
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier
    }
}
fn write<T: Serialize>(v: &T) -> Out {
    let mut o = Out::new();
    let r = v.serialize(&mut o);
    ck!(r.is_ok(), "serializing succeeds");
    ck!(!o.bad, "as many elements as announced");
    o
}
fn read<T: for<'a> Deserialize<'a>>(o: &Out) -> Option<T> {
    let mut i = In { o, i: 0 };
    let r = T::deserialize(&mut i).ok();
    ck!(r.is_some(), "deserializing succeeds");
    ck!(i.i == o.n, "everything is read");
    r
}
fn same_view(a: &PlineViewData<f64>, b: &PlineViewData<f64>) -> bool {
    a.start_index == b.start_index
        && a.end_index_offset == b.end_index_offset
        && eq(a.updated_start, b.updated_start)
        && a.updated_end_bulge.to_bits() == b.updated_end_bulge.to_bits()
        && a.end_point.x.to_bits() == b.end_point.x.to_bits()
        && a.end_point.y.to_bits() == b.end_point.y.to_bits()
        && a.inverted_direction == b.inverted_direction
}
/// bit i of k stands for a flag: a symbolic flag makes the solver follow the error paths
fn bit(k: usize, i: u32) -> bool {
    k >> i & 1 == 1
}
fn slice(k: usize) -> BooleanPlineSlice<f64> {
    BooleanPlineSlice { view_data: view(bit(k, 0)), source_is_pline1: bit(k, 1), overlapping: bit(k, 2) }
}
fn view(inverted_direction: bool) -> PlineViewData<f64> {
    PlineViewData {
        start_index: usize(),
        end_index_offset: usize(),
        updated_start: vx(),
        updated_end_bulge: f64(),
        end_point: Vector2 { x: f64(), y: f64() },
        inverted_direction,
    }
}
harnesses! {
    fn c22_vertex [24] {
        let v = vx();
        if let Some(r) = read::<PlineVertex<f64>>(&write(&v)) { ck!(eq(r, v), "vertex reads back"); }
    }
    fn c22_vector [24] {
        let v = Vector2 { x: f64(), y: f64() };
        if let Some(r) = read::<Vector2<f64>>(&write(&v)) {
            ck!(r.x.to_bits() == v.x.to_bits() && r.y.to_bits() == v.y.to_bits(), "vector reads back");
        }
    }
    fn c22_view [24] {
        cases(2, |k| {
            let v = view(bit(k, 0));
            if let Some(r) = read::<PlineViewData<f64>>(&write(&v)) { ck!(same_view(&r, &v), "view data reads back"); }
        });
    }
    fn c22_pline [24] {
        cases(6, |k| {
            let m = Model { closed: bit(k, 0), ..Model::of(vx, k >> 1) };
            if let Some(r) = read::<Polyline<f64>>(&write(&m.pline())) { ck!(m.same(&r), "polyline reads back"); }
        });
    }
    fn c22_slice [24] {
        cases(8, |k| {
            let v = slice(k);
            if let Some(r) = read::<BooleanPlineSlice<f64>>(&write(&v)) {
                ck!(same_view(&r.view_data, &v.view_data) && r.source_is_pline1 == v.source_is_pline1 && r.overlapping == v.overlapping, "slice reads back");
            }
        });
    }
    fn c22_result [24] {
        cases(2, |k| {
            let m = Model { closed: bit(k, 0), ..Model::of(vx, 0) };
            let v = BooleanResultPline { pline: m.pline(), subslices: Vec::new() };
            if let Some(r) = read::<BooleanResultPline<Polyline<f64>>>(&write(&v)) {
                ck!(m.same(&r.pline) && r.subslices.is_empty(), "result reads back");
            }
        });
    }
    fn c22_result_vertex [24] {
        let m = Model { closed: true, ..Model::of(vx, 1) };
        let v = BooleanResultPline { pline: m.pline(), subslices: Vec::new() };
        if let Some(r) = read::<BooleanResultPline<Polyline<f64>>>(&write(&v)) {
            ck!(m.same(&r.pline) && r.subslices.is_empty(), "result with a vertex reads back");
        }
    }
    // the slices of a result are written; a list of them that is none is not taken for an empty one
    fn c22_result_slice [24] {
        let m = Model { closed: true, ..Model::of(vx, 0) };
        let s = slice(5);
        let v = BooleanResultPline { pline: m.pline(), subslices: vec![s] };
        let (all, one) = (write(&v), write(&s));
        let v = BooleanResultPline { pline: m.pline(), subslices: Vec::new() };
        let mut o = write(&v);
        ck!(all.n == o.n + one.n, "the slice of a result is written");
        let mut i = o.n;
        while i > 0 && o.t[i - 1].kind != SEQ {
            o.t[i] = o.t[i - 1];
            i -= 1;
        }
        o.t[i] = Tok { kind: U, ..NONE };
        o.n += 1;
        ck!(i > 0, "a result has a list of slices");
        if i > 0 { o.t[i - 1].u = 1; }
        let mut i = In { o: &o, i: 0 };
        ck!(BooleanResultPline::<Polyline<f64>>::deserialize(&mut i).is_err(), "the slices of a result are read");
    }
}
