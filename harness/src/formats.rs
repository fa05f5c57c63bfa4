//! Serde round trips: a text format, a binary format, and the bare bytes.

use std::fmt;

use serde::de::{self, DeserializeOwned, Deserializer, Visitor};
use serde::ser::{self, Serialize, Serializer};

// ------------------------------------------------- bare bytes, no container

#[derive(Debug)]
pub struct E(String);
impl fmt::Display for E {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: fmt::Display>(m: T) -> Self {
        E(m.to_string())
    }
}
impl de::Error for E {
    fn custom<T: fmt::Display>(m: T) -> Self {
        E(m.to_string())
    }
}

struct Raw;
macro_rules! no {
    ($($f:ident($t:ty)),*) => { $(fn $f(self, _: $t) -> Result<Vec<u8>, E> { Err(E("not bytes".into())) })* };
}
impl Serializer for Raw {
    type Ok = Vec<u8>;
    type Error = E;
    type SerializeSeq = ser::Impossible<Vec<u8>, E>;
    type SerializeTuple = ser::Impossible<Vec<u8>, E>;
    type SerializeTupleStruct = ser::Impossible<Vec<u8>, E>;
    type SerializeTupleVariant = ser::Impossible<Vec<u8>, E>;
    type SerializeMap = ser::Impossible<Vec<u8>, E>;
    type SerializeStruct = ser::Impossible<Vec<u8>, E>;
    type SerializeStructVariant = ser::Impossible<Vec<u8>, E>;
    fn serialize_bytes(self, v: &[u8]) -> Result<Vec<u8>, E> {
        Ok(v.to_vec())
    }
    no!(serialize_bool(bool), serialize_i8(i8), serialize_i16(i16), serialize_i32(i32), serialize_i64(i64), serialize_u8(u8), serialize_u16(u16), serialize_u32(u32), serialize_u64(u64), serialize_f32(f32), serialize_f64(f64), serialize_char(char), serialize_str(&str), serialize_unit_struct(&'static str));
    fn serialize_none(self) -> Result<Vec<u8>, E> {
        Err(E("not bytes".into()))
    }
    fn serialize_some<T: Serialize + ?Sized>(self, _: &T) -> Result<Vec<u8>, E> {
        Err(E("not bytes".into()))
    }
    fn serialize_unit(self) -> Result<Vec<u8>, E> {
        Err(E("not bytes".into()))
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<Vec<u8>, E> {
        Err(E("not bytes".into()))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<Vec<u8>, E> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Vec<u8>, E> {
        Err(E("not bytes".into()))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, E> {
        Err(E("not bytes".into()))
    }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, E> {
        Err(E("not bytes".into()))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, E> {
        Err(E("not bytes".into()))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, E> {
        Err(E("not bytes".into()))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, E> {
        Err(E("not bytes".into()))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, E> {
        Err(E("not bytes".into()))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, E> {
        Err(E("not bytes".into()))
    }
}

/// The bytes a value hands to the format; `None` when it does not serialize
/// itself as bytes (then only the two real formats are checked).
pub fn raw<T: Serialize>(v: &T) -> Option<Vec<u8>> {
    v.serialize(Raw).ok()
}

pub struct De<'a>(pub &'a [u8], pub bool);
macro_rules! fwd {
    ($($f:ident),*) => { $(fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { self.deserialize_any(v) })* };
}
struct Seq<'a>(&'a [u8]);
impl<'de> de::SeqAccess<'de> for Seq<'_> {
    type Error = E;
    fn next_element_seed<T: de::DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, E> {
        match self.0.split_first() {
            None => Ok(None),
            Some((b, rest)) => {
                self.0 = rest;
                seed.deserialize(de::value::U8Deserializer::<E>::new(*b)).map(Some)
            }
        }
    }
}
impl<'de> Deserializer<'de> for De<'_> {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        if self.1 {
            v.visit_seq(Seq(self.0))
        } else {
            v.visit_bytes(self.0)
        }
    }
    fwd!(deserialize_bool, deserialize_i8, deserialize_i16, deserialize_i32, deserialize_i64, deserialize_u8, deserialize_u16, deserialize_u32, deserialize_u64, deserialize_f32, deserialize_f64, deserialize_char, deserialize_str, deserialize_string, deserialize_bytes, deserialize_byte_buf, deserialize_option, deserialize_unit, deserialize_seq, deserialize_map, deserialize_identifier, deserialize_ignored_any);
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> {
        self.deserialize_any(v)
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, E> {
        self.deserialize_any(v)
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, _: usize, v: V) -> Result<V::Value, E> {
        self.deserialize_any(v)
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, E> {
        self.deserialize_any(v)
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, E> {
        self.deserialize_any(v)
    }
}

/// The same insertion with another Lamport timestamp, made by editing its
/// serialized form. `None` if that form isn't what is expected here.
#[cfg(feature = "formats")]
pub fn with_lamport(obj: &cola::Insertion, ts: u64) -> Option<cola::Insertion> {
    use serde::Deserialize;
    let dbg = format!("{obj:?}");
    let field = "lamport_ts: ";
    let at = dbg.find(field)? + field.len();
    let old: u64 = dbg[at..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().ok()?;
    let want = dbg.replace(&format!("{field}{old}"), &format!("{field}{ts}"));
    let bytes = raw(obj)?;
    let mut var = Vec::new();
    let mut v = ts;
    while v >= 128 {
        var.push(v as u8 | 128);
        v >>= 7;
    }
    var.push(v as u8);
    (0..bytes.len()).filter(|i| bytes[*i] as u64 == old).find_map(|i| {
        let b = [&bytes[..i], &var, &bytes[i + 1..]].concat();
        let got = cola::Insertion::deserialize(De(&b, false)).ok()?;
        (format!("{got:?}") == want).then_some(got)
    })
}

// ----------------------------------------------------------------- the check

#[cfg(feature = "formats")]
mod check {
    use super::*;
    use crate::explore::Cfg;
    use crate::world::*;
    use cola::{EncodedReplica, Replica};
    use std::collections::HashSet;
    use std::sync::Mutex;

    static DONE: Mutex<Option<HashSet<Vec<u8>>>> = Mutex::new(None);

    fn cbor<T: Serialize>(v: &T) -> Result<Vec<u8>, String> {
        let mut out = Vec::new();
        ciborium::into_writer(v, &mut out).map_err(|e| format!("ciborium: {e}"))?;
        Ok(out)
    }

    fn from_cbor<T: DeserializeOwned>(b: &[u8]) -> Result<T, String> {
        ciborium::from_reader(b).map_err(|e| format!("ciborium: {e}"))
    }

    /// A few malformed documents around the bytes of a value: lists of bytes
    /// that claim to be longer or shorter than they are.
    fn false_lengths(bytes: &[u8]) -> Vec<Vec<u8>> {
        let n = bytes.len() as u64;
        let mut out = Vec::new();
        for len in [0, 1, n / 2, n.saturating_sub(1), n + 1, 1 << 16, 1 << 32, 1 << 46, 1 << 62, (1 << 63) - 1, 1 << 63, u64::MAX] {
            for major in [0x5b, 0x9b] {
                let mut d = vec![major];
                d.extend(len.to_be_bytes());
                for b in bytes {
                    if major == 0x9b && *b >= 24 {
                        d.push(24);
                    }
                    d.push(*b);
                }
                out.push(d);
            }
        }
        out
    }

    /// All ways of serializing and reading back a value.
    pub fn trips<T: Serialize + DeserializeOwned>(v: &T) -> Result<Vec<(&'static str, T)>, String> {
        trips_by(v, false)
    }

    fn trips_by<T: Serialize + DeserializeOwned>(v: &T, all: bool) -> Result<Vec<(&'static str, T)>, String> {
        let mut out = Vec::new();
        let j = serde_json::to_string(v).map_err(|e| format!("serde_json: {e}"))?;
        out.push(("JSON text", serde_json::from_str(&j).map_err(|e| format!("serde_json: {e}"))?));
        let j = serde_json::to_vec(v).map_err(|e| format!("serde_json: {e}"))?;
        out.push(("JSON bytes", serde_json::from_slice(&j).map_err(|e| format!("serde_json: {e}"))?));
        let c = bincode::config::standard();
        let b = bincode::serde::encode_to_vec(v, c).map_err(|e| format!("bincode: {e}"))?;
        out.push(("bincode", bincode::serde::decode_from_slice(&b, c).map_err(|e| format!("bincode: {e}"))?.0));
        let b = cbor(v)?;
        out.push(("CBOR", from_cbor(&b)?));
        if b.len() > 1 << 16 && !all {
            // the others are too slow for this
            return Ok(out);
        }
        let r = ron::to_string(v).map_err(|e| format!("ron: {e}"))?;
        out.push(("RON", ron::from_str(&r).map_err(|e| format!("ron: {e}"))?));
        if let Some(r) = raw(v) {
            out.push(("CBOR list", from_cbor(&cbor(&r)?)?));
            out.push(("bytes", T::deserialize(De(&r, false)).map_err(|e| format!("bytes: {e}"))?));
            out.push(("byte sequence", T::deserialize(De(&r, true)).map_err(|e| format!("byte sequence: {e}"))?));
        }
        Ok(out)
    }

    /// A (large) encoding by way of all formats.
    pub fn encoded_everywhere(e: &EncodedReplica) -> Vec<(&'static str, Result<Vec<u8>, String>)> {
        called();
        let owned: EncodedReplica<'static> = e.to_static();
        match guard(|| trips_by(&owned, true)) {
            Err(e) => vec![("serialization", Err(format!("a panic: {e}")))],
            Ok(Err(e)) => vec![("serialization", Err(e))],
            Ok(Ok(v)) => v.into_iter().map(|(f, g)| (f, Ok(g.as_bytes().to_vec()))).collect(),
        }
    }

    fn same<T: Serialize + DeserializeOwned + PartialEq + fmt::Debug>(what: &str, v: &T, ctx: &mut Ctx, truncate: bool) -> Vec<T> {
        called();
        let got = match guard(|| trips(v)) {
            Err(e) => {
                ctx.flag(C09, format!("{what} {v:?}: serializing and deserializing panics: {e}"));
                return vec![];
            }
            Ok(Err(e)) => {
                ctx.flag(C09, format!("{what} {v:?}: serializing and deserializing fails: {e}"));
                return vec![];
            }
            Ok(Ok(g)) => g,
        };
        for (f, g) in &got {
            if g != v {
                ctx.flag(C09, format!("{what} {v:?} becomes {g:?} through {f}"));
                return vec![];
            }
        }
        if let (true, Some(bytes)) = (truncate, raw(v)) {
            let new = DONE.lock().unwrap().get_or_insert_with(HashSet::new).insert(bytes.clone());
            if new {
                for n in 0..bytes.len() {
                    for seq in [false, true] {
                        called();
                        match guard(|| T::deserialize(De(&bytes[..n], seq)).map(|_| ())) {
                            Ok(Err(_)) => {}
                            Ok(Ok(())) => {
                                ctx.flag(C09, format!("{what} {v:?}: the first {n} of {} bytes deserialize without error", bytes.len()));
                                return vec![];
                            }
                            Err(e) => {
                                ctx.flag(C09, format!("{what} {v:?}: deserializing the first {n} of {} bytes panics: {e}", bytes.len()));
                                return vec![];
                            }
                        }
                    }
                }
                // one byte altered: an error or another value, never a panic
                let mut d = bytes.clone();
                for i in 0..bytes.len() {
                    for x in 0..=255u8 {
                        d[i] = x;
                        called();
                        if let Err(e) = guard(|| T::deserialize(De(&d, false)).map(|_| ())) {
                            ctx.flag(C09, format!("{what} {v:?}: deserializing with byte {i} set to {x} panics: {e}"));
                            return vec![];
                        }
                    }
                    d[i] = bytes[i];
                }
                // the documents of other formats, cut off or altered
                let lying = false_lengths(&bytes);
                for d in &lying {
                    called();
                    if let Err(e) = guard(|| from_cbor::<T>(d).map(|_| ())) {
                        ctx.flag(C09, format!("{what} {v:?}: deserializing the malformed CBOR {d:x?} panics: {e}"));
                        return vec![];
                    }
                }
                let (Ok(c), Ok(l), Ok(j)) = (cbor(v), cbor(&bytes), serde_json::to_vec(v)) else { return vec![] };
                type Read<T> = fn(&[u8]) -> Result<T, String>;
                let json: Read<T> = |b| serde_json::from_slice(b).map_err(|e| e.to_string());
                for (f, doc, read) in [("CBOR", &c, from_cbor::<T> as Read<T>), ("CBOR", &l, from_cbor::<T>), ("JSON", &j, json)] {
                    for n in 0..doc.len() {
                        called();
                        match guard(|| read(&doc[..n]).map(|_| ())) {
                            Ok(Err(_)) => {}
                            Ok(Ok(())) => {
                                ctx.flag(C09, format!("{what} {v:?}: the first {n} of {} bytes of {f} deserialize without error", doc.len()));
                                return vec![];
                            }
                            Err(e) => {
                                ctx.flag(C09, format!("{what} {v:?}: deserializing the first {n} of {} bytes of {f} panics: {e}", doc.len()));
                                return vec![];
                            }
                        }
                    }
                    let mut d = doc.clone();
                    for i in 0..doc.len() {
                        for x in [0, 1, 0x1f, 0x5f, 0x7f, 0x80, 0x9a, 0xff, doc[i] ^ 1, doc[i] ^ 0x80, doc[i].wrapping_add(1), b'0', b'9', b'-', b',', b'"', b'[', b'.'] {
                            d[i] = x;
                            called();
                            if let Err(e) = guard(|| read(&d).map(|_| ())) {
                                ctx.flag(C09, format!("{what} {v:?}: deserializing {f} with byte {i} set to {x} panics: {e}"));
                                return vec![];
                            }
                        }
                        d[i] = doc[i];
                    }
                }
            }
        }
        got.into_iter().map(|x| x.1).collect()
    }

    pub fn c09(cfg: &Cfg, w: &World, p: usize, peer: &Peer, ctx: &mut Ctx) {
        // all edits not yet received here behave alike after a round trip
        for o in &w.ops {
            match &o.kind {
                Kind::Ins { obj, .. } => {
                    let copies = same("insertion", obj, ctx, true);
                    same("text", obj.text(), ctx, true);
                    if peer.recv & o.mask() != 0 {
                        continue;
                    }
                    for c in copies {
                        let (mut a, mut b) = (peer.rep.clone(), peer.rep.clone());
                        let x = guard(|| a.integrate_insertion(obj));
                        let y = guard(|| b.integrate_insertion(&c));
                        if x != y || c.text() != obj.text() || c.inserted_by() != obj.inserted_by() {
                            return ctx.flag(C09 | C14, format!("peer {p}: insertion {obj:?} integrates as {x:?}, after a round trip as {y:?}"));
                        }
                    }
                }
                Kind::Del { obj, .. } => {
                    let copies = same("deletion", obj, ctx, true);
                    if peer.recv & o.mask() != 0 {
                        continue;
                    }
                    for c in copies {
                        let (mut a, mut b) = (peer.rep.clone(), peer.rep.clone());
                        let x = guard(|| a.integrate_deletion(obj));
                        let y = guard(|| b.integrate_deletion(&c));
                        if x != y || c.deleted_by() != obj.deleted_by() {
                            return ctx.flag(C09 | C14, format!("peer {p}: deletion {obj:?} integrates as {x:?}, after a round trip as {y:?}"));
                        }
                    }
                }
            }
            if !ctx.viols.is_empty() {
                return;
            }
        }
        for set in &w.anchors {
            for it in &set.items {
                for c in same("anchor", &it.anchor, ctx, true) {
                    let x = guard(|| peer.rep.resolve_anchor(it.anchor));
                    let y = guard(|| peer.rep.resolve_anchor(c));
                    if x.clone().ok() != y.clone().ok() {
                        return ctx.flag(C09 | C11, format!("peer {p}: anchor {:?} resolves to {x:?}, after a round trip to {y:?}", it.anchor));
                    }
                }
                if !ctx.viols.is_empty() {
                    return;
                }
            }
        }
        // no-op edits
        let mut r = peer.rep.clone();
        let _ = same("empty insertion", &r.inserted(0, 0), ctx, true);
        let _ = same("empty deletion", &r.deleted(0..0), ctx, true);
        // the encoded replica itself
        if peer.nops > 0 {
            let enc = match guard(|| peer.rep.encode()) {
                Ok(e) => e,
                Err(e) => return ctx.flag(C09, format!("peer {p}: encode panicked: {e}")),
            };
            let owned: EncodedReplica<'static> = enc.to_static();
            called();
            match guard(|| trips(&owned)) {
                Ok(Ok(v)) => {
                    for (f, g) in v {
                        if g != owned {
                            return ctx.flag(C09, format!("the encoding of peer {p} changes through {f}"));
                        }
                        let id = *cfg.join_ids.first().unwrap_or(&0xF00D);
                        match guard(|| Replica::decode(id, &g)) {
                            Ok(Ok(d)) if d.len() == peer.rep.len() => {}
                            _ => return ctx.flag(C09, format!("the encoding of peer {p} cannot be decoded after going through {f}")),
                        }
                    }
                }
                e => ctx.flag(C09, format!("serializing the encoding of peer {p} fails: {:?}", e.map(|r| r.err()))),
            }
        }
    }

    /// What a deserialized edit says about its author and its text.
    pub fn c14(_: &Cfg, w: &World, p: usize, peer: &Peer, ctx: &mut Ctx) {
        for o in &w.ops {
            match &o.kind {
                Kind::Ins { obj, .. } => {
                    let Ok(Ok(copies)) = guard(|| trips(obj)) else { return };
                    for (f, c) in copies {
                        called();
                        if c.inserted_by() != obj.inserted_by() || c.text().inserted_by() != obj.inserted_by() || c.text().temporal_range() != obj.text().temporal_range() {
                            return ctx.flag(C14, format!("insertion {obj:?}, text {:?}, becomes {c:?}, text {:?}, through {f}", obj.text(), c.text()));
                        }
                        if peer.recv & o.mask() != 0 {
                            continue;
                        }
                        // received in place of the original, and drained from
                        // a decoded replica
                        let Ok(Ok(mut d)) = guard(|| {
                            let mut r = peer.rep.clone();
                            let _ = r.integrate_insertion(&c);
                            Replica::decode(0xF00D_F00D, &r.encode())
                        }) else {
                            continue;
                        };
                        let got: Vec<_> = match guard(|| {
                            for e in &w.ops {
                                if peer.recv & e.mask() != 0 || e.bit == o.bit {
                                    continue;
                                }
                                match &e.kind {
                                    Kind::Ins { obj, .. } => drop(d.integrate_insertion(obj)),
                                    Kind::Del { obj, .. } => drop(d.integrate_deletion(obj)),
                                }
                            }
                            d.backlogged_insertions().map(|x| x.0).collect()
                        }) {
                            Ok(g) => g,
                            Err(_) => continue,
                        };
                        for t in got {
                            let known = w.ops.iter().any(|e| matches!(&e.kind, Kind::Ins { obj, .. } if obj.inserted_by() == t.inserted_by() && obj.text().temporal_range() == t.temporal_range()));
                            if !known {
                                return ctx.flag(C14, format!("peer {p}: the backlog of a decoded copy yields the text {t:?}, which nobody inserted"));
                            }
                        }
                    }
                    let Ok(Ok(copies)) = guard(|| trips(obj.text())) else { return };
                    for (f, t) in copies {
                        if t.inserted_by() != obj.inserted_by() || t.temporal_range() != obj.text().temporal_range() {
                            return ctx.flag(C14, format!("text {:?} becomes {t:?} through {f}", obj.text()));
                        }
                    }
                }
                Kind::Del { obj, .. } => {
                    let Ok(Ok(copies)) = guard(|| trips(obj)) else { return };
                    for (f, c) in copies {
                        called();
                        if c.deleted_by() != obj.deleted_by() {
                            return ctx.flag(C14, format!("deletion {obj:?} becomes {c:?} through {f}"));
                        }
                    }
                }
            }
        }
    }

    /// Anchors sent over a wire, and resolved by copies of replicas.
    pub fn c11(cfg: &Cfg, w: &World, p: usize, peer: &Peer, ctx: &mut Ctx) {
        let id = *cfg.join_ids.first().unwrap_or(&0xF00D);
        let mut copies = vec![("clone", peer.rep.clone())];
        if let Ok(f) = guard(|| peer.rep.fork(id)) {
            copies.push(("fork", f));
        }
        if let Ok(Ok(d)) = guard(|| Replica::decode(id, &EncodedReplica::from_bytes(peer.rep.encode().as_bytes()))) {
            copies.push(("decoded copy", d));
        }
        for set in &w.anchors {
            for it in &set.items {
                called();
                let want = guard(|| peer.rep.resolve_anchor(it.anchor));
                for (what, c) in &copies {
                    let got = guard(|| c.resolve_anchor(it.anchor));
                    if got.clone().ok() != want.clone().ok() {
                        return ctx.flag(C11, format!("anchor {:?} resolves to {want:?} at peer {p} and to {got:?} at a {what} of it", it.anchor));
                    }
                }
                let trips = match guard(|| trips(&it.anchor)) {
                    Ok(Ok(t)) => t,
                    e => return ctx.flag(C11, format!("anchor {:?} cannot be sent over a wire: {:?}", it.anchor, e.map(|r| r.err()))),
                };
                for (f, a) in trips {
                    let got = guard(|| peer.rep.resolve_anchor(a));
                    if got.clone().ok() != want.clone().ok() {
                        return ctx.flag(C11, format!("anchor {:?} resolves to {want:?} at peer {p}, after going through {f} to {got:?}", it.anchor));
                    }
                }
            }
        }
    }
}
#[cfg(feature = "formats")]
pub use check::{c09, c11, c14, encoded_everywhere, trips};
