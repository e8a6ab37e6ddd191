//! Protobuf calls.  Scalars travel as their little-endian octets.
use crate::json::{bytes, pair, s, J};
use crate::obj;
use httlib_protos::{Decoder, DecoderLit, Encoder, EncoderError, EncoderLit, Typ};
use std::io::{self, Write};

/// The number of a wire type, by its name.
fn wire(t: Typ) -> i64 {
    match t {
        Typ::Varint => 0,
        Typ::Bit64 => 1,
        Typ::LengthDelimited => 2,
        Typ::Bit32 => 5,
        Typ::Unknown => -1,
    }
}

pub fn decode(d: &mut Decoder, buf: &mut Vec<u8>, got: &mut Vec<(u32, Typ, Vec<u8>)>, op: &J) -> J {
    let mut sentinels = vec![];
    match crate::world::prefix(op) {
        Some(p) => (0..p.len()).for_each(|i| sentinels.push((7u32 + i as u32, Typ::Bit64, vec![i as u8; 3]))),
        None => {
            if got.len() > 30 || got.iter().map(|f| f.2.len()).sum::<usize>() > 3000 {
                got.clear();
            }
            sentinels = std::mem::take(got);
        }
    }
    let mut dst = sentinels.clone();
    let r = d.decode(buf, &mut dst);
    let kept = dst.len() >= sentinels.len() && dst[..sentinels.len()] == sentinels[..];
    let new = if kept { &dst[sentinels.len()..] } else { &[][..] };
    let (res, kind, n) = match r {
        Ok(n) => ("ok", String::new(), n as i64),
        Err(e) => ("err", format!("{:?}", e), 0),
    };
    let f = new.iter().map(|(t, y, b)| J::A(vec![pair(*t), J::I(if wire(*y) == *y as i64 { wire(*y) } else { 100 + *y as i64 }), bytes(b)])).collect();
    if crate::world::prefix(op).is_none() {
        *got = dst;
    }
    obj! {"res" => s(res), "kind" => s(&kind), "n" => J::I(n), "fields" => J::A(f), "rest" => bytes(buf), "kept" => J::B(kept)}
}

/// A sink.  With a script, each write is answered by the next number in it:
/// k > 0 takes at most k octets, 0 takes nothing, -1 asks for another try, -2
/// fails; when the script is used up, everything is taken.  Without one it
/// takes `budget` octets in writes of at most `chunk`, asks for another try on
/// every `intr`-th call, and then fails (fail = 0) or takes nothing (fail = 1).
pub struct Sink {
    pub got: Vec<u8>,
    pub failed: bool,
    script: Option<Vec<i64>>,
    budget: usize,
    chunk: usize,
    intr: usize,
    fail: i64,
    kind: i64,
    calls: usize,
}
impl Sink {
    fn new(op: &J) -> Sink {
        let num = |k: &str| op.get(k).map(|x| x.int()).unwrap_or(0);
        Sink {
            got: vec![],
            failed: false,
            script: op.get("script").map(|x| x.arr().iter().map(|y| y.int()).collect()),
            budget: num("budget") as usize,
            chunk: num("chunk") as usize,
            intr: num("intr") as usize,
            fail: num("fail"),
            kind: num("kind"),
            calls: 0,
        }
    }
    /// Sinks fail in many ways; to the encoder they are one.
    fn error(&self) -> io::Error {
        use io::ErrorKind::*;
        match self.kind {
            1 => WouldBlock.into(),
            2 => TimedOut.into(),
            3 => BrokenPipe.into(),
            4 => UnexpectedEof.into(),
            5 => WriteZero.into(),
            6 => InvalidInput.into(),
            7 => io::Error::new(InvalidData, "no"),
            8 => io::Error::from_raw_os_error(28),
            9 => io::Error::from_raw_os_error(11),
            10 => PermissionDenied.into(),
            11 => NotFound.into(),
            12 => AlreadyExists.into(),
            13 => OutOfMemory.into(),
            14 => ConnectionReset.into(),
            15 => Unsupported.into(),
            _ => io::Error::new(Other, "full"),
        }
    }
    /// How many octets are taken, or 0, -1, -2 as in a script.
    fn answer(&mut self, want: usize) -> i64 {
        self.calls += 1;
        if let Some(sc) = &self.script {
            return sc.get(self.calls - 1).copied().unwrap_or(i64::MAX);
        }
        if self.intr > 0 && self.calls % self.intr == 0 {
            return -1;
        }
        let left = self.budget - self.got.len();
        if left == 0 {
            return if self.fail == 1 { 0 } else { -2 };
        }
        want.min(self.chunk).min(left) as i64
    }
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        match self.answer(b.len()) {
            -1 => Err(io::Error::new(io::ErrorKind::Interrupted, "again")),
            0 => {
                self.failed = true;
                Ok(0)
            }
            -2 => {
                self.failed = true;
                Err(self.error())
            }
            k => {
                let n = b.len().min(k as usize);
                self.got.extend_from_slice(&b[..n]);
                Ok(n)
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn n4(b: &[u8]) -> [u8; 4] {
    [b[0], b[1], b[2], b[3]]
}
fn n8(b: &[u8]) -> [u8; 8] {
    [b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]]
}

fn encode<W: Write + ?Sized>(op: &J, dst: &mut W) -> Result<usize, EncoderError> {
    let e = Encoder::default();
    let tag = op.at("tag").u32();
    let via = op.get("via").map(|v| v.int()).unwrap_or(0);
    let v = op.at("v");
    let one = |w: usize| -> Vec<u8> {
        let b = v.bytes();
        if b.len() != w {
            panic!("harness: value has {} octets, not {}", b.len(), w);
        }
        b
    };
    let many = || -> Vec<Vec<u8>> { v.arr().iter().map(|x| x.bytes()).collect() };
    // direct method, literal, conversion (for the types that have one)
    macro_rules! go {
        ($x:expr, $f:ident, $lit:ident) => {{
            let x = $x;
            if via == 1 { e.$f(&tag, &x, dst) } else { e.encode((&tag, EncoderLit::$lit(&x)), dst) }
        }};
        ($x:expr, $f:ident, $lit:ident, conv) => {{
            let x = $x;
            if via == 2 { e.encode((&tag, &x), dst) }
            else if via == 1 { e.$f(&tag, &x, dst) }
            else { e.encode((&tag, EncoderLit::$lit(&x)), dst) }
        }};
    }
    macro_rules! vec_of {
        ($b:ident, $t:expr) => { many().iter().map(|$b| $t).collect::<Vec<_>>() };
    }
    match op.at("t").str() {
        "bool" => go!(one(1)[0] != 0, encode_bool, Bool, conv),
        "int32" => go!(i32::from_le_bytes(n4(&one(4))), encode_int32, Int32, conv),
        "int64" => go!(i64::from_le_bytes(n8(&one(8))), encode_int64, Int64, conv),
        "uint32" => go!(u32::from_le_bytes(n4(&one(4))), encode_uint32, UInt32, conv),
        "uint64" => go!(u64::from_le_bytes(n8(&one(8))), encode_uint64, UInt64, conv),
        "float" => go!(f32::from_bits(u32::from_le_bytes(n4(&one(4)))), encode_float, Float, conv),
        "double" => go!(f64::from_bits(u64::from_le_bytes(n8(&one(8)))), encode_double, Double, conv),
        "sint32" => go!(i32::from_le_bytes(n4(&one(4))), encode_sint32, SInt32),
        "sint64" => go!(i64::from_le_bytes(n8(&one(8))), encode_sint64, SInt64),
        "fixed32" => go!(u32::from_le_bytes(n4(&one(4))), encode_fixed32, Fixed32),
        "fixed64" => go!(u64::from_le_bytes(n8(&one(8))), encode_fixed64, Fixed64),
        "sfixed32" => go!(i32::from_le_bytes(n4(&one(4))), encode_sfixed32, SFixed32),
        "sfixed64" => go!(i64::from_le_bytes(n8(&one(8))), encode_sfixed64, SFixed64),
        "bytes" => go!(v.bytes(), encode_bytes, Bytes, conv),
        "bool_vec" => go!(vec_of!(b, b[0] != 0), encode_bool_vec, BoolVec, conv),
        "int32_vec" => go!(vec_of!(b, i32::from_le_bytes(n4(b))), encode_int32_vec, Int32Vec, conv),
        "int64_vec" => go!(vec_of!(b, i64::from_le_bytes(n8(b))), encode_int64_vec, Int64Vec, conv),
        "uint32_vec" => go!(vec_of!(b, u32::from_le_bytes(n4(b))), encode_uint32_vec, UInt32Vec, conv),
        "uint64_vec" => go!(vec_of!(b, u64::from_le_bytes(n8(b))), encode_uint64_vec, UInt64Vec, conv),
        "float_vec" => go!(vec_of!(b, f32::from_bits(u32::from_le_bytes(n4(b)))), encode_float_vec, FloatVec, conv),
        "double_vec" => go!(vec_of!(b, f64::from_bits(u64::from_le_bytes(n8(b)))), encode_double_vec, DoubleVec, conv),
        "sint32_vec" => go!(vec_of!(b, i32::from_le_bytes(n4(b))), encode_sint32_vec, SInt32Vec),
        "sint64_vec" => go!(vec_of!(b, i64::from_le_bytes(n8(b))), encode_sint64_vec, SInt64Vec),
        "fixed32_vec" => go!(vec_of!(b, u32::from_le_bytes(n4(b))), encode_fixed32_vec, Fixed32Vec),
        "fixed64_vec" => go!(vec_of!(b, u64::from_le_bytes(n8(b))), encode_fixed64_vec, Fixed64Vec),
        "sfixed32_vec" => go!(vec_of!(b, i32::from_le_bytes(n4(b))), encode_sfixed32_vec, SFixed32Vec),
        "sfixed64_vec" => go!(vec_of!(b, i64::from_le_bytes(n8(b))), encode_sfixed64_vec, SFixed64Vec),
        x => panic!("harness: no type {}", x),
    }
}

fn outcome(r: Result<usize, EncoderError>) -> (String, i64) {
    match r {
        Ok(n) => ("ok".to_string(), n as i64),
        Err(e) => (format!("{:?}", e), 0),
    }
}

fn literal(t: &str, b: Vec<u8>) -> DecoderLit {
    match t {
        "bytes" => DecoderLit::Bytes(b),
        "bool" => DecoderLit::Bool(b),
        "bool_vec" => DecoderLit::BoolVec(b),
        "int32" => DecoderLit::Int32(b),
        "int32_vec" => DecoderLit::Int32Vec(b),
        "int64" => DecoderLit::Int64(b),
        "int64_vec" => DecoderLit::Int64Vec(b),
        "uint32" => DecoderLit::UInt32(b),
        "uint32_vec" => DecoderLit::UInt32Vec(b),
        "uint64" => DecoderLit::UInt64(b),
        "uint64_vec" => DecoderLit::UInt64Vec(b),
        "float" => DecoderLit::Float(b),
        "float_vec" => DecoderLit::FloatVec(b),
        "double" => DecoderLit::Double(b),
        "double_vec" => DecoderLit::DoubleVec(b),
        "sint32" => DecoderLit::SInt32(b),
        "sint32_vec" => DecoderLit::SInt32Vec(b),
        "sint64" => DecoderLit::SInt64(b),
        "sint64_vec" => DecoderLit::SInt64Vec(b),
        "fixed32" => DecoderLit::Fixed32(b),
        "fixed32_vec" => DecoderLit::Fixed32Vec(b),
        "fixed64" => DecoderLit::Fixed64(b),
        "fixed64_vec" => DecoderLit::Fixed64Vec(b),
        "sfixed32" => DecoderLit::SFixed32(b),
        "sfixed32_vec" => DecoderLit::SFixed32Vec(b),
        "sfixed64" => DecoderLit::SFixed64(b),
        "sfixed64_vec" => DecoderLit::SFixed64Vec(b),
        x => panic!("harness: no type {}", x),
    }
}

fn convert(l: DecoderLit, to: &str) -> J {
    macro_rules! num {
        ($t:ty) => {{
            let x: $t = l.into();
            bytes(&x.to_le_bytes())
        }};
    }
    macro_rules! nums {
        ($t:ty) => {{
            let x: Vec<$t> = l.into();
            J::A(x.iter().map(|y| bytes(&y.to_le_bytes())).collect())
        }};
    }
    match to {
        "bool" => {
            let x: bool = l.into();
            bytes(&[x as u8])
        }
        "bool_vec" => {
            let x: Vec<bool> = l.into();
            J::A(x.iter().map(|y| bytes(&[*y as u8])).collect())
        }
        "i32" => num!(i32),
        "i32_vec" => nums!(i32),
        "i64" => num!(i64),
        "i64_vec" => nums!(i64),
        "u32" => num!(u32),
        "u32_vec" => nums!(u32),
        "u64" => num!(u64),
        "u64_vec" => nums!(u64),
        "f32" => {
            let x: f32 = l.into();
            bytes(&x.to_bits().to_le_bytes())
        }
        "f32_vec" => {
            let x: Vec<f32> = l.into();
            J::A(x.iter().map(|y| bytes(&y.to_bits().to_le_bytes())).collect())
        }
        "f64" => {
            let x: f64 = l.into();
            bytes(&x.to_bits().to_le_bytes())
        }
        "f64_vec" => {
            let x: Vec<f64> = l.into();
            J::A(x.iter().map(|y| bytes(&y.to_bits().to_le_bytes())).collect())
        }
        "octets" => {
            let x: Vec<u8> = l.into();
            bytes(&x)
        }
        "string" => {
            let x: String = l.into();
            bytes(x.as_bytes())
        }
        x => panic!("harness: no target {}", x),
    }
}

/// Encodes into a sink that does other things whenever it is written to.
pub fn encode_into(op: &J, busy: &dyn Fn()) -> J {
    struct To<'a>(Vec<u8>, &'a dyn Fn());
    impl Write for To<'_> {
        fn write(&mut self, b: &[u8]) -> io::Result<usize> {
            (self.1)();
            self.0.extend_from_slice(b);
            Ok(b.len())
        }
        fn flush(&mut self) -> io::Result<()> {
            Ok(())
        }
    }
    let mut to = To(vec![], busy);
    let (res, n) = outcome(encode(op, &mut to));
    obj! {"res" => s(&res), "n" => J::I(n), "bytes" => bytes(&to.0), "kept" => J::B(true)}
}

pub fn exec(op: &J) -> J {
    match op.at("op").str() {
        "penc" => {
            let pre = crate::world::prefix(op).unwrap_or_default();
            let mut dst = pre.clone();
            let (res, n) = outcome(encode(op, &mut dst));
            let kept = dst.len() >= pre.len() && dst[..pre.len()] == pre[..];
            let new = if kept { &dst[pre.len()..] } else { &[][..] };
            obj! {"res" => s(&res), "n" => J::I(n), "bytes" => bytes(new), "kept" => J::B(kept)}
        }
        "pencf" => {
            let mut sink = Sink::new(op);
            let (res, n) = {
                let w: &mut dyn Write = &mut sink;
                outcome(encode(op, w))
            };
            obj! {"res" => s(&res), "n" => J::I(n), "bytes" => bytes(&sink.got), "failed" => J::B(sink.failed)}
        }
        "ptyp" => {
            let x = u64::from_le_bytes(n8(&op.at("x").bytes()));
            let t = <httlib_protos::Typ as std::convert::TryFrom<u64>>::try_from(x);
            obj! {"res" => s("ok"), "typ" => J::A(match t {
                Ok(t) => vec![J::I(wire(t)), J::I(t as i64)],
                Err(_) => vec![J::I(-1), J::I(-1)],
            })}
        }
        "lit" => obj! {"res" => s("ok"), "v" => convert(literal(op.at("t").str(), op.at("b").bytes()), op.at("to").str())},
        x => panic!("harness: no operation {}", x),
    }
}
