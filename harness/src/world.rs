//! Executes one recorded call on the real libraries and reports what a caller
//! observes.  Nothing here knows what the right answer is.
use crate::json::{bytes, pair, s, J};
use crate::obj;
use std::panic::{catch_unwind, AssertUnwindSafe};

use httlib_hpack::table::Table;
use httlib_hpack::{Decoder, Encoder};

pub struct World {
    enc: Encoder<'static>,
    dec: Decoder<'static>,
    tbl: Table<'static>,
    pub wire: Vec<u8>,
    pub buf: Vec<u8>,
    pdec: httlib_protos::Decoder,
    pub pbuf: Vec<u8>,
    /// What earlier calls have written, where the next ones go on.
    sent: Vec<u8>,
    got: Vec<(Vec<u8>, Vec<u8>, u8)>,
    pgot: Vec<(u32, httlib_protos::Typ, Vec<u8>)>,
    pub dead: bool,
    named: bool,
    /// Which instance this is, and the others.
    pub who: i64,
    others: Vec<World>,
}

/// Most entries a probe reads back.
const PROBE_MAX: u32 = 2000;

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}

/// What is in an output before a call: nothing, some octets, given ones.
/// None: what earlier calls have written.
pub fn prefix(op: &J) -> Option<Vec<u8>> {
    match op.get("pre") {
        Some(J::A(a)) => Some(a.iter().map(|x| x.int() as u8).collect()),
        Some(k) if k.int() >= 0 => Some((0..k.int()).map(|i| (0xa5 ^ (i * 7)) as u8).collect()),
        _ => None,
    }
}

/// Splits what a call left in `dst` into "the old content is still there" and
/// what was appended.
fn appended(dst: &[u8], pre: &[u8]) -> (bool, Vec<u8>) {
    if dst.len() >= pre.len() && &dst[..pre.len()] == pre {
        (true, dst[pre.len()..].to_vec())
    } else {
        (false, vec![])
    }
}

fn fields(f: &[(Vec<u8>, Vec<u8>, u8)]) -> J {
    J::A(f.iter().map(|(n, v, g)| J::A(vec![bytes(n), bytes(v), J::I(told(*g))])).collect())
}

/// A decoded field's flag, read with the names a caller has for it.
fn told(g: u8) -> i64 {
    match g {
        0 => 0,
        Decoder::WITH_INDEXING => 4,
        Decoder::NEVER_INDEXED => 8,
        g => 256 + g as i64,
    }
}

fn entries<'x>(it: impl Iterator<Item = (&'x [u8], &'x [u8])>) -> J {
    J::A(it.take(PROBE_MAX as usize + 100).map(|(n, v)| J::A(vec![bytes(n), bytes(v)])).collect())
}

impl World {
    pub fn new() -> World {
        World::of(Encoder::default(), Decoder::default(), Table::default())
    }

    fn of(enc: Encoder<'static>, dec: Decoder<'static>, tbl: Table<'static>) -> World {
        World {
            enc,
            dec,
            tbl,
            wire: vec![],
            buf: vec![],
            pdec: httlib_protos::Decoder::default(),
            pbuf: vec![],
            sent: vec![],
            got: vec![],
            pgot: vec![],
            dead: false,
            named: false,
            who: 1,
            others: vec![],
        }
    }

    fn fresh(op: &J) -> World {
        if op.get("default").map(|d| d.int() == 1).unwrap_or(false) {
            World::of(Encoder::default(), Decoder::default(), Table::default())
        } else {
            let (e, d) = (op.at("emax").u32(), op.at("dmax").u32());
            World::of(Encoder::with_dynamic_size(e), Decoder::with_dynamic_size(d), Table::with_dynamic_size(e))
        }
    }

    pub fn exec(&mut self, op: &J) -> J {
        let r = catch_unwind(AssertUnwindSafe(|| self.exec0(op)));
        match r {
            Ok(r) => r,
            Err(p) => {
                let text = match p.downcast_ref::<String>() {
                    Some(t) => t.clone(),
                    None => p.downcast_ref::<&str>().unwrap_or(&"?").to_string(),
                };
                if text.starts_with("harness:") {
                    eprintln!("{} in {}", text, op.text());
                    std::process::exit(2);
                }
                self.dead = true;
                obj! {"res" => s("panic"), "why" => s(&text)}
            }
        }
    }

    /// Flags as a caller writes them: as numbers, or with their names.
    fn asked(&mut self, f: u8) -> u8 {
        self.named = !self.named;
        if !self.named {
            return f;
        }
        let names = [Encoder::HUFFMAN_NAME, Encoder::HUFFMAN_VALUE, Encoder::WITH_INDEXING,
                     Encoder::NEVER_INDEXED, Encoder::BEST_FORMAT];
        (0..5).filter(|k| f >> k & 1 == 1).fold(f & 0xe0, |g, k| g | names[k])
    }

    /// The output of an encode call and a copy of what is in it.
    fn target(&mut self, op: &J) -> (Vec<u8>, Vec<u8>) {
        let dst = match prefix(op) {
            Some(p) => p,
            None => {
                if self.sent.len() > 3000 {
                    self.sent.clear();
                }
                std::mem::take(&mut self.sent)
            }
        };
        (dst.clone(), dst)
    }

    fn emitted(&mut self, r: Result<(), httlib_hpack::EncoderError>, op: &J, pre: &[u8], dst: Vec<u8>) -> J {
        let (kept, new) = appended(&dst, pre);
        self.wire.extend_from_slice(&new);
        if prefix(op).is_none() {
            self.sent = dst;
        }
        let res = match r {
            Ok(()) => "ok".to_string(),
            Err(e) => format!("{:?}", e),
        };
        obj! {"res" => s(&res), "bytes" => bytes(&new), "kept" => J::B(kept)}
    }

    fn decoded(&mut self, op: &J, exact: bool) -> J {
        let mut dst: Vec<(Vec<u8>, Vec<u8>, u8)>;
        let mut sentinels = vec![];
        if exact {
            dst = Vec::with_capacity(op.at("c").int() as usize);
            if dst.capacity() != op.at("c").int() as usize {
                panic!("harness: capacity is not what was asked for");
            }
        } else {
            match prefix(op) {
                Some(p) => (0..p.len()).for_each(|i| sentinels.push((vec![i as u8, 1], vec![2, i as u8], 0xf0))),
                None => {
                    if self.got.len() > 30 || self.got.iter().map(|f| f.0.len() + f.1.len()).sum::<usize>() > 3000 {
                        self.got.clear();
                    }
                    sentinels = std::mem::take(&mut self.got);
                }
            }
            dst = sentinels.clone();
        }
        let r = if exact {
            self.dec.decode_exact(&mut self.buf, &mut dst)
        } else {
            self.dec.decode(&mut self.buf, &mut dst)
        };
        let kept = dst.len() >= sentinels.len() && dst[..sentinels.len()] == sentinels[..];
        let new = if kept { &dst[sentinels.len()..] } else { &[][..] };
        let (res, kind, n) = match r {
            Ok(n) => ("ok", String::new(), n as i64),
            Err(e) => ("err", format!("{:?}", e), 0),
        };
        let o = obj! {"res" => s(res), "kind" => s(&kind), "n" => J::I(n), "fields" => fields(new),
                      "rest" => bytes(&self.buf), "kept" => J::B(kept)};
        if !exact && prefix(op).is_none() {
            self.got = dst;
        }
        o
    }

    /// Reads both tables back through public calls that do not change them.
    pub fn probe(&mut self, cand: &[J]) -> J {
        let mut dtab = vec![];
        for k in 0..PROBE_MAX {
            let mut b = vec![];
            int_octets(62 + k, 0x80, 7, &mut b);
            let mut dst = Vec::with_capacity(1);
            match self.dec.decode_exact(&mut b, &mut dst) {
                Ok(_) if dst.len() == 1 => dtab.push(J::A(vec![bytes(&dst[0].0), bytes(&dst[0].1)])),
                _ => break,
            }
        }
        let mut elen = 0;
        for k in 0..PROBE_MAX {
            if self.enc.encode_indexed(62 + k, &mut vec![]).is_err() {
                break;
            }
            elen += 1;
        }
        let mut efind = vec![];
        for c in cand {
            let (n, v) = (c.arr()[0].bytes(), c.arr()[1].bytes());
            let mut dst = vec![];
            let ok = self.enc.encode((n, v, Encoder::BEST_FORMAT), &mut dst).is_ok();
            efind.push(if ok { bytes(&dst) } else { J::A(vec![]) });
        }
        obj! {"res" => s("ok"), "dtab" => J::A(dtab), "dmax" => pair(self.dec.max_dynamic_size()),
              "elen" => J::I(elen), "emax" => pair(self.enc.max_dynamic_size()), "efind" => J::A(efind)}
    }

    pub fn table_stat(&self) -> J {
        obj! {"res" => s("ok"), "len" => J::I(self.tbl.len() as i64), "dlen" => J::I(self.tbl.dynamic_len() as i64),
              "size" => J::I(self.tbl.dynamic_size() as i64), "max" => pair(self.tbl.max_dynamic_size())}
    }

    /// The dynamic entries, newest first, as iteration shows them.
    pub fn table_dyn(&self) -> J {
        let t: &Table<'static> = &self.tbl;
        // SAFETY of lifetimes: iter() borrows for the table's own lifetime
        // parameter, which is covariant.
        let r = entries(iter_of(t).skip(61));
        r
    }

    fn exec0(&mut self, op: &J) -> J {
        let name = op.at("op").str().to_string();
        match name.as_str() {
            "new" => {
                *self = World::fresh(op);
                obj! {"res" => s("ok")}
            }
            "renew" => {
                let (who, others) = (self.who, std::mem::take(&mut self.others));
                *self = World::fresh(op);
                self.who = who;
                self.others = others;
                obj! {"res" => s("ok")}
            }
            "switch" | "pswitch" => {
                let to = op.at("to").int();
                let mut others = std::mem::take(&mut self.others);
                let next = match others.iter().position(|w| w.who == to) {
                    Some(p) => others.swap_remove(p),
                    None if name == "pswitch" => World::new(),
                    None => World::fresh(op),
                };
                others.push(std::mem::replace(self, next));
                self.who = to;
                self.others = others;
                obj! {"res" => s("ok")}
            }
            "enc_lit" => {
                let (pre, mut dst) = self.target(op);
                let (n, v, f) = (op.at("n").bytes(), op.at("v").bytes(), self.asked(op.at("f").int() as u8));
                let r = self.enc.encode((n, v, f), &mut dst);
                self.emitted(r, op, &pre, dst)
            }
            "enc_plain" => {
                let (pre, mut dst) = self.target(op);
                let (n, v, f) = (op.at("n").bytes(), op.at("v").bytes(), self.asked(op.at("f").int() as u8));
                let r = self.enc.encode_literal(n, v, f, &mut dst);
                self.emitted(r, op, &pre, dst)
            }
            "enc_idx" => {
                let (pre, mut dst) = self.target(op);
                let i = op.at("i").u32();
                let r = if via(op) == 1 { self.enc.encode_indexed(i, &mut dst) } else { self.enc.encode(i, &mut dst) };
                self.emitted(r, op, &pre, dst)
            }
            "enc_idxname" => {
                let (pre, mut dst) = self.target(op);
                let (i, v, f) = (op.at("i").u32(), op.at("v").bytes(), self.asked(op.at("f").int() as u8));
                let r = if via(op) == 1 {
                    self.enc.encode_indexed_name(i, v, f, &mut dst)
                } else {
                    self.enc.encode((i, v, f), &mut dst)
                };
                self.emitted(r, op, &pre, dst)
            }
            "resize" => {
                let (pre, mut dst) = self.target(op);
                let r = self.enc.update_max_dynamic_size(op.at("s").u32(), &mut dst);
                self.emitted(r, op, &pre, dst)
            }
            "set_limit" => {
                self.dec.set_max_dynamic_size(op.at("s").u32());
                obj! {"res" => s("ok")}
            }
            "deliver" => {
                let k = op.at("k").int() as usize;
                let k = k.min(self.wire.len());
                self.buf.extend(self.wire.drain(..k));
                obj! {"res" => s("ok")}
            }
            "flush" => {
                let w = std::mem::take(&mut self.wire);
                self.buf.extend(w);
                obj! {"res" => s("ok")}
            }
            "inject" => {
                self.buf.extend(op.at("b").bytes());
                obj! {"res" => s("ok")}
            }
            "discard" => {
                self.buf.clear();
                obj! {"res" => s("ok")}
            }
            "decode" => self.decoded(op, false),
            "decode_exact" => self.decoded(op, true),
            "probe" => self.probe(op.at("cand").arr()),
            "t_insert" => {
                self.tbl.insert(op.at("n").bytes(), op.at("v").bytes());
                obj! {"res" => s("ok")}
            }
            "t_fill" => {
                for x in 0..op.at("k").int() {
                    self.tbl.insert(vec![(x % 256) as u8, (x / 256 % 256) as u8], vec![]);
                }
                obj! {"res" => s("ok")}
            }
            "t_update" => {
                self.tbl.update_max_dynamic_size(op.at("s").u32());
                obj! {"res" => s("ok")}
            }
            "t_get" => {
                let e = match self.tbl.get(op.at("i").u32()) {
                    Some((n, v)) => vec![J::A(vec![bytes(n), bytes(v)])],
                    None => vec![],
                };
                obj! {"res" => s("ok"), "entry" => J::A(e)}
            }
            "t_find" => {
                let (i, f) = self.tbl.find(&op.at("n").bytes(), &op.at("v").bytes()).unwrap_or((0, false));
                obj! {"res" => s("ok"), "index" => J::I(i as i64), "full" => J::B(f)}
            }
            "t_stat" => self.table_stat(),
            "t_iter" => {
                let way = op.get("way").map(|v| v.int()).unwrap_or(0);
                obj! {"res" => s("ok"), "entries" => J::A(listed(&self.tbl, way))}
            }
            "t_dyn" => obj! {"res" => s("ok"), "entries" => self.table_dyn()},
            n if n.starts_with('h') => crate::huff::exec(op),
            "pnew" | "prenew" => {
                if name == "pnew" {
                    self.who = 1;
                    self.others.clear();
                }
                self.pdec = httlib_protos::Decoder::default();
                self.pbuf.clear();
                self.pgot.clear();
                obj! {"res" => s("ok")}
            }
            "pfeed" => {
                self.pbuf.extend(op.at("b").bytes());
                obj! {"res" => s("ok")}
            }
            "pdiscard" => {
                self.pbuf.clear();
                obj! {"res" => s("ok")}
            }
            "nest" => nested(op),
            "pdec" => crate::protos::decode(&mut self.pdec, &mut self.pbuf, &mut self.pgot, op),
            _ => crate::protos::exec(op),
        }
    }
}

/// A call that makes others before it is done, and all of them made one after
/// the other.
fn nested(op: &J) -> J {
    use std::cell::RefCell;
    let (outer, inner) = (op.at("outer"), op.at("inner").arr());
    let plain = |o: J| if o.at("res").str() == "panic" { obj! {"res" => s("panic")} } else { o };
    let list = || -> J {
        let mut w = World::new();
        J::A(inner.iter().map(|o| plain(w.exec(o))).collect())
    };
    let apart = (plain(World::new().exec(outer)), list());
    let seen: RefCell<Vec<J>> = RefCell::new(vec![]);
    let busy = || {
        // often enough
        if seen.borrow().len() < 4 {
            let x = list();
            seen.borrow_mut().push(x);
        }
    };
    let r = catch_unwind(AssertUnwindSafe(|| {
        if outer.at("op").str() == "penc" {
            crate::protos::encode_into(outer, &busy)
        } else {
            let mut w = World::new();
            let mut dst = vec![];
            let f = w.asked(outer.at("f").int() as u8);
            let field = Busy((outer.at("n").bytes(), outer.at("v").bytes(), f), &busy);
            let r = w.enc.encode(field, &mut dst);
            w.emitted(r, &obj! {"pre" => J::I(0)}, &[], dst)
        }
    }));
    let within = r.unwrap_or_else(|_| obj! {"res" => s("panic")});
    let mut seen = seen.into_inner();
    seen.dedup();
    if seen.is_empty() {
        seen.push(apart.1.clone());
    }
    let last = if seen[0] == apart.1 { seen.pop().unwrap() } else { seen[0].clone() };
    obj! {"res" => s("ok"), "outer" => J::A(vec![apart.0, within]), "inner" => J::A(vec![apart.1, last])}
}

/// A field whose conversion takes its time.
struct Busy<'a>((Vec<u8>, Vec<u8>, u8), &'a dyn Fn());
impl From<Busy<'_>> for httlib_hpack::EncoderInput {
    fn from(b: Busy) -> Self {
        (b.1)();
        b.0.into()
    }
}

fn iter_of<'b>(t: &'b Table<'b>) -> impl Iterator<Item = (&'b [u8], &'b [u8])> {
    t.iter()
}

/// Everything an iterator over the table gives, asked for in one of six ways
/// that an iterator answers alike.
fn listed<'b>(t: &'b Table<'b>, way: i64) -> Vec<J> {
    let show = |(n, v): (&'b [u8], &'b [u8])| J::A(vec![bytes(n), bytes(v)]);
    let cap = PROBE_MAX as usize + 100;
    let mut out = vec![];
    match way {
        1 => {
            while let Some(e) = t.iter().nth(out.len()) {
                out.push(show(e));
                if out.len() == cap {
                    break;
                }
            }
        }
        2 => {
            // in steps of two, then the others
            let even: Vec<J> = t.iter().step_by(2).take(cap).map(show).collect();
            let odd: Vec<J> = t.iter().skip(1).step_by(2).take(cap).map(show).collect();
            let mut odd = odd.into_iter();
            for e in even {
                out.push(e);
                out.extend(odd.next());
            }
            out.extend(odd);
        }
        3 => {
            // the number and the last one, besides the others
            let n = t.iter().take(cap).count();
            out.extend(t.iter().take(n.saturating_sub(1)).map(show));
            out.extend(t.iter().last().map(show));
            let (low, high) = t.iter().size_hint();
            if low > n || high.map_or(false, |h| h < n) {
                out.push(J::A(vec![]));
            }
        }
        4 => {
            // the first half by reference, then the rest
            let mut it = t.iter();
            out.extend(it.by_ref().take(t.len() / 2).map(show));
            out.extend(it.take(cap).map(show));
        }
        5 => {
            // asked again past the end
            let mut it = t.iter();
            for _ in 0..3 {
                out.extend(it.by_ref().take(cap).map(show));
            }
        }
        _ => t.iter().take(cap).for_each(|e| out.push(show(e))),
    }
    out
}

fn via(op: &J) -> i64 {
    op.get("via").map(|v| v.int()).unwrap_or(0)
}

/// The harness's own HPACK integer writer, for probes and for building input.
pub fn int_octets(value: u32, mark: u8, prefix: u8, dst: &mut Vec<u8>) {
    let mask = (1u32 << prefix) - 1;
    if value < mask {
        dst.push(mark | value as u8);
        return;
    }
    dst.push(mark | mask as u8);
    let mut v = value - mask;
    while v >= 128 {
        dst.push(v as u8 | 128);
        v >>= 7;
    }
    dst.push(v as u8);
}
