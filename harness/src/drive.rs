//! Seeded drivers: they choose calls, the world executes them, the log keeps
//! call and observation.  The specification decides afterwards.
use crate::json::{bytes, pair, s, J};
use crate::obj;
use crate::rng::Rng;
use crate::world::{int_octets, World};
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Arc, Mutex};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

pub fn now_ms() -> u64 {
    SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_millis() as u64
}

pub fn rss_mb() -> u64 {
    let t = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    t.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) * 4096 / 1_000_000
}

/// One call may take this long before it counts as not terminating.
pub const HANG_MS: u64 = 20_000;
pub const RSS_MB: u64 = 4_000;

type Log = Arc<Mutex<std::io::BufWriter<std::fs::File>>>;

/// Where a driver makes its calls.
pub struct Ctx {
    back: Back,
    /// Octets on the wire, and whether the session is over.
    pub wire: usize,
    pub dead: bool,
    pub events: usize,
    /// Sessions so far: drivers that must not miss a value count with it.
    pub round: usize,
    last: J,
    /// The output of an earlier call.
    before: Vec<J>,
    /// Octets logged in this session and in all; code that goes wrong can make
    /// the log of a driver many times as long as it should be.
    session: usize,
    logged: usize,
    cap: usize,
}

enum Back {
    /// In a world and a log of its own.
    Own(Box<Own>),
    /// As one of several on a common stage.
    Stage(usize, Sender<Ask>, Receiver<(J, usize, bool)>),
}

enum Ask {
    Call(usize, J),
    Done,
}

struct Own {
    w: World,
    out: Log,
    cur: Arc<Mutex<String>>,
    started: Arc<AtomicU64>,
    crumb: std::fs::File,
    /// The lines of the session under way, when several write one log.
    hold: Option<Vec<String>>,
    /// The sessions so far, with what was observed, when they are to be repeated.
    kept: Vec<Vec<(J, String)>>,
    /// Whether every call is made by a thread of its own.
    pub hop: bool,
}

/// Lets a thread use a world while its owner waits.
struct Carry<'a>(&'a mut World);
unsafe impl Send for Carry<'_> {}
impl Carry<'_> {
    fn exec(&mut self, op: &J) -> J {
        self.0.exec(op)
    }
}

pub fn open_log(path: &str, first: &J) -> Log {
    let f = std::fs::File::create(path).expect("harness: cannot create the trace");
    let out = Arc::new(Mutex::new(std::io::BufWriter::new(f)));
    {
        let mut o = out.lock().unwrap();
        writeln!(o, "{}", first.text()).unwrap();
        o.flush().unwrap();
    }
    out
}

impl Own {
    fn new(out: Log, crumb: &str, hold: bool) -> Own {
        let cur = Arc::new(Mutex::new(String::new()));
        let started = Arc::new(AtomicU64::new(0));
        let (o2, c2, s2) = (out.clone(), cur.clone(), started.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(50));
            let t = s2.load(Ordering::SeqCst);
            if t == 0 {
                continue;
            }
            let slow = now_ms().saturating_sub(t) > HANG_MS;
            let fat = rss_mb() > RSS_MB;
            if slow || fat {
                let mut op = J::parse(&c2.lock().unwrap());
                op.set("o", obj! {"res" => s("hang"), "why" => s(if slow { "time" } else { "memory" })});
                let mut o = o2.lock().unwrap();
                writeln!(o, "{}", op.text()).unwrap();
                o.flush().unwrap();
                println!("HANG");
                std::process::exit(0);
            }
        });
        let crumb = std::fs::File::create(crumb).expect("harness: cannot create the breadcrumb");
        Own { w: World::new(), out, cur, started, crumb, hold: if hold { Some(vec![]) } else { None }, kept: vec![], hop: false }
    }

    /// The reply, and how long its line in the log is.
    fn call(&mut self, op: J) -> (J, usize) {
        use std::io::{Seek, SeekFrom};
        let name = op.at("op").str().to_string();
        let begins = name == "new" || name == "pnew" || name.starts_with('h');
        let text = op.text();
        if begins {
            self.release();
        }
        if self.hold.is_none() || begins {
            self.crumb.set_len(0).unwrap();
            self.crumb.seek(SeekFrom::Start(0)).unwrap();
        }
        self.crumb.write_all(text.as_bytes()).unwrap();
        if self.hold.is_some() {
            self.crumb.write_all(b"\n").unwrap();
        }
        *self.cur.lock().unwrap() = text;
        self.started.store(now_ms(), Ordering::SeqCst);
        let o = if self.hop {
            let mut w = Carry(&mut self.w);
            let op = &op;
            std::thread::scope(|sc| sc.spawn(move || w.exec(op)).join().expect("harness: a thread failed"))
        } else {
            self.w.exec(&op)
        };
        self.started.store(0, Ordering::SeqCst);
        if self.hold.is_some() {
            if begins || self.kept.is_empty() {
                self.kept.push(vec![]);
            }
            self.kept.last_mut().unwrap().push((op.clone(), o.text()));
        }
        let mut e = op;
        e.set("o", o.clone());
        let line = e.text();
        let size = line.len() + 1;
        match &mut self.hold {
            Some(h) => h.push(line),
            None => {
                let mut out = self.out.lock().unwrap();
                writeln!(out, "{}", line).unwrap();
                out.flush().unwrap();
            }
        }
        (o, size)
    }

    /// The sessions again and again while other threads do the same; one in
    /// which something else is observed than before goes into the log.
    fn again(&mut self, until: u64) -> usize {
        use std::io::{Seek, SeekFrom};
        let (mut calls, mut written) = (0, 0);
        let kept = std::mem::take(&mut self.kept);
        while now_ms() < until && written < 3 && !kept.is_empty() {
            for session in &kept {
                self.crumb.set_len(0).unwrap();
                self.crumb.seek(SeekFrom::Start(0)).unwrap();
                let text: String = session.iter().map(|x| x.0.text() + "\n").collect();
                self.crumb.write_all(text.as_bytes()).unwrap();
                *self.cur.lock().unwrap() = session.last().unwrap().0.text();
                self.started.store(now_ms(), Ordering::SeqCst);
                let mut w = World::new();
                let mut lines = vec![];
                let mut other = false;
                for (op, was) in session {
                    let o = w.exec(op);
                    calls += 1;
                    other = o.text() != *was;
                    lines.push((op, o));
                    if other {
                        break;
                    }
                }
                self.started.store(0, Ordering::SeqCst);
                if other {
                    let mut out = self.out.lock().unwrap();
                    for (op, o) in lines {
                        let mut e = op.clone();
                        e.set("o", o);
                        writeln!(out, "{}", e.text()).unwrap();
                    }
                    out.flush().unwrap();
                    written += 1;
                }
                if now_ms() > until || written == 3 {
                    break;
                }
            }
        }
        calls
    }

    fn release(&mut self) {
        if let Some(h) = &mut self.hold {
            let mut out = self.out.lock().unwrap();
            for l in h.drain(..) {
                writeln!(out, "{}", l).unwrap();
            }
            out.flush().unwrap();
        }
    }
}

impl Ctx {
    pub fn new(path: &str, first: &J) -> Ctx {
        Ctx::over(Back::Own(Box::new(Own::new(open_log(path, first), &format!("{}.cur", path), false))))
    }

    fn over(back: Back) -> Ctx {
        let mb = std::env::var("VH_LOG_MB").ok().and_then(|x| x.parse().ok()).unwrap_or(usize::MAX >> 20);
        Ctx { back, wire: 0, dead: false, events: 0, round: 0, last: obj! {"res" => s("ok")}, before: vec![], session: 0, logged: 0, cap: mb << 20 }
    }

    /// Whether there is no room for more in the log.
    fn full(&self) -> bool {
        self.logged > self.cap
    }

    /// Outputs are seldom empty: most calls go on where others have written.
    fn go_on(&self, op: &mut J, name: &str) {
        if self.events % 4 == 0 || op.get("pre").map(|p| *p != J::I(0)).unwrap_or(false) {
            return;
        }
        match name {
            "enc_lit" | "enc_plain" | "enc_idx" | "enc_idxname" | "resize" | "decode" | "pdec" => op.set("pre", J::I(-1)),
            "henc" | "hdec" | "penc" if !self.before.is_empty() => {
                // what is there: earlier output, or octets that could be
                // taken for the end of a code or a field, alone or after it
                let h = (self.events as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 32;
                let mut b = if h & 3 == 0 { vec![] } else { self.before.clone() };
                if h & 12 != 0 {
                    let x = [255, 255, 0, 0x7f, 0x80, 1, 0xfe, 8][(h >> 4) as usize & 7];
                    b.extend((0..1 + (h >> 8) % 4).map(|_| J::I(x)));
                }
                op.set("pre", J::A(b));
            }
            _ => (),
        }
    }

    pub fn call(&mut self, mut op: J) -> J {
        let name = op.at("op").str().to_string();
        let begins = name == "new" || name == "pnew";
        if begins {
            self.session = 0;
        }
        if self.dead && !begins || self.full() {
            self.dead = true;
            return self.last.clone();
        }
        self.events += 1;
        self.go_on(&mut op, &name);
        match &mut self.back {
            Back::Own(own) => {
                own.w.dead = false;
                let (o, size) = own.call(op);
                self.last = o;
                for k in ["bytes", "out"] {
                    if let Some(J::A(b)) = self.last.get(k) {
                        if b.len() < 200 && !b.is_empty() {
                            self.before = b.clone();
                        }
                    }
                }
                self.session += size;
                self.logged += size;
                self.dead = own.w.dead || self.session > self.cap / 4 * 3;
                self.wire = own.w.wire.len();
            }
            Back::Stage(me, tx, rx) => {
                if begins {
                    op.set("op", s(if name == "new" { "renew" } else { "prenew" }));
                }
                tx.send(Ask::Call(*me, op)).expect("harness: no stage");
                let (o, wire, dead) = rx.recv().expect("harness: no stage");
                self.last = o;
                self.wire = wire;
                self.dead = dead;
            }
        }
        self.last.clone()
    }
}

type Driver = fn(&mut Ctx, &mut Rng);

/// Several drivers take turns on instances of their own, in one thread.
fn stage(c: &mut Ctx, r: &mut Rng, begin: J, switch: &str, drivers: &[Driver]) {
    let fresh = |op: J| {
        let mut op = op;
        op.set("emax", pair(4096));
        op.set("dmax", pair(4096));
        op
    };
    let hpack = switch == "switch";
    c.call(begin);
    let (tx, asks) = channel();
    std::thread::scope(|sc| {
        let mut replies = vec![];
        for (k, f) in drivers.iter().enumerate() {
            let (reply, rx) = channel();
            replies.push(reply);
            let (tx, f, seed, round) = (tx.clone(), *f, r.next(), c.round);
            sc.spawn(move || {
                struct Leave(Sender<Ask>);
                impl Drop for Leave {
                    fn drop(&mut self) {
                        let _ = self.0.send(Ask::Done);
                    }
                }
                let _leave = Leave(tx.clone());
                let mut r = Rng::new(seed, "stage");
                let mut c = Ctx::over(Back::Stage(k, tx, rx));
                c.round = round;
                f(&mut c, &mut r);
            });
        }
        drop(tx);
        let mut pending: Vec<Option<J>> = drivers.iter().map(|_| None).collect();
        let mut live = drivers.len();
        let mut current = 0;
        loop {
            while pending.iter().filter(|p| p.is_some()).count() < live {
                match asks.recv().expect("harness: a driver vanished") {
                    Ask::Call(k, op) => pending[k] = Some(op),
                    Ask::Done => live -= 1,
                }
            }
            let ready: Vec<usize> = (0..pending.len()).filter(|k| pending[*k].is_some()).collect();
            if ready.is_empty() {
                break;
            }
            // several calls in a row now and then
            let k = if r.chance(30) && ready.contains(&current) { current } else { *r.pick(&ready) };
            if k != current {
                let op = obj! {"op" => s(switch), "to" => J::I(k as i64 + 1)};
                c.call(if hpack { fresh(op) } else { op });
                current = k;
            }
            let op = pending[k].take().unwrap();
            let o = c.call(op);
            let _ = replies[k].send((o, c.wire, c.dead));
        }
    });
}

/// Every call by another thread.
fn hop(c: &mut Ctx, yes: bool) {
    if let Back::Own(own) = &mut c.back {
        own.hop = yes;
    }
}

fn twins(c: &mut Ctx, r: &mut Rng) {
    const D: &[Driver] = &[lockstep, pieces, limits, refuse, find, table, junk, lockstep, find, defaults, echo, alike];
    hop(c, c.round % 4 == 3);
    let d: Vec<Driver> = (0..r.range(2, 4)).map(|_| *r.pick(D)).collect();
    stage(c, r, obj! {"op" => s("new"), "emax" => pair(4096), "dmax" => pair(4096)}, "switch", &d);
}

fn ptwins(c: &mut Ctx, r: &mut Rng) {
    const D: &[Driver] = &[pmsg, pchunk, pchunk, pbad, pvec, plit, palike];
    hop(c, c.round % 4 == 3);
    let d: Vec<Driver> = (0..r.range(2, 4)).map(|_| *r.pick(D)).collect();
    stage(c, r, obj! {"op" => s("pnew")}, "pswitch", &d);
}

/// Several drivers at the same time, each in a thread of its own.
fn parallel(family: &str, seed: u64, n: usize, out: &str) {
    let d: &[&str] = match family {
        "hpar" => &["lockstep", "find", "pieces", "table", "alike", "find", "echo", "junk"],
        "fpar" => &["henc", "hdec", "hflat", "hdec", "henc", "halike", "hflat", "halike"],
        _ => &["pmsg", "pchunk", "pbad", "pvec", "plit", "penc", "palike", "pchunk"],
    };
    let log = open_log(out, &obj! {"op" => s("cfg"), "driver" => s(family), "seed" => J::I(seed as i64)});
    let all = std::sync::Barrier::new(d.len());
    let all = &all;
    let seconds = if n > 5000 { 40 } else { 5 };
    let (events, again) = std::thread::scope(|sc| {
        let joins: Vec<_> = d.iter().enumerate().map(|(k, name)| {
            let log = log.clone();
            sc.spawn(move || {
                let mut r = Rng::new(seed + 7919 * k as u64, name);
                let own = Own::new(log, &format!("{}.cur{}", out, k), true);
                let mut c = Ctx::over(Back::Own(Box::new(own)));
                let f = by_name(name);
                while c.events < n / d.len() && !c.full() {
                    f(&mut c, &mut r);
                    c.round += 1;
                }
                let mut again = 0;
                if let Back::Own(own) = &mut c.back {
                    own.release();
                    all.wait();
                    again = own.again(now_ms() + 1000 * seconds);
                }
                let _ = std::fs::remove_file(format!("{}.cur{}", out, k));
                (c.events, again)
            })
        }).collect();
        joins.into_iter().map(|j| j.join().expect("harness: a driver failed")).fold((0, 0), |x, y| (x.0 + y.0, x.1 + y.1))
    });
    println!("EVENTS {} AGAIN {}", events, again);
}

// ---------------------------------------------------------------------------
// HPACK

const NAMES: &[&str] = &[
    ":method", ":path", ":status", "accept", "cookie", "set-cookie", "a", "b", "x-custom", "", "content-length",
    "cache-control", "www-authenticate", ":authority",
];
const VALUES: &[&str] = &["", "GET", "POST", "/", "/index.html", "x", "y", "200", "404", "gzip, deflate", "no-cache", "0"];

struct H {
    seen: Vec<(Vec<u8>, Vec<u8>)>,
    inserted: usize,
    small: bool,
}

impl H {
    fn new(small: bool) -> H {
        H { seen: vec![], inserted: 0, small }
    }
    fn text(&self, r: &mut Rng, pool: &[&str]) -> Vec<u8> {
        match r.below(20) {
            0 => {
                let n = r.below(12);
                r.bytes(n)
            }
            1 if !self.small => {
                let n = r.below(300);
                r.bytes(n)
            }
            2 if !self.small => {
                let n = r.below(60);
                (0..n).map(|_| *r.pick(b"abcdefgh0123 /-ABC{}~")).collect()
            }
            3 => vec![*r.pick(&[0u8, 1, 10, 22, 127, 128, 249, 255]); r.range(1, 4)],
            _ => r.pick(pool).as_bytes().to_vec(),
        }
    }
    fn name(&self, r: &mut Rng) -> Vec<u8> {
        if self.small {
            return r.pick(&["a", "b", ":method", "accept", "te"]).as_bytes().to_vec();
        }
        if !self.seen.is_empty() && r.chance(35) {
            return r.pick(&self.seen).0.clone();
        }
        self.text(r, NAMES)
    }
    fn value(&self, r: &mut Rng) -> Vec<u8> {
        if self.small {
            return r.pick(&["x", "y", "GET", "POST", ""]).as_bytes().to_vec();
        }
        if !self.seen.is_empty() && r.chance(35) {
            return r.pick(&self.seen).1.clone();
        }
        self.text(r, VALUES)
    }
    fn saw(&mut self, n: &[u8], v: &[u8]) {
        let e = (n.to_vec(), v.to_vec());
        self.seen.retain(|x| *x != e);
        self.seen.push(e);
        if self.seen.len() > 10 {
            self.seen.remove(0);
        }
    }
    fn cand(&self, r: &mut Rng) -> J {
        let mut c: Vec<J> = vec![];
        for (n, v) in self.seen.iter().rev().take(6) {
            c.push(J::A(vec![bytes(n), bytes(v)]));
        }
        if !self.seen.is_empty() {
            let n = r.pick(&self.seen).0.clone();
            let v = r.pick(&self.seen).1.clone();
            c.push(J::A(vec![bytes(&n), bytes(&v)]));
            c.push(J::A(vec![bytes(&n), bytes(b"\x01other")]));
        }
        J::A(c)
    }
    fn index(&self, r: &mut Rng, bad: usize) -> u32 {
        if r.chance(bad) {
            return *r.pick(&[0, 62 + self.inserted as u32, 63 + self.inserted as u32, 127, 1000, 65535, 65536, 1 << 20, u32::MAX, u32::MAX - 61, 1 << 31]);
        }
        if r.chance(45) && self.inserted > 0 {
            62 + r.below(self.inserted.min(12)) as u32
        } else {
            r.range(1, 61) as u32
        }
    }
    fn flags(&self, r: &mut Rng) -> i64 {
        // the upper bits mean nothing
        if r.chance(25) {
            return r.below(256) as i64;
        }
        r.below(32) as i64
    }
    /// One encode call of any kind.
    fn encode(&mut self, c: &mut Ctx, r: &mut Rng, bad: usize) {
        let pre = if r.chance(30) { r.below(5) as i64 } else { 0 };
        let f = self.flags(r);
        match r.below(10) {
            0..=4 => {
                let (n, v) = (self.name(r), self.value(r));
                self.saw(&n, &v);
                if f & 4 != 0 {
                    self.inserted += 1;
                }
                c.call(obj! {"op" => s("enc_lit"), "n" => bytes(&n), "v" => bytes(&v), "f" => J::I(f), "pre" => J::I(pre)});
            }
            5 => {
                let (n, v) = (self.name(r), self.value(r));
                self.saw(&n, &v);
                if f & 4 != 0 {
                    self.inserted += 1;
                }
                c.call(obj! {"op" => s("enc_plain"), "n" => bytes(&n), "v" => bytes(&v), "f" => J::I(f), "pre" => J::I(pre)});
            }
            6 | 7 => {
                let i = self.index(r, bad);
                c.call(obj! {"op" => s("enc_idx"), "i" => pair(i), "via" => J::I(r.below(2) as i64), "pre" => J::I(pre)});
            }
            _ => {
                let i = self.index(r, bad);
                let v = self.value(r);
                if f & 4 != 0 {
                    self.inserted += 1;
                }
                c.call(obj! {"op" => s("enc_idxname"), "i" => pair(i), "v" => bytes(&v), "f" => J::I(f),
                             "via" => J::I(r.below(2) as i64), "pre" => J::I(pre)});
            }
        }
    }
    fn size(&self, r: &mut Rng) -> u32 {
        match r.below(12) {
            0 => 0,
            1 => *r.pick(&[30, 31, 32, 33, 34]),
            2 => *r.pick(&[66, 67, 68, 69, 70]),
            3 => *r.pick(&[4096, 4095, 4097]),
            4 => *r.pick(&[158, 159, 160, 16414, 16415, 65535, 65536, 2097182, 2097183]),
            _ => r.below(260) as u32,
        }
    }
}

fn new(c: &mut Ctx, emax: u32, dmax: u32) {
    c.call(obj! {"op" => s("new"), "emax" => pair(emax), "dmax" => pair(dmax)});
}
fn op(c: &mut Ctx, name: &str) -> J {
    c.call(obj! {"op" => s(name)})
}
fn iter(c: &mut Ctx, r: &mut Rng) {
    c.call(obj! {"op" => s("t_iter"), "way" => J::I(r.below(6) as i64)});
}
fn limit(c: &mut Ctx, n: u32) {
    c.call(obj! {"op" => s("set_limit"), "s" => pair(n)});
}
fn resize(c: &mut Ctx, r: &mut Rng, n: u32) {
    let pre = if r.chance(30) { r.below(4) as i64 } else { 0 };
    c.call(obj! {"op" => s("resize"), "s" => pair(n), "pre" => J::I(pre)});
}
fn probe(c: &mut Ctx, h: &H, r: &mut Rng) {
    let cand = h.cand(r);
    c.call(obj! {"op" => s("probe"), "cand" => cand});
}
fn decode(c: &mut Ctx, r: &mut Rng) -> J {
    let pre = if r.chance(30) { r.below(4) as i64 } else { 0 };
    c.call(obj! {"op" => s("decode"), "pre" => J::I(pre)})
}

const BIG: u32 = 1 << 27;

/// Long histories of both sides; the limit never refuses anything.
fn lockstep(c: &mut Ctx, r: &mut Rng) {
    let mut h = H::new(r.chance(40));
    if r.chance(10) {
        c.call(obj! {"op" => s("new"), "emax" => pair(4096), "dmax" => pair(4096), "default" => J::I(1)});
    } else {
        let m = if r.chance(50) { r.range(33, 240) as u32 } else { h.size(r) };
        new(c, m, m);
    }
    limit(c, BIG);
    for _ in 0..r.range(3, 45) {
        match r.below(20) {
            0 | 1 => {
                let z = h.size(r);
                resize(c, r, z);
            }
            2..=4 => {
                op(c, "flush");
                decode(c, r);
                probe(c, &h, r);
            }
            _ => h.encode(c, r, 6),
        }
    }
    op(c, "flush");
    decode(c, r);
    probe(c, &h, r);
}

/// Octets arrive in pieces; decode, exact decode and limits in between.
fn pieces(c: &mut Ctx, r: &mut Rng) {
    let mut h = H::new(r.chance(50));
    let m = if r.chance(70) { r.range(33, 200) as u32 } else { h.size(r) };
    new(c, m, m);
    if r.chance(70) {
        limit(c, BIG);
    }
    for _ in 0..r.range(2, 12) {
        for _ in 0..r.range(1, 4) {
            if r.chance(20) {
                let z = h.size(r);
                resize(c, r, z);
            } else {
                h.encode(c, r, 3);
            }
        }
        for _ in 0..r.range(1, 6) {
            let left = c.wire;
            let k = if r.chance(30) { left } else { r.below(left.min(9) + 1) };
            c.call(obj! {"op" => s("deliver"), "k" => J::I(k as i64)});
            if r.chance(45) {
                c.call(obj! {"op" => s("decode_exact"), "c" => J::I(r.below(5) as i64)});
            } else {
                decode(c, r);
            }
            if r.chance(25) {
                probe(c, &h, r);
            }
            if r.chance(8) {
                limit(c, BIG);
            }
        }
    }
    limit(c, BIG);
    op(c, "flush");
    decode(c, r);
    probe(c, &h, r);
}

/// Size changes and limits, refused ones included.
fn limits(c: &mut Ctx, r: &mut Rng) {
    let mut h = H::new(true);
    let m = r.range(33, 200) as u32;
    new(c, m, m);
    for _ in 0..r.range(3, 20) {
        match r.below(10) {
            0..=2 => {
                let z = match r.below(4) {
                    0 => *r.pick(&[0, 1, 30, 31, 32, 33, 127, 128, 158, 159, 160, 161, 16414, 16415, 16416, 2097182, 2097183, 268435485]),
                    1 => r.below(1 << 28) as u32,
                    _ => h.size(r),
                };
                if r.chance(60) {
                    limit(c, z);
                } else if r.chance(30) && z > 0 {
                    limit(c, z - 1);
                } else if r.chance(20) {
                    limit(c, u32::MAX);
                }
                resize(c, r, z);
            }
            3 => {
                let z = h.size(r);
                limit(c, z);
                probe(c, &h, r);
            }
            4 => {
                // an update nobody's encoder sent
                let z = match r.below(3) {
                    0 => r.next() as u32 % 268435486,
                    1 => h.size(r),
                    _ => *r.pick(&[0, 30, 31, 32, 268435485]),
                };
                let mut b = vec![];
                int_octets(z, 0x20, 5, &mut b);
                if r.chance(20) && b.len() > 1 && b.len() < 5 {
                    let k = b.len() - 1;
                    b[k] |= 0x80;
                    b.push(0);
                }
                if r.chance(50) {
                    limit(c, if r.chance(50) { z } else { z.saturating_sub(1) });
                }
                op(c, "flush");
                decode(c, r);
                op(c, "discard");
                c.call(obj! {"op" => s("inject"), "b" => bytes(&b)});
                if r.chance(30) {
                    c.call(obj! {"op" => s("decode_exact"), "c" => J::I(r.below(3) as i64)});
                } else {
                    decode(c, r);
                }
                probe(c, &h, r);
                op(c, "discard");
            }
            5 | 6 => {
                op(c, "flush");
                let o = decode(c, r);
                probe(c, &h, r);
                if o.at("res").str() == "err" {
                    if r.chance(50) {
                        limit(c, u32::MAX);
                        decode(c, r);
                    } else {
                        op(c, "discard");
                    }
                    probe(c, &h, r);
                }
            }
            _ => h.encode(c, r, 3),
        }
    }
    op(c, "flush");
    decode(c, r);
    probe(c, &h, r);
}

/// Refused encodes between good ones.
fn refuse(c: &mut Ctx, r: &mut Rng) {
    let mut h = H::new(r.chance(60));
    let m = r.range(33, 240) as u32;
    new(c, m, m);
    limit(c, BIG);
    for _ in 0..r.range(3, 15) {
        h.encode(c, r, 55);
        if r.chance(30) {
            let near = 62 + r.below(14) as u32;
            let i = *r.pick(&[0, near, 62 + h.inserted as u32, u32::MAX]);
            let f = r.below(32) as i64;
            let v = h.value(r);
            let pre = r.below(6) as i64;
            c.call(obj! {"op" => s("enc_idxname"), "i" => pair(i), "v" => bytes(&v), "f" => J::I(f),
                         "via" => J::I(r.below(2) as i64), "pre" => J::I(pre)});
        }
        if r.chance(60) {
            probe(c, &h, r);
        }
        if r.chance(30) {
            op(c, "flush");
            decode(c, r);
            probe(c, &h, r);
        }
    }
    op(c, "flush");
    decode(c, r);
    probe(c, &h, r);
}

/// Searching: few names and values, everything in best format.
fn find(c: &mut Ctx, r: &mut Rng) {
    let h = &mut H::new(true);
    let m = *r.pick(&[40u32, 80, 120, 160, 200, 400]);
    new(c, m, m);
    limit(c, BIG);
    let names = ["a", "b", ":method", ":status", "accept-encoding", "cookie", "www-authenticate", ":path", "A", ""];
    // few names, so that many entries share one
    let k = r.range(1, 10);
    let names: Vec<&str> = (0..k).map(|_| *r.pick(&names)).collect();
    let values = ["x", "y", "", "GET", "200", "500", "gzip, deflate", "/", "/index.html", "get"];
    for _ in 0..r.range(5, 40) {
        let n = r.pick(&names).as_bytes().to_vec();
        let v = r.pick(&values).as_bytes().to_vec();
        h.saw(&n, &v);
        let f = (r.below(16) as i64) | 16;
        let f = if r.chance(50) { f | 4 } else { f & !4 };
        match r.below(8) {
            0 => {
                c.call(obj! {"op" => s("enc_plain"), "n" => bytes(&n), "v" => bytes(&v), "f" => J::I(4)});
                c.call(obj! {"op" => s("t_insert"), "n" => bytes(&n), "v" => bytes(&v)});
            }
            1 => {
                c.call(obj! {"op" => s("t_find"), "n" => bytes(&n), "v" => bytes(&v)});
            }
            _ => {
                c.call(obj! {"op" => s("enc_lit"), "n" => bytes(&n), "v" => bytes(&v), "f" => J::I(f)});
                if r.chance(40) {
                    c.call(obj! {"op" => s("t_insert"), "n" => bytes(&n), "v" => bytes(&v)});
                    c.call(obj! {"op" => s("t_find"), "n" => bytes(&n), "v" => bytes(r.pick(&values).as_bytes())});
                }
            }
        }
        if r.chance(12) {
            op(c, "flush");
            decode(c, r);
            probe(c, h, r);
        }
        if r.chance(12) {
            // entries are evicted; sometimes the size comes straight back
            let small = *r.pick(&[0u32, 33, 40, 70, m / 2]);
            resize(c, r, small);
            c.call(obj! {"op" => s("t_update"), "s" => pair(small)});
            if r.chance(70) {
                resize(c, r, m);
                c.call(obj! {"op" => s("t_update"), "s" => pair(m)});
            }
        }
    }
    op(c, "flush");
    decode(c, r);
    probe(c, h, r);
}

/// Fields that refer to entries far back in the table of both sides.
fn far(c: &mut Ctx, r: &mut Rng) {
    let k = if c.round == 0 { 1100 } else { *r.pick(&[70usize, 80, 100, 130, 200, 330]) };
    let m = (36 * k) as u32 + 20;
    new(c, m, m);
    limit(c, BIG);
    let entry = |x: usize| (vec![b'n', (x % 251) as u8], vec![(x / 251) as u8, b'v']);
    for x in 0..k + r.below(4) {
        let (n, v) = entry(x);
        c.call(obj! {"op" => s("enc_plain"), "n" => bytes(&n), "v" => bytes(&v), "f" => J::I(4)});
        c.call(obj! {"op" => s("t_insert"), "n" => bytes(&n), "v" => bytes(&v)});
    }
    op(c, "flush");
    op(c, "decode");
    let mut h = H::new(true);
    for _ in 0..60 {
        let held = k as u32;
        let i = match r.below(6) {
            // where the forms' prefixes overflow
            0 => *r.pick(&[62u32, 63, 64, 65, 77, 78, 79, 126, 127, 128, 129, 142, 143, 144, 190, 191, 254, 255, 256, 257, 270, 271, 318, 383]),
            1 => 61 + held - r.below(3) as u32,
            _ => r.range(62, 61 + k) as u32,
        };
        let i = i.min(61 + held);
        let (n, v) = entry(r.below(k));
        h.saw(&n, &v);
        match r.below(8) {
            0 | 1 => {
                c.call(obj! {"op" => s("enc_idx"), "i" => pair(i), "via" => J::I(r.below(2) as i64), "pre" => J::I(0)});
            }
            2..=4 => {
                let f = r.below(32) as i64;
                let k = r.below(5);
                let v = r.bytes(k);
                c.call(obj! {"op" => s("enc_idxname"), "i" => pair(i), "v" => bytes(&v), "f" => J::I(f),
                             "via" => J::I(r.below(2) as i64), "pre" => J::I(0)});
            }
            5 => {
                let f = 16 + r.below(16) as i64;
                c.call(obj! {"op" => s("enc_lit"), "n" => bytes(&n), "v" => bytes(&v), "f" => J::I(f)});
            }
            6 => {
                let f = 16 + r.below(16) as i64;
                c.call(obj! {"op" => s("enc_lit"), "n" => bytes(&n), "v" => bytes(b"?"), "f" => J::I(f)});
            }
            _ => {
                c.call(obj! {"op" => s("t_find"), "n" => bytes(&n), "v" => bytes(if r.chance(60) { &v } else { b"" })});
                c.call(obj! {"op" => s("t_get"), "i" => pair(i)});
            }
        }
        if r.chance(10) {
            op(c, "flush");
            decode(c, r);
        }
    }
    op(c, "flush");
    decode(c, r);
    if k <= 130 {
        probe(c, &h, r);
    }
}

/// Octet strings that differ from `b` in one small way.
fn nearly(b: &[u8], r: &mut Rng) -> Vec<Vec<u8>> {
    let mut l = vec![];
    for x in [b' ', 0, b'/', b';', r.below(256) as u8] {
        let mut t = b.to_vec();
        t.push(x);
        l.push(t);
        let mut t = b.to_vec();
        t.insert(0, x);
        l.push(t);
    }
    if !b.is_empty() {
        let k = r.below(b.len());
        l.push(b[1..].to_vec());
        l.push(b[..b.len() - 1].to_vec());
        l.push(b[..k].to_vec());
        l.push([b, b].concat());
        l.push([b, &b[b.len() - 1..]].concat());
        l.push(b.to_ascii_uppercase());
        l.push(b.to_ascii_lowercase());
        for at in [0, k, b.len() - 1] {
            for x in [0x20, 0x80, 1 << r.below(8)] {
                let mut t = b.to_vec();
                t[at] ^= x;
                l.push(t);
            }
        }
        let mut t = b.to_vec();
        t.reverse();
        l.push(t);
        let mut t = b.to_vec();
        t.rotate_left(1);
        l.push(t);
        if b.len() > 1 {
            let mut t = b.to_vec();
            t.swap(k, (k + 1) % b.len());
            l.push(t);
            let mut t = b.to_vec();
            t.remove(b.len() / 2);
            l.push(t);
        }
    }
    l
}

/// Fields that nearly are one of the table's: one session per entry.
fn near(c: &mut Ctx, r: &mut Rng) {
    let k = c.round % 64;
    new(c, 4096, 4096);
    limit(c, BIG);
    let own: [(&[u8], &[u8]); 3] = [(b"x-own", b"of its own"), (b"x-own", b""), (b"cookie", b"a=b; c=d")];
    for (n, v) in own.iter() {
        c.call(obj! {"op" => s("enc_plain"), "n" => bytes(n), "v" => bytes(v), "f" => J::I(4)});
        c.call(obj! {"op" => s("t_insert"), "n" => bytes(n), "v" => bytes(v)});
    }
    let (n, v) = if k < 61 {
        let t = httlib_hpack::table::Table::default();
        let e = t.iter().nth(k).map(|e| (e.0.to_vec(), e.1.to_vec()));
        e.unwrap_or((b"a".to_vec(), b"b".to_vec()))
    } else {
        (own[k - 61].0.to_vec(), own[k - 61].1.to_vec())
    };
    let mut pairs = vec![(n.clone(), v.clone()), (v.clone(), n.clone()), (n.clone(), n.clone())];
    for x in nearly(&v, r) {
        pairs.push((n.clone(), x));
    }
    for x in nearly(&n, r) {
        pairs.push((x, v.clone()));
    }
    for (n, v) in pairs {
        c.call(obj! {"op" => s("t_find"), "n" => bytes(&n), "v" => bytes(&v)});
        let f = (r.below(16) as i64 | 16) & !4;
        c.call(obj! {"op" => s("enc_lit"), "n" => bytes(&n), "v" => bytes(&v), "f" => J::I(f)});
    }
    op(c, "flush");
    decode(c, r);
    // the name with every set of flags, and a value that is not in the table
    let half = c.round / 64 % 2;
    for f in 0..32i64 {
        let v = if (f as usize + f as usize / 4) % 2 == half { v.clone() } else { r.bytes(3) };
        c.call(obj! {"op" => s("enc_lit"), "n" => bytes(&n), "v" => bytes(&v), "f" => J::I(f)});
    }
    for f in 0..16i64 {
        c.call(obj! {"op" => s("enc_idxname"), "i" => pair(k as u32 + 1), "v" => bytes(b"z"), "f" => J::I(f), "via" => J::I(f % 2)});
    }
    op(c, "flush");
    decode(c, r);
    probe(c, &H::new(true), r);
}

/// The table by itself.
fn table(c: &mut Ctx, r: &mut Rng) {
    let h = H::new(r.chance(60));
    let m = if r.chance(70) { r.range(0, 260) as u32 } else { h.size(r) };
    if r.chance(10) {
        c.call(obj! {"op" => s("new"), "emax" => pair(4096), "dmax" => pair(4096), "default" => J::I(1)});
    } else {
        new(c, m, m);
    }
    let mut n_in = 0;
    for _ in 0..r.range(3, 40) {
        match r.below(10) {
            0..=4 => {
                let (n, v) = (h.name(r), h.value(r));
                n_in += 1;
                c.call(obj! {"op" => s("t_insert"), "n" => bytes(&n), "v" => bytes(&v)});
                op(c, "t_stat");
                if r.chance(30) {
                    op(c, "t_dyn");
                }
            }
            5 => {
                let z = h.size(r);
                c.call(obj! {"op" => s("t_update"), "s" => pair(z)});
                op(c, "t_stat");
                op(c, "t_dyn");
            }
            6 | 7 => {
                let i = match r.below(4) {
                    0 => r.range(1, 61) as u32,
                    1 => *r.pick(&[0, 61, 62, u32::MAX, u32::MAX - 60, 1 << 31, 65536 + 61]),
                    _ => 62 + r.below(n_in + 3) as u32,
                };
                c.call(obj! {"op" => s("t_get"), "i" => pair(i)});
            }
            8 => {
                let (n, v) = (h.name(r), h.value(r));
                c.call(obj! {"op" => s("t_find"), "n" => bytes(&n), "v" => bytes(&v)});
            }
            _ => {
                if r.chance(30) {
                    iter(c, r);
                } else {
                    op(c, "t_dyn");
                }
            }
        }
    }
    iter(c, r);
    op(c, "t_stat");
}

/// All static indices, through every reader of the index space.
fn statics(c: &mut Ctx, r: &mut Rng) {
    let m = *r.pick(&[0u32, 100, 4096]);
    new(c, m, m);
    limit(c, BIG);
    for k in 0..r.below(4) {
        let n = vec![b'n', k as u8];
        c.call(obj! {"op" => s("t_insert"), "n" => bytes(&n), "v" => bytes(b"v")});
        c.call(obj! {"op" => s("enc_plain"), "n" => bytes(&n), "v" => bytes(b"v"), "f" => J::I(4)});
    }
    op(c, "flush");
    decode(c, r);
    for i in 0..70u32 {
        c.call(obj! {"op" => s("t_get"), "i" => pair(i)});
        c.call(obj! {"op" => s("enc_idx"), "i" => pair(i), "via" => J::I(r.below(2) as i64)});
        if r.chance(30) {
            let f = r.below(32) as i64 & !4;
            c.call(obj! {"op" => s("enc_idxname"), "i" => pair(i), "v" => bytes(b"q"), "f" => J::I(f), "via" => J::I(r.below(2) as i64)});
        }
    }
    op(c, "flush");
    decode(c, r);
    iter(c, r);
    probe(c, &H::new(true), r);
}

/// Integers at the boundaries of every prefix, canonical and padded.
fn ints(c: &mut Ctx, r: &mut Rng) {
    match r.below(5) {
        0 => {
            // string lengths
            new(c, 100, 100);
            let lens = [0usize, 1, 125, 126, 127, 128, 129, 253, 254, 255, 256, 257, 300, 16509, 16510, 16511, 16512];
            for _ in 0..3 {
                let n = if r.chance(85) { lens[r.below(13)] } else { *r.pick(&lens) };
                let v = if r.chance(50) { vec![b'a'; n] } else { r.bytes(n) };
                let f = r.below(16) as i64;
                c.call(obj! {"op" => s("enc_lit"), "n" => bytes(b"k"), "v" => bytes(&v), "f" => J::I(f)});
                let m = r.range(120, 132);
                let name = if r.chance(50) { vec![b'n'; m] } else { r.bytes(m) };
                c.call(obj! {"op" => s("enc_plain"), "n" => bytes(&name), "v" => bytes(b""), "f" => J::I(r.below(16) as i64)});
                // lengths around the point where the coded string crosses a boundary
                let k = r.range(150, 210);
                let t: Vec<u8> = (0..k).map(|_| *r.pick(b"ae0itc")).collect();
                c.call(obj! {"op" => s("enc_lit"), "n" => bytes(b"h"), "v" => bytes(&t), "f" => J::I(2)});
            }
            op(c, "flush");
            decode(c, r);
        }
        1 => {
            // table sizes
            new(c, 4096, 4096);
            limit(c, u32::MAX);
            for _ in 0..12 {
                let base = *r.pick(&[0u32, 30, 31, 32, 158, 159, 160, 286, 287, 16414, 16415, 16542, 16543, 2097182, 2097183, 268435485, 4096, 65535, 65536]);
                let z = if r.chance(30) { r.below(1 << 28) as u32 } else { base };
                let z = if r.chance(20) { z.saturating_sub(r.below(3) as u32) } else { z };
                resize(c, r, z);
                op(c, "flush");
                decode(c, r);
                c.call(obj! {"op" => s("probe"), "cand" => J::A(vec![])});
            }
        }
        2 => {
            // hand-made integers, padded and too long
            new(c, 200, 200);
            limit(c, u32::MAX);
            for _ in 0..12 {
                let (mark, prefix) = *r.pick(&[(0x80u8, 7u8), (0x40, 6), (0x20, 5), (0x10, 4), (0, 4)]);
                let value = match r.below(4) {
                    0 => r.range(1, 61) as u32,
                    1 => *r.pick(&[14u32, 15, 16, 30, 31, 32, 61, 62, 63, 64, 126, 127, 128, 142, 143, 190, 191, 254, 255]),
                    2 => r.below(300) as u32,
                    _ => r.below(1 << 28) as u32,
                };
                let mut b = padded(r, value, mark, prefix);
                if mark & 0xa0 == 0 {
                    let v = r.below(20);
                    let vb = r.bytes(v);
                    let mut sb = padded(r, v as u32, 0, 7);
                    sb.extend(vb);
                    b.extend(sb);
                }
                c.call(obj! {"op" => s("inject"), "b" => bytes(&b)});
                decode(c, r);
                op(c, "discard");
                c.call(obj! {"op" => s("probe"), "cand" => J::A(vec![])});
            }
        }
        3 => {
            // padded lengths of names and values
            new(c, 500, 500);
            for _ in 0..8 {
                let mut b = vec![*r.pick(&[0x40u8, 0x00, 0x10])];
                for _ in 0..2 {
                    let n = *r.pick(&[0usize, 3, 126, 127, 128, 130, 254, 255, 256]);
                    let body = r.bytes(n);
                    let p = padded(r, n as u32, 0, 7);
                    b.extend(p);
                    b.extend(body);
                }
                c.call(obj! {"op" => s("inject"), "b" => bytes(&b)});
                decode(c, r);
                op(c, "discard");
            }
            c.call(obj! {"op" => s("probe"), "cand" => J::A(vec![])});
        }
        _ => {
            // many entries: large indices in every form
            if c.events > 2500 || !r.chance(25) {
                return;
            }
            new(c, 20000, 20000);
            limit(c, BIG);
            let n = r.range(70, 260);
            for k in 0..n {
                let name = vec![b'a' + (k % 26) as u8, (k / 26) as u8];
                c.call(obj! {"op" => s("enc_plain"), "n" => bytes(&name), "v" => bytes(b""), "f" => J::I(4)});
            }
            op(c, "flush");
            decode(c, r);
            for _ in 0..25 {
                let i = match r.below(3) {
                    0 => *r.pick(&[62u32, 63, 64, 65, 78, 79, 125, 126, 127, 128, 129, 142, 143, 189, 190, 191, 192, 254, 255, 256]),
                    1 => 61 + n as u32 + r.below(3) as u32,
                    _ => r.range(62, 61 + n) as u32,
                };
                if r.chance(50) {
                    c.call(obj! {"op" => s("enc_idx"), "i" => pair(i)});
                } else {
                    let f = *r.pick(&[0i64, 8, 4, 2]);
                    c.call(obj! {"op" => s("enc_idxname"), "i" => pair(i), "v" => bytes(b"w"), "f" => J::I(f)});
                }
            }
            op(c, "flush");
            decode(c, r);
            c.call(obj! {"op" => s("probe"), "cand" => J::A(vec![])});
        }
    }
}

/// Values around the widths a careless conversion cuts at.
const EDGES: &[usize] = &[127, 128, 255, 256, 257, 4095, 4096, 16383, 16384, 16510, 16511, 32767, 32768, 65503, 65504, 65535, 65536, 65537,
                          65662, 65663, 65664, 70000, 131072];

/// A long string.  Read as header fields (`refused` 0xc0) or as protobuf keys
/// (7), its octets are refused at once: if the code gets a length wrong, the
/// model need not follow it through thousands of accidental fields.
fn long(r: &mut Rng, n: usize, refused: u8) -> Vec<u8> {
    let p: Vec<u8> = (0..7)
        .map(|_| match refused {
            7 => *r.pick(&[3u8, 4, 6, 7]) | (r.below(16) as u8) << 3,
            _ => *r.pick(&[0x80u8, 0xc8, 0xd1, 0xe7, 0xfe]),
        })
        .collect();
    if r.chance(50) {
        return vec![p[0]; n];
    }
    (0..n).map(|i| p[(i + i / 7) % 7]).collect()
}

/// Long strings, large tables and indices far beyond any table.
fn wide(c: &mut Ctx, r: &mut Rng) {
    let m = *r.pick(&[100u32, 4096, 65535, 65536, 65600, 70000, 140000, 1 << 20]);
    let (round, all) = (c.round / 6, EDGES.len());
    match c.round % 6 {
        0 => {
            new(c, m, m);
            limit(c, BIG);
            for k in 0..2 {
                let n = EDGES[(2 * round + k) % all];
                let big = long(r, n, 0xc0);
                let k = r.below(4);
                let small = r.bytes(k);
                let f = (r.below(8) as i64 & !3) | (r.below(2) as i64) * 16;
                // a long Huffman string now and then, of a length the model can afford
                let f = if n <= 17000 && r.chance(25) { f | 3 } else { f };
                let (name, v) = if r.chance(70) { (small, big) } else { (big, small) };
                if r.chance(70) {
                    c.call(obj! {"op" => s("enc_lit"), "n" => bytes(&name), "v" => bytes(&v), "f" => J::I(f)});
                } else {
                    c.call(obj! {"op" => s("enc_idxname"), "i" => pair(r.range(1, 61) as u32), "v" => bytes(&v), "f" => J::I(f)});
                }
            }
            op(c, "flush");
            decode(c, r);
            c.call(obj! {"op" => s("probe"), "cand" => J::A(vec![])});
        }
        1 => {
            // entries around the bounds of the table
            new(c, m, m);
            for k in 0..5 {
                let n = match k {
                    0 => EDGES[round % all],
                    1 => (m as usize).saturating_sub(31 + r.below(4)).min(140000),
                    2 => (m as usize).saturating_sub(60 + r.below(10)).min(140000),
                    _ => r.below(300),
                };
                let big = long(r, n, 0xc0);
                let k = r.below(3);
                let small = r.bytes(k);
                let (name, v) = if r.chance(50) { (small, big) } else { (big, small) };
                c.call(obj! {"op" => s("t_insert"), "n" => bytes(&name), "v" => bytes(&v)});
                op(c, "t_stat");
                if r.chance(20) {
                    let z = *r.pick(&[m, m - 1, m + 65536, 65536, 65568, 131072]);
                    c.call(obj! {"op" => s("t_update"), "s" => pair(z)});
                    op(c, "t_stat");
                }
            }
            op(c, "t_dyn");
        }
        2 => {
            // indices that differ from good ones in high bits only
            new(c, 300, 300);
            limit(c, BIG);
            let k = r.below(5);
            for i in 0..k {
                let n = vec![b'n', i as u8];
                c.call(obj! {"op" => s("t_insert"), "n" => bytes(&n), "v" => bytes(b"v")});
                c.call(obj! {"op" => s("enc_plain"), "n" => bytes(&n), "v" => bytes(b"v"), "f" => J::I(4)});
            }
            op(c, "flush");
            decode(c, r);
            for _ in 0..12 {
                let low = if r.chance(50) { r.range(1, 61) } else { r.range(60, 63 + k) } as u32;
                let i = match r.below(3) {
                    0 => low.wrapping_add(*r.pick(&[1u32 << 7, 1 << 8, 1 << 12, 1 << 14, 1 << 15, 1 << 16, 1 << 20, 1 << 24, 1 << 28, 1 << 30, 1 << 31, 3 << 16])),
                    1 => low | 1 << r.range(8, 31),
                    _ => low.wrapping_add((r.next() as u32) << 16),
                };
                match r.below(4) {
                    0 => {
                        c.call(obj! {"op" => s("t_get"), "i" => pair(i)});
                    }
                    1 => {
                        c.call(obj! {"op" => s("enc_idx"), "i" => pair(i), "via" => J::I(r.below(2) as i64)});
                    }
                    2 => {
                        c.call(obj! {"op" => s("enc_idxname"), "i" => pair(i), "v" => bytes(b"q"), "f" => J::I(r.below(32) as i64), "via" => J::I(r.below(2) as i64)});
                    }
                    _ => {
                        let (mark, prefix) = *r.pick(&[(0x80u8, 7u8), (0x40, 6), (0x10, 4), (0, 4), (0x20, 5)]);
                        let i = if mark == 0x20 { i % (1 << 28) } else { i };
                        let mut b = vec![];
                        int_octets(i, mark, prefix, &mut b);
                        if mark & 0xa0 == 0 {
                            b.extend([1, b'w']);
                        }
                        c.call(obj! {"op" => s("inject"), "b" => bytes(&b)});
                        decode(c, r);
                        op(c, "discard");
                    }
                }
            }
            c.call(obj! {"op" => s("probe"), "cand" => J::A(vec![])});
        }
        3 => {
            // sizes and limits that differ in high bits only
            new(c, 100, 100);
            for _ in 0..8 {
                let low = r.below(120) as u32;
                let high = *r.pick(&[0u32, 1 << 8, 1 << 14, 1 << 16, 1 << 17, 1 << 20, 1 << 24, 1 << 27]);
                let any = (r.next() as u32) & 0xffff_0000;
                let l = *r.pick(&[low, low + high, high, high + 200, u32::MAX, any, 1 << 31]);
                limit(c, l);
                h_entry(c, r);
                resize(c, r, low + high);
                h_entry(c, r);
                op(c, "flush");
                let o = decode(c, r);
                if o.at("res").str() == "err" {
                    limit(c, u32::MAX);
                    decode(c, r);
                }
                c.call(obj! {"op" => s("probe"), "cand" => J::A(vec![])});
                c.call(obj! {"op" => s("t_update"), "s" => pair(low + high)});
                op(c, "t_stat");
            }
        }
        4 => {
            // long fields in pieces
            let m = *r.pick(&[200u32, 65600, 1 << 20]);
            new(c, m, m);
            limit(c, BIG);
            h_entry(c, r);
            let n = EDGES[(7 * round + 3) % all];
            let (big, k) = (long(r, n, 0xc0), r.below(3));
            let (name, v) = if r.chance(60) { (r.bytes(k), big) } else { (big, r.bytes(k)) };
            let f = r.below(8) as i64 & !3;
            c.call(obj! {"op" => s("enc_lit"), "n" => bytes(&name), "v" => bytes(&v), "f" => J::I(f)});
            h_entry(c, r);
            for _ in 0..5 {
                let left = c.wire;
                let k = *r.pick(&[1usize, 9, 255, 4096, 16384, 65535, left.saturating_sub(1), left.saturating_sub(9)]);
                c.call(obj! {"op" => s("deliver"), "k" => J::I(k.min(left) as i64)});
                decode(c, r);
            }
            op(c, "flush");
            decode(c, r);
            c.call(obj! {"op" => s("probe"), "cand" => J::A(vec![])});
        }
        _ => {
            // strings that claim far more than there is
            new(c, 100, 100);
            for _ in 0..6 {
                let k = r.below(6);
                let body = r.bytes(k);
                let claim = (k as u32).wrapping_add(*r.pick(&[1u32 << 8, 1 << 14, 1 << 16, 1 << 24, 1 << 27, 1 << 31]));
                let mut b = vec![*r.pick(&[0x40u8, 0x00, 0x10])];
                if r.chance(50) {
                    b.extend([1, b'n']);
                }
                int_octets(claim, if r.chance(30) { 0x80 } else { 0 }, 7, &mut b);
                b.extend(body);
                if r.chance(50) {
                    b.extend([0, 0, 0]);
                }
                c.call(obj! {"op" => s("inject"), "b" => bytes(&b)});
                decode(c, r);
                op(c, "discard");
            }
            c.call(obj! {"op" => s("probe"), "cand" => J::A(vec![])});
        }
    }
}

fn h_entry(c: &mut Ctx, r: &mut Rng) {
    let n = r.bytes(2);
    c.call(obj! {"op" => s("enc_plain"), "n" => bytes(&n), "v" => bytes(b"v"), "f" => J::I(4)});
    c.call(obj! {"op" => s("t_insert"), "n" => bytes(&n), "v" => bytes(b"v")});
}

/// Very many entries: the table holds more than 2^8 or 2^16 of them.
fn crowd(c: &mut Ctx, r: &mut Rng) {
    let k = if c.events == 0 { 66000 } else { *r.pick(&[200usize, 260, 1100, 2100, 4200]) };
    let m = (34 * k) as u32;
    let m = *r.pick(&[m, m - 1, m + 33, m / 2, u32::MAX]);
    new(c, m, m);
    c.call(obj! {"op" => s("t_fill"), "k" => J::I(k as i64)});
    op(c, "t_stat");
    for _ in 0..14 {
        let held = (m as usize / 34).min(k) as u32;
        let i = match r.below(4) {
            0 => 61 + held,
            1 => 62 + held,
            2 => *r.pick(&[62u32, 126, 127, 255, 256, 257, 318, 65535, 65536, 65597, 65598, 65599, 1]),
            _ => r.range(62, 61 + held as usize) as u32,
        };
        c.call(obj! {"op" => s("t_get"), "i" => pair(i)});
    }
    for x in [0usize, 1, k / 2, k - 1, k - 60000.min(k)] {
        let name = vec![(x % 256) as u8, (x / 256 % 256) as u8];
        c.call(obj! {"op" => s("t_find"), "n" => bytes(&name), "v" => bytes(if r.chance(50) { b"" } else { b"zz" })});
    }
    let k2 = *r.pick(&[1usize, 100, 1000]);
    let (n, v) = (r.bytes(2), long(r, k2, 0xc0));
    c.call(obj! {"op" => s("t_insert"), "n" => bytes(&n), "v" => bytes(&v)});
    op(c, "t_stat");
    c.call(obj! {"op" => s("t_update"), "s" => pair((34 * r.below(k)) as u32)});
    op(c, "t_stat");
    if k <= 300 {
        op(c, "t_dyn");
    }
}

/// One very long history: more insertions, and more fields in one call, than
/// sixteen bits can count.
fn marathon(c: &mut Ctx, r: &mut Rng) {
    let inserts = if c.round == 0 { 66000 } else { 2000 };
    let m = r.range(100, 260) as u32;
    new(c, m, m);
    limit(c, BIG);
    let mut h = H::new(true);
    for k in 0..inserts {
        let (n, v) = match r.below(8) {
            0..=3 => (vec![b'n', (k % 7) as u8], vec![(k % 256) as u8, (k / 256) as u8]),
            4 => (b"a".to_vec(), vec![]),
            5 => (vec![b'n', (k % 7) as u8], vec![]),
            _ => (vec![b'n', (k % 3) as u8], vec![b'v', (k % 2) as u8]),
        };
        h.saw(&n, &v);
        // with best format the newest equal entry is referred to
        let f = if r.chance(30) { 4 + 16 } else { 4 };
        c.call(obj! {"op" => s("enc_lit"), "n" => bytes(&n), "v" => bytes(&v), "f" => J::I(f)});
        if r.chance(2) {
            c.call(obj! {"op" => s("enc_idx"), "i" => pair(r.range(61, 64) as u32), "via" => J::I(0), "pre" => J::I(0)});
        }
        if k % 48 == 47 {
            op(c, "flush");
            op(c, "decode");
        }
        if k % 5000 == 4999 {
            probe(c, &h, r);
        }
    }
    op(c, "flush");
    op(c, "decode");
    probe(c, &h, r);
    // many fields in one buffer
    for (fields, exact) in [(66000usize, 65536i64), (300, 256), (700, 255), (1100, 257), (66000, 65535)] {
        let fields = if c.round == 0 { fields } else { fields.min(1100) };
        let b: Vec<u8> = (0..fields).map(|i| 0x82 + (i % 5) as u8).collect();
        c.call(obj! {"op" => s("inject"), "b" => bytes(&b)});
        if exact != 65535 {
            c.call(obj! {"op" => s("decode_exact"), "c" => J::I(exact)});
        }
        op(c, "decode");
    }
    probe(c, &h, r);
}

/// The same thing hundreds of times on one decoder and one encoder: a field
/// that arrives octet by octet, calls without news, refusals.
fn patient(c: &mut Ctx, r: &mut Rng) {
    const TIMES: usize = 300;
    let m = *r.pick(&[100u32, 400, 4096]);
    new(c, m, m);
    limit(c, BIG);
    let mut h = H::new(true);
    h_entry(c, r);
    op(c, "flush");
    decode(c, r);
    let exact = |c: &mut Ctx, r: &mut Rng| {
        if r.chance(30) {
            c.call(obj! {"op" => s("decode_exact"), "c" => J::I(r.range(1, 3) as i64)})
        } else {
            decode(c, r)
        }
    };
    match c.round % 8 {
        0 => {
            let (n, v) = (r.range(200, 330), r.range(0, 9));
            let (n, v) = (long(r, n, 0xc0), long(r, v, 0xc0));
            let (n, v) = if r.chance(50) { (n, v) } else { (v, n) };
            let f = *r.pick(&[0i64, 4, 4, 8]);
            c.call(obj! {"op" => s("enc_lit"), "n" => bytes(&n), "v" => bytes(&v), "f" => J::I(f)});
            h_entry(c, r);
            while c.wire > 0 && !c.dead {
                c.call(obj! {"op" => s("deliver"), "k" => J::I(1)});
                exact(c, r);
            }
        }
        1 => {
            for _ in 0..3 {
                h.encode(c, r, 0);
            }
            h_entry(c, r);
            let k = r.below(c.wire);
            c.call(obj! {"op" => s("deliver"), "k" => J::I(k as i64)});
            for _ in 0..TIMES {
                exact(c, r);
            }
        }
        2 => {
            let b = r.pick(&[&[0x80u8][..], &[0x40, 0x81, 0x00, 0x00], &[0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff], &[0x7e, 0, 0], &[0x41, 0x84, 0xff, 0xff, 0xff, 0xff]]).to_vec();
            c.call(obj! {"op" => s("inject"), "b" => bytes(&b)});
            for _ in 0..TIMES {
                exact(c, r);
            }
            op(c, "discard");
        }
        3 => {
            limit(c, 60);
            resize(c, r, 90);
            op(c, "flush");
            for _ in 0..TIMES {
                decode(c, r);
            }
            limit(c, BIG);
            decode(c, r);
        }
        4 => {
            for k in 0..TIMES as u32 {
                let i = *r.pick(&[0u32, 300, u32::MAX, 500 + k]);
                if r.chance(50) {
                    c.call(obj! {"op" => s("enc_idx"), "i" => pair(i), "via" => J::I(r.below(2) as i64)});
                } else {
                    c.call(obj! {"op" => s("enc_idxname"), "i" => pair(i), "v" => bytes(b"q"), "f" => J::I(r.below(32) as i64), "via" => J::I(r.below(2) as i64)});
                }
            }
            probe(c, &h, r);
        }
        5 => {
            let b = r.pick(&[&[0x40u8, 1, b'x', 9, b'y'][..], &[0x40], &[0x3f, 0xff], &[0x80], &[0x82, 0x0f], &[0x1f]]).to_vec();
            for _ in 0..TIMES {
                c.call(obj! {"op" => s("inject"), "b" => bytes(&b)});
                exact(c, r);
                op(c, "discard");
            }
        }
        6 => {
            for _ in 0..TIMES {
                let z = r.below(200) as u32;
                if r.chance(30) {
                    limit(c, BIG + z);
                }
                resize(c, r, z);
                if r.chance(30) {
                    op(c, "flush");
                    decode(c, r);
                }
            }
        }
        _ => {
            // the same field, the same searches
            let f = r.below(32) as i64;
            for k in 0..TIMES {
                let o = obj! {"op" => s("enc_lit"), "n" => bytes(b"same"), "v" => bytes(b"again"), "f" => J::I(f)};
                c.call(o);
                if k % 3 == 0 {
                    c.call(obj! {"op" => s("t_find"), "n" => bytes(b"same"), "v" => bytes(b"again")});
                    c.call(obj! {"op" => s("t_get"), "i" => pair(62 + r.below(3) as u32)});
                }
                if k % 20 == 0 {
                    c.call(obj! {"op" => s("t_insert"), "n" => bytes(b"same"), "v" => bytes(b"again")});
                    op(c, "flush");
                    exact(c, r);
                }
            }
        }
    }
    for _ in 0..3 {
        h.encode(c, r, 0);
    }
    h_entry(c, r);
    op(c, "flush");
    decode(c, r);
    probe(c, &h, r);
}

/// Fields of megabytes.
fn huge(c: &mut Ctx, r: &mut Rng) {
    let n = match c.round % 3 {
        0 => (1 << 21) + 127 + r.below(200),
        1 => (1 << 20) + r.below(200),
        _ => (1 << 21) + 126 - r.below(2),
    };
    let b = long(r, n, 0xc0);
    let entered = c.round % 2 == 0;
    let m = if entered { 1 << 22 } else { r.range(64, 200) as u32 };
    new(c, m, m);
    limit(c, BIG);
    h_entry(c, r);
    let k = r.below(4);
    let small = r.bytes(k);
    let (name, v) = if r.chance(70) { (small, b) } else { (b, small) };
    let f = if entered { 4 } else { r.below(4) as i64 * 4 };
    c.call(obj! {"op" => s("enc_plain"), "n" => bytes(&name), "v" => bytes(&v), "f" => J::I(f)});
    h_entry(c, r);
    let k = n / 2 + r.below(n / 2);
    c.call(obj! {"op" => s("deliver"), "k" => J::I(k as i64)});
    decode(c, r);
    op(c, "flush");
    decode(c, r);
    c.call(obj! {"op" => s("probe"), "cand" => J::A(vec![])});
}

/// An integer with redundant octets, up to six octets in all.
fn padded(r: &mut Rng, value: u32, mark: u8, prefix: u8) -> Vec<u8> {
    let mut b = vec![];
    int_octets(value, mark, prefix, &mut b);
    if b.len() > 1 && r.chance(60) {
        let want = r.range(b.len(), 6);
        if want > b.len() {
            let k = b.len() - 1;
            b[k] |= 0x80;
            while b.len() + 1 < want {
                b.push(0x80);
            }
            b.push(0);
        }
    }
    b
}

fn hstring(r: &mut Rng, pool: &[&str]) -> Vec<u8> {
    let raw = match r.below(6) {
        0 => {
            let n = r.below(10);
            r.bytes(n)
        }
        1 => vec![],
        _ => r.pick(pool).as_bytes().to_vec(),
    };
    let huff = r.chance(50);
    let mut data = raw;
    if huff {
        let mut e = vec![];
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| httlib_huffman::encode(&data, &mut e)));
        data = e;
        match r.below(12) {
            0 => data.push(0xff),
            1 => data.extend([0xff, 0xff, 0xff, 0xff]),
            2 => {
                let n = r.below(6);
                data = r.bytes(n)
            }
            3 if !data.is_empty() => {
                let k = data.len() - 1;
                data[k] &= !1;
            }
            4 if !data.is_empty() => {
                data.pop();
            }
            5 => data = vec![],
            _ => {}
        }
    }
    let claim = match r.below(14) {
        0 => data.len() + 1,
        1 => data.len().saturating_sub(1),
        2 => *r.pick(&[127usize, 128, 1 << 20, 268435582]),
        _ => data.len(),
    };
    let mut out = vec![];
    int_octets(claim as u32, if huff { 0x80 } else { 0 }, 7, &mut out);
    if out.len() > 1 && r.chance(20) {
        let k = out.len() - 1;
        out[k] |= 0x80;
        out.push(0);
    }
    out.extend(data);
    out
}

/// One representation, mostly well-formed.
fn representation(r: &mut Rng, entries: usize) -> Vec<u8> {
    let (mark, prefix) = *r.pick(&[(0x80u8, 7u8), (0x80, 7), (0x40, 6), (0x40, 6), (0x20, 5), (0x10, 4), (0, 4)]);
    let mut b = vec![];
    let index = match r.below(12) {
        0 => 0,
        1 => 62 + entries as u32 + r.below(3) as u32,
        2 => *r.pick(&[126u32, 127, 128, 1000, 1 << 27, u32::MAX]),
        3..=6 => 62 + r.below(entries + 1) as u32,
        _ => r.range(1, 61) as u32,
    };
    if mark == 0x20 {
        let z = match r.below(5) {
            0 => r.next() as u32,
            1 => *r.pick(&[0u32, 30, 31, 32]),
            _ => r.below(250) as u32,
        };
        int_octets(z, mark, prefix, &mut b);
        return b;
    }
    if mark == 0x80 {
        return if r.chance(15) { padded(r, index, mark, prefix) } else {
            int_octets(index, mark, prefix, &mut b);
            b
        };
    }
    if r.chance(50) {
        b.push(mark);
        b.extend(hstring(r, NAMES));
    } else {
        b = if r.chance(15) { padded(r, index, mark, prefix) } else {
            int_octets(index, mark, prefix, &mut b);
            b
        };
        if index == 0 {
            b.extend(hstring(r, NAMES));
        }
    }
    b.extend(hstring(r, VALUES));
    b
}

/// Octets no encoder sent.
fn junk(c: &mut Ctx, r: &mut Rng) {
    let m = r.range(0, 240) as u32;
    new(c, m, m);
    let h = H::new(true);
    for _ in 0..r.range(2, 14) {
        let mut b = vec![];
        match r.below(6) {
            0 => {
                let n = r.below(14);
                b = r.bytes(n)
            }
            1 => {
                let n = r.below(8);
                b = (0..n).map(|_| *r.pick(&[0u8, 0x0f, 0x10, 0x1f, 0x20, 0x3f, 0x40, 0x7f, 0x80, 0x81, 0xbe, 0xbf, 0xff, 1, 2])).collect();
            }
            _ => {
                for _ in 0..r.range(1, 4) {
                    b.extend(representation(r, 3));
                }
            }
        }
        match r.below(8) {
            0 if !b.is_empty() => {
                let k = r.below(b.len());
                b.truncate(k)
            }
            1 if !b.is_empty() => {
                let k = r.below(b.len());
                b[k] ^= 1 << r.below(8)
            }
            2 if !b.is_empty() => {
                let k = r.below(b.len());
                b.remove(k);
            }
            3 => {
                let k = r.below(b.len() + 1);
                b.insert(k, r.next() as u8)
            }
            _ => {}
        }
        if r.chance(25) && !b.is_empty() {
            let k = r.below(b.len());
            let rest = b.split_off(k);
            c.call(obj! {"op" => s("inject"), "b" => bytes(&b)});
            decode(c, r);
            b = rest;
        }
        c.call(obj! {"op" => s("inject"), "b" => bytes(&b)});
        let o = if r.chance(40) {
            c.call(obj! {"op" => s("decode_exact"), "c" => J::I(r.below(6) as i64)})
        } else {
            decode(c, r)
        };
        if r.chance(50) {
            probe(c, &h, r);
        }
        if o.at("res").str() == "err" && r.chance(30) {
            // the same octets are refused again
            decode(c, r);
            probe(c, &h, r);
        }
        if r.chance(80) {
            op(c, "discard");
        }
        if r.chance(10) {
            let z = r.below(300) as u32;
            limit(c, z);
        }
    }
}

// ---------------------------------------------------------------------------
// Huffman

fn henc(c: &mut Ctx, r: &mut Rng) {
    let b: Vec<u8> = match r.below(8) {
        0 => {
            let n = r.below(6);
            r.bytes(n)
        }
        1 => {
            let n = r.below(60);
            r.bytes(n)
        }
        2 => {
            let n = r.below(200);
            r.bytes(n)
        }
        3 => vec![r.next() as u8; r.range(0, 40)],
        4 => {
            // the longest codes next to short ones
            let n = r.below(30);
            (0..n).map(|_| *r.pick(&[10u8, 13, 22, 249, b'0', b'a', b'~', 255, 92, 1])).collect()
        }
        _ => {
            let n = r.below(50);
            (0..n).map(|_| r.range(32, 126) as u8).collect()
        }
    };
    let pre = if r.chance(40) { r.below(9) as i64 } else { 0 };
    let o = c.call(obj! {"op" => s("henc"), "b" => bytes(&b), "pre" => J::I(pre)});
    if let Some(e) = o.get("bytes") {
        for sp in 1..=5 {
            if r.chance(50) {
                c.call(obj! {"op" => s("hdec"), "b" => e.clone(), "s" => J::I(sp), "pre" => J::I(r.below(3) as i64)});
            }
        }
    }
}

fn hdec(c: &mut Ctx, r: &mut Rng) {
    let n = r.below(30);
    let text: Vec<u8> = match r.below(4) {
        0 => r.bytes(n),
        1 => (0..n).map(|_| *r.pick(&[10u8, 13, 22, 249, 255, b'0', b'~', 1])).collect(),
        _ => (0..n).map(|_| r.range(32, 126) as u8).collect(),
    };
    let mut b = vec![];
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| httlib_huffman::encode(&text, &mut b)));
    match r.below(12) {
        0 => {
            let n = r.below(20);
            b = r.bytes(n)
        }
        1 => b.push(0xff),
        2 => b.extend([0xff, 0xff]),
        3 => b.extend([0xff, 0xff, 0xff, 0xff]),
        4 if !b.is_empty() => {
            let k = b.len() - 1;
            b[k] ^= 1 << r.below(8)
        }
        5 if !b.is_empty() => {
            let k = r.below(b.len());
            b[k] ^= 1 << r.below(8)
        }
        6 if !b.is_empty() => {
            b.pop();
        }
        7 => b.push(r.next() as u8),
        8 if !b.is_empty() => {
            let k = b.len() - 1;
            b[k] &= 0xff << r.below(8)
        }
        9 => {
            // a run of ones before something
            let mut x = vec![0xff; r.below(5)];
            x.extend(b);
            b = x
        }
        10 => b.extend(vec![*r.pick(&[0u8, 0xfe, 0x7f, 0x80]); r.range(1, 2)]),
        _ => {}
    }
    for sp in 1..=5 {
        c.call(obj! {"op" => s("hdec"), "b" => bytes(&b), "s" => J::I(sp), "pre" => J::I(r.below(3) as i64)});
    }
}

/// Long strings, at the sizes where counters and buffers change.
fn hlong(c: &mut Ctx, r: &mut Rng) {
    const AT: &[usize] = &[128, 256, 512, 1024, 4096, 8192, 16384, 32768, 65536];
    let n = AT[c.round % AT.len()];
    let n = match c.round / AT.len() % 3 {
        0 => n + r.below(3),
        1 => n - 1,
        _ => n * 5 / 8 + r.below(3),
    };
    let b: Vec<u8> = match r.below(4) {
        0 => r.bytes(n),
        1 => vec![*r.pick(&[0u8, 10, 22, 249, b'0', b'~', 255]); n],
        _ => (0..n).map(|_| *r.pick(b"0123abcxyz /-{\\~ABC")).collect(),
    };
    // encodings of just so many octets, the last one padded or not
    if c.round < AT.len() || r.chance(30) {
        for octets in AT[c.round % AT.len()] - 1..AT[c.round % AT.len()] + 2 {
            let mut b: Vec<u8> = (0..octets - 1).map(|_| *r.pick(b"&*,;XZ")).collect();
            b.push(*r.pick(b"&0 ab%"));
            let b2 = [&b[..octets - 1], &b"0"[..]].concat();
            for b in [b, b2] {
                c.call(obj! {"op" => s("henc"), "b" => bytes(&b), "pre" => J::I(r.below(3) as i64)});
            }
        }
    }
    let o = c.call(obj! {"op" => s("henc"), "b" => bytes(&b), "pre" => J::I(r.below(3) as i64)});
    if let Some(e) = o.get("bytes") {
        let few = if n <= 5000 { 1 } else { r.range(1, 5) as i64 };
        for sp in few..=if n <= 5000 { 5 } else { few } {
            c.call(obj! {"op" => s("hdec"), "b" => e.clone(), "s" => J::I(sp), "pre" => J::I(0)});
        }
        let mut e = e.bytes();
        let what = r.below(4);
        if let Some(k) = e.len().checked_sub(1) {
            match what {
                0 => e[k] = 0,
                1 => e.push(0xff),
                2 => e[k / 2] ^= 1,
                _ => {
                    e.pop();
                }
            }
        }
        let sp = r.range(1, 5) as i64;
        c.call(obj! {"op" => s("hdec"), "b" => bytes(&e), "s" => J::I(sp), "pre" => J::I(0)});
    }
}

/// Prefix codes grown at random, flattened at every speed.
/// A megabyte and more.
fn hhuge(c: &mut Ctx, r: &mut Rng) {
    let n = (1 << 20) + r.below(100);
    let b: Vec<u8> = match c.round % 3 {
        0 => (0..n).map(|_| *r.pick(b"0123abcxyz /-{\\~ABC")).collect(),
        1 => vec![*r.pick(&[22u8, 249, 255, b'~']); n / 4],
        _ => r.bytes(n / 3),
    };
    let o = c.call(obj! {"op" => s("henc"), "b" => bytes(&b), "pre" => J::I(r.below(3) as i64)});
    if let Some(e) = o.get("bytes") {
        let sp = r.range(1, 5) as i64;
        c.call(obj! {"op" => s("hdec"), "b" => e.clone(), "s" => J::I(sp), "pre" => J::I(0)});
    }
}

fn hflat(c: &mut Ctx, r: &mut Rng) {
    let mut leaves: Vec<(u8, u32)> = vec![(0, 0)];
    let n = if r.chance(60) { r.range(2, 8) } else { r.range(2, 70) };
    let deep = r.chance(50);
    while leaves.len() < n {
        let k = if deep && r.chance(90) { leaves.len() - 1 } else { r.below(leaves.len()) };
        let (l, v) = leaves.remove(k);
        if l >= 32 {
            leaves.insert(k, (l, v));
            continue;
        }
        leaves.push((l + 1, v * 2));
        leaves.push((l + 1, v * 2 + 1));
    }
    if r.chance(30) && leaves.len() > 2 {
        // an incomplete code is still a prefix code
        let k = r.below(leaves.len());
        leaves.remove(k);
    }
    for k in (1..leaves.len()).rev() {
        let j = r.below(k + 1);
        leaves.swap(k, j);
    }
    let codes = J::A(leaves.iter().map(|(l, v)| J::A(vec![J::I(*l as i64), J::I((*v >> 16) as i64), J::I((*v & 0xffff) as i64)])).collect());
    for sp in 1..=5 {
        c.call(obj! {"op" => s("hflat"), "codes" => codes.clone(), "s" => J::I(sp)});
    }
}

fn hparse(c: &mut Ctx, r: &mut Rng) {
    let mut codes = vec![];
    for _ in 0..r.range(0, 6) {
        let l = r.range(1, 30) as u8;
        let v = (r.next() as u32) & ((1u32 << l) - 1);
        codes.push(J::A(vec![J::I(l as i64), J::I(v as i64)]));
    }
    c.call(obj! {"op" => s("hparse"), "codes" => J::A(codes)});
}

/// The published tables and the whole code at every speed.
fn htables(c: &mut Ctx, _r: &mut Rng) {
    op(c, "hcodes");
    op(c, "hknown");
    c.call(obj! {"op" => s("hparse"), "asset" => J::I(1)});
    for sp in 1..=5 {
        c.call(obj! {"op" => s("htab"), "s" => J::I(sp)});
    }
    let t = httlib_huffman::encoder::table::ENCODE_TABLE.iter();
    let codes = J::A(t.map(|c| J::A(vec![J::I(c.0 as i64), J::I(c.1 as i64)])).collect());
    for sp in 1..=5 {
        c.call(obj! {"op" => s("hflat"), "codes" => codes.clone(), "s" => J::I(sp)});
    }
}

// ---------------------------------------------------------------------------
// Protobuf

pub const SCALARS: &[(&str, usize)] = &[
    ("bool", 1), ("int32", 4), ("int64", 8), ("uint32", 4), ("uint64", 8), ("float", 4), ("double", 8),
    ("sint32", 4), ("sint64", 8), ("fixed32", 4), ("fixed64", 8), ("sfixed32", 4), ("sfixed64", 8),
];
pub const TARGETS: &[&str] = &[
    "bool", "bool_vec", "i32", "i32_vec", "i64", "i64_vec", "u32", "u32_vec", "u64", "u64_vec", "f32", "f32_vec",
    "f64", "f64_vec", "octets", "string",
];

/// The particular floating point numbers: zeros, infinities, the smallest and
/// the largest ones, and what is not a number, with something in its bits.
fn floating(r: &mut Rng, w: usize) -> Vec<u8> {
    let (e, m) = if w == 4 { (8u32, 23u32) } else { (11, 52) };
    let sign = (r.below(2) as u64) << (e + m);
    let quiet = 1u64 << (m - 1);
    let rest = match r.below(4) {
        0 => 0,
        1 => 1,
        2 => r.next() & (quiet - 1),
        _ => quiet - 1,
    };
    let top = ((1u64 << e) - 1) << m;
    let v = match r.below(8) {
        0 => 0,
        1 => top,                      // infinity
        2 => top | quiet | rest,       // quiet
        3 => top | (rest | 1),         // signalling
        4 => top - 1,                  // the largest
        5 => 1u64 << m,                // the smallest normal
        6 => rest | (quiet & r.next()), // subnormal
        _ => (((1u64 << (e - 1)) - 1) << m) | rest, // about one
    };
    (sign | v).to_le_bytes()[..w].to_vec()
}

fn scalar(r: &mut Rng, w: usize) -> Vec<u8> {
    if w == 1 {
        return vec![r.below(2) as u8];
    }
    let bits = 8 * w as u32;
    if r.chance(10) {
        return floating(r, w);
    }
    let v: u64 = match r.below(6) {
        0 => r.below(3) as u64,
        1 => (0u64).wrapping_sub(r.below(3) as u64),
        2 => 1u64 << r.below(bits as usize),
        3 => (1u64 << r.below(bits as usize)).wrapping_sub(1),
        4 => (0u64).wrapping_sub(1u64 << r.below(bits as usize)),
        _ => r.next(),
    };
    let v = if r.chance(20) { v.wrapping_add(r.below(3) as u64).wrapping_sub(1) } else { v };
    v.to_le_bytes()[..w].to_vec()
}

fn tag(r: &mut Rng, bad: usize) -> u32 {
    if r.chance(bad) {
        return *r.pick(&[0u32, 1 << 29, (1 << 29) + 1, 1 << 30, 1 << 31, u32::MAX, (1 << 29) | 5, 0x8000_0001]);
    }
    match r.below(4) {
        0 => *r.pick(&[1u32, 15, 16, 17, 2047, 2048, 262143, 262144, 33554431, 33554432, (1 << 29) - 1, (1 << 29) - 2]),
        1 => r.range(1, (1 << 29) - 1) as u32,
        _ => r.range(1, 20) as u32,
    }
}

/// A typed value: the type's name and the value.
fn value(r: &mut Rng) -> (String, J) {
    match r.below(10) {
        0 | 1 => {
            let n = match r.below(5) {
                0 => 0,
                1 => *r.pick(&[127usize, 128, 129, 255, 256, 300]),
                _ => r.below(12),
            };
            let b = if r.chance(30) {
                if r.chance(30) {
                    {
                        let (a, b) = (*r.pick(TEXTS), *r.pick(&[&b""[..], b"a", b"\xc3\xa9"]));
                        [a, b].concat()
                    }
                } else {
                    let t = "žluťoučký kůň 😀 äöü";
                    t.chars().take(r.below(18)).collect::<String>().into_bytes()
                }
            } else {
                r.bytes(n)
            };
            ("bytes".to_string(), bytes(&b))
        }
        2..=4 => {
            let (t, w) = *r.pick(SCALARS);
            let n = match r.below(6) {
                0 => 0,
                1 => *r.pick(&[15usize, 16, 31, 32, 63, 64, 127, 128, 130]),
                _ => r.below(5),
            };
            let v = (0..n).map(|_| bytes(&scalar(r, w))).collect();
            (format!("{}_vec", t), J::A(v))
        }
        _ => {
            let (t, w) = *r.pick(SCALARS);
            (t.to_string(), bytes(&scalar(r, w)))
        }
    }
}

fn penc_op(r: &mut Rng, bad: usize) -> (String, J) {
    let (t, v) = value(r);
    let o = obj! {"op" => s("penc"), "t" => s(&t), "tag" => pair(tag(r, bad)), "v" => v, "via" => J::I(r.below(3) as i64),
                  "pre" => J::I(if r.chance(30) { r.below(5) as i64 } else { 0 })};
    (t, o)
}

fn penc(c: &mut Ctx, r: &mut Rng) {
    let (_, o) = penc_op(r, 5);
    c.call(o);
}

/// The target a literal type converts to.
pub fn natural(t: &str) -> String {
    let (base, vec) = match t.strip_suffix("_vec") {
        Some(b) => (b, "_vec"),
        None => (t, ""),
    };
    let n = match base {
        "int32" | "sint32" | "sfixed32" => "i32",
        "int64" | "sint64" | "sfixed64" => "i64",
        "uint32" | "fixed32" => "u32",
        "uint64" | "fixed64" => "u64",
        "float" => "f32",
        "double" => "f64",
        "bytes" => "octets",
        x => x,
    };
    format!("{}{}", n, vec)
}

fn pdec(c: &mut Ctx, r: &mut Rng) -> J {
    let pre = if r.chance(30) { r.below(3) as i64 } else { 0 };
    c.call(obj! {"op" => s("pdec"), "pre" => J::I(pre)})
}
fn pfeed(c: &mut Ctx, b: &[u8]) {
    c.call(obj! {"op" => s("pfeed"), "b" => bytes(b)});
}

/// Encodes some fields; returns the octets and the types.
fn message(c: &mut Ctx, r: &mut Rng, depth: usize) -> (Vec<u8>, Vec<String>) {
    let mut out = vec![];
    let mut types = vec![];
    for _ in 0..r.below(7) {
        if depth < 2 && r.chance(12) {
            let (inner, _) = message(c, r, depth + 1);
            let o = c.call(obj! {"op" => s("penc"), "t" => s("bytes"), "tag" => pair(tag(r, 0)), "v" => bytes(&inner), "via" => J::I(1)});
            if let Some(b) = o.get("bytes") {
                out.extend(b.bytes());
            }
            types.push("bytes".to_string());
            continue;
        }
        let (t, o) = penc_op(r, 0);
        let o = c.call(o);
        let b = o.get("bytes").map(|b| b.bytes()).unwrap_or_default();
        // now and then the same field again
        for _ in 0..*r.pick(&[1usize, 1, 1, 1, 2, 3]) {
            out.extend(&b);
            types.push(t.clone());
        }
    }
    (out, types)
}

fn pmsg(c: &mut Ctx, r: &mut Rng) {
    op(c, "pnew");
    for _ in 0..r.range(1, 3) {
        let (out, types) = message(c, r, 0);
        pfeed(c, &out);
        let o = pdec(c, r);
        if let Some(f) = o.get("fields") {
            for (i, x) in f.arr().iter().enumerate() {
                if i < types.len() && r.chance(60) {
                    let to = natural(&types[i]);
                    let to = if to == "octets" && r.chance(50) { "string".to_string() } else { to };
                    c.call(obj! {"op" => s("lit"), "t" => s(&types[i]), "to" => s(&to), "b" => x.arr()[2].clone()});
                }
            }
        }
    }
}

fn pchunk(c: &mut Ctx, r: &mut Rng) {
    op(c, "pnew");
    let (out, _) = message(c, r, 0);
    let mut pos = 0;
    while pos < out.len() {
        let k = if r.chance(40) { 1 } else { r.range(1, 12) };
        let k = k.min(out.len() - pos);
        pfeed(c, &out[pos..pos + k]);
        pos += k;
        if r.chance(85) {
            pdec(c, r);
        }
        if r.chance(10) {
            pdec(c, r);
        }
    }
    pdec(c, r);
    op(c, "pdiscard");
}

fn leb(mut v: u64, pad: usize) -> Vec<u8> {
    let mut b = vec![];
    while v >= 128 {
        b.push(v as u8 | 128);
        v >>= 7;
    }
    b.push(v as u8);
    for _ in 0..pad {
        let k = b.len() - 1;
        b[k] |= 128;
        b.push(0);
    }
    b
}

/// Malformed and unusual streams.
fn pbad(c: &mut Ctx, r: &mut Rng) {
    let k = c.round as u64;
    let x = match k % 4 {
        0 | 1 => k / 4 * 2 + k % 2,
        2 => *r.pick(&[0u64, 1, 2, 5]) | 1 << r.range(3, 63),
        _ => r.bytes(8).iter().fold(0, |a, b| a << 8 | *b as u64),
    };
    c.call(obj! {"op" => s("ptyp"), "x" => bytes(&x.to_le_bytes())});
    op(c, "pnew");
    for _ in 0..r.range(1, 4) {
        let mut b = vec![];
        for _ in 0..r.range(1, 4) {
            let typ = if r.chance(75) { *r.pick(&[0u64, 1, 2, 5]) } else { *r.pick(&[3u64, 4, 6, 7]) };
            let t = match r.below(8) {
                0 => 0,
                1 => *r.pick(&[(1u64 << 29) - 1, 1 << 29, 1 << 30, (1 << 32) - 1, 1 << 58, (1 << 61) - 1]),
                _ => r.range(1, 40) as u64,
            };
            let pad = if r.chance(20) { r.below(10) } else { 0 };
            b.extend(leb((t << 3) | typ, pad));
            match typ {
                0 => {
                    let pad = if r.chance(25) { r.below(11) } else { 0 };
                    let v = r.next() >> r.below(64);
                    b.extend(leb(v, pad))
                }
                1 => {
                    let n = if r.chance(85) { 8 } else { r.below(9) };
                    b.extend(r.bytes(n))
                }
                5 => {
                    let n = if r.chance(85) { 4 } else { r.below(5) };
                    b.extend(r.bytes(n))
                }
                _ => {
                    let n = r.below(6);
                    let claim = if r.chance(85) { n as u64 } else { *r.pick(&[0u64, 7, 1 << 31, 1 << 32, 1 << 63, u64::MAX]) };
                    let pad = if r.chance(20) { r.below(11) } else { 0 };
                    b.extend(leb(claim, pad));
                    b.extend(r.bytes(n))
                }
            }
        }
        match r.below(8) {
            0 => {
                let n = r.below(16);
                b = r.bytes(n)
            }
            1 if !b.is_empty() => {
                let k = r.below(b.len());
                b.truncate(k)
            }
            2 if !b.is_empty() => {
                let k = r.below(b.len());
                b[k] ^= 1 << r.below(8)
            }
            3 => b = vec![*r.pick(&[0x80u8, 0xff, 0x88]); r.range(1, 14)],
            _ => {}
        }
        while !b.is_empty() {
            let k = if r.chance(60) { b.len() } else { r.range(1, b.len()) };
            let rest = b.split_off(k);
            pfeed(c, &b);
            b = rest;
            let o = pdec(c, r);
            if o.at("res").str() == "err" {
                if r.chance(50) {
                    pdec(c, r);
                }
                break;
            }
        }
        if r.chance(50) {
            op(c, "pdiscard");
        }
    }
}

/// Vectors of every type: written, read back, payload converted, and the
/// payload cut or extended.
fn pvec(c: &mut Ctx, r: &mut Rng) {
    let (t, w) = *r.pick(SCALARS);
    let n = match r.below(8) {
        0 => 0,
        1 => *r.pick(&[12usize, 13, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129]),
        2 => r.below(140),
        _ => r.below(7),
    };
    let v: Vec<J> = (0..n).map(|_| bytes(&scalar(r, w))).collect();
    let t = format!("{}_vec", t);
    op(c, "pnew");
    let o = c.call(obj! {"op" => s("penc"), "t" => s(&t), "tag" => pair(tag(r, 3)), "v" => J::A(v), "via" => J::I(r.below(3) as i64),
                         "pre" => J::I(if r.chance(30) { r.below(5) as i64 } else { 0 })});
    let b = match o.get("bytes") {
        Some(b) => b.bytes(),
        None => return,
    };
    pfeed(c, &b);
    let o = pdec(c, r);
    let to = natural(&t);
    if let Some(f) = o.get("fields") {
        for x in f.arr() {
            let p = x.arr()[2].bytes();
            c.call(obj! {"op" => s("lit"), "t" => s(&t), "to" => s(&to), "b" => bytes(&p)});
            if r.chance(30) && !p.is_empty() {
                let k = r.below(p.len());
                c.call(obj! {"op" => s("lit"), "t" => s(&t), "to" => s(&to), "b" => bytes(&p[..k])});
            }
        }
    }
}

/// Payloads and lengths around the widths a careless conversion cuts at.
fn pwide(c: &mut Ctx, r: &mut Rng) {
    op(c, "pnew");
    let (round, all) = (c.round / 12 * 5, EDGES.len());
    match c.round % 12 {
        k @ (0 | 2 | 4 | 6 | 8) => {
            // long octet payloads, whole and in pieces
            let n = EDGES[(round + k / 2) * 5 % all];
            let b = long(r, n, 7);
            let t = *r.pick(&[1u32, 15, 16, 2047, 2048, (1 << 29) - 1]);
            let o = c.call(obj! {"op" => s("penc"), "t" => s("bytes"), "tag" => pair(t), "v" => bytes(&b), "via" => J::I(r.below(3) as i64)});
            let (_, o2) = penc_op(r, 0);
            let o2 = c.call(o2);
            let mut m = vec![];
            for x in [&o, &o2] {
                if let Some(b) = x.get("bytes") {
                    m.extend(b.bytes());
                }
            }
            let mut pos = 0;
            while pos < m.len() {
                let k = match r.below(5) {
                    0 => r.range(1, 5),
                    1 => 255,
                    2 => m.len() - pos,
                    3 => (m.len() - pos).saturating_sub(r.below(3)).max(1),
                    _ => *r.pick(&[256usize, 4096, 16384, 65535, 65536]),
                };
                let k = k.min(m.len() - pos);
                pfeed(c, &m[pos..pos + k]);
                pos += k;
                pdec(c, r);
            }
            pdec(c, r);
            if m.len() < 20000 && r.chance(50) {
                let to = if r.chance(50) { "octets" } else { "string" };
                c.call(obj! {"op" => s("lit"), "t" => s("bytes"), "to" => s(to), "b" => bytes(&b)});
            }
        }
        k @ (1 | 3 | 5 | 7 | 9 | 10) => {
            // long vectors
            let cheap = ["fixed32", "fixed64", "sfixed32", "sfixed64", "float", "double", "bool"];
            let (t, w) = SCALARS[(c.round / 12 * 6 + k / 2) % SCALARS.len()];
            let n = if cheap.contains(&t) {
                EDGES[(c.round / 12 + 3 * k) % all] / w + r.below(3)
            } else {
                // bounded work for the model
                match r.below(4) {
                    0 => *r.pick(&[127usize, 128, 129, 255, 256, 257]),
                    1 => *r.pick(&[1023usize, 1024, 1365, 1366, 1638, 1639, 2047, 2048]),
                    _ => r.below(2000),
                }
            }
            .min(66000);
            let few: Vec<Vec<u8>> = (0..5).map(|_| if n * w > 9000 && w > 1 { long(r, w, 7) } else { scalar(r, w) }).collect();
            let v: Vec<J> = (0..n).map(|i| bytes(&few[i % 5])).collect();
            let t = format!("{}_vec", t);
            let o = c.call(obj! {"op" => s("penc"), "t" => s(&t), "tag" => pair(tag(r, 0)), "v" => J::A(v), "via" => J::I(r.below(3) as i64)});
            if let Some(b) = o.get("bytes") {
                pfeed(c, &b.bytes());
                let o = pdec(c, r);
                if let Some(f) = o.get("fields") {
                    for x in f.arr() {
                        let p = x.arr()[2].clone();
                        c.call(obj! {"op" => s("lit"), "t" => s(&t), "to" => s(&natural(&t)), "b" => p});
                    }
                }
            }
        }
        _ => {
            // lengths that claim far more than there is
            for _ in 0..4 {
                let k = r.below(5);
                let body = r.bytes(k);
                let claim = (k as u64).wrapping_add(*r.pick(&[1u64 << 7, 1 << 8, 1 << 16, 1 << 24, 1 << 31, 1 << 32, 1 << 33, 1 << 48, 1 << 62]));
                let mut b = leb((r.range(1, 3000) as u64) << 3 | 2, 0);
                b.extend(leb(claim, 0));
                b.extend(body);
                pfeed(c, &b);
                pdec(c, r);
                pfeed(c, &[0x08, 0x01]);
                pdec(c, r);
                op(c, "pnew");
            }
            // keys above 32 bits whose low 32 bits are fine
            let low = (r.range(1, 40) as u64) << 3;
            let b = leb(low + *r.pick(&[1u64 << 32, 1 << 33, 1 << 35, 1 << 40, 1 << 63]), 0);
            pfeed(c, &b);
            pfeed(c, &[1]);
            pdec(c, r);
        }
    }
}

/// Payloads of megabytes.
fn phuge(c: &mut Ctx, r: &mut Rng) {
    op(c, "pnew");
    let n = (1 << 21) + r.below(3) - c.round % 2;
    let t = tag(r, 0);
    let (ty, v) = if c.round % 3 == 1 {
        let e = bytes(&long(r, 8, 7));
        ("double_vec", J::A(vec![e; n / 8 + 1]))
    } else {
        ("bytes", bytes(&long(r, n, 7)))
    };
    let o = c.call(obj! {"op" => s("penc"), "t" => s(ty), "tag" => pair(t), "v" => v, "via" => J::I(r.below(3) as i64)});
    if let Some(b) = o.get("bytes") {
        let mut b = b.bytes();
        b.extend([8, 1]);
        let k = b.len() / 2 + r.below(b.len() / 2);
        pfeed(c, &b[..k]);
        pdec(c, r);
        pfeed(c, &b[k..]);
        pdec(c, r);
    }
}

/// The same thing hundreds of times on one decoder.
fn ppatient(c: &mut Ctx, r: &mut Rng) {
    const TIMES: usize = 300;
    op(c, "pnew");
    pfeed(c, &[0x08, 0x05]);
    pdec(c, r);
    let t = r.range(1, 5000) as u32;
    let key = leb((t as u64) << 3 | 2, 0);
    match c.round % 5 {
        0 => {
            // octet by octet
            let n = r.range(200, 330);
            let mut b = key;
            b.extend(leb(n as u64, 0));
            b.extend(long(r, n, 7));
            for x in b {
                pfeed(c, &[x]);
                pdec(c, r);
            }
        }
        1 => {
            // nothing new for a long time
            let mut b = key;
            b.extend([4, 1, 2, 3, 4]);
            let k = r.below(b.len());
            pfeed(c, &b[..k]);
            for _ in 0..TIMES {
                pdec(c, r);
            }
            pfeed(c, &b[k..]);
        }
        2 => {
            // refused again and again
            let b = r.pick(&[&[0x0bu8, 0][..], &[0x0f], &[0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff], &[0x07, 1]]).to_vec();
            pfeed(c, &b);
            for _ in 0..TIMES {
                pdec(c, r);
            }
            op(c, "pdiscard");
            return;
        }
        3 => {
            // one equal field after the other
            let mut one = vec![];
            match r.below(4) {
                0 => one.extend([0x08, 1]),
                1 => one.extend([0x09, 1, 2, 3, 4, 5, 6, 7, 8]),
                2 => one.extend([0x0d, 1, 2, 3, 4]),
                _ => {
                    one.extend(key);
                    one.extend([2, 9, 9]);
                }
            }
            for _ in 0..TIMES {
                let k = r.below(one.len());
                pfeed(c, &one[..k]);
                pdec(c, r);
                pfeed(c, &one[k..]);
                pdec(c, r);
            }
        }
        _ => {
            // empty payloads, empty calls
            let mut b = key;
            b.push(0);
            for _ in 0..TIMES {
                if r.chance(60) {
                    pfeed(c, &b);
                }
                pdec(c, r);
            }
        }
    }
    pdec(c, r);
    pfeed(c, &[0x08, 0x05, 0x12, 1, 7]);
    pdec(c, r);
}

/// More fields in one call than sixteen bits can count; many calls.
fn pmany(c: &mut Ctx, r: &mut Rng) {
    op(c, "pnew");
    let field = |r: &mut Rng, i: usize| -> Vec<u8> {
        match r.below(6) {
            0 => vec![0x0a, 1, i as u8],
            1 => vec![0x12, 0],
            2 => vec![0x1d, i as u8, 0, 0, 1],
            3 => vec![0x21, i as u8, 0, 0, 1, 2, 3, 4, 5],
            _ => vec![0x08, (i % 128) as u8],
        }
    };
    let big = c.round == 0;
    for fields in [255usize, 256, 257, 1025, if big { 65537 } else { 2049 }] {
        let b: Vec<u8> = (0..fields).flat_map(|i| field(r, i)).collect();
        pfeed(c, &b);
        op(c, "pdec");
    }
    // one decoder, many calls
    for i in 0..if big { 6000 } else { 600 } {
        let b = field(r, i);
        let k = r.below(b.len() + 1);
        pfeed(c, &b[..k]);
        if r.chance(50) {
            op(c, "pdec");
        }
        pfeed(c, &b[k..]);
        op(c, "pdec");
    }
}

/// Every literal type against every target.
fn plit(c: &mut Ctx, r: &mut Rng) {
    let mut t = if r.chance(10) { "bytes".to_string() } else { r.pick(SCALARS).0.to_string() };
    if t != "bytes" && r.chance(50) {
        t.push_str("_vec");
    }
    let b: Vec<u8> = match r.below(if t == "bytes" { 12 } else { 9 }) {
        8 if t != "bytes" => {
            let w = if t.starts_with("float") || t.ends_with("32") || t.ends_with("32_vec") { 4 } else { 8 };
            let n = if t.ends_with("_vec") { r.below(6) } else { 1 };
            (0..n).flat_map(|_| floating(r, w)).collect()
        }
        0 => {
            let n = r.below(12);
            r.bytes(n)
        }
        1 => vec![],
        2 => {
            let v = r.next() >> r.below(64);
            let p = r.below(10);
            leb(v, p)
        }
        3 => vec![*r.pick(&[0x80u8, 0xff]); r.below(13)],
        4 => {
            let n = *r.pick(&[3usize, 4, 5, 7, 8, 9, 12, 16]);
            r.bytes(n)
        }
        5 => {
            // a sequence of varints, perhaps cut
            let mut x = vec![];
            for _ in 0..r.below(5) {
                let v = r.next() >> r.below(64);
                x.extend(leb(v, 0));
            }
            if r.chance(30) && !x.is_empty() {
                x.pop();
            }
            x
        }
        6 => {
            let n = r.below(6);
            (0..n).map(|_| *r.pick(&[0u8, 1, 2, 0x7f, 0xc3, 0xa9, 0xf0, 0x9f])).collect()
        }
        7 => leb(r.below(4) as u64, 0),
        _ => {
            let (a, b, c) = (*r.pick(TEXTS), *r.pick(TEXTS), *r.pick(&[&b""[..], b"a", b"\xc3\xa9"]));
            match r.below(4) {
                0 => [a, b].concat(),
                1 => [c, a].concat(),
                _ => [a, c].concat(),
            }
        }
    };
    if t.starts_with("sint32") && !small_varints(&b) {
        return; // the result of a varint above 32 bits is not specified here
    }
    let to = if r.chance(70) { natural(&t) } else { r.pick(TARGETS).to_string() };
    let to = if to == "octets" && r.chance(50) { "string".to_string() } else { to };
    c.call(obj! {"op" => s("lit"), "t" => s(&t), "to" => s(&to), "b" => bytes(&b)});
}

pub fn small_varints(b: &[u8]) -> bool {
    let (mut v, mut sh) = (0u128, 0);
    for x in b {
        v |= ((x & 127) as u128) << sh;
        sh += 7;
        if *x < 128 {
            if v >> 32 != 0 {
                return false;
            }
            v = 0;
            sh = 0;
        }
        if sh >= 70 {
            return true;
        }
    }
    true
}

/// Vectors of every number of elements, written and read back.
fn pcount(c: &mut Ctx, r: &mut Rng) {
    let (t, w) = SCALARS[c.round % SCALARS.len()];
    let n = c.round / SCALARS.len();
    let zero = vec![0u8; w];
    let one = scalar(r, w);
    let kind = r.below(5);
    let mut v: Vec<Vec<u8>> = (0..n)
        .map(|i| match kind {
            0 => zero.clone(),
            1 => one.clone(),
            2 => (i as u64 & if w == 1 { 1 } else { !0 }).to_le_bytes()[..w].to_vec(),
            _ => scalar(r, w),
        })
        .collect();
    if n > 0 {
        match r.below(4) {
            0 => v[n - 1] = zero,
            1 => v[0] = zero,
            2 => v[n - 1] = one,
            _ => (),
        }
    }
    // The last element is zero in one variant of every number.
    for k in 0..2 {
        if k == 1 {
            if n == 0 || v[n - 1].iter().all(|x| *x == 0) {
                break;
            }
            v[n - 1] = vec![0; w];
        }
        let t = format!("{}_vec", t);
        let o = c.call(obj! {"op" => s("penc"), "t" => s(&t), "tag" => pair(tag(r, 0)),
            "v" => J::A(v.iter().map(|e| bytes(e)).collect()), "via" => J::I(r.below(3) as i64)});
        let b = o.get("bytes").map(|b| b.bytes()).unwrap_or_default();
        // without the key and the length
        let mut rest = &b[..];
        for _ in 0..2 {
            match rest.iter().position(|x| *x < 128) {
                Some(i) => rest = &rest[i + 1..],
                None => return,
            }
        }
        if !(t.starts_with("sint32") && !small_varints(rest)) {
            c.call(obj! {"op" => s("lit"), "t" => s(&t), "to" => s(&natural(&t)), "b" => bytes(rest)});
        }
    }
}

/// Sinks that stop, split writes or ask for retries.
fn pfault(c: &mut Ctx, r: &mut Rng) {
    let (t, v) = if c.round % 40 == 0 {
        // more than one buffer of the kinds that writers like to put between
        let n = EDGES[c.round / 40 * 3 % EDGES.len()] + r.below(3);
        if r.chance(50) {
            ("bytes".to_string(), bytes(&long(r, n, 7)))
        } else {
            let (t, w) = *r.pick(&[("fixed32_vec", 4usize), ("double_vec", 8), ("bool_vec", 1)]);
            let e = if w == 1 { vec![1] } else { long(r, w, 7) };
            (t.to_string(), J::A((0..n / w).map(|_| bytes(&e)).collect()))
        }
    } else {
        value(r)
    };
    let tg = tag(r, 10);
    let via = r.below(3) as i64;
    let whole = c.call(obj! {"op" => s("penc"), "t" => s(&t), "tag" => pair(tg), "v" => v.clone(), "via" => J::I(via)});
    let n = whole.get("bytes").map(|b| b.arr().len()).unwrap_or(0);
    for _ in 0..r.range(2, 6) {
        let budget = match r.below(5) {
            4 if n > 5000 => *r.pick(&[512usize, 1024, 4095, 4096, 8191, 8192, 8193, 16384, 65536]),
            0 => n,
            1 => n + r.below(4),
            2 => n.saturating_sub(1),
            _ => r.below(n + 1),
        };
        c.call(obj! {"op" => s("pencf"), "t" => s(&t), "tag" => pair(tg), "v" => v.clone(), "via" => J::I(via),
                     "budget" => J::I(budget as i64), "chunk" => J::I(*r.pick(&[1i64, 1, 2, 3, 1000000]) * if n > 5000 { 999 } else { 1 }),
                     "intr" => J::I(*r.pick(&[0i64, 0, 2, 3])), "fail" => J::I(r.below(2) as i64), "kind" => J::I(r.below(16) as i64)});
    }
    // one that fails once and would take everything after
    if r.chance(60) {
        let mut script = vec![];
        for _ in 0..r.below(5) {
            script.push(J::I(*r.pick(&[1i64, 1, 2, 3, 5, 1000, -1])));
        }
        script.push(J::I(*r.pick(&[-2i64, -2, -2, 0])));
        c.call(obj! {"op" => s("pencf"), "t" => s(&t), "tag" => pair(tg), "v" => v.clone(), "via" => J::I(via),
                     "script" => J::A(script), "kind" => J::I(r.below(16) as i64)});
    }
    // a sink that asks for many tries in a row
    if r.chance(30) {
        let mut script = vec![];
        for _ in 0..r.range(1, 5) {
            for _ in 0..*r.pick(&[1usize, 3, 7, 8, 9, 15, 16, 17, 31, 33, 40, 65, 70, 101, 130, 260]) {
                script.push(J::I(-1));
            }
            script.push(J::I(*r.pick(&[1i64, 1, 2, 3, 5, 1000])));
        }
        if r.chance(30) {
            script.push(J::I(r.below(2) as i64 * -2));
        }
        c.call(obj! {"op" => s("pencf"), "t" => s(&t), "tag" => pair(tg), "v" => v, "via" => J::I(via), "script" => J::A(script)});
    }
}

/// New instances of the usual size, next to others.
fn defaults(c: &mut Ctx, r: &mut Rng) {
    let h = H::new(true);
    for _ in 0..r.range(1, 3) {
        if r.chance(30) {
            let m = r.range(0, 200) as u32;
            new(c, m, m);
        } else {
            c.call(obj! {"op" => s("new"), "emax" => pair(4096), "dmax" => pair(4096), "default" => J::I(1)});
        }
        op(c, "t_stat");
        probe(c, &h, r);
        h_entry(c, r);
        op(c, "flush");
        decode(c, r);
        probe(c, &h, r);
    }
}

/// The same few questions before and after everything that may change their
/// answers: indices, names, searches, on the encoder, the decoder and a table.
fn echo(c: &mut Ctx, r: &mut Rng) {
    let m = *r.pick(&[70u32, 104, 200, 4096]);
    new(c, m, m);
    limit(c, BIG);
    let text = |r: &mut Rng| r.pick(&["a", "b", "te", ":method", "GET", "", "PUT"]).as_bytes().to_vec();
    let ask = |r: &mut Rng| -> Vec<J> {
        let i = *r.pick(&[62u32, 62, 62, 63, 63, 64, 65, 66, 2, 3, 61]);
        let huff = r.below(4) as i64;
        let not_indexed = *r.pick(&[0i64, 8]);
        match r.below(10) {
            0 | 1 => vec![obj! {"op" => s("enc_idxname"), "i" => pair(i), "v" => bytes(&text(r)), "f" => J::I(huff + not_indexed), "via" => J::I(r.below(2) as i64)}],
            2 => vec![obj! {"op" => s("enc_idx"), "i" => pair(i), "via" => J::I(r.below(2) as i64)}],
            3 | 4 => vec![obj! {"op" => s("enc_lit"), "n" => bytes(&text(r)), "v" => bytes(&text(r)), "f" => J::I(huff + not_indexed + 16)}],
            5 => vec![obj! {"op" => s("t_get"), "i" => pair(i)}],
            6 | 7 => vec![obj! {"op" => s("t_find"), "n" => bytes(&text(r)), "v" => bytes(&text(r))}],
            _ => {
                // to the decoder, which the encoder knows nothing of
                let b = if r.chance(50) { vec![0x80 | i as u8] } else { vec![0x0f, i.saturating_sub(15) as u8, 1, b'q'] };
                let b = if i < 15 { vec![0x80 | i as u8] } else { b };
                vec![obj! {"op" => s("inject"), "b" => bytes(&b)}, op_decode(r), obj! {"op" => s("discard")}]
            }
        }
    };
    let put = |c: &mut Ctx, q: &[J]| {
        if q.len() > 1 {
            op(c, "flush");
            c.call(obj! {"op" => s("decode")});
        }
        for x in q {
            c.call(x.clone());
        }
    };
    let mut questions: Vec<Vec<J>> = (0..r.range(2, 5)).map(|_| ask(r)).collect();
    for _ in 0..r.range(8, 30) {
        let k = r.below(questions.len());
        if r.chance(15) {
            questions[k] = ask(r);
        }
        put(c, &questions[k]);
        for _ in 0..r.range(1, 2) {
            match r.below(9) {
                0 => {
                    let z = *r.pick(&[0u32, 34, 40, 70, 104, 4096]);
                    resize(c, r, z);
                }
                1 => {
                    let z = *r.pick(&[0u32, 34, 40, 70, 104, 4096]);
                    c.call(obj! {"op" => s("t_update"), "s" => pair(z)});
                }
                2 | 3 => {
                    let (n, v) = (text(r), text(r));
                    c.call(obj! {"op" => s("t_insert"), "n" => bytes(&n), "v" => bytes(&v)});
                }
                4 => {
                    let (i, v) = (*r.pick(&[62u32, 63, 2]), text(r));
                    c.call(obj! {"op" => s("enc_idxname"), "i" => pair(i), "v" => bytes(&v), "f" => J::I(4)});
                }
                _ => {
                    let (n, v) = (text(r), text(r));
                    c.call(obj! {"op" => s("enc_lit"), "n" => bytes(&n), "v" => bytes(&v), "f" => J::I(4 + r.below(4) as i64)});
                }
            }
        }
        if r.chance(60) {
            op(c, "flush");
            decode(c, r);
        }
        put(c, &questions[k]);
        if r.chance(30) {
            let k = r.below(questions.len());
            put(c, &questions[k]);
            put(c, &questions[k]);
        }
    }
    op(c, "discard");
    op(c, "flush");
    decode(c, r);
}

fn op_decode(r: &mut Rng) -> J {
    if r.chance(50) { obj! {"op" => s("decode")} } else { obj! {"op" => s("decode_exact"), "c" => J::I(1)} }
}

/// One octet of a string becomes another, often one with a code as long.
fn twist(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    const CLASSES: &[&[u8]] = &[b"012aceiost", b" %-./3456789=A_bdfghlmnpru", b":BCDEFGHIJKLMNOPQRSTUVWYjkqvwxyz", b"&*,;XZ", b"!\"()?", &[1, 135, 137, 138, 139]];
    let mut b = b.to_vec();
    if b.is_empty() {
        return vec![b'a'];
    }
    let k = if r.chance(60) { b.len() / 4 + r.below(b.len() / 2 + 1) } else { r.below(b.len()) };
    let k = k.min(b.len() - 1);
    b[k] = match CLASSES.iter().find(|x| x.contains(&b[k])) {
        Some(x) if r.chance(80) => *r.pick(x),
        _ => b[k] ^ (1 << r.below(8)),
    };
    b
}

fn base_text(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(4) {
        0 => r.below(8),
        1 => r.below(40),
        _ => r.range(17, 200),
    };
    let x = *r.pick(b"0aA:&!");
    if r.chance(50) { vec![x; n] } else { (0..n).map(|_| *r.pick(b"012aceiostABCxyz%&*!")).collect() }
}

/// Fields that resemble each other.
fn alike(c: &mut Ctx, r: &mut Rng) {
    let m = *r.pick(&[0u32, 300, 1000, 4096]);
    new(c, m, m);
    limit(c, BIG);
    let mut pool: Vec<Vec<u8>> = (0..3).map(|_| base_text(r)).collect();
    for _ in 0..r.range(4, 24) {
        let (i, j) = (r.below(pool.len()), r.below(pool.len()));
        let (n, v) = (pool[i].clone(), pool[j].clone());
        let v = if r.chance(50) { twist(r, &v) } else { v };
        let n = if r.chance(25) { twist(r, &n) } else { n };
        pool[i] = n.clone();
        pool[j] = v.clone();
        let f = r.below(32) as i64 | if r.chance(70) { 3 } else { 0 };
        c.call(obj! {"op" => s("enc_lit"), "n" => bytes(&n), "v" => bytes(&v), "f" => J::I(f)});
        if r.chance(70) {
            op(c, "flush");
            decode(c, r);
        }
    }
    op(c, "flush");
    decode(c, r);
    op(c, "t_stat");
}

/// Huffman strings that resemble each other.
fn halike(c: &mut Ctx, r: &mut Rng) {
    let mut text = base_text(r);
    for _ in 0..r.range(2, 8) {
        let o = c.call(obj! {"op" => s("henc"), "b" => bytes(&text), "pre" => J::I(r.below(3) as i64)});
        if let Some(b) = o.get("bytes") {
            let mut b = b.bytes();
            for _ in 0..r.range(1, 4) {
                c.call(obj! {"op" => s("hdec"), "b" => bytes(&b), "s" => J::I(r.range(1, 5) as i64), "pre" => J::I(r.below(3) as i64)});
                if r.chance(40) && !b.is_empty() {
                    let k = r.below(b.len());
                    b[k] ^= 1 << r.below(8);
                }
            }
        }
        text = twist(r, &text);
    }
}

/// Protobuf fields, payloads and conversions that resemble each other.
fn palike(c: &mut Ctx, r: &mut Rng) {
    op(c, "pnew");
    let mut tg = tag(r, 0);
    let (mut t, mut v) = value(r);
    for _ in 0..r.range(4, 16) {
        let o = c.call(obj! {"op" => s("penc"), "t" => s(&t), "tag" => pair(tg), "v" => v.clone(), "via" => J::I(r.below(3) as i64)});
        let b = o.get("bytes").map(|b| b.bytes()).unwrap_or_default();
        if !b.is_empty() && r.chance(60) {
            // the octets come in one or two pieces, now and then with a bit changed
            let mut b = b;
            if r.chance(15) {
                let k = r.below(b.len());
                b[k] ^= 1 << r.below(8);
            }
            let k = if r.chance(50) { b.len() } else { r.below(b.len() + 1) };
            pfeed(c, &b[..k]);
            op(c, "pdec");
            pfeed(c, &b[k..]);
            let o = op(c, "pdec");
            if o.get("rest").map(|x| x.arr().len() > 0).unwrap_or(false) {
                if r.chance(50) {
                    op(c, "pdiscard");
                } else {
                    op(c, "pnew");
                }
            }
        }
        match r.below(5) {
            0 => {
                let x = tg ^ (1 << r.below(29));
                tg = if x == 0 { 1 } else { x };
            }
            1 => {
                // another value of the type, one element or octet different
                v = match v {
                    J::A(mut a) if !a.is_empty() => {
                        let k = r.below(a.len());
                        match &a[k] {
                            J::I(x) => {
                                let y = if t == "bool" { 1 - x } else { x ^ (1 << r.below(8)) };
                                a[k] = J::I(y);
                            }
                            J::A(e) if !e.is_empty() => {
                                let mut e = e.clone();
                                let j = r.below(e.len());
                                e[j] = J::I(if t == "bool_vec" { 1 - e[j].int() } else { e[j].int() ^ (1 << r.below(8)) });
                                a[k] = J::A(e);
                            }
                            _ => {}
                        }
                        J::A(a)
                    }
                    x => x,
                };
            }
            2 => {
                let (t2, v2) = value(r);
                t = t2;
                v = v2;
            }
            3 => {
                // the same octets as another type
                const SAME: &[&[&str]] = &[&["int32", "uint32", "sint32", "fixed32", "sfixed32", "float"], &["int64", "uint64", "sint64", "fixed64", "sfixed64", "double"]];
                for g in SAME {
                    if g.contains(&t.as_str()) {
                        t = r.pick(g).to_string();
                    } else if let Some(x) = t.strip_suffix("_vec") {
                        if g.contains(&x) {
                            t = format!("{}_vec", r.pick(g));
                        }
                    }
                }
            }
            _ => {}
        }
    }
    op(c, "pdec");
}

/// Calls made while another call is under way: from a sink that is being
/// written to, or from the conversion of a field.
fn nest(c: &mut Ctx, r: &mut Rng) {
    fn some(r: &mut Rng) -> Vec<J> {
        let mut out = vec![];
        for _ in 0..r.range(1, 3) {
            let (t, v) = value(r);
            let tg = pair(tag(r, 5));
            let text = base_text(r);
            match r.below(5) {
                0 | 1 => out.push(obj! {"op" => s("penc"), "t" => s(&t), "tag" => tg, "v" => v, "via" => J::I(r.below(3) as i64)}),
                2 => {
                    out.push(obj! {"op" => s("enc_lit"), "n" => bytes(&text), "v" => bytes(b"v"), "f" => J::I(r.below(32) as i64)});
                    out.push(obj! {"op" => s("flush")});
                    out.push(obj! {"op" => s("decode")});
                }
                3 => {
                    let n = r.below(12);
                    out.push(obj! {"op" => s("pfeed"), "b" => bytes(&r.bytes(n))});
                    out.push(obj! {"op" => s("pdec")});
                }
                _ => out.push(obj! {"op" => s("hdec"), "b" => bytes(&text), "s" => J::I(r.range(1, 5) as i64)}),
            }
        }
        out
    }
    let (mut t, mut v) = value(r);
    let inner = some(r);
    let outer = if r.chance(75) {
        if r.chance(50) {
            // of the type that is encoded inside, so that they have most in common
            if let Some(o) = inner.iter().find(|o| o.at("op").str() == "penc") {
                t = o.at("t").str().to_string();
                v = o.at("v").clone();
            }
        }
        obj! {"op" => s("penc"), "t" => s(&t), "tag" => pair(tag(r, 5)), "v" => v, "via" => J::I(r.below(3) as i64)}
    } else {
        obj! {"op" => s("enc_lit"), "n" => bytes(&base_text(r)), "v" => bytes(&base_text(r)), "f" => J::I(r.below(32) as i64)}
    };
    c.call(obj! {"op" => s("nest"), "outer" => outer, "inner" => J::A(inner)});
}

// ---------------------------------------------------------------------------
// Words: the literals of the libraries' source.  Code that treats a certain
// string, octet, number or count in a way of its own has to name it.

struct Words {
    strs: Vec<Vec<u8>>,
    nums: Vec<u64>,
}

fn words() -> &'static Words {
    static WORDS: std::sync::OnceLock<Words> = std::sync::OnceLock::new();
    WORDS.get_or_init(|| {
        let text = match std::env::var("VH_WORDS") {
            Ok(p) => std::fs::read_to_string(&p).expect("harness: cannot read the words"),
            Err(_) => r#"{"strs": [[97]], "nums": ["1"]}"#.to_string(),
        };
        let j = J::parse(&text);
        let mut w = Words {
            strs: j.at("strs").arr().iter().map(|x| x.bytes()).collect(),
            nums: j.at("nums").arr().iter().map(|x| x.str().parse().expect("harness: a number")).collect(),
        };
        if w.strs.is_empty() {
            w.strs.push(vec![b'a']);
        }
        if w.nums.is_empty() {
            w.nums.push(1);
        }
        w
    })
}

/// The word this round is about, and some that go with it.
enum Word {
    Text(Vec<u8>),
    Num(u64),
}
fn word(round: usize) -> Word {
    let w = words();
    let k = round % (w.strs.len() + w.nums.len());
    if k < w.strs.len() { Word::Text(w.strs[k].clone()) } else { Word::Num(w.nums[k - w.strs.len()]) }
}
/// A number of the source or next to one, at most `max`.
fn some_num(r: &mut Rng, max: u64) -> u64 {
    for _ in 0..20 {
        let n = *r.pick(&words().nums);
        let n = near_num(r, n);
        if n <= max {
            return n;
        }
    }
    r.below(max.min(40) as usize + 1) as u64
}
fn near_num(r: &mut Rng, n: u64) -> u64 {
    match r.below(5) {
        0 => n.wrapping_add(1),
        1 => n.wrapping_sub(1),
        _ => n,
    }
}
/// The word itself, or something made of it.
fn about(r: &mut Rng, w: &[u8]) -> Vec<u8> {
    let other = r.pick(&words().strs).clone();
    match r.below(16) {
        0 => [w, &[*r.pick(b"x -=,;\0\xff")]].concat(),
        1 => [&[*r.pick(b"x :-\0\xff")], w].concat(),
        2 => [w, &other].concat(),
        3 => [w, w].concat(),
        4 => w.to_ascii_uppercase(),
        5 => w[..w.len().saturating_sub(1)].to_vec(),
        6 => [w, &vec![b'q'; some_num(r, 300) as usize]].concat(),
        7 => [&b"a="[..], w, b"; b"].concat(),
        _ => w.to_vec(),
    }
}
/// A string of `n` octets.
fn sized(r: &mut Rng, n: usize) -> Vec<u8> {
    match r.below(4) {
        0 => vec![*r.pick(b"a0&\0\xff"); n],
        1 => r.bytes(n),
        _ => (0..n).map(|_| r.range(32, 126) as u8).collect(),
    }
}
/// A string in which the octet is somewhere.
fn with_octet(r: &mut Rng, x: u8) -> Vec<u8> {
    let n = r.below(6);
    let mut b = sized(r, n);
    let k = match r.below(4) {
        0 => 0,
        1 => b.len(),
        _ => r.below(b.len() + 1),
    };
    for _ in 0..*r.pick(&[1usize, 1, 1, 2, 3]) {
        b.insert(k, x);
    }
    b
}
fn any_text(r: &mut Rng) -> Vec<u8> {
    match r.below(6) {
        0 => vec![],
        1 => b"q".to_vec(),
        2 => {
            let n = some_num(r, 130) as usize;
            sized(r, n)
        }
        3 => {
            let x = some_num(r, 255) as u8;
            with_octet(r, x)
        },
        _ => {
            let w = r.pick(&words().strs).clone();
            about(r, &w)
        }
    }
}

/// One field in some form, and now and then what follows from it.
fn word_field(c: &mut Ctx, r: &mut Rng, n: &[u8], v: &[u8]) {
    let f = match r.below(4) {
        0 => *r.pick(&[4i64, 20, 16, 23]),
        1 => *r.pick(&[0i64, 8, 24, 27]),
        _ => r.below(256) as i64,
    };
    let o = if r.chance(25) { "enc_plain" } else { "enc_lit" };
    c.call(obj! {"op" => s(o), "n" => bytes(n), "v" => bytes(v), "f" => J::I(f), "pre" => J::I(if r.chance(20) { r.below(4) as i64 } else { 0 })});
    if r.chance(25) {
        c.call(obj! {"op" => s("enc_lit"), "n" => bytes(n), "v" => bytes(v), "f" => J::I(20)});
        c.call(obj! {"op" => s("enc_lit"), "n" => bytes(n), "v" => bytes(v), "f" => J::I(*r.pick(&[16i64, 24, 20, 19]))});
    }
    if r.chance(25) {
        c.call(obj! {"op" => s("t_insert"), "n" => bytes(n), "v" => bytes(v)});
        c.call(obj! {"op" => s("t_find"), "n" => bytes(n), "v" => bytes(v)});
        c.call(obj! {"op" => s("t_find"), "n" => bytes(n), "v" => bytes(b"q")});
        c.call(obj! {"op" => s("t_get"), "i" => pair(r.range(61, 64) as u32)});
        op(c, "t_stat");
    }
    if r.chance(20) {
        let i = r.range(1, 64) as u32;
        c.call(obj! {"op" => s("enc_idxname"), "i" => pair(i), "v" => bytes(v), "f" => J::I(f), "via" => J::I(r.below(2) as i64)});
    }
    if r.chance(70) {
        op(c, "flush");
        if r.chance(25) {
            c.call(obj! {"op" => s("decode_exact"), "c" => J::I(r.range(1, 3) as i64)});
        } else {
            decode(c, r);
        }
    }
}

/// HPACK by words.
fn hwords(c: &mut Ctx, r: &mut Rng) {
    let item = word(c.round);
    let m = match r.below(5) {
        0 => some_num(r, 5000) as u32,
        1 => 4096,
        _ => r.range(60, 400) as u32,
    };
    new(c, m, m);
    limit(c, BIG);
    let h = H::new(true);
    match item {
        Word::Text(w) => {
            for _ in 0..r.range(3, 8) {
                let a = about(r, &w);
                let b = any_text(r);
                match r.below(5) {
                    0 => word_field(c, r, &a, &b),
                    1 => word_field(c, r, &w, &b),
                    2 => word_field(c, r, &b, &a),
                    3 => word_field(c, r, &b, &w),
                    _ => word_field(c, r, &w, &a),
                }
            }
            if r.chance(40) {
                // the word as octets on the wire
                op(c, "flush");
                decode(c, r);
                c.call(obj! {"op" => s("inject"), "b" => bytes(&about(r, &w))});
                decode(c, r);
                op(c, "discard");
            }
        }
        Word::Num(x) => {
            let x = if r.chance(60) { x } else { near_num(r, x) };
            for _ in 0..r.range(2, 5) {
                match r.below(9) {
                    0 | 1 if x <= 5000 => {
                        // as a length
                        let a = sized(r, x as usize);
                        let y = if r.chance(50) { some_num(r, 300) as usize } else { r.below(10) };
                        let b = sized(r, y);
                        if r.chance(50) { word_field(c, r, &a, &b) } else { word_field(c, r, &b, &a) }
                    }
                    2 if x <= 5000 => {
                        // as the size of an entry, or of two strings together
                        let t = (x as usize).saturating_sub(if r.chance(50) { 32 } else { 0 });
                        let k = r.below(t + 1).min(if r.chance(50) { 20 } else { t });
                        let (a, b) = (sized(r, k), sized(r, t - k));
                        word_field(c, r, &a, &b)
                    }
                    3 if x <= u32::MAX as u64 => {
                        // as a maximum, a limit, an index
                        match r.below(4) {
                            0 => {
                                limit(c, x as u32);
                                let z = some_num(r, 5000) as u32;
                                resize(c, r, z);
                            }
                            1 if x < BIG as u64 => resize(c, r, x as u32),
                            2 => {
                                c.call(obj! {"op" => s("enc_idx"), "i" => pair(x as u32), "via" => J::I(r.below(2) as i64)});
                                c.call(obj! {"op" => s("enc_idxname"), "i" => pair(x as u32), "v" => bytes(b"q"), "f" => J::I(r.below(32) as i64), "via" => J::I(r.below(2) as i64)});
                            }
                            _ => {
                                op(c, "flush");
                                decode(c, r);
                                let (mark, prefix) = *r.pick(&[(0x80u8, 7u8), (0x40, 6), (0x20, 5), (0x10, 4), (0, 4)]);
                                let mut b = padded(r, x as u32, mark, prefix);
                                b.extend([1, b'q', 1, b'q']);
                                c.call(obj! {"op" => s("inject"), "b" => bytes(&b)});
                                decode(c, r);
                                op(c, "discard");
                            }
                        }
                        op(c, "flush");
                        decode(c, r);
                        c.call(obj! {"op" => s("t_update"), "s" => pair(x as u32)});
                        c.call(obj! {"op" => s("t_get"), "i" => pair(x as u32)});
                    }
                    4 if x <= 600 => {
                        // as a number of entries, and of fields in one call
                        let k = r.below(3);
                        c.call(obj! {"op" => s("t_update"), "s" => pair(1 << 17)});
                        c.call(obj! {"op" => s("t_fill"), "k" => J::I(x as i64)});
                        op(c, "t_stat");
                        c.call(obj! {"op" => s("t_get"), "i" => pair(61 + x as u32)});
                        c.call(obj! {"op" => s("t_get"), "i" => pair(62 + x as u32)});
                        if k == 0 {
                            resize(c, r, 1 << 16);
                            for i in 0..x {
                                let n = format!("n{}", i);
                                c.call(obj! {"op" => s("enc_lit"), "n" => bytes(n.as_bytes()), "v" => bytes(b""), "f" => J::I(4)});
                            }
                            op(c, "flush");
                            decode(c, r);
                            c.call(obj! {"op" => s("enc_lit"), "n" => bytes(b"n0"), "v" => bytes(b""), "f" => J::I(16)});
                            c.call(obj! {"op" => s("enc_idx"), "i" => pair(61 + x as u32), "via" => J::I(0)});
                            c.call(obj! {"op" => s("enc_idx"), "i" => pair(62 + x as u32), "via" => J::I(0)});
                        } else if k == 1 {
                            // as a number of equal calls
                            let f = *r.pick(&[0i64, 4, 8, 16, 20]);
                            for _ in 0..x {
                                c.call(obj! {"op" => s("enc_lit"), "n" => bytes(b"n"), "v" => bytes(b"v"), "f" => J::I(f)});
                            }
                        } else {
                            for i in 0..x {
                                c.call(obj! {"op" => s("enc_idx"), "i" => pair((i % 61) as u32 + 1), "via" => J::I(0)});
                                op(c, "flush");
                                if i % 3 == 0 {
                                    decode(c, r);
                                }
                            }
                        }
                        op(c, "flush");
                        decode(c, r);
                    }
                    5 if x < 256 => {
                        // as an octet on the wire
                        op(c, "flush");
                        decode(c, r);
                        let mut b = vec![x as u8];
                        for _ in 0..r.below(6) {
                            b.push(if r.chance(50) { some_num(r, 255) as u8 } else { *r.pick(&[0u8, 1, 2, 0x7f, 0x80, 0xff]) });
                        }
                        c.call(obj! {"op" => s("inject"), "b" => bytes(&b)});
                        decode(c, r);
                        op(c, "discard");
                    }
                    _ => {
                        let (a, b) = (with_octet(r, x as u8), any_text(r));
                        if r.chance(50) { word_field(c, r, &a, &b) } else { word_field(c, r, &b, &a) }
                    }
                }
            }
        }
    }
    op(c, "flush");
    decode(c, r);
    probe(c, &h, r);
}

/// Huffman coding by words.
fn fwords(c: &mut Ctx, r: &mut Rng) {
    for _ in 0..4 {
        let text = match word(c.round) {
            Word::Text(w) => about(r, &w),
            Word::Num(x) if x <= 5000 && r.chance(60) => {
                let x = near_num(r, x) as usize;
                sized(r, x.min(5001))
            }
            Word::Num(x) => with_octet(r, x as u8),
        };
        let o = c.call(obj! {"op" => s("henc"), "b" => bytes(&text), "pre" => J::I(*r.pick(&[0i64, 0, 1, 5]))});
        let e = o.get("bytes").map(|b| b.bytes()).unwrap_or_default();
        for sp in 1..=5 {
            let mut b = match r.below(8) {
                0 => text.clone(),
                1 => {
                    let n = some_num(r, 300) as usize;
                    let mut b = e.clone();
                    b.truncate(n);
                    b
                }
                _ => e.clone(),
            };
            if r.chance(10) && !b.is_empty() {
                let k = r.below(b.len());
                b[k] = some_num(r, 255) as u8;
            }
            c.call(obj! {"op" => s("hdec"), "b" => bytes(&b), "s" => J::I(sp), "pre" => J::I(r.below(3) as i64)});
        }
    }
}

/// Texts in which something depends on more than an octet.
const TEXTS: &[&[u8]] = &[
    b"\xef\xbb\xbf", b"\xef\xbb\xbfabc", b"a\xef\xbb\xbf", b"\xef\xbb", b"\xfe\xff", b"\xff\xfe", b"\0", b"a\0", b"\0a", b"a\0b", b" ", b" a", b"a ",
    b"a\n", b"a\r\n", b"\r\n", b"\t", b"\x7f", b"\xc2\x80", b"\xc2\x85", b"\xc2\xa0", b"\xc2\xad", b"\xc0\x80", b"\xc1\xbf", b"\xe0\x80\x80", b"\xe0\x9f\xbf",
    b"\xe0\xa0\x80", b"\xed\x9f\xbf", b"\xed\xa0\x80", b"\xed\xbf\xbf", b"\xee\x80\x80", b"\xef\xbf\xbd", b"\xef\xbf\xbe", b"\xef\xbf\xbf", b"\xf0\x80\x80\x80",
    b"\xf0\x8f\xbf\xbf", b"\xf0\x90\x80\x80", b"\xf4\x8f\xbf\xbf", b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80", b"\xf8\x88\x80\x80\x80", b"e\xcc\x81", b"\xc3\xa9", b"\xcc\x81",
    b"\xe2\x80\x8b", b"\xe2\x80\x8d", b"\xe2\x80\x8e", b"\xe2\x80\xae", b"\xe2\x80\xa8", b"\xf0\x9f\x91\xa8\xe2\x80\x8d\xf0\x9f\x91\xa9", b"\"", b"'", b"\\", b"%41", b"&amp;",
    b"\xc3", b"a\xc3", b"\xc3a", b"\xe2\x82", b"a\xe2\x82", b"\xf0\x9f\x91", b"\x80", b"a\x80", b"\xbf", b"\xc4\xb0", b"\xc4\xb1", b"\xc3\x9f", b"\xef\xac\x81",
];

/// Octets for a payload or a string.
fn pword_octets(r: &mut Rng, item: &Word) -> Vec<u8> {
    match item {
        Word::Text(w) => {
            if r.chance(25) {
                let t = r.pick(TEXTS).to_vec();
                if r.chance(30) { [&t[..], w].concat() } else { t }
            } else {
                about(r, w)
            }
        }
        Word::Num(x) => {
            let x = near_num(r, *x);
            match r.below(6) {
                0 if x <= 3000 || (x <= 20000 && r.chance(25)) => sized(r, x as usize),
                1 => leb(x, r.below(3)),
                2 => x.to_le_bytes()[..*r.pick(&[1usize, 4, 8])].to_vec(),
                3 => (x as u32).to_be_bytes().to_vec(),
                4 => [leb(x, 0), leb(some_num(r, u64::MAX), 0)].concat(),
                _ => with_octet(r, x as u8),
            }
        }
    }
}

/// Protobuf by words.
fn pwords(c: &mut Ctx, r: &mut Rng) {
    let item = word(c.round);
    op(c, "pnew");
    for _ in 0..r.range(4, 10) {
        // a number next to the word's, also with a few bits more, negated
        let x = match &item {
            Word::Num(x) => {
                let y = near_num(r, *x);
                match r.below(8) {
                    0 => y.wrapping_neg(),
                    1 => !y,
                    2 => y << r.below(40),
                    3 => y | 1 << r.below(64),
                    4 => (y << 1) | 1,
                    5 => y << 1,
                    _ => y,
                }
            }
            Word::Text(w) => w.iter().take(8).fold(0, |a, b| a << 8 | *b as u64),
        };
        let number = |r: &mut Rng, w: usize| -> Vec<u8> {
            let y = if r.chance(70) { x } else { some_num(r, u64::MAX) };
            if w == 1 {
                return vec![(y & 1) as u8];
            }
            if r.chance(15) {
                // as a floating point number
                let z = if r.chance(30) { -(y as f64) } else { y as f64 };
                return if w == 4 { (z as f32).to_le_bytes().to_vec() } else { z.to_le_bytes().to_vec() };
            }
            y.to_le_bytes()[..w].to_vec()
        };
        let (t, v) = match r.below(6) {
            0 | 1 => ("bytes".to_string(), bytes(&pword_octets(r, &item))),
            2 => {
                let (t, w) = *r.pick(SCALARS);
                let n = if x <= 600 && r.chance(60) { x as usize } else { r.below(6) };
                let e = number(r, w);
                (format!("{}_vec", t), J::A((0..n).map(|i| bytes(&if i % 3 == 0 { number(r, w) } else { e.clone() })).collect()))
            }
            _ => {
                let (t, w) = *r.pick(SCALARS);
                let e = number(r, w);
                (t.to_string(), bytes(&e))
            }
        };
        let tg = match r.below(4) {
            0 => (x & ((1 << 29) - 1)) as u32,
            1 => some_num(r, (1 << 29) - 1) as u32,
            2 if r.chance(20) => x as u32,
            _ => tag(r, 0),
        };
        let o = c.call(obj! {"op" => s("penc"), "t" => s(&t), "tag" => pair(tg), "v" => v, "via" => J::I(r.below(3) as i64)});
        let b = o.get("bytes").map(|b| b.bytes()).unwrap_or_default();
        if !b.is_empty() && r.chance(60) {
            let k = match r.below(10) {
                0..=5 => b.len(),
                6 | 7 => some_num(r, b.len() as u64) as usize,
                _ => r.below(b.len() + 1),
            };
            pfeed(c, &b[..k]);
            pdec(c, r);
            if k < b.len() {
                pfeed(c, &b[k..]);
                pdec(c, r);
            }
        }
        if r.chance(15) {
            pfeed(c, &pword_octets(r, &item));
            pdec(c, r);
            op(c, "pnew");
        }
        if r.chance(6) && x <= 600 {
            // as a number of equal fields, in one call or many
            let every = r.chance(30);
            let f = leb(u64::from(r.below(300) as u32 + 1) << 3, 0);
            for _ in 0..x {
                pfeed(c, &[&f[..], &[5]].concat());
                if every {
                    op(c, "pdec");
                }
            }
            pdec(c, r);
            pdec(c, r);
        }
        // a conversion
        if r.chance(70) {
            let b = pword_octets(r, &item);
            let mut t = if r.chance(35) { "bytes".to_string() } else { r.pick(SCALARS).0.to_string() };
            if t != "bytes" && r.chance(50) {
                t.push_str("_vec");
            }
            if !(t.starts_with("sint32") && !small_varints(&b)) {
                let to = if r.chance(80) { natural(&t) } else { r.pick(TARGETS).to_string() };
                let to = if to == "octets" && r.chance(60) { "string".to_string() } else { to };
                c.call(obj! {"op" => s("lit"), "t" => s(&t), "to" => s(&to), "b" => bytes(&b)});
            }
        }
    }
    pdec(c, r);
}

fn by_name(driver: &str) -> Driver {
    match driver {
        "lockstep" => lockstep,
        "pieces" => pieces,
        "limits" => limits,
        "refuse" => refuse,
        "find" => find,
        "table" => table,
        "statics" => statics,
        "near" => near,
        "far" => far,
        "ints" => ints,
        "wide" => wide,
        "crowd" => crowd,
        "marathon" => marathon,
        "twins" => twins,
        "echo" => echo,
        "alike" => alike,
        "halike" => halike,
        "palike" => palike,
        "hwords" => hwords,
        "fwords" => fwords,
        "pwords" => pwords,
        "nest" => nest,
        "ptwins" => ptwins,
        "patient" => patient,
        "ppatient" => ppatient,
        "huge" => huge,
        "hhuge" => hhuge,
        "phuge" => phuge,
        "junk" => junk,
        "henc" => henc,
        "hdec" => hdec,
        "hlong" => hlong,
        "hflat" => hflat,
        "hparse" => hparse,
        "htables" => htables,
        "penc" => penc,
        "pmsg" => pmsg,
        "pchunk" => pchunk,
        "pbad" => pbad,
        "plit" => plit,
        "pvec" => pvec,
        "pcount" => pcount,
        "pwide" => pwide,
        "pmany" => pmany,
        "pfault" => pfault,
        d => panic!("harness: no driver {}", d),
    }
}

pub fn run(driver: &str, seed: u64, n: usize, out: &str) {
    if driver.ends_with("par") {
        return parallel(driver, seed, n, out);
    }
    let mut r = Rng::new(seed, driver);
    let mut c = Ctx::new(out, &obj! {"op" => s("cfg"), "driver" => s(driver), "seed" => J::I(seed as i64)});
    let f = by_name(driver);
    while c.events < n {
        let before = c.events;
        f(&mut c, &mut r);
        c.round += 1;
        if driver == "htables" || c.full() || (c.events == before && c.dead) {
            break;
        }
    }
    let _ = std::fs::remove_file(format!("{}.cur", out));
    println!("EVENTS {}", c.events);
}

/// Executes recorded calls again, without their old observations.
pub fn exec_file(input: &str, out: &str) {
    let t = std::fs::read_to_string(input).expect("harness: cannot read the calls");
    let mut lines = t.lines();
    let first = J::parse(lines.next().expect("harness: empty call file"));
    let mut c = Ctx::new(out, &first);
    for l in lines {
        let mut o = J::parse(l);
        if let J::O(v) = &mut o {
            v.retain(|x| x.0 != "o");
        }
        c.call(o);
    }
    let _ = std::fs::remove_file(format!("{}.cur", out));
    println!("EVENTS {}", c.events);
}
