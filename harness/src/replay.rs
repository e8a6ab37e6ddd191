//! Replays what TLC printed.  A line says
//!   #  the list of calls, the first call of a session, the bit automaton
//!   @  a transition: the calls that lead to the source state, the call, the
//!      expected reply and the expected tables
//!   !  a call without a state and the expected reply
//!   ?  a call without a state, to be judged by the trace specification only
//! A difference is not judged here either: the session is written down for the
//! trace specification.
use crate::drive::{now_ms, rss_mb, HANG_MS, RSS_MB};
use crate::json::{bytes, s, J};
use crate::obj;
use crate::world::World;
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::mpsc::sync_channel;
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// Sessions written per kind of difference, and kinds in all.
const PER_KIND: usize = 2;
const KINDS: usize = 40;

/// The text TLC's PrintT shows for a string.
fn unescape(l: &str) -> Option<String> {
    let l = l.strip_prefix('"')?.strip_suffix('"')?;
    let mut out = String::with_capacity(l.len());
    let mut it = l.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next()? {
                'n' => out.push('\n'),
                't' => out.push('\t'),
                x => out.push(x),
            }
        } else {
            out.push(c);
        }
    }
    Some(out)
}

fn numbers_equal(a: &J, b: &J) -> bool {
    match (a, b) {
        (J::B(x), J::I(y)) | (J::I(y), J::B(x)) => (*x as i64) == *y,
        (J::A(x), J::A(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| numbers_equal(p, q)),
        _ => a == b,
    }
}

/// The keys in which an observation differs from what is expected.
fn differences(e: &J, o: &J) -> Vec<String> {
    let mut d = vec![];
    if e.at("res") != o.at("res") {
        d.push("res".to_string());
        return d;
    }
    let J::O(kv) = e else { return d };
    let err = e.at("res").str() == "err";
    for (k, x) in kv {
        match k.as_str() {
            "res" => {}
            "kinds" => {
                if err && !x.arr().iter().any(|y| Some(y) == o.get("kind")) {
                    d.push("kind".to_string());
                }
            }
            "n" if err => {}
            _ => match o.get(k) {
                Some(y) if numbers_equal(x, y) => {}
                _ => d.push(k.clone()),
            },
        }
    }
    if let Some(J::B(false)) = o.get("kept") {
        d.push("kept".to_string());
    }
    d
}

struct Slot {
    started: AtomicU64,
    session: Mutex<Vec<J>>,
    /// The calls of the session under way, for when the process dies.
    crumb: Option<Mutex<std::fs::File>>,
}
impl Slot {
    fn new(i: usize) -> Slot {
        let crumb = std::env::var("VH_CRUMB").ok().map(|p| {
            Mutex::new(std::fs::File::create(format!("{}{}", p, i)).expect("harness: cannot create a breadcrumb"))
        });
        Slot { started: AtomicU64::new(0), session: Mutex::new(vec![]), crumb }
    }
    fn begin(&self) {
        self.session.lock().unwrap().clear();
        if let Some(c) = &self.crumb {
            use std::io::Seek;
            let mut c = c.lock().unwrap();
            c.set_len(0).unwrap();
            c.rewind().unwrap();
        }
    }
    fn about_to(&self, op: &J) {
        self.session.lock().unwrap().push(op.clone());
        if let Some(c) = &self.crumb {
            c.lock().unwrap().write_all(format!("{}\n", op.text()).as_bytes()).unwrap();
        }
        self.started.store(now_ms(), Ordering::SeqCst);
    }
}

struct Shared {
    calls: Vec<J>,
    first: J,
    check_tables: bool,
    /// The bit automaton: targets for 0 and 1, and whether input may end there.
    step: Vec<(usize, usize)>,
    end: Vec<bool>,
    suffixes: Vec<u8>,
    judge: Mutex<Option<std::io::BufWriter<std::fs::File>>>,
    found: Mutex<HashMap<String, usize>>,
    dir: String,
    written: AtomicU64,
    done: AtomicU64,
    bad: AtomicU64,
    /// How often each of the calls was made by a transition.
    taken: Vec<AtomicU64>,
}

impl Shared {
    fn write(&self, kind: String, session: &[J]) {
        self.bad.fetch_add(1, Ordering::SeqCst);
        let mut f = self.found.lock().unwrap();
        let n = f.get(&kind).copied().unwrap_or(0);
        if n >= PER_KIND || (n == 0 && f.len() >= KINDS) {
            return;
        }
        f.insert(kind, n + 1);
        let k = self.written.fetch_add(1, Ordering::SeqCst);
        let mut o = std::fs::File::create(format!("{}/mc{:03}.ndjson", self.dir, k)).expect("harness: cannot write a session");
        writeln!(o, "{}", obj! {"op" => s("cfg"), "from" => s("model")}.text()).unwrap();
        for e in session {
            writeln!(o, "{}", e.text()).unwrap();
        }
    }
}

fn with(op: &J, o: J) -> J {
    let mut e = op.clone();
    e.set("o", o);
    e
}

fn step(w: &mut World, slot: &Slot, session: &mut Vec<J>, op: &J) -> J {
    slot.about_to(op);
    let o = w.exec(op);
    slot.started.store(0, Ordering::SeqCst);
    session.push(with(op, o.clone()));
    o
}

fn one(sh: &Shared, slot: &Slot, line: &J) {
    let mut w = World::new();
    let mut session = vec![];
    slot.begin();
    step(&mut w, slot, &mut session, &sh.first);
    // A step of the path that fails was replayed as a transition of its own.
    for i in line.at("h").arr() {
        let op = &sh.calls[i.int() as usize - 1];
        step(&mut w, slot, &mut session, op);
        if w.dead {
            return;
        }
    }
    let ci = line.at("c").int() as usize - 1;
    sh.taken[ci].fetch_add(1, Ordering::Relaxed);
    let o = step(&mut w, slot, &mut session, &sh.calls[ci]);
    let mut d = differences(line.at("e"), &o);
    if sh.check_tables && !w.dead {
        let p = line.at("p");
        if let Some(t) = p.get("t") {
            let stat = obj! {"op" => s("t_stat")};
            let o = step(&mut w, slot, &mut session, &stat);
            d.extend(differences(p.at("s"), &o));
            let dy = obj! {"op" => s("t_dyn")};
            let o = step(&mut w, slot, &mut session, &dy);
            if o.get("entries") != Some(t) {
                d.push("entries".to_string());
            }
        } else if p.get("dtab").is_some() {
            let probe = obj! {"op" => s("probe"), "cand" => J::A(vec![])};
            let mut e = p.clone();
            e.set("res", s("ok"));
            let o = step(&mut w, slot, &mut session, &probe);
            d.extend(differences(&e, &o));
        }
    }
    sh.done.fetch_add(1, Ordering::SeqCst);
    if !d.is_empty() {
        sh.write(format!("{} {}", ci, d.join(" ")), &session);
    }
}

/// A call without a state.
fn direct(sh: &Shared, slot: &Slot, op: &J, e: &J) {
    let mut w = World::new();
    let mut session = vec![];
    slot.begin();
    let o = step(&mut w, slot, &mut session, op);
    sh.done.fetch_add(1, Ordering::SeqCst);
    let d = differences(e, &o);
    if !d.is_empty() {
        sh.write(format!("{} {}", op.at("op").str(), d.join(" ")), &session);
    }
}

const LEAF: usize = 1000;
const EOS: usize = 1256;

/// What the automaton of the specification makes of octets.
fn automaton(sh: &Shared, b: &[u8]) -> Option<Vec<u8>> {
    let mut node = 1;
    let mut out = vec![];
    for o in b {
        for k in (0..8).rev() {
            let (z, i) = sh.step[node - 1];
            let t = if (o >> k) & 1 == 1 { i } else { z };
            if t == EOS {
                return None;
            } else if t >= LEAF {
                out.push((t - LEAF) as u8);
                node = 1;
            } else {
                node = t;
            }
        }
    }
    if sh.end[node - 1] { Some(out) } else { None }
}

/// Octets at all speeds, then continued by every suffix.
fn speeds(sh: &Shared, slot: &Slot, op: &J, e: &J) {
    let with_speed = |b: &[u8], sp: i64| obj! {"op" => s("hdec"), "b" => bytes(b), "s" => J::I(sp)};
    let mut b = op.at("b").bytes();
    for sp in 1..=5 {
        direct(sh, slot, &with_speed(&b, sp), e);
    }
    if op.get("walk").is_none() {
        return;
    }
    let mut n = 0;
    for x in &sh.suffixes {
        b.push(*x);
        let want = automaton(sh, &b);
        for sp in 1..=5 {
            *slot.session.lock().unwrap() = vec![with_speed(&b, sp)];
            slot.started.store(now_ms(), Ordering::SeqCst);
            let mut dst = vec![];
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                httlib_huffman::decode(&b, &mut dst, crate::huff::speed(sp)).is_ok()
            }));
            slot.started.store(0, Ordering::SeqCst);
            let same = match (&r, &want) {
                (Ok(true), Some(w)) => dst == *w,
                (Ok(false), None) => true,
                _ => false,
            };
            n += 1;
            if !same {
                let op = with_speed(&b, sp);
                let o = World::new().exec(&op);
                sh.write(format!("walk {}", sp), &[with(&op, o)]);
            }
        }
        b.pop();
    }
    sh.done.fetch_add(n, Ordering::SeqCst);
}

fn line(sh: &Shared, slot: &Slot, l: &str) {
    let t = unescape(l).unwrap_or_else(|| panic!("harness: bad line {}", l));
    let j = J::parse(&t[1..]);
    match t.as_bytes()[0] {
        b'@' => one(sh, slot, &j),
        b'!' => {
            let (op, e) = (j.at("op"), j.at("e"));
            if op.at("op").str() == "hdec" && op.get("s").is_none() {
                speeds(sh, slot, op, e);
            } else {
                direct(sh, slot, op, e);
            }
        }
        _ => {
            let mut session = vec![];
            slot.begin();
            step(&mut World::new(), slot, &mut session, &j);
            sh.done.fetch_add(1, Ordering::SeqCst);
            let mut f = sh.judge.lock().unwrap();
            if f.is_none() {
                let mut o = std::io::BufWriter::new(
                    std::fs::File::create(format!("{}/judge.ndjson", sh.dir)).expect("harness: cannot write a session"),
                );
                writeln!(o, "{}", obj! {"op" => s("cfg"), "from" => s("model")}.text()).unwrap();
                *f = Some(o);
            }
            writeln!(f.as_mut().unwrap(), "{}", session[0].text()).unwrap();
        }
    }
}

pub fn run(dir: &str, suffixes: &str) {
    let stdin = std::io::stdin();
    let mut lines = stdin.lock().lines();
    let mut other = String::new();
    // The first line lists the calls.
    let head = loop {
        match lines.next() {
            Some(l) => {
                let l = l.unwrap();
                if l.starts_with("\"#") {
                    break J::parse(&unescape(&l).expect("harness: bad header")[1..]);
                }
                other.push_str(&l);
                other.push('\n');
            }
            None => {
                print!("{}", other);
                println!("REPLAY no header");
                return;
            }
        }
    };
    let sh = Arc::new(Shared {
        calls: head.get("calls").map(|c| c.arr().to_vec()).unwrap_or_default(),
        first: head.get("first").cloned().unwrap_or(J::I(0)),
        step: head.get("step").map(|c| c.arr().to_vec()).unwrap_or_default().iter()
            .map(|x| (x.arr()[0].int() as usize, x.arr()[1].int() as usize)).collect(),
        end: head.get("end").map(|c| c.arr().to_vec()).unwrap_or_default().iter().map(|x| x.int() == 1).collect(),
        suffixes: match suffixes {
            "all" => (0..=255).collect(),
            _ => vec![0x00, 0x07, 0x3f, 0x7f, 0xb8, 0xf8, 0xfe, 0xff],
        },
        judge: Mutex::new(None),
        check_tables: head.get("probe").map(|p| p.int() == 1).unwrap_or(true),
        found: Mutex::new(HashMap::new()),
        dir: dir.to_string(),
        written: AtomicU64::new(0),
        done: AtomicU64::new(0),
        bad: AtomicU64::new(0),
        taken: head.get("calls").map(|c| c.arr().iter().map(|_| AtomicU64::new(0)).collect()).unwrap_or_default(),
    });
    let threads = if suffixes == "all" { 8 } else { 4 };
    let mut tx = vec![];
    let mut joins = vec![];
    let slots: Vec<Arc<Slot>> = (0..threads)
        .map(|i| Arc::new(Slot::new(i)))
        .collect();
    for i in 0..threads {
        let (t, rx) = sync_channel::<String>(4096);
        tx.push(t);
        let (sh, slot) = (sh.clone(), slots[i].clone());
        joins.push(std::thread::spawn(move || {
            for l in rx {
                line(&sh, &slot, &l);
            }
        }));
    }
    {
        let (sh, slots) = (sh.clone(), slots.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(100));
            let fat = rss_mb() > RSS_MB;
            for sl in &slots {
                let t = sl.started.load(Ordering::SeqCst);
                if t != 0 && (fat || now_ms().saturating_sub(t) > HANG_MS) {
                    let mut sess = sl.session.lock().unwrap().clone();
                    let last = sess.pop().unwrap();
                    // Only the last call is judged: the others are replayed.
                    sess.push(with(&last, obj! {"res" => s("hang"), "why" => s(if fat { "memory" } else { "time" })}));
                    sh.write("hang".to_string(), &sess);
                    if let Ok(mut f) = sh.judge.try_lock() {
                        if let Some(f) = f.as_mut() {
                            let _ = f.flush();
                        }
                    }
                    println!("REPLAY hang transitions {} differences {}", sh.done.load(Ordering::SeqCst), sh.bad.load(Ordering::SeqCst));
                    std::process::exit(0);
                }
            }
        });
    }
    let mut k = 0;
    for l in lines {
        let l = l.unwrap();
        if l.starts_with("\"@") || l.starts_with("\"!") || l.starts_with("\"?") {
            tx[k % threads].send(l).unwrap();
            k += 1;
        } else {
            println!("{}", l);
        }
    }
    drop(tx);
    for j in joins {
        if j.join().is_err() {
            eprintln!("harness: a replay thread failed");
            std::process::exit(2);
        }
    }
    if let Some(mut f) = sh.judge.lock().unwrap().take() {
        f.flush().unwrap();
    }
    let never: Vec<String> = (1..=sh.taken.len())
        .filter(|i| sh.taken[i - 1].load(Ordering::Relaxed) == 0)
        .map(|i| i.to_string())
        .collect();
    if !never.is_empty() {
        println!("REPLAY untaken {}", never.join(" "));
    }
    println!("REPLAY done transitions {} differences {}", sh.done.load(Ordering::SeqCst), sh.bad.load(Ordering::SeqCst));
}
