#!/usr/bin/env python3
"""A mutation campaign in scratch copies: mutate.py OUT.jsonl [--files RE]
[--guarded]
[--sample N] [--workers N].  No check runs this.

Small edits of the code that the repository's tests let through are put to the
models and drivers of all quick checks of the crate.  What the models print
does not depend on the code and is made once; a trace that is the same, octet
by octet, as the one of the unchanged code is not judged again.  The result of
each edit: build (does not compile), tests (found by the tests), caught (with
the properties that see it), MISSED."""
import json, os, random, re, shutil, subprocess, sys, threading, queue, hashlib, time
sys.path.insert(0, "/verif")
import run as R

REPO, VERIF, WORK = "/repo", "/verif", "/tmp/mut"
SKIP = re.compile(r"huffman/src/decoder/table\d|huffman/src/encoder/table|error\.rs$|examples/|tests/")
WORDS = threading.Lock()
CRATE = {"hpack": "H", "huffman": "F", "protos": "P"}


def sources():
    for c in CRATE:
        for root, _, files in os.walk(os.path.join(REPO, c, "src")):
            for f in sorted(files):
                p = os.path.relpath(os.path.join(root, f), REPO)
                if f.endswith(".rs") and not SKIP.search(p):
                    yield c, p


SWAPS = [(r" < ", [" <= ", " > "]), (r" > ", [" >= ", " < "]), (r" <= ", [" < ", " == "]), (r" >= ", [" > ", " == "]),
         (r" == ", [" != ", " >= "]), (r" != ", [" == "]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]),
         (r" \+= ", [" -= "]), (r" -= ", [" += "]), (r" << ", [" >> "]), (r" >> ", [" << "]), (r" & ", [" | "]),
         (r" \| ", [" & ", " ^ "]), (r" \|= ", [" = ", " ^= "]), (r" &= ", [" |= "]), (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" \^ ", [" | "]),
         (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r" % ", [" / "]), (r" / ", [" % "]),
         (r"\.saturating_sub\(", [".wrapping_sub("]), (r"\.min\(", [".max("]), (r"\.max\(", [".min("]),
         (r"push_front", ["push_back"]), (r"pop_back", ["pop_front"]), (r"\bas u64\b", ["as u32 as u64", "as i32 as u64"]),
         (r"\bas u32\b", ["as u16 as u32", "as i16 as u32"]), (r"\bas usize\b", ["as u8 as usize", "as u16 as usize", "as u32 as usize"]),
         (r"\bas u8\b", ["as i8 as u8 & 0x7f"]), (r"\bas i64\b", ["as i32 as i64"]), (r"\bas i32\b", ["as i16 as i32"]),
         (r"is_some\(\)", ["is_none()"]), (r"is_none\(\)", ["is_some()"]), (r"is_empty\(\)", ["len() == 1", "len() < 2"]),
         (r"\bif !", ["if "]), (r"\bbreak\b", ["continue"]), (r"\bcontinue\b", ["break"]), (r"\?;", [".ok();"]),
         (r"\.len\(\)", [".len() + 1"]), (r"to_le_bytes", ["to_be_bytes"]), (r"from_le_bytes", ["from_be_bytes"]),
         (r"\.\.=", [".."]), (r"checked_", ["wrapping_"])]


def mutants():
    for crate, path in sources():
        lines = open(os.path.join(REPO, path)).read().split("\n")
        end = next((i for i, l in enumerate(lines) if "#[cfg(test)]" in l), len(lines))
        variants = sorted({m for l in lines for m in re.findall(r"\b(?:Decoder|Encoder)Error::(\w+)", l)})
        static = path.endswith("static.rs")
        for i in range(end):
            l = lines[i]
            s = l.strip()
            if not s or s.startswith(("//", "#[", "use ", "pub use", "mod ", "pub mod")):
                continue
            out = []
            for pat, tos in SWAPS:
                for m in re.finditer(pat, l):
                    for t in tos:
                        out.append((l[:m.start()] + t + l[m.end():],))
            for m in re.finditer(r"(?<![\w.\"'])(0x[0-9a-fA-F_]+|0b[01_]+|\d+)(?![\w\"'])", l):
                v = int(m.group(1).replace("_", ""), 0)
                if static and random.random() > 0.2:
                    continue
                for w in {v + 1, v - 1, v * 2} - {v}:
                    if w >= 0:
                        out.append((l[:m.start()] + str(w) + l[m.end():],))
            if s.endswith(";") and not s.startswith(("let ", "return", "}")):
                out.append(("",))
                if s.endswith("?;") and " = " not in s:
                    out.append((l.replace(s, "let _ = " + s[:-2] + ";"),))
            if s.startswith("return ") and s.endswith(";"):
                out.append(("",))
            m = re.match(r"(\s*(?:\} else )?if )(?!let )(.*) \{$", l)
            if m:
                out.append((m.group(1) + "!(" + m.group(2) + ") {",))
                out.append((m.group(1) + "false && " + m.group(2) + " {",))
                out.append((m.group(1) + "true || " + m.group(2) + " {",))
            m = re.match(r"(\s*while )(?!let )(.*) \{$", l)
            if m:
                out.append((m.group(1) + "false && " + m.group(2) + " {",))
            for v in variants:
                for m in re.finditer(r"\b((?:Decoder|Encoder)Error)::(\w+)", l):
                    if m.group(2) != v:
                        out.append((l[:m.start(2)] + v + l[m.end(2):],))
            if re.search(r"=> .*,$", l):
                out.append(("",))
            if i + 1 < end:
                n = lines[i + 1]
                if s.endswith(";") and n.strip().endswith(";") and len(l) - len(l.lstrip()) == len(n) - len(n.lstrip()):
                    out.append((n, l))
            seen = set()
            for o in out:
                if o in seen or o == (l,):
                    continue
                seen.add(o)
                yield {"crate": crate, "file": path, "line": i + 1, "old": lines[i: i + len(o)], "new": list(o)}


# Edits that show only now and then: the edit is taken under a condition on
# what is at hand in the function.  (file, expressions, what they are)
HANDY = [("hpack/src/decoder/mod", "self.table.dynamic_len() self.table.dynamic_size() self.table.max_dynamic_size() buf.len() dst.len()",
          "buf.first() buf.last() buf.get(1) buf.get(2)"),
         ("hpack/src/decoder/primitives", "buf.len() dst.len() prefix_size", "buf.first() buf.last() buf.get(1) buf.get(2) dst.last()"),
         ("hpack/src/encoder/mod", "self.table.dynamic_len() self.table.dynamic_size() name.len() value.len() dst.len() flags index max_dynamic_size",
          "name.first() name.last() value.first() value.last() dst.last()"),
         ("hpack/src/encoder/primitives", "value flags data.len() bytes.len() dst.len()", "data.first() data.last() dst.last()"),
         ("hpack/src/table/dynamic", "self.list.len() self.size self.max_size name.len() value.len() index size", "name.first() value.last()"),
         ("hpack/src/table/", "self.dynamic_table.len() self.dynamic_table.size() name.len() value.len() index self.index", "name.first() value.last()"),
         ("huffman/src/decoder/mod", "src.len() dst.len() speed", "src.first() src.last() dst.last()"),
         ("huffman/src/decoder/reader", "self.speed self.id self.buf self.buf_size self.tail self.tail_size dst.len() byte", "dst.last()"),
         ("huffman/src/encoder/mod", "src.len() dst.len() bits bits_left code_len code byte", "src.first() src.last() dst.last()"),
         ("huffman/src/flattener", "table.len() speed coding.0 coding.1 transitions.len()", ""),
         ("huffman/src/parser", "data.len() line.len() lines.len()", ""),
         ("protos/src/decoder/mod", "buf.len() dst.len() self.key.0 self.ld_len.unwrap_or(7) size len", "buf.first() buf.last() buf.get(1)"),
         ("protos/src/decoder/primitives", "buf.len() dst.len() size total items.len() count value val", "buf.first() buf.last() buf.get(1)"),
         ("protos/src/decoder/lit", "bytes.len() val size buf.len()", "bytes.first() bytes.last() bytes.get(1)"),
         ("protos/src/encoder", "val vals.len() tag size value bytes.len()", "bytes.last() bytes.first()")]


def guard(path):
    size = lambda: random.choice([random.randrange(4), random.randrange(10), random.randrange(40), random.randrange(140), random.randrange(300),
                                  32 * random.randrange(1, 20), 1 << random.randrange(14)])
    nums, octets = next(((a.split(), b.split()) for f, a, b in HANDY if path.startswith(f)), (["1"], []))

    def one():
        k = random.randrange(11)
        if k == 0:
            return "{ static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0); " \
                   "N.fetch_add(1, std::sync::atomic::Ordering::Relaxed) %% %d == %d }" % (lambda n: (n, n - 1))(random.randrange(20, 400))
        if k < 4 and octets:
            return "%s == Some(&%d)" % (random.choice(octets), random.choice([random.randrange(256), 0, 255, 128, 127, 32, 58]))
        e = "(%s) as u64" % random.choice(nums)
        if k < 8:
            return "%s == %d" % (e, size())
        if k == 8:
            m = random.choice([3, 4, 5, 7, 8, 16, 64])
            return "%s %% %d == %d" % (e, m, random.randrange(m))
        if k == 9:
            return "%s & 0xff == %d" % (e, random.choice([0, 0, 0xff, random.randrange(256)]))
        return "%s > %d" % (e, max(size(), 30))

    g = one()
    if random.random() < (0.9 if "%" in g or ">" in g else 0.2):
        g += " && " + one()
    return g


def guarded(m):
    """The same edit under a condition, or None where that cannot be said."""
    if len(m["old"]) != 1 or m["file"].startswith("hpack/src/table/static"):
        return None
    old, new = m["old"][0], m["new"][0]
    if any(old.count(a) != old.count(b) for a, b in ("()", "[]")) or "//" in old.split('"')[0][:6]:
        return None
    strip = lambda l: re.sub(r"\s*//.*$", "", l).strip()
    o, n, g = strip(old), strip(new), guard(m["file"])
    a = re.match(r"(let (?:mut )?\w+(?:: [\w<>]+)? = )(.*);$", o)
    if a:
        b = re.match(r"(let (?:mut )?\w+(?:: [\w<>]+)? = )(.*);$", n)
        if not b or a.group(1) != b.group(1):
            return None
        r = "%sif %s { %s } else { %s };" % (a.group(1), g, b.group(2), a.group(2))
    elif re.match(r"(\} else )?if (?!let)", o) or re.match(r"while (?!let)", o):
        a, b = (re.match(r"((?:\} else )?if |while )(.*) \{$", x) for x in (o, n))
        if not a or not b or a.group(1) != b.group(1):
            return None
        r = "%s(if %s { %s } else { %s }) {" % (a.group(1), g, b.group(2), a.group(2))
    elif o.endswith(";") and not o.startswith(("let ", "}", "pub ", "const ", "type ")):
        r = "if %s { %s } else { %s }" % (g, n, o)
    elif re.match(r"(Ok|Err|Some|self\.|\()[^;{},]*$", o) or re.match(r"[\w.()]+ [-+*&|^<>=]+ [\w.()]+$", o):
        r = "if %s { %s } else { %s }" % (g, n, o)
    else:
        return None
    return dict(m, new=[r])


def sh(cmd, cwd, limit, env=None, stdin=None):
    """(code, output); kills the whole group when out of time."""
    p = subprocess.Popen("ulimit -v 8000000; exec " + cmd if not cmd.startswith("cargo") else cmd, shell=True, cwd=cwd, env=env,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=stdin, start_new_session=True, errors="replace")
    try:
        out, _ = p.communicate(timeout=limit)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return "timeout", ""


def quick_jobs(judge):
    """The distinct jobs of the quick tier of one crate, and who runs them."""
    jobs = {}
    for pid, p in R.P.items():
        for j in p["quick"]:
            if j[0] in ("ex", "pf") or (j[3] if j[0] == "mc" else j[2]) != judge:
                continue
            shards = range(j[4]) if j[0] == "dr" else [0]
            for s in shards:
                k = json.dumps([j[0], j[1], j[2], j[4] if j[0] == "mc" else j[3], s])
                jobs.setdefault(k, (j, s, []))[2].append(pid)
    return jobs


def model_output(j):
    """What TLC prints for a model: made once."""
    _, module, cfg, judge, over = j
    name = hashlib.sha256(json.dumps(j[1:]).encode()).hexdigest()[:16]
    path = os.path.join(WORK, "mc-" + name)
    if not os.path.exists(path):
        text = open(os.path.join(R.SPEC, cfg + ".cfg")).read()
        over = dict(over)
        num = over.pop("SIM", 0)
        for k, v in over.items():
            if k == "VIEW":
                text = re.sub(r"(?m)^VIEW .*$", "VIEW " + v, text)
            elif k != "SUFFIXES":
                text = re.sub(r"(?m)^(\s*)%s = .*$" % k, r"\g<1>%s = %s" % (k, v), text)
        c = path + ".cfg"
        open(c, "w").write(text)
        with open(path + ".part", "w") as f:
            more = ["-simulate", "num=%d" % num, "-depth", str(over["MaxCalls"] + 1), "-seed", "1"] if num else []
            subprocess.run(R.tlc_cmd(module, c, 1 if num else 6, path + ".meta", "8g") + more, cwd=R.SPEC, stdout=f, check=True)
        shutil.rmtree(path + ".meta", ignore_errors=True)
        os.rename(path + ".part", path)
    return path


def judge(module, trace, meta):
    r = subprocess.run(R.tlc_cmd(module, module + ".cfg", 1, meta, "3g"), cwd=R.SPEC, capture_output=True, text=True,
                       env=dict(os.environ, TRACE=trace), timeout=600)
    shutil.rmtree(meta, ignore_errors=True)
    asp = set()
    for l in r.stdout.splitlines():
        if l.startswith('"MISMATCH '):
            asp |= set(json.loads(json.loads(l)[9:])["aspects"])
    if not asp and "TRACE-END" not in r.stdout:
        return {"judge-failed"}
    return asp


class Worker:
    def __init__(self, n):
        self.dir = os.path.join(WORK, "w%d" % n)
        os.makedirs(self.dir, exist_ok=True)
        self.repo = os.path.join(self.dir, "repo")
        self.h = os.path.join(self.dir, "harness")
        for d in (self.repo, self.h):
            shutil.rmtree(d, ignore_errors=True)
        subprocess.run("git clone -q /repo %s && cp /repo/Cargo.lock %s/ && cp -a /verif/harness %s" % (self.repo, self.repo, self.h), shell=True, check=True)
        t = open(self.h + "/Cargo.toml").read().replace("/repo/", self.repo + "/")
        open(self.h + "/Cargo.toml", "w").write(t)
        self.env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=self.dir + "/target")
        self.henv = dict(self.env, CARGO_TARGET_DIR=self.dir + "/htarget")
        self.bin = self.dir + "/htarget/debug/vharness"

    def tests(self, crate):
        for cmd in ("cargo test --offline -q -p httlib-%s --lib" % crate, "cargo test --offline -q --workspace --no-fail-fast"):
            c, out = sh(cmd + " -- --test-threads 2", self.repo, 200, self.env)
            if c != 0:
                return "build" if "could not compile" in out else "tests"
        return None

    def traces(self, jobs, only=None):
        """Runs every job; yields (key, kind, path, differs)."""
        for k, (j, s, pids) in jobs.items():
            name = hashlib.sha256(k.encode()).hexdigest()[:16]
            if j[0] == "dr":
                t = "%s/t-%s" % (self.dir, name)
                w = self.dir + "/words.json"
                if k == next(iter(jobs)) or not os.path.exists(w):
                    with WORDS:
                        R.REPO = self.repo
                        open(w, "w").write(json.dumps(R.words()))
                c, out = sh("%s drive %s %d %d %s" % (self.bin, j[1], 1000 + s, j[3], t), self.dir, 240,
                            env=dict(os.environ, VH_LOG_MB="80", VH_WORDS=w))
                yield k, "dr", t, c
            else:
                d = "%s/d-%s" % (self.dir, name)
                shutil.rmtree(d, ignore_errors=True)
                os.makedirs(d)
                with open(model_output(j)) as f:
                    c, out = sh("%s replay %s %s" % (self.bin, d, j[4].get("SUFFIXES", "some")), self.dir, 600, stdin=f,
                                env=dict(os.environ, VH_CRUMB=d + "/crumb"))
                yield k, "mc", d, (c, out)

    def harness(self):
        c, out = sh("cargo build --offline --locked", self.h, 300, self.henv)
        return c == 0

    def evaluate(self, crate, jobs, base):
        seen, how = set(), []
        spec = R.TRACE_SPECS[CRATE[crate]]
        for k, kind, path, st in self.traces(jobs):
            j, s, pids = jobs[k]
            asp = set()
            if kind == "dr":
                if st != 0:
                    asp = {"panic"}
                elif hashlib.sha256(open(path, "rb").read()).hexdigest() != base.get(k):
                    asp = judge(spec, path, self.dir + "/meta")
            else:
                c, out = st
                m = re.search(r"differences (\d+)", out)
                if c != 0 or not m or "REPLAY hang" in out:
                    asp = {"panic"}
                else:
                    files = [x for x in sorted(os.listdir(path)) if x.endswith(".ndjson")]
                    h = hashlib.sha256()
                    for x in files:
                        h.update(open(os.path.join(path, x), "rb").read())
                    if h.hexdigest() != base.get(k):
                        one = path + "/all"
                        with open(one, "w") as f:
                            f.write('{"op":"cfg","from":"model"}\n')
                            for x in files:
                                f.writelines(open(os.path.join(path, x)).readlines()[1:])
                        asp = judge(spec, one, self.dir + "/meta")
            if asp:
                how.append([j[1] + ":" + (j[2] if kind == "mc" else ""), sorted(asp)])
                for p in pids:
                    if asp & R.P[p]["aspects"]:
                        seen.add(p)
        return sorted(seen), how

    def baseline(self, jobs):
        base = {}
        for k, kind, path, st in self.traces(jobs):
            if kind == "dr":
                assert st == 0, k
                base[k] = hashlib.sha256(open(path, "rb").read()).hexdigest()
            else:
                assert st[0] == 0, (k, st)
                h = hashlib.sha256()
                for x in sorted(os.listdir(path)):
                    if x.endswith(".ndjson"):
                        h.update(open(os.path.join(path, x), "rb").read())
                base[k] = h.hexdigest()
        return base

    def apply(self, m):
        p = os.path.join(self.repo, m["file"])
        lines = open(p).read().split("\n")
        assert lines[m["line"] - 1: m["line"] - 1 + len(m["old"])] == m["old"], m
        lines[m["line"] - 1: m["line"] - 1 + len(m["old"])] = m["new"]
        open(p, "w").write("\n".join(lines))

    def undo(self):
        subprocess.run("git checkout -q -- .", shell=True, cwd=self.repo, check=True)


def main():
    a = sys.argv[1:]
    opt = {x.split("=")[0]: x.split("=")[1] for x in a if x.startswith("--") and "=" in x}
    out = next(x for x in a if not x.startswith("--"))
    random.seed(int(opt.get("--seed", "1")))
    if "--from" in opt:       # run edits of an earlier campaign again
        todo = [json.loads(l) for l in open(opt["--from"])]
        todo = [m for m in todo if m["result"] == opt.get("--result", "MISSED")]
        for m in todo:
            m["again"] = True
    else:
        todo = [m for m in mutants() if re.search(opt.get("--files", "."), m["file"])]
    if "--guarded" in a:
        todo = [x for x in (guarded(m) for m in todo for _ in range(2)) if x]
    if "--sample" in opt:
        random.shuffle(todo)
        todo = todo[: int(opt["--sample"])]
    print(len(todo), "edits", flush=True)
    if "--count" in a:
        return
    done = set()
    if os.path.exists(out):
        for l in open(out):
            m = json.loads(l)
            done.add(json.dumps([m["file"], m["line"], m["new"]]))
    crates = sorted({m["crate"] for m in todo})
    jobs = {c: quick_jobs(CRATE[c]) for c in crates}
    w0 = Worker(0)
    assert w0.harness()
    base = {}
    for c in crates:
        for j, s, _ in jobs[c].values():
            if j[0] == "mc":
                model_output(j)
        t = time.time()
        base[c] = w0.baseline(jobs[c])
        print("baseline", c, len(jobs[c]), "jobs, %.0f s" % (time.time() - t), flush=True)
    q = queue.Queue()
    for m in todo:
        if json.dumps([m["file"], m["line"], m["new"]]) not in done:
            q.put(m)
    lock = threading.Lock()
    count = {}

    def work(n):
        w = w0 if n == 0 else Worker(n)
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                return
            try:
                w.apply(m)
                r = None if m.get("again") else w.tests(m["crate"])
                if r is None:
                    if not w.harness():
                        r = "build"
                    else:
                        m["seen"], m["how"] = w.evaluate(m["crate"], jobs[m["crate"]], base[m["crate"]])
                        r = "caught" if m["seen"] else "MISSED"
                m["result"] = r
            except Exception as e:
                m["result"] = "error: " + repr(e)[:300]
            finally:
                w.undo()
            with lock:
                m.pop("again", None)
                count[m["result"]] = count.get(m["result"], 0) + 1
                with open(out, "a") as f:
                    f.write(json.dumps(m) + "\n")
                if sum(count.values()) % 25 == 0:
                    print(time.strftime("%H:%M:%S"), count, q.qsize(), "left", flush=True)

    ts = [threading.Thread(target=work, args=(n,)) for n in range(int(opt.get("--workers", "6")))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    print(count)


if __name__ == "__main__":
    main()
