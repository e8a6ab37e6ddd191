"""Corrupts what was recorded of the unchanged code, one observation at a time,
and expects the trace specifications to reject it at that line for the right
reason.  A field that could be wrong without anyone noticing shows up here."""
import json, os, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import run as R


def flip(b):
    return b[:-1] + [b[-1] ^ 1]


def up(field):
    return lambda o: o.update({field: o[field] + 1})


def to(field, v):
    return lambda o: o.update({field: v})


def edit(field, f):
    return lambda o: o.update({field: f(o[field])})


def later(o, field):
    return o.get("o", {}).get(field)


def hname(b):
    """The same string, the letter a, with the Huffman code: a is 00011."""
    return [0x81, 0x1f] + b[1 + b[0]:]


# judge, drivers, which line, what is changed in its observation, aspect
CASES = [
    ("H", "lockstep", lambda c: c["op"] == "enc_lit" and c["o"]["res"] == "ok", to("res", "err"), "encres"),
    ("H", "lockstep", lambda c: c["op"] == "enc_lit" and c["o"]["res"] == "ok" and len(c["o"]["bytes"]) > 3, edit("bytes", lambda b: b[:-1]), "garbled"),
    ("H", "lockstep", lambda c: c["op"] == "enc_lit" and c["o"]["res"] == "ok" and len(c["v"]) > 1 and c["f"] & 19 == 0, edit("bytes", flip), "mean"),
    ("H", "lockstep", lambda c: c["op"] == "enc_lit" and c["o"]["bytes"][:1] == [0x40] and c["f"] & 1 == 0 and c["o"]["bytes"][1] < 127, edit("bytes", lambda b: b[:1] + hname(b[1:])), "huff"),
    ("H", "lockstep", lambda c: c["op"] == "enc_lit" and c["o"]["bytes"][:1] == [0x40], edit("bytes", lambda b: [0] + b[1:]), "repr"),
    ("H", "lockstep", lambda c: c["op"] == "enc_idx" and c["o"]["res"] == "ok" and 0x81 < c["o"]["bytes"][0] < 0xbc, edit("bytes", lambda b: [b[0] ^ 1]), "ref"),
    ("H", "lockstep", lambda c: c["op"] == "enc_lit" and c["o"]["res"] == "ok", to("kept", False), "kept"),
    ("H", "refuse", lambda c: c["op"].startswith("enc") and c["o"]["res"] != "ok", to("bytes", [0x82]), "leak"),
    ("H", "refuse", lambda c: c["op"].startswith("enc") and c["o"]["res"] != "ok", to("res", "ok"), "encres"),
    ("H", "limits", lambda c: c["op"] == "resize" and c["o"]["res"] == "ok" and len(c["o"]["bytes"]) == 1 and c["o"]["bytes"][0] & 1, edit("bytes", lambda b: [b[0] ^ 1]), "upval"),
    ("H", "limits", lambda c: c["op"] == "resize" and c["o"]["res"] == "ok" and len(c["o"]["bytes"]) == 2, edit("bytes", lambda b: [b[0], b[1] | 0x80, 0]), "canon"),
    ("H", "pieces", lambda c: c["op"] == "decode" and c["o"]["res"] == "ok" and c["o"]["n"] > 0, up("n"), "n"),
    ("H", "pieces", lambda c: c["op"] == "decode" and c["o"]["res"] == "ok", to("res", "err"), "decres"),
    ("H", "pieces", lambda c: c["op"] == "decode" and len(c["o"]["rest"]) > 1, edit("rest", lambda b: b[1:]), "rest"),
    ("H", "pieces", lambda c: c["op"] == "decode" and len(c["o"]["fields"]) > 1, edit("fields", lambda b: b[1:]), "fields"),
    ("H", "pieces", lambda c: c["op"] == "decode" and len(c["o"]["fields"]) > 1, edit("fields", lambda b: [b[1], b[0]] + b[2:] if b[0] != b[1] else b[1:]), "fields"),
    ("H", "pieces", lambda c: c["op"] == "decode" and len(c["o"]["fields"]) > 0, edit("fields", lambda b: [b[0][:2] + [b[0][2] ^ 8]] + b[1:]), "flags"),
    ("H", "pieces", lambda c: c["op"] == "decode", to("kept", False), "dkept"),
    ("H", "junk", lambda c: c["op"] == "decode" and c["o"]["res"] == "err", to("kind", "Nonsense"), "kind"),
    ("H", "junk", lambda c: c["op"] == "decode", to("res", "panic"), "panic"),
    ("H", "junk", lambda c: c["op"] == "decode", to("res", "hang"), "panic"),
    ("H", "lockstep", lambda c: c["op"] == "probe" and len(c["o"]["dtab"]) > 1, edit("dtab", lambda b: b[:-1]), "dtab"),
    ("H", "lockstep", lambda c: c["op"] == "probe" and len(c["o"]["dtab"]) > 1 and c["o"]["dtab"][0] != c["o"]["dtab"][1], edit("dtab", lambda b: [b[1], b[0]] + b[2:]), "dtab"),
    ("H", "lockstep", lambda c: c["op"] == "probe", up("elen"), "elen"),
    ("H", "lockstep", lambda c: c["op"] == "probe", edit("dmax", lambda m: [m[0], m[1] ^ 1]), "dmax"),
    ("H", "lockstep", lambda c: c["op"] == "probe", edit("emax", lambda m: [m[0], m[1] ^ 1]), "emax"),
    ("H", "find", lambda c: c["op"] == "probe" and len(c["o"]["efind"]) > 0, edit("efind", lambda b: b[:-1]), "efind"),
    ("H", "table", lambda c: c["op"] == "t_stat", up("len"), "tlen"),
    ("H", "table", lambda c: c["op"] == "t_stat", up("dlen"), "tdlen"),
    ("H", "table", lambda c: c["op"] == "t_stat", up("size"), "tsize"),
    ("H", "table", lambda c: c["op"] == "t_stat", edit("max", lambda m: [m[0], m[1] ^ 1]), "tmax"),
    ("H", "table", lambda c: c["op"] == "t_get" and c["o"]["entry"], edit("entry", lambda e: []), "tget"),
    ("H", "table", lambda c: c["op"] == "t_get" and c["o"]["entry"], edit("entry", lambda e: [[e[0][0], e[0][1] + [1]]]), "tget"),
    ("H", "table", lambda c: c["op"] == "t_find" and c["o"]["index"] > 0, up("index"), "tfind"),
    ("H", "table", lambda c: c["op"] == "t_find" and c["o"]["index"] > 0, edit("full", lambda x: not x), "tfind"),
    ("H", "table", lambda c: c["op"] in ("t_iter", "t_dyn") and c["o"]["entries"], edit("entries", lambda e: e[:-1]), "titer"),
    ("H", "find", lambda c: c["op"] == "enc_lit" and c["o"]["res"] == "ok" and c["f"] & 12 == 0 and c["o"]["bytes"][0] in (0, 0x40, 0x10) and len(c["v"]) > 0 and len(c["n"]) < 100,
     edit("bytes", lambda b: b), None),      # nothing changed: accepted
    ("F", "henc", lambda c: c["op"] == "henc" and len(c["b"]) > 0, edit("bytes", flip), "hbytes"),
    ("F", "henc", lambda c: c["op"] == "henc" and len(c["b"]) > 0, edit("bytes", lambda b: b + [255]), "hbytes"),
    ("F", "henc", lambda c: c["op"] == "henc", to("res", "err"), "hencres"),
    ("F", "henc", lambda c: c["op"] == "henc", to("kept", False), "hkept"),
    ("F", "hdec", lambda c: c["op"] == "hdec" and c["o"]["res"] == "ok", to("res", "err"), "hdecres"),
    ("F", "hdec", lambda c: c["op"] == "hdec" and c["o"]["res"] == "err", to("res", "ok"), "hdecres"),
    ("F", "hdec", lambda c: c["op"] == "hdec" and c["o"]["res"] == "ok" and c["o"]["out"], edit("out", flip), "hout"),
    ("F", "hdec", lambda c: c["op"] == "hdec", to("kept", False), "hkept"),
    ("F", "hflat", lambda c: c["op"] == "hflat", edit("table", lambda t: t[:-1]), "hflat"),
    ("F", "htables", lambda c: c["op"] == "htab" and c["s"] == 4, edit("table", lambda t: t[:7] + [t[8]] + t[8:]), "htab"),
    ("F", "htables", lambda c: c["op"] == "hknown", edit("speeds", lambda t: t[:-1]), "hspeeds"),
    ("F", "htables", lambda c: c["op"] == "hcodes", edit("codes", lambda t: [t[1], t[0]] + t[2:]), "hcodes"),
    ("F", "hparse", lambda c: c["op"] == "hparse" and len(c["o"]["codes"]) > 1, edit("codes", lambda t: t[:-1]), "hparse"),
    ("P", "penc", lambda c: c["op"] == "penc" and c["o"]["res"] == "ok" and c["o"]["bytes"], edit("bytes", flip), "pbytes"),
    ("P", "penc", lambda c: c["op"] == "penc" and c["o"]["res"] == "ok", up("n"), "pn"),
    ("P", "penc", lambda c: c["op"] == "penc" and c["o"]["res"] == "ok", to("res", "err"), "pres"),
    ("P", "penc", lambda c: c["op"] == "penc", to("kept", False), "pkept"),
    ("P", "penc", lambda c: c["op"] == "penc" and c["o"]["res"] != "ok", to("bytes", [8]), "pleak"),
    ("P", "pchunk", lambda c: c["op"] == "pdec" and c["o"]["res"] == "ok", to("res", "err"), "pdecres"),
    ("P", "pchunk", lambda c: c["op"] == "pdec" and c["o"]["res"] == "ok", up("n"), "pn2"),
    ("P", "pchunk", lambda c: c["op"] == "pdec" and c["o"]["fields"], edit("fields", lambda f: f[1:]), "pfields"),
    ("P", "pchunk", lambda c: c["op"] == "pdec" and c["o"]["rest"], edit("rest", lambda f: f[1:]), "prest"),
    ("P", "pchunk", lambda c: c["op"] == "pdec", to("kept", False), "pdkept"),
    ("P", "pbad", lambda c: c["op"] == "pdec" and c["o"]["res"] == "err", to("kind", "Nonsense"), "pkind"),
    ("P", "pbad", lambda c: c["op"] == "ptyp", edit("typ", lambda t: [5, t[1]]), "ptyp"),
    ("P", "plit", lambda c: c["op"] == "lit" and c["to"] == "u64" and c["t"] == "uint64" and c["o"]["v"], edit("v", flip), "plit"),
    ("P", "pfault", lambda c: c["op"] == "pencf" and c["o"]["res"] == "ok", up("n"), "pn"),
    ("P", "pfault", lambda c: c["op"] == "pencf" and c["o"]["res"] == "ok" and len(c["o"]["bytes"]) > 1, edit("bytes", lambda b: b[:-1]), "swhole"),
    ("P", "pfault", lambda c: c["op"] == "pencf" and c["o"]["failed"] and len(c["o"]["bytes"]) > 1, edit("bytes", flip), "sprefix"),
    ("P", "pfault", lambda c: c["op"] == "pencf" and c["o"]["failed"], to("res", "ok"), "sres"),
]


def main():
    R.build()
    work = tempfile.mkdtemp(prefix="self-", dir=R.BUILD)
    try:
        traces = {}
        for _, d, *_ in CASES:
            if d not in traces:
                t = os.path.join(work, d)
                subprocess.run([R.HARNESS, "drive", d, "77", "300", t], check=True, capture_output=True)
                traces[d] = [json.loads(l) for l in open(t)]

        def one(k):
            judge, d, pick, change, aspect = CASES[k]
            lines = traces[d]
            at = next((i for i, c in enumerate(lines) if i and "o" in c and pick(c)), None)
            if at is None:
                return "no line for case %d %s %s" % (k, d, aspect)
            c = json.loads(json.dumps(lines[at]))
            try:
                change(c["o"])
            except Exception as e:
                return "case %d %s %s: cannot change %s: %r" % (k, d, aspect, json.dumps(c)[:300], e)
            t = os.path.join(work, "case%d" % k)
            with open(t, "w") as f:
                for i, x in enumerate(lines):
                    f.write(json.dumps(c if i == at else x) + "\n")
            meta = t + ".meta"
            r = subprocess.run(R.tlc_cmd(R.TRACE_SPECS[judge], R.TRACE_SPECS[judge] + ".cfg", 1, meta, "2g"), cwd=R.SPEC,
                               capture_output=True, text=True, env=dict(os.environ, TRACE=t))
            shutil.rmtree(meta, ignore_errors=True)
            got = [json.loads(json.loads(l)[9:]) for l in r.stdout.splitlines() if l.startswith('"MISMATCH ')]
            if '"TRACE-END %d"' % len(lines) not in r.stdout:
                return "case %d %s %s: not judged\n%s" % (k, d, aspect, R.tlc_error(r.stdout))
            if aspect is None:
                return "" if not got else "case %d %s: alarm on what was recorded" % (k, d)
            if not any(m["line"] == at + 1 and aspect in m["aspects"] for m in got):
                return "case %d %s: %s not seen, but %s" % (k, d, aspect, [(m["line"] - at - 1, m["aspects"]) for m in got])
            return ""

        with ThreadPoolExecutor(6) as ex:
            bad = [x for x in ex.map(one, range(len(CASES))) if x]
        known = set().union(*(p["aspects"] for p in R.P.values()))
        tried = {c[4] for c in CASES}
        for a in sorted(known - tried):
            bad.append("no case for aspect " + a)
        for x in bad:
            print("SELFTEST " + x)
        print("%d corruptions, %d not as expected" % (len(CASES), len(bad)))
        return 1 if bad else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)
