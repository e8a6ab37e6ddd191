#!/usr/bin/env python3
"""Runs the checks.

  run.py build             build the harness against /repo
  run.py check ID          decide property ID (VERIF_TIER, VERIF_SEED)
  run.py replay FILE       execute a recorded session again and judge it
  run.py selftest          corrupt recorded traces and see them rejected

Every check does two things.  TLC explores a finite instance of the
specification exhaustively, checks the property on it, and prints every
transition, which the harness replays on the real code.  Seeded drivers
exercise the real code, and TLC decides whether the recorded execution is a
behaviour of the specification.  All differences, from either side, are judged
by the trace specifications, which name them by aspects; a property is broken
when an aspect that belongs to it differs.
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
TARGET = os.path.join(BUILD, "target")
HARNESS = os.path.join(TARGET, "debug", "vharness")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TRACE_SPECS = {"H": "HpackTrace", "F": "HuffTrace", "P": "ProtoTrace"}


class ToolError(Exception):
    pass


# --------------------------------------------------------------------------
# What each property is decided by.
#   mc(MODULE, CONFIG, trace spec, overrides of constants)
#   sim(MODULE, CONFIG, trace spec, behaviours, calls in each, overrides)
#   dr(DRIVER, trace spec, events, shards)
#   ex(MODULE), pf(MODULE)
def mc(module, cfg, judge, **over):
    return ("mc", module, cfg, judge, over)


def sim(module, cfg, judge, num, depth, **over):
    """Random behaviours of the model instead of all short ones."""
    return ("mc", module, cfg, judge, dict(over, MaxCalls=depth, SIM=num))


def dr(driver, judge, events, shards=1):
    return ("dr", driver, judge, events, shards)


def ex(module):
    """The worked examples of the standard, as assumptions TLC evaluates."""
    return ("ex", module)


def pf(module):
    """A proof about the design, for every history and value, by tlapm."""
    return ("pf", module)


DEEP = {"VIEW": "View"}      # states are told apart by depth too
P = {}


def prop(pid, aspects, quick, thorough):
    P[pid] = {"aspects": set(aspects.split()), "quick": quick, "thorough": thorough}


prop("C01", "panic encres garbled mean decres fields dtab elen efind rest dmax emax",
     [ex("HpackExamples"), sim("HpackMC", "MC_lockstep", "H", 150, 50, MaxFlight=40), mc("HpackMC", "MC_lockstep", "H"), dr("lockstep", "H", 1500, 3), dr("wide", "H", 1500, 1), dr("marathon", "H", 1, 1), dr("huge", "H", 1, 1), dr("far", "H", 2600, 1), dr("patient", "H", 3000, 1), dr("echo", "H", 3000, 1), dr("alike", "H", 1500, 1), dr("hwords", "H", 6000, 1)],
     [pf("Lockstep"), ex("HpackExamples"), sim("HpackMC", "MC_lockstep", "H", 4000, 80, MaxFlight=40),
      mc("HpackMC", "MC_lockstep", "H", MaxFlight=8), mc("HpackMC", "MC_lockstep", "H", MaxCalls=7, **DEEP), mc("HpackMC", "MC_pieces", "H"),
      dr("lockstep", "H", 12000, 24), dr("find", "H", 6000, 4), dr("wide", "H", 4000, 6), dr("marathon", "H", 90000, 3), dr("huge", "H", 40, 2), dr("far", "H", 10000, 4), dr("patient", "H", 12000, 4), dr("echo", "H", 20000, 4), dr("alike", "H", 8000, 4), dr("hwords", "H", 40000, 4)])
prop("C02", "panic tlen tdlen tsize tmax titer tget dtab elen",
     [ex("WindowMC"), sim("HpackMC", "MC_table", "H", 150, 50), mc("HpackMC", "MC_table", "H"), dr("table", "H", 3000, 3), dr("lockstep", "H", 1000, 1), dr("wide", "H", 1500, 1), dr("crowd", "H", 60, 1), dr("marathon", "H", 1, 1), dr("patient", "H", 3000, 1), dr("echo", "H", 3000, 1), dr("hwords", "H", 6000, 1)],
     [pf("Eviction"), ex("WindowMC"), sim("HpackMC", "MC_table", "H", 4000, 80),
      mc("HpackMC", "MC_table", "H", MaxCalls=11), mc("HpackMC", "MC_table", "H", MaxCalls=6, **DEEP),
      dr("table", "H", 20000, 12), dr("lockstep", "H", 10000, 4), dr("wide", "H", 4000, 6), dr("crowd", "H", 600, 2), dr("marathon", "H", 90000, 3), dr("patient", "H", 12000, 4), dr("echo", "H", 20000, 4), dr("hwords", "H", 40000, 4)])
prop("C03", "tget titer tlen tfind panic encres ref mean fields decres kind efind",
     [sim("HpackMC", "MC_table", "H", 150, 50), mc("HpackMC", "MC_table", "H"), dr("statics", "H", 1500, 2), dr("near", "H", 10100, 1), dr("table", "H", 2000, 2), dr("wide", "H", 1500, 1), dr("crowd", "H", 60, 1), dr("far", "H", 2600, 1), dr("patient", "H", 3000, 1), dr("echo", "H", 3000, 1), dr("hwords", "H", 6000, 1)],
     [sim("HpackMC", "MC_table", "H", 4000, 80),
      mc("HpackMC", "MC_table", "H", MaxCalls=11), mc("HpackMC", "MC_int", "H"), dr("statics", "H", 10000, 6), dr("near", "H", 13000, 6),
      dr("table", "H", 20000, 8), dr("lockstep", "H", 10000, 4), dr("wide", "H", 4000, 6), dr("crowd", "H", 600, 2), dr("far", "H", 10000, 4), dr("patient", "H", 12000, 4), dr("echo", "H", 20000, 4), dr("hwords", "H", 40000, 4)])
prop("C04", "panic decres kind fields flags",
     [ex("HpackExamples"), sim("HpackMC", "MC_error", "H", 150, 50, MaxFlight=40), mc("HpackMC", "MC_all", "H"), mc("HpackMC", "MC_junk", "H"), dr("junk", "H", 6000, 3), dr("wide", "H", 1500, 1), dr("huge", "H", 1, 1), dr("patient", "H", 3000, 1), dr("alike", "H", 1500, 1), dr("hwords", "H", 6000, 1), mc("HpackMC", "MC_exact", "H", MaxCalls=4)],
     [ex("HpackExamples"), sim("HpackMC", "MC_error", "H", 4000, 80, MaxFlight=40),
      mc("HpackMC", "MC_junk", "H", MaxFlight=4), mc("HpackMC", "MC_error", "H", MaxCalls=5), mc("HpackMC", "MC_all", "H"),
      dr("junk", "H", 40000, 16), dr("wide", "H", 4000, 6), dr("huge", "H", 40, 2), dr("patient", "H", 12000, 4), dr("alike", "H", 8000, 4), dr("hwords", "H", 40000, 4), mc("HpackMC", "MC_exact", "H")])
prop("C05", "panic rest dtab dmax fields decres",
     [sim("HpackMC", "MC_pieces", "H", 150, 50, MaxFlight=40), mc("HpackMC", "MC_error", "H"), mc("HpackMC", "MC_pieces", "H", MaxFlight=6), dr("pieces", "H", 1500, 2), dr("junk", "H", 4000, 2), dr("patient", "H", 3000, 1), dr("echo", "H", 3000, 1), dr("hwords", "H", 6000, 1), mc("HpackMC", "MC_exact", "H", MaxCalls=4)],
     [pf("Chunking"), sim("HpackMC", "MC_pieces", "H", 4000, 80, MaxFlight=40),
      mc("HpackMC", "MC_error", "H", MaxCalls=5), mc("HpackMC", "MC_pieces", "H", MaxFlight=9),
      dr("pieces", "H", 10000, 12), dr("junk", "H", 40000, 8), dr("patient", "H", 12000, 4), dr("echo", "H", 20000, 4), dr("hwords", "H", 40000, 4), mc("HpackMC", "MC_exact", "H")])
prop("C06", "panic canon garbled ref mean upval decres kind fields n dmax",
     [ex("HpackExamples"), mc("HpackMC", "MC_int", "H"), dr("ints", "H", 1000, 3), dr("wide", "H", 1500, 1), dr("huge", "H", 1, 1), dr("far", "H", 2600, 1), dr("hwords", "H", 6000, 1)],
     [pf("Numbers"), ex("HpackExamples"), mc("HpackMC", "MC_int", "H"), mc("HpackMC", "MC_junk", "H", MaxFlight=4), dr("ints", "H", 8000, 20), dr("wide", "H", 4000, 6), dr("huge", "H", 40, 2), dr("far", "H", 10000, 4), dr("hwords", "H", 40000, 4)])
prop("C07", "panic garbled canon upval repr dmax emax dtab elen decres kind",
     [sim("HpackMC", "MC_limit", "H", 150, 50, MaxFlight=40), mc("HpackMC", "MC_limit", "H"), dr("limits", "H", 2500, 3), dr("wide", "H", 1500, 1), dr("patient", "H", 3000, 1), dr("echo", "H", 3000, 1), dr("hwords", "H", 6000, 1)],
     [sim("HpackMC", "MC_limit", "H", 4000, 80, MaxFlight=40),
      mc("HpackMC", "MC_limit", "H", MaxFlight=7, MaxCalls=8), mc("HpackMC", "MC_limit", "H", MaxCalls=5, **DEEP),
      dr("limits", "H", 15000, 16), dr("wide", "H", 4000, 6), dr("patient", "H", 12000, 4), dr("echo", "H", 20000, 4), dr("hwords", "H", 40000, 4)])
prop("C08", "panic repr huff flags dtab elen garbled encres",
     [sim("HpackMC", "MC_flag", "H", 150, 50, MaxFlight=60, Alone='FALSE'), mc("HpackMC", "MC_flag", "H"), dr("find", "H", 1200, 2), dr("near", "H", 10100, 1), dr("lockstep", "H", 1200, 1), dr("far", "H", 2600, 1), dr("patient", "H", 3000, 1), dr("alike", "H", 1500, 1), dr("hwords", "H", 6000, 1)],
     [sim("HpackMC", "MC_flag", "H", 4000, 80, MaxFlight=60, Alone='FALSE'),
      mc("HpackMC", "MC_flag", "H", MaxCalls=20), dr("find", "H", 10000, 8), dr("near", "H", 20000, 6), dr("lockstep", "H", 10000, 8), dr("far", "H", 10000, 4), dr("patient", "H", 12000, 4), dr("alike", "H", 8000, 4), dr("hwords", "H", 40000, 4)])
prop("C09", "panic repr ref mean garbled tfind efind encres",
     [sim("HpackMC", "MC_find", "H", 150, 50, MaxFlight=60, Alone='FALSE'), mc("HpackMC", "MC_find", "H"), dr("find", "H", 1500, 3), dr("near", "H", 10100, 1), dr("table", "H", 1500, 1), dr("crowd", "H", 60, 1), dr("far", "H", 2600, 1), dr("patient", "H", 3000, 1), dr("echo", "H", 3000, 1), dr("alike", "H", 1500, 1), dr("hwords", "H", 6000, 1)],
     [sim("HpackMC", "MC_find", "H", 4000, 80, MaxFlight=60, Alone='FALSE'),
      mc("HpackMC", "MC_find", "H", MaxCalls=24), mc("HpackMC", "MC_find", "H", Alone='FALSE', MaxFlight=18, MaxCalls=6, **DEEP),
      dr("find", "H", 10000, 16), dr("near", "H", 13000, 6), dr("table", "H", 10000, 4), dr("crowd", "H", 600, 2), dr("far", "H", 10000, 4), dr("patient", "H", 12000, 4), dr("echo", "H", 20000, 4), dr("alike", "H", 8000, 4), dr("hwords", "H", 40000, 4)])
prop("C10", "panic n rest fields dkept decres",
     [sim("HpackMC", "MC_pieces", "H", 150, 50, MaxFlight=40), mc("HpackMC", "MC_pieces", "H"), dr("pieces", "H", 1500, 3), dr("wide", "H", 1500, 1), dr("marathon", "H", 1, 1), dr("patient", "H", 3000, 1), dr("hwords", "H", 6000, 1), mc("HpackMC", "MC_exact", "H", MaxCalls=4)],
     [pf("Chunking"), sim("HpackMC", "MC_pieces", "H", 4000, 80, MaxFlight=40),
      mc("HpackMC", "MC_pieces", "H", MaxFlight=9), mc("HpackMC", "MC_error", "H"), dr("pieces", "H", 10000, 16), dr("limits", "H", 10000, 4), dr("wide", "H", 4000, 6), dr("marathon", "H", 90000, 3), dr("patient", "H", 12000, 4), dr("hwords", "H", 40000, 4), mc("HpackMC", "MC_exact", "H")])
prop("C11", "panic encres leak kept elen efind emax fields",
     [sim("HpackMC", "MC_refuse", "H", 150, 50, MaxFlight=40), mc("HpackMC", "MC_refuse", "H", MaxFlight=7), dr("refuse", "H", 1500, 3), dr("wide", "H", 1500, 1), dr("patient", "H", 3000, 1), dr("echo", "H", 3000, 1), dr("hwords", "H", 6000, 1)],
     [sim("HpackMC", "MC_refuse", "H", 4000, 80, MaxFlight=40),
      mc("HpackMC", "MC_refuse", "H", MaxFlight=10), mc("HpackMC", "MC_refuse", "H", MaxCalls=5, **DEEP), dr("refuse", "H", 10000, 16), dr("wide", "H", 4000, 6), dr("patient", "H", 12000, 4), dr("echo", "H", 20000, 4), dr("hwords", "H", 40000, 4)])
prop("C12", "panic hencres hbytes hkept hdecres hout",
     [mc("HuffMC", "MC_henc", "F"), dr("henc", "F", 1000, 3), dr("hlong", "F", 80, 1), dr("hhuge", "F", 1, 1), dr("halike", "F", 1500, 1), dr("fwords", "F", 4000, 1)],
     [mc("HuffMC", "MC_henc", "F"), dr("henc", "F", 8000, 16), dr("hlong", "F", 200, 6), dr("hhuge", "F", 6, 2), dr("halike", "F", 8000, 4), dr("fwords", "F", 20000, 4)])
prop("C13", "panic hspeeds hdecres hout hkept",
     [mc("HuffMC", "MC_hdec", "F"), dr("hdec", "F", 1500, 3), dr("hlong", "F", 80, 1), dr("htables", "F", 100, 1), dr("hhuge", "F", 1, 1), dr("halike", "F", 1500, 1), dr("fwords", "F", 4000, 1)],
     [mc("HuffMC", "MC_hdec", "F", SUFFIXES="all"), dr("hdec", "F", 12000, 16), dr("hlong", "F", 200, 6), dr("hhuge", "F", 6, 2), dr("halike", "F", 8000, 4), dr("fwords", "F", 20000, 4)])
prop("C14", "panic hspeeds hflat htab hcodes hparse",
     [mc("FlattenMC", "FlattenMC", "F", MaxSymbols=4), dr("htables", "F", 100, 1), dr("hflat", "F", 700, 2), dr("hparse", "F", 1500, 1)],
     [mc("FlattenMC", "FlattenMC", "F", MaxSymbols=5), dr("htables", "F", 100, 1), dr("hflat", "F", 10000, 8), dr("hparse", "F", 10000, 1)])
PENC = "panic pres pbytes pn pkept pleak"
PDEC = "panic pdecres pkind pn2 pfields prest pdkept"
prop("C15", PENC,
     [ex("ProtoExamples"), mc("ProtoFunMC", "MC_penc", "P"), dr("penc", "P", 6000, 3), dr("pwide", "P", 400, 1), dr("palike", "P", 4000, 1), dr("pwords", "P", 8000, 1)],
     [pf("Numbers"), ex("ProtoExamples"), mc("ProtoFunMC", "MC_penc", "P"), dr("penc", "P", 60000, 16), dr("pwide", "P", 1000, 6), dr("palike", "P", 30000, 4), dr("pwords", "P", 50000, 4)])
prop("C16", PENC + " " + PDEC + " plit",
     [ex("ProtoExamples"), sim("ProtoMC", "MC_pgood", "P", 150, 50, MaxHeld=60), mc("ProtoMC", "MC_plong", "P", MaxCalls=3), mc("ProtoFunMC", "MC_penc", "P"), dr("pmsg", "P", 5000, 3), dr("pwide", "P", 400, 1), dr("pmany", "P", 1, 1), dr("phuge", "P", 1, 1), dr("ppatient", "P", 3000, 1), dr("palike", "P", 4000, 1), dr("pwords", "P", 8000, 1), mc("ProtoMC", "MC_prefuse", "P", MaxCalls=4), sim("ProtoMC", "MC_prefuse", "P", 150, 50, MaxHeld=60)],
     [ex("ProtoExamples"), sim("ProtoMC", "MC_pgood", "P", 4000, 80, MaxHeld=60),
      mc("ProtoMC", "MC_plong", "P", MaxCalls=4), mc("ProtoFunMC", "MC_penc", "P"), dr("pmsg", "P", 50000, 16), dr("pwide", "P", 1000, 6), dr("pmany", "P", 60000, 3), dr("phuge", "P", 30, 2), dr("ppatient", "P", 12000, 4), dr("palike", "P", 30000, 4), dr("pwords", "P", 50000, 4), mc("ProtoMC", "MC_prefuse", "P", MaxCalls=6), sim("ProtoMC", "MC_prefuse", "P", 4000, 80, MaxHeld=60)])
prop("C17", "panic pdecres pn2 pfields prest pdkept",
     [sim("ProtoMC", "MC_pgood", "P", 150, 50, MaxHeld=60), mc("ProtoMC", "MC_poctet", "P"), mc("ProtoMC", "MC_plong", "P", MaxCalls=3), dr("pchunk", "P", 5000, 3), dr("pwide", "P", 400, 1), dr("pmany", "P", 1, 1), dr("phuge", "P", 1, 1), dr("ppatient", "P", 3000, 1), dr("palike", "P", 4000, 1), dr("pwords", "P", 8000, 1), mc("ProtoMC", "MC_prefuse", "P", MaxCalls=4), sim("ProtoMC", "MC_prefuse", "P", 150, 50, MaxHeld=60)],
     [pf("Chunking"), sim("ProtoMC", "MC_pgood", "P", 4000, 80, MaxHeld=60),
      mc("ProtoMC", "MC_poctet", "P", MaxCalls=8), mc("ProtoMC", "MC_plong", "P"), dr("pchunk", "P", 50000, 16), dr("pwide", "P", 1000, 6), dr("pmany", "P", 60000, 3), dr("phuge", "P", 30, 2), dr("ppatient", "P", 12000, 4), dr("palike", "P", 30000, 4), dr("pwords", "P", 50000, 4), mc("ProtoMC", "MC_prefuse", "P", MaxCalls=6), sim("ProtoMC", "MC_prefuse", "P", 4000, 80, MaxHeld=60)])
prop("C18", PDEC + " ptyp",
     [ex("ProtoExamples"), sim("ProtoMC", "MC_plong", "P", 150, 50, MaxHeld=60), mc("ProtoMC", "MC_pall", "P"), mc("ProtoMC", "MC_plong", "P", MaxCalls=3), dr("pbad", "P", 5000, 3), dr("pwide", "P", 400, 1), dr("pmany", "P", 1, 1), dr("ppatient", "P", 3000, 1), dr("palike", "P", 4000, 1), dr("pwords", "P", 8000, 1), mc("ProtoMC", "MC_prefuse", "P", MaxCalls=4), sim("ProtoMC", "MC_prefuse", "P", 150, 50, MaxHeld=60)],
     [ex("ProtoExamples"), sim("ProtoMC", "MC_plong", "P", 4000, 80, MaxHeld=60),
      mc("ProtoMC", "MC_pall", "P"), mc("ProtoMC", "MC_plong", "P"), mc("ProtoMC", "MC_poctet", "P", MaxCalls=8), dr("pbad", "P", 50000, 16), dr("pwide", "P", 1000, 6), dr("pmany", "P", 60000, 3), dr("ppatient", "P", 12000, 4), dr("palike", "P", 30000, 4), dr("pwords", "P", 50000, 4), mc("ProtoMC", "MC_prefuse", "P", MaxCalls=6), sim("ProtoMC", "MC_prefuse", "P", 4000, 80, MaxHeld=60)])
prop("C19", "panic pres pbytes pn plit",
     [mc("ProtoFunMC", "MC_penc", "P"), dr("pvec", "P", 5000, 3), dr("pcount", "P", 6500, 1), dr("pwide", "P", 400, 1), dr("phuge", "P", 7, 1), dr("palike", "P", 4000, 1), dr("pwords", "P", 8000, 1)],
     [mc("ProtoFunMC", "MC_penc", "P"), mc("ProtoFunMC", "MC_plit", "P"), dr("pvec", "P", 50000, 16), dr("pcount", "P", 20000, 4), dr("pwide", "P", 1000, 6), dr("phuge", "P", 30, 2), dr("palike", "P", 30000, 4), dr("pwords", "P", 50000, 4)])
prop("C20", "panic plit",
     [mc("ProtoFunMC", "MC_plit", "P"), dr("plit", "P", 6000, 2), dr("pcount", "P", 6500, 1), dr("palike", "P", 4000, 1), dr("pwords", "P", 8000, 1)],
     [pf("Numbers"), mc("ProtoFunMC", "MC_plit", "P"), dr("plit", "P", 80000, 16), dr("pcount", "P", 20000, 4), dr("palike", "P", 30000, 4), dr("pwords", "P", 50000, 4)])
prop("C21", "panic pres pleak sres sprefix swhole pn",
     [mc("ProtoSinkMC", "MC_psink", "P"), mc("ProtoFunMC", "MC_penc", "P"), dr("pfault", "P", 5000, 3)],
     [pf("Writing"), mc("ProtoSinkMC", "MC_psink", "P", MaxScript=5), mc("ProtoFunMC", "MC_penc", "P"), dr("pfault", "P", 50000, 16)])
# A difference counts here only if the instance behaves otherwise when alone.
prop("C22", "together nested",
     [mc("HpackMC", "MC_twins", "H"), sim("HpackMC", "MC_twins", "H", 150, 50, MaxFlight=40),
      mc("ProtoMC", "MC_ptwins", "P"), sim("ProtoMC", "MC_ptwins", "P", 150, 50, MaxHeld=60),
      dr("twins", "H", 2500, 2), dr("ptwins", "P", 3000, 2), dr("hpar", "H", 4000, 1), dr("ppar", "P", 4000, 1), dr("fpar", "F", 1000, 1), dr("nest", "P", 1500, 1)],
     [mc("HpackMC", "MC_twins", "H", MaxCalls=7), sim("HpackMC", "MC_twins", "H", 4000, 80, MaxFlight=40),
      mc("ProtoMC", "MC_ptwins", "P", MaxCalls=6), sim("ProtoMC", "MC_ptwins", "P", 4000, 80, MaxHeld=60),
      dr("twins", "H", 20000, 12), dr("ptwins", "P", 30000, 12), dr("hpar", "H", 20000, 4), dr("ppar", "P", 30000, 4), dr("fpar", "F", 3000, 4), dr("nest", "P", 8000, 4)])


# --------------------------------------------------------------------------
# The literals of the source, as words for the drivers: code that treats some
# string or number in a way of its own has to name it.  They choose inputs
# only; what is right is for the specification to say.
def words():
    strs, nums = set(), set()
    esc = {"n": 10, "r": 13, "t": 9, "0": 0, "\\": 92, "'": 39, '"': 34}

    def text(lit):
        """The octets of a string or character literal."""
        raw = "r" in lit[:2]
        body = lit[lit.index(lit[-1]) + 1: -1]
        out, i = bytearray(), 0
        while i < len(body):
            ch = body[i]
            if ch != "\\" or raw:
                out += ch.encode()
                i += 1
            elif body[i + 1] == "x":
                out.append(int(body[i + 2:i + 4], 16))
                i += 4
            elif body[i + 1] == "u":
                j = body.index("}", i)
                out += chr(int(body[i + 3:j].replace("_", ""), 16)).encode("utf-8", "replace")
                i = j + 1
            elif body[i + 1] in esc:
                out.append(esc[body[i + 1]])
                i += 2
            else:
                i += 2
        return bytes(out)

    top = {"u8": 2**8 - 1, "u16": 2**16 - 1, "u32": 2**32 - 1, "u64": 2**64 - 1, "usize": 2**64 - 1,
           "i8": 2**7 - 1, "i16": 2**15 - 1, "i32": 2**31 - 1, "i64": 2**63 - 1}
    token = re.compile(r'//[^\n]*|b?"(?:\\.|[^"\\])*"|b?\'(?:\\x[0-9a-fA-F]{2}|\\u\{[^}]*\}|\\.|[^\'\\\n])\''
                       r'|[A-Za-z_]\w*|0x[0-9a-fA-F_]+|0o[0-7_]+|0b[01_]+|\d[\d_]*|<<|\S', re.S)
    for part in ("hpack", "huffman", "protos"):
        for root, dirs, files in os.walk(os.path.join(REPO, part, "src")):
            dirs.sort()
            for f in sorted(files):
                if not f.endswith(".rs"):
                    continue
                with open(os.path.join(root, f), errors="replace") as x:
                    t = x.read().split("#[cfg(test)]")[0]
                t = re.sub(r"/\*.*?\*/", " ", t, flags=re.S)
                toks, here, lits = [x for x in token.findall(t) if not x.startswith("//")], set(), 0
                val = [None] * len(toks)
                for k, x in enumerate(toks):
                    try:
                        if x[0].isdigit():
                            val[k] = int(x.replace("_", ""), 0) if not re.match(r"0\d", x) else int(x.replace("_", ""))
                            lits += 1
                        elif x == "MAX" and k > 2 and toks[k - 3] in top:
                            val[k] = top[toks[k - 3]]
                        elif x[-1] in "\"'" and len(x) > 1:
                            b = text(x)
                            if x[-1] == '"':
                                strs.add(b[:300])
                            elif len(b) == 1:
                                val[k] = b[0]
                            else:
                                strs.add(b)
                    except (ValueError, IndexError):
                        pass
                for k, v in enumerate(val):
                    if v is None:
                        continue
                    here.add(v)
                    if k + 2 < len(toks) and val[k + 2] is not None:
                        if toks[k + 1] == "<<" and val[k + 2] < 64:
                            here.add(v << val[k + 2])
                        if toks[k + 1] == "*":
                            here.add(v * val[k + 2])
                # sequences of octets
                for g in re.findall(r"\[((?:\s*(?:0x[0-9a-fA-F]{1,2}|\d{1,3}|b'(?:\\.|.)')\s*,?){1,40})\]", t)[:200]:
                    xs = [v for v in (int(y, 0) if y[0].isdigit() and not re.match(r"0\d", y) else None for y in re.findall(r"0x\w+|\d+", g)) if v is not None]
                    if xs and all(v < 256 for v in xs) and "b'" not in g:
                        strs.add(bytes(xs))
                if lits <= 400:                       # not one of the tables
                    nums |= {v for v in here if v < 2**64}
    return {"strs": [list(b) for b in sorted(strs) if b], "nums": [str(v) for v in sorted(nums)]}


# --------------------------------------------------------------------------
def source_hash():
    h = hashlib.sha256()
    for base in (REPO, os.path.join(VERIF, "harness")):
        for root, dirs, files in os.walk(base):
            dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
            for f in sorted(files):
                if f.endswith((".rs", ".toml", ".lock", ".txt")):
                    p = os.path.join(root, f)
                    h.update(p.encode() + b"\0")
                    with open(p, "rb") as x:
                        h.update(x.read())
    return h.hexdigest()


def build():
    os.makedirs(BUILD, exist_ok=True)
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    stamp = os.path.join(BUILD, "sources.sha256")
    now = source_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    hdir = os.path.join(VERIF, "harness")
    if old != now:
        # Timestamps of copied trees are not to be trusted.
        for pkg in ("httlib-hpack", "httlib-huffman", "httlib-protos", "vharness"):
            subprocess.run(["cargo", "clean", "--offline", "-p", pkg], cwd=hdir, env=env, capture_output=True)
    r = subprocess.run(["cargo", "build", "--offline", "--locked"], cwd=hdir, env=env, capture_output=True, text=True)
    if r.returncode != 0 or not os.path.exists(HARNESS):
        raise ToolError("the harness does not build:\n" + r.stderr[-4000:])
    with open(stamp, "w") as f:
        f.write(now)


def tlc_cmd(module, cfg, workers, meta, heap):
    gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
    return ["java", gc, "-Xmx" + heap, "-Xss256m", "-XX:TieredStopAtLevel=4", "-cp", TLA, "tlc2.TLC", "-metadir", meta,
            "-workers", str(workers), "-noGenerateSpecTE", "-config", cfg, module + ".tla"]


def unescape(line):
    return json.loads(line)          # TLC prints strings the way JSON does


def tlc_error(out):
    """What went wrong, without the states that led there."""
    i = out.find("Error:")
    return out[max(i, 0): max(i, 0) + 1500] + "\n...\n" + out[-500:]


# --------------------------------------------------------------------------
class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.work = tempfile.mkdtemp(prefix="w-%s-" % pid, dir=BUILD)
        self.words = os.path.join(self.work, "words.json")
        with open(self.words, "w") as f:
            json.dump(words(), f)
        self.lock = threading.Lock()
        self.sem = threading.Semaphore(8)        # cores
        self.gate = threading.Lock()
        self.mismatches = []                     # (aspects, file, line, report)
        self.jobs = []                           # evidence of each job
        self.samples = []
        self.limit = 700 if tier == "quick" else 6 * 3600

    def cores(self, n):
        with self.gate:
            for _ in range(n):
                self.sem.acquire()

    def free(self, n):
        for _ in range(n):
            self.sem.release()

    # -- trace validation ---------------------------------------------------
    def validate(self, judge, trace):
        """Lets TLC decide a recorded trace; returns what it reported."""
        module = TRACE_SPECS[judge]
        with open(trace) as f:
            total = sum(1 for _ in f)
        if total < 2:
            raise ToolError("empty trace " + trace)
        meta = tempfile.mkdtemp(prefix="m-", dir=self.work)
        self.cores(1)
        try:
            r = subprocess.run(tlc_cmd(module, module + ".cfg", 1, meta, "3g"), cwd=SPEC, capture_output=True, text=True,
                               env=dict(os.environ, TRACE=trace), timeout=self.limit)
        finally:
            self.free(1)
            shutil.rmtree(meta, ignore_errors=True)
        reports, ended = [], False
        for l in r.stdout.splitlines():
            if l.startswith('"MISMATCH '):
                reports.append(json.loads(unescape(l)[9:]))
            elif l.startswith('"TRACE-END %d"' % total):
                ended = True
        if not ended or r.returncode != 0:
            raise ToolError("%s did not accept the form of %s:\n%s" % (module, trace, tlc_error(r.stdout)))
        for m in reports:
            with self.lock:
                self.mismatches.append((set(m["aspects"]), trace, m["line"], m))
        return total - 1, reports

    def examples(self, module):
        """The specification has to agree with the standard's own examples."""
        t0 = time.time()
        meta = tempfile.mkdtemp(prefix="m-", dir=self.work)
        self.cores(1)
        try:
            r = subprocess.run(tlc_cmd(module, module + ".cfg", 1, meta, "2g"), cwd=SPEC, capture_output=True, text=True,
                               timeout=self.limit)
        finally:
            self.free(1)
            shutil.rmtree(meta, ignore_errors=True)
        if r.returncode != 0 or "No error has been found" not in r.stdout:
            raise ToolError("the specification contradicts an example in %s:\n%s" % (module, tlc_error(r.stdout)))
        with open(os.path.join(SPEC, module + ".tla")) as f:
            n = f.read().count("\nASSUME")
        with self.lock:
            self.jobs.append({"job": "examples " + module, "examples_of_the_standard_that_the_specification_meets": n,
                              "wall_s": round(time.time() - t0, 1)})

    def proof(self, module):
        """Lets the provers go through spec/proofs/MODULE again, from nothing."""
        t0 = time.time()
        cache = tempfile.mkdtemp(prefix="p-", dir=self.work)
        self.cores(1)
        try:
            r = subprocess.run(["tlapm", "-I", SPEC, "--cache-dir", cache, "--threads", "2", "--stretch", "3", module + ".tla"],
                               cwd=os.path.join(SPEC, "proofs"), capture_output=True, text=True, timeout=1200)
        except FileNotFoundError:
            raise ToolError("tlapm is not installed")
        finally:
            self.free(1)
            shutil.rmtree(cache, ignore_errors=True)
        m = re.search(r"All (\d+) obligations proved", r.stdout + r.stderr)
        if r.returncode != 0 or not m:
            raise ToolError("the proof %s does not go through:\n%s" % (module, (r.stdout + r.stderr)[-2000:]))
        with self.lock:
            self.jobs.append({"job": "proof " + module, "obligations_proved_of_the_design": int(m.group(1)),
                              "wall_s": round(time.time() - t0, 1)})

    # -- drivers -------------------------------------------------------------
    def drive(self, driver, judge, events, shard):
        t0 = time.time()
        trace = os.path.join(self.work, "%s-%d.ndjson" % (driver, shard))
        self.cores(1)
        try:
            r = subprocess.run([HARNESS, "drive", driver, str(self.seed * 1000 + shard), str(events), trace],
                               capture_output=True, text=True, timeout=self.limit,
                               env=dict(os.environ, VH_LOG_MB="80" if self.tier == "quick" else "300", VH_WORDS=self.words))
        finally:
            self.free(1)
        if r.returncode < 0 and driver.endswith("par"):
            self.add_aborts(trace)
        elif r.returncode < 0:
            self.add_abort(trace)
        elif r.returncode != 0:
            raise ToolError("driver %s: %s" % (driver, r.stderr[-2000:]))
        n, reports = self.validate(judge, trace)
        with open(trace) as f:
            head = [next(f, "") for _ in range(6)]
        with self.lock:
            if len(self.samples) < 3:
                self.samples.append("recorded by driver %s, seed %d: %s" % (driver, self.seed * 1000 + shard, " ; ".join(x.strip()[:300] for x in head[1:5])))
            self.jobs.append({"job": "driver %s, shard %d" % (driver, shard), "calls_recorded_and_validated": n,
                              "sessions": sessions_in(trace), "differences": len(reports), "wall_s": round(time.time() - t0, 1)})

    def add_abort(self, trace):
        """The process died in a call: the breadcrumb tells which."""
        crumb = trace + ".cur"
        try:
            op = json.load(open(crumb))
        except Exception:
            raise ToolError("the harness died and left no breadcrumb for " + trace)
        op["o"] = {"res": "abort"}
        text = open(trace).read()
        if not text.endswith("\n"):
            text = text[: text.rfind("\n") + 1]
        with open(trace, "w") as f:
            f.write(text + json.dumps(op, separators=(",", ":")) + "\n")

    def add_aborts(self, trace):
        """The same with several threads: it was one of the sessions under way."""
        d, name = os.path.split(trace)
        text = open(trace).read()
        text = text[: text.rfind("\n") + 1]
        for x in sorted(os.listdir(d)):
            if not x.startswith(name + ".cur"):
                continue
            ops = []
            for l in open(os.path.join(d, x)).read().split("\n"):
                try:
                    ops.append(json.loads(l))
                except ValueError:
                    pass
            if ops:
                alone = self.again(ops)
                for op, o in zip(ops[:-1], alone):
                    op["o"] = o
                ops[-1]["o"] = {"res": "abort"}
                text += "".join(json.dumps(o, separators=(",", ":")) + "\n" for o in ops)
        with open(trace, "w") as f:
            f.write(text)

    # -- alone or together ----------------------------------------------------
    def again(self, ops):
        """What is observed when these calls are made in a process of their own."""
        d = tempfile.mkdtemp(prefix="a-", dir=self.work)
        calls, out = os.path.join(d, "calls.ndjson"), os.path.join(d, "again.ndjson")
        with open(calls, "w") as f:
            f.write('{"op":"cfg"}\n' + "".join(json.dumps(o) + "\n" for o in ops))
        r = subprocess.run([HARNESS, "exec", calls, out], capture_output=True, text=True, timeout=self.limit)
        if r.returncode > 0:
            raise ToolError("executing a session again: " + r.stderr)
        seen = [json.loads(l)["o"] for l in open(out).read().split("\n")[1:] if l.endswith("}")]
        return seen + [{"res": "abort"}] * (len(ops) - len(seen) if r.returncode < 0 else 0)

    def together(self, trace, line):
        """Whether the instance that differs at this line behaves otherwise alone."""
        session = session_of(trace, line)
        who = 1
        of = {1: []}
        for c in session:
            if c["op"] in ("switch", "pswitch"):
                who = c["to"]
                if who not in of:
                    of[who] = [dict(c, op="new" if c["op"] == "switch" else "pnew", o={"res": "ok"})]
            else:
                of[who].append(c)
        mine = of[who]
        seen = self.again(mine)
        return len(seen) != len(mine) or any(a != b["o"] for a, b in zip(seen, mine))

    # -- model checking and replay -------------------------------------------
    def explore(self, module, cfg, judge, over, number):
        t0 = time.time()
        over = dict(over)
        suffixes = over.pop("SUFFIXES", "some")
        num = over.pop("SIM", 0)
        text = open(os.path.join(SPEC, cfg + ".cfg")).read()
        for k, v in over.items():
            if k == "VIEW":
                text, n = re.subn(r"(?m)^VIEW .*$", "VIEW " + v, text)
            else:
                text, n = re.subn(r"(?m)^(\s*)%s = .*$" % k, r"\g<1>%s = %s" % (k, v), text)
            if n != 1:
                raise ToolError("%s has no %s" % (cfg, k))
        d = os.path.join(self.work, "mc%d" % number)
        os.makedirs(d)
        cfgfile = os.path.join(d, "MC.cfg")
        with open(cfgfile, "w") as f:
            f.write(text)
        meta = tempfile.mkdtemp(prefix="m-", dir=self.work)
        workers = 1 if num else 4 if self.tier == "quick" else 6
        cmd = tlc_cmd(module, cfgfile, workers, meta, "6g" if self.tier == "quick" else "12g")
        if num:
            cmd += ["-simulate", "num=%d" % num, "-depth", str(over["MaxCalls"] + 1), "-seed", str(self.seed * 1000 + number)]
        self.cores(workers)
        try:
            env = dict(os.environ, VH_CRUMB=os.path.join(d, "crumb"))
            tlc = subprocess.Popen(cmd, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            rep = subprocess.Popen([HARNESS, "replay", d, suffixes], stdin=tlc.stdout, stdout=subprocess.PIPE,
                                   stderr=subprocess.PIPE, text=True, env=env)
            tlc.stdout.close()
            try:
                out, err = rep.communicate(timeout=self.limit)
                if rep.returncode == 0 and "REPLAY done" in out:
                    tlc.wait(timeout=self.limit)
            finally:
                for p in (tlc, rep):
                    if p.poll() is None:
                        p.kill()
                        p.wait()
        finally:
            self.free(workers)
            shutil.rmtree(meta, ignore_errors=True)
        hang = "REPLAY hang" in out
        aborted = rep.returncode < 0
        if rep.returncode > 0:
            raise ToolError("replay of %s: %s" % (cfg, err[-2000:]))
        good = ("%d traces generated" % num) in out and "Error:" not in out if num else "No error has been found" in out
        if not aborted and not hang and not (good and "REPLAY done" in out):
            raise ToolError("TLC on %s: %s" % (cfg, tlc_error(out)))
        g = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", out) \
            or re.search(r"()(\d+) states checked, %d traces" % num, out)
        never = re.search(r"REPLAY untaken (.*)", out)
        if never and not num:
            raise ToolError("%s never takes the calls %s" % (cfg, never.group(1)))
        m = re.search(r"REPLAY \w+ transitions (\d+) differences (\d+)", out)
        differ = int(m.group(2)) if m else 0
        # Differences and calls left for judgement go to the trace specification.
        explained = []
        sessions = sorted(x for x in os.listdir(d) if x.startswith("mc") and x.endswith(".ndjson"))
        if aborted:
            sessions += self.crumbs(d)
        if sessions:
            one = os.path.join(d, "sessions.ndjson")
            with open(one, "w") as f:
                f.write('{"op":"cfg","from":"model"}\n')
                for x in sessions:
                    f.writelines(open(os.path.join(d, x)).readlines()[1:])
            explained = self.validate(judge, one)[1]
            if not explained:
                raise ToolError("the trace specification does not see the differences in " + one)
        judged = 0
        if os.path.exists(os.path.join(d, "judge.ndjson")):
            judged, r = self.validate(judge, os.path.join(d, "judge.ndjson"))
            explained = explained + r
        with self.lock:
            self.jobs.append({"job": "%s with %s %s%s" % (module, cfg, over or "", ", %d random behaviours" % num if num else ""), "states": int(g.group(2)) if g else 0,
                              "transitions": int(g.group(1) or g.group(2)) if g else 0, "calls_or_transitions_replayed": int(m.group(1)) if m else 0,
                              "replayed_calls_judged_by_trace_spec": judged, "differences": differ + (len(explained) if judged else 0),
                              "wall_s": round(time.time() - t0, 1)})

    def crumbs(self, d):
        """Sessions that were under way when the replay died."""
        found = []
        for x in sorted(os.listdir(d)):
            if not x.startswith("crumb"):
                continue
            try:
                ops = [json.loads(l) for l in open(os.path.join(d, x)).read().split("\n") if l]
            except ValueError:
                continue
            if not ops:
                continue
            # Replay each alone to see which one it was.
            calls = os.path.join(d, x + ".calls")
            with open(calls, "w") as f:
                f.write('{"op":"cfg"}\n' + "".join(json.dumps(o) + "\n" for o in ops))
            out = os.path.join(d, x + "-again.ndjson")
            r = subprocess.run([HARNESS, "exec", calls, out], capture_output=True, text=True, timeout=self.limit)
            if r.returncode < 0:
                self.add_abort(out)
                found.append(os.path.basename(out))
        if not found:
            raise ToolError("the replay died, but not again on the calls it was making in " + d)
        return found

    # -- all of it -------------------------------------------------------------
    def run(self):
        jobs = P[self.pid][self.tier]
        work = []
        for k, j in enumerate(jobs):
            if j[0] == "ex":
                work.append((self.examples, (j[1],)))
            elif j[0] == "pf":
                work.append((self.proof, (j[1],)))
            elif j[0] == "mc":
                work.append((self.explore, j[1:] + (k,)))
            else:
                _, driver, judge, events, shards = j
                for s in range(shards):
                    work.append((self.drive, (driver, judge, events, s)))
        with ThreadPoolExecutor(6) as ex:
            fs = [ex.submit(f, *a) for f, a in work]
            errors = []
            for f in fs:
                try:
                    f.result()
                except ToolError as e:
                    errors.append(str(e))
                except subprocess.TimeoutExpired as e:
                    errors.append("out of time: " + str(e)[:300])
        return errors


def starts_session(op):
    return op in ("new", "pnew")


def stateless(op):
    return op in ("penc", "pencf", "lit", "ptyp", "nest") or op.startswith("h")


def sessions_in(trace):
    n = 0
    with open(trace) as f:
        for l in f:
            i = l.find('"op":"')
            op = l[i + 6: l.find('"', i + 6)]
            if starts_session(op) or stateless(op):
                n += 1
    return n


def session_of(trace, line):
    """The calls of the session that led to this line."""
    lines = open(trace).read().split("\n")
    first = line - 1
    if not stateless(json.loads(lines[first])["op"]):
        while first > 1 and not starts_session(json.loads(lines[first])["op"]):
            first -= 1
    return [json.loads(l) for l in lines[first: line]]


def save_session(pid, trace, line, report):
    """The session that led to a difference, as a file of its own."""
    d = os.path.join(BUILD, "replays")
    os.makedirs(d, exist_ok=True)
    k = 0
    while os.path.exists(os.path.join(d, "%s-%d.ndjson" % (pid, k))):
        k += 1
    path = os.path.join(d, "%s-%d.ndjson" % (pid, k))
    with open(path, "w") as f:
        f.write(json.dumps({"op": "cfg", "property": pid, "aspects": report["aspects"], "want": report.get("want"), "got": report.get("got")}) + "\n")
        for c in session_of(trace, line):
            f.write(json.dumps(c, separators=(",", ":")) + "\n")
    return path


# --------------------------------------------------------------------------
def known_findings(pid):
    out = []
    with open(os.path.join(VERIF, "known-findings.txt")) as f:
        for l in f:
            m = re.match(r"KNOWN-FINDING: property=(\S+) calls=(\S+) shows=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3), m.group(4).strip()))
    return out


def check_known(c):
    """Executes the calls of each listed finding; says whether it still fails."""
    for calls, shows, what in known_findings(c.pid):
        out = os.path.join(c.work, "known.ndjson")
        r = subprocess.run([HARNESS, "exec", os.path.join(VERIF, calls), out], capture_output=True, text=True, timeout=120)
        if r.returncode != 0:
            raise ToolError("known finding %s: %s" % (calls, r.stderr))
        last = json.loads(open(out).read().splitlines()[-1])
        if last["o"].get("kind") == shows or last["o"].get("res") == shows:
            print("KNOWN-FINDING: property=%s %s" % (c.pid, what))


def check(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    build()
    c = Check(pid, tier, seed)
    try:
        errors = c.run()
        check_known(c)
        mine = P[pid]["aspects"]
        hits, seen = [], set()
        tried = 0
        for k, (aspects, trace, line, report) in enumerate(c.mismatches):
            if "together" in mine and tried < 60:
                tried += 1
                if c.together(trace, line):
                    aspects = c.mismatches[k][0] | {"together"}
                    c.mismatches[k] = (aspects, trace, line, report)
            a = aspects & mine
            if a:
                key = (report["op"], tuple(sorted(a)))
                if key not in seen and len(seen) < 5:
                    seen.add(key)
                    hits.append((save_session(pid, trace, line, report), sorted(a), report))
        foreign = sorted({x for m in c.mismatches for x in m[0] - mine}) if c.mismatches else []
        write_evidence(pid, tier, seed, c, hits, foreign, time.time() - t0)
        for path, a, report in hits:
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  call %s, differs in %s; got %s" % (report["op"], " ".join(a), json.dumps(report.get("got"))[:300]))
        if hits:
            return 1
        if errors:
            for e in errors:
                print("ERROR " + e, file=sys.stderr)
            return 2
        if foreign:
            print("note: differences that belong to other properties: " + " ".join(foreign))
        print("%s holds on everything explored (%s, %.0f s)" % (pid, tier, time.time() - t0))
        return 0
    finally:
        shutil.rmtree(c.work, ignore_errors=True)


def write_evidence(pid, tier, seed, c, hits, foreign, wall):
    def total(k):
        return sum(j.get(k, 0) for j in c.jobs)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": total("states"),
            "transitions": total("transitions"),
            "traces_validated_against_impl": total("sessions") + total("replayed_calls_judged_by_trace_spec"),
            "spec_transitions_replayed_on_impl": total("calls_or_transitions_replayed"),
            "recorded_calls_validated": total("calls_recorded_and_validated"),
            "samples": c.samples or ["(no trace was recorded)"],
            "jobs": c.jobs,
            "differences_of_other_properties": foreign,
        },
        "assumptions": [
            "the TLA+ specification states RFC 7541 and the proto3 wire format correctly",
            "TLC, the JSON modules and the harness report what happened",
        ],
        "wall_s": round(wall, 1),
        "violations": len(hits),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


def judge_of(trace):
    for l in open(trace).read().splitlines()[1:]:
        op = json.loads(l)["op"]
        return "P" if op.startswith("p") and op != "probe" or op == "lit" else "F" if op.startswith("h") else "H"


def replay(path):
    build()
    c = Check("replay", "quick", 0)
    try:
        out = os.path.join(c.work, "again.ndjson")
        r = subprocess.run([HARNESS, "exec", path, out], capture_output=True, text=True)
        if r.returncode < 0:
            c.add_abort(out)
        elif r.returncode:
            raise ToolError(r.stderr)
        for l in open(out).read().splitlines()[1:]:
            print(l[:600])
        _, reports = c.validate(judge_of(out), out)
        for m in reports:
            print("MISMATCH", json.dumps(m)[:1000])
        return 1 if reports else 0
    finally:
        shutil.rmtree(c.work, ignore_errors=True)


def main():
    if len(sys.argv) == 2 and sys.argv[1] == "build":
        build()
        return 0
    if len(sys.argv) == 3 and sys.argv[1] == "check" and sys.argv[2] in P:
        return check(sys.argv[2])
    if len(sys.argv) == 3 and sys.argv[1] == "replay":
        return replay(sys.argv[2])
    if len(sys.argv) == 2 and sys.argv[1] == "selftest":
        import selftest
        return selftest.main()
    print(__doc__)
    return 2


if __name__ == "__main__":
    try:
        sys.exit(main())
    except ToolError as e:
        print("ERROR " + str(e), file=sys.stderr)
        sys.exit(2)
