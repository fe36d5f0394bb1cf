#!/usr/bin/env python3
"""Checks one property of omnipaxos against the TLA+ specification in spec/ (see DESIGN.md).

  check.py Cxx            quick or thorough check, by VERIF_TIER (default quick); seed: VERIF_SEED
  check.py replay Cxx F   judges one schedule file again

Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.  Exit 2: no answer.
"""
import glob, json, os, re, shutil, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "spec")
HARN = os.path.join(HERE, "harness")
BIN = os.path.join(HARN, "target", "debug", "opx-harness")
TLA = "/opt/veriftools/tla"
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"

TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
T0 = time.time()


class ToolError(Exception):
    pass


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)


# --------------------------------------------------------------------------- model configurations
BASE = dict(NServers=3, Pids="<<1, 2, 3>>", RQ=2, WQ=2, BatchSize="<<1, 1, 1>>", Prios="<<0, 0, 0>>",
            UseSnap=False, Ble=False, Ett=1000, Rtt=1000, Ftt=1000, Eager=True, Emit=True,
            MaxLead=2, MaxApp=1, MaxRcf=0, MaxCompact=0, MaxCrash=0, MaxMidCrash=0, MaxLose=0,
            MaxRecon=0, MaxTick=0, MaxPrio=0, MaxRead=0, Compressed=False, LeadBy="{1, 2, 3, 4, 5}", AppBy="{1, 2, 3, 4, 5}")


def two(**k):
    return dict(dict(NServers=2, Pids="<<1, 2>>", BatchSize="<<1, 1>>", Prios="<<0, 0>>"), **k)


MODELS = {
    # exhaustive in seconds; every transition is also replayed on the real code
    "crash2": two(MaxCrash=1),
    "mid2": two(MaxMidCrash=1),
    "midsnap2": two(MaxMidCrash=1, MaxCompact=1, UseSnap=True),
    "trim2": two(MaxApp=2, MaxCompact=1),
    "snap2": two(MaxApp=2, MaxCompact=1, UseSnap=True),
    "rcf2": two(MaxRcf=1),
    "rcf2b": two(MaxLead=1, MaxApp=1, MaxRcf=2, MaxTick=2, Rtt=1),
    "batch2": two(MaxApp=2, BatchSize="<<2, 2>>", Ftt=1, MaxTick=2),
    "hold2": two(MaxApp=2, Eager=False),
    "lose2": two(MaxLead=1, MaxApp=2, Rtt=1, MaxTick=2, MaxLose=1),
    "read2": two(MaxLead=1, MaxApp=2, MaxRead=1, MaxRcf=1),
    "readsnap2": two(MaxLead=1, MaxApp=2, MaxRead=1, MaxCompact=1, UseSnap=True),
    "readtrim2": two(MaxLead=1, MaxApp=2, MaxRead=1, MaxCompact=1),
    "ble2": two(MaxLead=0, MaxApp=0, Ble=True, Ett=1, Rtt=2, MaxTick=4),
    "prio2": two(MaxLead=0, MaxApp=0, Ble=True, Ett=1, Rtt=3, MaxTick=3, MaxPrio=1),
    "three": dict(MaxLead=1, MaxApp=2),
    "crash3": dict(MaxLead=1, MaxCrash=1),
    "mid3": dict(MaxLead=1, MaxMidCrash=1),
    "snap3": dict(MaxLead=1, MaxCompact=1, UseSnap=True),
    "trim3": dict(MaxLead=1, MaxCompact=1),
    "rcf3": dict(MaxLead=1, MaxRcf=1),
    "fq3": dict(MaxLead=1, MaxApp=2, RQ=3, WQ=2),
    # compressed entries
    "uc2": two(MaxApp=2, Compressed=True),
    "ucbatch2": two(MaxLead=1, MaxApp=2, BatchSize="<<2, 2>>", Ftt=1, Rtt=2, MaxTick=1, MaxLose=1, MaxRecon=1, Compressed=True),
    "ucsnap2": two(MaxApp=2, MaxCompact=1, UseSnap=True, Compressed=True),
    # one server leading twice, its entries, a second leader
    "relead3": dict(MaxApp=2, LeadBy="{1}", AppBy="{1}"),
    "relead3c": dict(MaxCrash=1, LeadBy="{1}", AppBy="{1}"),
    "relead3l": dict(MaxLose=1, LeadBy="{1}", AppBy="{1}"),
    "relead3s": dict(MaxCompact=1, UseSnap=True, LeadBy="{1}", AppBy="{1}"),
    "relead3t": dict(MaxCompact=1, LeadBy="{1}", AppBy="{1}"),
    "relead3r": dict(MaxRcf=1, LeadBy="{1}", AppBy="{1}"),
    "duel12": dict(LeadBy="{1, 2}", AppBy="{1}"),
    # deeper ones
    "duel13": dict(MaxApp=2, LeadBy="{1, 3}", AppBy="{1, 3}", Emit=False),
    "duel3": dict(MaxLead=2, MaxApp=1),
    "duel3b": dict(MaxLead=2, MaxApp=1, MaxCrash=1, Emit=False),
    "duelsnap3": dict(MaxLead=2, MaxApp=1, MaxCompact=1, UseSnap=True, Emit=False),
    "dueltrim3": dict(MaxLead=2, MaxApp=1, MaxCompact=1, Emit=False),
    "lose3": dict(MaxLead=1, MaxApp=1, MaxLose=1, MaxRecon=1),
    "lose3b": dict(MaxLead=1, MaxApp=2, MaxLose=1, MaxRecon=1, Emit=False),
    "crash2b": two(MaxApp=2, MaxCrash=2),
    "mid2b": two(MaxApp=2, MaxMidCrash=1, MaxRcf=1),
    "midsnap2b": two(MaxApp=2, MaxMidCrash=1, MaxCompact=1, UseSnap=True),
    "snap2b": two(MaxLead=3, MaxApp=2, MaxCompact=2, UseSnap=True),
    "trim2b": two(MaxLead=2, MaxApp=2, MaxCompact=2, MaxLose=1),
    "rcf2c": two(MaxLead=3, MaxApp=1, MaxRcf=2, Emit=False),
    "batch2b": two(MaxApp=3, BatchSize="<<2, 3>>", Ftt=1, MaxTick=2),
    "hold2b": two(MaxLead=3, MaxApp=2, MaxLose=1, Eager=False),
    "lose2b": two(MaxLead=2, MaxApp=1, Rtt=1, MaxTick=2, MaxLose=1, MaxRecon=1),
    "ble2b": two(MaxLead=0, MaxApp=1, Ble=True, Ett=1, Rtt=2, MaxTick=5, MaxLose=1, Emit=False),
    "ble3": dict(MaxLead=0, MaxApp=0, Ble=True, Ett=1, Rtt=1000, MaxTick=4, Emit=False),
    "prio2b": two(MaxLead=0, MaxApp=1, Ble=True, Ett=1, Rtt=2, MaxTick=3, MaxPrio=1, Emit=False),
    "fq3b": dict(MaxLead=2, MaxApp=1, RQ=3, WQ=2, Emit=False),
}

SIMBASE = dict(BASE, Ble=True, Ett=3, Rtt=4, Ftt=2, MaxLead=2, MaxApp=6, MaxTick=40, MaxLose=5, MaxRecon=3,
               MaxCrash=2, MaxMidCrash=1, Mode='"heal"', Lens="{10, 30, 60}")
SIMS = {
    "heal": dict(),
    "healsnap": dict(UseSnap=True, MaxCompact=3, BatchSize="<<2, 1, 2>>"),
    "healtrim": dict(MaxCompact=3, Prios="<<0, 1, 0>>"),
    "healrcf": dict(MaxRcf=2),
    "heal5": dict(NServers=5, Pids="<<2, 1, 5, 4, 3>>", RQ=3, WQ=3, BatchSize="<<1, 1, 1, 1, 1>>",
                  Prios="<<0, 0, 0, 0, 0>>", Lens="{20, 60}"),
    "topo": dict(Mode='"topo"'),
    "topo4": dict(Mode='"topo"', NServers=4, Pids="<<1, 2, 3, 4>>", RQ=3, WQ=2, BatchSize="<<1, 1, 1, 1>>",
                  Prios="<<0, 0, 0, 0>>"),
    "single": dict(Mode='"single"', Ble=False, Ett=1000, MaxLead=1, MaxLose=0, MaxRecon=0, MaxCrash=0,
                   MaxMidCrash=0, MaxTick=20, BatchSize="<<2, 1, 3>>"),
    "singlercf": dict(Mode='"single"', Ble=False, Ett=1000, MaxLead=1, MaxLose=0, MaxRecon=0, MaxCrash=0,
                      MaxMidCrash=0, MaxTick=20, MaxRcf=1, Lens="{4, 10, 30}"),
    "single1": dict(Mode='"single"', Ble=False, Ett=1000, MaxLead=1, MaxLose=0, MaxRecon=0, MaxCrash=0,
                    MaxMidCrash=0, MaxTick=20),
}

# properties whose cluster runs are repeated on PersistentStorage
DISK = {"C02", "C05", "C06", "C07", "C10", "C11", "C12", "C13", "C18"}
DISKBIN = os.path.join(HARN, "target-rocks", "debug", "opx-harness")

MODELLED = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C09", "C10", "C11", "C12", "C13", "C21"}

# profiles of the random exploration; models and simulations of the quick and the thorough check
PLAN = {
    "C01": ("any,duel,snap,crash,trim,reconf", ["duel12", "snap2"], [],
            ["three", "relead3", "duel3", "duel13", "duel3b", "duelsnap3", "crash2b", "snap2b", "hold2b"], ["heal", "healsnap"]),
    "C02": ("any,duel,snap,crash,trim,reconf", ["crash2", "relead3"], [],
            ["duel3", "crash2b", "mid2b", "snap2b", "lose3"], ["heal", "healrcf"]),
    "C03": ("any,duel,batch,reconf,crash,elect", ["hold2", "batch2"], [],
            ["duel3", "batch2b", "hold2b", "lose2b"], ["heal", "single"]),
    "C04": ("any,duel,crash,batch,elect", ["relead3", "fq3"], [],
            ["duel3", "duel3b", "crash2b", "fq3b", "mid2b"], ["heal", "heal5"]),
    "C05": ("any,duel,elect,crash", ["crash2", "lose2", "relead3l"], [],
            ["relead3c", "duel12", "duel3", "duel3b", "crash2b", "lose2b", "mid2b"], ["heal", "heal5"]),
    "C06": ("any,duel,batch,crash,snap", ["batch2", "hold2"], [],
            ["batch2b", "hold2b", "crash2b", "mid2b", "three"], ["heal", "healsnap"]),
    "C07": ("crash,duel,snap,reconf,trim,batch", ["mid2", "midsnap2"], [],
            ["relead3c", "mid3", "mid2b", "midsnap2b", "crash2b", "duel3b"], ["heal", "healrcf"]),
    "C08": ("any,crash,reconf,batch,trim,snap", ["lose2"], ["heal"],
            ["lose2b", "lose3", "lose3b"], ["heal", "healsnap", "healtrim", "healrcf", "heal5"]),
    "C09": ("elect,any,crash,star", ["ble2", "prio2"], ["heal"],
            ["ble2b", "ble3", "prio2b", "duel3"], ["heal", "heal5", "healtrim"]),
    "C10": ("read,snap,trim,reconf,batch", ["read2", "readsnap2", "readtrim2"], [],
            ["read2", "readsnap2", "readtrim2"], ["healsnap", "healrcf"]),
    "C11": ("trim,trim,reconf", ["trim2", "trim3", "relead3t"], [], ["trim2b", "dueltrim3"], ["healtrim"]),
    "C12": ("snap,snap,reconf", ["snap2", "snap3", "relead3s"], [], ["snap2b", "duelsnap3", "midsnap2b"], ["healsnap"]),
    "C13": ("reconf,reconf,final", ["rcf2", "rcf3", "relead3r"], ["singlercf"], ["rcf2b", "rcf2c", "mid2b"], ["healrcf", "singlercf"]),
    "C14": ("single,batch", ["batch2"], ["single"], ["batch2b"], ["single", "single1"]),
    "C18": ("any,duel,snap,trim,reconf,crash,batch,elect,read,star", ["lose2", "rcf2b", "relead3l"], [],
            ["lose2b", "rcf2b", "crash2b", "snap2b", "trim2b", "lose3"], ["heal", "healsnap", "healtrim", "healrcf"]),
    "C19": ("star", ["ble2"], ["topo"], ["ble2b", "ble3"], ["topo", "topo4"]),
    "C20": ("any,duel,snap,trim,reconf,batch,elect", ["snap2", "trim2", "rcf2", "batch2"], [],
            ["snap2b", "trim2b", "rcf2b", "ble2", "lose2b"], ["healsnap", "healrcf"]),
    "C21": ("any,duel,elect,batch,crash,reconf,star", ["ble2", "batch2", "rcf2"], [],
            ["relead3", "ble2b", "lose2b", "crash2b", "duel12"], ["heal"]),
    "C22": ("any,elect,crash,reconf,batch,snap,trim", ["lose2"], ["heal"],
            ["lose2b", "lose3"], ["heal", "healsnap", "healtrim", "healrcf", "heal5"]),
    # with compressed entries
    "C16": ("any,duel,snap,crash,batch,reconf,trim", [], [], [], []),
}


def tla(v):
    return {True: "TRUE", False: "FALSE"}.get(v, str(v)) if isinstance(v, bool) else str(v)


def cfg_line(c):
    seq = lambda s: s.strip("<>").replace(" ", "")
    maj = c["NServers"] // 2 + 1
    fq = "-" if (c["RQ"], c["WQ"]) == (maj, maj) else "%d/%d" % (c["RQ"], c["WQ"])
    return "CFG pids=%s fq=%s batch=%s prio=%s ett=%s rtt=%s ftt=%s snap=%d eager=%d lru=0 ble=%d" % (
        seq(c["Pids"]), fq, seq(c["BatchSize"]), seq(c["Prios"]), c["Ett"], c["Rtt"], c["Ftt"],
        c["UseSnap"], c["Eager"], c["Ble"]) + (" ser=%d" % (1 + SEED % 2) if c.get("wire") else "")


# --------------------------------------------------------------------------- TLC
def tlc(work, module, cfg, args=(), workers=4, env=None, timeout=600, heap="5g", outfile=None):
    """Runs TLC in a scratch copy of the specification; returns its output."""
    d = os.path.join(work, "tlc-" + module + "-%d" % (threading.get_ident() % 10**8) + "-%d" % int(time.time() * 1000))
    os.makedirs(d)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    gen, text = cfg
    if gen:
        with open(os.path.join(d, module + ".tla"), "w") as h:
            h.write(gen)
    with open(os.path.join(d, "x.cfg"), "w") as h:
        h.write(text)
    out = outfile or os.path.join(d, "out.txt")
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", CP, "tlc2.TLC", "-noTE", "-workers",
           str(workers), "-metadir", os.path.join(d, "md"), "-config", "x.cfg", *args, module + ".tla"]
    with open(out, "w") as h:
        try:
            rc = subprocess.run(cmd, cwd=d, stdout=h, stderr=subprocess.STDOUT, env=e, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            rc = "timeout"
    return rc, out, d


def counts(text):
    m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", text)
    if not m:
        return 0, 0
    return tuple(int(x.replace(",", "")) for x in m[-1])


def wrapper(module, base, c):
    seqs = [k for k, v in c.items() if isinstance(v, str) and v.startswith("<<")]
    g = "---- MODULE %s ----\nEXTENDS %s\n" % (module, base)
    for k in seqs:
        g += "c%s == %s\n" % (k, c[k])
    g += "====\n"
    t = "CONSTANTS\n" + "".join(" %s <- c%s\n" % (k, k) if k in seqs else " %s = %s\n" % (k, tla(v)) for k, v in c.items())
    return g, t


def run_model(work, prop, name):
    c = dict(BASE)
    c.update(MODELS[name])
    gen, const = wrapper("MCG", "OmniPaxosMC", c)
    view = "View" if prop in ("C06", "C21") else "Core"
    t = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nVIEW %s\nINVARIANT TypeOK\n" % view
    if c["Emit"]:
        t += "ACTION_CONSTRAINT Emitted\n"
    if prop in MODELLED:
        t += "PROPERTY p%s\n" % prop
    out = os.path.join(work, "model-%s.out" % name)
    rc, _, d = tlc(work, "MCG", (gen, t + const), workers=4 if TIER == "quick" else 8,
                   timeout=240 if TIER == "quick" else 1500, heap="6g" if TIER == "quick" else "14g", outfile=out)
    shutil.rmtree(d, ignore_errors=True)
    head = subprocess.run(["grep", "-v", "^<<\"PATH\"", out], capture_output=True, text=True).stdout
    g, n = counts(head)
    done = "Model checking completed. No error has been found." in head
    if not done and rc != "timeout":
        raise ToolError("specification violates its own property in model %s (see %s)\n%s" % (name, out, head[-3000:]))
    return dict(model=name, states=n, transitions=g, complete=done, out=out, cfg=c)


def run_sim(work, prop, name, secs):
    c = dict(SIMBASE)
    c.update(SIMS[name])
    gen, const = wrapper("MCS", "OmniSim", c)
    every = MODELLED | {"C08", "C14", "C19", "C22"}
    inv = " ".join("s" + p for p in sorted(every if TIER == "thorough" else {prop} & every))
    t = "SPECIFICATION SSpec\nCHECK_DEADLOCK FALSE\nINVARIANTS TypeOK %s\n" % inv
    out = os.path.join(work, "sim-%s.out" % name)
    rc, _, d = tlc(work, "MCS", (gen, t + const), args=["-simulate", "num=1000000000", "-depth", "6000", "-seed", str(SEED)],
                   workers=3 if TIER == "quick" else 8, timeout=secs, outfile=out)
    shutil.rmtree(d, ignore_errors=True)
    head = subprocess.run(["grep", "-v", "^<<\"SCHED\"", out], capture_output=True, text=True).stdout
    if rc != "timeout" or "Error:" in head or "Exception" in head:
        raise ToolError("simulation %s of the specification failed (see %s)\n%s" % (name, out, head[-3000:]))
    return dict(sim=name, out=out, cfg=c)


# --------------------------------------------------------------------------- harness
def rocks_env():
    """The C++ library that was built together with the repository."""
    libs = sorted(glob.glob("/opt/vp/ws/target/debug/build/librocksdb-sys-*/out/librocksdb.a"))
    if not libs:
        return {}
    d = os.path.dirname(libs[0])
    return dict(ROCKSDB_LIB_DIR=d, SNAPPY_LIB_DIR=d, ROCKSDB_STATIC="1", SNAPPY_STATIC="1")


def build(features=None, target=None):
    cmd = ["cargo", "build", "--offline", "--quiet"]
    env = dict(os.environ, CARGO_NET_OFFLINE="true")
    if features == "rocks":
        env.update(rocks_env())
    if features:
        cmd += ["--features", features]
    if target:
        env["CARGO_TARGET_DIR"] = target
    r = subprocess.run(cmd, cwd=HARN, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        raise ToolError("the harness does not build against /repo:\n" + r.stderr[-3000:])


def harness(*a, timeout=600, binary=None):
    r = subprocess.run([binary or BIN, *[str(x) for x in a]], capture_output=True, text=True, timeout=timeout)
    if r.returncode not in (0, 3):
        raise ToolError("harness %s failed (%s): %s" % (a[0], r.returncode, r.stderr[-2000:]))
    return r.stdout.splitlines()


def expected_states(traces, mids):
    n = 0
    for t in traces:
        n += 1
        for e in t["ev"]:
            n += 1 + (len(e["mid"]) if mids and "mid" in e else 0)
    return n


def judge_traces(work, prop, file, workers=4):
    """PropTrace: does the property hold on the recorded executions?  (violated, text, states)"""
    rc, out, d = tlc(work, "PropTrace", (None, "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT i%s\nALIAS Brief\n" % prop),
                     env={"OPX_TRACES": os.path.abspath(file)}, workers=workers)
    text = open(out).read()
    shutil.rmtree(d, ignore_errors=True)
    if "Invariant i%s is violated" % prop in text:
        return True, text, counts(text)
    if "No error has been found" not in text:
        raise ToolError("PropTrace failed:\n" + text[-3000:])
    g, n = counts(text)
    want = expected_states(json.load(open(file)), True)
    if n != want:
        raise ToolError("PropTrace consumed %d of %d states" % (n, want))
    return False, text, (g, n)


def conform_traces(work, file, workers=4):
    """OmniTrace: does the specification allow the recorded executions?  (divergence, states)"""
    rc, out, d = tlc(work, "OmniTrace", (None, "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Conforms\nALIAS Brief\n"),
                     env={"OPX_TRACES": os.path.abspath(file)}, workers=workers)
    text = open(out).read()
    shutil.rmtree(d, ignore_errors=True)
    g, n = counts(text)
    if "Invariant Conforms is violated" in text:
        tid = int(re.findall(r"tid \|-> (\d+)", text)[-1] if "tid |->" in text else re.findall(r"tid = (\d+)", text)[-1])
        l = int((re.findall(r"/\\ l = (\d+)", text) or re.findall(r"l \|-> (\d+)", text))[-1])
        dv = (re.findall(r'dv = "(\w+)"', text) or re.findall(r'dv \|-> "(\w+)"', text))[-1]
        return dict(tid=tid, event=l - 1, what=dv), (g, n)
    if "No error has been found" not in text:
        # a value the specification cannot even interpret is a divergence as well
        return dict(tid=0, event=0, what="not interpretable"), (g, n)
    want = expected_states(json.load(open(file)), False)
    if n != want:
        raise ToolError("OmniTrace consumed %d of %d states" % (n, want))
    return None, (g, n)


class Later(threading.Thread):
    """A call in the background."""

    def __init__(self, f):
        super().__init__(daemon=True)
        self.f, self.e = f, None
        self.start()

    def run(self):
        try:
            self.r = self.f()
        except Exception as e:
            self.e = e

    def get(self):
        self.join()
        if self.e:
            raise self.e
        return self.r


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.work = os.path.join(HERE, "out", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.bin = BIN
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.bases = []
        self.near = {}
        self.notes = []
        self.replay_extra = []

    # -- evidence
    def evidence(self, violations):
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        e = dict(property=self.prop, tier=TIER, seed=SEED, level="model_checking", coverage=self.cov,
                 assumptions=ASSUME, wall_s=round(time.time() - T0, 1), violations=violations)
        if self.notes:
            e["coverage"]["notes"] = self.notes
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as h:
            json.dump(e, h, indent=1)
            h.write("\n")

    def violation(self, sched, what):
        dst = os.path.join(HERE, "out", "%s.violation.%s" % (self.prop, "sched" if sched.endswith(".sched") else "txt"))
        shutil.copy(sched, dst)
        log("violated:", what)
        print("VIOLATION property=%s replay=%s" % (self.prop, dst), flush=True)
        self.evidence(1)
        shutil.rmtree(os.path.join(self.work, "scratch"), ignore_errors=True)
        sys.exit(1)

    def confirm(self, line):
        """A candidate of the fast screening; the specification decides on its recorded trace."""
        f = line.split()
        sched = f[2]
        tr = sched + ".json"
        harness("replay", sched, "--trace", tr, *self.replay_extra, binary=self.bin)
        bad, text, _ = judge_traces(self.work, self.prop, tr)
        if bad:
            self.violation(sched, line)
        self.notes.append("candidate not confirmed by the specification: " + line[:300])
        log("not confirmed by the specification:", line[:300])

    def explore(self, secs, seed, extra=(), threads=8):
        out = os.path.join(self.work, "explore-%d" % seed)
        extra = list(extra) + (["--wire"] if self.prop == "C20" else [])
        lines = harness("explore", "--prop", self.prop, "--seed", seed, "--secs", secs, "--threads", threads,
                        "--profiles", PLAN[self.prop][0], "--max", 3, "--out", out, *extra, timeout=secs + 400, binary=self.bin)
        for l in lines:
            if l.startswith("FOUND"):
                log(l[:300])
                self.confirm(l)
            elif l.startswith("HANG"):
                log(l)
                if self.prop in ("C08", "C14", "C19", "C18"):
                    p = os.path.join(self.work, "hang.txt")
                    with open(p, "w") as h:
                        h.write("# a call that does not return: opx-harness gen " + l + "\n")
                    self.violation(p, l)
                raise ToolError("a call of the library does not return: " + l)
            elif l.startswith("NEAR"):
                log(l[:300])
                f = l.split(" ", 3)
                self.near.setdefault(f[1], []).append((f[2], "property %s fails: %s" % (f[1], f[3][:200])))
            elif l.startswith("STATS"):
                return json.loads(l[6:])
        return {}

    def divergent(self, sched, nops, why):
        """Remember the shortest prefix after which the code leaves the specification."""
        log("the code leaves the specification:", why[:300])
        lines = open(sched).read().splitlines()
        cfg = next(l for l in lines if l.startswith("CFG"))
        ops = [l for l in lines if l.strip() and not l.startswith("#") and not l.startswith("CFG")]
        if nops is not None:
            ops = ops[:max(0, nops)]
        if "ble=0" in cfg:
            cfg = cfg.replace("ett=1000", "ett=8").replace("rtt=1000", "rtt=7").replace("ftt=1000", "ftt=4")
        p = os.path.join(self.work, "base-%d.sched" % len(self.bases))
        with open(p, "w") as h:
            h.write(cfg + "\n" + "\n".join(ops) + "\n")
        self.bases.append((p, why[:300]))

    # -- stages
    def sample(self, count, maxev, seed, name="sample", extra=()):
        d = os.path.join(self.work, name)
        os.makedirs(d, exist_ok=True)
        f = os.path.join(self.work, name + ".json")
        harness("sample", "--seed", seed, "--count", count, "--maxlen", 80, "--maxev", maxev,
                "--profiles", PLAN[self.prop][0], "--out", f, "--scheds", d, *extra, *(["--wire"] if self.prop == "C20" else []), binary=self.bin)
        self.traces(f, lambda t: os.path.join(d, "%d.sched" % t))

    def traces(self, f, sched):
        res = {}
        def go(k, fn):
            try:
                res[k] = fn()
            except Exception as e:
                res[k] = e
        ts = [threading.Thread(target=go, args=("p", lambda: judge_traces(self.work, self.prop, f))),
              threading.Thread(target=go, args=("c", lambda: conform_traces(self.work, f)))]
        [t.start() for t in ts]
        [t.join() for t in ts]
        for k in res:
            if isinstance(res[k], Exception):
                raise res[k]
        trs = json.load(open(f))
        bad, text, n = res["p"]
        if bad:
            tid = int((re.findall(r"tid = (\d+)", text) or re.findall(r"tid \|-> (\d+)", text))[-1])
            self.violation(sched(tid), "recorded trace %d violates the property" % tid)
        div, n2 = res["c"]
        self.cov["trace_states"] = self.cov.get("trace_states", 0) + n[1] + n2[1]
        self.cov["traces_validated_against_impl"] += len(trs)
        self.cov["recorded_traces"] = self.cov.get("recorded_traces", 0) + len(trs)
        if div:
            if div["tid"]:
                ev = trs[div["tid"] - 1]["ev"][max(0, div["event"] - 1)]
                self.divergent(sched(div["tid"]), ev["o"], "trace %(tid)d event %(event)d: %(what)s" % div)
            else:
                self.bases.append((None, div["what"]))

    def paths(self, m):
        if not m["cfg"]["Emit"]:
            return
        out = os.path.join(self.work, "paths-" + m["model"])
        lines = harness("paths", m["out"], "--cfg", cfg_line(dict(m["cfg"], wire=self.prop == "C20")), "--prop", self.prop, "--out", out, timeout=900, binary=self.bin)
        os.remove(m["out"])
        found = [l for l in lines if l.startswith("FOUND")]
        for l in found:
            log(l[:300])
            self.confirm(l)
        for l in lines:
            if l.startswith("DIFF"):
                self.divergent(l.split()[1], None, "model %s: %s" % (m["model"], l.split(" ", 2)[2]))
            elif l.startswith("PATHS"):
                s = json.loads(l[6:])
                log("model %s: %d states, %d transitions%s; replayed %d paths on the code, %d compared, %d differ" % (
                    m["model"], m["states"], m["transitions"], "" if m["complete"] else " (time limit)",
                    s["paths"], s["compared"], s["differing"]))
                if s["compared"] == 0:
                    raise ToolError("no path of model %s was compared" % m["model"])
                self.cov["traces_validated_against_impl"] += s["paths"]
                self.cov["model_paths_replayed"] = self.cov.get("model_paths_replayed", 0) + s["paths"]
                self.cov["model_paths_differing"] = self.cov.get("model_paths_differing", 0) + s["differing"]

    def sims(self, s, ntraces):
        out = os.path.join(self.work, "sims-" + s["sim"])
        f = os.path.join(self.work, "sim-%s.json" % s["sim"])
        lines = harness("scheds", s["out"], "--cfg", cfg_line(dict(s["cfg"], wire=self.prop == "C20")), "--prop", self.prop, "--out", out,
                        "--trace", f, "--traces", ntraces, binary=self.bin)
        for l in lines:
            if l.startswith("FOUND"):
                log(l[:300])
                self.confirm(l)
            elif l.startswith("SCHEDS"):
                k = json.loads(l[7:])
                log("simulation %s: %d behaviours of the specification replayed on the code (%d steps)" % (
                    s["sim"], k["behaviours"], k["steps"]))
                if k["behaviours"] == 0:
                    raise ToolError("simulation %s produced no behaviour" % s["sim"])
                self.cov["traces_validated_against_impl"] += k["behaviours"]
                self.cov["simulated_behaviours"] = self.cov.get("simulated_behaviours", 0) + k["behaviours"]
                if k["traces"]:
                    self.traces(f, lambda t: os.path.join(out, "sim-%d.sched" % t))

    def from_base(self, p, secs, seed):
        old = self.bin
        scratch = os.path.join(self.work, "scratch")
        self.replay_extra = ["--dir", scratch]
        if " st=1" in open(p).read():
            self.bin = DISKBIN
        self.explore(secs, seed, extra=["--base", p, "--dir", scratch])
        self.bin = old
        self.replay_extra = []
        shutil.rmtree(scratch, ignore_errors=True)

    def close(self, quick):
        """Wherever the code leaves the specification, or another property fails, look closely at what follows."""
        near = [x for k in range(3) for v in self.near.values() for x in v[k:k + 1]]
        for k, (p, why) in enumerate(near[:5] + [b for b in self.bases if b[0]][:4]):
            self.from_base(p, 12 if quick else 90, SEED + 7000 + k)
        if near or self.bases:
            self.explore(40 if quick else 300, SEED + 9000)
        self.notes += ["the code leaves the specification (no violation of this property found from there): " + w for _, w in near + self.bases]

    def disk(self, secs, count):
        """The same on clusters whose servers use PersistentStorage and are restarted from its files."""
        scratch = os.path.join(self.work, "scratch")
        os.makedirs(scratch, exist_ok=True)
        extra = ["--disk", "--dir", scratch]
        self.bin, old = DISKBIN, self.bin
        self.replay_extra = ["--dir", scratch]
        st = self.explore(secs, SEED + 500, extra=extra)
        log("on PersistentStorage:", st.get("schedules", 0), "schedules,", st.get("steps", 0), "steps")
        self.cov["persistent_schedules"] = st.get("schedules", 0)
        self.cov["persistent_steps"] = st.get("steps", 0)
        self.sample(count, 300, SEED + 500, name="sample-disk", extra=extra)
        self.bin = old
        self.replay_extra = []
        shutil.rmtree(scratch, ignore_errors=True)

    def spec(self, module, consts, name, inv, emit="ACTION_CONSTRAINT Emitted", view=None):
        t = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n%s\n%s\n%sCONSTANTS\n%s" % (
            inv, emit, "VIEW %s\n" % view if view else "", "".join(" %s = %s\n" % (k, tla(v)) for k, v in consts.items()))
        out = os.path.join(self.work, "model-%s.out" % name)
        rc, _, d = tlc(self.work, module, (None, t), workers=4, timeout=300 if TIER == "quick" else 1500, outfile=out)
        shutil.rmtree(d, ignore_errors=True)
        head = subprocess.run(["grep", "-v", "^<<\"PATH\"", out], capture_output=True, text=True).stdout
        if "Model checking completed. No error has been found." not in head:
            raise ToolError("TLC on %s failed\n%s" % (module, head[-3000:]))
        g, n = counts(head)
        self.cov["states"] += n
        self.cov["transitions"] += g
        self.cov.setdefault("models", []).append(dict(name=name, module=module, constants={k: str(v) for k, v in consts.items()},
                                                      states=n, transitions=g, complete=True))
        log("TLC: %s %d states, %d transitions" % (name, n, g))
        return out

    def replayed(self, binary, name, *a):
        out = os.path.join(self.work, "replay-" + name)
        lines = harness(*a, "--seed", SEED, "--out", out, "--dir", os.path.join(self.work, "scratch"), binary=binary, timeout=3000)
        n = 0
        for l in lines:
            if l.startswith("PATHS"):
                k = json.loads(l[6:])
                n = k["paths"]
                log("%s: %d of %d behaviours replayed on the code, %d differ" % (name, k["paths"], k["emitted"], k["differing"]))
                self.cov["traces_validated_against_impl"] += k["paths"]
                self.cov.setdefault("replayed", {})[name] = k
        for l in lines:
            if l.startswith("FOUND"):
                self.violation(l.split()[1], l)
        if not n:
            raise ToolError("nothing was replayed for " + name)

    def run(self):
        prof, qm, qs, tm, ts = PLAN[self.prop]
        quick = TIER == "quick"
        models = qm if quick else qm + [m for m in tm if m not in qm]
        sims = qs if quick else list(dict.fromkeys(qs + ts))
        done, errs = [], []

        def modelling():
            try:
                for s in sims:
                    done.append(run_sim(self.work, self.prop, s, 18 if quick else 90))
                for m in models:
                    done.append(run_model(self.work, self.prop, m))
                    log("TLC:", done[-1]["model"], done[-1]["states"], "states")
            except Exception as e:
                errs.append(e)
        th = threading.Thread(target=modelling)
        th.start()
        build()
        log("harness built")
        disk = Later(lambda: build("rocks", os.path.join(HARN, "target-rocks"))) if self.prop in DISK else None
        caches = Later(lambda: build_parts("uc", "target-uc")) if self.prop == "C20" else None
        st = self.explore(30 if quick else 420, SEED, threads=6 if quick else 8)
        log("explored", st.get("schedules", 0), "schedules,", st.get("steps", 0), "steps")
        self.sample(60 if quick else 500, 400 if quick else 600, SEED)
        log("recorded traces judged")
        th.join()
        if errs:
            raise errs[0]
        for r in done:
            if "model" in r:
                self.cov["states"] += r["states"]
                self.cov["transitions"] += r["transitions"]
                self.cov.setdefault("models", []).append(dict(
                    name=r["model"], states=r["states"], transitions=r["transitions"], complete=r["complete"]))
                self.paths(r)
            else:
                self.sims(r, 12 if quick else 60)
        if not self.cov["states"]:
            self.cov["states"] = self.cov.get("trace_states", 0)
        if disk:
            disk.get()
            self.disk(12 if quick else 200, 20 if quick else 150)
        if caches:
            # a message of a cluster with compressed entries carries a cache
            b = caches.get()
            out = self.spec("UniCache", dict(Policy='"lfu"', Size=2, NVals=4, MaxLen=8 if quick else 10), "caches", "INVARIANTS Transparent Mirrored")
            self.replayed(b, "caches", "uc-paths", out, "--ser", 1)
        # wherever the code leaves the specification, look closely at what follows
        self.close(quick)
        self.cov["explored_schedules"] = st.get("schedules", 0)
        self.cov["explored_steps"] = st.get("steps", 0)
        self.cov["explored_nontrivial"] = st.get("nontrivial", 0)
        self.cov["explored_state_shapes"] = st.get("state_shapes", 0)
        self.cov["explored_distinct"] = st.get("distinct", 0)
        for k in (1, 2):
            p = os.path.join(self.work, "sample", "%d.sched" % k)
            if os.path.exists(p):
                self.cov["samples"].append(open(p).read().replace("\n", "; ")[:800])
        self.evidence(0)
        log("held")


# --------------------------------------------------------------------------- the parts below the protocol
PARTS = os.path.join(HERE, "parts")


def build_parts(features, target):
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(PARTS, target))
    if "rocks" in features:
        env.update(rocks_env())
    r = subprocess.run(["cargo", "build", "--offline", "--quiet", "--features", features], cwd=PARTS, env=env,
                       capture_output=True, text=True)
    if r.returncode != 0:
        raise ToolError("the parts harness does not build against /repo:\n" + r.stderr[-3000:])
    return os.path.join(PARTS, target, "debug", "opx-parts")


class Parts(Check):
    """C15, C16, C17: a specification of the part, all of whose behaviours are replayed on it."""

    def programs(self, binary, backend, fail, count):
        """Random storage programs, recorded and judged by StorageTrace."""
        f = os.path.join(self.work, "programs-%s.json" % backend)
        harness("storage-random", "--backend", backend, "--fail", fail, "--count", count, "--seed", SEED, "--trace", f,
                "--dir", self.scratch, binary=binary)
        rc, out, d = tlc(self.work, "StorageTrace", (None, "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Contract\nALIAS Brief\n"),
                         env={"OPX_TRACES": f})
        text = open(out).read()
        shutil.rmtree(d, ignore_errors=True)
        trs = json.load(open(f))
        if "Invariant Contract is violated" in text:
            tid, l = int(re.findall(r"tid = (\d+)", text)[-1]), int(re.findall(r"l = (\d+)", text)[-1])
            p = os.path.join(self.work, "program-%s.txt" % backend)
            with open(p, "w") as h:
                h.write("# %s: what is read after the last step of this program is wrong\n%s\n" % (backend, json.dumps(trs[tid - 1][:l - 1])))
            self.violation(p, "recorded program %d on %s, step %d" % (tid, backend, l - 1))
        n = counts(text)[1]
        if "No error has been found" not in text or n != len(trs) + sum(len(t) for t in trs):
            raise ToolError("StorageTrace failed:\n" + text[-3000:])
        self.cov["traces_validated_against_impl"] += len(trs)
        self.cov["recorded_programs_" + backend] = len(trs)
        self.cov["recorded_steps_" + backend] = n - len(trs)
        if len(self.cov["samples"]) < 2:
            self.cov["samples"].append(json.dumps([dict(t=e["t"], ops=e["ops"]) for e in trs[0][:6]])[:800])
        log("%s: %d recorded programs, %d steps judged" % (backend, len(trs), n - len(trs)))

    def run(self):
        self.scratch = os.path.join(self.work, "scratch")
        os.makedirs(self.scratch)
        quick = TIER == "quick"
        getattr(self, "run" + self.prop)(quick)
        shutil.rmtree(self.scratch, ignore_errors=True)
        self.evidence(0)
        log("held")

    def runC15(self, quick):
        b = build_parts("rocks", "target")
        log("harness built")
        out = self.spec("StorageMC", dict(MaxIdx=3, Vals="{1, 2}", Bals="{1}", Decs="{0, 1}", WithFail=True), "storage3", "INVARIANT Inv", view="View")
        self.replayed(b, "memory", "storage-paths", out, "--backend", "mem")
        self.replayed(b, "persistent", "storage-paths", out, "--backend", "rocks", "--max", 5000 if quick else 0)
        self.programs(b, "mem", 0, 400 if quick else 3000)
        self.programs(b, "rocks", 1, 400 if quick else 3000)
        if not quick:
            out = self.spec("StorageMC", dict(MaxIdx=4, Vals="{1, 2}", Bals="{1}", Decs="{0, 1}", WithFail=False), "storage4", "INVARIANT Inv", view="View")
            self.replayed(b, "memory4", "storage-paths", out, "--backend", "mem")
            self.replayed(b, "persistent4", "storage-paths", out, "--backend", "rocks", "--max", 60000)

    def runC16(self, quick):
        res = {}

        def cluster():
            try:
                build("uc", os.path.join(HARN, "target-uc"))
                res["ok"] = True
            except Exception as e:
                res["e"] = e
        th = threading.Thread(target=cluster)
        th.start()
        b = build_parts("uc", "target-uc")
        log("harness built")
        for pol in ("lru", "lfu"):
            for size, nv, ln in [(1, 3, 7), (2, 4, 8), (3, 5, 8)] if quick else [(1, 3, 9), (2, 4, 10), (3, 5, 10), (4, 6, 9)]:
                out = self.spec("UniCache", dict(Policy='"%s"' % pol, Size=size, NVals=nv, MaxLen=ln), "%s%d" % (pol, size), "INVARIANTS Transparent Mirrored")
                if pol == "lru":
                    continue  # the same sequences; every one goes through both caches, of several sizes
                self.replayed(b, "values-%d-%d" % (nv, ln), "uc-paths", out)
        self.replayed(b, "random", "uc-random", "--count", 60 if quick else 1500, "--len", 60)
        th.join()
        if "e" in res:
            raise res["e"]
        self.bin = os.path.join(HARN, "target-uc", "debug", "opx-harness")
        st = self.explore(30 if quick else 420, SEED, threads=8)
        log("explored", st.get("schedules", 0), "schedules,", st.get("steps", 0), "steps with compressed entries")
        for k in ("schedules", "steps", "nontrivial", "state_shapes", "distinct"):
            self.cov["explored_" + k] = st.get(k, 0)
        d = os.path.join(self.work, "sample")
        os.makedirs(d)
        f = os.path.join(self.work, "sample.json")
        harness("sample", "--seed", SEED, "--count", 60 if quick else 400, "--maxlen", 80, "--maxev", 400,
                "--profiles", PLAN[self.prop][0], "--out", f, "--scheds", d, binary=self.bin)
        self.traces(f, lambda t: os.path.join(d, "%d.sched" % t))
        log("recorded traces judged")
        for m in ["ucbatch2"] if quick else ["ucbatch2", "uc2", "ucsnap2"]:
            r = run_model(self.work, self.prop, m)
            self.cov["states"] += r["states"]
            self.cov["transitions"] += r["transitions"]
            self.cov["models"].append(dict(name=m, states=r["states"], transitions=r["transitions"], complete=r["complete"]))
            self.paths(r)
        self.close(quick)
        self.cov["samples"].append(open(os.path.join(d, "1.sched")).read().replace("\n", "; ")[:800])

    def runC17(self, quick):
        b = build_parts("toml", "target")
        log("harness built")
        out = self.spec("Config", dict(MaxN=5 if quick else 7, LN=14 if quick else 26, QN=8 if quick else 11), "config", "INVARIANTS Inv Emitted", emit="")
        self.replayed(b, "configurations", "config-paths", out)
        r = subprocess.run(["grep", "-m", "3", "^<<\"PATH\"", out], capture_output=True, text=True).stdout
        self.cov["samples"] += [l[:400] for l in r.splitlines()]


ASSUME = [
    "links deliver in order, may lose messages, never duplicate or corrupt them; a session that loses messages is FIFO before and after",
    "all servers of a cluster use the same kind of compaction (trim or snapshot)",
    "entries and stop signs are distinguishable values; snapshots of the harness are the exact list of the entries they cover",
    "outside the bounded models the executions are sampled, not enumerated",
]


def replay_part(prop, f):
    cmd = {"C15": "storage-paths", "C16": "uc-paths", "C20": "uc-paths", "C17": "config-paths"}[prop]
    b = build_parts({"C15": "rocks", "C16": "uc", "C20": "uc", "C17": "toml"}[prop], "target-uc" if prop in ("C16", "C20") else "target")
    d = os.path.join(HERE, "out", "replay", "scratch")
    os.makedirs(d, exist_ok=True)
    bad = False
    for back in ("mem", "rocks") if prop == "C15" else ("mem",):
        for l in harness(cmd, f, "--backend", back, "--dir", d, "--out", d, *(("--ser", 1) if prop == "C20" else ()), binary=b):
            print(l)
            bad = bad or l.startswith("FOUND")
    shutil.rmtree(d, ignore_errors=True)
    print("VIOLATION property=%s replay=%s" % (prop, f) if bad else "holds on this behaviour")
    sys.exit(1 if bad else 0)


def main():
    if len(sys.argv) >= 4 and sys.argv[1] == "replay":
        prop, f = sys.argv[2], sys.argv[3]
        w = os.path.join(HERE, "out", "replay")
        os.makedirs(w, exist_ok=True)
        if prop in ("C15", "C17") or f.endswith(".txt"):
            replay_part(prop, f)
        binary = BIN
        if prop == "C16":
            binary = os.path.join(HARN, "target-uc", "debug", "opx-harness")
            build("uc", os.path.join(HARN, "target-uc"))
        elif " st=1" in open(f).read():
            binary = DISKBIN
            build("rocks", os.path.join(HARN, "target-rocks"))
        else:
            build()
        tr = os.path.join(w, "trace.json")
        print("\n".join(harness("replay", f, "--trace", tr, "--dir", os.path.join(w, "scratch"), binary=binary)))
        bad, text, n = judge_traces(w, prop, tr)
        print("VIOLATION property=%s replay=%s" % (prop, f) if bad else "holds on this schedule")
        sys.exit(1 if bad else 0)
    prop = sys.argv[1]
    try:
        (Parts if prop in ("C15", "C16", "C17") else Check)(prop).run()
    except ToolError as e:
        print("NO ANSWER:", e, flush=True)
        sys.exit(2)
    except SystemExit:
        raise
    except Exception as e:
        import traceback
        traceback.print_exc()
        sys.exit(2)


main()
