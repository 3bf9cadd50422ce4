"""C20: results depend on the arguments only, whatever was called before and whatever runs at the same time."""
import json
import os
import random
import signal
import subprocess
import sys
import threading
import time
import traceback
import warnings

from vk import core

RULE = "a distinct evaluation is one operation (kind and number) executed in one context (a history and position, or a schedule of threads) and compared with its isolated execution; non-trivial = at least one other operation ran before or at the same time"
LEVEL = "exploration"
TECHNIQUE = ("runtime monitor over executions of the same operation in different contexts: alone in a forked child of a process that only imported skops (and in new interpreters with other hash seeds) against histories of other operations, interleaved steps of several card "
             "scripts, and threads whose switches are driven at every line of skops by a seeded scheduler (sys.monitoring) or by the interpreter at 1 us; results are compared as text up to ids; an identity monitor walks what live cards, and what the results of different loads, have in common")
LEVEL_NOTE = "20 kinds of operations (dumps, dump, loads, load, get_untrusted_types, visualize, re-entrant calls, failing calls, mutation between calls, one path with changing content, cards, parse_modelcard); histories of 20-60 operations; 2-4 threads; switches are at lines of skops (bytecode level only with the preemptive runs)"
REQUIRED = {"isolated": 500, "history_ops": 3000, "interleaved_steps": 10000, "thread_runs": 600, "switches": 20000, "interleavings": 400, "preemptive_runs": 150, "fresh_processes": 12, "live_cards": 900, "live_loads": 120, "shared_argument_runs": 60, "error_filter_runs": 60}

HANG_S = 40


def plan(tier, seed):
    q = tier == "quick"
    return (core.spread("history", 130 if q else 4000, 3 if q else 8, pool=220 if q else 700, timeout_s=850, budget_s=100 if q else 700)
            + core.spread("threads", 1300 if q else 36000, 4 if q else 10, pool=150 if q else 500, timeout_s=850, budget_s=110 if q else 740)
            + [dict(name="fresh", n=20 if q else 120, part=i, timeout_s=850, budget_s=110 if q else 700) for i in range(1 if q else 3)])


# ---------------------------------------------------------------- forked children
def forked(f, timeout=HANG_S):
    """f() in a forked child; ("ok", value) | ("hang", stacks) | ("died", status)"""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = ["ok", f()]
            except BaseException:
                out = ["harness", traceback.format_exc()]
            data = json.dumps(out, default=repr).encode()
            with os.fdopen(w, "wb") as fh:
                fh.write(data)
        finally:
            os._exit(0)
    os.close(w)
    import select
    chunks, end = [], time.time() + timeout
    while True:
        left = end - time.time()
        if left <= 0 or not select.select([r], [], [], left)[0]:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return ["hang", f"no answer within {timeout} s"]
        b = os.read(r, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if not chunks:
        return ["died", f"wait status {st}"]
    out = json.loads(b"".join(chunks))
    if out[0] == "harness":
        raise RuntimeError("in a forked child: " + out[1])
    return out


class Pool:
    """operations of one shard and their isolated results"""

    def __init__(self, ctx, shard):
        from vk import ops
        self.ctx, self.ops = ctx, ops
        self.d = ctx.tmpdir()
        self.seed = f"{ctx.seed}|{shard['name']}"
        st = forked(lambda: ops.make_fixtures(self.d, self.seed), 300)
        if st[0] != "ok":
            raise RuntimeError(f"fixtures: {st}")
        self.fx = ops.read_fixtures(self.d)
        ctx.count("fixtures", sum(len(v) for v in self.fx.values()))
        r = random.Random(f"pool|{self.seed}")
        ks = ops.names()
        self.members = [(k, f"{self.seed}|{i}") for i in range(2) for k in sorted(ops.KINDS)]
        self.members += [(r.choice(ks), f"{self.seed}|{i}") for i in range(2, shard["pool"] - len(self.members))]
        self.want = {}
        self.serial = 0

    def op(self, m):
        self.serial += 1
        return self.ops.Op(m[0], m[1], os.path.join(self.d, "x", f"{os.getpid()}_{self.serial}"), self.fx)

    def isolated(self, m):
        """the result of an operation on its own, in a process that has done nothing else"""
        m = tuple(m)
        if m not in self.want:
            def alone():
                o = self.op(m)
                try:
                    return o.run().result(), isinstance(o, str)
                finally:
                    o.close()
            out = []
            for _ in range(2):
                st = forked(alone)
                if st[0] != "ok":
                    self.ctx.violation("isolated-" + st[0], f"{m[0]} {m[1]} on its own: {st[1]}", op=m)
                    out.append(st[0])
                else:
                    out.append(st[1][0])
            self.ctx.count("isolated")
            self.ctx.count("kind " + m[0])
            if out[0].startswith("raised"):
                self.ctx.count("raising")
            if out[0] != out[1]:
                self.ctx.violation("unstable", f"{m[0]} {m[1]} gives different results in two processes that did nothing else: {self.ops.first(*out)}", op=m)
            self.want[m] = out[0]
        return self.want[m]


def is_bad(s):
    return type(s).__name__ == "Bad"


def judge(pool, m, o, report):
    """compare the result of an executed operation with its isolated result"""
    got = o.result()
    want = pool.want[tuple(m)]
    if is_bad(got):
        report("inconsistent", m, str(got))
    elif got != want:
        report("differs", m, f"instead of {pool.ops.first(want, got)}")


# ---------------------------------------------------------------- histories
def run(ctx, shard):
    warnings.simplefilter("ignore")
    from vk import ops
    import skops.card  # noqa
    import skops.io  # noqa
    import matplotlib.pyplot  # noqa
    import pandas  # noqa
    import rich.console  # noqa
    import rich.tree  # noqa
    ops.install_out()
    os.chdir(ctx.tmpdir())
    globals()["run_" + shard["name"]](ctx, shard)
    os.chdir("/")


def run_history(ctx, shard):
    pool = Pool(ctx, shard)
    for i, r in ctx.cases(shard["lo"], shard["hi"]):
        ms = [r.choice(pool.members) for _ in range(r.randrange(20, 60))]
        ms += [r.choice(ms) for _ in range(r.randrange(10))]
        for m in ms:
            pool.isolated(m)
        seed, width = r.random(), r.choice([1, 1, 2, 4, 8])
        st = forked(lambda: history(pool, ms, seed, width), 240)
        if st[0] != "ok":
            ctx.violation("history-" + st[0], f"a history of {len(ms)} operations: {st[1]}", ops=ms)
            continue
        bad, n, steps, cards = st[1]
        ctx.count("history_ops", n)
        ctx.count("interleaved_steps", steps)
        ctx.count("live_cards", cards[0])
        ctx.count("live_loads", cards[1])
        for j, m in enumerate(ms):
            ctx.ev((ctx.seed, "h", i, j, *m) if j else None)
        for kind, m, msg in bad[:3]:
            culprit = ""
            if kind == "differs":
                for before in [m] + [x for x in ms if x[0] != m[0]] + ms:
                    st = forked(lambda: history(pool, [before, m], seed, 1))
                    if st[0] == "ok" and any(b[1] == list(m) or tuple(b[1]) == tuple(m) for b in st[1][0]):
                        culprit = f" (already after {before[0]} {before[1]})"
                        break
            ctx.violation("history-" + kind, f"{m} after other operations{culprit}: {msg}", history=ms)
        ctx.sample(f"history of {len(ms)} operations, {width} at a time: {[m[0] for m in ms][:8]}...")


def history(pool, ms, seed, width):
    """runs operations, at most `width` of them open at once; returns [(kind, op, message)], number, steps, cards"""
    r = random.Random(seed)
    ops = pool.ops
    bad = []
    todo = list(ms)[::-1]
    live = []
    n = steps = 0

    def report(kind, m, msg):
        bad.append((kind, m, msg))
    while todo or live:
        if todo and (not live or len(live) < width and r.random() < .5):
            m = todo.pop()
            live.append((m, pool.op(m)))
        m, o = live[r.randrange(len(live))]
        steps += 1
        if o.step():
            live.remove((m, o))
            judge(pool, m, o, report)
            o.close()
            n += 1
    s = ops.shared_between_cards()
    if s:
        bad.append(("shared", ["cards", ""], s))
    s = ops.live_loads()
    if s:
        bad.append(("loads", ["loads", ""], s))
    return bad, n, steps, [len(ops.LIVE_CARDS), len(ops.LIVE_LOADS)]


# ---------------------------------------------------------------- threads
class Scheduler:
    """passes the right to run between threads at lines of skops, as a seeded choice says"""

    TOOL = 4

    def __init__(self, n, policy, r):
        self.cv = threading.Condition()
        self.n, self.r = n, r
        self.alive = set(range(n))
        self.turn = 0
        self.me = threading.local()
        self.kind, self.arg = policy
        self.lines = [0] * n
        self.switches = self.timeouts = 0
        self.trace = []
        self.plan = {}
        if self.kind == "points":  # (thread, line count) -> thread
            self.plan = {tuple(k): t for k, t in self.arg}
        self.code = {}
        self.blocked = set()

    def start(self):
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, "c20")
        mon.register_callback(self.TOOL, mon.events.LINE, self.line)
        mon.set_events(self.TOOL, mon.events.LINE)

    def stop(self):
        mon = sys.monitoring
        mon.set_events(self.TOOL, 0)
        mon.register_callback(self.TOOL, mon.events.LINE, None)
        mon.free_tool_id(self.TOOL)

    def ours(self, code):
        x = self.code.get(code)
        if x is None:
            x = self.code[code] = f"{os.sep}skops{os.sep}" in code.co_filename and "site-packages" not in code.co_filename and "/verif" not in code.co_filename
        return x

    def line(self, code, line):
        if not self.ours(code):
            return sys.monitoring.DISABLE
        i = getattr(self.me, "no", None)
        if i is None:
            return
        self.lines[i] += 1
        if self.turn is None:
            return  # free: the threads hold locks too often for taking turns
        self.blocked.discard(i)
        if self.turn != i:  # was blocked, and took part without the turn
            with self.cv:
                self.wait(i)
        to = None
        if self.kind == "random":
            if self.r.random() < self.arg:
                to = self.other(i)
        else:
            to = self.plan.get((i, self.lines[i]))
            if to is not None and (to not in self.alive or to in self.blocked):
                to = None
        if to is not None and to != i:
            self.trace.append((i, to, code.co_name, line))
            with self.cv:
                self.switches += 1
                self.turn = to
                self.cv.notify_all()
                self.wait(i)

    def other(self, i):
        c = sorted(self.alive - self.blocked - {i})
        return self.r.choice(c) if c else None

    def wait(self, i):
        # a thread that holds the turn may itself wait for something that others hold (an import lock, a lock of skops):
        # who waits for a thread that does not get anywhere goes on
        while self.turn is not None and self.turn != i:
            holder, before = self.turn, self.lines[self.turn]
            if not self.cv.wait(.02) and self.turn == holder and self.lines[holder] == before:
                self.timeouts += 1
                self.blocked.add(holder)
                self.turn = i if self.timeouts < 40 else None
                self.cv.notify_all()

    def enter(self, i):
        self.me.no = i
        with self.cv:
            self.wait(i)

    def leave(self, i):
        self.me.no = None
        with self.cv:
            self.alive.discard(i)
            if self.turn == i and self.alive:
                c = sorted(self.alive - self.blocked or self.alive)
                self.turn = c[0] if self.kind != "random" else self.r.choice(c)
            self.cv.notify_all()


def concurrently(pool, ms, how, seed, same=False, error_filter=False):
    """runs operations in threads, one each; returns [(kind, op, message)] and what the scheduler saw"""
    import matplotlib
    matplotlib.use("Agg")
    r = random.Random(seed)
    if same:
        one = pool.op(ms[0])
        execs = [one] * len(ms)
    else:
        execs = [pool.op(m) for m in ms]
    bad = []
    sched = None
    if how[0] in ("random", "points"):
        sched = Scheduler(len(ms), how, r)
    barrier = threading.Barrier(len(ms))
    raws = [None] * len(ms)

    def body(i):
        o = execs[i]
        try:
            if sched:
                sched.enter(i)
            else:
                barrier.wait()
            if same:
                # one prepared operation, called by all threads with the same arguments
                o2 = pool.ops.Op.__new__(pool.ops.Op)
                o2.__dict__.update(o.__dict__, raw=None, error=None, gen=None, done=False)
                raws[i] = o2
                o2.run()
            else:
                raws[i] = o
                o.run()
        except BaseException:
            bad.append(("harness", ms[i], traceback.format_exc()))
        finally:
            if sched:
                sched.leave(i)
    old = sys.getswitchinterval()
    with warnings.catch_warnings():
        warnings.simplefilter("error" if error_filter else "ignore", DeprecationWarning)
        filters = list(warnings.filters)
        if sched:
            sched.start()
        else:
            sys.setswitchinterval(1e-6)
        ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(ms))]
        for t in ts:
            t.start()
        end = time.time() + HANG_S - 10
        for t in ts:
            t.join(max(.01, end - time.time()))
        hung = [i for i, t in enumerate(ts) if t.is_alive()]
        if hung:
            frames = sys._current_frames()
            where = [" < ".join(f"{f.name}:{f.lineno}" for f in traceback.extract_stack(frames[ts[i].ident])[::-1][:6]) for i in hung]
            return [("hang", ms[hung[0]], f"threads {hung} did not finish: {where}")], 0, 0, "", 0
        if sched:
            sched.stop()
        sys.setswitchinterval(old)
        # the filters are global: what skops leaves there changes later calls
        if warnings.filters != filters and all(m[0] == "ufuncs" for m in ms):
            bad.append(("filters", ms[0], f"the warning filters are {warnings.filters[:3]}... and were {filters[:3]}..."))

    def report(kind, m, msg):
        bad.append((kind, m, msg))
    for m, o in zip(ms, raws):
        if o is not None:
            judge(pool, m, o, report)
    for o in execs:
        o.close()
    s = pool.ops.shared_between_cards()
    if s:
        bad.append(("shared", ["cards", ""], s))
    if sched:
        return bad, sched.switches, sched.timeouts, core.h(sched.trace), sum(sched.lines)
    return bad, 0, 0, "", 0


# operations that can be called by several threads with the very same arguments
READERS = ["dumps", "untrusted", "loads", "visualize", "loads_corrupt", "loads_hostile", "dumps_twice", "loads_edited", "untrusted_edited"]
# those that draw with pyplot, which is not made for threads, only run with switches at lines of skops
PYPLOT = ["card_plots"]


def policy(r, n):
    k = r.random()
    if k < .3:
        return ("random", r.choice([1.0, .5, .2, .05]))
    if k < .8:
        # few switches at random lines: thread 0 to some line, others in between, and back
        top = r.choice([20, 60, 200, 800, 3000])
        pts = []
        for _ in range(r.choice([1, 1, 2, 3])):
            a = r.randrange(n)
            pts.append([[a, r.randrange(1, top)], r.choice([x for x in range(n) if x != a])])
        return ("points", pts)
    return ("preempt", None)


def run_threads(ctx, shard):
    pool = Pool(ctx, shard)
    readers = [m for m in pool.members if m[0] in READERS]
    ufuncs = [m for m in pool.members if m[0] == "ufuncs"]
    for i, r in ctx.cases(shard["lo"], shard["hi"]):
        n = r.choice([2, 2, 2, 3, 4])
        same = r.random() < .12
        how = policy(r, n)
        k = r.random()
        if same:
            ms = [r.choice(readers)] * n
        elif k < .3:
            ms = [r.choice(pool.members)] * n  # the same operation, on arguments of its own
        elif k < .5:
            kd = r.choice(pool.members)[0]
            ms = [r.choice([m for m in pool.members if m[0] == kd]) for _ in range(n)]
        else:
            ms = [r.choice(pool.members) for _ in range(n)]
        if how[0] == "preempt":
            ms = [m if m[0] not in PYPLOT else r.choice(readers) for m in ms]
        flt = r.random() < .15
        if flt and not same:
            for j in range(r.choice([1, 2, n, n])):
                ms[j % n] = r.choice(ufuncs)
        for m in ms:
            pool.isolated(m)
        seed = r.random()
        st = forked(lambda: concurrently(pool, ms, how, seed, same, flt))
        if st[0] != "ok":
            ctx.violation("threads-" + st[0], f"{ms} in threads ({how}): {st[1]}", ops=ms, how=how)
            continue
        bad, switches, timeouts, trace, lines = st[1]
        ctx.count("thread_runs")
        ctx.count("switches", switches)
        ctx.count("lines", lines)
        ctx.count("scheduler_timeouts", timeouts)
        ctx.count("shared_argument_runs", same)
        ctx.count("error_filter_runs", flt)
        if how[0] == "preempt":
            ctx.count("preemptive_runs")
        if switches:
            ctx.count("interleavings")
            ctx.key(trace)
        for j, m in enumerate(ms):
            ctx.ev((ctx.seed, "t", i, j, *m))
        for kind, m, msg in bad[:3]:
            if kind == "harness":
                raise RuntimeError(msg)
            ctx.violation("threads-" + kind, f"{m} while {[x for x in ms]} run in threads ({how}, same arguments: {same}, DeprecationWarning {'error' if flt else 'ignored'}): {msg}", ops=ms, how=how)
        ctx.sample(f"threads {[m[0] for m in ms]}, {how[0]}, {switches} switches at lines of skops")


# ---------------------------------------------------------------- new interpreters
FRESH = """
import sys, json, warnings
warnings.simplefilter("ignore")
sys.path[:0] = {path!r}
from vk import ops
ops.install_out()
fx = ops.read_fixtures({d!r})
o = ops.Op({kind!r}, {no!r}, {x!r}, fx)
s = o.run().result()
o.close()
sys.stdout.under.write(json.dumps([type(s).__name__, s]))
"""

# what these give does not depend on the order of sets in their arguments
HASH_FREE = ["untrusted", "untrusted_edited", "visualize", "card", "card_table_edited", "card_path_model", "parsed", "loads_hostile", "loads_corrupt", "id_reuse", "loads"]


def run_fresh(ctx, shard):
    pool = Pool(ctx, dict(shard, pool=120))

    env = dict(os.environ)
    for i, r in ctx.cases(0, shard["n"]):
        r = random.Random(f"{ctx.seed}|{shard['part']}|{i}")
        free = i % 3
        m = r.choice([m for m in pool.members if m[0] in HASH_FREE] if free else pool.members)
        want = pool.isolated(m)
        env["PYTHONHASHSEED"] = str(r.randrange(1, 1000)) if free else "0"
        src = FRESH.format(path=[core.REPO, os.path.join(core.VERIF, "lib")], d=pool.d, kind=m[0], no=m[1], x=os.path.join(pool.d, f"fresh{i}"))
        p = subprocess.run([core.PYTHON, "-c", src], capture_output=True, text=True, env=env, timeout=120, cwd=pool.d)
        if p.returncode:
            raise RuntimeError(p.stderr[-2000:])
        typ, got = json.loads(p.stdout)
        ctx.count("fresh_processes")
        ctx.ev((ctx.seed, "f", shard["part"], i, *m))
        if typ == "Bad":
            ctx.violation("fresh-inconsistent", f"{m} in a new interpreter: {got}", op=m)
        elif got != want:
            ctx.violation("fresh-differs", f"{m} in a new interpreter (PYTHONHASHSEED={env['PYTHONHASHSEED']}) differs: {pool.ops.first(want, got)}", op=m)

