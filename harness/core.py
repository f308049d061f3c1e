"""Exhaustive-enumeration runner shared by all checks.

A check module defines

    ID, LEVEL, RULE, ASSUMPTIONS
    cases(tier)            -> list/iterator of JSON-able case descriptors, in a fixed order
    run_case(case, ctx)    -> executes the case on the implementation, raises Violation

Cases are distributed statically over forked workers.  A violating case is
re-executed in a fresh process before it is reported.
"""
import argparse
import gc
import hashlib
import json
import os
import resource
import select
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(VERIF, "replays")
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")

from harness.world import Violation, Hang, ProtocolViolation  # noqa: E402


def h(x):
    return int.from_bytes(hashlib.blake2b(repr(x).encode("utf8", "backslashreplace"), digest_size=8).digest(), "big")


class Ctx:
    def __init__(self, tier, seed):
        self.tier, self.seed = tier, seed
        self.states = set()
        self.outcomes = set()
        self.counts = {}
        self.samples = []
        self.known = set()
        self.replaying = False

    def state(self, key):
        """Visit a state (hashed canonical form). True if new."""
        k = h(key)
        if k in self.states:
            return False
        self.states.add(k)
        return True

    def outcome(self, key):
        self.outcomes.add(h(key))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def transition(self, n=1):
        self.count("transitions", n)

    def trace(self, n=1):
        self.count("traces", n)

    def sample(self, s, cap=2):
        if len(self.samples) < cap:
            self.samples.append(s)

    def known_finding(self, key):
        self.known.add(key)


CPU_LIMIT = 60.0      # CPU seconds per case (three times as much in the thorough tier)


def _alarm(signum, frame):
    raise Hang(f"case used more than {_limit[0]:.0f} s of CPU time")


_limit = [CPU_LIMIT]


def _case_cpu(mod, case, tier="quick"):
    limit = getattr(mod, "CASE_CPU", CPU_LIMIT)
    limit = limit(case) if callable(limit) else limit
    return limit * 3 if tier == "thorough" else limit


def run_one(mod, case, ctx):
    """-> None or violation message"""
    _limit[0] = _case_cpu(mod, case, ctx.tier)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, _limit[0])
    # ends the process if the case hangs where Python's signal handlers don't run (a regex, arithmetic)
    signal.signal(signal.SIGVTALRM, signal.SIG_DFL)
    signal.setitimer(signal.ITIMER_VIRTUAL, 2 * _limit[0] + 20)
    try:
        mod.run_case(case, ctx)
        return None
    except Violation as e:
        return str(e) or "violation"
    except ProtocolViolation as e:
        return f"protocol violation: {e}"
    except Hang as e:
        return f"hang: {e}"
    except MemoryError:
        return "out of memory"
    except Exception:
        return "exception: " + traceback.format_exc(limit=-6)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def _worker(mod, cases, idx, n, tier, seed, fd, deadline, start=None):
    resource.setrlimit(resource.RLIMIT_AS, (getattr(mod, "MEM", 6) << 30,) * 2)
    ctx = Ctx(tier, seed)
    gc.collect()
    gc.freeze()
    gc.disable()
    if getattr(mod, "GC", False):       # single cases with much garbage
        gc.set_threshold(200000, 10, 10)
        gc.enable()
    done = 0
    viol = None
    every = getattr(mod, "GC_EVERY", 100)
    truncated = False
    for k in range(idx if start is None else start, len(cases), n):
        if time.time() > deadline:
            truncated = True
            break
        t = time.time()
        msg = run_one(mod, cases[k], ctx)
        if os.environ.get("VERIF_TIMES"):
            print("TIME %d %.2f %s" % (idx, time.time() - t, json.dumps(cases[k])[:150]), file=sys.stderr)
        done += 1
        if msg:
            viol = (k, cases[k], msg)
            break
        if done % every == 0:
            gc.collect()
    out = json.dumps(dict(done=done, viol=viol, states=sorted(ctx.states), outcomes=sorted(ctx.outcomes),
                          counts=ctx.counts, samples=ctx.samples, known=sorted(ctx.known),
                          truncated=truncated)).encode()
    with os.fdopen(fd, "wb") as f:
        f.write(out)


def fork_call(fn, timeout):
    """Run fn(write_fd) in a forked child; returns bytes written or None."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            fn(w)
            os._exit(0)
        except BaseException:
            traceback.print_exc()
            os._exit(3)
    os.close(w)
    return pid, r


def _collect(procs, deadline):
    """procs: {fd: pid}; returns {fd: bytes}; children over the deadline are killed."""
    data = {fd: b"" for fd in procs}
    openfds = set(procs)
    while openfds:
        left = deadline - time.time()
        if left <= 0:
            break
        rl, _, _ = select.select(list(openfds), [], [], min(left, 5))
        for fd in rl:
            b = os.read(fd, 1 << 20)
            if b:
                data[fd] += b
            else:
                openfds.discard(fd)
    for fd in openfds:
        try:
            os.kill(procs[fd], signal.SIGKILL)
        except ProcessLookupError:
            pass
    status = {}
    for fd, pid in procs.items():
        _, st = os.waitpid(pid, 0)
        status[fd] = (st, fd in openfds)
        os.close(fd)
    return data, status


def known_findings(pid):
    """Lines 'known: property=<id> key=<key> <text>' of the known-findings file."""
    res = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                body = line.split(" ", 2)[2]
                key = body.split(" ", 1)[0][len("key="):]
                res[key] = body
    return res


def main(mod):
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--limit", type=int)
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    pid = mod.ID
    if a.replay:
        d = json.load(open(a.replay))
        ctx = Ctx(d.get("tier", tier), seed)
        ctx.replaying = True
        for case in d.get("prefix", []) + [d["case"]]:
            msg = run_one(mod, case, ctx)
        print(json.dumps(d["case"])[:2000])
        print("replay:", msg or "no violation")
        return 1 if msg else 0
    t0 = time.time()
    try:
        signal.signal(signal.SIGPROF, _alarm)
        _limit[0] = 200.0
        signal.setitimer(signal.ITIMER_PROF, _limit[0])
        cases = list(mod.cases(tier))
        signal.setitimer(signal.ITIMER_PROF, 0)
    except (Exception, Hang):
        print("the executions of the check cannot be planned: the implementation fails\n" + traceback.format_exc())
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, f"{pid}-plan.json")
        with open(path, "w") as f:
            json.dump(dict(property=pid, tier=tier, case={"plan": True}, message=traceback.format_exc()), f)
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if a.limit:
        cases = cases[:a.limit]
    if a.list:
        print(len(cases))
        return 0
    jobs = max(1, min(a.jobs, len(cases)))
    budget = getattr(mod, "BUDGET", {"quick": 600, "thorough": 3300}).get(tier, 600)
    deadline = t0 + budget
    ctx = Ctx(tier, seed)
    done, viols, truncated, dead = 0, [], False, []
    report = None

    def again(w, cs):
        c = Ctx(tier, seed)
        m = None
        for x in cs:
            m = run_one(mod, x, c)
        os.write(w, (m or "").encode()[:60000])
        os.close(w)
    todo = [(i, None) for i in range(jobs)]
    for rnd in range(4):
        # a worker stops at its first violation; when that doesn't repeat, the rest of its cases is still run
        procs = {}
        for i, start in todo:
            p, fd = fork_call(lambda w, i=i, start=start: _worker(mod, cases, i, jobs, tier, seed, w, deadline, start), None)
            procs[fd] = p
        order = list(procs)
        data, status = _collect(procs, deadline + 120)
        new = []
        for (i, _), fd in zip(todo, order):
            if not data[fd]:
                dead.append((i, status[fd]))
                continue
            d = json.loads(data[fd])
            done += d["done"]
            truncated |= d["truncated"]
            ctx.states.update(d["states"])
            ctx.outcomes.update(d["outcomes"])
            for k, v in d["counts"].items():
                ctx.counts[k] = ctx.counts.get(k, 0) + v
            if len(ctx.samples) < 6:
                ctx.samples += d["samples"]
            ctx.known.update(d["known"])
            if d["viol"]:
                new.append((d["viol"][0], d["viol"][1], d["viol"][2], i))
        new.sort(key=lambda v: v[0])
        viols += new
        todo = []
        for n, (k, case, msg, wi) in enumerate(new):
            todo.append((wi, k + jobs))
            if n >= 3:
                continue
            # reproduce in a fresh process
            prefix = []
            p, fd = fork_call(lambda w: again(w, [case]), None)
            dd, _ = _collect({fd: p}, time.time() + 60 + 2 * _case_cpu(mod, case, tier))
            m2 = dd[fd].decode("utf8", "replace")
            if not m2 and rnd == 0:
                prefix = [cases[j] for j in range(wi, k, jobs)]
                p, fd = fork_call(lambda w: again(w, prefix + [case]), None)
                dd, _ = _collect({fd: p}, min(time.time() + 400, max(deadline, time.time() + 60)))
                m2 = dd[fd].decode("utf8", "replace")
            if m2:
                report = (case, m2, prefix)
                break
            print(f"not reproduced (not reported): {json.dumps(case)[:300]}: {msg[:300]}", file=sys.stderr)
            ctx.count("unreproduced")
        if report or not todo or time.time() > deadline:
            break
    if dead and not report:
        i, st = dead[0]
        if st[1]:
            truncated = True
            print(f"worker {i} stopped at the deadline", file=sys.stderr)
        else:
            report = ({"worker": i, "jobs": jobs}, f"worker process died (status {st[0]}): crash or memory exhaustion", [])
    kf = known_findings(pid)
    unknown = [k for k in sorted(ctx.known) if k not in kf]
    for k in sorted(ctx.known):
        if k in kf:
            print(f"KNOWN-FINDING: property={pid} {kf[k]}")
    if unknown and not report:
        report = ({"finding": unknown[0]}, f"unlisted finding {unknown[0]}", [])
    wall = time.time() - t0
    cov = {
        "states": len(ctx.states),
        "transitions": ctx.counts.get("transitions", 0),
        "traces_validated_against_impl": ctx.counts.get("traces", 0),
        "evaluations": done,
        "distinct_nontrivial": len(ctx.outcomes),
        "rule": getattr(mod, "RULE", ""),
        "samples": ctx.samples[:6] or [cases[0] if cases else None],
        "exhaustive": not truncated and not viols and not dead and done == len(cases) and not a.limit,
        "cases_total": len(cases),
        "bounds": getattr(mod, "BOUNDS", {}).get(tier, ""),
    }
    for k, v in ctx.counts.items():
        if k not in ("transitions", "traces"):
            cov["n_" + k] = v
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "model_checking"),
              coverage=cov, assumptions=list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(wall, 2),
              violations=1 if report else 0)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)
    print(f"{pid} {tier}: cases={done}/{len(cases)} states={cov['states']} transitions={cov['transitions']} "
          f"traces={cov['traces_validated_against_impl']} outcomes={cov['distinct_nontrivial']} wall={wall:.1f}s")
    if report:
        case, msg, prefix = report
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, f"{pid}-{h(case):016x}.json")
        with open(path, "w") as f:
            json.dump(dict(property=pid, tier=tier, case=case, prefix=prefix, message=msg,
                           replay_cmd=f"bin/check {pid} --replay {path}"), f, indent=1, default=repr)
        print("case:", json.dumps(case, default=repr)[:1500])
        print(msg[:3000])
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    return 0
