"""Deviation-bounded exhaustive explorer and check runner.

A *space* is a function  space(ch)  that builds one execution: every decision
is taken with ch.pick()/ch.all(), the real code of /repo is driven with the
result, and the outcome is compared with the reference model (raise Violation
when they differ).  The explorer enumerates ALL choice vectors of the space:

  ch.all(opts)          free choice: every option, always
  ch.pick(opts, small)  option 0 is the default; any other option is one
                        deviation.  All vectors with at most `bound`
                        deviations are executed; options with index >= small
                        ("wide" alphabet) are only combined with the default
                        of every other pick.

Nothing is sampled and no random choice is made anywhere.
"""
import hashlib, io, json, os, signal, sys, time, traceback, contextlib, resource
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_OUT", VERIF)


class Violation(Exception):
    def __init__(self, msg, detail=None):
        super().__init__(msg)
        self.msg = msg
        self.detail = detail


class CaseTimeout(BaseException):
    pass


class Prune(Exception):
    """Raised by a space when a choice vector describes no case."""


class ReplayError(Exception):
    pass


class Chooser:
    __slots__ = ("prefix", "choices", "points", "ops", "states", "sample", "outcome", "labels")

    def __init__(self, prefix=()):
        self.prefix = prefix
        self.choices = []
        self.points = []       # (n, small, cost)
        self.ops = 0           # operations of the real implementation executed
        self.states = []
        self.sample = None
        self.outcome = None
        self.labels = []

    def _take(self, n, small, cost):
        i = len(self.choices)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if not 0 <= c < n:
            raise ReplayError("choice %d out of range at point %d (n=%d)" % (c, i, n))
        self.choices.append(c)
        self.points.append((n, n if small is None else small, cost))
        return c

    def pick(self, opts, small=None):
        return opts[self._take(len(opts), small, 1)]

    def all(self, opts):
        return opts[self._take(len(opts), None, 0)]

    def op(self, n=1):
        self.ops += n

    def state(self, obj):
        """Record the (canonical) state/input this execution visits."""
        self.states.append(hashlib.blake2b(repr(obj).encode("utf-8", "surrogatepass"),
                                           digest_size=8).digest())
        if self.sample is None:
            self.sample = obj


class Space:
    def __init__(self, name, fn, bound=1, note=""):
        self.name, self.fn, self.bound, self.note = name, fn, bound, note


def _alarm(sig, frm):
    raise CaseTimeout()


CASE_TIMEOUT = float(os.environ.get("VERIF_CASE_TIMEOUT", "90"))


def run_case(space, prefix):
    """Execute one choice vector.  Returns (chooser, violation or None)."""
    ch = Chooser(prefix)
    v = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            space.fn(ch)
    except Prune:
        ch.states = []
    except ReplayError:
        raise
    except Violation as e:
        v = {"msg": e.msg, "detail": e.detail}
    except CaseTimeout:
        v = {"msg": "no answer within %g s" % CASE_TIMEOUT, "detail": None, "timeout": True}
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        v = {"msg": "unexpected %s: %s" % (type(e).__name__, str(e)[:400]),
             "detail": traceback.format_exc()[-3000:]}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    if len(ch.choices) < len(prefix) and v is None:
        raise ReplayError("prefix longer than the execution")
    return ch, v


def successors(space, prefix, devs, wide, ch):
    """Choice vectors that differ from this execution first at a point after prefix."""
    out = []
    for i in range(len(prefix), len(ch.points)):
        n, small, cost = ch.points[i]
        base = tuple(ch.choices[:i])
        for alt in range(1, n):
            if cost:
                if wide or devs + 1 > space.bound:
                    break
                if alt >= small:
                    if devs > 0:
                        break
                    out.append((base + (alt,), devs + 1, True))
                else:
                    out.append((base + (alt,), devs + 1, False))
            else:
                out.append((base + (alt,), devs, wide))
    return out


class Stats:
    def __init__(self):
        self.cases = 0
        self.ops = 0
        self.states = set()
        self.outcomes = set()
        self.maxdev = 0

    def add(self, ch):
        self.cases += 1
        self.ops += ch.ops
        self.states.update(ch.states)
        if ch.outcome is not None and len(self.outcomes) < 2000:
            self.outcomes.add(str(ch.outcome))


_SPACES = None
_DEADLINE = None


SLICE = 1.0


def _explore_task(batch):
    """Work on a batch of (space, prefix, deviations, wide) for about SLICE seconds; return what is left."""
    t0 = time.time()
    stack = list(batch)
    stats = {}
    while stack:
        now = time.time()
        if now > _DEADLINE:
            return stats, None, True, []
        if now - t0 > SLICE:
            break
        si, p, d, w = stack.pop()
        space = _SPACES[si]
        ch, v = run_case(space, p)
        stats.setdefault(si, Stats()).add(ch)
        if v is not None:
            return stats, {"space": space.name, "choices": list(ch.choices) if ch.choices else list(p),
                           "prefix": list(p), **v}, False, []
        stack.extend((si,) + x for x in reversed(successors(space, p, d, w, ch)))
    return stats, None, False, stack


def _worker_init():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    except Exception:
        pass
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(dn, 2)


def _isolate(ctx, tasks):
    """Run tasks in a process of its own, keeping a journal; name the case at which it dies."""
    import tempfile
    with tempfile.NamedTemporaryFile(prefix="mcj", mode="r+") as j:
        def child():
            _worker_init()
            stack = list(tasks)
            while stack:
                si, p, d, w = stack.pop()
                j.seek(0)
                j.truncate()
                j.write(json.dumps([si, list(p)]))
                j.flush()
                ch, v = run_case(_SPACES[si], p)
                if v is not None:
                    os._exit(3)
                stack.extend((si,) + x for x in reversed(successors(_SPACES[si], p, d, w, ch)))
            os._exit(0)
        pr = ctx.Process(target=child)
        pr.start()
        pr.join(max(5, _DEADLINE - time.time()))
        if pr.is_alive():
            pr.kill()
            pr.join()
            return None, True
        if pr.exitcode == 0:
            return None, False
        if pr.exitcode == -signal.SIGKILL:      # ended from outside (memory)
            return None, True
        si, p = json.load(open(j.name))
        return {"space": _SPACES[si].name, "choices": p, "prefix": p, "detail": None,
                "msg": "the process died (exit status %d)" % pr.exitcode}, True


def explore(spaces, deadline, jobs=None, log=None):
    """Returns (per-space stats, violation or None, truncated)."""
    global _SPACES, _DEADLINE
    _SPACES, _DEADLINE = spaces, deadline
    jobs = jobs or int(os.environ.get("VERIF_JOBS", str(min(8, os.cpu_count() or 1))))
    stats = [Stats() for _ in spaces]
    samples = []
    truncated = False
    tasks = []
    for si, sp in enumerate(spaces):
        # the default execution here, everything else in the workers
        ch, v = run_case(sp, ())
        stats[si].add(ch)
        if ch.sample is not None:
            samples.append({"space": sp.name, "choices": list(ch.choices), "case": repr(ch.sample)[:1500]})
        if v is not None:
            return stats, {"space": sp.name, "choices": list(ch.choices), "prefix": [], **v}, False, samples
        tasks.extend((si,) + x for x in successors(sp, (), 0, False, ch))
    viol = None
    if tasks:
        import queue
        ctx = mp.get_context("fork")
        pool = ctx.Pool(jobs, initializer=_worker_init)
        done = queue.Queue()
        pending = bid = 0
        open_batches = {}
        pids = {p.pid for p in pool._pool}
        tasks.reverse()
        try:
            while (tasks or pending) and viol is None:
                while tasks and pending < 2 * jobs:
                    k = max(1, min(64, len(tasks) // (2 * jobs)))
                    batch = tasks[-k:]
                    del tasks[-k:]
                    bid += 1
                    open_batches[bid] = batch
                    pool.apply_async(_explore_task, (batch,), callback=lambda r, b=bid: done.put((b, r)),
                                     error_callback=lambda r, b=bid: done.put((b, r)))
                    pending += 1
                try:
                    b, r = done.get(timeout=5)
                except queue.Empty:
                    if {p.pid for p in pool._pool} == pids:
                        continue
                    # a worker process died: find the case in isolation
                    pool.terminate()
                    pool.join()
                    lost = [t for x in open_batches.values() for t in x]
                    open_batches.clear()
                    pending = 0
                    viol, crashed = _isolate(ctx, lost)
                    truncated = True
                    if viol is not None or crashed:
                        break
                    pool = ctx.Pool(jobs, initializer=_worker_init)
                    pids = {p.pid for p in pool._pool}
                    continue
                if b not in open_batches:
                    continue
                del open_batches[b]
                pending -= 1
                if isinstance(r, BaseException):
                    raise r
                sts, v, tr, rest = r
                for si, st in sts.items():
                    s = stats[si]
                    s.cases += st.cases
                    s.ops += st.ops
                    s.states |= st.states
                    if len(s.outcomes) < 2000:
                        s.outcomes |= st.outcomes
                truncated = truncated or tr
                tasks.extend(rest)
                if v is not None:
                    viol = v
        finally:
            pool.terminate()
            pool.join()
    return stats, viol, truncated, samples


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        with open(p) as f:
            return json.load(f)
    return {"known": [], "fixed": []}


def write_evidence(prop, tier, level, coverage, wall, violations, assumptions):
    d = os.path.join(OUT, "evidence")
    os.makedirs(d, exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
          "level": level, "coverage": coverage, "wall_s": round(wall, 3),
          "violations": violations, "assumptions": assumptions}
    tmp = os.path.join(d, ".%s.json.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(d, prop + ".json"))


def save_replay(prop, v):
    d = os.path.join(OUT, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s.json" % prop)
    v = dict(v)
    v["property"] = prop
    v["how"] = "cd %s && ./check %s --replay %s" % (VERIF, prop, p)
    with open(p, "w") as f:
        json.dump(v, f, indent=1, default=repr)
        f.write("\n")
    return p
