"""Stateless exhaustive explorer for the Python package: same conventions as harness/src/explore.rs.
A body asks for choices; every choice sequence is run. Work is split over forked processes; a crash or a hang is a violation."""
import hashlib, json, mmap, os, pickle, signal, struct, sys, tempfile, time, traceback, warnings

warnings.simplefilter("ignore")
ROOT = os.environ.get("VERIF_ROOT", "/verif")
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
THOROUGH = TIER == "thorough"
OUT = os.dup(1)
_null = os.open("/dev/null", os.O_WRONLY)
sys.stdout.flush()
os.dup2(_null, 1)  # the solvers print when verbose


def by_tier(q, t):
    return t if THOROUGH else q


def say(s):
    os.write(OUT, (s + "\n").encode())


class Bad(Exception):
    pass


class Skip(Exception):
    pass


class Diverged(Exception):
    pass


class Real(Exception):
    """an exception of the code under test that the body did not expect"""


def ensure(c, msg):
    if not c:
        raise Bad(msg() if callable(msg) else msg)


def call(f, *a, **k):
    """Runs code under test: ('ok', value) or ('raised', exception). A Rust panic is never an acceptable outcome."""
    try:
        return "ok", f(*a, **k)
    except Exception as e:
        return "raised", e
    except BaseException as e:
        if type(e).__name__ == "PanicException":
            raise Bad(f"the code under test panicked: {e}")
        raise


def must(f, *a, **k):
    s, v = call(f, *a, **k)
    if s != "ok":
        raise Bad(f"raised {type(v).__name__}: {v}")
    return v


def captured(f):
    """(result of f, bytes written to file descriptor 1 by f)"""
    with tempfile.TemporaryFile() as t:
        keep = os.dup(1)
        os.dup2(t.fileno(), 1)
        try:
            r = f()
        finally:
            sys.stdout.flush()
            os.dup2(keep, 1)
            os.close(keep)
        t.seek(0)
        return r, t.read()


class Ch:
    def __init__(self, prefix, want=False):
        self.prefix, self.want = prefix, want
        self.taken, self.arity, self.notes = [], [], []
        self.h = hashlib.blake2b(digest_size=8)
        self.states, self.transitions = [], 0
        self.is_trivial = False

    def pick(self, n):
        i = len(self.taken)
        v = self.prefix[i] if i < len(self.prefix) else 0
        if v >= n:
            raise Diverged(f"replay diverged: choice {i} has {n} options, recorded {v}")
        self.taken.append(v)
        self.arity.append(n)
        return v

    def of(self, xs):
        return xs[self.pick(len(xs))]

    def flag(self):
        return self.pick(2) == 1

    def skip(self):
        raise Skip()

    def note(self, s):
        if self.want:
            self.notes.append(s() if callable(s) else str(s))

    def outcome(self, *xs):
        for x in xs:
            self.h.update(repr(x).encode() + b";")

    def outcome_f(self, a):
        import numpy as np
        self.h.update(np.round(np.asarray(a, dtype=float) * 1e6).astype("i8", casting="unsafe").tobytes() + b";")

    def state(self, *xs):
        self.states.append(hashlib.blake2b(repr(xs).encode(), digest_size=8).digest())

    def step(self):
        self.transitions += 1

    def trivial(self):
        self.is_trivial = True


class Dev:
    """departures from the base point, at most `budget` of them in one execution"""
    def __init__(self, ch, budget):
        self.ch, self.left = ch, budget

    def pick(self, n):
        if self.left == 0 or n == 1:
            return 0
        v = self.ch.pick(n)
        self.left -= v != 0
        return v

    def of(self, xs):
        return xs[self.pick(len(xs))]


def run_one(body, prefix, want=False):
    ch = Ch(prefix, want)
    try:
        body(ch)
        v = ("ok", None)
    except Skip:
        v = ("skip", None)
    except Bad as e:
        v = ("bad", str(e))
    except (MemoryError, OSError, Diverged):
        v = ("error", traceback.format_exc())
    except Exception as e:  # the oracle could not read what the code under test gave
        v = ("bad", f"unusable result: {type(e).__name__}: {e} ({traceback.extract_tb(e.__traceback__)[-1].lineno})")
    if v[0] != "error" and len(ch.taken) < len(prefix):
        v = ("error", f"replay diverged: ended after {len(ch.taken)} of {len(prefix)} choices")
    return ch, v


def children(ch, plen):
    for i in range(plen, len(ch.taken)):
        for v in range(1, ch.arity[i]):
            yield ch.taken[:i] + [v]


class Tot:
    def __init__(self):
        self.n = self.skipped = self.trivial = self.transitions = self.depth = self.maxd = 0
        self.outcomes, self.states = set(), set()
        self.fail = None  # (choices, kind, message)
        self.capped = False

    def add(self, ch, v):
        if v[0] == "ok":
            self.n += 1
            self.transitions += ch.transitions
            self.states.update(ch.states)
            self.depth += len(ch.taken)
            self.maxd = max(self.maxd, len(ch.taken))
            if ch.is_trivial:
                self.trivial += 1
            else:
                self.outcomes.add(ch.h.digest())
        elif v[0] == "skip":
            self.skipped += 1
        elif self.fail is None or ch.taken < self.fail[0]:
            self.fail = (list(ch.taken), v[0], v[1])

    def merge(self, o):
        self.n += o.n; self.skipped += o.skipped; self.trivial += o.trivial; self.transitions += o.transitions
        self.depth += o.depth; self.maxd = max(self.maxd, o.maxd); self.capped |= o.capped
        self.outcomes |= o.outcomes; self.states |= o.states
        if o.fail and (self.fail is None or o.fail[0] < self.fail[0]):
            self.fail = o.fail


def explore(body, limit, hang=120.0, procs=8):
    t0 = time.time()
    tot = Tot()
    # grow a frontier of subtrees
    frontier, i = [[]], 0
    while i < len(frontier) and len(frontier) - i < 400 and tot.fail is None:
        p = frontier[i]
        i += 1
        ch, v = guarded(body, p)
        tot.add(ch, v)
        frontier.extend(children(ch, len(p)))
    frontier = frontier[i:]
    if tot.fail or not frontier:
        return tot
    # shared: next index, stop flag, and per worker a start time and the current choices
    SLOT = 4096
    m = mmap.mmap(-1, SLOT * (procs + 1))
    lockf = tempfile.TemporaryFile()
    import fcntl

    def nxt():
        fcntl.lockf(lf, fcntl.LOCK_EX)
        k = struct.unpack_from("q", m, 0)[0]
        struct.pack_into("q", m, 0, k + 1)
        fcntl.lockf(lf, fcntl.LOCK_UN)
        return k

    tmp = tempfile.mkdtemp(prefix="verif-py-")
    lockpath = os.path.join(tmp, "lock")
    open(lockpath, "w").close()
    pids = {}
    for w in range(procs):
        pid = os.fork()
        if pid:
            pids[pid] = w
            continue
        code = 1
        try:
            lf = open(lockpath, "r+")
            mine = Tot()
            base = SLOT * (w + 1)
            while not mine.fail and not mine.capped and m[8] == 0:
                k = nxt()
                if k >= len(frontier):
                    break
                stack = [frontier[k]]
                while stack:
                    if m[8] or time.time() - t0 > limit:
                        mine.capped = not m[8]
                        break
                    p = stack.pop()
                    enc = json.dumps(p).encode()[: SLOT - 64]
                    struct.pack_into("dI", m, base, time.time(), len(enc))
                    m[base + 16: base + 16 + len(enc)] = enc
                    ch, v = run_one(body, p)
                    struct.pack_into("d", m, base, 0.0)
                    mine.add(ch, v)
                    if mine.fail:
                        m[8] = 1
                        break
                    stack.extend(children(ch, len(p)))
            with open(os.path.join(tmp, f"{w}.pkl"), "wb") as f:
                pickle.dump(mine, f)
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(code)
    died = None
    while pids:
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            time.sleep(0.01)
            now = time.time()
            for q, w in list(pids.items()):
                s, n = struct.unpack_from("dI", m, SLOT * (w + 1))
                if s and now - s > hang:
                    died = died or (w, f"an execution did not end within {hang} s")
                    m[8] = 1
                    os.kill(q, signal.SIGKILL)
            continue
        w = pids.pop(pid, None)
        if w is None:
            continue
        if os.WIFSIGNALED(st) and died is None:
            died = (w, f"the process was ended by signal {os.WTERMSIG(st)}")
            m[8] = 1
        elif os.WIFEXITED(st) and os.WEXITSTATUS(st) and died is None:
            tot.fail = ([], "error", f"worker {w} exited with {os.WEXITSTATUS(st)}")
            m[8] = 1
    for w in range(procs):
        f = os.path.join(tmp, f"{w}.pkl")
        if os.path.exists(f):
            tot.merge(pickle.load(open(f, "rb")))
            os.unlink(f)
    os.unlink(lockpath)
    os.rmdir(tmp)
    if died:
        base = SLOT * (died[0] + 1)
        n = struct.unpack_from("dI", m, base)[1]
        tot.fail = (json.loads(bytes(m[base + 16: base + 16 + n])), "crash", died[1])
    return tot


def guarded(body, prefix):
    """run_one in a child, so that a crash while growing the frontier is still a verdict"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            ch, v = run_one(body, prefix)
            d = pickle.dumps((ch.taken, ch.arity, ch.states, ch.transitions, ch.is_trivial, ch.h.digest(), v))
            with os.fdopen(w, "wb") as f:
                f.write(d)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        d = f.read()
    st = os.waitpid(pid, 0)[1]
    ch = Ch(prefix)
    if os.WIFSIGNALED(st) or not d:
        ch.taken = list(prefix)
        return ch, ("crash", f"the process was ended by signal {os.WTERMSIG(st)}")
    ch.taken, ch.arity, ch.states, ch.transitions, ch.is_trivial, dig, v = pickle.loads(d)
    class H:
        def digest(self): return dig
    ch.h = H()
    return ch, v


def main(id, level, rule, alphabet, bounds, assumptions, body, merge=False):
    if "--replay" in sys.argv:
        r = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        ch, v = run_one(body, r["choices"], True)
        for n in ch.notes:
            say(n)
        say({"ok": "replay: no violation", "skip": "replay: no violation"}.get(v[0], f"replay: {v[0]}: {v[1]}"))
        os._exit({"ok": 0, "skip": 0, "bad": 1}.get(v[0], 2))
    t0 = time.time()
    limit = float(os.environ.get("VERIF_LIMIT_S", by_tier(240, 700)))
    tot = explore(body, limit)
    samples, determinism = [], "not run"
    if not tot.fail:
        a, _ = run_one(body, [], True)
        b, _ = run_one(body, a.taken, True)
        determinism = "identical" if (a.taken, a.notes, a.h.digest()) == (b.taken, b.notes, b.h.digest()) else "DIVERGED"
        samples.append({"choices": a.taken, "case": "; ".join(a.notes)})
        for k in range(4):
            p, cur = [], a
            for i in range(64):
                if i >= len(cur.taken):
                    break
                p.append(cur.arity[i] * (k + 1) // 5 % max(1, cur.arity[i]))
                cur, v = run_one(body, p, True)
                if v[0] == "error":
                    break
            samples.append({"choices": cur.taken, "case": "; ".join(cur.notes)})
    wall = time.time() - t0
    exhaustive = not tot.capped and not tot.fail
    common = {"rule": rule, "alphabet": alphabet, "bounds": bounds, "exhaustive": exhaustive,
              "pruned_outside_domain": tot.skipped, "trivial": tot.trivial,
              "choice_points_mean": round(tot.depth / max(1, tot.n), 2), "choice_points_max": tot.maxd,
              "replay_determinism": determinism, "samples": samples}
    if level == "model_checking":
        cov = {"states": len(tot.states), "transitions": tot.transitions, "traces_validated_against_impl": tot.n,
               "distinct_outcomes": len(tot.outcomes), **common}
    else:
        cov = {"evaluations": tot.n, "distinct_nontrivial": len(tot.outcomes), **common}
    ev = {"property": id, "tier": TIER, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level, "coverage": cov,
          "assumptions": assumptions, "wall_s": round(wall, 3), "violations": int(bool(tot.fail and tot.fail[1] in ("bad", "crash")))}
    path = os.path.join(ROOT, "evidence", id + ".json")
    if merge:  # the Rust part of the same check has just written its evidence
        old = json.load(open(path))
        old["coverage"]["evaluations"] += cov["evaluations"]
        old["coverage"]["distinct_nontrivial"] += cov["distinct_nontrivial"]
        old["coverage"]["python_part"] = cov
        old["coverage"]["exhaustive"] = old["coverage"]["exhaustive"] and exhaustive
        old["wall_s"] += ev["wall_s"]
        old["violations"] += ev["violations"]
        old["assumptions"] += assumptions
        ev = old
    os.makedirs(os.path.dirname(path), exist_ok=True)
    json.dump(ev, open(path, "w"))
    say(f"{id} [{TIER}]{' python part' if merge else ''} executions={tot.n} pruned={tot.skipped} trivial={tot.trivial} outcomes={len(tot.outcomes)} states={len(tot.states)} transitions={tot.transitions} exhaustive={exhaustive} wall={wall:.1f}s")
    if tot.fail:
        choices, kind, msg = tot.fail
        if kind == "error":
            say(f"{id}: HARNESS ERROR: {msg} choices={choices}")
            os._exit(2)
        notes, again = [], "a crash, not run again here"
        if kind == "bad":
            ch, v = run_one(body, choices, True)
            notes, again = ch.notes, "reproduced on replay" if v[0] == "bad" else "NOT reproduced on replay"
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        rp = os.path.join(ROOT, "replays", id + (".py" if merge else "") + ".json")
        json.dump({"property": id, "tier": TIER, "choices": choices, "message": msg, "case": notes}, open(rp, "w"))
        say(f"{id}: {msg} [{again}]")
        for n in notes[-6:]:
            say("  " + n)
        say(f"VIOLATION property={id} replay={rp}")
        os._exit(1)
    if determinism != "identical" or tot.n == 0:
        say(f"{id}: HARNESS ERROR: determinism {determinism}, executions {tot.n}")
        os._exit(2)
    os._exit(0)
