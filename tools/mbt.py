"""Model-based testing core: run TLC, collect the transitions it explores, turn
them into test paths, replay the paths in a harness and compare."""
import collections, hashlib, json, os, pickle, random, re, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.environ.get("DOTS_BUILD", os.path.join(VERIF, "build"))
SPECS = os.path.join(VERIF, "specs")
JAR = "/opt/veriftools/tla/tla2tools.jar"
CM = None
NCPU = os.cpu_count() or 4


class ModelError(Exception):
    """the machinery itself failed: neither a pass nor a violation"""


def tlc_classpath():
    global CM
    if CM is None:
        CM = JAR
        d = os.path.dirname(JAR)
        for f in sorted(os.listdir(d)):
            if f.endswith(".jar") and f != os.path.basename(JAR):
                CM += ":" + os.path.join(d, f)
    return CM


def canon(x):
    """empty records, sequences and sets look alike in TLC's JSON; fields whose name ends in S are sets"""
    if isinstance(x, dict):
        if not x:
            return []
        return {k: (sorted((canon(e) for e in v), key=lambda e: json.dumps(e, sort_keys=True)) if k.endswith("S") and isinstance(v, list) else canon(v)) for k, v in x.items()}
    if isinstance(x, list):
        return [canon(e) for e in x]
    if isinstance(x, float) and x == int(x):
        return int(x)
    return x


REC = re.compile(r"\[([^\[\]]*\|->[^\[\]]*)\]")


def norm_text(s):
    """TLC prints the fields of equal records in different orders"""
    if "|->" not in s:
        return s
    parts = []
    def one(m):
        fields = _split(m.group(1))
        parts.append("[" + ", ".join(sorted(fields)) + "]")
        return f"\x00{len(parts)-1}\x01"
    prev = None
    while prev != s:
        prev = s
        s = REC.sub(one, s)
    while "\x00" in s:
        s = re.sub("\x00(\\d+)\x01", lambda m: parts[int(m.group(1))], s)
    return s


def _split(t):
    out, depth, start = [], 0, 0
    for m in re.finditer(r"<<|>>|[{}(),]", t):
        c = m.group()
        if c in ("<<", "{", "("): depth += 1
        elif c in (">>", "}", ")"): depth -= 1
        elif depth == 0:
            out.append(t[start:m.start()].strip()); start = m.end()
    out.append(t[start:].strip())
    return out


class Graph:
    def __init__(self):
        self.ids = {}
        self.raw = {}
        self.out = []          # node -> list of (edge index)
        self.edges = []        # (src, dst, cmd, obs)
        self.init = None
        self.distinct = 0
        self.generated = 0
        self.wall = 0.0
        self.actions = collections.Counter()

    def node(self, key):
        n = self.raw.get(key)
        if n is None:
            text = norm_text(key)
            n = self.ids.get(text)
            if n is None:
                n = self.ids[text] = len(self.out)
                self.out.append([])
            self.raw[key] = n
        return n


def cfg_text(cfg):
    """cfg: dict(constants={}, invariants=[], properties=[], extra='')"""
    t = "INIT Init\nNEXT Next\n" if not cfg.get("spec") else f"SPECIFICATION {cfg['spec']}\n"
    t += "CHECK_DEADLOCK FALSE\n"
    if cfg.get("view", True):
        t += "VIEW View\n"
    if cfg.get("emit", True):
        t += "ACTION_CONSTRAINT Emit\n"
    for k, v in cfg.get("constants", {}).items():
        t += f"CONSTANT {k} = {v}\n"
    for i in cfg.get("invariants", []):
        t += f"INVARIANT {i}\n"
    for i in cfg.get("properties", []):
        t += f"PROPERTY {i}\n"
    for c in cfg.get("constraints", []):
        t += f"CONSTRAINT {c}\n"
    return t + cfg.get("extra", "")


def tlc(spec, cfg, timeout=600, workers=1, args=(), heap="4g", env=None):
    """runs TLC and yields its output lines; raises ModelError when TLC reports anything but success"""
    os.makedirs(os.path.join(B, "tlc"), exist_ok=True)
    wd = tempfile.mkdtemp(prefix=spec + ".", dir=os.path.join(B, "tlc"))
    try:
        cf = os.path.join(wd, "MC.cfg")
        open(cf, "w").write(cfg_text(cfg))
        cmd = ["java", "-Xmx" + heap, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-DTLA-Library=" + SPECS, "-cp", tlc_classpath(), "tlc2.TLC",
               "-noGenerateSpecTE", "-metadir", os.path.join(wd, "states"), "-workers", str(workers), "-config", cf, *args, os.path.join(SPECS, spec + ".tla")]
        p = subprocess.Popen(cmd, cwd=wd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, **(env or {})))
        killer = threading.Timer(timeout, p.kill)
        killer.start()
        tail = collections.deque(maxlen=60)
        try:
            for line in p.stdout:
                if not line.startswith('"{'):
                    tail.append(line.rstrip())
                yield line
            rc = p.wait()
        finally:
            killer.cancel()
            if p.poll() is None:
                p.kill()
                p.wait()
        if rc != 0:
            raise ModelError(f"TLC on {spec} ended with {rc}:\n" + "\n".join(tail))
    finally:
        subprocess.run(["rm", "-rf", wd])


STATS = re.compile(r"^(\d+) states generated, (\d+) distinct states found")


def explore(spec, cfg, timeout=600, heap="4g", workers=4):
    """exhaustive TLC run; every transition it takes becomes an edge of the returned graph"""
    t0 = time.time()
    g = Graph()
    seen = set()
    init = None
    for line in tlc(spec, cfg, timeout=timeout, heap=heap, workers=workers):
        if line.startswith('"{'):
            if init is None:
                init = json.loads(json.loads(line))["f"]
            seen.add(line)
        else:
            m = STATS.match(line)
            if m:
                g.generated, g.distinct = int(m.group(1)), int(m.group(2))
    if init is not None:
        g.init = g.node(init)
    for line in sorted(seen):          # independent of the order in which TLC's workers came by
        d = json.loads(json.loads(line))
        s, t = g.node(d["f"]), g.node(d["t"])
        cmd = d["a"]["cmd"]
        g.actions[cmd["op"]] += 1
        g.out[s].append(len(g.edges))
        g.edges.append((s, t, cmd, canon(d["a"]["obs"])))
    g.wall = time.time() - t0
    if not g.edges:
        raise ModelError(f"TLC explored no transition of {spec}")
    return g


def simulate(spec, cfg, num, depth, seed, timeout=600, heap="4g"):
    """random TLC behaviours; returns a list of paths of (cmd, obs).  TLC prints the alternatives of
    every step; the one taken is one that leads to where the next alternatives start."""
    paths, cur, block, at = [], [], [], None
    rng = random.Random(seed)

    def leave(to):
        nonlocal cur
        ways = [(c, o) for c, o, t in block if t == to]
        idle = [(c, o) for c, o, t in block if t == at]      # steps that lead back to the same state
        cur += rng.sample(idle, min(len(idle), 3))
        if ways:
            cur.append(rng.choice(ways))
        else:
            if block:
                cur.append(rng.choice(block)[:2])
            if cur:
                paths.append(cur)
            cur = []

    for line in tlc(spec, cfg, timeout=timeout, heap=heap, args=("-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed))):
        if line.startswith('"{'):
            d = json.loads(json.loads(line))
            f = norm_text(d["f"])
            if f != at:
                leave(f)
                block, at = [], f
            block.append((d["a"]["cmd"], canon(d["a"]["obs"]), norm_text(d["t"])))
    leave(None)
    return paths


# --------------------------------------------------------------------- paths
def edge_cover(g, rng, maxlen=80, limit=None):
    """paths from the initial state that together take every edge"""
    # reverse reachability is not needed: every state was reached from init
    todo = [list(o) for o in g.out]
    for o in todo:
        rng.shuffle(o)
    left = len(g.edges)
    done = bytearray(len(g.edges))
    parent = [None] * len(g.out)          # BFS tree from init
    order = [g.init]
    seen = bytearray(len(g.out))
    seen[g.init] = 1
    for n in order:
        for e in g.out[n]:
            d = g.edges[e][1]
            if not seen[d]:
                seen[d] = 1
                parent[d] = e
                order.append(d)
    pending = collections.deque(order)     # nodes in BFS order, may have uncovered edges

    def pop(n):
        t = todo[n]
        while t:
            e = t.pop()
            if not done[e]:
                return e
        return None

    def near(n, bound):
        """short path from n to a node with an uncovered edge"""
        q = collections.deque([(n, ())])
        vis = {n}
        steps = 0
        while q:
            m, p = q.popleft()
            while todo[m] and done[todo[m][-1]]:
                todo[m].pop()
            if todo[m]:
                return p
            if len(p) >= bound:
                continue
            for e in g.out[m]:
                d = g.edges[e][1]
                steps += 1
                if steps > 3000:
                    return None
                if d not in vis:
                    vis.add(d)
                    q.append((d, p + (e,)))
        return None

    paths = []
    while left and pending:
        n = pending[0]
        while todo[n] and done[todo[n][-1]]:
            todo[n].pop()
        if not todo[n]:
            pending.popleft()
            continue
        path = []
        m = n
        while parent[m] is not None:
            path.append(parent[m])
            m = g.edges[parent[m]][0]
        path.reverse()
        for e in path:
            if not done[e]:
                done[e] = 1
                left -= 1
        while len(path) < maxlen:
            e = pop(n)
            if e is None:
                p = near(n, 6)
                if p is None or len(path) + len(p) >= maxlen:
                    break
                for e in p:
                    path.append(e)
                    n = g.edges[e][1]
                continue
            done[e] = 1
            left -= 1
            path.append(e)
            n = g.edges[e][1]
        paths.append(path)
        if limit and len(paths) >= limit:
            break
    return [[(g.edges[e][2], g.edges[e][3]) for e in p] for p in paths]


def random_walks(g, rng, count, length, weight=None):
    paths = []
    for _ in range(count):
        n, p = g.init, []
        while len(p) < length and g.out[n]:
            e = rng.choice(g.out[n])
            if weight is not None:
                for _ in range(3):
                    if rng.random() < weight(g.edges[e][2]):
                        break
                    e = rng.choice(g.out[n])
            p.append((g.edges[e][2], g.edges[e][3]))
            n = g.edges[e][1]
        if p:
            paths.append(p)
    return paths


# -------------------------------------------------------------------- replay
class Failure:
    def __init__(self, path, step, expected, got, kind, detail=""):
        self.path, self.step, self.expected, self.got, self.kind, self.detail = path, step, expected, got, kind, detail
        self.fields = []

    def describe(self):
        cmds = [c for c, _ in self.path[:self.step + 1]]
        return {"kind": self.kind, "fields": self.fields, "commands": cmds, "expected": self.expected, "observed": self.got, "detail": self.detail[-4000:]}


def diff_fields(exp, got):
    if not isinstance(got, dict):
        return ["$all"]
    if "exception" in got and "exception" not in exp:
        return ["$exception"]
    return [k for k in exp if not covers(exp[k], got.get(k))]


def covers(exp, got):
    """every field the specification talks about has the expected value"""
    if isinstance(exp, dict):
        return isinstance(got, dict) and all(k in got and covers(v, got[k]) for k, v in exp.items())
    if isinstance(exp, list):
        return isinstance(got, list) and len(exp) == len(got) and all(covers(e, g) for e, g in zip(exp, got))
    return exp == got


def run_harness(binary, lines, env=None, timeout=300):
    e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=66:detect_stack_use_after_return=0:allocator_may_return_null=1:new_delete_type_mismatch=0", TZ="UTC")
    e.update(env or {})
    p = subprocess.Popen([binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e)
    try:
        out, err = p.communicate(("\n".join(lines) + "\n").encode(), timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        return out.decode("latin-1").splitlines(), "TIMEOUT", err.decode("latin-1")
    return out.decode("latin-1").splitlines(), p.returncode, err.decode("latin-1")


def replay_chunk(binary, paths, prefix, env, compare, failures, stats, max_failures):
    """prefix: list of commands sent before each path (after reset)"""
    i = 0
    while i < len(paths) and len(failures) < max_failures:
        lines, where = [], []
        for pi in range(i, len(paths)):
            lines.append('{"op":"reset"}')
            where.append((pi, -1))
            for c in prefix:
                lines.append(json.dumps(c))
                where.append((pi, -1))
            for si, (cmd, obs) in enumerate(paths[pi]):
                lines.append(json.dumps(cmd))
                where.append((pi, si))
        out, rc, err = run_harness(binary, lines, env)
        bad = set()
        known = {}
        if len(out) > len(lines):
            raise ModelError(f"harness {binary} gave {len(out)} answers to {len(lines)} commands")
        for k, line in enumerate(out):
            pi, si = where[k]
            if pi in bad:
                continue
            if si < 0:                      # preparing the path must work
                if line.startswith('{"exception"'):
                    bad.add(pi)
                    fl = Failure(paths[pi], 0, paths[pi][0][1], json.loads(line), "mismatch", "before the first step")
                    fl.fields = ["$exception"]
                    failures.append(fl)
                continue
            exp = paths[pi][si][1]
            stats["steps"] += 1
            if known.get(line) is exp:      # the same answer to the same expectation
                continue
            try:
                got = canon(json.loads(line))
            except ValueError:
                raise ModelError(f"harness {binary} answered {line!r}")
            f = compare(paths[pi][si][0], exp, got)
            if not f:
                known[line] = exp
            if f:
                bad.add(pi)
                fl = Failure(paths[pi], si, exp, got, "mismatch")
                fl.fields = f
                failures.append(fl)
        if rc == 4:
            raise ModelError(f"harness {binary}: {err[-2000:]}")
        if rc == 0 and len(out) == len(lines):
            stats["paths"] += len(paths) - i
            return
        # died at command len(out)
        k = len(out)
        if k >= len(lines):
            # died after the last answer (e.g. in teardown)
            k = len(lines) - 1
        pi, si = where[k]
        if si < 0:
            pi0 = pi if where[k][1] >= 0 else max(pi - 1, i)   # reset after path pi-1 tears that one down
            fl = Failure(paths[pi0], len(paths[pi0]) - 1, {}, {}, "crash", err)
            fl.fields = ["$crash"]
            fl.rc = rc
            if pi0 not in bad:
                failures.append(fl)
            stats["paths"] += pi - i
            i = pi if pi > i else pi + 1
        else:
            fl = Failure(paths[pi], si, paths[pi][si][1], {}, "crash" if rc not in (-14, "TIMEOUT") else "hang", err)
            fl.fields = ["$crash"]
            fl.rc = rc
            if pi not in bad:
                failures.append(fl)
            stats["paths"] += pi - i
            i = pi + 1


def replay(binary, paths, prefix=(), env=None, compare=None, max_failures=20, procs=None):
    """returns (failures, stats); the work is spread over forked processes"""
    if compare is None:
        compare = lambda cmd, exp, got: diff_fields(exp, got)
    procs = min(procs or NCPU, max(1, len(paths)))
    failures, stats, errors = [], {"steps": 0, "paths": 0}, []
    kids = []
    for n in range(procs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                for _, fd in kids:
                    os.close(fd)
                fs, st, err = [], {"steps": 0, "paths": 0}, None
                mine = list(range(n, len(paths), procs))
                try:
                    replay_chunk(binary, [paths[k] for k in mine], list(prefix), env, compare, fs, st, max_failures)
                except ModelError as e:
                    err = str(e)
                except BaseException as e:
                    err = "internal: " + repr(e)
                where = {id(paths[k]): k for k in mine}
                out = pickle.dumps(([(where[id(f.path)], f.step, f.got, f.kind, f.detail, f.fields) for f in fs], st, err))
                with os.fdopen(w, "wb") as o:
                    o.write(out)
            finally:
                os._exit(0)
        os.close(w)
        kids.append((pid, r))
    for pid, r in kids:
        with os.fdopen(r, "rb") as i:
            data = i.read()
        os.waitpid(pid, 0)
        if not data:
            errors.append("a replay process ended without a result")
            continue
        fs, st, err = pickle.loads(data)
        if err:
            errors.append(err)
        for k, step, got, kind, detail, fields in fs:
            exp = paths[k][step][1] if 0 <= step < len(paths[k]) else {}
            f = Failure(paths[k], step, exp, got, kind, detail)
            f.fields = fields
            failures.append(f)
        for k in st:
            stats[k] += st[k]
    if errors:
        raise ModelError(errors[0])
    return failures, stats


def minimise(binary, failure, prefix, env, compare, budget=60):
    """drops nothing but the tail: the path up to the failing step, confirmed by a second run"""
    path = failure.path[:failure.step + 1]
    fs, _ = replay(binary, [path], prefix, env, compare, procs=1)
    return fs[0] if fs else None
