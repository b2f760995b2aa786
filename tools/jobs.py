"""Which specification, configuration and harness decide which property."""
import json, os
import mbt

JOBS = {}
KNOWN = {}
ASSUMPTIONS = {"*": ["TLC explores the configured constants exhaustively; larger constants are sampled by random walks",
                     "the harness observes the library through its public API and a scripted channel",
                     "single-threaded use, as the library requires"]}


NOTES = {"*": "TLC checks the specification exhaustively within the configured constants; every transition it explores is executed at least once "
              "on the real code (built from the working tree with AddressSanitizer) and every observable is compared after every step. "
              "Trusts the harness and that the constants cover the behaviour; larger histories are sampled."}
NOT_APPLICABLE = {}


class Job:
    def __init__(self, name, spec, harness, constants=None, thorough=None, invariants=(), properties=(), constraints=(),
                 mine=None, bindings=None, walks=((0, 0), (2000, 60)), maxlen=80, thorough_only=False, compare=None,
                 simulate=None, runner=None, transform=None, timeout=600, heap="6g"):
        self.name, self.spec, self.harness = name, spec, harness
        self.constants = constants or {}
        self.thorough = thorough or {}
        self.invariants, self.properties, self.constraints = invariants, properties, constraints
        self.mine = mine or (lambda prop, f: True)
        self.bindings = bindings if callable(bindings) else (lambda ctx: bindings or [{}])
        self.walks = walks
        self.maxlen = maxlen
        self.thorough_only = thorough_only
        self.compare = compare
        self.simulate = simulate
        self.runner = runner
        self.transform = transform
        self.timeout = timeout
        self.heap = heap

    def cfg(self, ctx):
        c = dict(self.constants)
        if ctx.thorough:
            c.update(self.thorough)
        return dict(constants=c, invariants=list(self.invariants), properties=list(self.properties), constraints=list(self.constraints))

    def model(self, ctx):
        if self.spec is None:
            return None
        if self.simulate:
            num, depth = self.simulate[1 if ctx.thorough else 0]
            return mbt.simulate(self.spec, self.cfg(ctx), num, depth, ctx.seed, timeout=self.timeout, heap=self.heap)
        return mbt.explore(self.spec, self.cfg(ctx), timeout=self.timeout, heap=self.heap)


def add(prop, *jobs):
    JOBS.setdefault(prop, []).extend(jobs)


def check_known(k, binary, path):
    """runs the scenario of a recorded finding; returns its line while it still fails as recorded"""
    text = open(path).read() if os.path.exists(path) else ""
    if k["id"] not in text:
        return None
    fs, _ = mbt.replay(binary, [k["path"]], k.get("prefix", ()), k.get("env"), procs=1)
    return f"KNOWN-FINDING: property={k['property']} {k['id']}: {k['what']}" if fs else None


# ---------------------------------------------------------------- Connection
CONN_INV = ["TypeOK", "ConnectedMeansAccepted", "ConnectedMeansPreloaded", "GuestKnowsHost", "ClosedOnce"]
CONN_PROP = ["ForwardOnly", "ServedOnlyWhenAdmitted", "SilentWhenClosed", "GraceNeverAnswered", "SenderNeverForged"]


def conn(name, roles, app="few", mine=None, walks=((500, 25), (20000, 40)), hm='{"ok", "throw", "stop"}', tm='{"ok", "early_subscribe", "connected"}'):
    return Job(name, "Connection", "connection", dict(
        Roles=roles, HostAuth='{"none", "open", "challenge"}', GuestAuth='{"nosecret", "secret"}',
        AppMsgs=f'"{app}"', HModes=hm, TModes=tm), dict(AppMsgs='"all"'), CONN_INV, CONN_PROP, mine=mine, walks=walks)


def closing(prop, f):
    cmd = f.path[f.step][0]
    return f.kind != "mismatch" or cmd["op"] in ("Destroy", "LocalError", "ChannelError") or \
        (cmd["op"] == "Rx" and (cmd["m"]["t"] == "DotsMsgError" or any(t["s"] == "closed" for t in f.expected.get("trans", []))))


add("C06", conn("conn-host", '{"host"}'))
add("C07", conn("conn-guest", '{"guest"}'))
add("C13", conn("conn-stamp", '{"host", "guest"}', "all", lambda p, f: "rx" in f.fields or f.kind != "mismatch", hm='{"ok"}', tm='{"ok"}'))
add("C27", conn("conn-close", '{"host", "guest"}', mine=closing))


# --------------------------------------------------------------------- Cache
CACHE_INV = ["TypeOK", "FoldIsCache"]
CACHE_PROP = ["CreatorKept", "FreshStart", "UnnamedKept", "OneEvent", "CountDown"]


def fams(*names, thorough=(), **extra):
    """bindings of the abstract shape to type families; 'Mix!' is the dynamic variant, 'Int+' the typed one"""
    def b(ctx, **more):
        ns = list(names) + (list(thorough) if ctx.thorough else [])
        return [{"prefix": [dict(op="Bind", family=n.rstrip("!+"), dyn=n.endswith("!"), typed=n.endswith("+"), **extra, **more)], "family": n} for n in ns]
    return b


def tlaset(s):
    return json.loads("[" + s.strip()[1:-1] + "]")


def cache(name, keys="{1, 2}", p="{0, 1, 2}", q="{0, 1, 2}", stamps="{1}", incs="all", types='{"C"}', handlers='{"e1"}', drop="{}", mine=None, bindings=None, thorough=None, walks=((300, 60), (4000, 100)), thorough_only=False, **kw):
    return Job(name, "Cache", "cache", dict(Keys=keys, PVals=p, QVals=q, Stamps=stamps, Incs=f'"{incs}"', Types=types, Handlers=handlers, DropSet=drop, Sample="TRUE" if "simulate" in kw else "FALSE"),
               thorough or {}, CACHE_INV, CACHE_PROP, mine=mine, walks=walks, thorough_only=thorough_only, **kw, bindings=lambda ctx: bindings(ctx, types=[t for t in tlaset(types) if t != "U"], handlers=tlaset(handlers)))


def facet(*fields, also=None):
    """a divergence belongs to the property if one of these observations differs (crashes always do)"""
    return lambda prop, f: f.kind != "mismatch" or any(x in f.fields for x in fields) or "$exception" in f.fields or (also is not None and also(f))


EVS = lambda p, f: f.kind != "mismatch" or "exc" in f.fields or ("ev" in f.fields and f.path[f.step][0]["op"] != "Sub")
MERGED = facet("cache", "size", "found", "exc")
add("C01",
    cache("merge", keys="{1}", bindings=fams("Int+", "Mix", "Str", "Int!", "Mix!", "Str!"), mine=MERGED, thorough=dict(Keys="{1, 2}")),
    cache("keys", keys="{1, 2, 3}", p="{0, 1}", q="{0}", incs="few", handlers="{}", bindings=fams("Mix", "Str", "Int!"), mine=MERGED, thorough=dict(Keys="{1, 2, 3, 4}")),
    cache("two", keys="{1, 2}", p="{0, 1}", q="{0}", incs="few", handlers="{}", types='{"C", "D"}', bindings=fams("Str"), mine=MERGED,
          walks=((300, 60), (1000, 60)), thorough_only=True))
add("C02", cache("clones", keys="{1, 2}", p="{0, 1}", q="{0}", stamps="{0, 1, 2}", incs="full", thorough=dict(Stamps="{0, 1, 2, 3}"), bindings=fams("Int+", thorough=("Str", "Int!", "Mix")),
                 mine=lambda p, f: f.kind != "mismatch" or "clone" in f.fields or "ev" in f.fields),
    cache("clones1", keys="{2}", p="{0, 1, 2}", q="{0}", stamps="{0, 1, 2, 3}", incs="few", types='{"C", "U"}', handlers='{"e1", "u1"}', bindings=fams("Mix!", "Str"),
                 mine=lambda p, f: f.kind != "mismatch" or "clone" in f.fields or "ev" in f.fields))
add("C03",
    cache("events", keys="{1, 2}", p="{0, 1}", q="{0}", incs="full", types='{"C", "D"}', handlers='{"e1", "t1", "d1"}', drop='{"e1", "t1"}', bindings=fams("Int+"), mine=EVS, walks=((500, 80), (4000, 150))),
    cache("uncached", keys="{1, 2}", p="{0, 1, 2}", q="{0, 1}", incs="all", types='{"U"}', handlers='{"u1", "tu"}', drop='{"u1", "tu"}', bindings=fams("Int", "Mix!", "Str"), mine=EVS),
    cache("fold", keys="{1}", incs="all", handlers='{"e1", "e2", "t1"}', drop='{"e1", "t1"}', bindings=fams("Mix", "Str!", "Int+"), mine=EVS))
add("C04",
    cache("replay", keys="{1, 2}", p="{0, 1}", q="{0}", incs="full", types='{"C"}', handlers='{"e1", "e2", "t1"}', drop='{"e1", "e2", "t1"}', bindings=fams("Int+", "Mix!"), mine=facet("ev"), thorough=dict(PVals="{0, 1, 2}", Incs='"few"')),
    cache("replay3", keys="{1, 2, 3}", p="{0, 1}", q="{0}", incs="few", types='{"C", "U"}', handlers='{"e1", "u1"}', drop='{"e1"}', bindings=fams("Str", thorough=("Mix", "Int!")), mine=facet("ev")))


def big(mine, **kw):
    """larger histories, sampled"""
    return cache("big", **{**dict(keys="{1, 2, 3, 4, 5, 6}", p="{0, 1}", q="{0, 1}", stamps="{0, 1}", incs="few", types='{"C", "U"}', handlers='{"e1", "e2", "u1"}', drop='{"e1", "e2"}',
                                  bindings=fams("Int+", "Mix", "Str!"), mine=mine, simulate=((150, 80), (4000, 120))), **kw})


add("C01", big(MERGED))
add("C02", big(lambda p, f: f.kind != "mismatch" or "clone" in f.fields or "ev" in f.fields))
add("C03", big(EVS))
add("C04", big(facet("ev")))


# ------------------------------------------------------------------ Dispatch
def dispatch(name, slots, keys, depth, types, bindings=None, thorough=None, walks=((500, 60), (10000, 120)), **kw):
    return Job(name, "Dispatch", "dispatch", dict(Slots=slots, Keys=keys, MaxDepth=depth, Types=types), thorough, ["TypeOK", "TodoRegistered", "TodoOnce"],
               ["CalledWhileRegistered", "RawFirst"], walks=walks, bindings=bindings or fams("Int"), **kw)


add("C04", dispatch("nested-replay", '{"e1", "e2", "u1"}', "{1, 2}", 2, '{"C", "U"}', mine=facet("at", "exc")))
add("C03", dispatch("throwing", '{"e1", "e2", "r1"}', "{1}", 2, '{"C"}', bindings=fams("Int", "Mix!"), mine=facet("at", "errs", "present")))
add("C05",
    dispatch("nest", '{"e1", "e2", "e3"}', "{1}", 2, '{"C"}', bindings=fams("Int", "Mix!")),
    dispatch("types", '{"e1", "u1", "u2"}', "{1}", 2, '{"C", "U"}'),
    dispatch("raw", '{"e1", "r1", "r2"}', "{1}", 2, '{"C"}'),
    dispatch("deep", '{"u1", "u2", "v1"}', "{1}", 3, '{"U"}', thorough=dict(MaxDepth=4)),
    dispatch("replay", '{"e1", "e2"}', "{1, 2}", 2, '{"C"}', thorough=dict(MaxDepth=3)))


# -------------------------------------------------------------------- Broker
BROKER_INV = ["TypeOK", "NoOrphans"]
BROKER_PROP = ["OnlyMembers", "NoService", "NoEffect", "OnlyTheFaulty", "ClosedOnce", "Stamped", "ClearedExactly", "RefusedWithoutEffect"]


def broker(name, ops, guests="{1, 2}", types='{"C"}', keys="{1}", p="{0, 1}", q="{0}", incs="full", sents="{0}", bads='{"nokey"}', names=None, members='{"join", "leave"}',
           clears='{{"C"}}', started=True, auth="none", reconnect=False, reactor="none", bindings=None, thrower=False, bare=False, thorough=None, mine=None, walks=((400, 40), (6000, 80)), **kw):
    names = names or types
    c = dict(Guests=guests, Types=types, Keys=keys, PVals=p, QVals=q, Incs=f'"{incs}"', Sents=sents, Ops="{" + ", ".join(f'"{o}"' for o in ops.split()) + "}", Bads=bads, Names=names,
             MemberEvents=members, Clears=clears, Started="TRUE" if started else "FALSE", Auth=f'"{auth}"', Reconnect="TRUE" if reconnect else "FALSE", Reactor=f'"{reactor}"', Sample="TRUE" if "simulate" in kw else "FALSE")
    b = bindings or fams("Int")

    def bind(ctx):
        g = (thorough or {}).get("Guests", guests) if ctx.thorough else guests
        bs = b(ctx, guests=len(tlaset(g)), types=tlaset(types), started=started, auth=auth, reactor=reactor, thrower=thrower, bare=bare)
        for x in bs: # what a name no type has looks like
            o = x["prefix"][0]
            o["alien"] = "NoSuchType" if o["dyn"] else "VtInt" if o["family"] == "Int" else "Vt" + o["family"] + "CC"
        return bs
    if bare:
        kw["compare"] = lambda cmd, exp, got: [f for f in mbt.diff_fields(exp, got) if f not in ("ev", "evS", "nev")]
    return Job(name, "Broker", "broker", c, thorough or {}, BROKER_INV, BROKER_PROP, mine=mine, bindings=bind, walks=walks, **kw)


TX = facet("tx", "txu", "armed", "exc", "heldS", "rep")
add("C10",
    broker("fanout", "member pub rm host hostrm", types='{"C", "U"}', p="{1}", bindings=fams("Int", thorough=("Mix!",)), mine=TX, thorough=dict(PVals="{0, 1}")),
    broker("partial", "member pub rm host", incs="all", q="{0, 1}", names='{"C"}', guests="{1, 2}", sents="{0}", bindings=fams("Str", thorough=("Int!", "Mix")), mine=TX),
    broker("three", "member pub", guests="{1, 2, 3}", types='{"C"}', p="{1}", names='{"C", "X"}', mine=TX, thorough=dict(Guests="{1, 2, 3, 4}")))
add("C10", broker("preloading", "accept connect member pub host", p="{1}", started=False, names='{"C"}', guests="{1, 2}", mine=TX))
add("C11",
    broker("snapshot", "member pub rm host", keys="{1, 2}", p="{1}", incs="full", names='{"C"}', sents="{0, 1}", bindings=fams("Str", thorough=("Mix!", "Int")), mine=TX, thorough=dict(Keys="{1, 2, 3}")),
    broker("kinds", "member pub hostrm", types='{"C", "U"}', keys="{1}", p="{0, 1, 2}", names='{"C", "U", "X", "I"}', members='{"join", "leave"}', guests="{1}", incs="few", bindings=fams("Mix!"), mine=TX),
    broker("early", "accept connect member pub host", p="{1}", started=False, names='{"C"}', guests="{1, 2}", mine=TX),
    broker("relay", "member pub rm host", types='{"C", "D", "U"}', keys="{1}", p="{1}", names='{"C", "D", "U", "X"}', members='{"join", "leave"}', guests="{1}", bindings=fams("Str", "Int!"), bare=True, mine=TX))
add("C13", broker("origin", "member pub rm host", types='{"C", "U"}', keys="{1}", p="{1}", sents="{0, 1, 2}", guests="{1, 2}", names='{"C"}', bindings=fams("Int"),
                  mine=facet("tx", "ev", "cache")),
    broker("ids", "accept connect pub bad", guests="{1, 2}", p="{1}", started=False, reconnect=True, bindings=fams("Int"), mine=facet("tx", "ev", "cache", "auth")))
add("C14",
    broker("cleanup", "member pub rm peer chfail bad", types='{"C", "D"}', keys="{1}", p="{1}", names='{"D"}', members='{"join"}', reconnect=False, bindings=fams("Int", "Mix!")),
    broker("cleanup2", "pub member break host", types='{"D"}', keys="{1, 2}", p="{1}", members='{"join"}', guests="{1, 2}", thorough=dict(Guests="{1, 2, 3}"), bindings=fams("Str")),
    broker("react", "pub chfail break", types='{"D"}', keys="{1, 2, 3}", p="{1}", members='{"join"}', guests="{1, 2}", reactor="remove", bindings=fams("Int")),
    broker("touched", "pub chfail break", types='{"D"}', keys="{1, 2, 3}", p="{1}", members='{"join"}', guests="{1, 2}", reactor="touch", bindings=fams("Int")),
    broker("again", "pub rm chfail", types='{"D"}', keys="{1, 2}", p="{1}", members='{"join"}', guests="{1, 2}", reactor="again", bindings=fams("Str")),
    broker("back", "accept connect pub chfail", types='{"D"}', keys="{1}", p="{1}", guests="{1, 2}", started=False, reconnect=True, bindings=fams("Int")))
add("C15",
    broker("faults", "member pub break bad chfail peer", types='{"C"}', p="{1}", names='{"C"}', members='{"join"}', bads='{"nokey", "hello", "response", "clearempty", "memberempty", "nokeyrm"}', thrower=True, bindings=fams("Int")),
    broker("cascade", "member pub break hostrm", types='{"D"}', guests="{1, 2, 3}", keys="{1}", p="{1}", names='{"D"}', members='{"join"}', bindings=fams("Int"), thorough=dict(Keys="{1, 2}")),
    broker("listen", "accept acceptbroken connect bad break", guests="{1, 2}", p="{1}", started=False, reconnect=True, bindings=fams("Int")),
    broker("answers", "member break echo clear rm", types='{"C", "U"}', p="{1}", names='{"C", "I"}', members='{"join", "leave", "kill", "none"}', clears='{{"C"}, {}}', bindings=fams("Int")))
add("C16",
    broker("clear", "member pub clear", types='{"C", "D"}', keys="{1, 2}", p="{1}", names='{"C", "I"}', members='{"join"}', guests="{1}", clears='{{}, {"C"}, {"D"}, {"C", "D"}, {"U"}, {"X"}, {"X", "C"}}', bindings=fams("Int", "Str", thorough=("Mix!",))),
    broker("clearbare", "pub clear rm", types='{"C", "D"}', keys="{1, 2}", p="{1}", guests="{1}", clears='{{}, {"C"}, {"C", "D"}, {"X"}}', bindings=fams("Mix!"), bare=True),
    broker("clear2", "member pub clear break", types='{"D"}', keys="{1, 2}", p="{1}", names='{"D", "I"}', members='{"join"}', guests="{1, 2}", clears='{{"D"}}', bindings=fams("Mix!")),
    broker("clearreact", "pub clear", types='{"D"}', keys="{1, 2, 3, 4}", p="{1}", guests="{1}", clears='{{"D"}}', reactor="remove", bindings=fams("Int")),
    broker("cleartouch", "pub rm clear", types='{"C", "D"}', keys="{1, 2, 3}", p="{1}", guests="{1}", clears='{{"D"}, {"C", "D"}}', reactor="touch", bindings=fams("Int")))
add("C09",
    broker("refused", "accept connect member pub bad", guests="{1, 2}", p="{1}", started=False, auth="stub", names='{"C"}', members='{"join"}', bindings=fams("Int"), mine=facet("tx", "ev", "cache", "auth", "heldS", "rep", "armed")),
    broker("again", "accept connect echo clear rm", guests="{1}", p="{1}", started=False, auth="stub", reconnect=True, bindings=fams("Int")))
BIG = dict(guests="{1, 2, 3, 4}", keys="{1, 2, 3, 4}", p="{0, 1}", simulate=((150, 80), (4000, 120)), bindings=fams("Int", "Str", thorough=("Mix!",)))
add("C10", broker("fail", "member pub break hostrm", types='{"C"}', guests="{1, 2, 3}", p="{1}", names='{"C"}', members='{"join"}', mine=TX),
    broker("big", "member pub rm host hostrm break", types='{"C", "U"}', mine=TX, **BIG))
add("C11", broker("big", "member pub rm host", types='{"C", "D"}', names='{"C", "D", "I"}', mine=TX, **BIG))
add("C14", broker("kinds", "pub chfail peer host", types='{"C", "D", "E"}', keys="{1}", p="{1}", members='{"join"}', guests="{1, 2}", bindings=fams("Mix!", "Int")),
    broker("big", "accept connect member pub rm chfail bad", reconnect=True, types='{"C", "D", "E"}', names='{"D"}', **BIG))
add("C15", broker("big", "accept connect member pub break bad chfail peer", reconnect=True, types='{"C"}', names='{"C"}', members='{"join"}', bads='{"nokey", "clearempty", "memberempty"}', **BIG))
add("C16", broker("big", "member pub clear rm", types='{"C", "D"}', names='{"D"}', clears='{{}, {"C"}, {"D"}, {"C", "D"}}', **BIG))
add("C18", broker("echo", "accept connect echo member", guests="{1, 2}", started=False, names='{"C", "I"}', members='{"join"}', bindings=fams("Int")))
add("C19", broker("host-invalid", "member pub rm host hostrm hostbad", types='{"C", "U"}', keys="{1}", p="{0, 1}", incs="all", q="{0, 1}", guests="{1}", names='{"C", "U"}', bindings=fams("Int", thorough=("Mix!", "Str"))))
add("C27", broker("shutdown", "accept connect member pub break down", types='{"D"}', guests="{1, 2}", p="{1}", started=False, names='{"D"}', members='{"join"}', bindings=fams("Int"),
                  mine=lambda p, f: f.kind != "mismatch" or f.path[f.step][0]["op"] == "Shutdown"))


# --------------------------------------------------------------------- Guest
def guest(name, ops, types='{"C"}', keys="{1}", p="{1}", q="{0}", incs="full", slots='{"eC"}', preloads='{"none"}', senders="{5}", bads='{"nokey"}', bindings=None, thorough=None, mine=None, walks=((400, 40), (6000, 80)), **kw):
    c = dict(Types=types, Keys=keys, PVals=p, QVals=q, Incs=f'"{incs}"', Slots=slots, Ops="{" + ", ".join(f'"{o}"' for o in ops.split()) + "}", Preloads=preloads, Senders=senders, Bads=bads)
    b = bindings or fams("Int")
    return Job(name, "Guest", "guest", c, thorough or {}, ["TypeOK", "SubscribedIsJoined"],
               ["RefusedWithoutEffect", "ServiceOnlyWhenOpen", "DescribedFirst", "DescribedOnce", "ClosedOnce", "GraceUnanswered"],
               mine=mine, bindings=lambda ctx: b(ctx, types=tlaset(types), slots=tlaset(slots)), walks=walks, **kw)


GUEST_TX = facet("tx", "exc")
add("C19", guest("guest-invalid", "open pub pubrm pubbad sub peer", types='{"C", "U"}', incs="all", p="{0, 1}", q="{0, 1}", slots='{"eC", "eU"}', bindings=fams("Int", thorough=("Mix!", "Str")), mine=GUEST_TX))
add("C22",
    guest("reopen", "open sub peer chfail break update", types='{"C", "U"}', slots='{"eC", "fC", "eU"}', preloads='{"none", "sub"}'),
    guest("repreload", "open refuse sub peer break pub", types='{"C", "D", "U"}', slots='{"eC"}', preloads='{"none", "sub", "pub", "both"}', bindings=fams("Mix!")),
    guest("resnapshot", "open sub peer snapshot remove", types='{"C", "D"}', keys="{1, 2}", slots='{"eC", "rD"}', preloads='{"none"}', bindings=fams("Str"), thorough=dict(PVals="{1, 2}")))
add("C13", guest("guest-origin", "open sub update remove snapshot", types='{"C", "U"}', slots='{"eC", "rC", "eU", "rU"}', senders="{0, 5, 7}", bindings=fams("Int", thorough=("Mix!",)), mine=facet("ev", "cache")))
add("C27", guest("guest-close", "open refuse sub pub peer chfail break bad down", slots='{"eC"}', preloads='{"none", "sub", "both"}', bads='{"nokey", "connect", "emptyhello", "emptyresponse"}'))
add("C17", guest("guest-describes", "open peer pub pubrm sub", types='{"C", "D", "U"}', slots='{"eC"}', preloads='{"none", "sub", "pub", "both"}', bindings=fams("Int", "Mix!", thorough=("Str", "Mix", "Str!")), mine=GUEST_TX))


# ---------------------------------------------------------------------- Auth
def auth(name, rules, addrs='{"a"}', names='{"alice"}', secrets="{0, 1}", schemes='{"tcp"}', responses='{"none", "s1"}', policies='{"-", "T", "F", "N"}', thorough=None, walks=((300, 40), (4000, 80)), **kw):
    return Job(name, "Auth", "auth", dict(Rules=f'"{rules}"', Addrs=addrs, Names=names, Secrets=secrets, Schemes=schemes, Responses=responses, Policies=policies),
               thorough or {}, ["TypeOK"], ["DefaultDecides", "SecretsGuard", "LocalSocketsPass"], walks=walks, bindings=[{"prefix": [dict(op="Bind")], "family": "host"}], **kw)


FORGED = '{"none", "s1", "s2", "wrong", "stale", "stolen", "swapped", "short", "bare"}'
add("C09", auth("overlong", "two", responses='{"s1", "long", "nocnonce", "bare"}', policies='{"F"}', schemes='{"tcp"}'))
add("C08",
    auth("order", "order", addrs='{"a", "b", "d"}', names='{"alice", "bob"}'),
    auth("names", "names", names='{"alice", "bob", ""}', responses='{"s1", "none"}'),
    auth("ties", "ties", addrs='{"a", "c"}', names='{"alice", "bob"}', policies='{"-"}'),
    auth("forged", "two", names='{"alice"}', secrets="{0, 1, 2}", responses=FORGED, policies='{"F"}', schemes='{"tcp"}'),
    auth("schemes", "names", names='{"alice"}', secrets="{1}", schemes='{"tcp", "ws", "uds", "local"}'),
    auth("nets4", "nets4", addrs='{"a", "b", "c", "d", "e", "g"}', secrets="{0}", responses='{"none"}', policies='{"-"}'),
    auth("nets6", "nets6", addrs='{"a", "e", "f"}', secrets="{0}", responses='{"none"}', policies='{"-"}'))


# ---------------------------------------------------------------------- Wire
def unfold(h):
    """(hh*n) repeats hh n times"""
    o, i = [], 0
    while i < len(h):
        if h[i] == "(":
            j = h.index(")", i)
            unit, n = h[i + 1:j].split("*")
            o.append(unit * int(n))
            i = j + 1
        else:
            j = h.find("(", i)
            j = len(h) if j < 0 else j
            o.append(h[i:j])
            i = j
    return "".join(o)


def wire_compare(cmd, exp, got):
    if isinstance(exp, dict) and "hex" in exp:
        exp = dict(exp, hex=unfold(exp["hex"]))
    return mbt.diff_fields(exp, got)


ALLP = "b i8 u8 i16 u16 i32 u32 i64 u64 f32 f64 ps tp st du id s e sub vb vi vs vsub ve vf n"
UNKNOWN = "null int neg bool simple half float str str24 str300 str70000 strwide bytes bytes24 arr arr0 arr24 arr300 deep map map0 map24 mapstr tagged tagged2"
DEEP = " verydeep verydeepmap tags"


def strset(s):
    return "{" + ", ".join(f'"{x}"' for x in s.split()) + "}"


def wire(name, props, maxset, depth, ops, versions="new dyn", unknowns=UNKNOWN, thorough=None, walks=((0, 0), (300, 60)), fmt="map", **kw):
    return Job(name, "Wire", "wire", dict(Fmt=f'"{fmt}"', Props=strset(props), MaxSet=maxset, Depth=f'"{depth}"', Ops=strset(ops), Versions=strset(versions), Unknowns=strset(unknowns)),
               thorough or {}, ["TypeOK"], ["ExactlyIncluded", "OldKeepsRest"], walks=walks, compare=wire_compare, bindings=[{"prefix": [dict(op="Bind", fmt=fmt)], "family": "static"}], **kw)


add("C21",
    wire("values", ALLP, 1, "all", "encode transfer only wide", "new dyn old"),
    wire("kinds", ALLP, 1, "few", "alt wrong"),
    wire("subsets", "u8 s e sub n", 3, "few", "encode transfer only order", "new dyn old", thorough=dict(MaxSet="4")),
    wire("unknown", "u8 s vsub n", 2, "few", "unknown", "new dyn old", thorough=dict(Props=strset("i16 u8 s vsub n"))),
    wire("deep", "u8", 1, "few", "unknown", "new dyn old", unknowns=DEEP),
    wire("cut", ALLP, 1, "all", "cut", "new dyn old"),
    wire("compact", ALLP, 1, "all", "encode transfer alt wrong cut", "new dyn", unknowns="", fmt="compact"),
    wire("compactset", "u8 s e sub n", 3, "few", "encode transfer", "new dyn", unknowns="", fmt="compact", thorough=dict(MaxSet="4")))


# ---------------------------------------------------------- PropSet, SysTime
add("C38",
    Job("sets", "PropSet", "propset", dict(Places="{0, 1, 2, 7, 15, 30, 31}", Rich="FALSE"), dict(Places="{0, 1, 2, 7, 8, 15, 16, 30, 31}", Rich="TRUE"), ["TypeOK"], ["Gone", "Twice"],
        bindings=[{"prefix": [dict(op="Bind")], "family": "sets"}]))
add("C39",
    *[Job(n, "SysTime", "systime", dict(Ops=strset(n)), {}, ["TypeOK"], ["ZoneStays", "SameMoment"], bindings=[{"prefix": [dict(op="Bind")], "family": "time"}]) for n in ("parts", "calendar")])


# ------------------------------------------------------------------------ Log
add("C40",
    Job("levels", "Log", "log", dict(Backends='{"A", "B"}'), {}, ["TypeOK"], ["OnlyFromLevel", "RefusedKeeps"], bindings=[{"prefix": [dict(op="Bind", b="A")], "family": "log"}]))


# ----------------------------------------------------------------------- Text
def text_close(a, b):
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        return a == b or abs(a - b) <= 1e-6 * max(abs(a), abs(b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(text_close(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(text_close(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def text_unique(pairs):
    if len({k for k, _ in pairs}) != len(pairs):
        raise ValueError("member written twice")
    return dict(pairs)


def text_compare(cmd, exp, got):
    """Written JSON has to be JSON with the expected members, however it is laid out."""
    if isinstance(exp, dict) and exp.get("dom", "-") != "-" and isinstance(got, dict) and isinstance(got.get("dom"), str):
        exp, got = dict(exp), dict(got)
        want, raw = exp.pop("dom"), got["dom"]
        try:
            have = json.loads(bytes.fromhex(raw).decode("utf-8"), object_pairs_hook=text_unique)
        except ValueError as e:
            return [f"text: {e}"]
        if not text_close(json.loads(want), have):
            return [f"text: expected {want}, got {bytes.fromhex(raw).decode('utf-8')}"]
    return mbt.diff_fields(exp, got)


TEXTITEMS = "null true int neg str empty tricky uni arr0 obj0 arr obj objs deeparr deepobj"


def text(name, props, maxset, depth, ops, formats="json rapid string", styles="Minified SingleLine MultiLine", versions="new dyn", unknowns=TEXTITEMS, thorough=None, walks=((0, 0), (300, 60)), **kw):
    return Job(name, "Text", "text", dict(Props=strset(props), MaxSet=maxset, Depth=f'"{depth}"', Ops=strset(ops), Formats=strset(formats), Styles=strset(styles), Versions=strset(versions), Unknowns=strset(unknowns)),
               thorough or {}, ["TypeOK"], ["ExactlyIncluded"], walks=walks, compare=text_compare, bindings=[{"prefix": [dict(op="Bind")], "family": "static"}], **kw)


add("C31",
    text("values", ALLP, 1, "all", "write scalar", versions="new dyn old"),
    text("read", ALLP, 1, "all", "space only", versions="new dyn old"),
    text("kinds", ALLP, 1, "few", "alt wrong twice"),
    text("subsets", "u8 s e sub n", 3, "few", "write only order", styles="Minified MultiLine", thorough=dict(MaxSet="4")),
    text("unknown", "u8 s vsub n", 2, "few", "unknown", versions="new dyn old"),
    text("cut", ALLP, 1, "all", "cut", versions="new dyn old"))


# --------------------------------------------------------------------- Struct
def struct(name, ops, p="{1}", k="{1}", x="{1}", z="{1}", v="{}", sets="some", thorough=None, walks=((200, 40), (4000, 80)), **kw):
    return Job(name, "StructOps", "struct", dict(PVals=p, KVals=k, XVals=x, ZVals=z, VVals=v, Ops=strset(ops), Sets=f'"{sets}"'), thorough or {},
               ["TypeOK", "DiffIffDifferent", "Antisymmetric", "CopyMakesEqual", "MergeKeeps", "MergeTwice"], walks=walks, bindings=[{"prefix": [dict(op="Bind")], "family": "all variants"}], **kw)


add("C24",
    struct("binary", "assign copy merge swap clear drop", z="{1}", thorough=dict(Sets='"all"')),
    struct("moves", "moveassign make drop", p="{1}", x="{}", v="{3}", thorough=dict(Sets='"all"')),
    struct("sets", "sets single", p="{}", k="{}", x="{}", z="{}"),
    struct("self", "self clear single", p="{1}", v="{3}", sets="all"),
    struct("order", "compare", p="{1, 2}", k="{1, 2}", x="{}", z="{}", v="{2, 4}", thorough=dict(PVals="{1, 2, 3}", VVals="{1, 2, 3, 4}")),
    struct("nested", "compare merge", p="{}", k="{1}", x="{1, 2}", z="{1, 2}", sets="some"),
    struct("access", "look", x="{1}", z="{}", v="{2}", sets="all"),
    struct("paths", "path single drop", p="{1, 2}", k="{1, 2}", x="{1, 2}", z="{1, 2}", v="{1, 3}"))


# ---------------------------------------------------------------------- Types
def types(name, slots="h1 h2", kinds="all", acts="", on="BS CE", plain=False, bindings=None, thorough=None, walks=((300, 40), (8000, 80)), **kw):
    b = bindings or [("host", "internal"), ("guest", "all")]
    return Job(name, "Types", "types", dict(Slots=strset(slots), Kinds=strset(kinds), Acts=strset(acts) if acts else "{}", On=strset(on), UsePlain="TRUE" if plain else "FALSE"),
               thorough or {}, ["TypeOK"], ["ToldOnce", "DepsFirst", "ReplayOnce", "Closed", "FailedSub", "OthersUndisturbed"] if not plain else [], walks=walks,
               bindings=[{"prefix": [dict(op="Bind", transceiver=t, policy=p)], "family": f"{t}/{p}"} for t, p in b], **kw)


add("C23",
    types("plain", plain=True, bindings=[("host", "fundamental")]),
    types("kinds", kinds="all struct enum", slots="h1 h2", on="CE"),
    types("throw", acts="throw", on="AT CE"),
    types("unsub", acts="unsub", on="BS"),
    types("sub", acts="sub", on="BS CE", slots="h1 h2"),
    types("reg", acts="reg", on="BS CE", slots="h1"),
    types("mix", kinds="all", acts="throw unsub sub reg", on="AT BS CE VC", slots="h1 h2 h3", simulate=((150, 50), (4000, 100))))


# ----------------------------------------------------------------------- Subs
def subs(name, ops="", places="{1}", slots="a b", kinds="ev", extra="", maxhs=2, thorough=None, walks=((300, 40), (8000, 80)), **kw):
    return Job(name, "Subs", "subs", dict(Places=places, Slots=strset(slots), Kinds=strset(kinds), Ops=strset(ops) if ops else "{}", Extra=strset(extra) if extra else "{}", MaxHs=str(maxhs)),
               thorough or {}, ["TypeOK", "LabelsUnique"], ["EndedOnlyByItsOwner", "DiscardKeeps", "DropEnds", "ToldAreSubscribed"], walks=walks,
               bindings=[{"prefix": [dict(op="Bind", transceiver=t)], "family": t} for t in ("host", "guest")], **kw)


add("C25",
    subs("objects", "Discard MoveSub Clear Destroy", kinds="ev raw new", maxhs=2),
    subs("forms", "Clear Destroy", kinds="ev evd evn raw rawn new", maxhs=2),
    subs("moves", "MoveT Destroy", places="{1, 2}", kinds="evd new", maxhs=2),
    subs("own", "MoveT Destroy Clear", places="{1, 2}", kinds="ev new", extra="own", maxhs=2),
    subs("drop", "Discard", slots="a b c", kinds="ev raw new", extra="drop", maxhs=2),
    subs("all", "MoveT Destroy Clear Discard MoveSub", places="{1, 2}", slots="a b c", kinds="ev evn raw new", extra="own drop", maxhs=4, simulate=((150, 60), (3000, 120))))


# ------------------------------------------------------------------- Endpoint


def endpoint(name, ops, slots="a", schemes="tcp uds-v2", users="u vvvv", words="ww", hosts="h 127.0.0.1 ::1", ports="1 65535", paths="/ /q/r", simulate=None, walks=((300, 60), (6000, 120)), **kw):
    e = lambda s: "{" + ", ".join('"%s"' % x for x in [""] + s.split()) + "}"
    return Job(name, "Endpoint", "endpoint", dict(Slots=strset(slots), Schemes=strset(schemes), Users=e(users), Words=e(words), Hosts=strset(hosts), Ports=e(ports), Paths=e(paths),
                                                  Ops=strset(ops)), {},
               ["TypeOK", "Readable"], ["RefusedChangesNothing", "OnlyThatPart"], walks=walks, simulate=simulate,
               bindings=[{"prefix": [dict(op="Bind", slots=slots.split())], "family": "endpoint"}], **kw)


add("C32",
    endpoint("parts", "build set"),
    endpoint("objects", "build set", slots="a b", schemes="ws", users="u", words="w", hosts="hh ::1", ports="7", paths="/p", walks=((0, 0), (6000, 120))),
    endpoint("texts", "build list try", users="u", words="", hosts="h", ports="1", paths="/p", walks=((0, 0), (1000, 60))))


# ------------------------------------------------------------------- Registry
def registry(name, policy, hook, handled=True):
    return Job(name, "Registry", "registry", dict(Policy=f'"{policy}"', Hook=f'"{hook}"', Handled="TRUE" if handled else "FALSE"), {},
               ["TypeOK"], ["NeverReplaced", "PartsFirst", "ToldOnce", "RefusedKeeps"], walks=((100, 60), (1000, 100)),
               bindings=[{"prefix": [dict(op="Bind", policy=policy, hook=hook, handled=handled, only=only)], "family": f} for f, only in (("used", False), ("inner", True))])


add("C36",
    registry("empty", "fundamental", "none"),
    registry("silent", "fundamental", "none", handled=False),
    registry("tone", "fundamental", "tone"),
    registry("nest", "internal", "nest"),
    registry("full", "all", "none"))


# ------------------------------------------------------------------------- Fd
def fd(name, slots, n, conds, most, ops, **kw):
    return Job(name, "Fd", "fd", dict(Slots=strset(slots), N=n, Conds=strset(conds), Most=most, Ops=strset(ops)), kw.pop("thorough", {}),
               ["TypeOK"], ["OnlyLive", "OverStays", "Called"], walks=((60, 60), (1000, 100)),
               bindings=[{"prefix": [dict(op="Bind", slots=slots.split(), n=n)], "family": "fd"}], **kw)


add("C37",
    fd("reads", "a b", 2, "read", 2, "move peer hang plan"),
    fd("kinds", "a b", 2, "read write error", 1, "peer hang plan"),
    fd("three", "a b", 3, "read", 1, "move peer plan", thorough=dict(Conds=strset("read write"), Most=2)))


# ------------------------------------------------------------------- Notation
def notation(name, ops):
    return Job(name, "Notation", "notation", dict(Ops=strset(ops), Dense="FALSE"), dict(Dense="TRUE"), ["TypeOK"], [], walks=((0, 0), (200, 60)),
               bindings=[{"prefix": [dict(op="Bind")], "family": "notation"}])


add("C35",
    notation("durations", "duration"),
    notation("points", "point"),
    notation("ids", "id"),
    notation("nets", "net"))


# ----------------------------------------------------------------------- Pool
def pool(name, types, keys, walks=((200, 50), (5000, 100)), thorough=None):
    return Job(name, "Pool", "pool", dict(Types=strset(types), Keys=keys, Ops="{}"), thorough or {}, ["TypeOK"], ["OnlyThatType", "RemovedIsHeld"], walks=walks,
               bindings=[{"prefix": [dict(op="Bind", types=types.split())], "family": types}])


add("C28", pool("pool", "C S One", "{1, 2}", thorough=dict(Keys="{1, 2, 3}")))


# --------------------------------------------------------------------- Stream
def stream(name, on, links="{1}", kinds="s l", garbage="", pn=5, msgs=2, arms="", cuts="", modes="shared", tos="", thorough=None, walks=((300, 30), (6000, 40)), **kw):
    n = len(tlaset(links))
    tos = tos or ("{{1}}" if n == 1 else "{{1}, {2}, {1, 2}}")
    return Job(name, "Stream", "stream", dict(Links=links, Tos=tos, Kinds=strset(kinds), Garbage=strset(garbage) if garbage else "{}", PN=str(pn), MaxMsgs=str(msgs),
                                              Arms=strset(arms) if arms else "{}", Cuts=strset(cuts) if cuts else "{}", Modes=strset(modes)),
               thorough or {}, ["TypeOK", "Prompt", "Clean", "Bounded"], ["NothingAfterTheEnd", "InOrder"], walks=walks,
               compare=lambda cmd, exp, got: [x for x in mbt.diff_fields(exp, got) if x != "pend" or "pend" in got],
               bindings=[{"prefix": [dict(op="Bind", transport=t.rstrip("<"), flip=t.endswith("<"), links=n)], "family": t} for t in on.split()], **kw)


SCRIPTED = "mock1 mock2"
REAL = "tcp1 tcp1< tcp2 tcp2< uds1 uds1< uds2 uds2< ws ws<"
add("C20",
    stream("pieces", SCRIPTED, kinds="s p e l", thorough=dict(MaxMsgs="3", Kinds=strset("s l"))),
    stream("many", SCRIPTED, kinds="s", pn=1, msgs=6, arms="stop drop drop2 throw", cuts="eof reset release"),
    stream("big", SCRIPTED, kinds="h", pn=3, msgs=2, cuts="release"),
    stream("ends", SCRIPTED, kinds="s", pn=3, arms="stop drop", cuts="eof reset release"),
    stream("shared", SCRIPTED, links="{1, 2}", kinds="s k", pn=1, msgs=3, modes="shared plain"),
    stream("full", SCRIPTED, kinds="G", pn=1, msgs=5, constraints=["Unread"], walks=((10, 12), (300, 16)), thorough=dict(Kinds=strset("G s"))),
    stream("fullshared", "mock2", links="{1, 2}", tos="{{1, 2}}", kinds="G", pn=1, msgs=4, modes="shared", constraints=["Unread"], walks=((10, 12), (300, 16)), thorough=dict(MaxMsgs="5")),
    stream("garbage1", "mock1", kinds="s", pn=1, msgs=4, garbage="nohdr nosize type notype bytes value size short"),
    stream("garbage2", "mock2", kinds="s", pn=1, msgs=4, garbage="type notype bytes value size short"),
    stream("sockets", REAL, kinds="s p", pn=5, msgs=2),
    stream("sockends", REAL, kinds="s", pn=2, msgs=2, arms="stop drop drop2", cuts="eof reset release"),
    stream("sockbig", REAL, kinds="l", pn=1, msgs=3),
    stream("sockbulk", "tcp1 tcp1< tcp2 tcp2< uds1 uds1< uds2 uds2<", kinds="H", pn=1, msgs=3, walks=((10, 12), (300, 12))),
    stream("sockgarbage", "tcp2 tcp2< uds1 uds2<", kinds="s", pn=1, msgs=3, garbage="type notype bytes value"),
    stream("wsgarbage", "ws ws<", kinds="s", pn=1, msgs=3, garbage="type notype bytes value short frame close"),
    stream("sockshared", "tcp1 tcp2 uds1 uds2", links="{1, 2}", kinds="s k", pn=1, msgs=2, modes="shared plain"))


# ------------------------------------------------------------------- Describe
def describe(name, universe, role="host", peers="a b c", pub="a", sub="c", static="", local="", late="", joins="", alts="", whites=(), blacks=(), echoes="", churn="", early="", bads="", thorough=None, walks=((400, 40), (10000, 80)), **kw):
    s = lambda x: strset(x) if x else "{}"
    return Job(name, "Describe", "describe", dict(Role=f'"{role}"', Peers=s(peers), Pub=s(pub), Sub=s(sub), Universe=s(universe), Static=s(static), Local=s(local),
               Late=s(late), JoinNames=s(joins), Alts=s(alts), Whites=sets(whites), Blacks=sets(blacks), Echoes=s(echoes), Churn=s(churn), Bads=s(bads), Early=s(early)),
               thorough or {}, ["TypeOK", "Resolvable"], ["OnceOnly", "BeforeUse", "Complete", "KnownStays", "OnlyRequester"], walks=walks,
               bindings=[{"prefix": [dict(op="Bind", role=role, peers=peers.split(), statics=static.split(), universe=universe.split() + ["VtBad"] * bool(bads), early=early.split())], "family": role}], **kw)


def sets(lists):
    """a set of lists of names, '-' is an absent list"""
    return "{" + ", ".join(strset(x) if x else "{}" for x in lists) + "}"


def subsets(names):
    o = [""]
    for n in names.split():
        o += [(x + " " + n).strip() for x in o]
    return o


BADS = "tag32 tag33 tagbig twice twicekey noname notype notag noprops nokey noprop novector itself enumname enumtag enumvalue enumelems"
add("C17",
    describe("learn-mix", "VtColor VtSub VtMixK", pub="a b", sub="c", static="VtColor", joins="VtMixK StructDescriptorData", churn="a", early="a c"),
    describe("learn-dyn", "VtColor VtSub DyTone DyAll DyUp", pub="a", sub="b", peers="a b", static="VtColor", joins="DyAll DyUp VtSub EnumDescriptorData", churn="b"),
    describe("learn-all", "VtTone VtSub VtNest VtAll", pub="a b", sub="b", peers="a b", static="VtTone", joins="VtAll VtNest", churn="b"),
    describe("learn-key", "DyTone DyKeyed VtColor DyKeys", pub="a", sub="b", peers="a b", static="VtColor", joins="DyKeyed DyKeys", churn="b"),
    describe("learn-nested", "VtLeaf VtPart VtWhole", pub="a b", sub="b", peers="a b", joins="VtWhole VtPart StructDescriptorData"),
    describe("learn-odd", "DyInt DyOnly DyEmpty DyKeyless", pub="a", sub="b", peers="a b", joins="DyKeyless StructDescriptorData", churn="a"),
    describe("learn-alt", "VtSub VtMixK VtColor DyTone", pub="a b", sub="b", peers="a b", static="VtColor VtSub", joins="VtMixK", alts="VtSub VtMixK DyTone"),
    describe("local", "VtColor VtSub VtMixK VtNest", pub="a", sub="a b", peers="a b", static="VtColor VtSub VtNest", local="VtNest", joins="VtNest VtMixK", churn="b"),
    describe("late", "VtColor VtSub VtMixK VtNest VtStrU", pub="a", sub="b", peers="a b", static="VtColor", late="VtMixK VtNest VtStrU VtSub", joins="VtMixK VtNest"),
    describe("late-heard", "VtColor VtSub VtMixK VtNest", pub="a", sub="a b", peers="a b", static="VtColor", late="VtMixK VtNest", joins="VtMixK VtNest"),
    describe("bad", "VtColor VtSub VtMixK", pub="a", sub="b", peers="a b", static="VtColor", joins="VtMixK StructDescriptorData EnumDescriptorData", bads=BADS),
    describe("bad-guest", "VtColor VtSub VtMixK", role="guest", pub="h", sub="", peers="h", static="VtColor VtSub", local="VtSub", bads=BADS),
    describe("guest", "VtColor VtSub VtMixK VtNest DyTone DyAll", role="guest", pub="h", sub="", peers="h", static="VtColor VtSub VtMixK VtNest", local="VtMixK VtNest", churn="h"),
    describe("guest-all", "VtTone VtSub VtNest VtAll VtStrU", role="guest", pub="h", sub="", peers="h", static="VtTone VtSub VtNest VtAll", local="VtAll VtSub VtNest", alts="VtSub VtAll", churn="h"))
add("C18",
    describe("request-lists", "VtColor VtSub VtMixK VtOnlySub", pub="a", sub="b", peers="a b", static="VtColor",
             whites=["-"] + subsets("VtMixK VtSub") + ["Nope VtOnlySub", "VtColor"], blacks=["-"] + subsets("VtMixK VtOnlySub") + ["Nope VtSub"]),
    describe("request-some", "VtLeaf VtPart VtWhole DyInt VtTone", pub="a b", sub="b", peers="a b", static="VtTone VtLeaf",
             whites=["-", "VtPart DyInt VtTone", ""], blacks=["-", "VtWhole VtPart"], churn="b"),
    describe("request-spied", "VtSub VtIntC", pub="a", sub="a b", peers="a b", joins="DotsDescriptorRequest DotsEcho VtIntC",
             whites=["-", "VtIntC"], blacks=["-"], echoes="req rep none"),
    describe("request-early", "VtSub VtIntC VtLeaf", pub="a b", sub="b", peers="a b", joins="VtIntC", whites=["-", "VtIntC", ""], blacks=["-", "VtLeaf"], echoes="req rep none", churn="b", early="b"))


# --------------------------------------------------------------------- Daemon
def daemon(name, n, objs="", claims="run", leaves="bye fail", preload="{FALSE}", steps="{5}", watchers="{1}", breaks="FALSE", status=False, thorough=None, walks=((300, 50), (6000, 80)), **kw):
    s = lambda x: strset(x) if x else "{}"
    return Job(name, "Daemon", "daemon", dict(Max=str(n), Watchers=watchers, Objs=s(objs), Claims=s(claims), Leaves=s(leaves), Preload=preload, Steps=steps, Breaks=breaks, Status="TRUE" if status else "FALSE"),
               thorough or {}, ["TypeOK", "Mirrors", "ReferredStays", "NoOrphans"], ["OnlySweeps", "SweepsClean"] + (["StatusStays", "StatusComes", "StatusCurrent"] if status else []), walks=walks,
               bindings=[{"prefix": [dict(op="Bind", max=n, objs=objs.split(), status=status)], "family": "daemon"}], **kw)


add("C26",
    daemon("life", 3, objs="C", claims="", preload="{TRUE, FALSE}", leaves="bye"),
    daemon("pinned", 3, objs="C D", claims="", leaves="bye", steps="{10}", watchers="{}"),
    daemon("claims", 2, claims="run other closed remove", leaves="bye"),
    daemon("pins", 2, objs="C", claims="other closed", leaves="bye", watchers="{}", steps="{10}"),
    daemon("breaks", 3, objs="D", claims="run", watchers="{1, 2}", breaks="TRUE", leaves="error fail bye", steps="{10}"),
    daemon("rules", 3, objs="L", claims="", leaves="bye", watchers="{}", steps="{5, 20}"))
add("C34",
    daemon("status", 2, objs="D", claims="run", leaves="bye", watchers="{1}", steps="{1, 3}", status=True, thorough=dict(Objs=strset("C D"), Leaves=strset("bye fail"), Watchers="{1, 2}")),
    daemon("statusrules", 2, objs="L", claims="", leaves="error", watchers="{1}", steps="{2, 10}", status=True))


# --------------------------------------------------------------------- Timers
def timers(name, apis, ops="Destroy", slots="{1, 2}", labels="{1, 2}", ivals="{1, 2}", periodic="{TRUE, FALSE}", deeds="none", victim=1, steps="{1}", thorough=None, walks=((300, 60), (6000, 100)), **kw):
    return Job(name, "Timers", "timers", dict(Slots=slots, Labels=labels, Ivals=ivals, Periodic=periodic, Deeds=strset(deeds), Victim=str(victim), Steps=steps, Ops=strset(ops)),
               thorough or {}, ["TypeOK"], ["OnceNotEarly", "NotMissed", "Rhythm", "OnlyAdvanceCalls"], walks=walks,
               bindings=[{"prefix": [dict(op="Bind", api=a, victim=victim, labels=len(tlaset(labels)), unit=u)], "family": a} for a in apis.split() for u in (100, )], **kw)


add("C29",
    timers("objects", "timer", "Destroy Discard Move", deeds="none destroy discard again", steps="{1, 3}"),
    timers("ids", "id", "Destroy", deeds="none destroy again", steps="{1, 2, 5}", ivals="{1, 2, 3}"),
    timers("made", "create", "Destroy Move", deeds="none destroy again", steps="{1, 3}"),
    timers("kill", "timer id", "Destroy", deeds="none kill", ivals="{2, 3}", steps="{1, 2}"),
    timers("killall", "timer", "Destroy", slots="{1, 2, 3}", labels="{1, 2, 3}", deeds="kill", ivals="{1, 2}", steps="{1, 2}", thorough_only=True))


# --------------------------------------------------------------------- System
def system(name, ops, guests=2, links=None, types="C", keys="{1}", p="{1, 2}", q="{0}", start=None, preload="", up=3, down=3, total=2, thorough=None, walks=((300, 60), (6000, 120)), **kw):
    links = links or guests
    start = list(range(1, guests + 1)) if start is None else start
    nums = lambda n: "{" + ", ".join(str(x) for x in n) + "}"
    c = dict(Guests=nums(range(1, guests + 1)), Links=nums(range(1, links + 1)), Types=strset(types), Keys=keys, PVals=p, QVals=q, Start=nums(start),
             Preload=strset(preload) if preload else "{}", Ops=strset(ops), MaxUp=str(up), MaxDown=str(down), MaxAll=str(total), Sample="TRUE" if "simulate" in kw else "FALSE")
    return Job(name, "System", "system", c, thorough or {}, ["TypeOK", "Converging", "Converged", "NeverStale", "NoOrphans", "JoinedOrJoining"], walks=walks,
               bindings=[{"prefix": [dict(op="Bind", family="Int", types=types.split(), guests=list(range(1, guests + 1)), start=start)], "family": "Int"}], **kw)


add("C12",
    system("races", "pub rm hpub", total=2),
    system("merges", "pub hpub rm", p="{0, 1}", q="{0, 1}", guests=2, total=2, up=1, down=2),
    system("plain", "pub hpub sub open unsub", types="U", start=[1], p="{1}", total=3),
    system("early", "open destroy pub hpub", start=[1], p="{1}", total=2),
    system("join", "open sub pub hpub hrm", start=[1], p="{1}", total=3),
    system("preload", "open sub pub hpub hrm", start=[1], p="{1}", preload="C", total=3),
    system("keys", "open sub pub rm", guests=2, start=[1], keys="{1, 2}", p="{1}", total=2),
    system("cleared", "open sub pub clear hpub", guests=2, start=[1], keys="{1, 2}", p="{1}", total=2),
    system("leave", "pub destroy fail hpub rm", types="D", p="{1}", total=2),
    system("leavejoin", "pub destroy fail open sub", types="D", links=3, start=[1], p="{1}", total=2),
    system("back", "pub rm fail open", links=3, p="{1}", total=2),
    system("three", "pub rm hpub fail", guests=3, p="{1}", types="D", total=2, up=1, down=2, thorough_only=True),
    system("all", "open sub unsub pub rm hpub hrm fail destroy clear", guests=3, links=7, types="C D U", keys="{1, 2}", p="{0, 1, 2}", q="{0, 1}", start=[1, 2], up=8, down=8, total=8,
           simulate=((200, 80), (4000, 150))),
    system("allpre", "open sub unsub pub rm hpub hrm fail destroy", guests=3, links=6, types="C D U", keys="{1, 2}", p="{0, 1}", start=[1], preload="C D U", up=8, down=8, total=8,
           simulate=((150, 60), (4000, 120))))

# a guest keeps its cache while it is not connected, and what it is sent when it comes back is only added to it
_up, _down = (lambda l: [dict(op="Up", l=l), {}]), (lambda l: [dict(op="Down", g=1, l=l), {}])
_back = [[dict(op="Publish", g=1, t="C", v=dict(k=1, p=1, q=0), rm=False), {}], _up(1), _down(1), [dict(op="Fail", g=1), {}], _up(1),
         [dict(op="HostPublish", t="C", v=dict(k=1, p=0, q=0), rm=True), {}]]
_again = [[dict(op="Open", g=1, l=2, fresh=False, preload=[]), {}], _up(2), _down(2), _up(2), _down(2), _up(2), _up(2), _down(2)]
KNOWN.setdefault("C12", []).append(dict(id="kept-while-away", property="C12", harness="system", env=None,
    what="an instance removed while a guest is not connected stays in the cache of the guest after it has connected and subscribed again",
    prefix=[dict(op="Bind", family="Int", types=["C"], guests=[1], start=[1])],
    path=_back + _again + [[dict(op="Down", g=1, l=2), dict(guests=[dict(c=dict(C=[]), on=True, held=True)])]]))
KNOWN["C12"].append(dict(id="merged-after-away", property="C12", harness="system", env=None,
    what="an instance removed and created again while a guest is not connected has the properties of both in the cache of the guest after it has connected and subscribed again",
    prefix=[dict(op="Bind", family="Int", types=["C"], guests=[1], start=[1])],
    path=_back + [[dict(op="HostPublish", t="C", v=dict(k=1, p=0, q=1), rm=False), {}]] + _again +
         [_down(2), _down(2), [dict(op="Down", g=1, l=2), dict(guests=[dict(c=dict(C=[dict(v=dict(k=1, p=0, q=1), by=0)]), on=True, held=True)])]]))


# ------------------------------------------------------------------- Listener
def listener(name, on, n=3, kinds="good gone", ops="leave", thorough=None, walks=((200, 30), (4000, 50)), **kw):
    c = dict(Clients="{" + ", ".join(str(i + 1) for i in range(n)) + "}", Kinds=strset(kinds), Shakes="TRUE" if on == "ws" else "FALSE", Ops=strset(ops) if ops else "{}")
    return Job(name, "Listener", "listener", c, thorough or {}, ["TypeOK"], ["Served", "Undisturbed", "KeepsListening"], walks=walks,
               bindings=[{"prefix": [dict(op="Bind", transport=t)], "family": t, "env": {"VT_STEP_TIMEOUT": "5"}} for t in on.split()], **kw)


SOCKETS = "tcp1 tcp2 uds1 uds2"
add("C30",
    listener("vanish", SOCKETS, kinds="good gone reset", ops="leave tell"),
    listener("stops", SOCKETS, kinds="good gone", ops="stop destroy tell"),
    listener("ends", SOCKETS, n=2, kinds="good reset", ops="leave say tell destroy"),
    listener("opening", "ws", kinds="good silent half bad", ops=""),
    listener("wsvanish", "ws", kinds="good silent gone reset late", ops="leave"),
    listener("wsstops", "ws", n=3, kinds="good silent", ops="stop destroy tell"),
    listener("wsends", "ws", n=2, kinds="good half bad", ops="leave say tell destroy"))


# ---------------------------------------------------------------- Application
def app(name, ops="", keys="{1}", ps="{0, 1}", kinds="global", vias="arg", wheres="uds", users="-", pws="-", srcs="url", locks="{FALSE}", rudes="", plans="", lists="", thorough=None, walks=((200, 30), (3000, 60)), **kw):
    s = lambda x: strset(x).replace('"-"', '""') if x else "{}"
    return Job(name, "App", "app", dict(Keys=keys, Ps=ps, Kinds=s(kinds), Vias=s(vias), Wheres=s(wheres), Users=s(users), Pws=s(pws), Srcs=s(srcs), Locks=locks, Rudes=s(rudes), Plans=s(plans), Lists=s(lists), Ops=s(ops)),
               thorough or {}, ["TypeOK", "Preloaded", "NobodyLeft"], ["FailedIsNothing", "StaysConnected", "Guarded"], walks=walks,
               bindings=[{"prefix": [dict(op="Bind")], "family": "app"}], **kw)


add("C33",
    app("starts", "host", kinds="global own", vias="arg args env both", wheres="tcp uds nowhere scheme", users="- user", pws="- right wrong", srcs="url arg env argenv", locks="{TRUE, FALSE}", plans="exit"),
    app("rude", "host put", kinds="global own", rudes="close err0 err5 hello hello0 refuse INT TERM helloINT", plans="INT"),
    app("runs", "host put appput sub second", kinds="global own", keys="{1, 2}", ps="{0, 1, 2}", plans="exit late timer INT TERM throw host event"),
    app("hosts", "visit", kinds="", lists="tcp uds both envs over scheme second", plans="exit INT TERM throw timer"))
