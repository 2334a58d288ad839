ID = "C25"
RULE = ("state = (map, fault point and kind, contents of the butler); transitions = register attempts and complete comparisons of the butler's records with the model; "
        "a trace = one history: fault(s), then an undisturbed registration")
BOUNDS = {"quick": "2 maps x (fresh butler, butler with another map registered): a fault before and after every butler call made by register, of 4 exception kinds, then repeated with the same or new map and butler objects; before and after every SQL statement from the first insertion on and every transaction boundary; "
                   "at every WCS call; the process killed before every SQL statement and transaction boundary",
          "thorough": "additionally 2 more maps, and every pair of butler-call faults in two successive attempts in the same butler"}
ASSUMPTIONS = ["SQLite transactions are atomic; exceptions raised by sqlalchemy event hooks stand for database errors",
               "registering the run collection and the dataset type, which precedes the first insertion, is atomic (daf_butler's own matter)"]


class Injected(Exception):
    pass


def kinds():
    from .. import butlers as B
    return [Injected, OSError, KeyboardInterrupt, B.ConflictingDefinitionError]


class Proxy:
    """Forwards everything to the real object, with a fault point before and after each call."""

    def __init__(self, obj, plan):
        object.__setattr__(self, "_obj", obj)
        object.__setattr__(self, "_plan", plan)

    def __getattr__(self, name):
        v = getattr(self._obj, name)
        plan = self._plan
        if name == "registry":
            return Proxy(v, plan)
        if not callable(v) or name.startswith("__"):
            return v

        def call(*a, **k):
            plan.point("before " + name)
            r = v(*a, **k)
            if hasattr(r, "__enter__") and hasattr(r, "__exit__"):
                return Managed(r, plan, name)
            plan.point("after " + name)
            return r
        return call


class Managed:
    def __init__(self, cm, plan, name):
        self.cm, self.plan, self.name = cm, plan, name

    def __enter__(self):
        self.plan.point("before entering " + self.name)
        r = self.cm.__enter__()
        try:
            self.plan.point("after entering " + self.name)
        except BaseException as e:
            self.cm.__exit__(type(e), e, e.__traceback__)
            raise
        return r

    def __exit__(self, *exc):
        if exc[0] is None:
            # a failure of the commit itself
            try:
                self.plan.point("at the end of " + self.name)
            except BaseException as e:
                self.cm.__exit__(type(e), e, e.__traceback__)
                raise
        r = self.cm.__exit__(*exc)
        if exc[0] is None:
            self.plan.committed = True
        return r


class Plan:
    def __init__(self, at=None, kind=None, kill=False):
        self.at, self.kind, self.kill = at, kind, kill
        self.n = 0
        self.seen = []
        self.fired = None
        self.committed = False
        self.off = False
        self.waiting = False

    def point(self, label):
        if self.off or self.waiting:
            return
        i = self.n
        self.n += 1
        self.seen.append(label)
        if i == self.at:
            if self.kill:
                import os
                os._exit(42)
            self.fired = self.kind("injected %s" % label)
            raise self.fired


def api_points(b, plan, m, name):
    m.register(name, b if isinstance(b, Proxy) else Proxy(b, plan))


def sql_points(b, plan, m, name):
    from sqlalchemy import event
    from sqlalchemy.engine import Engine

    # Only from the first insertion on: the registration of run collections and
    # dataset types before it is the butler's own, and is not atomic.
    plan.waiting = True

    def before(conn, cur, st, par, ctx, many):
        w = st.upper().split()
        if w[:2] == ["INSERT", "INTO"] and w[2].strip('"').split(".")[-1] in ("SKYMAP", "TRACT", "PATCH"):
            plan.waiting = False
        plan.point("before %s" % " ".join(st.split()[:3]))

    def after(conn, cur, st, par, ctx, many):
        plan.point("after %s" % " ".join(st.split()[:3]))

    def commit(conn):
        plan.point("before COMMIT")
    hooks = [("before_cursor_execute", before), ("after_cursor_execute", after), ("commit", commit)]
    for e, f in hooks:
        event.listen(Engine, e, f)
    try:
        m.register(name, b)
    finally:
        plan.off = True
        for e, f in hooks:
            event.remove(Engine, e, f)


def wcs_points(b, plan, m, name):
    from .. import maps
    S = maps.afwgeom.SkyWcs
    old = S.pixelToSky

    def pixelToSky(self, *a):
        plan.point("WCS")
        return old(self, *a)
    S.pixelToSky = pixelToSky
    try:
        m.register(name, b)
    finally:
        plan.off = True
        S.pixelToSky = old


ROUTES = dict(api=api_points, sql=sql_points, wcs=wcs_points)


def specs():
    from .. import maps
    return [maps.discrete([10., 50.], [0., 20.], [.2, .4], scale=200.0),
            maps.discrete([200.0], [-70.0], [.1], scale=90.0, builder=maps.CELL),
            maps.rings(3, 20.0, ov=1.0, npix=20, builder=maps.LEG0),
            maps.equat(12, (0.0, 2.0), ov=0.2, builder=maps.LEG0)]


def prepare(b, prior):
    """Another registered map, which must stay as it is."""
    from .. import butlers as B
    from .. import maps
    if not prior:
        return dict(skymap=[], tract=[], patch=[], datasets=[])
    o = maps.discrete([80.0], [3.0], [.1], scale=60.0).make()
    o.register("other", b)
    return B.expected("other", o)


def attempt(ctx, route, b, spec, plan, m=None):
    """One register attempt; returns True if it reported success."""
    try:
        ROUTES[route](b, plan, m or spec.make(), "survey")
    except BaseException as e:
        if plan.fired is None or e.__class__.__name__ in ("Timeout", "Violation"):
            raise
        seen, x = set(), e
        ok = False
        while x is not None and id(x) not in seen:
            ok = ok or x is plan.fired
            seen.add(id(x))
            x = x.__cause__ or x.__context__
        ctx.check(ok, "the injected %r reached the caller as an unrelated %r", plan.fired, e)
        ctx.check(isinstance(e, type(plan.fired)) or ok and route == "sql", "injected %r reached the caller as %r", plan.fired, e)
        return False
    return True


def faults(ctx, index, prior, route, kindlist, part, parts):
    from .. import butlers as B
    spec = specs()[index]
    want = B.expected("survey", spec.make())
    # count the points of an undisturbed registration
    with B.repo() as path, B.opened(path) as b:
        prepare(b, prior)
        p = Plan()
        ok = attempt(ctx, route, b, spec, p)
        ctx.check(ok, "undisturbed registration failed")
        labels = p.seen
    ctx.check(len(labels) > (0 if route == "wcs" else 5), "only %d fault points", len(labels))
    ctx.notes["fault_points"] = len(labels) if part == 0 else 0
    for at in range(part, len(labels), parts):
        for kind in kindlist:
            with B.repo() as path:
                with B.opened(path) as b:
                    before = prepare(b, prior)
                    full = B.merge(before, want)
                    p = Plan(at, kind)
                    ctx.begin(spec, route, "fault %d %s" % (at, labels[at]), kind.__name__)
                    ctx.step("register", labels[at])
                    # every other time, the same objects are used again
                    m = spec.make() if (at + kindlist.index(kind)) % 2 == 0 else None
                    proxy = Proxy(b, p) if route == "api" else b
                    ok = attempt(ctx, route, proxy, spec, p, m)
                    ctx.check(not (ok and p.fired is not None), "register hides the failure %r", p.fired)
                    if p.fired is None:
                        ctx.check(ok, "register failed without a fault")
                    state = full if p.fired is None or p.committed else before
                    ctx.state(spec, route, at, kind.__name__)
                    with B.opened(path) as b2:
                        d = B.diff(B.snapshot(b2), state)
                        ctx.check(d is None, "after a fault %s: %s", labels[at], d)
                    if route != "sql":
                        ctx.step("register again", "same butler")
                        p.off = True
                        (m or spec.make()).register("survey", proxy)
                        d = B.diff(B.snapshot(b), full)
                        ctx.check(d is None, "after a fault %s and repeating: %s", labels[at], d)
                with B.opened(path) as b:
                    ctx.step("register again", "new butler")
                    (m or spec.make()).register("survey", b)
                    d = B.diff(B.snapshot(b), full)
                    ctx.check(d is None, "after a fault %s and repeating in a new butler: %s", labels[at], d)
                ctx.end((route, labels[at], kind.__name__))


def crash(ctx, index, prior, part, parts):
    """The process dies at the fault point."""
    import os
    import signal
    from .. import butlers as B
    spec = specs()[index]
    want = B.expected("survey", spec.make())
    with B.repo() as path, B.opened(path) as b:
        prepare(b, prior)
        p = Plan()
        attempt(ctx, "sql", b, spec, p)
        labels = p.seen
    for at in range(part, len(labels), parts):
        if not labels[at].startswith("before"):
            continue
        with B.repo() as path:
            with B.opened(path) as b:
                before = prepare(b, prior)
            full = B.merge(before, want)
            pid = os.fork()
            if pid == 0:
                try:
                    signal.alarm(0)
                    c = B.Butler.from_config(path, writeable=True)
                    sql_points(c, Plan(at, None, kill=True), spec.make(), "survey")
                finally:
                    os._exit(7)
            _, status = os.waitpid(pid, 0)
            ctx.begin(spec, "killed at %d %s" % (at, labels[at]))
            ctx.step("kill", labels[at])
            ctx.check(os.WIFEXITED(status) and os.WEXITSTATUS(status) == 42, "the crashing process ended with status %d", status)
            with B.opened(path) as b:
                d = B.diff(B.snapshot(b), before)
                ctx.check(d is None, "after a crash %s: %s", labels[at], d)
                ctx.state(spec, at)
                ctx.step("register again")
                spec.make().register("survey", b)
                d = B.diff(B.snapshot(b), full)
                ctx.check(d is None, "after a crash %s and repeating: %s", labels[at], d)
            ctx.end(("crash", labels[at]))


def pairs(ctx, index, part, parts):
    """Faults in two successive attempts, then success, all in one butler."""
    from .. import butlers as B
    spec = specs()[index]
    want = B.expected("survey", spec.make())
    with B.repo() as path, B.opened(path) as b:
        p = Plan()
        attempt(ctx, "api", b, spec, p)
        n = len(p.seen)
        labels = p.seen
    k = 0
    for a in range(n):
        for c in range(n):
            k += 1
            if k % parts != part:
                continue
            with B.repo() as path, B.opened(path) as b:
                ctx.begin(spec, "faults", labels[a], labels[c])
                for at in (a, c):
                    p = Plan(at, Injected)
                    ctx.step("register", at)
                    attempt(ctx, "api", b, spec, p)
                    state = want if p.committed else dict(skymap=[], tract=[], patch=[], datasets=[])
                    d = B.diff(B.snapshot(b), state)
                    ctx.check(d is None, "after faults %s, %s: %s", labels[a], labels[c], d)
                    if p.committed:
                        break
                spec.make().register("survey", b)
                d = B.diff(B.snapshot(b), want)
                ctx.check(d is None, "after faults %s, %s and repeating: %s", labels[a], labels[c], d)
                ctx.state(a, c)
                ctx.end((a, c))


def scenarios(tier):
    big = tier == "thorough"
    ks = kinds()
    for i in range(4 if big else 2):
        for prior in (False, True):
            if prior and i != 0 and not big:
                continue
            for q in range(6):
                yield "api map %d prior %d part %d" % (i, prior, q), faults, (i, prior, "api", ks, q, 6)
            for q in range(8):
                yield "sql map %d prior %d part %d" % (i, prior, q), faults, (i, prior, "sql", ks[:1], q, 8)
            for q in range(2):
                yield "wcs map %d prior %d part %d" % (i, prior, q), faults, (i, prior, "wcs", ks[:1], q, 2)
            for q in range(4):
                yield "crash map %d prior %d part %d" % (i, prior, q), crash, (i, prior, q, 4)
    if big:
        for i in range(4):
            for q in range(16):
                yield "pairs map %d part %d" % (i, q), pairs, (i, q, 16)
